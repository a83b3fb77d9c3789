------------------------------ MODULE MCReaderRand ------------------------------
(* Long random delivery schedules (simulation mode).                              *)
EXTENDS MCReader
Pick(S) == RandomElement(S)
RSize(u) == LET k == Pick(1..5) IN IF k = 1 THEN Pick(1..8) ELSE IF k = 2 THEN Pick(9..600) ELSE IF k = 3 THEN Pick(4090..4100) ELSE IF k = 4 THEN Pick(1..70000) ELSE Pick(1040000..1060000)
RNext == /\ Len(log) < MaxLen /\ UNCHANGED data
         /\ LET k == Pick(1..30) IN IF k = 1 THEN Fail ELSE IF k <= 6 THEN Interrupt ELSE \E s \in {RSize(log)} : Deliver(Want, s)
RSpec == Init /\ [][RNext]_vars
\* (the schedule is what matters; it is cut where the abstract read ends)
EmitEnd == (log # <<>> /\ (st # "run" \/ Len(log) = MaxLen)) => PrintT(ToJson([steps |-> log]))
=============================================================================
