------------------------------ MODULE MCReader ------------------------------
(* All delivery schedules up to MaxLen steps of an abstract read, replayed with *)
(* every reader based entry point; the steps repeat (cycle) or end in plain     *)
(* deliveries. A schedule is a sequence of: -1 failure, 0 interruption,         *)
(* k > 0 at most k bytes.                                                       *)
EXTENDS KsuReader, TLC, Json
CONSTANTS MaxLen, Sizes, Want
VARIABLES data
vars == <<got, left, st, log, data>>
Init == got = 0 /\ st = "run" /\ log = <<>> /\ data \in {Want, Want - 1, Want \div 2, 0} /\ left = data
Next == /\ Len(log) < MaxLen
        /\ \/ \E k \in Sizes : Deliver(Want, k)
           \/ Interrupt
           \/ Fail
        /\ UNCHANGED data
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Whole == Complete(Want)
Short == st = "ok" => data >= Want
NoErrorNoFailure == st = "err" => (\E i \in 1..Len(log) : log[i] = -1) \/ data < Want
Emit == (log # <<>> /\ data = Want) => PrintT(ToJson([steps |-> log]))
=============================================================================
