------------------------------ MODULE KsuReader ------------------------------
(* Reading n bytes from a reader that delivers what it likes: on every call it  *)
(* hands out any positive number of bytes up to what is asked for, or reports   *)
(* an interruption, or fails. A caller that loops until it has its n bytes gets *)
(* the same bytes however they are delivered, or an error.                      *)
EXTENDS Integers, Sequences
VARIABLES got, left, st, log      \* bytes so far, bytes the data still holds, "run"/"ok"/"err", deliveries
Deliver(want, k) ==
    LET n == IF k < want - got THEN k ELSE want - got IN
    LET m == IF n < left THEN n ELSE left IN
    /\ st = "run"
    /\ got' = got + m /\ left' = left - m
    \* the data may be shorter than what is wanted
    /\ st' = IF m = 0 THEN "err" ELSE IF got + m = want THEN "ok" ELSE "run"
    /\ log' = Append(log, k)
Interrupt == st = "run" /\ log' = Append(log, 0) /\ UNCHANGED <<got, left, st>>
Fail == st = "run" /\ st' = "err" /\ log' = Append(log, -1) /\ UNCHANGED <<got, left>>
\* only complete reads succeed
Complete(want) == st = "ok" => got = want
=============================================================================
