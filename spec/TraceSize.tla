------------------------------ MODULE TraceSize ------------------------------
(* What signing made of contents of given sizes (recorded from the code) must   *)
(* be a behaviour of KsuPad. One state per record; a record that is not one is  *)
(* printed.                                                                     *)
EXTENDS KsuPad, TLC, Json
VARIABLES i
T == JsonDeserialize("trace.json")
Init == i \in 1..Len(T)
Next == FALSE /\ UNCHANGED i
Spec == Init /\ [][Next]_i
Want(r) == IF r.pad THEN Padded(r.c, FALSE) ELSE Plain(r.c)
Same(r) == LET w == Want(r) IN
    IF ~w.ok THEN ~r.ok ELSE r.ok /\ r.total = w.total /\ r.plen = w.pad /\ r.last
Emit == ~Same(T[i]) => PrintT(ToJson([i |-> i - 1, want |-> Want(T[i])]))
=============================================================================
