------------------------------ MODULE MCAlgData ------------------------------
(* Signatures over data of every length up to Max and around powers of two; a   *)
(* signature is good for that string only.                                      *)
EXTENDS KsuSign, TLC, Json
CONSTANTS Max
VARIABLES key, n, change
Keys == {"a256", "b256", "a384", "b384"}
Lens == 0..Max \cup UNION {{2^k - 1, 2^k, 2^k + 1} : k \in 8..20}
Changes == {"none", "first", "middle", "last", "drop", "append", "front"}
\* strings of equal name and length are the same string
Same(ch, m) == ch = "none"
Possible(ch, m) == m > 0 \/ ch \in {"none", "append", "front"}
Init == key \in Keys /\ n \in Lens /\ change = "none"
Next == change = "none" /\ (n < 300 \/ key \in {"a256", "a384"}) /\ change' \in {c \in Changes \ {"none"} : Possible(c, n)} /\ UNCHANGED <<key, n>>
Spec == Init /\ [][Next]_<<key, n, change>>
Unique == Same(change, n) <=> change = "none"
Emit == PrintT(ToJson([key |-> key, alg |-> Alg(key), n |-> n, change |-> change, ok |-> Same(change, n)]))
=============================================================================
