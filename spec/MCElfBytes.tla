------------------------------ MODULE MCElfBytes ------------------------------
(* Bytes presented as an ELF: files of the catalogue, signed or not, with one   *)
(* byte or word changed, or cut. Whatever comes, a value or an error is          *)
(* returned, and no section outside the file is digested.                        *)
EXTENDS MCElf
CONSTANTS Vals
TheLists == {<<"text", "bss", "out">>}
VARIABLES op
bvars == <<f, n, op>>
BInit == Init /\ op = [op |-> "none"]
BNext == /\ op.op = "none" /\ UNCHANGED <<f, n>>
         /\ op' \in {[op |-> "cut", v |-> 0, signed |-> s] : s \in BOOLEAN}
                 \cup {[op |-> "byte", v |-> v, signed |-> s] : v \in Vals, s \in BOOLEAN}
                 \cup {[op |-> "word", v |-> 0, signed |-> s] : s \in BOOLEAN}
BSpec == BInit /\ [][BNext]_bvars
\* the code may refuse such a file or not; sections it digests lie inside
BEmit == op.op # "none" => PrintT(ToJson([f |-> f, op |-> op.op, v |-> op.v, signed |-> op.signed]))
=============================================================================
