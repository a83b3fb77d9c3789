------------------------------ MODULE MCElf ------------------------------
(* ELF files of every class and byte order over a catalogue of sections, all    *)
(* requests over their names, and repeated signing.                             *)
EXTENDS ElfForms, TLC, Json
CONSTANTS MaxSecs, Lists,
          StrTab         \* also ask for the name table, which grows when a file is first signed
VARIABLES f, n                    \* the file, how often it was signed
vars == <<f, n>>
RECURSIVE Distinct(_)
Distinct(l) == IF l = <<>> THEN TRUE ELSE (\A i \in 2..Len(l) : l[i] # l[1]) /\ Distinct(Tail(l))
Chosen == IF Lists # {} THEN Lists ELSE {l \in UNION {[1..k -> DOMAIN Kinds] : k \in 0..MaxSecs} : Distinct(l)}

Init == /\ n = 0
        /\ \E l \in Chosen, c \in {32, 64}, en \in BOOLEAN, lay \in Layouts : f = File(l, c, en, lay)
\* at most two signings: a second one already is a re-signing
Next == n < 2 /\ n' = n + 1 /\ f' = Signed(f, 100 + n)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Asked(g) == {g.secs[i].name : i \in 1..Len(g.secs)} \ ({""} \cup (IF StrTab THEN {} ELSE {".shstrtab"}))
Requests(g) == LET A == Asked(g) \cup {".missing"} IN
    {<<>>} \cup {<<a>> : a \in A} \cup {<<a, b>> : a \in A, b \in A} \cup {x \in [1..3 -> Asked(g)] : Cardinality({x[1], x[2], x[3]}) = 3} \cup {<<".text", ".rodata">>}
NoDup(r) == Distinct(r)
\* never more than one signature section is added, and all others stay
OneSig == n > 0 => Cardinality({i \in 1..Len(f.secs) : f.secs[i].name = SIG /\ f.secs[i].off = -1}) = 1
\* the digest does not depend on the order of the request
OrderFree == \A r \in Requests(f) : (Len(r) = 2 /\ Accepted(f, r)) => Chunks(Regions(f, r)) = Chunks(Regions(f, Rev(r)))
Req(r) == [names |-> r, ok |-> Accepted(f, r), regs |-> IF Accepted(f, r) THEN Regions(f, r) ELSE <<>>, chunks |-> IF Accepted(f, r) THEN Chunks(Regions(f, r)) ELSE <<>>]
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})
Plans == SetToSeq({Req(r) : r \in {q \in Requests(f) : NoDup(q)}})
\* what the sections of the file must be after signing (-1: free)
Emit == n = 0 => PrintT(ToJson([f |-> f, reqs |-> Plans, after |-> Signed(f, 0).secs, again |-> Signed(Signed(f, 0), 0).secs]))
=============================================================================
