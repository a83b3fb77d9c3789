------------------------------ MODULE KsuElf ------------------------------
(* An ELF file as signing sees it: a sequence of sections, one of them the      *)
(* table of section names; which of them a request selects, what is digested,   *)
(* and what signing does to the sequence.                                       *)
EXTENDS Integers, Sequences, FiniteSets
NOBITS == 8
CHUNK == 1048576
SIG == ".ksu_sign"
\* a section: name, type, flags, off, size; str: it is the name table
Names(f) == [i \in 1..Len(f.secs) |-> f.secs[i].name]
FirstNamed(f, n) == LET S == {i \in 1..Len(f.secs) : f.secs[i].name = n} IN
                    IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
Inside(f, s) == s.off + s.size <= f.len
\* a request is a sequence of names, already stripped of blanks
Selectable(f, n) ==
    /\ n # SIG /\ FirstNamed(f, n) > 0
    /\ LET s == f.secs[FirstNamed(f, n)] IN s.type # NOBITS /\ s.size > 0 /\ Inside(f, s)
Accepted(f, req) == req # <<>> /\ \A i \in 1..Len(req) : Selectable(f, req[i])
\* bytes in file order
Before(a, b) == a.off < b.off \/ (a.off = b.off /\ a.size < b.size)
RECURSIVE Insert(_, _)
Insert(l, x) == IF l = <<>> THEN <<x>> ELSE IF Before(x, Head(l)) THEN <<x>> \o l ELSE <<Head(l)>> \o Insert(Tail(l), x)
RECURSIVE Sorted(_)
Sorted(l) == IF l = <<>> THEN <<>> ELSE Insert(Sorted(SubSeq(l, 1, Len(l) - 1)), l[Len(l)])
Regions(f, req) == Sorted([i \in 1..Len(req) |-> LET s == f.secs[FirstNamed(f, req[i])] IN [name |-> req[i], off |-> s.off, size |-> s.size]])
RECURSIVE Cut(_, _)
Cut(from, to) == IF from >= to THEN <<>> ELSE LET n == IF to - from > CHUNK THEN CHUNK ELSE to - from IN <<[from |-> from, n |-> n]>> \o Cut(from + n, to)
RECURSIVE Chunks(_)
Chunks(rs) == IF rs = <<>> THEN <<>> ELSE Cut(Head(rs).off, Head(rs).off + Head(rs).size) \o Chunks(Tail(rs))

(* signing: the signature section is replaced where it is or added at the end;  *)
(* the name table may move and grow; everything else stays                      *)
HasNames(f) == \E i \in 1..Len(f.secs) : f.secs[i].str
SigSec(b) == [name |-> SIG, type |-> 1, flags |-> 0, off |-> -1, size |-> b, str |-> FALSE]
Signed(f, b) ==
    LET i == FirstNamed(f, SIG)
        moved == [j \in 1..Len(f.secs) |-> IF f.secs[j].str /\ i = 0 THEN [f.secs[j] EXCEPT !.off = -1, !.size = -1] ELSE f.secs[j]]
    IN [f EXCEPT !.secs = IF i = 0 THEN Append(moved, SigSec(b)) ELSE [moved EXCEPT ![i] = SigSec(b)]]
=============================================================================
