------------------------------ MODULE MCParse ------------------------------
(* Exploration of the accepted language: a catalogue of well-formed blocks,    *)
(* every single structural perturbation (a wrong length field or foreign bytes *)
(* in any container, with all enclosing lengths consistent) and every single   *)
(* byte change, truncation, insertion and deletion.                            *)
EXTENDS KsuBlock, TLC, Json

CONSTANTS Deep        \* TRUE: also pairs of structural perturbations

VARIABLES node, b, st
vars == <<node, b, st>>

\* a container: w bytes of length, own bytes, children, foreign bytes, length error
N(w, pre, kids) == [w |-> w, pre |-> pre, kids |-> kids, x |-> <<>>, d |-> 0]
Leaf(bytes) == N(0, bytes, <<>>)
F(bytes) == N(4, bytes, <<>>)
RECURSIVE SerN(_)
SerN(n) ==
    LET body == n.pre \o Concat([i \in 1..Len(n.kids) |-> SerN(n.kids[i])]) \o n.x
        l == IF n.d = 9999 THEN -1 ELSE IF Len(body) + n.d < 0 THEN 0 ELSE Len(body) + n.d
    IN (IF n.w = 0 THEN <<>> ELSE ToLE(l, n.w)) \o body
\* the block node carries two length fields: w = 24 both, 8 only the first, 16 only the second is disturbed
SerTop(n) ==
    LET body == n.pre \o Concat([i \in 1..Len(n.kids) |-> SerN(n.kids[i])]) \o n.x
        good == ToLE(Len(body) + 24, 8)
        bad == ToLE(IF n.d = 9999 THEN -1 ELSE IF Len(body) + 24 + n.d < 0 THEN 0 ELSE Len(body) + 24 + n.d, 8)
    IN (IF n.w \in {8, 24} THEN bad ELSE good) \o body \o (IF n.w \in {16, 24} THEN bad ELSE good) \o MAGIC

NEntry(alg, d) == N(4, alg, <<F(d)>>)
NAttr(id, d) == N(4, id \o d, <<>>)
NList(items) == N(4, <<>>, items)
Z4 == Leaf(<<0, 0, 0, 0>>)
NSD(d, c, a, tail) == N(4, <<>>, <<NList(d), NList(c), NList(a)>> \o tail)
NSigner(sd, g, k) == N(4, <<>>, <<sd, NList(g), F(k)>>)
Pair(id, kids) == N(8, id, kids)
A1 == <<1, 2, 0, 0>>
A2 == <<2, 2, 0, 0>>
AU == <<255, 255, 255, 255>>
Sg1 == NSigner(NSD(<<NEntry(A1, <<11, 12>>)>>, <<F(<<21, 22, 23>>)>>, <<NAttr(<<5, 0, 0, 0>>, <<9>>)>>, <<Z4>>), <<NEntry(A1, <<31, 32>>)>>, <<41, 42>>)
Sg0 == NSigner(NSD(<<>>, <<>>, <<>>, <<Z4>>), <<>>, <<>>)
Sg2 == NSigner(NSD(<<NEntry(A1, <<>>), NEntry(AU, <<1>>)>>, <<F(<<>>), F(<<2>>)>>, <<>>, <<>>), <<NEntry(A2, <<3>>), NEntry(AU, <<>>)>>, <<4>>)
St1 == NSigner(NSD(<<NEntry(A2, <<51>>)>>, <<F(<<61, 62>>)>>, <<NAttr(<<70, 89, 60, 228>>, <<1, 2, 3, 4, 5, 6, 7, 8>>)>>, <<>>), <<NEntry(A2, <<71>>)>>, <<81>>)
EL == Pair(ELFID, <<Leaf(<<2, 0, 0, 0>>), N(2, <<46, 116>>, <<>>), Leaf(<<1, 0, 0, 0, 0, 0, 0, 0>> \o <<255, 255, 255, 255, 255, 255, 255, 255>>),
                    N(2, <<195, 169>>, <<>>), Leaf(Zeros(16))>>)
Bases == <<
    N(0, <<>>, <<>>),
    N(0, <<>>, <<Pair(<<1, 0, 0, 0>>, <<>>)>>),
    N(0, <<>>, <<Pair(<<9, 9, 9, 9>>, <<Leaf(<<1, 2, 3>>)>>), Pair(PADID, <<Leaf(Zeros(5))>>)>>),
    N(0, <<>>, <<Pair(V2ID, <<NList(<<>>)>>)>>),
    N(0, <<>>, <<Pair(V2ID, <<NList(<<Sg1>>)>>)>>),
    N(0, <<>>, <<Pair(V2ID, <<NList(<<Sg0, Sg2>>)>>)>>),
    N(0, <<>>, <<Pair(STAMPID, <<St1>>)>>),
    N(0, <<>>, <<EL>>),
    N(0, <<>>, <<Pair(V2ID, <<NList(<<Sg0>>)>>), Pair(STAMPID, <<St1>>), Pair(<<75, 83, 85, 32>>, <<Leaf(First(MAGIC, 12))>>)>>),
    N(0, <<>>, <<Pair(<<3, 3, 3, 3>>, <<Leaf(<<8, 8>> \o ToLE(40, 8) \o MAGIC)>>), EL>>)
  >>

RECURSIVE Paths(_)
Paths(n) == {<<>>} \cup UNION { { <<i>> \o p : p \in Paths(n.kids[i]) } : i \in 1..Len(n.kids) }
RECURSIVE Set(_, _, _, _)
Set(n, p, x, d) ==
    IF p = <<>> THEN [n EXCEPT !.x = n.x \o x, !.d = d]
    ELSE [n EXCEPT !.kids[p[1]] = Set(n.kids[p[1]], Tail(p), x, d)]
RECURSIVE At(_, _)
At(n, p) == IF p = <<>> THEN n ELSE At(n.kids[p[1]], Tail(p))

Foreign == { <<>>, <<0>>, <<1>>, <<0, 0, 0, 0>>, <<0, 0, 0, 1>>, <<0, 0, 0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 7>> }
Errors == { 0, -1, 1, -4, 4, -8, 8, 256, 65536, 9999 }

Init == \E i \in 1..Len(Bases) : node = Bases[i] /\ b = SerTop(Bases[i]) /\ st = "base"

Structural ==
    /\ st = "base" \/ (Deep /\ st = "struct")
    /\ \E p \in Paths(node), x \in Foreign, d \in Errors :
        /\ x # <<>> \/ d # 0
        /\ IF p = <<>>
           THEN \E w \in {8, 16, 24} : node' = [Set(node, p, x, d) EXCEPT !.w = w]
           ELSE node' = Set(node, p, x, d)
        /\ (p # <<>> /\ At(node, p).w = 0) => d = 0
        /\ b' = SerTop(node')
    /\ st' = IF st = "base" THEN "struct" ELSE "struct2"

ByteLevel ==
    /\ st = "base"
    /\ st' = "byte"
    /\ UNCHANGED node
    /\ \/ \E i \in 1..Len(b) : \E v \in {0, 1, 127, 128, 255} \cup {(b[i] + k) % 256 : k \in {1, 4, 252, 255}} : b' = [b EXCEPT ![i] = v]
       \/ \E i \in 0..(Len(b) - 1) : b' = First(b, i) \/ b' = Drop(b, i)
       \/ \E i \in 0..Len(b), v \in {0, 75, 255} : b' = First(b, i) \o <<v>> \o Drop(b, i)
       \/ \E i \in 1..Len(b) : b' = First(b, i - 1) \o Drop(b, i)
       \/ \E n \in {1, 8, 16, 40} : b' = b \o Zeros(n) \/ b' = Zeros(n) \o b \/ b' = b \o First(b, IF n > Len(b) THEN Len(b) ELSE n)
       \/ b' = b \o b \/ b' = b \o MAGIC \/ b' = MAGIC \o b

Next == Structural \/ ByteLevel
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
PRE == <<200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210>>
R == ParseIn(b)
\* accepted bytes are reproduced exactly by serialising the result
RoundTrip == R.ok => SerBlock(R.v.content) = SubSeq(b, R.from + 1, R.to)
\* both size fields agree and delimit the block
SizesAgree == R.ok => R.v.size1 = R.v.size2 /\ R.v.size1 = R.to - R.from - 8 /\ R.v.size1 <= MAXSIZE
\* the catalogue is accepted
BasesAccepted == (st = "base") => R.ok
Out == LET r == R
           q == ParseIn(PRE \o b)
       IN [b |-> b, s |-> st,
           u |-> IF r.ok THEN [ok |-> TRUE, from |-> r.from, to |-> r.to, v |-> r.v] ELSE [ok |-> FALSE],
           r |-> IF q.ok THEN [ok |-> TRUE, from |-> q.from, to |-> q.to] ELSE [ok |-> FALSE],
           same |-> (r.ok /\ q.ok) => r.v = q.v]
Emit == PrintT(ToJson(Out))
View == b
=============================================================================
