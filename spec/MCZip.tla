------------------------------ MODULE MCZip ------------------------------
(* Module files: every combination of entries, block, central directory,       *)
(* central directory offset and tail from small catalogues with decoys.        *)
EXTENDS KsuZip, TLC, Json
CONSTANTS Full         \* TRUE: full product, FALSE: the big tails only with few entries
VARIABLES f, sel      \* sel: parts chosen so far, <<>> when f is a complete file
Sum(s) == Size(s)

B0 == Blk(3, 1, FALSE, "")
Entries == { <<>>, <<Fill(1, 1)>>, <<Fill(1, 100)>>, <<Fill(1, 30), Magic, Fill(2, 5)>>,
             <<Fill(1, 10), Eocd(3, 0, 0), Fill(2, 40)>>, <<Fill(1, 9), Blk(5, 2, FALSE, ""), Fill(2, 9)>>,
             <<Fill(3, 15)>>, <<Fill(3, 16)>>, <<Fill(3, 17), Blk(2, 3, FALSE, "")>> }
Blocks == { <<>>, <<B0>>, <<Blk(60, 1, TRUE, "")>>, <<Magic>>, <<Blk(4052, 2, FALSE, "")>>, <<Blk(16348, 3, FALSE, "")>>,
            <<Blk(3, 1, FALSE, "size1")>>, <<Blk(3, 1, FALSE, "size2")>>, <<Blk(3, 1, FALSE, "both")>>, <<Blk(3, 1, FALSE, "pair")>>,
            <<Blk(3, 1, FALSE, "small")>>, <<Blk(16349, 1, FALSE, "big")>>, <<Blk(3, 1, FALSE, "v2")>>,
            <<Blk(3, 1, FALSE, "beyond")>>, <<Blk(3, 1, FALSE, "first0")>>, <<Blk(3, 1, FALSE, "ones")>>, <<Blk(3, 1, FALSE, "wrap")>>, <<Blk(3, 1, FALSE, "short")>> }
Dirs == { <<>>, <<Fill(4, 46)>>, <<Fill(4, 20), Magic>> }
Cds == { "right", "less", "more", "zero", "eocd", "beyond", "huge", "ones" }
\* what follows the end record, with its declared comment length
Tails == { [cl |-> 0, t |-> <<>>], [cl |-> 5, t |-> <<Fill(5, 5)>>], [cl |-> 5, t |-> <<Fill(5, 4)>>], [cl |-> 0, t |-> <<Fill(6, 7)>>],
           [cl |-> 40, t |-> <<Fill(5, 10), Eocd(2, 8, 1), Fill(5, 8)>>], [cl |-> 40, t |-> <<Fill(5, 10), Eocd(2, 9, 1), Fill(5, 8)>>],
           [cl |-> 30, t |-> <<Fill(5, 10), Eocd(2, 0, 1), Fill(6, 3)>>],
           [cl |-> 3, t |-> <<Fill(5, 3), Eocd(0, 1, 1)>>], [cl |-> 16, t |-> <<Magic>>] }
Big == { [cl |-> 65535, t |-> <<Fill(5, 65535)>>], [cl |-> 65535, t |-> <<Fill(5, 65534)>>], [cl |-> 0, t |-> <<Fill(6, 65535)>>], [cl |-> 0, t |-> <<Fill(6, 65536)>>],
         [cl |-> 65530, t |-> <<Fill(5, 65530), Fill(6, 5)>>], [cl |-> 65530, t |-> <<Fill(5, 65530), Fill(6, 6)>>], [cl |-> 65535, t |-> <<Fill(5, 65513), Eocd(1, 0, 1)>>] }

Cd(c, right, eo) == CASE c = "right" -> right [] c = "less" -> IF right > 0 THEN right - 1 ELSE 0 [] c = "more" -> right + 1 [] c = "zero" -> 0
                      [] c = "eocd" -> eo [] c = "beyond" -> eo + 1 [] c = "huge" -> U32 [] c = "ones" -> -1
Files(es, bs, ds, cs, ts, fs) ==
    { LET right == Sum(e) + Sum(b)
          eo == right + Sum(d)
      IN e \o b \o d \o <<Eocd(Cd(c, right, eo), t.cl, x)>> \o t.t : e \in es, b \in bs, d \in ds, c \in cs, t \in ts, x \in fs }
\* contents that code might take for absent, or for structure (100 zeros, 101 ones, 102.. parts of magics)
Special == 100..109
\* (110.. blocks in all but their magic, which differs in case, in one byte, or is that of another scheme: no blocks)
Near == { <<Fill(s, 47)>> : s \in 110..121 }
Values == { <<Fill(s, n)>> : s \in Special, n \in {5, 32} }
ValueTails == { [cl |-> n, t |-> <<Fill(s, n)>>] : s \in Special, n \in {1, 24} } \cup { [cl |-> 0, t |-> <<Fill(s, n)>>] : s \in Special, n \in {1, 24} }
              \cup { [cl |-> 4, t |-> <<Fill(s, 4), Fill(r, 30)>>] : s \in {5, 100}, r \in {100, 101, 105} }
              \cup { [cl |-> 0, t |-> <<Fill(100, 4096)>>], [cl |-> 4096, t |-> <<Fill(100, 4096)>>], [cl |-> 0, t |-> <<Fill(100, 65535)>>], [cl |-> 0, t |-> <<>>] }
Start == {<<"all", e, b>> : e \in Entries, b \in Blocks} \cup {<<"rest">>, <<"fields">>, <<"near">>} \cup {<<"values", s>> : s \in Special} \cup {<<"tails", t>> : t \in Big}
Init == sel \in Start /\ f = <<>>
Choose(s) ==
    CASE s[1] = "all" -> Files({s[2]}, {s[3]}, Dirs, Cds, Tails, {0})
      [] s[1] = "fields" -> Files({<<Fill(1, 100)>>}, {<<>>, <<B0>>, <<Magic>>}, {<<Fill(4, 46)>>}, Cds, Tails, {1, 2, 3})
      [] s[1] = "values" -> Files({<<Fill(s[2], 32)>>, <<Fill(1, 3), Fill(s[2], 5)>>}, {<<>>, <<B0>>}, {<<Fill(4, 46)>>, <<Fill(s[2], 46)>>}, {"right"}, ValueTails, {0, 2})
                            \cup Files({<<Fill(1, 20)>>, <<>>}, {<<>>, <<B0>>, <<Fill(s[2], 4)>>}, Values, {"right"}, {[cl |-> 0, t |-> <<>>], [cl |-> 5, t |-> <<Fill(s[2], 5)>>]}, {0, 2, 3})
      [] s[1] = "tails" -> Files(IF Full THEN Entries ELSE {<<Fill(1, 100)>>, <<>>}, IF Full THEN Blocks ELSE {<<>>, <<B0>>, <<Blk(3, 1, FALSE, "size2")>>}, {<<Fill(4, 46)>>}, {"right", "more"}, {s[2]}, {0})
      [] s[1] = "near" -> Files({<<>>, <<Fill(1, 100)>>, <<Fill(1, 9), B0>>}, Near, {<<>>, <<Fill(4, 46)>>}, {"right", "more"}, {[cl |-> 0, t |-> <<>>], [cl |-> 5, t |-> <<Fill(5, 5)>>]}, {0})
                          \cup Files({<<Fill(1, 100)>>}, {<<>>, <<B0>>}, Near, {"right"}, {[cl |-> 0, t |-> <<>>]}, {0})
                          \cup Files({<<Fill(1, 100)>>}, {b \o <<B0>> : b \in Near}, {<<Fill(4, 46)>>}, {"right"}, {[cl |-> 0, t |-> <<>>]}, {0})
      \* no end record at all, and files too short to hold one
      [] s[1] = "rest" -> { e \o b : e \in Entries, b \in {<<>>, <<B0>>} } \cup { <<Fill(1, n)>> : n \in {4, 21, 22, 23} } \cup { <<Eocd(0, 0, 0)>>, <<Eocd(0, 1, 0)>>, <<Eocd(0, 1, 0), Fill(1, 1)>> }
Next == sel # <<>> /\ sel' = <<>> /\ f' \in Choose(sel)
Spec == Init /\ [][Next]_<<f, sel>>
\* regions around the chunk size
Huge == { CHUNK - 1, CHUNK, CHUNK + 1, 2 * CHUNK, 2 * CHUNK + 5 }
InitBig == sel = <<>> /\
    (\/ \E n \in Huge, d \in {0, 46}, b \in {<<>>, <<B0>>} :
          f = <<Fill(1, n)>> \o b \o <<Fill(4, d), Eocd(n + Sum(b), 0, 0)>>
     \/ \E n \in Huge, b \in {<<>>, <<B0>>} :
          f = <<Fill(1, 10)>> \o b \o <<Fill(4, n), Eocd(10 + Sum(b), 2, 0), Fill(5, 2)>>
     \* more entries than the reader's window
     \/ f = <<Fill(1, 17 * CHUNK), B0, Fill(4, 46), Eocd(17 * CHUNK + B0.n, 0, 0)>>
     \/ f = <<Fill(1, 16 * CHUNK), B0, Fill(4, 46), Eocd(16 * CHUNK + B0.n, 0, 0)>>
     \* entries before a block do not matter
     \/ f = <<Fill(1, 10), Magic, Fill(2, 3 * CHUNK), B0, Fill(4, 46), Eocd(26 + 3 * CHUNK + B0.n, 0, 0)>>)
SpecBig == InitBig /\ [][UNCHANGED <<f, sel>>]_<<f, sel>>

-----------------------------------------------------------------------------
S == State(f)
N0 == Blk(7, 8, FALSE, "")
Model(raw) == Readable(f, raw) /\ Proper(f) /\ LET o == Offsets(f, raw) IN CutOk(f, o.stop_content) /\ CutOk(f, o.start_cd)
\* signing: the signed file is signed, with the same end record, and the same content is digested
SignedAfter ==
    sel = <<>> =>
    \A raw \in BOOLEAN : Model(raw) =>
        LET g == Sign(f, N0, raw)
            o == Offsets(f, raw)
            p == DigestPlan(f, raw)
            q == DigestPlan(g, FALSE)
        IN
        /\ State(g) = "signed" /\ BlkOf(g) = N0
        /\ Find(g).off = SignSplice(f, N0.n, raw).eocd
        /\ Size(g) = Size(f) - (o.start_cd - o.stop_content) + N0.n
        /\ Offsets(g, FALSE).stop_content = o.stop_content
        /\ q.mask = p.mask
        /\ [i \in 1..Len(q.chunks) |-> q.chunks[i].n] = [i \in 1..Len(p.chunks) |-> p.chunks[i].n]
\* stripping restores an unsigned file exactly; signing again depends on the content only
Restores ==
    sel = <<>> =>
    /\ (S = "unsigned" /\ Model(FALSE)) => Join(Strip(Sign(f, N0, FALSE), FALSE)) = Join(f)
    /\ (S = "signed" /\ Model(FALSE)) =>
           /\ Join(Strip(Sign(f, N0, FALSE), FALSE)) = Join(Strip(f, FALSE))
           \* (entries that themselves end in a block are signed below it)
           /\ State(Strip(f, FALSE)) = "unsigned" => Join(Sign(Strip(f, FALSE), N0, FALSE)) = Join(Sign(f, N0, FALSE))
\* offsets delimit the file
Ordered == sel = <<>> => \A raw \in BOOLEAN : Readable(f, raw) =>
    LET o == Offsets(f, raw) IN 0 <= o.stop_content /\ o.stop_content <= o.start_cd /\ o.start_cd <= o.stop_cd /\ o.stop_cd + 22 <= o.stop_eocd
Out ==
    [f |-> f, state |-> S, eocd |-> IF Find(f) = None THEN [ok |-> FALSE] ELSE [ok |-> TRUE, off |-> Find(f).off, cd |-> Find(f).cd, cl |-> Find(f).cl],
     views |-> [i \in 1..2 |-> LET raw == i = 2 IN
        IF ~Readable(f, raw) THEN [ok |-> FALSE]
        ELSE [ok |-> TRUE, offs |-> Offsets(f, raw), plan |-> DigestPlan(f, raw), sign |-> SignSplice(f, N0.n, raw), strip |-> StripSplice(f, raw)]],
     new |-> N0]
Emit == sel = <<>> => PrintT(ToJson(Out))
=============================================================================
