------------------------------ MODULE KsuZip ------------------------------
(* A module file: ZIP entries, optionally a signing block, central directory,  *)
(* end record, comment, trailing bytes.  A file is a sequence of pieces; only  *)
(* end records, blocks and magics matter to the code, everything else is fill. *)
(*   fill  s, from, n   bytes number from .. from+n-1 of the endless fill s    *)
(*   eocd  cd, cl, f    22 bytes: an end record header with central directory  *)
(*                      offset cd (-1: all ones) and declared comment length   *)
(*                      cl; f: what its other fields hold                      *)
(*   blk   d, s, e, bad a signing block holding one sub-block of d data bytes; *)
(*                      e: the data starts with an end record header (cl = 0)  *)
(*                      bad: "" or what is wrong with it                       *)
(*   magic              the 16 bytes of the block magic alone                  *)
EXTENDS Integers, Sequences, FiniteSets
WINDOW == 65557
CHUNK == 1048576
U32 == 2147483647       \* stands for a central directory offset beyond any file

Fill(s, n) == [t |-> "fill", s |-> s, from |-> 0, n |-> n]
Eocd(cd, cl, f) == [t |-> "eocd", cd |-> cd, cl |-> cl, f |-> f, n |-> 22]
Blk(d, s, e, bad) == [t |-> "blk", d |-> d, s |-> s, e |-> e, bad |-> bad, n |-> 44 + d]
Magic == [t |-> "magic", n |-> 16]

RECURSIVE Off(_, _)
\* where piece i begins
Off(f, i) == IF i <= 1 THEN 0 ELSE Off(f, i - 1) + f[i - 1].n
Size(f) == Off(f, Len(f) + 1)

(* positions of end record signatures with the fields that follow them *)
Records(f) ==
    { [off |-> Off(f, i), cd |-> f[i].cd, cl |-> f[i].cl, i |-> i] : i \in { j \in 1..Len(f) : f[j].t = "eocd" } }
    \cup { [off |-> Off(f, i) + 20, cd |-> 5, cl |-> 0, i |-> i] : i \in { j \in 1..Len(f) : f[j].t = "blk" /\ f[j].e } }
(* the end record: the last one in the final WINDOW bytes whose comment fits *)
Fitting(f) == LET n == Size(f) IN { r \in Records(f) : r.off >= n - WINDOW /\ r.off + 22 + r.cl <= n }
None == [off |-> -1]
Find(f) == LET F == Fitting(f) IN IF F = {} THEN None ELSE CHOOSE r \in F : \A q \in F : q.off <= r.off

\* the piece, if any, whose magic ends at position p
EndsAt(f, p) == { i \in 1..Len(f) : f[i].t \in {"blk", "magic"} /\ f[i].n > 0 /\ Off(f, i) + f[i].n = p /\ f[i].n >= 16 }

(* what a reader makes of the file *)
StateAt(f, r) ==
    IF r = None THEN "noeocd"
    ELSE IF r.cd > r.off \/ r.cd < 0 THEN "badcd"
    ELSE LET m == EndsAt(f, r.cd) IN
         IF m = {} THEN "unsigned"
         ELSE LET p == f[CHOOSE i \in m : TRUE] IN
              IF p.t = "blk" /\ p.bad = "" THEN "signed" ELSE "corrupt"
State(f) == StateAt(f, Find(f))
BlkOf(f) == f[CHOOSE i \in EndsAt(f, Find(f).cd) : TRUE]

\* with raw = TRUE the file is taken as unsigned whatever it holds
Readable(f, raw) == State(f) \in (IF raw THEN {"unsigned", "signed", "corrupt"} ELSE {"unsigned", "signed"})
Offsets(f, raw) ==
    LET r == Find(f)
        signed == ~raw /\ StateAt(f, r) = "signed"
        stop == IF signed THEN r.cd - f[CHOOSE i \in EndsAt(f, r.cd) : TRUE].n ELSE r.cd
    IN [stop_content |-> stop, start_cd |-> r.cd, stop_cd |-> r.off, start_eocd |-> r.off, stop_eocd |-> Size(f)]

RECURSIVE Chunks(_, _)
Chunks(from, to) ==
    IF from >= to THEN <<>>
    ELSE LET n == IF to - from > CHUNK THEN CHUNK ELSE to - from
         IN <<[from |-> from, n |-> n]>> \o Chunks(from + n, to)
(* the chunks that are hashed, and what stands for the central directory offset *)
DigestPlan(f, raw) ==
    LET o == Offsets(f, raw) IN
    [chunks |-> Chunks(0, o.stop_content) \o Chunks(o.start_cd, o.stop_cd) \o Chunks(o.start_eocd, o.stop_eocd),
     mask |-> o.stop_content]

-----------------------------------------------------------------------------
(* Writing.  A splice of the bytes: remove [from, to), insert n bytes there and *)
(* set the central directory offset of the end record.                          *)
SignSplice(f, n, raw) ==
    LET o == Offsets(f, raw) IN
    [from |-> o.stop_content, to |-> o.start_cd, n |-> n, cd |-> o.stop_content + n,
     eocd |-> o.start_eocd - (o.start_cd - o.stop_content) + n]
StripSplice(f, raw) ==
    LET o == Offsets(f, raw) IN
    [from |-> o.stop_content, to |-> o.start_cd, n |-> 0, cd |-> o.stop_content,
     eocd |-> o.start_eocd - (o.start_cd - o.stop_content)]

(* the same on pieces *)
RECURSIVE Before(_, _)
Before(f, p) == IF p <= 0 \/ f = <<>> THEN <<>>
                ELSE IF Head(f).n <= p THEN <<Head(f)>> \o Before(Tail(f), p - Head(f).n)
                ELSE <<[Head(f) EXCEPT !.n = p]>>
RECURSIVE After(_, _)
After(f, p) == IF p <= 0 THEN f ELSE IF f = <<>> THEN <<>>
               ELSE IF Head(f).n <= p THEN After(Tail(f), p - Head(f).n)
               ELSE <<[Head(f) EXCEPT !.n = Head(f).n - p, !.from = Head(f).from + p]>> \o Tail(f)
\* cutting at p separates whole pieces or falls into fill
CutOk(f, p) == \A i \in 1..Len(f) : f[i].t = "fill" \/ Off(f, i) >= p \/ Off(f, i) + f[i].n <= p
SetCd(f, i, cd) == [f EXCEPT ![i].cd = cd]
RECURSIVE Join(_)
\* adjacent parts of one fill
Join(f) ==
    IF Len(f) < 2 THEN f
    ELSE IF f[1].n = 0 /\ f[1].t = "fill" THEN Join(Tail(f))
    ELSE IF f[1].t = "fill" /\ f[2].t = "fill" /\ f[1].s = f[2].s /\ f[1].from + f[1].n = f[2].from
         THEN Join(<<[f[1] EXCEPT !.n = f[1].n + f[2].n]>> \o SubSeq(f, 3, Len(f)))
    ELSE <<f[1]>> \o Join(Tail(f))
\* the end record must be a record of its own to be rewritten
Proper(f) == LET r == Find(f) IN r # None /\ f[r.i].t = "eocd"
Replace(f, new, raw) ==
    LET r == Find(f)
        o == Offsets(f, raw)
        g == SetCd(f, r.i, o.stop_content + Size(new))
    IN Before(g, o.stop_content) \o new \o After(g, o.start_cd)
Sign(f, b, raw) == Replace(f, <<b>>, raw)
Strip(f, raw) == Replace(f, <<>>, raw)
=============================================================================
