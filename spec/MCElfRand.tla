------------------------------ MODULE MCElfRand ------------------------------
(* Random ELF files, one section at a time (simulation mode): any names of a     *)
(* pool, types, flags, positions (sections may overlap, lie beyond the file or   *)
(* be empty), then random requests.                                              *)
EXTENDS ElfForms, TLC, Json
CONSTANTS MaxSecs, MaxReqs
VARIABLES f, reqs, ph
vars == <<f, reqs, ph>>
Pick(S) == RandomElement(S)
Coin(k) == RandomElement(1..k) = 1
Pool == {".text", ".rodata", ".data", "text", ".t", "x", ".ksu_sign2", ".ksu_sig", ".text.unlikely", "a b", ".rodata.str1.1", ".init_array", ".note.gnu.build-id", ".eh_frame", "ext", "_", ".TEXT", ".data.rel.ro",
         "/lib", ".a/b", "..", "-x", ".debug$S", "#1", ".text,x", ".text;", "=", "*", "0", "\"q\"", "\\n", ".gnu.linkonce.t._ZN4core3fmt9Formatter9write_fmt17h0123456789abcdefE"}
\* (tables of symbols and relocations have an inner format that the reader also checks)
Types == {1, 7, 14, 15, 16, NOBITS, 1879048193}
Null == [name |-> "", type |-> 0, flags |-> 0, off |-> 0, size |-> 0, str |-> FALSE]
STR == 700
Str == [name |-> ".shstrtab", type |-> 3, flags |-> 0, off |-> 0, size |-> STR, str |-> TRUE]
Area == 320
\* positions are filled in at the end: here relative to the data area
RSec(u) == [name |-> IF Coin(12) THEN SIG ELSE Pick(Pool), type |-> IF Coin(2) THEN 1 ELSE Pick(Types), flags |-> Pick({0, 1, 2, 3, 6, 7, 16, 48, 2048}),
            off |-> IF Coin(15) THEN 1000000000 ELSE Pick(0..Area), size |-> IF Coin(8) THEN 0 ELSE IF Coin(20) THEN Pick(50000..100000) ELSE Pick(1..60), str |-> FALSE]
RInit == f = [secs |-> <<Null>>] /\ reqs = <<>> /\ ph = "secs"
\* class, order, layout and the place of the name table
Finish(secs, c, en, lay, at) ==
    LET all == SubSeq(secs, 1, at) \o <<Str>> \o SubSeq(secs, at + 1, Len(secs))
        l == Len(all)
        base == Head0(c, lay) + (IF lay = "mixed" THEN l * ShSize(c) ELSE 0)
        stroff == base + Area + (IF lay = "nonul" THEN 1 ELSE 0)
        end == stroff + STR
        sh == IF lay = "mixed" THEN Head0(c, lay) ELSE Align(end)
        len == IF lay = "mixed" THEN end ELSE sh + l * ShSize(c) + (IF lay = "nonul" THEN 3 ELSE 0)
    IN [class |-> c, le |-> en, layout |-> lay, kinds |-> [i \in 1..l |-> all[i].name], shoff |-> sh, len |-> len,
        secs |-> [i \in 1..l |-> IF i = 1 THEN Null ELSE IF all[i].str THEN [all[i] EXCEPT !.off = stroff] ELSE IF all[i].off > Area THEN all[i] ELSE [all[i] EXCEPT !.off = base + @]]]
Asked == {f.secs[i].name : i \in 2..Len(f.secs)} \ {".shstrtab"}
Good == {n \in Asked : Selectable(f, n)}
RECURSIVE Draw(_, _)
Draw(S, k) == IF k = 0 \/ S = {} THEN <<>> ELSE LET l == Draw(S, k - 1) R == S \ {l[i] : i \in 1..Len(l)} IN IF R = {} THEN l ELSE Append(l, RandomElement(R))
RNext ==
    \/ /\ ph = "secs" /\ Len(f.secs) <= MaxSecs /\ f' = [secs |-> Append(f.secs, RSec(f))] /\ UNCHANGED <<reqs, ph>>
    \/ /\ ph = "secs" /\ (Len(f.secs) > MaxSecs \/ Coin(3)) /\ \E lay \in {Pick(Layouts)}, c \in {Pick({32, 64})}, en \in {Pick(BOOLEAN)} :
             f' = Finish(f.secs, c, en, lay, IF lay = "nonul" THEN Len(f.secs) ELSE Pick(1..Len(f.secs)))
       /\ ph' = "reqs" /\ UNCHANGED reqs
    \/ /\ ph = "reqs" /\ Len(reqs) < MaxReqs /\ reqs' = Append(reqs, IF Coin(4) THEN Draw(Asked \cup Pool, Pick(0..4)) ELSE Draw(Good, Pick(1..8))) /\ UNCHANGED <<f, ph>>
RSpec == RInit /\ [][RNext]_vars
-----------------------------------------------------------------------------
Done == ph = "reqs" /\ Len(reqs) = MaxReqs
OneSig == Done => LET g == Signed(f, 7) IN Cardinality({i \in 1..Len(g.secs) : g.secs[i].name = SIG /\ g.secs[i].off = -1}) = 1
\* a request means the same in any order, and after signing
OrderFree == Done => \A k \in 1..Len(reqs) : Accepted(f, reqs[k]) => (Chunks(Regions(f, reqs[k])) = Chunks(Regions(f, Rev(reqs[k]))) /\ Regions(Signed(f, 7), reqs[k]) = Regions(f, reqs[k]))
Req(r) == [names |-> r, ok |-> Accepted(f, r), regs |-> IF Accepted(f, r) THEN Regions(f, r) ELSE <<>>, chunks |-> IF Accepted(f, r) THEN Chunks(Regions(f, r)) ELSE <<>>]
Emit == Done => PrintT(ToJson([f |-> f, reqs |-> [i \in 1..Len(reqs) |-> Req(reqs[i])], after |-> Signed(f, 0).secs, again |-> Signed(Signed(f, 0), 0).secs]))
=============================================================================
