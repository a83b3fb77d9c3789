------------------------------ MODULE MCDigest ------------------------------
(* The digest functions called directly, with offsets, chunk lists and section *)
(* lists that files of ordinary size do not reach.                             *)
EXTENDS KsuZip, KsuBytes, TLC, Json
CONSTANTS MaxSections
VARIABLES x
\* regions of given sizes behind one another, with a gap before the central directory (where a block would be)
Around == {1, CHUNK - 1, CHUNK, CHUNK + 1, 2 * CHUNK + 3}
Offs(start, content, gap, cd, eocd) ==
    LET a == start + content
        b == a + gap
    IN [start_content |-> start, stop_content |-> a, start_cd |-> b, stop_cd |-> b + cd, start_eocd |-> b + cd, stop_eocd |-> b + cd + eocd]
Plan(o) == Chunks(o.start_content, o.stop_content) \o Chunks(o.start_cd, o.stop_cd) \o Chunks(o.start_eocd, o.stop_eocd)
Module == {[t |-> "module", o |-> Offs(s, c, g, d, e), chunks |-> Plan(Offs(s, c, g, d, e))]
           : s \in {0, 7}, c \in {0, 5} \cup Around, g \in {0, 40}, d \in {0, 46}, e \in {22, 30}}
     \cup {[t |-> "module", o |-> Offs(0, c, 40, d, e), chunks |-> Plan(Offs(0, c, 40, d, e))]
           : c \in {0, 3}, d \in {0, 9} \cup Around, e \in {22, 65557, CHUNK - 1, CHUNK, CHUNK + 1, CHUNK + 22, 2 * CHUNK + 1}}
\* any number of chunk digests
Counts == {[t |-> "count", n |-> n, head |-> <<90>> \o ToLE(n, 4)] : n \in (0..40) \cup {127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1000, 1024, 4095, 4096, 32767, 32768, 65535, 65536, 65537, 70000}}
\* sections in file order: sizes, and the gap between them (-1: each begins where the one before began)
RECURSIVE Laid(_, _, _)
Laid(sizes, at, gap) == IF sizes = <<>> THEN <<>> ELSE <<[off |-> at, n |-> Head(sizes)]>> \o Laid(Tail(sizes), IF gap = -1 THEN at ELSE at + Head(sizes) + gap, gap)
RECURSIVE SecChunks(_)
SecChunks(l) == IF l = <<>> THEN <<>> ELSE Chunks(Head(l).off, Head(l).off + Head(l).n) \o SecChunks(Tail(l))
Elf(sizes, gap) == [t |-> "elf", secs |-> Laid(sizes, 3, gap), chunks |-> SecChunks(Laid(sizes, 3, gap))]
Elfs == {Elf(l, g) : l \in UNION {[1..k -> {1, 4, CHUNK, CHUNK + 1}] : k \in 1..3}, g \in {-1, 0, 5}} \cup {Elf([i \in 1..n |-> 1 + (i % 3)], g) : n \in {16, 255, 256, 257, MaxSections}, g \in {0, 2}}
\* the same far into a large file: all positions are 2^far further on (the driver adds it)
Far(S, F) == {[far |-> k] @@ y : y \in S, k \in F}
FarModule == Far({[t |-> "module", o |-> Offs(0, c, 40, 46, 30), chunks |-> Plan(Offs(0, c, 40, 46, 30))] : c \in {5, CHUNK + 1}}, {16, 24, 31})
FarElfs == Far({Elf(l, g) : l \in {<<1>>, <<4, 1>>, <<CHUNK + 1, 4>>}, g \in {0, 5}}, {16, 24, 31, 32, 33, 40})
Init == x \in Module \cup Counts \cup Elfs \cup FarModule \cup FarElfs
Spec == Init /\ [][UNCHANGED x]_x
-----------------------------------------------------------------------------
\* chunks are adjacent, none is empty, none larger than a chunk; all but the last of a region are full
Sum == x.t = "module" => SumSeq([i \in 1..Len(x.chunks) |-> x.chunks[i].n]) = (x.o.stop_content - x.o.start_content) + (x.o.stop_cd - x.o.start_cd) + (x.o.stop_eocd - x.o.start_eocd)
Sane == x.t # "count" => \A i \in 1..Len(x.chunks) : 0 < x.chunks[i].n /\ x.chunks[i].n <= CHUNK
Emit == PrintT(ToJson(x))
=============================================================================
