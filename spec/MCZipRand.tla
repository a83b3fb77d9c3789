------------------------------ MODULE MCZipRand ------------------------------
(* Random module files, one piece at a time (run in TLC's simulation mode):     *)
(* any number of decoys in the entries, the central directory and the tail, any *)
(* central directory offset, any comment length.                               *)
EXTENDS MCZip
VARIABLES ph, tail           \* phase, and the pieces behind the end record
rvars == <<f, sel, ph, tail>>
\* (operators take a parameter so that TLC does not evaluate them once and for all)
Pick(Z) == RandomElement(Z)
Coin(n) == RandomElement(1..n) = 1
Len0(u) == CASE Pick(1..8) \in {1, 2, 3} -> Pick(0..40) [] Pick(1..4) = 1 -> Pick(0..3) [] Pick(1..4) = 1 -> Pick(4000..4200) [] Pick(1..6) = 1 -> Pick(60000..66000) [] OTHER -> Pick(0..600)
RFill(u) == Fill(Pick((1..20) \cup Special), Len0(u))
Bads == {"size1", "size2", "both", "pair", "small", "v2", "beyond", "first0", "ones", "wrap", "short"}
RBlk(u) == LET e == Coin(5) IN Blk(IF Coin(6) THEN Pick(16300..16348) ELSE IF Coin(3) THEN Pick(4000..4100) ELSE Pick(25..300), Pick(1..9), e, IF Coin(2) THEN "" ELSE Pick(Bads))
\* decoy records: the comment length they declare, the offset they name
REocd(u) == Eocd(IF Coin(6) THEN -1 ELSE IF Coin(6) THEN U32 ELSE Pick(0..300), IF Coin(2) THEN Pick(0..60) ELSE Pick(0..65535), Pick(0..40))
RPiece(u) == CASE Pick(1..10) <= 5 -> RFill(u) [] Pick(1..3) = 1 -> Magic [] Pick(1..2) = 1 -> REocd(u) [] OTHER -> RBlk(u)
RInit == f = <<>> /\ sel = <<"rand">> /\ ph = "front" /\ tail = <<>>
Ends(g) == {Off(g, i) : i \in 1..(Len(g) + 1)}
\* the bytes behind this one's header
RCl(n) == CASE Pick(1..10) <= 5 /\ n <= 65535 -> n [] Pick(1..4) = 1 /\ n > 0 /\ n <= 65536 -> n - 1 [] Pick(1..3) = 1 -> Pick(0..65535) [] OTHER -> IF n > 65535 THEN 65535 ELSE IF n = 0 THEN 0 ELSE Pick(0..n)
RCd == IF Coin(12) THEN Pick({-1, U32, Size(f) + 1}) ELSE IF Coin(6) THEN Pick(0..(Size(f) + 40)) ELSE Pick(Ends(f))
\* most often the central directory begins behind a block
Blocks1 == {i \in 1..Len(f) : f[i].t \in {"blk", "magic"}}
RCdBlk == IF Blocks1 = {} \/ Coin(3) THEN RCd ELSE LET i == Pick(Blocks1) IN Off(f, i) + f[i].n
RNext ==
    \/ /\ ph = "front" /\ f' = Append(f, RPiece(f)) /\ ph' = (IF Len(f) > 4 \/ Coin(4) THEN "back" ELSE "front") /\ UNCHANGED <<tail, sel>>
    \/ /\ ph = "back" /\ tail' = (IF Coin(3) THEN tail ELSE Append(tail, RPiece(f))) /\ ph' = (IF Len(tail) > 2 \/ Coin(2) THEN "join" ELSE "back") /\ UNCHANGED <<f, sel>>
    \/ /\ ph = "join" /\ f' = f \o <<Eocd(RCdBlk, RCl(Size(tail)), Pick(0..40))>> \o tail /\ sel' = <<>> /\ ph' = "done" /\ UNCHANGED tail
RSpec == RInit /\ [][RNext]_rvars
=============================================================================
