------------------------------ MODULE MCBlockRand ------------------------------
(* Random blocks, built one sub-block at a time, then damaged (simulation mode).  *)
(* Damage is done to the bytes of the whole block or, with all enclosing lengths  *)
(* made consistent again, to the bytes of one sub-block.                          *)
EXTENDS KsuBlock, TLC, Json
CONSTANTS MaxPairs, MaxDamage
VARIABLES ps, b, n            \* sub-blocks, bytes, damage done (-1: still growing)
vars == <<ps, b, n>>
\* (operators take a parameter so that TLC does not evaluate them once and for all)
Pick(S) == RandomElement(S)
Coin(k) == RandomElement(1..k) = 1
RECURSIVE Bytes(_)
Bytes(k) == IF k = 0 THEN <<>> ELSE Append(Bytes(k - 1), RandomElement(0..255))
Run(a, m, k) == [i \in 1..k |-> (a + m * i) % 256]
Size0(u) == IF Coin(3) THEN 0 ELSE IF Coin(25) THEN Pick(200..300) ELSE IF Coin(150) THEN Pick(1000..5000) ELSE Pick(1..24)
Data(u) == LET k == Size0(u) IN IF k > 40 THEN Run(Pick(0..255), Pick(0..255), k) ELSE IF Coin(10) THEN Zeros(k) ELSE Bytes(k)
Id(u) == IF Coin(2) THEN Pick({<<1, 2, 0, 0>>, <<2, 2, 0, 0>>, <<1, 1, 0, 0>>, <<3, 1, 0, 0>>, <<0, 0, 0, 0>>, <<255, 255, 255, 255>>}) ELSE Bytes(4)
RECURSIVE Entries(_), RCerts(_), RAttrs(_), RSigners(_), RElfs(_)
Entries(k) == IF k = 0 THEN <<>> ELSE Append(Entries(k - 1), MkEntry(Id(k), Data(k)))
RCerts(k) == IF k = 0 THEN <<>> ELSE Append(RCerts(k - 1), MkCert(Data(k)))
RAttrs(k) == IF k = 0 THEN <<>> ELSE Append(RAttrs(k - 1), MkAttr(Id(k), Data(k)))
Few(u) == IF Coin(30) THEN Pick(10..40) ELSE Pick(0..3)
RSigner(x) == MkSigner(MkSD(MkList(Entries(Few(x))), MkList(RCerts(Few(x))), MkList(RAttrs(Few(x))), x), MkList(Entries(Few(x))), MkKey(Data(x)))
RSigners(k) == IF k = 0 THEN <<>> ELSE Append(RSigners(k - 1), RSigner(4))
RName(u) == IF Coin(4) THEN Pick({<<>>, <<46, 116, 101, 120, 116>>, <<195, 169>>, <<226, 130, 172>>, <<240, 159, 146, 150>>, <<0>>, <<46, 107, 115, 117, 95, 115, 105, 103, 110>>}) ELSE Run(Pick(40..60), Pick({1, 3}), Pick(0..20))
Num(u) == IF Coin(3) THEN ToLE(Pick({0, 1, -1, 65535, 65536, 1000000}), 8) ELSE Bytes(8)
RElfs(k) == IF k = 0 THEN <<>> ELSE Append(RElfs(k - 1), MkElfEntry(RName(k), Num(k), Num(k)))
RawId(u) == IF Coin(4) THEN Pick({PADID, <<0, 0, 0, 0>>, <<26, 135, 9, 112>>, <<255, 255, 255, 255>>, <<75, 83, 85, 32>>}) ELSE <<Pick(0..255), Pick(0..255), Pick(128..255), Pick(128..255)>>
RPair(u) == LET k == Pick(1..10) IN
    IF k <= 4 THEN MkV2(RSigners(IF Coin(10) THEN Pick(3..5) ELSE Pick(0..2)))
    ELSE IF k <= 7 THEN MkStamp(RSigner(0))
    ELSE IF k <= 8 THEN MkElf(RElfs(Few(k))) ELSE MkRaw(RawId(k), IF Coin(12) THEN Pick({MAGIC, Zeros(24) \o MAGIC, MAGIC \o MAGIC}) ELSE Data(k))
Total(q) == MkBlock(q).size1
-----------------------------------------------------------------------------
(* damage *)
Byte(s) == LET i == Pick(1..Len(s)) IN [s EXCEPT ![i] = IF Coin(2) THEN Pick(0..255) ELSE (s[i] + Pick({1, 2, 4, 8, 248, 252, 254, 255})) % 256]
Cut(s) == LET i == Pick(0..Len(s)) k == Pick(1..8) IN First(s, i) \o (IF i + k >= Len(s) THEN <<>> ELSE Drop(s, i + k))
Grow(s) == LET i == Pick(0..Len(s)) IN First(s, i) \o (IF Coin(2) THEN Zeros(Pick(1..8)) ELSE Bytes(Pick(1..8))) \o Drop(s, i)
Twice(s) == LET i == Pick(0..(Len(s) - 1)) j == Pick(i..Len(s)) IN First(s, j) \o SubSeq(s, i + 1, j) \o Drop(s, j)
Hurt(s) == IF s = <<>> THEN Bytes(Pick(1..9)) ELSE LET k == Pick(1..7) IN IF k <= 4 THEN Byte(s) ELSE IF k = 5 THEN Cut(s) ELSE IF k = 6 THEN Grow(s) ELSE Twice(s)
\* bytes of the sub-blocks with their sizes, and of the block around them
Framed(v) == ToLE(Len(v), 8) \o v
Around(c) == LET l == ToLE(Len(c) + 24, 8) IN l \o c \o l \o MAGIC
RECURSIVE HurtPairs(_, _)
HurtPairs(q, i) == IF q = <<>> THEN <<>> ELSE (LET p == Head(q) IN Framed(p.id \o (IF i = 1 THEN Hurt(SerValue(p)) ELSE SerValue(p)))) \o HurtPairs(Tail(q), i - 1)
RInit == ps = <<>> /\ b = <<>> /\ n = -1
RNext ==
    \/ /\ n = -1 /\ \E q \in {Append(ps, RPair(ps))} :
          IF Total(q) > 16384 THEN n' = 0 /\ b' = SerBlock(ps) /\ UNCHANGED ps
          ELSE ps' = q /\ UNCHANGED <<b, n>>
    \/ /\ n = -1 /\ (Len(ps) >= MaxPairs \/ Coin(2)) /\ n' = 0 /\ b' = SerBlock(ps) /\ UNCHANGED ps
    \/ /\ n = 0 /\ ps # <<>> /\ n' = 1 /\ b' = Around(HurtPairs(ps, Pick(1..Len(ps)))) /\ UNCHANGED ps
    \/ /\ n >= 0 /\ n < MaxDamage /\ n' = n + 1 /\ b' = Hurt(b) /\ UNCHANGED ps
RSpec == RInit /\ [][RNext]_vars
-----------------------------------------------------------------------------
PRE == <<200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210>>
Inverse == n = 0 => ParseFull(b) = [ok |-> TRUE, v |-> MkBlock(ps)]
RoundTrip == n > 0 => LET r == ParseIn(b) IN r.ok => SerBlock(r.v.content) = SubSeq(b, r.from + 1, r.to)
Out == LET r == ParseIn(b)
           q == ParseIn(PRE \o b)
       IN [k |-> "parse", b |-> b, s |-> n,
           u |-> IF r.ok THEN [ok |-> TRUE, from |-> r.from, to |-> r.to, v |-> r.v] ELSE [ok |-> FALSE],
           r |-> IF q.ok THEN [ok |-> TRUE, from |-> q.from, to |-> q.to] ELSE [ok |-> FALSE],
           same |-> (r.ok /\ q.ok) => r.v = q.v]
Emit == /\ n = 0 => PrintT(ToJson([k |-> "build", v |-> MkBlock(ps), b |-> b]))
        /\ n >= 0 => PrintT(ToJson(Out))
=============================================================================
