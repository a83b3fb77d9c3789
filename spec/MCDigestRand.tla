------------------------------ MODULE MCDigestRand ------------------------------
(* Random regions and section lists for the digest functions (simulation mode).   *)
EXTENDS MCDigest
VARIABLES ph
Pick(S) == RandomElement(S)
Coin(k) == RandomElement(1..k) = 1
RLen(u) == IF Coin(6) THEN CHUNK + Pick(-3..3) ELSE IF Coin(12) THEN Pick(1..(3 * CHUNK)) ELSE IF Coin(4) THEN Pick(0..70000) ELSE Pick(0..300)
RModule(o) == [t |-> "module", o |-> o, chunks |-> Plan(o)]
RSecLen(u) == LET n == RLen(u) IN IF n = 0 THEN 1 ELSE n
RECURSIVE RSecs(_, _)
\* sections in file order; each begins at or behind the beginning of the one before
RSecs(at, k) == IF k = 0 THEN <<>> ELSE LET s == [off |-> at, n |-> RSecLen(k)] IN <<s>> \o RSecs(at + (IF Coin(3) THEN 0 ELSE Pick(0..5000)), k - 1)
\* (a drawn value may be evaluated twice if it is not bound by a quantifier)
RInit == x = [t |-> ""] /\ ph = 0
RNext == ph = 0 /\ ph' = 1 /\
    (\/ \E s \in {Pick(0..40)}, c \in {RLen(1)}, g \in {Pick(0..300)}, d \in {RLen(2)}, e \in {22 + RLen(3)} : x' = RModule(Offs(s, c, g, d, e))
     \/ \E n \in {Pick(0..3000)} : x' = [t |-> "count", n |-> n, head |-> <<90>> \o ToLE(n, 4)]
     \/ \E l \in {RSecs(Pick(0..9), IF Coin(5) THEN Pick(10..60) ELSE Pick(1..6))} : x' = [t |-> "elf", secs |-> l, chunks |-> SecChunks(l)])
RSpec == RInit /\ [][RNext]_<<x, ph>>
REmit == ph = 1 => PrintT(ToJson(x))
RSane == ph = 1 => Sane /\ Sum
=============================================================================
