------------------------------ MODULE MCSignerRand ------------------------------
(* Random configurations of the signers (simulation mode): long chains with       *)
(* repetitions, many digests of any length, blocks of many sub-blocks to which a  *)
(* stamp is added.                                                                *)
EXTENDS MCSigner
VARIABLES ph
rvars == <<sel, x, ph>>
Pick(S) == RandomElement(S)
Coin(k) == RandomElement(1..k) = 1
AllKeys == Keys \cup OddKeys
CertNames == {"SELF", "interA", "interA2", "rootA", "rootB", "empty", "junk", "zeros", "b256_rootA", "a384_interA2"}
RECURSIVE RSeq(_, _)
RSeq(S, k) == IF k = 0 THEN <<>> ELSE Append(RSeq(S, k - 1), RandomElement(S))
\* tags from 200 on: a digest of (tag - 200) bytes
RTag(u) == IF Coin(2) THEN Pick({1, 2, 3, 4, 100, 101}) ELSE 200 + Pick(0..120)
RGiven1(u) == [alg |-> IF Coin(3) THEN Pick({0, 1, 77, 259, 512, 515, 65536, 2147483647}) ELSE Pick({513, 514}), tag |-> RTag(u)]
RECURSIVE RGiven(_)
RGiven(k) == IF k = 0 THEN <<>> ELSE Append(RGiven(k - 1), RGiven1(k))
Few(u) == IF Coin(12) THEN Pick(8..14) ELSE Pick(0..5)
RCert(k) == IF Coin(2) THEN Cert(k) ELSE Pick({"b256_rootA", "a384_interA2", "empty", "junk", "zeros", "interA"})
RSingle(k) == OneC(Pick(V2Apis \cup StampApis), k, IF Coin(6) THEN Pick({513, 514, 77}) ELSE Alg(k), RCert(k), RSeq(CertNames, Few(k)), RGiven(Few(k)), Coin(2))
\* chains of at most 8 certificates: everything together stays below the limit of a block
RCombined(v, s) ==
    [api |-> "module", v2 |-> v, stamp |-> s, given |-> RGiven(Pick(0..6)), pad |-> Coin(2), ts |-> Coin(2),
     vchain |-> RSeq(CertNames \ {"SELF"}, Pick(0..8)), schain |-> RSeq(CertNames \ {"SELF"}, Pick(0..3)),
     req |-> Required((IF v = "" THEN <<>> ELSE <<Cfg(v, "", <<>>)>>) \o (IF s = "" THEN <<>> ELSE <<Cfg(s, "", <<>>)>>))]
RCombinedC(v, s, c, d) == RCombined(v, s) @@ [vcert |-> c, scert |-> d]
RAdd(c) == [api |-> "add", by |-> Pick({"a256", "a384", "b256", "z384", "both", "both", "v2only"}), content |-> c, pad |-> Coin(2), ts |-> Coin(2), ok |-> TRUE, kept |-> SelectSeq(c, Kept), given |-> RGiven(Pick(0..5))]
RInit == sel = <<"rand">> /\ x = [api |-> ""] /\ ph = "rand"
RNext == /\ sel # <<>> /\ UNCHANGED ph /\ sel' = <<>>
         /\ \/ \E k \in {Pick(AllKeys)} : x' = RSingle(k)
            \/ \E v \in {Pick(AllKeys \cup {""})} : \E s \in {IF v = "" THEN Pick(AllKeys) ELSE Pick(AllKeys \cup {""})} :
                 x' = IF v # "" /\ s # "" THEN RCombinedC(v, s, RCert(v), RCert(s)) ELSE RCombined(v, s)
            \/ \E c \in {RSeq(Elems, Pick(0..5))} : \E y \in {RAdd(c)} : x' = [y EXCEPT !.ok = y.by # "v2only"]
RSpec == RInit /\ [][RNext]_rvars
=============================================================================
