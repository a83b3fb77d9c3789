------------------------------ MODULE MCKeysRand ------------------------------
(* Random key material (simulation mode): long certificate files with foreign    *)
(* blocks and repetitions, containers of many bags.                              *)
EXTENDS MCKeys
Pick(S) == RandomElement(S)
Coin(k) == RandomElement(1..k) = 1
RECURSIVE RSeq(_, _)
RSeq(S, k) == IF k = 0 THEN <<>> ELSE Append(RSeq(S, k - 1), RandomElement(S))
CertPool == {"a256_rootA", "b256_interA2", "b384_interA2", "a384_rootA", "z384_rootA", "interA", "interA2", "interX", "rootA", "rootB", "rsa_self", "k521_self", "a256_expired"}
ForeignPool == {"key", "text", "crl", "trusted", "request", "lower"}
Good == {"a256", "b256", "a384", "b384", "z256", "l256", "x256", "z384", "l384", "x384"}
RBlocks(k) == IF Coin(2) THEN RSeq(CertPool, k) ELSE IF Coin(4) THEN RSeq(CertPool \cup ForeignPool \cup {"broken"}, k) ELSE RSeq(CertPool \cup ForeignPool, k)
RPem(f, k) == [what |-> "pem", form |-> f, key |-> k, pw |-> IF f = "enc" /\ ~Coin(4) THEN "right" ELSE Pick(Pws), eol |-> Pick({"lf", "crlf"})]
RMade(u) == [what |-> "made", c |-> [keys |-> RSeq(IF Coin(2) THEN Good ELSE Good \cup {"k521", "rsa"}, Pick(1..4)), certs |-> RSeq(CertPool, Pick(0..8)), plain |-> Coin(2), first |-> Pick({"keys", "certs"}), pw |-> "right"],
             pw |-> IF Coin(5) THEN "wrong" ELSE "right", form |-> "p12", key |-> "", eol |-> "lf"]
RInit == x = [what |-> ""] /\ l = <<>>
RNext == x.what = "" /\
    (\/ \E f \in {Pick({"pk8", "sec1", "enc"})} : \E k \in {Pick(Good)} : \E y \in {RPem(f, k)} : \E b \in {RBlocks(Pick(1..12))} : x' = y /\ l' = b
     \/ \E y \in {RMade(x)} : x' = y /\ UNCHANGED l)
RSpec == RInit /\ [][RNext]_vars
RInv == x.what # "" => (NeverAnother /\ Complete /\ Emit)
=============================================================================
