------------------------------ MODULE MCVerdict ------------------------------
(* Blocks over all lists of sub-blocks whose signers each are good or fail in    *)
(* one way: the overall verdict.                                                 *)
EXTENDS MCAttack
CONSTANTS MaxSubs, MaxSigners, Kinds2
Cert1 == <<"a256_rootA">>
GoodV == H1(0)
Kind(t, k) ==
    LET sd == IF t = "v2" THEN H1(0).sd ELSE HS1(0).sd
        g == Mk("a256", sd)
    IN CASE k = "good" -> g
         [] k = "content" -> Mk("a256", [sd EXCEPT !.digs = One("a256", 1)])
         [] k = "untrusted" -> Mk("a256", [sd EXCEPT !.certs = <<"a256_rootX">>])
         [] k = "expired" -> Mk("a256", [sd EXCEPT !.certs = <<"a256_expired">>])
         [] k = "unbound" -> Mk(Evil, sd)
         [] k = "badsig" -> [g EXCEPT !.sigs[1].bad = TRUE]
         [] k = "nosig" -> [g EXCEPT !.sigs = <<>>]
         [] k = "nocert" -> Mk("a256", [sd EXCEPT !.certs = <<>>])
         [] k = "nodigest" -> Mk("a256", [sd EXCEPT !.digs = <<[alg |-> 514, ver |-> 0]>>])
         [] k = "alg" -> [g EXCEPT !.sigs[1].alg = 77]
         [] k = "chain" -> Mk("a256", [sd EXCEPT !.certs = <<"a256_interA2", "interA2", "interA">>])
         [] k = "wrongchain" -> Mk("a256", [sd EXCEPT !.certs = <<"a256_interA2", "interA2", "interA_byX">>])
AllKinds == {"good", "content", "untrusted", "expired", "unbound", "badsig", "nosig", "nocert", "nodigest", "alg", "chain", "wrongchain"}
V2s == {V([i \in 1..Len(q) |-> Kind("v2", q[i])]) : q \in UNION {[1..n -> Kinds2] : n \in 0..MaxSigners}}
Subs == V2s \cup {S(Kind("stamp", k)) : k \in Kinds2} \cup {R}
VInit == b = <<>> /\ d = 0
VNext == Len(b) < MaxSubs /\ d' = d + 1 /\ \E x \in Subs : b' = Append(b, x)
VSpec == VInit /\ [][VNext]_vars
\* one failing signer of those that count makes the whole fail
Strict == \A t \in {"v2", "stamp"} : (\E i \in 1..Len(Of(t, b)) : ~Good(t, Of(t, b)[i], Ctx[1], {"rootA"})) => ~Valid(b, Ctx[1], {"rootA"})
Nobody == (Missing("v2", b) /\ Missing("stamp", b)) => ~Valid(b, Ctx[1], {"rootA"})
=============================================================================
