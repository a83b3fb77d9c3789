------------------------------ MODULE MCAttack ------------------------------
(* An attacker working on the signing block of an honestly signed module.       *)
(* Honest signers signed content 0 (and, some other day, content 2); nobody      *)
(* honest ever signed content 1.  The attacker owns a key, certificates for it   *)
(* from a foreign authority and from itself, all public certificates, and can    *)
(* rebuild the block as it likes.                                                *)
EXTENDS KsuVerify, TLC, Json
CONSTANTS MaxDepth, Starts, Wide,
          Thorough   \* up to this depth a block is verified in every way
VARIABLES b, d
vars == <<b, d>>
Evil == "b256"
Honest == {"a256", "a384"}
Sd(digs, certs, attrs, zero) == [digs |-> digs, certs |-> certs, attrs |-> attrs, zero |-> zero]
Sig(k, sd) == [alg |-> AlgOf(k), by |-> k, over |-> sd, bad |-> FALSE]
Mk(k, sd) == [sd |-> sd, sigs |-> <<Sig(k, sd)>>, key |-> k]
Dg(v) == <<[alg |-> 513, ver |-> v], [alg |-> 514, ver |-> v]>>
One(k, v) == <<[alg |-> AlgOf(k), ver |-> v]>>
H1(v) == Mk("a256", Sd(One("a256", v), <<"a256_rootA">>, 0, TRUE))
H2(v) == Mk("a384", Sd(Dg(v), <<"a384_interA2", "interA2", "interA">>, 0, TRUE))
HS(v) == Mk("a384", Sd(One("a384", v), <<"a384_rootA">>, 1, FALSE))
HS1(v) == Mk("a256", Sd(One("a256", v), <<"a256_rootA">>, 1, FALSE))
E1(v) == Mk(Evil, Sd(One(Evil, v), <<"b256_rootX">>, 0, TRUE))
V(ss) == [t |-> "v2", signers |-> ss]
S(s) == [t |-> "stamp", signers |-> <<s>>]
R == [t |-> "raw", signers |-> <<>>]
Start == [ v2 |-> <<V(<<H1(0)>>)>>, chain |-> <<V(<<H2(0)>>)>>, stamp |-> <<S(HS(0))>>, both |-> <<V(<<H1(0)>>), S(HS(0))>>,
           same |-> <<V(<<H1(0)>>), S(HS1(0))>>, two |-> <<V(<<H1(0), H2(0)>>)>>, old |-> <<V(<<H1(2)>>), S(HS(0))>> ]

\* changes of the signed data
SdEdits(sd) ==
    {[sd EXCEPT !.digs = x] : x \in {<<>>, One("a256", 1), Dg(1), Dg(1) \o sd.digs, sd.digs \o Dg(1), <<[alg |-> 77, ver |-> 0]>>}
                                    \cup (IF Wide THEN {One("a384", 1), <<[alg |-> 77, ver |-> 1]>> \o sd.digs, Dg(0)} ELSE {})}
    \cup {[sd EXCEPT !.certs = x] : x \in {<<>>, <<"b256_rootX">>, <<"b256_self">>, <<"b256_rootX">> \o sd.certs, sd.certs \o <<"rootX">>, <<"junk">> \o sd.certs}
                                    \cup (IF Wide THEN {<<"b256_rootX", "rootX">>, <<"a256_rootB">>, <<"a384_rootA">>, <<"a256_interA2", "interA2", "interA">>, <<"rootA">>, <<"a256_expired">>} ELSE {})}
    \cup {[sd EXCEPT !.attrs = 2]} \cup {[sd EXCEPT !.zero = ~@]}
SigEdits(s) ==
    {[s EXCEPT !.sigs = x] : x \in {<<>>, <<Sig(Evil, s.sd)>>, s.sigs \o <<Sig(Evil, s.sd)>>, <<Sig(Evil, s.sd)>> \o s.sigs, s.sigs \o s.sigs}
        \cup (IF s.sigs = <<>> THEN {} ELSE
                {[s.sigs EXCEPT ![1].bad = TRUE], [s.sigs EXCEPT ![1].alg = 514], [s.sigs EXCEPT ![1].alg = 77], Tail(s.sigs),
                 s.sigs \o <<[s.sigs[1] EXCEPT !.bad = TRUE]>>, s.sigs \o <<[s.sigs[1] EXCEPT !.alg = 77]>>}
                \cup (IF Wide THEN {[s.sigs EXCEPT ![1].alg = 513], [s.sigs EXCEPT ![1].alg = 259]} ELSE {}))}
KeyEdits(s) == {[s EXCEPT !.key = k] : k \in {Evil, "a256", "a384", "junk"} \cup (IF Wide THEN {"", "b384", "rootA"} ELSE {})}
\* the attacker may also make everything consistent with its own key
Takeover(s) == {[Mk(Evil, s.sd) EXCEPT !.key = Evil], Mk(Evil, [s.sd EXCEPT !.certs = <<"b256_rootX">> \o Tail(@)])}
SignerEdits(t, s) ==
    {x \in {[s EXCEPT !.sd = e] : e \in SdEdits(s.sd)} \cup SigEdits(s) \cup KeyEdits(s) \cup (IF s.sd.certs = <<>> THEN {} ELSE Takeover(s)) : (t = "stamp" => ~x.sd.zero) /\ x # s}
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Put(q, i, x) == SubSeq(q, 1, i - 1) \o <<x>> \o SubSeq(q, i, Len(q))
\* moving a signer between the schemes; the stamp's signed data has no zero bytes at its end
AsStamp(s) == S([s EXCEPT !.sd.zero = FALSE])
Moves(q, i) ==
    IF q[i].t = "v2" THEN {Put(Without(q, i), i, AsStamp(q[i].signers[j])) : j \in 1..Len(q[i].signers)} \cup {Put(q, i + 1, AsStamp(q[i].signers[j])) : j \in 1..Len(q[i].signers)}
    ELSE IF q[i].t = "stamp" THEN {Put(Without(q, i), i, V(q[i].signers)), Put(q, i, V(q[i].signers))} ELSE {}
Added == {V(<<>>), V(<<E1(1)>>), V(<<E1(0)>>), S(Mk(Evil, Sd(One(Evil, 1), <<"b256_self">>, 0, FALSE))), R, V(<<H1(2)>>), S(HS(2)), S(HS(0))}
BlockEdits(q) ==
    {Without(q, i) : i \in 1..Len(q)} \cup {Put(q, i, q[i]) : i \in 1..Len(q)} \cup UNION {Moves(q, i) : i \in 1..Len(q)}
    \cup {Put(q, i, x) : i \in {1, Len(q) + 1}, x \in Added}
    \cup (IF Len(q) = 2 THEN {<<q[2], q[1]>>} ELSE {})
    \* signers of a V2 block
    \cup UNION {IF q[i].t # "v2" THEN {} ELSE
           {[q EXCEPT ![i].signers = x] : x \in {Append(q[i].signers, E1(0)), <<E1(1)>> \o q[i].signers, Append(q[i].signers, H1(2)), Append(q[i].signers, H2(0))}
             \cup {Without(q[i].signers, j) : j \in 1..Len(q[i].signers)}} : i \in 1..Len(q)}
    \cup UNION {UNION {{[q EXCEPT ![i].signers[j] = x] : x \in SignerEdits(q[i].t, q[i].signers[j])} : j \in 1..Len(q[i].signers)} : i \in 1..Len(q)}
Init == d = 0 /\ b \in {Start[x] : x \in Starts}
Next == d < MaxDepth /\ d' = d + 1 /\ b' \in {x \in BlockEdits(b) : Len(x) <= 4}
Spec == Init /\ [][Next]_vars
\* the block alone is what matters
TheView == b
-----------------------------------------------------------------------------
Ctx == <<[ver |-> 0, algs |-> Known], [ver |-> 1, algs |-> Known], [ver |-> 2, algs |-> Known], [ver |-> 0, algs |-> {514}], [ver |-> -2, algs |-> {}]>>
RootSets == <<{"rootA"}, {}, {"rootB"}, {"rootA", "rootX"}>>
\* content nobody honest signed is never valid, nor is any without configured roots or computed digests
NoForgery == ~Valid(b, Ctx[2], {"rootA"}) /\ ~Valid(b, Ctx[2], {"rootB"})
NoBlindTrust == \A c \in 1..5 : ~Valid(b, Ctx[c], {}) /\ ~Valid(b, Ctx[5], RootSets[IF c = 5 THEN 1 ELSE c])
\* what is valid was signed, as it is, by honest keys
Authentic == Valid(b, Ctx[1], {"rootA"}) =>
    \A t \in {"v2", "stamp"} : \A i \in 1..Len(Of(t, b)) : LET s == Of(t, b)[i] IN s.key \in Honest /\ s.sd \in {H1(0).sd, H2(0).sd, HS(0).sd, HS1(0).sd}
ASSUME \A x \in DOMAIN Start : Valid(Start[x], Ctx[1], {"rootA"}) = (x # "old")
View(t, c, r) == [missing |-> Missing(t, b), pass |-> Passes(t, b, Ctx[c], RootSets[r]),
    signers |-> [i \in 1..Len(Of(t, b)) |-> LET s == Of(t, b)[i] IN
        [sig |-> AllSigs(s) /\ (s.sd.certs = <<>> \/ Bound(s)), dig |-> SomeDigest(s, Ctx[c]), trust |-> Chained(t, s, RootSets[r])]]]
Combos == IF d <= Thorough THEN <<<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 1>>, <<2, 4>>, <<3, 1>>, <<4, 1>>, <<5, 4>>>> ELSE <<<<1, 1>>, <<2, 4>>, <<5, 1>>>>
Emit == PrintT(ToJson([b |-> b, file |-> d <= Thorough, res |-> [i \in 1..Len(Combos) |-> LET c == Combos[i][1] r == Combos[i][2] IN
    [ctx |-> Ctx[c], roots |-> RootSets[r], v2 |-> View("v2", c, r), stamp |-> View("stamp", c, r), valid |-> Valid(b, Ctx[c], RootSets[r])]]]))
=============================================================================
