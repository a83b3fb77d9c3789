------------------------------ MODULE KsuVerify ------------------------------
(* What a signing block is worth: signers with ideal signatures and digests.    *)
(* A signer is                                                                   *)
(*   sd    signed data [digs, certs, attrs, zero]                                *)
(*   sigs  signatures [alg, by, over, bad]: made by key `by` over `over`         *)
(*   key   the public key stored next to it                                      *)
(* A digest [alg, ver] is that of content version ver.                           *)
EXTENDS KsuCert
AlgOf(k) == IF k \in {"a256", "b256"} THEN 513 ELSE IF k \in {"a384", "b384"} THEN 514 ELSE 0
Known == {513, 514}
\* an ideal signature: it holds for the key that made it, the data it was made of, and its algorithm
SigHolds(s, g) == g.alg \in Known /\ ~g.bad /\ g.by = s.key /\ g.over = s.sd /\ g.alg = AlgOf(s.key)
AllSigs(s) == s.sigs # <<>> /\ \A i \in 1..Len(s.sigs) : SigHolds(s, s.sigs[i])
\* the digest that counts for an algorithm is the first one stored for it
Stored(s, a) == LET I == {i \in 1..Len(s.sd.digs) : s.sd.digs[i].alg = a} IN
    IF I = {} THEN -1 ELSE s.sd.digs[CHOOSE i \in I : \A j \in I : i <= j].ver
\* ctx: [ver, algs], the content and the algorithms whose digests were computed; ver = -2: none
DigestHolds(s, ctx) == ctx.ver # -2 /\ s.sigs # <<>> /\ \A i \in 1..Len(s.sigs) : s.sigs[i].alg \in ctx.algs /\ Stored(s, s.sigs[i].alg) = ctx.ver
\* weaker: some signature's digest is that of the content
SomeDigest(s, ctx) == ctx.ver # -2 /\ \E i \in 1..Len(s.sigs) : s.sigs[i].alg \in ctx.algs /\ Stored(s, s.sigs[i].alg) = ctx.ver
Bound(s) == s.sd.certs # <<>> /\ KeyOf(s.sd.certs[1]) = s.key
Chained(t, s, roots) == s.sd.certs # <<>> /\ Trusted(s.sd.certs[1], IF t = "stamp" THEN <<>> ELSE Tail(s.sd.certs), roots)
Good(t, s, ctx, roots) == AllSigs(s) /\ DigestHolds(s, ctx) /\ Bound(s) /\ Chained(t, s, roots)

\* a block: sequence of sub-blocks [t, signers], t one of v2, stamp, raw
RECURSIVE Flat(_)
Flat(b) == IF b = <<>> THEN <<>> ELSE (IF b[1].t = "v2" THEN b[1].signers ELSE <<>>) \o Flat(Tail(b))
RECURSIVE FirstStamp(_)
FirstStamp(b) == IF b = <<>> THEN <<>> ELSE IF b[1].t = "stamp" THEN b[1].signers ELSE FirstStamp(Tail(b))
Of(t, b) == IF t = "v2" THEN Flat(b) ELSE FirstStamp(b)
Missing(t, b) == Of(t, b) = <<>>
Passes(t, b, ctx, roots) == ~Missing(t, b) /\ \A i \in 1..Len(Of(t, b)) : Good(t, Of(t, b)[i], ctx, roots)
Valid(b, ctx, roots) ==
    /\ ~(Missing("v2", b) /\ Missing("stamp", b))
    /\ \A t \in {"v2", "stamp"} : Missing(t, b) \/ Passes(t, b, ctx, roots)
=============================================================================
