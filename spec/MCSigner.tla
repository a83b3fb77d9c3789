------------------------------ MODULE MCSigner ------------------------------
(* The signers as functions from their configuration and the given digests to  *)
(* a block.                                                                    *)
EXTENDS KsuSign, TLC, Json
CONSTANTS MaxDigests, MaxContent
VARIABLES sel, x
Keys == {"a256", "b256", "a384", "b384"}
\* given digests: the algorithm they are for, and a tag for their value (the driver's bytes)
DigestOf(a) == [alg |-> a, tag |-> 0]
Given == UNION {[1..n -> {[alg |-> 513, tag |-> 1], [alg |-> 514, tag |-> 2], [alg |-> 77, tag |-> 3], [alg |-> 513, tag |-> 4]}] : n \in 0..MaxDigests}
Chains == {<<>>, <<"interA">>, <<"interA2", "interA", "rootA">>}
Cert(k) == k \o "_rootA"

Sub(ch, ct) == [i \in 1..Len(ch) |-> IF ch[i] = "SELF" THEN ct ELSE ch[i]]
\* single signers: api, key, algorithm, chain, timestamp
V2Apis == {"v2", "v2pairs"}
StampApis == {"stamp", "stamppairs", "stampdefault", "old", "oldpairs", "builder", "builderdefault"}
\* certificates the signer is given; SELF in a chain is the signer's own certificate
OneC(api, k, a, ct, ch, g, ts) ==
    [api |-> api, key |-> k, cert |-> ct, alg |-> a, chain |-> Sub(ch, ct), given |-> g, ts |-> ts, ok |-> a = Alg(k),
     certs |-> IF api \in V2Apis THEN <<ct>> \o Sub(ch, ct) ELSE <<ct>>,
     stamped |-> (api \in {"stampdefault", "builderdefault"}) \/ (api \notin V2Apis /\ ts)]
One(api, k, a, ch, g, ts) == OneC(api, k, a, Cert(k), ch, g, ts)
\* chains with repetitions, the signer's own certificate, empty and meaningless certificates; digests of special values
Odd == {"SELF", "interA", "empty", "junk"}
OddChains == UNION {[1..n -> Odd] : n \in 0..3}
OddGiven == UNION {[1..n -> {[alg |-> 513, tag |-> 100], [alg |-> 514, tag |-> 101], [alg |-> 513, tag |-> 1]}] : n \in 0..3}
OddSingles == {OneC(api, k, Alg(k), IF ct = "" THEN Cert(k) ELSE ct, ch, <<[alg |-> 513, tag |-> 1]>>, TRUE) : api \in V2Apis \cup StampApis, k \in {"a256", "b384"}, ct \in {"", "b256_rootA", "empty", "junk", "zeros"}, ch \in OddChains}
              \cup {OneC(api, "a256", 513, Cert("a256"), <<>>, g, TRUE) : api \in V2Apis \cup StampApis, g \in OddGiven}
OddKeys == {"z256", "l256", "x256", "z384", "l384", "x384"}
Singles == {One(api, k, Alg(k), ch, g, ts) : api \in V2Apis \cup StampApis, k \in OddKeys, ch \in {<<>>, <<"interA">>}, g \in {h \in Given : Len(h) <= 1}, ts \in BOOLEAN}
           \cup {One(api, k, a, ch, g, FALSE) : api \in V2Apis, k \in Keys, a \in {513, 514, 77}, ch \in Chains, g \in Given}
           \cup {One(api, k, a, ch, g, ts) : api \in StampApis, k \in Keys, a \in {513, 514, 77}, ch \in {<<>>, <<"interA">>}, g \in Given, ts \in BOOLEAN}

\* combined signer: which of the two are configured
Combined ==
    {[api |-> "module", v2 |-> v, stamp |-> s, given |-> g, pad |-> p, ts |-> t,
      req |-> Required((IF v = "" THEN <<>> ELSE <<Cfg(v, "", <<>>)>>) \o (IF s = "" THEN <<>> ELSE <<Cfg(s, "", <<>>)>>))]
     : v \in Keys \cup {"", "z256", "z384"}, s \in Keys \cup {"", "z256", "z384"}, g \in {h \in Given : Len(h) <= 2}, p \in BOOLEAN, t \in BOOLEAN}
CombinedOk == {c \in Combined : c.v2 # "" \/ c.stamp # ""}

\* adding a stamp to an existing block of arbitrary content
Elems == {"v2", "stamp", "raw", "raw0", "elf", "pad", "pad0", "v2two"}
Contents == UNION {[1..n -> Elems] : n \in 0..MaxContent}
Kept(e) == e \notin {"stamp", "pad", "pad0"}
Adds == {[api |-> "add", by |-> b, content |-> c, pad |-> p, ts |-> t, ok |-> b # "v2only", kept |-> SelectSeq(c, Kept)]
         : b \in {"a256", "a384", "v2only", "both"}, c \in Contents, p \in BOOLEAN, t \in BOOLEAN}
\* the initial states only choose the family, so that the workers share the rest
Init == /\ sel \in {<<"s", api>> : api \in V2Apis \cup StampApis} \cup {<<"c", "">>} \cup {<<"a", e>> : e \in Elems} \cup {<<"a0", "">>}
        /\ x = [api |-> ""]
Next == /\ sel # <<>>
        /\ x' \in CASE sel[1] = "s" -> {y \in Singles \cup OddSingles : y.api = sel[2]}
                    [] sel[1] = "c" -> CombinedOk
                    [] sel[1] = "a" -> {y \in Adds : Len(y.content) > 0 /\ y.content[1] = sel[2]}
                    [] sel[1] = "a0" -> {y \in Adds : y.content = <<>>}
        /\ sel' = <<>>
Spec == Init /\ [][Next]_<<sel, x>>
Done == sel = <<>>
-----------------------------------------------------------------------------
\* a stamp added never leaves two, and drops nothing but stamps and padding
AddKeeps == (Done /\ x.api = "add") => Len(x.kept) = Len(x.content) - Len(SelectSeq(x.content, LAMBDA e : ~Kept(e)))
Emit == Done => PrintT(ToJson(x))
=============================================================================
