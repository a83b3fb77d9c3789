------------------------------ MODULE KsuCert ------------------------------
(* Certificates as facts: whom they name, whose key they hold, who issued them, *)
(* with which key they are signed, and what they are good for.  Which           *)
(* certificates lead to a configured root.                                      *)
EXTENDS Integers, Sequences, FiniteSets
Fact(sub, iss, key, by, ca, pl, eku, val) ==
    [sub |-> sub, iss |-> iss, key |-> key, by |-> by, ca |-> ca, pl |-> pl, eku |-> eku, val |-> val]
A == "Test Root A"   B == "Test Root B"   X == "Test Root X"
IA == "Test Inter A" IA2 == "Test Inter A2" IX == "Test Inter X"
Authority ==
  [ rootA          |-> Fact(A, A, "rootA", "rootA", TRUE, -1, "none", "ok"),
    rootB          |-> Fact(B, B, "rootB", "rootB", TRUE, -1, "none", "ok"),
    rootX          |-> Fact(X, X, "rootX", "rootX", TRUE, -1, "none", "ok"),
    fakeA          |-> Fact(A, A, "fakeA", "fakeA", TRUE, -1, "none", "ok"),
    rootA_expired  |-> Fact(A, A, "rootA", "rootA", TRUE, -1, "none", "expired"),
    interA         |-> Fact(IA, A, "interA", "rootA", TRUE, -1, "none", "ok"),
    interA_expired |-> Fact(IA, A, "interA", "rootA", TRUE, -1, "none", "expired"),
    interA_nonca   |-> Fact(IA, A, "interA", "rootA", FALSE, -1, "code", "ok"),
    interA_pl0     |-> Fact(IA, A, "interA", "rootA", TRUE, 0, "none", "ok"),
    interA_byX     |-> Fact(IA, X, "interA", "rootX", TRUE, -1, "none", "ok"),
    interA2        |-> Fact(IA2, IA, "interA2", "interA", TRUE, -1, "none", "ok"),
    interX         |-> Fact(IX, X, "interX", "rootX", TRUE, -1, "none", "ok") ]
\* the issuers of end entity certificates: <<name, key>>
IssuerOf == [rootA |-> <<A, "rootA">>, rootB |-> <<B, "rootB">>, rootX |-> <<X, "rootX">>, fakeA |-> <<A, "fakeA">>,
             interA |-> <<IA, "interA">>, interA2 |-> <<IA2, "interA2">>, interX |-> <<IX, "interX">>]
LeafKeys == {"a256", "b256", "a384", "b384"}
Plain == {"rootA", "rootB", "rootX", "interA", "interA2"}
OnlyA == {"interX", "fakeA", "expired", "future", "server", "noeku", "both", "ca", "expired_interA", "server_interA"}
LeafFact(k, s) ==
    LET iss == IF s \in DOMAIN IssuerOf THEN IssuerOf[s] ELSE IF s \in {"expired_interA", "server_interA"} THEN IssuerOf["interA"] ELSE IssuerOf["rootA"]
        me == "Leaf " \o k
    IN IF s = "self" THEN Fact(me, me, k, k, FALSE, -1, "code", "ok")
       ELSE Fact(me, iss[1], k, iss[2], s = "ca", -1,
                 CASE s \in {"server", "server_interA"} -> "server" [] s \in {"noeku", "ca"} -> "none" [] s = "both" -> "both" [] OTHER -> "code",
                 CASE s \in {"expired", "expired_interA"} -> "expired" [] s = "future" -> "future" [] OTHER -> "ok")
LeafKinds == {<<k, s>> : k \in LeafKeys, s \in Plain \cup {"self"}} \cup {<<k, s>> : k \in {"a256", "a384"}, s \in OnlyA}
LeafName(x) == x[1] \o "_" \o x[2]
Leaves == {LeafName(x) : x \in LeafKinds}
Cert == [n \in DOMAIN Authority \cup Leaves |->
            IF n \in DOMAIN Authority THEN Authority[n] ELSE LET x == CHOOSE x \in LeafKinds : LeafName(x) = n IN LeafFact(x[1], x[2])]
\* anything else is no certificate at all
Parses(n) == n \in DOMAIN Cert
KeyOf(n) == IF Parses(n) THEN Cert[n].key ELSE ""

LeafOk(c) == c.val = "ok" /\ ~c.ca /\ c.eku \in {"code", "both"}
CaOk(c, below) == c.val = "ok" /\ c.ca /\ (c.pl = -1 \/ below <= c.pl) /\ c.eku \in {"none", "code", "both"}
\* Issued(c, p): p's key signed c and p is named as the issuer
Issued(c, p) == c.iss = p.sub /\ c.by = p.key
RECURSIVE Path(_, _, _, _)
\* c leads to one of the anchors through certificates of S, none twice; d: authorities below
Path(c, S, anchors, d) ==
    \/ \E r \in anchors : Issued(c, Cert[r])
    \/ d < 6 /\ \E i \in S : CaOk(Cert[i], d) /\ Issued(c, Cert[i]) /\ Path(Cert[i], S \ {i}, anchors, d + 1)
Range(s) == {s[i] : i \in 1..Len(s)}
\* is the certificate trusted, given the supplied ones and the configured roots
Trusted(n, supplied, roots) ==
    roots # {} /\ (n \in roots \/ (Parses(n) /\ LeafOk(Cert[n])
                                   /\ Path(Cert[n], {i \in Range(supplied) : Parses(i)}, {r \in roots : Parses(r)}, 0)))
\* names alone: is there an apparent path
RECURSIVE Apparent(_, _, _)
Apparent(c, S, anchors) ==
    \/ \E r \in anchors : c.iss = Cert[r].sub
    \/ \E i \in S : c.iss = Cert[i].sub /\ Apparent(Cert[i], S \ {i}, anchors)
\* without trust a chain may be called valid (in structure) only if it does not even pretend to
\* lead to a configured root and the names link up in the order given
RECURSIVE Linked(_, _)
Linked(n, l) == l = <<>> \/ (Parses(n) /\ Parses(l[1]) /\ Cert[n].iss = Cert[l[1]].sub /\ Linked(l[1], Tail(l)))
MayBeValid(n, supplied, roots) ==
    \/ Trusted(n, supplied, roots)
    \/ roots = {} /\ Linked(n, supplied)
    \/ roots # {} /\ Parses(n) /\ LeafOk(Cert[n]) /\ Linked(n, supplied)
       /\ ~Apparent(Cert[n], {i \in Range(supplied) : Parses(i)}, {r \in roots : Parses(r)})
=============================================================================
