------------------------------ MODULE MCChain ------------------------------
(* All certificates of the catalogue as end entity, with all lists of supplied  *)
(* certificates and all small sets of configured roots.                         *)
EXTENDS KsuCert, TLC, Json
CONSTANTS MaxSupplied, MaxRoots, Who
VARIABLES leaf, sup, roots
vars == <<leaf, sup, roots>>
Supplies == (DOMAIN Authority \ {"fakeA", "rootA_expired"}) \cup {"junk"}
RootNames == {"rootA", "rootB", "rootX", "fakeA", "rootA_expired", "interA", "a256_self", "a256_expired", "junk"}
Ends == {LeafName(x) : x \in {y \in LeafKinds : y[1] \in Who}} \cup DOMAIN Authority \cup {"junk", "empty"}
Init == leaf \in Ends /\ sup = <<>> /\ roots = {}
Supply == Len(sup) < MaxSupplied /\ \E c \in Supplies : sup' = Append(sup, c) /\ UNCHANGED <<leaf, roots>>
AddRoot == Cardinality(roots) < MaxRoots /\ \E r \in RootNames \ roots : roots' = roots \cup {r} /\ UNCHANGED <<leaf, sup>>
Next == Supply \/ AddRoot
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
T == Trusted(leaf, sup, roots)
NoRootNoTrust == roots = {} => ~T
\* trust means: a root itself, or something a configured root (or what it vouches for) issued
OnlyFromRoots == T => (leaf \in roots \/ (Cert[leaf].val = "ok" /\ Cert[leaf].eku \in {"code", "both"} /\ ~Cert[leaf].ca))
\* more roots and more supplied certificates never take trust away
NeverTrusted == (roots \subseteq {"rootA", "rootB"} /\ leaf \in {"a256_rootX", "a256_self", "a256_fakeA", "a256_interX", "a256_expired", "a256_future", "a256_server", "a256_noeku"}) => ~T
Valid == T => MayBeValid(leaf, sup, roots)
Emit == PrintT(ToJson([leaf |-> leaf, sup |-> sup, roots |-> roots, trusted |-> T, may |-> MayBeValid(leaf, sup, roots), fact |-> IF Parses(leaf) THEN Cert[leaf] ELSE [sub |-> ""]]))
=============================================================================
