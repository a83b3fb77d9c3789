------------------------------ MODULE MCKeys ------------------------------
EXTENDS KsuKeystore, TLC, Json
CONSTANTS MaxBlocks
VARIABLES x, l
vars == <<x, l>>
Keys == {"a256", "b256", "a384", "b384", "z256", "l256", "x256", "z384", "l384", "x384", "rsa", "k521", "k256", "ed"}
Forms == {"pk8", "sec1", "enc", "empty", "garbage", "cert", "public"}
\* which fixtures exist
Exists(f, k) == (f = "sec1" => k \notin {"rsa", "k521", "k256", "ed"}) /\ (f = "enc" => k \notin {"k256", "ed"})
Pws == {"none", "right", "wrong", "empty"}
Blocks == {"a256_rootA", "b384_interA2", "interA2", "rootA", "key", "text", "crl", "broken"}
More == {"trusted", "request", "lower"}
PemKeys == {[what |-> "pem", form |-> f, key |-> k, pw |-> p, eol |-> e] : f \in Forms, k \in Keys, p \in Pws, e \in {"lf", "crlf"}}
Der == {[what |-> "der", form |-> f, key |-> k, pw |-> "none", eol |-> "lf"] : f \in {"pk8", "sec1", "empty", "garbage", "cert", "cut"}, k \in {"a256", "b256", "a384", "b384", "z256", "l256", "x256", "z384", "l384", "x384"}}
P12Cases == {[what |-> "p12", c |-> c, pw |-> p, form |-> "p12", key |-> "", eol |-> "lf"] : c \in P12s, p \in {"right", "wrong", "empty"}}
\* two keys in one file: which one is loaded may not depend on anything but the first
TwoKeys == {[what |-> "two", form |-> f, key |-> a, other |-> b, pw |-> "none", eol |-> "lf"] : f \in {"pk8", "sec1"}, a \in {"a256", "a384"}, b \in {"b256", "b384"}}
\* the same key under different passwords, and under different ciphers
Protected == {[what |-> "pw", form |-> f[1], key |-> f[2], under |-> u, pw |-> p, eol |-> "lf"] : f \in {<<"enc", "a256">>, <<"enc", "b384">>, <<"p12", "b384">>}, u \in PwNames, p \in PwNames \cup {"none"}}
   \cup {[what |-> "pw", form |-> f, key |-> k, under |-> "right", pw |-> p, eol |-> "lf"] : f \in {"aes-128-cbc", "aes-192-cbc", "scrypt"}, k \in {"a256", "b384"}, p \in PwNames \cup {"none"}}
\* containers put together: key bags, certificate bags (repetitions included), encrypted or not, in either order
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Made == {[what |-> "made", c |-> [keys |-> ks, certs |-> cs, plain |-> p, first |-> o, pw |-> "right"], pw |-> w, form |-> "p12", key |-> "", eol |-> "lf"]
         : ks \in Seqs({"a256", "b384", "k521"}, 2), cs \in Seqs({"a256_rootA", "interA", "rootA"}, 3), p \in BOOLEAN, o \in {"keys", "certs"}, w \in {"right", "wrong"}}
Init == x \in PemKeys \cup Der \cup P12Cases \cup TwoKeys \cup Made \cup {y \in Protected : y.form = "p12" => y.pw # "none"} /\ l = <<>> /\ (x.what \in {"pem", "two"} => Exists(x.form, x.key))
\* only the plain forms are combined with every list of blocks
Next == /\ x.what = "pem" /\ Len(l) < (IF x.form \in {"pk8", "enc"} /\ x.key \in {"a256", "b384"} /\ x.pw = "right" THEN MaxBlocks ELSE 1)
        /\ \E b \in Blocks \cup (IF Len(l) < 2 THEN More ELSE {}) : l' = Append(l, b)
        /\ UNCHANGED x
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Ok == CASE x.what = "pem" -> PemLoads(x.form, x.key, x.pw, l)
        [] x.what = "der" -> DerLoads(x.form, x.key)
        [] x.what \in {"p12", "made"} -> P12Loads(x.c, x.pw)
        [] x.what = "pw" -> ProtectedLoads(x.under, x.pw)
        [] x.what = "two" -> TRUE
Want == IF ~Ok THEN [key |-> ""] ELSE CASE x.what = "pem" -> Loaded(x.key, Certs(l))
                                        [] x.what \in {"p12", "made"} -> Loaded(x.c.keys[1], x.c.certs)
                                        [] x.what = "pw" -> Loaded(x.key, <<Leaf(x.key)>>)
                                        [] OTHER -> [key |-> x.key, alg |-> Curve(x.key)]
\* whatever is loaded is a key that was there, under the right password
NeverAnother == Ok => (Supported(Want.key) /\ Want.alg = Curve(Want.key) /\ ((x.form = "enc" /\ x.what # "pw") => x.pw = "right") /\ (x.what = "pw" => x.pw = x.under))
\* no certificate is lost or invented
Complete == (Ok /\ x.what = "pem") => <<Want.cert>> \o Want.chain = Certs(l)
Emit == PrintT(ToJson([x |-> x, blocks |-> l, ok |-> Ok, want |-> Want]))
=============================================================================
