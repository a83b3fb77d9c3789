------------------------------ MODULE KsuKeystore ------------------------------
(* What loading credentials must give.  A key file holds one key in some form,   *)
(* perhaps under a password; a certificate file is a sequence of PEM blocks.      *)
(* Containers (PKCS#12) hold keys and certificates under one password.            *)
EXTENDS Integers, Sequences
\* z, l, x: keys with zero bytes at the ends of their encodings
Curve(k) == IF k \in {"a256", "b256", "z256", "l256", "x256"} THEN 513 ELSE IF k \in {"a384", "b384", "z384", "l384", "x384"} THEN 514 ELSE 0
Supported(k) == Curve(k) # 0
\* forms: pk8, sec1: plain;  enc: PKCS#8 under the password;  others hold no private key
KeyLoads(form, key, pw) == Supported(key) /\ (form \in {"pk8", "sec1"} \/ (form = "enc" /\ pw = "right"))
\* a key or a container protected with one password opens with exactly that password, whatever its characters
PwNames == {"right", "wrong", "empty", "lead", "trail", "line", "inner", "short", "more", "uni", "long", "cut"}
ProtectedLoads(under, pw) == pw = under
DerLoads(form, key) == Supported(key) /\ form \in {"pk8", "sec1"}
\* blocks of the certificate file: names of certificates, or foreign things
Foreign == {"key", "text", "crl", "trusted", "request", "lower"}
RECURSIVE Certs(_)
Certs(l) == IF l = <<>> THEN <<>> ELSE (IF l[1] \in Foreign THEN <<>> ELSE <<l[1]>>) \o Certs(Tail(l))
\* a block that cannot be decoded spoils the file: nothing may silently be left out
Broken(l) == \E i \in 1..Len(l) : l[i] = "broken"
CertsLoad(l) == ~Broken(l) /\ Certs(l) # <<>>
PemLoads(form, key, pw, l) == KeyLoads(form, key, pw) /\ CertsLoad(l)
Loaded(key, cs) == [key |-> key, alg |-> Curve(key), cert |-> cs[1], chain |-> Tail(cs)]
\* the containers of the fixture folder
Leaf(k) == k \o "_rootA"
P12s == {[file |-> k, keys |-> <<k>>, certs |-> <<Leaf(k)>>, pw |-> "right"] : k \in {"a256", "b256", "a384", "b384", "z256", "l256", "x256", "z384", "l384", "x384"}}
   \cup {[file |-> k \o "_chain", keys |-> <<k>>, certs |-> <<k \o "_interA2", "interA2", "interA", "rootA">>, pw |-> "right"] : k \in {"a256", "b256", "a384", "b384"}}
   \cup {[file |-> "nokey", keys |-> <<>>, certs |-> <<Leaf("a256")>>, pw |-> "right"], [file |-> "nocert", keys |-> <<"a256">>, certs |-> <<>>, pw |-> "right"],
         [file |-> "rsa", keys |-> <<"rsa">>, certs |-> <<"rsa_self">>, pw |-> "right"], [file |-> "k521", keys |-> <<"k521">>, certs |-> <<"k521_self">>, pw |-> "right"],
         [file |-> "emptypw", keys |-> <<"a256">>, certs |-> <<Leaf("a256")>>, pw |-> "empty"]}
\* PKCS#12: the first key, the first certificate, the others as they are stored
P12Loads(c, pw) == pw = c.pw /\ c.keys # <<>> /\ Supported(c.keys[1]) /\ c.certs # <<>>
=============================================================================
