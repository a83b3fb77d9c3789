------------------------------ MODULE MCAlg ------------------------------
(* Signatures: a signature is a triple (algorithm, key, data) and verifies for *)
(* exactly that triple.                                                        *)
EXTENDS KsuSign, TLC, Json
CONSTANTS Bits         \* flipped bits of each signature byte
VARIABLES s, v         \* what was signed, what is verified ("" before)
Keys == {"a256", "b256", "a384", "b384"}
\* keys whose encodings begin or end with zero bytes
OddKeys == {"z256", "l256", "x256", "z384", "l384", "x384"}
Algs == {513, 514, 0, 512, 515, 769, 16777729, 2147483647}
Data == {"empty", "one", "one'", "long", "long'"}
\* data offered to the verifier: also the hashes of what was signed
Offered == Data \cup {"hash256", "hash512"}
\* public keys offered to the verifier: real ones, and what is no key of a supported curve
Pubs == Keys \cup OddKeys \cup {"none", "garbage", "short", "longer", "k256", "k521"}
Muts == {"none", "empty", "short", "longer", "garbage", "double", "swapped",
         \* other encodings of the same two numbers, and numbers that no signature has
         "raw", "longform", "padded", "set", "octets", "zeros", "zero r", "zero s", "ones", "zero bytes"}
Flips == {[i |-> i, b |-> b] : i \in 0..103, b \in Bits}

SignOk(a, k) == a \in {513, 514} /\ Alg(k) = a
VerifyOk(x, y) == SignOk(x.alg, x.key) /\ x.alg = y.alg /\ x.key = y.pub /\ x.data = y.data /\ y.mut = "none"

Init == s \in [alg : Algs, key : Keys, data : Data] \cup [alg : {513, 514}, key : OddKeys, data : {"empty", "one", "long"}] /\ v = <<>>
NoFlip == [i |-> -1, b |-> 0]
Next == /\ v = <<>> /\ UNCHANGED s
        /\ SignOk(s.alg, s.key)
        /\ v' \in [alg : Algs, pub : Pubs, data : Offered, mut : {"none"}, flip : {NoFlip}]
                \cup [alg : {513, 514}, pub : {s.key}, data : {s.data}, mut : Muts \ {"none"}, flip : {NoFlip}]
                \cup (IF s.data = "one" THEN [alg : {513, 514, 0, 16777729}, pub : Pubs, data : {"one", "empty"}, mut : Muts, flip : {NoFlip}] ELSE {})
                \cup (IF s.data \in {"one", "long"} /\ s.key \in Keys THEN [alg : {s.alg}, pub : {s.key}, data : {s.data}, mut : {"flip"}, flip : Flips] ELSE {})
Spec == Init /\ [][Next]_<<s, v>>
-----------------------------------------------------------------------------
\* for every signature exactly one (algorithm, key, data) verifies
Binding == v # <<>> => (VerifyOk(s, v) => v.alg = s.alg /\ v.pub = s.key /\ v.data = s.data)
Unknown == v # <<>> => (v.alg \notin {513, 514} => ~VerifyOk(s, v))
Emit == PrintT(ToJson([s |-> s, signs |-> SignOk(s.alg, s.key), v |-> IF v = <<>> THEN [alg |-> 0] ELSE v, check |-> v # <<>>, ok |-> v # <<>> /\ VerifyOk(s, v)]))
=============================================================================
