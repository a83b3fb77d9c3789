------------------------------ MODULE KsuSign ------------------------------
(* What the signers put into a block.  Keys, certificates and algorithms are   *)
(* names of the fixture files; a content is a version number; a digest is the  *)
(* pair (algorithm, content), a signature the pair (key, signed data).         *)
EXTENDS Integers, Sequences
Alg(k) == IF k \in {"a256", "b256", "z256", "l256", "x256"} THEN 513 ELSE 514
Cfg(k, c, ch) == [key |-> k, cert |-> c, chain |-> ch]

RECURSIVE Uniq(_)
Uniq(s) == IF Len(s) < 2 THEN s ELSE IF s[1] = s[2] THEN Uniq(Tail(s)) ELSE <<s[1]>> \o Uniq(Tail(s))
\* the algorithms the configured signers need, in order, without repetition
Required(cfgs) == Uniq([i \in 1..Len(cfgs) |-> Alg(cfgs[i].key)])
Digs(algs, ver) == [i \in 1..Len(algs) |-> [alg |-> algs[i], ver |-> ver]]

V2(c, digs) == [t |-> "v2", key |-> c.key, alg |-> Alg(c.key), certs |-> <<c.cert>> \o c.chain, digs |-> digs, ts |-> FALSE]
Stamp(c, digs, ts) == [t |-> "stamp", key |-> c.key, alg |-> Alg(c.key), certs |-> <<c.cert>>, digs |-> digs, ts |-> ts]
Raw(id, n) == [t |-> "raw", id |-> id, n |-> n]

IsStamp(b) == b.t = "stamp"
NotStamp(b) == b.t # "stamp"
Keep(s) == SelectSeq(s, NotStamp)
(* A block is a sequence of sub-blocks without its padding; pad says whether   *)
(* it is padded to a multiple of 4096 bytes                                    *)
Block(subs, pad) == [subs |-> subs, pad |-> pad]
SignV2(c, ver, pad) == Block(<<V2(c, Digs(Required(<<c>>), ver))>>, pad)
SignStamp(c, ver, pad, ts) == Block(<<Stamp(c, Digs(Required(<<c>>), ver), ts)>>, pad)
SignBoth(c, d, ver, pad, ts) ==
    LET g == Digs(Required(<<c, d>>), ver) IN Block(<<V2(c, g), Stamp(d, g, ts)>>, pad)
AddStamp(b, d, ver, pad, ts) == Block(Keep(b.subs) \o <<Stamp(d, Digs(Required(<<d>>), ver), ts)>>, pad)

(* verification under one configured root; Leads(certs): does this list of     *)
(* certificates lead to the root                                               *)
GoodSigner(s, ver, Leads(_)) ==
    /\ \E i \in 1..Len(s.digs) : s.digs[i].alg = s.alg /\ s.digs[i].ver = ver
    /\ Leads(IF s.t = "stamp" THEN <<s.certs[1]>> ELSE s.certs)
Signers(b) == SelectSeq(b.subs, LAMBDA x : x.t # "raw")
Valid(b, ver, Leads(_)) ==
    /\ Signers(b) # <<>>
    /\ \A i \in 1..Len(Signers(b)) : GoodSigner(Signers(b)[i], ver, Leads)
=============================================================================
