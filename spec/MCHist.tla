------------------------------ MODULE MCHist ------------------------------
(* The life of one module file: signing in every way the interface offers,     *)
(* re-signing, stamping, foreign sub-blocks, stripping, edits of the content,  *)
(* corruption of the block.  Every history up to MaxDepth is replayed.         *)
EXTENDS KsuSign, TLC, Json
CONSTANTS MaxDepth, Forms, Narrow   \* Narrow: few operations, for long histories
VARIABLES hist,     \* operations so far
          form,     \* which module
          ver,      \* version of its content
          blk,      \* Nothing or the block in the file
          st        \* "ok", "corrupt" or "refused" (the last operation must fail)
vars == <<hist, form, ver, blk, st>>
Nothing == [subs |-> <<>>, pad |-> FALSE, none |-> TRUE]

A == Cfg("a256", "a256_rootA", <<>>)
B == Cfg("a384", "a384_rootA", <<>>)
C == Cfg("b256", "b256_interA2", <<"interA2", "interA">>)
D == Cfg("b384", "b384_rootB", <<>>)
Z == Cfg("z384", "z384_rootA", <<>>)      \* a key whose encoding ends with a zero byte
Cfgs == {A, B, C, D}
Leads(cs) == cs \in {<<"a256_rootA">>, <<"a384_rootA">>, <<"z384_rootA">>, <<"b256_interA2", "interA2", "interA">>}
Pairs == {<<A, A>>, <<A, B>>, <<B, C>>, <<C, A>>, <<C, D>>, <<D, B>>}
PadTs == {<<TRUE, TRUE>>, <<FALSE, FALSE>>, <<TRUE, FALSE>>}

SignOps == {[op |-> "v2", c |-> c, d |-> c, pad |-> p, ts |-> FALSE] : c \in Cfgs, p \in BOOLEAN}
           \cup {[op |-> "both", c |-> q[1], d |-> q[2], pad |-> x[1], ts |-> x[2]] : q \in Pairs, x \in PadTs}
           \cup {[op |-> "stamp", c |-> c, d |-> c, pad |-> x[1], ts |-> x[2]] : c \in {A, B}, x \in PadTs}
           \* Module::sign_v2 and Module::write_with_signature
           \cup {[op |-> "object", c |-> c, d |-> c, pad |-> TRUE, ts |-> FALSE] : c \in {A, B, D}}
           \cup {[op |-> "both", c |-> Z, d |-> Z, pad |-> TRUE, ts |-> TRUE]}
AddOps == {[op |-> "add", c |-> c, d |-> c, pad |-> x[1], ts |-> x[2]] : c \in Cfgs, x \in {<<TRUE, TRUE>>, <<FALSE, FALSE>>}}
RawOps == {[op |-> "raw", front |-> f, pad |-> p] : f \in BOOLEAN, p \in BOOLEAN}
Others == {[op |-> "strip"], [op |-> "edit"], [op |-> "corrupt"], [op |-> "regrow"]}

Init == /\ form \in Forms /\ ver = 0 /\ blk = Nothing /\ st = "ok" /\ hist = <<>>
Made(o) ==
    CASE o.op \in {"v2", "object"} -> SignV2(o.c, ver, o.pad)
      [] o.op = "both" -> SignBoth(o.c, o.d, ver, o.pad, o.ts)
      [] o.op = "stamp" -> SignStamp(o.c, ver, o.pad, o.ts)
      [] o.op = "add" -> AddStamp(blk, o.c, ver, o.pad, o.ts)
      [] o.op = "raw" -> IF o.front THEN Block(<<Raw(81, 5)>> \o blk.subs, o.pad) ELSE Block(blk.subs \o <<Raw(82, 0)>>, o.pad)
Signed == blk # Nothing
Do(o) ==
    /\ hist' = Append(hist, o)
    /\ UNCHANGED form
    /\ IF st = "corrupt" THEN
          \* whatever is attempted on a corrupt block fails and changes nothing
          /\ o.op \in {"v2", "both", "stamp", "object", "strip"} /\ st' = "refused" /\ UNCHANGED <<ver, blk>>
       ELSE CASE o.op = "strip" -> Signed /\ blk' = Nothing /\ UNCHANGED <<ver, st>>
              [] o.op = "edit" -> ver' = ver + 1 /\ UNCHANGED <<blk, st>>
              [] o.op = "regrow" -> ver' = ver + 10 /\ UNCHANGED <<blk, st>>   \* the content changes its length
              [] o.op = "corrupt" -> Signed /\ st' = "corrupt" /\ UNCHANGED <<ver, blk>>
              [] o.op = "raw" -> Signed /\ blk' = Made(o) /\ UNCHANGED <<ver, st>>
              [] o.op = "add" -> Signed /\ blk' = Made(o) /\ UNCHANGED <<ver, st>>
              [] OTHER -> blk' = Made(o) /\ UNCHANGED <<ver, st>>
Few == {[op |-> "v2", c |-> A, d |-> A, pad |-> TRUE, ts |-> FALSE], [op |-> "both", c |-> C, d |-> B, pad |-> FALSE, ts |-> TRUE],
        [op |-> "object", c |-> B, d |-> B, pad |-> TRUE, ts |-> FALSE], [op |-> "add", c |-> A, d |-> A, pad |-> TRUE, ts |-> TRUE],
        [op |-> "add", c |-> D, d |-> D, pad |-> FALSE, ts |-> FALSE], [op |-> "raw", front |-> TRUE, pad |-> FALSE],
        [op |-> "raw", front |-> FALSE, pad |-> TRUE], [op |-> "strip"], [op |-> "regrow"], [op |-> "corrupt"]}
Ops == IF Narrow THEN Few ELSE SignOps \cup AddOps \cup RawOps \cup Others
Next == /\ Len(hist) < MaxDepth /\ st # "refused"
        /\ \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Count(P(_)) == Len(SelectSeq(blk.subs, P))
\* at most one stamp and one signature scheme sub-block, the stamp follows the signature
OneEach == Count(IsStamp) <= 1 /\ Count(LAMBDA b : b.t = "v2") <= 1
\* a signing step forgets everything before it
Last == hist[Len(hist)]
NoTrace == (hist # <<>> /\ st = "ok" /\ Last.op \in {"v2", "both", "stamp", "object"}) =>
    blk = CASE Last.op = "both" -> SignBoth(Last.c, Last.d, ver, Last.pad, Last.ts)
            [] Last.op = "stamp" -> SignStamp(Last.c, ver, Last.pad, Last.ts)
            [] OTHER -> SignV2(Last.c, ver, Last.pad)
\* fresh signatures under the trusted root verify; a stale or untrusted one does not
Fresh == (hist # <<>> /\ st = "ok" /\ Last.op \in {"v2", "stamp", "object"}) => (Valid(blk, ver, Leads) <=> Leads(blk.subs[1].certs))
Stale == (\E i \in 1..Len(Signers(blk)) : \A j \in 1..Len(Signers(blk)[i].digs) : Signers(blk)[i].digs[j].ver # ver) => ~Valid(blk, ver, Leads)
Out == [form |-> form, hist |-> hist, st |-> st, ver |-> ver, signed |-> Signed, subs |-> blk.subs, pad |-> blk.pad, valid |-> Valid(blk, ver, Leads)]
Emit == hist # <<>> => PrintT(ToJson(Out))
=============================================================================
