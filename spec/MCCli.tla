------------------------------ MODULE MCCli ------------------------------
(* Sequences of commands in a directory with an input, perhaps an output, and a *)
(* symbolic link to the input.                                                  *)
EXTENDS KsuCli, Json
CONSTANTS MaxDepth, Which      \* Which: sign, creds, digest, history
VARIABLES start, fs, hist
vars == <<start, fs, hist>>
None == [p12 |-> "", key |-> "", form |-> "pk8", certs |-> NotGiven, pw |-> "none"]
Pem(k, f, cs, p) == [None EXCEPT !.key = k, !.form = f, !.certs = cs, !.pw = p]
P12(n, p) == [None EXCEPT !.p12 = n, !.pw = p]
Many == [i \in 1..45 |-> IF i = 1 THEN "a256_rootA" ELSE "interA2"]
GoodCreds == { Pem("a256", "pk8", <<"a256_rootA">>, "none"), Pem("b384", "sec1", <<"b384_interA2", "interA2", "interA">>, "none"),
               Pem("a384", "enc", <<"a384_rootA", "rootA">>, "right"), P12("a256_chain", "right"), P12("b384", "right"),
               \* the container wins over the key file
               [Pem("a256", "pk8", <<"a256_rootA">>, "right") EXCEPT !.p12 = "b384"],
               Pem("b256", "pk8", <<"key", "b256_rootA", "text">>, "wrong") }
BadCreds == { Pem("a256", "pk8", NotGiven, "none"), Pem("a256", "nofile", <<"a256_rootA">>, "none"),
              Pem("a256", "pk8", <<"nofile">>, "none"), Pem("a256", "pk8", <<"garbage">>, "none"), Pem("a256", "pk8", <<>>, "none"), Pem("a256", "pk8", <<"key">>, "none"),
              Pem("a256", "pk8", <<"a256_rootA", "broken">>, "none"),
              Pem("a256", "enc", <<"a256_rootA">>, "wrong"), Pem("a256", "enc", <<"a256_rootA">>, "none"), Pem("rsa", "pk8", <<"rsa_self">>, "none"),
              Pem("a256", "garbage", <<"a256_rootA">>, "none"),
              P12("a256", "wrong"), P12("a256", "none"), P12("missing", "right"), P12("nokey", "right"), P12("nocert", "right"), P12("k521", "right"),
              [Pem("a256", "pk8", <<"a256_rootA">>, "wrong") EXCEPT !.p12 = "b384"] }
TooLong == Pem("a256", "pk8", Many, "none")
OnlyCert == [None EXCEPT !.certs = <<"a256_rootA">>]
G1 == Pem("a256", "pk8", <<"a256_rootA">>, "none")
G2 == Pem("b384", "sec1", <<"b384_interA2", "interA2", "interA">>, "none")
S1 == Pem("b256", "pk8", <<"b256_rootA">>, "none")
SignCmd(i, o, v, s, x) == [cmd |-> "sign", in |-> i, out |-> o, v2 |-> v, stamp |-> s, secs |-> x, full |-> FALSE]
DigestCmd(i, a, f, x, d) == [cmd |-> "digest", in |-> i, alg |-> a, fmt |-> f, secs |-> x, dump |-> d]
SecLists == { <<>>, <<".data">>, <<".rodata", ".text">>, <<".text", ".missing">>, <<".bss">>, <<".ksu_sign">> }
Paths == {"in", "out", "link", "nodir"}
Cmds == CASE Which = "sign" -> { SignCmd(i, o, v, s, x) : i \in {"in", "link", "nodir"}, o \in Paths, v \in {G1, G2}, s \in {None, S1}, x \in SecLists }
                           \cup { SignCmd("out", o, G1, None, <<>>) : o \in Paths }
          [] Which = "creds" -> { SignCmd("in", o, v, s, <<>>) : o \in {"in", "out"}, v \in GoodCreds \cup BadCreds \cup {None, TooLong, OnlyCert}, s \in {None, S1} }
                           \cup { SignCmd("in", o, v, s, <<>>) : o \in {"in", "out"}, v \in {G1, G2, P12("a256", "wrong")}, s \in GoodCreds \cup BadCreds \cup {P12("b384_chain", "right")} }
          [] Which = "digest" -> { DigestCmd(i, a, f, x, d) : i \in {"in", "link"}, a \in {"", "sha256", "sha512", "both"}, f \in {"", "hex", "base64", "bogus"}, x \in SecLists, d \in {"", "out"} }
                           \cup { DigestCmd(i, "", "", x, d) : i \in {"in", "link", "nodir"}, x \in SecLists, d \in Paths }
          [] Which = "full" -> { [SignCmd("in", o, v, s, <<>>) EXCEPT !.full = TRUE] : o \in {"in", "out", "link"}, v \in {G1, G2}, s \in {None, S1} }
          [] Which = "long" -> { SignCmd(i, o, v, s, <<>>) : i \in {"in", "out"}, o \in {"in", "out"}, v \in {G1, P12("b384", "right")}, s \in {None, S1} } \cup { DigestCmd("in", "", "", <<>>, "out") }
          [] OTHER -> { SignCmd(i, o, v, s, x) : i \in {"in", "out"}, o \in {"in", "out", "link"}, v \in {G1, G2, P12("a256", "wrong")}, s \in {None, S1}, x \in {<<>>, <<".data", ".text">>} }
                           \cup { DigestCmd(i, a, "", <<>>, d) : i \in {"in", "out"}, a \in {"sha256", "sha512"}, d \in {"", "in", "out"} }
Starts == CASE Which = "sign" -> {[in |-> Plain(x), out |-> y] : x \in Zips \cup Elfs \cup Bad \cup {"absent", "dir"}, y \in {Absent, Plain("old"), Dir}}
            [] Which = "full" -> {[in |-> Plain(x), out |-> Plain("old")] : x \in {"zip3", "zip1", "elfP"}}
            [] Which = "long" -> {[in |-> Plain(x), out |-> Absent] : x \in {"zip3", "elfP"}}
            [] Which = "creds" -> {[in |-> Plain(x), out |-> y] : x \in {"zip3", "elfP"}, y \in {Plain("old")}}
            [] Which = "digest" -> {[in |-> Plain(x), out |-> y] : x \in Zips \cup Elfs \cup Bad \cup {"absent", "dir"}, y \in {Absent, Plain("old")}}
            [] OTHER -> {[in |-> Plain(x), out |-> y] : x \in {"zip1", "zip5", "elfM"}, y \in {Absent, Plain("zip3")}}
Init == start \in Starts /\ fs = start /\ hist = <<>>
Next == /\ Len(hist) < MaxDepth
        \* what a command makes of a dumped file is not considered
        /\ \E c \in {x \in Cmds : x.in = "nodir" \/ fs[Target(x.in)].form # "dump"} : hist' = Append(hist, [c |-> c, ok |-> Ok(fs, c), prints |-> Prints(fs, c)]) /\ fs' = After(fs, c)
        /\ UNCHANGED start
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Steps == Len(hist) > 0
Last == hist[Len(hist)]
\* a refused command changes nothing, and no command touches a file that is not its output
Harmless == [][ (~hist'[Len(hist')].ok => fs' = fs)
              /\ \A p \in {"in", "out"} : fs'[p] # fs[p] => (hist'[Len(hist')].c.cmd = "sign" /\ Target(hist'[Len(hist')].c.out) = p)
                                                          \/ (hist'[Len(hist')].c.cmd = "digest" /\ Target(hist'[Len(hist')].c.dump) = p) ]_vars
\* what comes out of signing has one block, whatever was there before
OneBlock == \A p \in {"in", "out"} : (fs[p].form \in Zips \cup Elfs /\ fs[p].blk # NoBlk) =>
    (fs[p].blk.subs[1].t = "v2" /\ Len(fs[p].blk.subs) <= 3)
\* in place or not, the result is the same
InPlaceSame == [][ \A c \in {hist'[Len(hist')].c} : (c.cmd = "sign" /\ SignOk(fs, c)) =>
                    AfterSign(fs, c)[Target(c.out)] = AfterSign(fs, [c EXCEPT !.out = c.in])[Target(c.in)] ]_vars
Emit == Steps => PrintT(ToJson([start |-> start, hist |-> hist, fs |-> fs, elf |-> [p \in {"in", "out"} |-> IF start[p].form \in Elfs THEN ElfOf(start[p].form) ELSE [class |-> 0]]]))
=============================================================================
