------------------------------ MODULE MCCliSim ------------------------------
(* Long random sequences of commands (simulation mode), replayed when they end. *)
EXTENDS MCCli
SCmds == { SignCmd(i, o, v, s, x) : i \in {"in", "out", "link"}, o \in Paths, v \in {G1, G2, P12("a256_chain", "right"), P12("a256", "wrong"), None}, s \in {None, S1, P12("b384", "right")}, x \in {<<>>, <<".data", ".text">>, <<".text">>, <<".missing">>} }
         \cup { DigestCmd(i, a, f, x, dd) : i \in {"in", "out", "link"}, a \in {"", "sha256", "sha512"}, f \in {"", "base64"}, x \in {<<>>, <<".data">>}, dd \in {"", "out"} }
SStarts == {[in |-> Plain(x), out |-> y] : x \in Zips \cup Elfs \cup {"corrupt", "text"}, y \in {Absent, Plain("zip3"), Plain("elfN"), Plain("old")}}
SInit == start \in SStarts /\ fs = start /\ hist = <<>>
\* one command of each step is drawn
SNext == /\ Len(hist) < MaxDepth
         /\ \E c \in {RandomElement(LET S == {x \in SCmds : fs[Target(x.in)].form # "dump"}
                                        G == {x \in S : Ok(fs, x)}
                                    IN IF G = {} \/ RandomElement(1..5) = 1 THEN S ELSE G)} : hist' = Append(hist, [c |-> c, ok |-> Ok(fs, c), prints |-> Prints(fs, c)]) /\ fs' = After(fs, c)
         /\ UNCHANGED start
SSpec == SInit /\ [][SNext]_vars
EmitEach == hist # <<>> => PrintT(ToJson([start |-> start, hist |-> hist, fs |-> fs, elf |-> [p \in {"in", "out"} |-> IF start[p].form \in Elfs THEN ElfOf(start[p].form) ELSE [class |-> 0]]]))
=============================================================================
