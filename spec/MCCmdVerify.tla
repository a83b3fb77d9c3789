------------------------------ MODULE MCCmdVerify ------------------------------
(* The verify command on module files holding any of the blocks of MCVerdict,   *)
(* under every choice of --root, and on files it cannot read.                   *)
EXTENDS MCVerdict
VARIABLES file       \* "module": content with the block; otherwise a file of that kind
cvars == <<b, d, file>>
Odd == {"unsigned", "corrupt", "badcd", "text", "short", "empty", "pkonly", "elfcut", "absent", "dir", "elf", "official"}
CInit == VInit /\ file \in {"module"} \cup Odd
CNext == file = "module" /\ VNext /\ UNCHANGED file
CSpec == CInit /\ [][CNext]_cvars
RootOf(r) == IF r \in {"rootA", "rootB", "rootX"} THEN {r} ELSE {}    \* nothing in the catalogue leads to the built-in root
\* a root that cannot be read is an error, the built-in one is taken only if none is named
\* "official": a module signed under the built-in root, while its certificate is valid
Succeeds(r, ver) == (file = "official" /\ r = "builtin") \/ (file = "module" /\ RootOf(r) # {}
    /\ Passes("v2", b, [ver |-> ver, algs |-> Known], RootOf(r))
    /\ (Missing("stamp", b) \/ Passes("stamp", b, [ver |-> ver, algs |-> Known], RootOf(r))))
Choices == {<<"rootA", 0>>, <<"rootA", 1>>} \cup
           (IF Len(b) < 2 \/ (\E i \in 1..2 : b[i].t = "raw") THEN {<<"rootB", 0>>, <<"rootX", 0>>, <<"builtin", 0>>, <<"nofile", 0>>, <<"garbage", 0>>, <<"key", 0>>, <<"emptyfile", 0>>} ELSE {})
\* success implies the verdict on the whole block, and a V2 signature
Sound == file = "module" => \A c \in Choices : Succeeds(c[1], c[2]) => (Valid(b, [ver |-> c[2], algs |-> Known], RootOf(c[1])) /\ ~Missing("v2", b))
CEmit == PrintT(ToJson([b |-> b, file |-> file, runs |-> {[root |-> c[1], ver |-> c[2], ok |-> Succeeds(c[1], c[2])] : c \in Choices}]))
=============================================================================
