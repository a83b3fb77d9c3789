------------------------------ MODULE MCBuild ------------------------------
(* Blocks as the constructors build them: every combination of digest,        *)
(* certificate, attribute and signature lists for a V2 signer and a source    *)
(* stamp, V2 blocks of several signers, ELF information, and every sequence   *)
(* of up to MaxPairs sub-blocks of a small catalogue.                         *)
EXTENDS KsuBlock, TLC, Json
CONSTANTS MaxPairs
VARIABLES ps, st
vars == <<ps, st>>

A1 == <<1, 2, 0, 0>>
A2 == <<2, 2, 0, 0>>
AU == <<255, 254, 253, 252>>
Run(a, n) == [i \in 1..n |-> (a + i) % 256]
EntryLists == << <<>>, <<MkEntry(A1, <<>>)>>, <<MkEntry(A2, Run(9, 3))>>, <<MkEntry(AU, <<1>>), MkEntry(A1, Run(4, 32))>>,
                <<MkEntry(A1, Run(1, 5)), MkEntry(A2, Run(2, 64)), MkEntry(A1, <<>>)>> >>
SigLists == { <<>>, <<MkEntry(A1, Run(77, 71))>>, <<MkEntry(A2, <<>>), MkEntry(AU, <<7>>)>> }
CertLists == { <<>>, <<MkCert(<<>>)>>, <<MkCert(Run(5, 300))>>, <<MkCert(<<9>>), MkCert(Run(3, 256)), MkCert(<<9>>)>> }
AttrLists == { <<>>, <<MkAttr(<<0, 0, 0, 0>>, <<>>)>>, <<MkAttr(<<70, 89, 60, 228>>, Run(0, 8))>>,
               <<MkAttr(<<1, 0, 0, 0>>, <<5>>), MkAttr(<<255, 255, 255, 255>>, Run(8, 2))>> }
Keys == { <<>>, <<1, 2, 3>>, Run(50, 91) }

Signer(d, c, a, g, k, extra) == MkSigner(MkSD(MkList(d), MkList(c), MkList(a), extra), MkList(g), MkKey(k))
S1 == Signer(<<MkEntry(A1, Run(1, 4))>>, <<MkCert(<<1, 2>>)>>, <<>>, <<MkEntry(A1, <<3, 4>>)>>, <<5>>, 4)
S2 == Signer(<<>>, <<>>, <<MkAttr(<<9, 0, 0, 0>>, <<1>>)>>, <<>>, <<>>, 4)
S3 == Signer(<<MkEntry(A2, <<1>>), MkEntry(A1, <<2>>)>>, <<MkCert(<<>>), MkCert(<<4>>)>>, <<>>, <<MkEntry(AU, <<>>)>>, <<6, 6>>, 4)
Off(n) == ToLE(n, 8)
Ascii(n) == [i \in 1..n |-> 97 + (i % 26)]
Names == { <<>>, <<46, 116, 101, 120, 116>>, <<195, 169, 226, 130, 172>>, Run(64, 40), Ascii(255), Ascii(256), Ascii(300) }
ElfEntriesSet == { <<>> } \cup { <<MkElfEntry(n, Off(o), Off(l))>> : n \in Names, o \in {0, 64, 70000}, l \in {0, 1, -1} }
                 \cup { <<MkElfEntry(n, Off(1), Off(2)), MkElfEntry(m, Off(-1), Off(256))>> : n \in Names, m \in Names }

ByOne(d) ==
    { MkV2(<<Signer(d, c, a, g, k, 4)>>) : c \in CertLists, a \in AttrLists, g \in SigLists, k \in Keys }
    \cup { MkStamp(Signer(d, c, a, g, k, 0)) : c \in CertLists, a \in AttrLists, g \in SigLists, k \in Keys }
Others == { MkV2(<<>>), MkV2(<<S1, S2>>), MkV2(<<S2, S1>>), MkV2(<<S3, S2, S1>>), MkV2(<<S1, S1>>) }
    \cup { MkElf(e) : e \in ElfEntriesSet }
    \cup { MkRaw(i, d) : i \in { <<0, 0, 0, 0>>, <<255, 255, 255, 255>>, PADID, <<26, 135, 9, 112>>, <<75, 83, 85, 32>> },
                         d \in { <<>>, <<1>>, Run(3, 255), Run(3, 256), MAGIC, Zeros(300) } }
Single(n) == ByOne(EntryLists[n]) \cup (IF n = 1 THEN Others ELSE {})
\* many of everything, and large elements
Rep(x, n) == [i \in 1..n |-> x]
Tiny == Signer(<<>>, <<>>, <<>>, <<>>, <<>>, 4)
Many(n) ==
    { MkV2(<<Signer(Rep(MkEntry(A2, Run(n, 3)), n), <<>>, <<>>, <<>>, <<>>, 4)>>), MkV2(<<Signer(<<>>, Rep(MkCert(<<7>>), n), <<>>, <<>>, <<>>, 4)>>),
      MkStamp(Signer(<<>>, <<>>, Rep(MkAttr(<<1, 2, 3, 4>>, <<n % 256>>), n), <<>>, <<>>, 0)),
      MkStamp(Signer(<<>>, <<>>, <<>>, Rep(MkEntry(AU, <<n % 256>>), n), <<9>>, 0)), MkElf(Rep(MkElfEntry(<<46, 97>>, Off(n), Off(1)), n)), MkV2(Rep(Tiny, n)) }
Large(n) ==
    { MkV2(<<Signer(<<>>, <<MkCert(Run(1, n))>>, <<>>, <<>>, <<>>, 4)>>),
      MkStamp(Signer(<<MkEntry(A1, Run(2, n))>>, <<>>, <<>>, <<MkEntry(A2, Run(5, 100))>>, Run(3, 90), 0)),
      MkRaw(<<5, 6, 7, 8>>, Run(4, n)), MkElf(<<MkElfEntry(Ascii(n), Off(1), Off(2))>>) }
Catalogue == { MkRaw(<<1, 1, 1, 1>>, <<>>), MkRaw(<<1, 1, 1, 1>>, <<7, 8>>), MkRaw(<<2, 0, 0, 128>>, MAGIC \o MAGIC), MkRaw(PADID, Zeros(20)),
               MkV2(<<S1>>), MkV2(<<S3, S2>>),
               MkStamp(Signer(<<MkEntry(A1, <<8>>)>>, <<MkCert(<<2>>)>>, <<MkAttr(<<70, 89, 60, 228>>, Run(0, 8))>>, <<MkEntry(A1, <<3>>)>>, <<4>>, 0)),
               MkElf(<<MkElfEntry(<<46, 116>>, Off(3), Off(4))>>) }

\* the shapes are expanded in a step of their own, so that the workers share them
Groups == { <<"many", n>> : n \in {17, 127, 128, 255, 256, 257, 300} } \cup { <<"large", n>> : n \in {4095, 4096, 8191, 8192, 16000} } \cup { <<"raw", n>> : n \in {16347, 16348} }
          \cup { <<"pairs", n>> : n \in 1..4 } \cup { <<"single", n>> : n \in 1..5 }
PairsOf(n) == CASE n = 1 -> Rep(MkRaw(<<3, 3, 3, 3>>, <<>>), 300) [] n = 2 -> [i \in 1..257 |-> MkRaw(<<i % 256, 1, 1, 1>>, <<i % 256>>)]
                [] n = 3 -> Rep(MkV2(<<S1>>), 100) [] n = 4 -> Rep(MkElf(<<>>), 256)
Shapes(g) == CASE g[1] = "many" -> { <<p>> : p \in Many(g[2]) }
               [] g[1] = "large" -> { <<p>> : p \in Large(g[2]) }
               [] g[1] = "raw" -> { <<MkRaw(<<5, 6, 7, 8>>, Run(4, g[2]))>> }
               [] g[1] = "pairs" -> { PairsOf(g[2]) }
               [] g[1] = "single" -> { <<p>> : p \in Single(g[2]) }
Init == \/ ps = <<>> /\ st = <<"list", 0>>
        \/ ps = <<>> /\ st \in Groups
Expand == /\ st \in Groups /\ ps = <<>>
          /\ ps' \in Shapes(st)
          /\ st' = <<"done", 0>>
Append1 == /\ st = <<"list", 0>>
           /\ Len(ps) < MaxPairs
           /\ \E p \in Catalogue : ps' = Append(ps, p)
           /\ UNCHANGED st
Next == Append1 \/ Expand
Spec == Init /\ [][Next]_vars

\* parsing is the inverse of serialising, on every constructed block
Inverse == ParseFull(SerBlock(ps)) = [ok |-> TRUE, v |-> MkBlock(ps)]
\* the size the constructors compute is the serialised size
SizeRight == Len(SerBlock(ps)) = MkBlock(ps).size1 + 8
Emit == (ps # <<>> \/ st[1] = "list") => PrintT(ToJson([v |-> MkBlock(ps), b |-> SerBlock(ps)]))
=============================================================================
