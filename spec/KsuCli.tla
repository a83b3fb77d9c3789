------------------------------ MODULE KsuCli ------------------------------
(* The command line tool as a state machine over a directory: what each        *)
(* command reports and what it does to the files.  A file is                    *)
(*    [form, blk]   form: which content (a module, an ELF, something else),     *)
(*                  blk: the signing block as KsuSign describes it, or NoBlk    *)
(*    "absent", "dir"                                                           *)
EXTENDS KsuSign, KsuKeystore, ElfForms, TLC
NoBlk == Block(<<>>, FALSE)
Plain(form) == [form |-> form, blk |-> NoBlk]
Absent == Plain("absent")
Dir == Plain("dir")

Zips == {"zip1", "zip3", "zip5"}
ElfOf(form) == CASE form = "elfP" -> File(<<"text", "rodata", "data">>, 64, TRUE, "plain")
                 [] form = "elfM" -> File(<<"data", "rodata", "bss", "text">>, 32, FALSE, "mixed")
                 [] form = "elfN" -> File(<<"text", "data">>, 64, TRUE, "nonul")
Elfs == {"elfP", "elfM", "elfN"}
Default == <<".text", ".rodata">>
\* files no command can use: a corrupt block, a central directory behind its end, no end record at all, ...
Bad == {"corrupt", "badcd", "text", "short", "empty", "pkonly", "elfcut"}

(* credentials as given on the command line                                     *)
(*   p12: "" or a container;  key: "" or a key in some form;  certs: <<"-">> if *)
(*   no certificate file is named                                               *)
NotGiven == <<"-">>
Given(a) == a.p12 # "" \/ a.key # ""
Container(n) == CHOOSE c \in P12s : c.file = n
Loads(a) ==
    IF a.p12 # "" THEN a.pw # "none" /\ a.p12 \in {c.file : c \in P12s} /\ P12Loads(Container(a.p12), a.pw)
    ELSE a.key # "" /\ a.certs # NotGiven /\ a.form # "nofile" /\ a.certs # <<"nofile">> /\ a.certs # <<"garbage">> /\ PemLoads(a.form, a.key, a.pw, a.certs)
CredOf(a) == LET l == IF a.p12 # "" THEN Loaded(Container(a.p12).keys[1], Container(a.p12).certs) ELSE Loaded(a.key, Certs(a.certs))
             IN Cfg(l.key, l.cert, l.chain)
\* a block holds at most 16 KiB; the catalogue has chains far below and far above
FitsIn(a) == Len(CredOf(a).chain) < 20

Req(c) == IF c.secs = <<>> THEN Default ELSE c.secs
\* can a digest be taken of this file with these sections
Digestable(file, c) ==
    \/ file.form \in Zips /\ c.secs = <<>>
    \/ file.form \in Elfs /\ Accepted(ElfOf(file.form), Req(c))

(* the block `sign` makes; the content is version 0 of the form                 *)
BlockOf(file, c) ==
    LET b == IF Given(c.stamp) THEN SignBoth(CredOf(c.v2), CredOf(c.stamp), 0, TRUE, TRUE) ELSE SignV2(CredOf(c.v2), 0, TRUE)
    IN IF file.form \in Elfs
       THEN [b EXCEPT !.subs = Append(@, [t |-> "elf", regs |-> Regions(ElfOf(file.form), Req(c))])]
       ELSE b
\* where a path leads: "link" is a symbolic link to "in"
Target(p) == IF p = "link" THEN "in" ELSE p
Writable(fs, p) == p # "nodir" /\ fs[Target(p)] # Dir
\* c.full: the output cannot be written completely (no room left, a size limit)

SignOk(fs, c) ==
    /\ Loads(c.v2) /\ FitsIn(c.v2)
    /\ Given(c.stamp) => Loads(c.stamp)
    /\ c.in # "nodir" /\ Digestable(fs[Target(c.in)], c)
    /\ Writable(fs, c.out) /\ ~c.full
AfterSign(fs, c) == IF SignOk(fs, c) THEN [fs EXCEPT ![Target(c.out)] = [form |-> fs[Target(c.in)].form, blk |-> BlockOf(fs[Target(c.in)], c)]] ELSE fs

(* digest: flags for the algorithm ("both" is refused), format, dump            *)
DigestAlg(c) == IF c.alg = "sha512" THEN 514 ELSE 513
DigestOk(fs, c) ==
    /\ c.alg # "both" /\ c.fmt # "bogus"
    /\ c.in # "nodir" /\ Digestable(fs[Target(c.in)], c)
    /\ c.dump # "" => (Writable(fs, c.dump) /\ Target(c.dump) # Target(c.in))
DigestRegs(fs, c) == IF fs[Target(c.in)].form \in Elfs THEN Regions(ElfOf(fs[Target(c.in)].form), Req(c)) ELSE <<>>
Dumped(fs, c) == [form |-> "dump", blk |-> fs[Target(c.in)], regs |-> DigestRegs(fs, c)]
AfterDigest(fs, c) == IF DigestOk(fs, c) /\ c.dump # "" THEN [fs EXCEPT ![Target(c.dump)] = Dumped(fs, c)] ELSE fs

Ok(fs, c) == IF c.cmd = "sign" THEN SignOk(fs, c) ELSE DigestOk(fs, c)
After(fs, c) == IF c.cmd = "sign" THEN AfterSign(fs, c) ELSE AfterDigest(fs, c)
\* what is printed: nothing unless a digest was asked for and could be taken
Prints(fs, c) == IF c.cmd = "digest" /\ DigestOk(fs, c) /\ c.dump = ""
                 THEN [form |-> fs[Target(c.in)].form, alg |-> DigestAlg(c), fmt |-> c.fmt,
                       chunks |-> IF fs[Target(c.in)].form \in Elfs THEN Chunks(DigestRegs(fs, c)) ELSE <<>>]
                 ELSE [form |-> ""]
=============================================================================
