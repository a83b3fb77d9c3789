------------------------------ MODULE ElfForms ------------------------------
(* ELF files of every class and byte order over a catalogue of sections.        *)
EXTENDS KsuElf
CONSTANTS Big                     \* lengths around the chunk size
K(nm, t, fl, sz) == [name |-> nm, type |-> t, flags |-> fl, size |-> sz]
Kinds == IF Big THEN
  [ text   |-> K(".text", 1, 6, CHUNK + 1), rodata |-> K(".rodata", 1, 2, CHUNK), data |-> K(".data", 1, 3, 2 * CHUNK + 7), note |-> K(".note", 7, 2, CHUNK - 1) ]
 ELSE
  [ text   |-> K(".text", 1, 6, 20),
    rodata |-> K(".rodata", 1, 2, 13),
    data   |-> K(".data", 1, 3, 8),
    bss    |-> K(".bss", NOBITS, 3, 32),
    empty  |-> K(".empty", 1, 2, 0),
    out    |-> K(".out", 1, 2, 10),         \* begins beyond the file
    long   |-> K(".long", 1, 2, 100000),    \* begins in the file, ends beyond
    text2  |-> K(".text", 1, 6, 9),         \* a second section of that name
    suffix |-> K("text", 1, 2, 5),          \* its name is the end of another one
    like   |-> K(".ksu_sign2", 1, 0, 6),
    over   |-> K(".over", 1, 2, 30),        \* begins where the section before it begins
    note   |-> K(".note.x", 7, 2, 16),
    init   |-> K(".init_array", 14, 3, 24),
    sige   |-> K(SIG, 1, 0, 0),             \* an empty signature section
    sigg   |-> K(SIG, 1, 0, 40) ]           \* one holding garbage
Layouts == {"plain", "mixed", "nonul"}
\* plain: name table last, header table at the end, offsets in section order
\* mixed: name table first, header table in front, a program header, offsets in reverse order
\* nonul: like plain, the name table lacks its final zero byte, odd file length
Head0(c, lay) == (IF c = 32 THEN 52 ELSE 64) + (IF lay = "mixed" THEN (IF c = 32 THEN 32 ELSE 56) ELSE 0)
ShSize(c) == IF c = 32 THEN 40 ELSE 64
HasBytes(k) == Kinds[k].type # NOBITS /\ k \notin {"out", "long"}
Align(x) == ((x + 15) \div 16) * 16
RECURSIVE Place(_, _, _)
\* offsets of the sections of list l (in file order), from position p; last: where the previous one began
Place(l, p, last) ==
    IF l = <<>> THEN <<>>
    ELSE LET k == Head(l)
             o == IF k = "out" THEN 1000000000 ELSE IF k = "over" THEN last ELSE Align(p) + (IF k = "rodata" THEN 3 ELSE 0)
         IN <<o>> \o Place(Tail(l), IF k = "out" THEN p ELSE IF HasBytes(k) THEN (IF o + Kinds[k].size > p THEN o + Kinds[k].size ELSE p) ELSE p, IF k = "out" THEN last ELSE o)
Rev(l) == [i \in 1..Len(l) |-> l[Len(l) + 1 - i]]
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
File(l, c, en, lay) ==
    LET nsec == Len(l) + 2
        tab == IF lay = "mixed" THEN Head0(c, lay) ELSE 0
        base == Head0(c, lay) + (IF lay = "mixed" THEN nsec * ShSize(c) ELSE 0)
        offs == IF lay = "mixed" THEN Rev(Place(Rev(l), base, base)) ELSE Place(l, base, base)
        us == [i \in 1..Len(l) |-> [name |-> Kinds[l[i]].name, type |-> Kinds[l[i]].type, flags |-> Kinds[l[i]].flags, off |-> offs[i], size |-> Kinds[l[i]].size, str |-> FALSE]]
        ends == {base} \cup {us[i].off + (IF HasBytes(l[i]) THEN us[i].size ELSE 0) : i \in {j \in 1..Len(l) : l[j] # "out"}}
        stroff == MaxOf(ends) + (IF lay = "nonul" THEN 1 ELSE 0)
        \* size of the table: the driver builds it, -1 stands for whatever it is
        str == [name |-> ".shstrtab", type |-> 3, flags |-> 0, off |-> stroff, size |-> 200, str |-> TRUE]
        null == [name |-> "", type |-> 0, flags |-> 0, off |-> 0, size |-> 0, str |-> FALSE]
        end == stroff + 200
        sh == IF lay = "mixed" THEN tab ELSE Align(end)
        len == IF lay = "mixed" THEN end ELSE sh + nsec * ShSize(c) + (IF lay = "nonul" THEN 3 ELSE 0)
    IN [class |-> c, le |-> en, layout |-> lay, kinds |-> l, shoff |-> sh, len |-> len,
        secs |-> <<null>> \o (IF lay = "mixed" THEN <<str>> \o us ELSE us \o <<str>>)]
=============================================================================
