------------------------------ MODULE KsuBlock ------------------------------
\* The KSU signing block: its abstract structure, its serialisation and the
\* exact language of byte strings that parsing accepts.
\* 
\* block  ::= u64 size, pair*, u64 size, magic        (size = everything
\* after the first field)
\* pair   ::= u64 size, u32 id, value                  size <= 16384
\* id V2    : field(signer*) zeros
\* signer ::= field( field(signed data) field(sig*) field(key) zeros )
\* signed data ::= field(digest*) field(cert*) field(attr*) zeros
\* id STAMP : field( field(digest* cert* attr* fields) field(sig*) field(key))
\* id ELF   : u32 n, n * (u16 len, utf8 name, u64, u64)
EXTENDS KsuBytes

MAGIC == <<75, 83, 85, 32, 83, 105, 103, 32, 66, 108, 111, 99, 107, 32, 52, 50>>
MAXSIZE == 16384
V2ID    == <<26, 135, 9, 113>>
STAMPID == <<13, 128, 255, 109>>
ELFID   == <<75, 83, 69, 76>>
PADID   == <<119, 101, 114, 66>>

-----------------------------------------------------------------------------
(* Parsing. Every result is FAIL or [ok |-> TRUE, v |-> structure].           *)
OkV(x) == [ok |-> TRUE, v |-> x]

\* digests and signatures: u32 algorithm, field
Entry(c) ==
    IF Len(c) < 8 THEN FAIL
    ELSE LET f == Take(Drop(c, 4))
         IN IF ~f.ok \/ f.rest # <<>> THEN FAIL
            ELSE OkV([size |-> Len(c), alg |-> First(c, 4), data |-> f.v])
Attr(c) == IF Len(c) < 4 THEN FAIL
           ELSE OkV([size |-> Len(c), id |-> First(c, 4), data |-> Drop(c, 4)])
Cert(c) == OkV([size |-> Len(c), data |-> c])

MapAll(cs, kind) ==
    LET P(c) == CASE kind = "entry" -> Entry(c)
                  [] kind = "attr"  -> Attr(c)
                  [] kind = "cert"  -> Cert(c)
        r == [i \in 1..Len(cs) |-> P(cs[i])]
    IN IF \E i \in 1..Len(cs) : ~r[i].ok THEN FAIL
       ELSE OkV([i \in 1..Len(cs) |-> r[i].v])

\* a field holding a list
ListField(b, kind) ==
    LET f == Take(b) IN
    IF ~f.ok THEN FAIL
    ELSE LET s == Split(f.v) IN
         IF ~s.ok THEN FAIL
         ELSE LET m == MapAll(s.v, kind) IN
              IF ~m.ok THEN FAIL
              ELSE [ok |-> TRUE, v |-> [size |-> Len(f.v), items |-> m.v], rest |-> f.rest]

\* tail: what may follow the last element ("zeros" or "none")
TailOk(rest, tail) == IF tail = "zeros" THEN AllZero(rest) ELSE rest = <<>>

SignedData(b, tail) ==
    LET d == ListField(b, "entry") IN
    IF ~d.ok THEN FAIL
    ELSE LET c == ListField(d.rest, "cert") IN
    IF ~c.ok THEN FAIL
    ELSE LET a == ListField(c.rest, "attr") IN
    IF ~a.ok \/ ~TailOk(a.rest, tail) THEN FAIL
    ELSE OkV([size |-> Len(b), digests |-> d.v, certs |-> c.v, attrs |-> a.v])

SignerBody(b, tail) ==
    LET s == Take(b) IN
    IF ~s.ok THEN FAIL
    ELSE LET sd == SignedData(s.v, tail) IN
    IF ~sd.ok THEN FAIL
    ELSE LET g == ListField(s.rest, "entry") IN
    IF ~g.ok THEN FAIL
    ELSE LET k == Take(g.rest) IN
    IF ~k.ok \/ ~TailOk(k.rest, tail) THEN FAIL
    ELSE OkV([size |-> Len(b), sd |-> sd.v, sigs |-> g.v, key |-> [size |-> Len(k.v), data |-> k.v]])

V2Value(b, psize) ==
    LET f == Take(b) IN
    IF ~f.ok \/ ~AllZero(f.rest) THEN FAIL
    ELSE LET s == Split(f.v) IN
    IF ~s.ok THEN FAIL
    ELSE LET r == [i \in 1..Len(s.v) |-> SignerBody(s.v[i], "zeros")] IN
    IF \E i \in 1..Len(r) : ~r[i].ok THEN FAIL
    ELSE OkV([t |-> "v2", size |-> psize, id |-> V2ID, ssize |-> Len(f.v),
              signers |-> [i \in 1..Len(r) |-> r[i].v]])

StampValue(b, psize) ==
    LET f == Take(b) IN
    IF ~f.ok \/ f.rest # <<>> THEN FAIL
    ELSE LET s == SignerBody(f.v, "none") IN
    IF ~s.ok THEN FAIL ELSE OkV([t |-> "stamp", size |-> psize, id |-> STAMPID, signer |-> s.v])

RECURSIVE ElfEntries(_, _)
ElfEntries(b, n) ==
    IF n = 0 THEN (IF b = <<>> THEN OkV(<<>>) ELSE FAIL)
    ELSE IF Len(b) < 2 THEN FAIL
    ELSE LET m == LE(b, 2) IN
         IF m + 18 > Len(b) THEN FAIL
         ELSE LET name == SubSeq(b, 3, 2 + m)
                  t == IF Utf8(name) THEN ElfEntries(Drop(b, m + 18), n - 1) ELSE FAIL
              IN IF ~t.ok THEN FAIL
                 ELSE OkV(<<[nlen |-> m, name |-> name, off |-> SubSeq(b, m + 3, m + 10),
                             len |-> SubSeq(b, m + 11, m + 18)]>> \o t.v)
ElfValue(b, psize) ==
    IF Len(b) < 4 THEN FAIL
    ELSE LET n == LE(b, 4)
             e == IF n > Len(b) THEN FAIL ELSE ElfEntries(Drop(b, 4), n)
         IN IF ~e.ok THEN FAIL
            ELSE OkV([t |-> "elf", size |-> psize, id |-> ELFID, count |-> n, entries |-> e.v])

PairValue(id, b, psize) ==
    IF id = V2ID THEN V2Value(b, psize)
    ELSE IF id = STAMPID THEN StampValue(b, psize)
    ELSE IF id = ELFID THEN ElfValue(b, psize)
    ELSE OkV([t |-> "raw", size |-> psize, id |-> id, data |-> b])

RECURSIVE Pairs(_)
Pairs(b) ==
    IF b = <<>> THEN OkV(<<>>)
    ELSE IF Len(b) < 12 THEN FAIL
    ELSE LET n == LE(b, 8) IN
         IF n > MAXSIZE \/ n < 4 \/ n > Len(b) - 8 THEN FAIL
         ELSE LET v == PairValue(SubSeq(b, 9, 12), SubSeq(b, 13, 8 + n), n) IN
              IF ~v.ok THEN FAIL
              ELSE LET t == Pairs(Drop(b, 8 + n))
                   IN IF ~t.ok THEN FAIL ELSE OkV(<<v.v>> \o t.v)

\* exactly one block, nothing around it
ParseFull(b) ==
    IF Len(b) < 32 THEN FAIL
    ELSE LET s1 == LE(b, 8)
             s2 == LEfrom(b, Len(b) - 23, 8)
         IN IF Last(b, 16) # MAGIC \/ s1 # s2 \/ s1 # Len(b) - 8 THEN FAIL
            ELSE LET p == Pairs(SubSeq(b, 9, Len(b) - 24)) IN
                 IF ~p.ok THEN FAIL
                 ELSE OkV([size1 |-> s1, size2 |-> s2, csize |-> Len(b) - 32, content |-> p.v])

MagicAt(b) == { i \in 1..(Len(b) - 15) : b[i] = 75 /\ SubSeq(b, i, i + 15) = MAGIC }
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

(* a block somewhere in a byte string: the last magic decides *)
ParseIn(b) ==
    IF Len(b) < 32 \/ MagicAt(b) = {} THEN FAIL
    ELSE LET m == MaxOf(MagicAt(b)) IN
         IF m < 9 THEN FAIL
         ELSE LET n == LEfrom(b, m - 8, 8)
                  start == m + 16 - (n + 8)
              IN IF n > MAXSIZE \/ start < 1 THEN FAIL
                 ELSE LET r == ParseFull(SubSeq(b, start, m + 15)) IN
                      IF ~r.ok THEN FAIL
                      ELSE [ok |-> TRUE, v |-> r.v, from |-> start - 1, to |-> m + 15]

-----------------------------------------------------------------------------
(* Serialisation of the abstract structure (the inverse of parsing).          *)
Field(b) == ToLE(Len(b), 4) \o b
Pad(b, n) == b \o Zeros(n - Len(b))
SerEntry(e) == Field(e.alg \o Field(e.data))
SerAttr(a) == Field(a.id \o a.data)
SerCert(c) == Field(c.data)
SerEntries(l) == Field(Concat([i \in 1..Len(l.items) |-> SerEntry(l.items[i])]))
SerSD(s) == Pad(SerEntries(s.digests)
                \o Field(Concat([i \in 1..Len(s.certs.items) |-> SerCert(s.certs.items[i])]))
                \o Field(Concat([i \in 1..Len(s.attrs.items) |-> SerAttr(s.attrs.items[i])])), s.size)
SerSigner(s) == Pad(Field(SerSD(s.sd)) \o SerEntries(s.sigs) \o Field(s.key.data), s.size)
SerElfEntry(e) == ToLE(Len(e.name), 2) \o e.name \o e.off \o e.len
SerValue(p) ==
    CASE p.t = "raw" -> p.data
      [] p.t = "v2" -> Pad(Field(Concat([i \in 1..Len(p.signers) |-> Field(SerSigner(p.signers[i]))])), p.size - 4)
      [] p.t = "stamp" -> Field(SerSigner(p.signer))
      [] p.t = "elf" -> ToLE(Len(p.entries), 4) \o Concat([i \in 1..Len(p.entries) |-> SerElfEntry(p.entries[i])])
SerPair(p) == LET v == p.id \o SerValue(p) IN ToLE(Len(v), 8) \o v
SerBlock(ps) ==
    LET c == Concat([i \in 1..Len(ps) |-> SerPair(ps[i])])
        n == ToLE(Len(c) + 24, 8)
    IN n \o c \o n \o MAGIC

-----------------------------------------------------------------------------
(* Construction (what the public constructors produce).                        *)
MkEntry(alg, d) == [size |-> 8 + Len(d), alg |-> alg, data |-> d]
MkAttr(id, d) == [size |-> 4 + Len(d), id |-> id, data |-> d]
MkCert(d) == [size |-> Len(d), data |-> d]
MkList(items) == [size |-> SumSeq([i \in 1..Len(items) |-> 4 + items[i].size]), items |-> items]
MkKey(d) == [size |-> Len(d), data |-> d]
\* extra: the four zero bytes that V2 signed data carries
MkSD(d, c, a, extra) == [size |-> 12 + d.size + c.size + a.size + extra, digests |-> d, certs |-> c, attrs |-> a]
MkSigner(sd, g, k) == [size |-> 12 + sd.size + g.size + k.size, sd |-> sd, sigs |-> g, key |-> k]
MkV2(ss) == LET n == SumSeq([i \in 1..Len(ss) |-> 4 + ss[i].size])
            IN [t |-> "v2", size |-> 8 + n, id |-> V2ID, ssize |-> n, signers |-> ss]
MkStamp(s) == [t |-> "stamp", size |-> 8 + s.size, id |-> STAMPID, signer |-> s]
MkElfEntry(name, off, len) == [nlen |-> Len(name), name |-> name, off |-> off, len |-> len]
MkElf(es) == [t |-> "elf", size |-> 8 + SumSeq([i \in 1..Len(es) |-> 18 + Len(es[i].name)]), id |-> ELFID,
              count |-> Len(es), entries |-> es]
MkRaw(id, d) == [t |-> "raw", size |-> 4 + Len(d), id |-> id, data |-> d]
MkBlock(ps) ==
    LET n == SumSeq([i \in 1..Len(ps) |-> 8 + ps[i].size])
    IN [size1 |-> n + 24, size2 |-> n + 24, csize |-> n, content |-> ps]
=============================================================================
