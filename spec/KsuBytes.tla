------------------------------ MODULE KsuBytes ------------------------------
(* Byte strings: sequences of 0..255, little-endian numbers, length-prefixed fields. *)
(* TLC integers have 32 bits: numbers that do not matter beyond being "huge" saturate at BIG. *)
EXTENDS Integers, Sequences, FiniteSets

BIG == 1073741824

RECURSIVE LEfrom(_, _, _)
\* value of the n bytes of b starting at index i
LEfrom(b, i, n) ==
    IF n = 0 THEN 0
    ELSE LET hi == LEfrom(b, i + 1, n - 1)
         IN  IF hi >= BIG \div 256 THEN BIG ELSE b[i] + 256 * hi

LE(b, n) == LEfrom(b, 1, n)

RECURSIVE ToLE(_, _)
\* n bytes, little-endian, of v >= 0; -1 stands for the all-ones number
ToLE(v, n) ==
    IF n = 0 THEN <<>>
    ELSE IF v = -1 THEN <<255>> \o ToLE(-1, n - 1)
    ELSE <<v % 256>> \o ToLE(v \div 256, n - 1)

Drop(b, n) == SubSeq(b, n + 1, Len(b))
First(b, n) == SubSeq(b, 1, n)
Last(b, n) == SubSeq(b, Len(b) - n + 1, Len(b))
Zeros(n) == [i \in 1..n |-> 0]
AllZero(b) == \A i \in 1..Len(b) : b[i] = 0

FAIL == [ok |-> FALSE]

(* one field: a u32 length and that many bytes *)
Take(b) ==
    IF Len(b) < 4 THEN FAIL
    ELSE LET n == LE(b, 4)
         IN IF n > Len(b) - 4 THEN FAIL
            ELSE [ok |-> TRUE, v |-> SubSeq(b, 5, 4 + n), rest |-> Drop(b, 4 + n)]

RECURSIVE Split(_)
(* the whole of b as a list of fields: nothing may be left over *)
Split(b) ==
    IF b = <<>> THEN [ok |-> TRUE, v |-> <<>>]
    ELSE LET h == Take(b)
         IN IF ~h.ok THEN FAIL
            ELSE LET t == Split(h.rest)
                 IN IF ~t.ok THEN FAIL ELSE [ok |-> TRUE, v |-> <<h.v>> \o t.v]

RECURSIVE ConcatOf(_, _, _)
ConcatOf(ss, i, j) == IF i > j THEN <<>> ELSE IF i = j THEN ss[i]
                      ELSE ConcatOf(ss, i, (i + j) \div 2) \o ConcatOf(ss, (i + j) \div 2 + 1, j)
Concat(ss) == ConcatOf(ss, 1, Len(ss))

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

Cont(x) == x >= 128 /\ x <= 191
RECURSIVE Utf8(_)
Utf8(b) ==
    IF \A i \in 1..Len(b) : b[i] < 128 THEN TRUE
    ELSE LET c == b[1] IN
         IF c < 128 THEN Utf8(Drop(b, 1))
         ELSE IF c >= 194 /\ c <= 223
              THEN Len(b) >= 2 /\ Cont(b[2]) /\ Utf8(Drop(b, 2))
         ELSE IF c >= 224 /\ c <= 239
              THEN /\ Len(b) >= 3 /\ Cont(b[2]) /\ Cont(b[3])
                   /\ (c = 224 => b[2] >= 160) /\ (c = 237 => b[2] <= 159)
                   /\ Utf8(Drop(b, 3))
         ELSE IF c >= 240 /\ c <= 244
              THEN /\ Len(b) >= 4 /\ Cont(b[2]) /\ Cont(b[3]) /\ Cont(b[4])
                   /\ (c = 240 => b[2] >= 144) /\ (c = 244 => b[2] <= 143)
                   /\ Utf8(Drop(b, 4))
         ELSE FALSE
=============================================================================
