------------------------------ MODULE KsuPad ------------------------------
(* Construction of a block from a given content: the 16 KiB limit and the      *)
(* padding to a multiple of 4096 bytes. Everything is a function of the size   *)
(* of the content (all sub-blocks with their headers).                         *)
EXTENDS Integers, Sequences
ALIGN == 4096
LIMIT == 16384          \* of the size field, which does not count itself
HEAD == 12              \* header of a sub-block
FRAME == 32             \* two size fields and the magic

Refused == [ok |-> FALSE]
Plain(n) == IF n + FRAME - 8 > LIMIT THEN Refused ELSE [ok |-> TRUE, total |-> n + FRAME, pad |-> -1]
\* hasPad: the content already holds a padding sub-block
Padded(n, hasPad) ==
    IF hasPad THEN Refused
    ELSE LET over == (n + FRAME) % ALIGN
             room == ALIGN - over
             total == IF over = 0 THEN n + FRAME ELSE n + FRAME + room
         IN IF over # 0 /\ room < HEAD THEN Refused
            ELSE IF total - 8 > LIMIT THEN Refused
            ELSE [ok |-> TRUE, total |-> total, pad |-> IF over = 0 THEN -1 ELSE room - HEAD]
=============================================================================
