------------------------------ MODULE MCTamper ------------------------------
(* A signed module and an attacker who changes bytes of it. Every part of the   *)
(* file is a component; what matters of a component is whether it still is what *)
(* it was (FALSE: changed). Digests and signatures are ideal: they match only    *)
(* what they were made of.  The driver performs each change at every byte of the *)
(* component.                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Forms, Signs
VARIABLES form, sign,   \* the module and how it was signed
          hit,          \* components changed so far
          ops           \* the changes
vars == <<form, sign, hit, ops>>

Outside == {"entries", "cd", "eocd.sig", "eocd.fields", "eocd.cdoff", "eocd.clen", "comment", "trailing"}
HasV2 == sign \in {"v2", "v2pad", "chain", "both"}
HasStamp == sign \in {"stamp", "both"}
\* parts of a signer, each carrying the kind of sub-block
Sd == {"digest", "digestalg", "digestlen", "cert", "certlen", "attr", "attrlen", "sdlen", "sdzero"}
SigParts == {"sig", "sigalg", "siglen"}
KeyParts == {"key", "keylen", "signerlen"}
Parts(k) == {k \o "." \o p : p \in Sd \cup SigParts \cup KeyParts}
SdOf(k) == {k \o "." \o p : p \in Sd}
Frame == {"size1", "size2", "magic"}
\* which sub-blocks there are; padding and foreign data: nobody vouches for them
Free == {"psize", "pid", "v2len", "padding"}
Inside == (IF HasV2 THEN Parts("v2") ELSE {}) \cup (IF HasStamp THEN Parts("stamp") ELSE {}) \cup Frame \cup Free
Components == Outside \cup Inside

\* ideal cryptography
DigestHolds == hit \cap Outside = {}
BlockFound == hit \cap Frame = {}
SignerHolds(k) == hit \cap Parts(k) = {}
Accepts(k) == BlockFound /\ SignerHolds(k) /\ DigestHolds

Init == form \in Forms /\ sign \in Signs /\ hit = {} /\ ops = <<>>
\* flip: changes a byte; insert, delete: with (fix) or without the attacker adjusting the
\* central directory offset of the end record to the new length
Whole == {"truncate", "append", "prepend", "record", "relocate", "twice", "exchange", "transplant", "swapeocd"}
Kinds == {[op |-> o, fix |-> f] : o \in {"insert", "delete"}, f \in BOOLEAN} \cup {[op |-> "flip", fix |-> FALSE], [op |-> "zero", fix |-> FALSE], [op |-> "ones", fix |-> FALSE]}
Change == \E c \in Components, k \in Kinds :
    /\ c \notin hit
    /\ (form = 6 => c \in Outside)       \* the large module: what is inside the block is the same
    /\ ops' = Append(ops, [at |-> c, op |-> k.op, fix |-> k.fix])
    \* a changed length moves everything behind it, unless the offset is adjusted
    /\ hit' = hit \cup {c} \cup (IF k.op \in {"insert", "delete"} /\ c \in Inside THEN Frame ELSE {})
    /\ (Len(ops) > 0 => (k.op = "flip" /\ ops[1].op = "flip"))
\* changes of the whole file which leave every byte value where the format can be read in some way
WholeChange == \E w \in Whole :
    /\ ops = <<>>
    /\ (form = 6 => w \in {"append", "prepend", "record", "twice", "transplant"})
    /\ ops' = <<[at |-> "file", op |-> w, fix |-> TRUE]>>
    /\ hit' = {"entries", "cd"}
Next == Len(ops) < Depth /\ (Len(ops) = 1 => ops[1].at # "file") /\ (Change \/ WholeChange) /\ UNCHANGED <<form, sign>>
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* nothing outside the block can change under a valid signature, nor any part of a signer
Detected == /\ (hit \cap Outside # {}) => (~Accepts("v2") /\ ~Accepts("stamp"))
            /\ \A k \in {"v2", "stamp"} : hit \cap Parts(k) # {} => ~Accepts(k)
Untouched == hit = {} => (Accepts("v2") /\ Accepts("stamp"))
Emit == ops # <<>> => PrintT(ToJson([form |-> form, sign |-> sign, ops |-> ops,
            content |-> hit \cap Outside # {} \/ ops[1].at = "file",
            \* a byte inserted at an end of the block may as well belong to what is beside it
            found |-> BlockFound \/ ops[1].op \in {"insert", "delete"}, v2 |-> HasV2 /\ Accepts("v2"), stamp |-> HasStamp /\ Accepts("stamp"),
            free |-> hit \cap Free # {}]))
=============================================================================
