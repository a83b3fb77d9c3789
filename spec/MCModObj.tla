------------------------------ MODULE MCModObj ------------------------------
(* One module object, opened on a file that is unsigned, signed, has a corrupt *)
(* block or is no module, as ordinary or raw module; its operations in every   *)
(* order.  The file never changes; a signature made by sign_v2 stays in memory.*)
EXTENDS KsuSign, TLC, Json
CONSTANTS MaxDepth
VARIABLES disk, raw, sig, hist, res
vars == <<disk, raw, sig, hist, res>>
Disks == {"unsigned", "signed", "corrupt", "nozip", "magic", "trailing"}
\* what the reader makes of it: "magic" is an unsigned file with a block magic inside an entry
Kind(d) == CASE d \in {"magic", "trailing"} -> "unsigned" [] OTHER -> d
Readable == Kind(disk) \in {"unsigned", "signed"} \/ (raw /\ Kind(disk) = "corrupt")
\* the block in the file as this object sees it
Stored == Kind(disk) = "signed" /\ ~raw
NoSig == "none"
Ops == {"digest256", "digest512", "signA", "signB", "signX", "block", "offsets", "regions", "write", "raw", "put", "eocd", "present"}
\* ok: must succeed; val: the block concerned ("none", the one on disk, or the key of the one in memory)
R(ok, val) == [ok |-> ok, val |-> val]
Current == IF sig # NoSig THEN sig ELSE IF Stored THEN "disk" ELSE NoSig
Result(o) ==
    CASE o \in {"digest256", "digest512", "regions"} -> R(Readable, NoSig)
      [] o \in {"signA", "signB"} -> R(Readable, IF o = "signA" THEN "a256" ELSE "a384")
      [] o = "signX" -> R(FALSE, NoSig)                     \* key of the wrong curve
      [] o = "block" -> R(Current # NoSig, Current)
      [] o = "present" -> IF Current # NoSig THEN R(TRUE, Current) ELSE R(raw \/ Kind(disk) = "unsigned", NoSig)
      [] o = "offsets" -> R(Readable, Current)
      [] o = "write" -> R(Current # NoSig /\ Readable, Current)
      [] o = "put" -> R(Readable, "given")                  \* Signable::write_with_signature with a given block
      [] o = "raw" -> R(raw \/ Stored, NoSig)
      [] o = "eocd" -> R(Kind(disk) # "nozip", NoSig)
Init == disk \in Disks /\ raw \in BOOLEAN /\ sig = NoSig /\ hist = <<>> /\ res = <<>>
Next == /\ Len(hist) < MaxDepth
        /\ \E o \in Ops :
              /\ hist' = Append(hist, o) /\ res' = Append(res, Result(o))
              /\ sig' = IF o \in {"signA", "signB"} /\ Readable THEN Result(o).val ELSE sig
              /\ UNCHANGED <<disk, raw>>
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* the answer to a query depends on the last successful signing only, never on other calls
LastSig == LET js == { j \in 1..Len(hist) : hist[j] \in {"signA", "signB"} /\ res[j].ok }
           IN IF js = {} THEN NoSig ELSE res[CHOOSE j \in js : \A k \in js : k <= j].val
Consistent == sig = LastSig
Digests == \A j, k \in 1..Len(hist) : hist[j] = hist[k] /\ hist[j] \in {"digest256", "digest512", "regions"} => res[j] = res[k]
Written == \A j \in 1..Len(hist) : hist[j] = "write" /\ res[j].ok => res[j].val # NoSig
Emit == Len(hist) = MaxDepth => PrintT(ToJson([disk |-> disk, raw |-> raw, hist |-> hist, res |-> res]))
=============================================================================
