"""Level notes of the manifest."""
BOUND = "Bounded: exhaustive over the stated model, every behaviour of which is replayed into the code; assumes the replayed catalogue is representative beyond its bounds and trusts TLC and the comparison in the harness. "
NOTES = {
 "C07": ("", BOUND + "Catalogue of 10 block shapes with every single structural perturbation and every single-byte edit, all constructor trees over the listed list shapes, all orders of up to 3 sub-blocks, every content size 0..17500."),
 "C08": ("", BOUND + "Same perturbed inputs, panics, arithmetic overflow (checks on), hangs and allocation out of proportion observed; acceptance must equal the grammar."),
 "C09": ("", BOUND + "Every content size from 0 to 17500 bytes spread over 0..3 sub-blocks, with a padding sub-block at every position; what the signers, stamp adding and the module object make of contents around every boundary is recorded and judged by TLC (trace validation)."),
 "C23": ("", BOUND + "All constructor trees of the block catalogue."),
 "C03": ("", BOUND + "All combinations of 9 entry areas, 12 block states (well formed, six corruptions, bare magic, end record inside the block), 3 central directories, 7 central directory offsets and 16 tails (comments, trailing bytes, decoy end records, 65535/65536-byte limits), plus regions around the 1 MiB chunk size up to 3 MiB, as ordinary and as raw module. Signed and stripped files compared byte for byte with the splice the specification gives."),
 "C05": ("", BOUND + "All combinations of 9 entry areas, 12 block states (well formed, six corruptions, bare magic, end record inside the block), 3 central directories, 7 central directory offsets and 16 tails (comments, trailing bytes, decoy end records, 65535/65536-byte limits), plus regions around the 1 MiB chunk size up to 3 MiB, as ordinary and as raw module. Digests compared with the chunk plan of the specification for both algorithms, before and after signing."),
 "C18": ("", BOUND + "All combinations of 9 entry areas, 12 block states (well formed, six corruptions, bare magic, end record inside the block), 3 central directories, 7 central directory offsets and 16 tails (comments, trailing bytes, decoy end records, 65535/65536-byte limits), plus regions around the 1 MiB chunk size up to 3 MiB, as ordinary and as raw module. End record, offsets, regions and block/absence/corruption compared."),
}

HIST = "All histories of two steps (thorough: three) over 6 forms of module and 15 step kinds (library and object signing by 4 keys, stamps, padding, re-signing, stamp adding, stripping, corrupting), long histories of 4 steps (thorough: 6) over two forms; files compared byte for byte, blocks read by an independent parser, signatures checked against the ECDSA crates directly. "
NOTES.update({
 "C01": ("", BOUND + HIST + "Full verification with a stand-in for the certificate-path library that is absent here (webpki), whenever the verify feature builds."),
 "C04": ("", BOUND + HIST + "Also one signing step on every file of the module catalogue."),
 "C13": ("", BOUND + "10 keys x 8 algorithms x 7 data x 16 public keys x 17 signature mutations (other encodings of the same numbers, impossible numbers) and bit flips of every signature byte; data of every length 0..400 and around powers of two up to 1 MiB with six alterations; algorithm ids: 2^20 consecutive and 7 * 2^18 spread ids."),
 "C14": ("", BOUND + "All signer entry points x keys x algorithms x chains x digest lists up to 2; adding a stamp to every content of up to 2 sub-blocks out of 8 kinds; " + HIST),
 "C22": ("", BOUND + "All call orders of 3 (thorough: 4) operations on one module object over all kinds of file."),
})
NOTES.update({
 "C02": ("", BOUND + "Two forms of module (thorough: all) signed with V2, stamp or both: every byte of the file changed four ways, every insertion, deletion, truncation and appended byte, and (one form) pairs of changes at the points that matter; the specification classes each position as content, signed data, signature, key or slack and demands a differing digest, an unreadable file or an invalid signature accordingly; full verification runs when the verify feature builds (webpki stand-in)."),
 "C06": ("", BOUND + "All splittings of the delivery of a region of up to 5 units (thorough: 7) into reads of every length, with interruptions, and early end of data, as the reader state machine of the specification allows, on every digest and block reading entry point."),
 "C16": ("", BOUND + "All ELF files over 2 classes, 2 byte orders, 3 layouts and all lists of up to 2 (thorough: 3) sections out of 15 kinds, plus sections around the 1 MiB chunk size; signed three times in a row; section tables and all original bytes compared with the specification by an independent ELF parser."),
 "C17": ("", BOUND + "Same ELF files, all request lists over their section names (up to three names, each order); regions and digests for both algorithms compared with the chunk plan of the specification, before signing and after each of three signings."),
})
NOTES.update({
 "C10": ("", BOUND + "An attacker machine over honestly signed blocks (7 starting points): every block reachable by two edits of signed data, signatures, keys, certificates, signers and sub-blocks (thorough: three edits, a wider edit set), and every combination of failing signers; each block verified under up to nine combinations of content, computed algorithms and roots with real keys and certificates. Signatures and digests are ideal in the specification. Needs the verify feature, built against a stand-in for the absent certificate-path library (webpki)."),
 "C11": ("", BOUND + "All lists of up to two sub-blocks (thorough: three) with up to two signers each out of seven (thorough: twelve) kinds of signer, plus all single edits of the attacker machine. Needs the verify feature (webpki stand-in)."),
 "C12": ("", BOUND + "All leaf certificates of the catalogue (4 keys, 16 kinds of defect or issuer) x all lists of up to two supplied certificates (one key: three) out of 14 x all sets of up to two configured roots; facts of every certificate are checked against its real bytes. The path building itself is done by a stand-in for the absent webpki library, so only the code of this repository around it is judged."),
 "C15": ("", BOUND + "8 keys x 7 key file forms x 4 passwords x 2 line ends x certificate files of up to three blocks out of 8 kinds; 13 PKCS#12 containers x 3 passwords with cut and damaged copies; DER entry points; files with two keys."),
 "C19": ("", BOUND + "The real command line tool run in scratch directories: 15 inputs x 3 output states x 4 output paths (also in place, through a symbolic link, unwritable) x section lists; 27 kinds of credentials for signature and stamp; all sequences of two commands (thorough: three); no room for the output. All files compared after every command, produced blocks judged by an independent parser."),
 "C20": ("", BOUND + "The real command line tool run in scratch directories: 15 inputs x all algorithm, format, section and dump options, and after every other command; printed text, dumped bytes, exit status and all files compared."),
 "C21": ("", BOUND + "The real command line tool (verify feature, webpki stand-in) on modules holding every list of up to two sub-blocks with up to two signers out of five (one signer: twelve) kinds, under 9 choices of root, on 11 kinds of unreadable file and on a module signed under the built-in root."),
})
SIM = " In addition behaviours drawn at random by TLC's simulation mode from a larger space: "
for k, t in {
 "C01": "histories of up to 10 steps.", "C02": "up to six changes at once; a module of several chunks with the longest comment changed at its chunk boundaries.",
 "C03": "module files of random pieces, histories of up to 10 steps; every perturbed block of the block catalogue placed in a module.",
 "C04": "module files of random pieces, histories of up to 10 steps; every perturbed block of the block catalogue placed in a module.",
 "C05": "module files of random pieces; the digest functions called directly with random regions.", "C06": "deliveries of longer regions.",
 "C07": "blocks of random structure and perturbed bytes of such blocks.", "C08": "perturbed bytes of blocks of random structure, module files of random pieces.",
 "C09": "random signers, histories of up to 10 steps.", "C10": "attacks of up to seven edits.", "C14": "random signers, histories of up to 10 steps.",
 "C15": "combinations of key material.", "C16": "ELF files of up to eight sections.", "C17": "ELF files of up to eight sections; the digest function called directly with random regions.",
 "C18": "module files of random pieces.", "C19": "sequences of up to six commands.", "C20": "sequences of up to six commands.", "C22": "call orders of up to 12 operations.",
 "C23": "blocks of random structure.",
}.items():
    NOTES[k] = (NOTES[k][0], NOTES[k][1] + SIM + t)
NA = {}
