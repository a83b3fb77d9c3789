#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the entries stay valid JSON)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

SB="src/signing_block/mod.rs"; MOD="src/file_formats/module/mod.rs"; DIG="src/file_formats/module/digest.rs"
ZIP="src/file_formats/module/zip.rs"; SGN="src/signable.rs"; ELF="src/file_formats/elf/mod.rs"; EDIG="src/file_formats/elf/digest.rs"
COM="src/common.rs"; V2="src/signing_block/scheme_v2.rs"; ST="src/signing_block/source_stamp.rs"; EI="src/signing_block/elf_section_info.rs"
ALG="src/signing_block/algorithms.rs"; SIG="src/signer.rs"; VER="src/verifier.rs"; KS="src/keystore.rs"

p("C01","A freshly signed module verifies",
  "Signing any well-formed module ZIP with any supported key (P-256 or P-384), with or without a source stamp and with or without 4 KiB padding, produces a file whose signing block can be read back, whose every stored content digest equals the digest recomputed from the produced file, and whose every stored signature verifies under the stored public key, which is the signing key's public key and the certificate's. When the signer's root is trusted, full verification of the produced file reports it valid.",
  ["inputs","configurations"],"every module ZIP (entry bytes, central directory, comment, trailing bytes, sizes on both sides of every 1 MiB chunk boundary), every key type, stamp/no stamp, padding/no padding, library and CLI",
  "No passing test signs a module at all; the verify fixtures are fixed files and their tests do not run in this build.",
  [SGN,MOD,DIG,SIG,VER],[("digest of the unsigned layout is computed before the block is inserted and must equal the digest of the signed layout",DIG),("the block is inserted between ZIP entries and central directory and the end record is adjusted",SGN)],
  ["SignableFile::digest / write_with_signature","Module::get_signing_block","Module::verify_with_roots","ksusig sign / verify"])
p("C02","Tampering with a signed module is always detected",
  "After a module has been signed, changing, inserting or deleting any byte outside the signing block (ZIP entries, central directory, end-of-central-directory record including its central-directory offset and comment, trailing bytes) makes the recomputed digest differ from the stored one, or makes the file unreadable, so verification never reports it valid. Changing any single byte of a stored digest, certificate, attribute, signature or public key inside the block likewise never leaves that signature valid.",
  ["inputs","fault_sequences"],"every signed module and every single-byte change, insertion, deletion or truncation of it",
  "A test flips one byte of one fixture; the guarantee is over all positions and all kinds of edit.",
  [DIG,MOD,ZIP,VER,SB],[("chunked content digest over three regions",DIG),("central directory offset in the end record is masked by the start of the block",DIG),("block must sit directly before the central directory",MOD),("signature over the exact signed-data bytes",V2)],
  ["Module::digest","Module::verify_with_roots","Algorithms::verify"])
p("C03","Signing preserves the module; stripping restores it exactly",
  "The file produced by signing is exactly the original file with one contiguous signing block inserted directly before the central directory and the central-directory offset of the end record increased by the block's length; nothing else changes, including entry bytes, central directory, every other end-record field, the comment and any trailing bytes. Extracting the raw module from the signed file returns the original file byte for byte.",
  ["inputs"],"every module ZIP that can be signed, every signing block size",
  "No passing test writes a signed module or strips one.",
  [SGN,MOD,ZIP],[("write_with_signature copies entries, block, central directory, end record",SGN),("get_raw_module removes the block and restores the offset",MOD)],
  ["SignableFile::write_with_signature","Module::write_with_signature","Module::get_raw_module"])
p("C04","Re-signing replaces the block; there is never more than one",
  "For every sequence of signing, re-signing, adding a source stamp and stripping, the file contains exactly one signing block after a signing step and none after a strip. The result of a signing step depends only on the unsigned content and the new block, so earlier signatures leave no trace, and a file whose existing block is corrupt is refused rather than signed again.",
  ["histories"],"all sequences of sign / re-sign (different keys, block sizes) / add-stamp / strip on one file",
  "Tests never sign the same module twice.",
  [SGN,MOD],[("existing block is stripped before the new one is written",SGN),("corrupt block is refused",SGN)],
  ["SignableFile::write_with_signature","Module::get_raw_module","Module::get_signing_block"])
p("C05","Content digest follows the chunk formula and ignores the signature",
  "The content digest of a module is the hash of 0x5a, the chunk count and the chunk hashes, where ZIP entries, central directory and end record are each split into 1 MiB chunks hashed as 0xa5, length, bytes, and the end record's central-directory offset is taken as the end of the ZIP entries. It is therefore identical for a module before signing, after signing with any block and after re-signing, and uses SHA-256 or SHA-512 as selected by the algorithm.",
  ["inputs","histories"],"all file contents and sizes, all block sizes, both algorithms, before and after signing",
  "Tests compare digests of a few small fixtures with themselves; no test fixes the formula, a multi-chunk file or signing invariance.",
  [DIG,MOD,ZIP],[("digest_module over FileOffsets",DIG),("get_offsets",MOD)],
  ["Module::digest","digest_module","SignableFile::digest_regions"])
p("C06","Digests do not depend on how the reader delivers bytes",
  "Computing a module or ELF digest, locating the end record and extracting a signing block give the same result for every reader that delivers the same bytes, however its read calls split the data. A reader error or a reader that ends early is reported as an error and never yields a digest of partial data.",
  ["schedules","inputs"],"every pattern of short reads and interruptions of the underlying reader, every region size",
  "Tests only read local files, which return full buffers.",
  [DIG,EDIG,ZIP,SB],[("chunk loop fills whole chunks",DIG),("read_exact of the search windows",ZIP)],
  ["digest_module","digest_elf_sections","find_eocd","SigningBlock::from_reader"])
p("C07","Signing block serialisation and parsing are exact inverses",
  "Every signing block built through the constructors serialises to bytes that parse back to an equal structure with correct size fields, whatever its signers, digests, certificates, attributes, signatures, source stamps, ELF section info and unknown sub-blocks, and their order is kept. Conversely whenever bytes are accepted by the parser, serialising the result reproduces exactly the accepted bytes.",
  ["inputs"],"all structured contents (0..n of every element, empty and non-empty payloads, unknown ids and algorithms) and all byte strings",
  "One test round-trips one ELF section info block; nothing covers V2, stamp, nested lengths or the parse-then-serialise direction.",
  [SB,COM,V2,ST,EI,"src/utils.rs"],[("length-prefixed encoders/decoders",COM),("size fields computed by new()",SB)],
  ["SigningBlock::to_u8 / from_u8 / from_reader","ValueSigningBlock::parse"])
p("C08","Parsing arbitrary bytes is total and bounded",
  "For every byte string presented as a module, as an ELF, as a signing block or as a sub-block, reading it returns a value or an error: it never panics, never overflows, never loops and never allocates memory out of proportion to the input, and a value is returned only when all nested lengths fit their containers and both block size fields agree. Blocks or sub-blocks whose declared size exceeds 16 KiB are rejected.",
  ["inputs"],"all byte strings, in particular every single-field corruption, truncation and extension of valid ones",
  "Tests parse valid fixtures only.",
  [SB,COM,V2,ST,EI,ZIP,ELF,MOD],[("bounds-checked reader","src/utils.rs"),("MAX_SIGNING_BLOCK_SIZE / MAX_PAIR_SIZE",SB)],
  ["SigningBlock::from_u8 / from_reader","Module::get_signing_block / digest / get_offsets","ElfFile::new / digest / get_signing_block"])
p("C09","Block construction obeys the size limit and 4 KiB alignment",
  "A block built with padding always has a total length that is a multiple of 4096, contains at most one padding sub-block which comes last and is all zero, and keeps the given sub-blocks unchanged and in order; if that is impossible (padding already present, no room for a padding sub-block) it is refused with an error. Whatever is built, padded or not, by the signer, by adding a stamp or by the CLI, is within the 16 KiB limit of the parser, otherwise construction fails.",
  ["inputs"],"every content size from empty to beyond the limit, every signer configuration",
  "No test builds a padded block or one near the limit.",
  [SB,SIG,"src/cli/sign.rs"],[("new / new_with_padding",SB),("recalculate_size",SB)],
  ["SigningBlock::new / new_with_padding / recalculate_size","ModuleSigner::sign / add_source_stamp","ksusig sign"])
p("C10","A signer is accepted only if signature, digest and key binding hold",
  "Verification reports a V2 signer or source stamp as valid only if it carries at least one signature, every signature verifies over the signed data with the stored public key, the signed data holds a digest for the signature's algorithm equal to the digest of the content, and the stored public key is that of the first certificate. Without computed digests the content is never reported as verified, and unknown algorithms never verify.",
  ["inputs","configurations"],"all combinations of signatures (none, good, bad, unknown algorithm, several), digests (missing, wrong, right, order), keys and certificates, with and without digests of the content",
  "Verifier tests are excluded from the build and cover a handful of fixtures.",
  [VER,ALG],[("verify_v2_with_digest",VER),("verify_source_stamp_with_digest",VER),("verify_pubkey_binding",VER)],
  ["SignatureVerifier::verify_v2_with_digest","SignatureVerifier::verify_source_stamp_with_digest"])
p("C11","Overall verdict requires every present signature to pass",
  "The overall verification result is valid only if at least one of V2 signature and source stamp is present and every signer of every present signature has a valid signature, matching digest, valid chain and trusted certificate; one failing signer makes the whole fail (of several source stamps in one block the first one counts). For a module that holds a signing block a missing signature is reported as missing, distinct from a failing one.",
  ["inputs","configurations"],"all multisets of signer outcomes and of present/absent V2 and stamp blocks",
  "Fixtures hold at most one signer and one stamp, and those tests are not built.",
  [VER,MOD],[("VerifyResult::from_signers",VER),("VerifyAllResult::is_valid",VER)],
  ["SignatureVerifier::verify_all_with_digest","VerifyAllResult::is_valid","Module::verify_with_roots"])
p("C12","Only certificates leading to a configured root are trusted",
  "A certificate is reported trusted only if it is itself a configured root or chains, through the certificates supplied in the block, to a configured root with valid signatures, current validity and the code-signing usage; with no configured root nothing is trusted. Expired, not-yet-valid, wrong-usage, wrongly issued or unparsable certificates are never trusted, and never reported as a valid chain when they appear to lead to a configured root.",
  ["inputs","configurations"],"all chains over root / intermediate / leaf certificates with every defect, all sets of configured roots",
  "Fixtures hold two fixed chains, and those tests are not built.",
  [VER],[("CertChainVerifier::verify_chain",VER),("TrustedRoots",VER)],
  ["CertChainVerifier::verify_chain","SignatureVerifier","ksusig verify --root"])
p("C13","Signatures bind key, algorithm and data",
  "Signing succeeds exactly when the algorithm and the private key's curve match; the signature then verifies for the same data, algorithm and public key, and fails for any other data, key, algorithm or altered signature (the equivalent pair (r, n-s) that ECDSA itself admits excepted). Algorithm identifiers map one-to-one to their numeric ids, unknown ids are preserved and never sign or verify, and hashes and certificate fingerprints are the standard SHA-256/SHA-512/SHA-1/MD5 values.",
  ["inputs"],"all algorithms (known, unknown), key types, data lengths and alterations",
  "No passing test signs or verifies anything.",
  [ALG,COM],[("Algorithms::sign / verify / hash",ALG),("From<u32>",ALG)],
  ["Algorithms::sign","Algorithms::verify","Algorithms::hash","PrivateKey::public_key_der"])
p("C14","Signers put exactly the given data into the block",
  "The V2 and source-stamp signers produce blocks holding exactly the digests given, in order, the signer's certificate first followed (V2) by its chain in order, one signature by the configured key and algorithm over exactly the serialised signed data, and the key's public key; a stamp carries a timestamp attribute of the signing time exactly when enabled. Adding a source stamp to an existing block keeps every other sub-block unchanged and in order, replaces any previous stamp and regenerates padding.",
  ["inputs","configurations","histories"],"all configurations of V2/stamp/chain/timestamp/padding, all digest lists, all existing blocks",
  "No test calls a signer.",
  [SIG,ST,MOD],[("V2Signer / SourceStampSigner / ModuleSigner",SIG),("SourceStampSignerBuilder",ST),("Module::sign_v2",MOD)],
  ["ModuleSigner::sign / add_source_stamp / required_algorithms","V2Signer::sign_with_digests","SourceStampSignerBuilder"])
p("C15","Keystore loading yields the right key, certificate and chain",
  "Loading credentials from PEM (PKCS#8 plain or encrypted, SEC1) or PKCS#12 returns exactly the stored private key with the algorithm of its curve, the first certificate as signing certificate and the remaining ones in order as chain. Wrong or missing passwords, unsupported key types, missing keys or certificates and malformed PEM blocks in the certificate file are errors, never another key and never a shortened chain.",
  ["inputs","configurations"],"all container formats, curves, passwords, number and order of certificates and foreign PEM blocks",
  "No passing test loads a key.",
  [KS],[("load_pem_from_bytes / load_p12_from_bytes",KS)],
  ["load_pem","load_pem_from_bytes","load_p12_from_bytes","load_private_key_der","load_certificate_der"])
p("C16","Signing an ELF preserves it and stores one readable signature",
  "Signing any ELF (32/64 bit, either byte order) keeps every original section's name, type, flags, address, offset, size and bytes and all program data, and adds exactly one signature section whose content reads back as the block that was written. Signing again replaces the stored block, never adds a second signature section, and the digest of the signed sections is the same before and after signing (the section name table, which has to grow, excepted).",
  ["inputs","histories"],"all ELF classes, byte orders, section layouts (name table anywhere, trailing data, any alignment), all sequences of signing",
  "Tests sign one host ELF once.",
  [ELF],[("write_with_signature appends block, name table and section table",ELF)],
  ["ElfFile::write_with_signature / get_signing_block / digest","ksusig sign"])
p("C17","ELF digest covers exactly the requested sections",
  "The ELF digest is the chunked digest over exactly the bytes of the requested sections in file-offset order, independent of the order in which they are requested and of everything else in the file. Requesting a section that is missing, has no file content, is empty, lies outside the file, or is the signature section itself is an error.",
  ["inputs","configurations"],"all section layouts, sizes around 1 MiB, request lists, byte orders",
  "Tests digest default sections of one host binary.",
  [ELF,EDIG],[("collect_sections",ELF),("digest_elf_sections",EDIG)],
  ["ElfFile::digest / digest_regions / resolved_sections / set_signed_sections"])
p("C18","End record and signing block are located exactly",
  "For every file the end-of-central-directory record reported is the last position in the final 65557 bytes where the signature occurs and the declared comment fits in the file, with all its fields as stored, and a file without one is an error. A module has a signing block exactly when the block magic directly precedes the central directory; then the block or a corruption error is reported, otherwise the module is reported unsigned, and reported offsets delimit exactly the entries, block, central directory and end record.",
  ["inputs"],"all placements of signatures, comments, trailing bytes, decoy magics and records, offsets pointing anywhere",
  "Fixtures have one plain layout.",
  [ZIP,MOD,SGN],[("find_eocd",ZIP),("get_signing_block / get_offsets",MOD),("maybe_missing_signature",SGN)],
  ["find_eocd","Module::get_signing_block","Module::get_offsets","SignableFile::signing_block","SignableFile::open"])
p("C19","A failed sign command destroys nothing; in-place signing works",
  "The sign command writes the output file only with a complete signed file: when it fails for any reason (bad input, missing or wrong credentials, corrupt existing block, block too large) it exits non-zero and neither the input nor an already existing output file is changed. Signing in place (output equal to input) succeeds and produces the same result as signing to another path, and the input is never modified otherwise.",
  ["inputs","fault_sequences","histories"],"all argument combinations, failing inputs at every stage, output absent / existing / equal to input, ZIP and ELF",
  "No passing test runs the sign command.",
  ["src/cli/sign.rs",SGN],[("output is written after everything else succeeded","src/cli/sign.rs")],
  ["ksusig sign (exit status, files)"])
p("C20","The digest command reports and dumps exactly the signable regions",
  "The digest command prints exactly the digest that signing would store, in hexadecimal or base64 and for the selected algorithm, and with dump writes exactly the concatenated bytes of the digested regions as they are in the file. It exits non-zero without output on unreadable input, and never modifies its input: dumping onto the input itself is refused.",
  ["inputs","configurations"],"all ZIP and ELF inputs, options and section lists",
  "Tests check lengths and self-consistency on small fixtures.",
  ["src/cli/digest.rs",SGN],[("execute / dump_regions","src/cli/digest.rs")],
  ["ksusig digest (stdout, exit status, dump file)"])
p("C21","The verify command succeeds only for fully verified modules",
  "The verify command exits zero exactly when the module has a V2 signature all of whose signers are valid, match the content, have a valid chain and are trusted under the given root (or the built-in one when none is given), and a source stamp, if present, is fully valid too. In every other case, including unreadable files and unsigned modules, it exits non-zero.",
  ["inputs","configurations"],"all files, all block contents, all --root choices",
  "The two CLI verify tests are not built here and use two fixtures.",
  ["src/cli/verify.rs",VER],[("execute","src/cli/verify.rs")],
  ["ksusig verify (exit status)"])
p("C22","A module object gives consistent answers in every call order",
  "For every sequence of operations on one module object (opened raw or not: digest, sign, sign again, read block, compute offsets, write with signature, extract raw module) the digest stays that of the file's content, the written file is the content plus the last signature and verifies, and the file on disk is never changed. Operations that cannot be performed return an error.",
  ["histories"],"all call sequences on objects opened as raw or signed, over unsigned and signed files",
  "No test performs more than one operation on a module object.",
  [MOD],[("Module.sig cached block vs file on disk",MOD)],
  ["Module::new / new_raw / sign_v2 / digest / write_with_signature / get_raw_module / get_offsets"],
  [("sig","in-memory signing block",MOD),("raw","file is to be treated as unsigned",MOD)])
p("C23","JSON form of a signing block is lossless",
  "Serialising any signing block to JSON and back yields an equal block that serialises to the same bytes, and algorithms appear as their numeric ids.",
  ["inputs"],"all signing block contents",
  "No test serialises a block.",
  [SB,ALG,COM,V2,ST,EI],[("serde derives and Algorithms impls",ALG)],
  ["serde_json::to_string / from_str on SigningBlock"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
