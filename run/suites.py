"""Which models and which replays decide which property."""
import json, random
import core
from core import Tlc, THOROUGH, SEED

LEVELS, CHECKS = {}, {}
NEEDS_VERIFY, ONLY_VERIFY = set(), set()


def check(prop, verify=False, only_verify=False, level="model_checking"):
    def d(f):
        CHECKS[prop] = f
        LEVELS[prop] = level
        if verify or only_verify:
            NEEDS_VERIFY.add(prop)
        if only_verify:
            ONLY_VERIFY.add(prop)
        return f
    return d


def run(c, h, module, mode, kinds=None, consts=None, name=None, key=None, prep=None, **kw):
    """model check a module, replay every behaviour it emits"""
    t = Tlc(module, consts=consts, **kw).need()
    c.model(t)
    cases = prep(t.cases) if prep else t.cases
    if not cases:
        raise core.ToolError(f"{module} emitted no case")
    issues, hits, _ = h.replay(mode, cases)
    c.replayed(name or mode, cases, issues, hits, kinds, key)
    return cases


def traced(c, h, module, mode, cases, name, kinds=None):
    """record what the code does with the cases and let TLC judge the records"""
    issues, hits, outs = h.replay(mode, cases)
    c.replayed(name, cases, issues, hits, kinds)
    recs = [(i, outs[i]) for i in sorted(outs)]
    if not recs:
        raise core.ToolError(f"{mode}: nothing recorded")
    t = Tlc(module, files={"trace.json": json.dumps([o for _, o in recs])}).need()
    c.model(t)
    for d in t.cases:
        i, o = recs[d["i"]]
        c.violation(name, {"case": cases[i], "recorded": o}, f"recorded {json.dumps(o)[:900]}, the specification says {json.dumps(d['want'])[:900]}")


# ------------------------------------------------------------------ block
def block_parse(c, h, kinds):
    run(c, h, "MCParse", "parse", kinds, consts={"Deep": "TRUE" if THOROUGH else "FALSE"})


def block_build(c, h, kinds):
    run(c, h, "MCBuild", "build", kinds, consts={"MaxPairs": 5 if THOROUGH else 4})


def of(k, cap=None):
    """the cases of one kind"""
    def f(cases):
        cs = [c for c in cases if c["k"] == k]
        return cs if not cap or len(cs) <= cap else random.Random(SEED).sample(cs, cap)
    return f


def block_random(c, h, k, mode, kinds):
    run(c, h, "MCBlockRand", mode, kinds, sim=(20000 if THOROUGH else 1200, 12), prep=of(k), name=f"random blocks: {mode}")


# ------------------------------------------------------------------ module files
def zips(c, h, kinds):
    run(c, h, "MCZip", "zip", kinds, consts={"Full": "TRUE" if THOROUGH else "FALSE"}, name="module files")
    run(c, h, "MCZip", "zip", kinds, cfg="MCZipBig.cfg", name="module files around the chunk size")
    run(c, h, "MCZipRand", "zip", kinds, sim=(60000 if THOROUGH else 3000, 20), name="random module files")


def embedded(c, h, kinds):
    run(c, h, "MCParse", "parsemod", kinds, consts={"Deep": "TRUE" if THOROUGH else "FALSE"}, name="block bytes within a module")


def direct(c, h, kinds):
    run(c, h, "MCDigest", "digest", kinds, consts={"MaxSections": 1000} if THOROUGH else None, name="digest functions called directly")
    run(c, h, "MCDigestRand", "digest", kinds, sim=(10000 if THOROUGH else 600, 4), name="digest functions called directly, random regions")


def histories(c, h, kinds):
    run(c, h, "MCHist", "hist", kinds, name="histories")
    if THOROUGH:
        run(c, h, "MCHist", "hist", kinds, consts={"MaxDepth": 3, "Forms": "{2, 5}"}, name="histories of three steps")
    run(c, h, "MCHist", "hist", kinds, consts={"MaxDepth": 6, "Forms": "{1, 3}"} if THOROUGH else None, cfg="MCHistLong.cfg", name="long histories")
    run(c, h, "MCHistSim", "hist", kinds, sim=(3000, 20) if THOROUGH else (150, 20), cap=None if THOROUGH else 400, name="random histories")


FILE = {"file", "reread", "strip", "input", "refuse", "panic"}
BLOCK = {"digest", "certs", "attrs", "key", "signature", "order", "padding"}


@check("C01", verify=True)
def c01(c, h):
    histories(c, h, FILE | BLOCK | {"verify", "verdict"})


@check("C04")
def c04(c, h):
    histories(c, h, FILE | BLOCK | {"corrupt"})
    zips(c, h, {"sign", "refuse", "reread", "strip", "panic"})
    embedded(c, h, {"sign", "refuse", "strip", "panic"})


@check("C03")
def c03(c, h):
    histories(c, h, FILE)
    zips(c, h, {"sign", "strip", "reread", "input", "panic"})
    embedded(c, h, {"sign", "strip", "panic"})


@check("C05")
def c05(c, h):
    zips(c, h, {"digest", "regions", "panic"})
    embedded(c, h, {"digest", "panic"})
    direct(c, h, {"digest", "panic"})


@check("C18")
def c18(c, h):
    zips(c, h, {"eocd", "offsets", "block", "open", "panic"})
    embedded(c, h, {"offsets", "block", "open", "panic"})


@check("C07")
def c07(c, h):
    block_build(c, h, {"structure", "bytes", "inverse", "panic"})
    block_parse(c, h, {"reject", "roundtrip", "structure"})
    run(c, h, "MCPad", "limit", {"roundtrip", "reject"})
    block_random(c, h, "build", "build", {"structure", "bytes", "inverse", "panic"})
    block_random(c, h, "parse", "parse", {"reject", "roundtrip", "structure"})


@check("C08")
def c08(c, h):
    block_parse(c, h, {"accept", "reject", "panic", "alloc"})
    run(c, h, "MCPad", "limit", {"accept", "reject", "panic"})
    block_random(c, h, "parse", "parse", {"accept", "reject", "panic", "alloc"})
    zips(c, h, {"panic", "alloc", "block"})
    embedded(c, h, {"panic", "block"})
    run(c, h, "MCElfBytes", "elfbytes", name="bytes presented as an ELF")


@check("C09")
def c09(c, h):
    run(c, h, "MCPad", "pad")
    sizes = {4096 * k - 32 + d for k in (1, 2, 3, 4) for d in range(-20, 21)} | {16384 - 24 + d for d in range(-20, 21)} | {16384 + d for d in range(-20, 41)}
    rnd = random.Random(SEED)
    sizes |= {rnd.randrange(700, 17500) for _ in range(2000 if THOROUGH else 100)}
    traced(c, h, "TraceSize", "size", [{"api": a, "c": n, "pad": p} for a in ("v2", "stamp", "both", "add", "object") for n in sorted(sizes) for p in ([True] if a == "object" else [True, False])], "signers near the limits", {"limit", "panic"})
    run(c, h, "MCSigner", "signer", {"padding", "panic"}, name="signers")
    run(c, h, "MCSignerRand", "signer", {"padding", "panic"}, sim=(40000 if THOROUGH else 2000, 4), name="random signers")
    histories(c, h, {"padding"})


@check("C23")
def c23(c, h):
    block_build(c, h, {"json", "panic"})
    block_random(c, h, "build", "build", {"json", "panic"})


@check("C22")
def c22(c, h):
    run(c, h, "MCModObj", "object", consts={"MaxDepth": 4} if THOROUGH else None, name="call orders")
    run(c, h, "MCModObj", "object", cfg="MCModObjSim.cfg", sim=(10000, 14) if THOROUGH else (600, 14), cap=None if THOROUGH else 2000, name="random call orders")


@check("C13")
def c13(c, h):
    run(c, h, "MCAlg", "alg", name="keys, algorithms, data")
    run(c, h, "MCAlgData", "algdata", consts={"Max": 1200} if THOROUGH else None, name="data lengths")
    n = 1 << 24 if THOROUGH else 1 << 20
    rnd = random.Random(SEED)
    cases = [{"from": 0, "to": n, "mul": 1, "add": 0}] + [{"from": 0, "to": n >> 2, "mul": rnd.randrange(1, 1 << 32) | 1, "add": rnd.randrange(1 << 32)} for _ in range(7)]
    issues, hits, _ = h.replay("ids", cases)
    c.replayed("algorithm ids", cases, issues, hits)


@check("C14")
def c14(c, h):
    run(c, h, "MCSigner", "signer", consts={"MaxDigests": 3, "MaxContent": 3} if THOROUGH else None, name="signers")
    run(c, h, "MCSignerRand", "signer", sim=(40000 if THOROUGH else 3000, 4), name="random signers")
    histories(c, h, BLOCK)


@check("C02", verify=True)
def c02(c, h):
    run(c, h, "MCTamper", "tamper", consts=None if THOROUGH else {"Forms": "{3, 4}"}, name="changes of every byte")
    run(c, h, "MCTamper", "tamper", consts={"Forms": "{6}"} if THOROUGH else {"Forms": "{6}", "Signs": '{"both"}'}, name="changes of a large module")
    run(c, h, "MCTamper", "tamper", consts={"Depth": 2} if THOROUGH else {"Depth": 2, "Forms": "{5}", "Signs": '{"both"}'}, name="pairs of changes")
    run(c, h, "MCTamper", "tamper", cfg="MCTamperSim.cfg", sim=(30000, 8) if THOROUGH else (1500, 8), cap=60000 if THOROUGH else 3000, name="several changes at once")
    # modules of several chunks: the digest is that of all their bytes
    run(c, h, "MCZip", "zip", {"digest", "regions", "panic"}, cfg="MCZipBig.cfg", name="module files around the chunk size")


@check("C06")
def c06(c, h):
    run(c, h, "MCReader", "reader", consts={"MaxLen": 7} if THOROUGH else None, name="deliveries")
    run(c, h, "MCReaderRand", "reader", sim=(60000 if THOROUGH else 4000, 30), name="random deliveries")


# ------------------------------------------------------------------ ELF files
def elfs(c, h, kinds):
    run(c, h, "MCElf", "elf", kinds, consts={"MaxSecs": 3} if THOROUGH else None, name="ELF files")
    run(c, h, "MCElf", "elf", kinds, consts={"Big": "TRUE", "MaxSecs": 3 if THOROUGH else 2}, name="ELF files around the chunk size")
    run(c, h, "MCElfRand", "elf", kinds, sim=(60000 if THOROUGH else 4000, 30), name="random ELF files")


@check("C16")
def c16(c, h):
    elfs(c, h, {"open", "block", "sign", "input", "bytes", "sections", "stable", "panic"})
    # the section name table as signed content: known finding
    run(c, h, "MCElf", "elf", {"stable"}, consts={"StrTab": "TRUE", "MaxSecs": 1}, name="ELF files, name table requested",
        key=lambda case, kind, what: "name-table" if '".shstrtab"' in what else None)


@check("C17")
def c17(c, h):
    elfs(c, h, {"open", "request", "regions", "digest", "stable", "panic"})
    direct(c, h, {"elfdigest", "panic"})


# ------------------------------------------------------------------ key material
@check("C15")
def c15(c, h):
    run(c, h, "MCKeys", "keys", name="key material")
    run(c, h, "MCKeysRand", "keys", sim=(40000 if THOROUGH else 2500, 4), name="random key material")


# ------------------------------------------------------------------ verification
def attacks(c, h):
    if THOROUGH:
        run(c, h, "MCAttack", "attack", consts={"Wide": "TRUE", "Starts": '{"v2", "chain", "stamp", "both", "same", "two", "old"}'}, name="attacks")
        run(c, h, "MCAttack", "attack", consts={"MaxDepth": 3, "Starts": '{"v2"}', "Thorough": 0}, name="longer attacks", timeout=3000)
    else:
        run(c, h, "MCAttack", "attack", consts={"Starts": '{"v2", "stamp", "both", "chain"}'}, name="attacks")
        run(c, h, "MCAttack", "attack", consts={"Starts": '{"same", "two", "old"}', "MaxDepth": 1, "Wide": "TRUE"}, name="attacks on several signers")


def verdicts(c, h):
    run(c, h, "MCVerdict", "attack", consts={"Kinds2": '{"good", "content", "untrusted", "nosig"}', "MaxSubs": 3} if THOROUGH else None, name="combinations of signers")
    run(c, h, "MCVerdict", "attack", consts={"MaxSigners": 1, "MaxSubs": 2, "Thorough": 2 if THOROUGH else 1,
        "Kinds2": '{"good", "content", "untrusted", "expired", "unbound", "badsig", "nosig", "nocert", "nodigest", "alg", "chain", "wrongchain"}'}, name="every kind of failure")


@check("C10", only_verify=True)
def c10(c, h):
    attacks(c, h)
    verdicts(c, h)
    run(c, h, "MCAttack", "attack", cfg="MCAttackSim.cfg", sim=(3000, 8) if THOROUGH else (100, 8), cap=40000 if THOROUGH else 2000, name="random attacks")


@check("C11", only_verify=True)
def c11(c, h):
    verdicts(c, h)
    run(c, h, "MCAttack", "attack", consts={"Wide": "TRUE", "MaxDepth": 1, "Thorough": 1, "Starts": '{"v2", "chain", "stamp", "both", "same", "two", "old"}'}, name="attacks")


@check("C12", only_verify=True)
def c12(c, h):
    run(c, h, "MCChain", "chain", name="chains")
    run(c, h, "MCChain", "chain", consts={"MaxSupplied": 3, "MaxRoots": 2 if THOROUGH else 1, "Who": '{"a384"}'} , name="longer chains")


# ------------------------------------------------------------------ command line
SIGN = {"status", "harm", "file", "digest", "certs", "attrs", "key", "signature", "order", "padding", "sections", "panic"}


def by_last(cmd):
    return lambda cases: [c for c in cases if c["hist"][-1]["c"]["cmd"] == cmd]


@check("C19")
def c19(c, h):
    run(c, h, "MCCli", "cli", SIGN, name="sign: files and paths")
    run(c, h, "MCCli", "cli", SIGN, consts={"Which": '"creds"'}, name="sign: credentials")
    run(c, h, "MCCli", "cli", SIGN, consts={"Which": '"history"', "MaxDepth": 2}, prep=by_last("sign"), name="sequences of commands")
    if THOROUGH:
        run(c, h, "MCCli", "cli", SIGN, consts={"Which": '"long"', "MaxDepth": 3}, prep=by_last("sign"), name="longer sequences of commands")
    run(c, h, "MCCliSim", "cli", SIGN, sim=(4000 if THOROUGH else 200, 8), prep=by_last("sign"), name="random sequences of commands")
    # an output that cannot be written completely: known finding
    run(c, h, "MCCli", "cli", SIGN, consts={"Which": '"full"'}, name="sign: no room for the output",
        key=lambda case, kind, what: "output-not-writable" if case["hist"][-1]["c"]["full"] and kind in ("harm", "file") else None)


@check("C20")
def c20(c, h):
    k = {"status", "harm", "file", "dump", "print", "panic"}
    run(c, h, "MCCli", "cli", k, consts={"Which": '"digest"'}, name="digest: files and options")
    run(c, h, "MCCli", "cli", k, consts={"Which": '"history"', "MaxDepth": 2}, prep=by_last("digest"), name="digest after other commands")
    run(c, h, "MCCliSim", "cli", k, sim=(8000 if THOROUGH else 400, 8), prep=by_last("digest"), name="digest in random sequences of commands")


@check("C21", only_verify=True)
def c21(c, h):
    run(c, h, "MCCmdVerify", "verify", consts={"Kinds2": '{"good", "content", "untrusted", "unbound", "badsig", "nosig", "chain"}', "MaxSubs": 3, "MaxSigners": 1} if THOROUGH else None, name="verify: pairs of sub-blocks")
    run(c, h, "MCCmdVerify", "verify", consts={"MaxSigners": 2 if THOROUGH else 1, "MaxSubs": 2,
        "Kinds2": '{"good", "content", "untrusted", "expired", "unbound", "badsig", "nosig", "nocert", "nodigest", "alg", "chain", "wrongchain"}'}, name="verify: every kind of failure")
