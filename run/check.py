#!/usr/bin/env python3
"""python3 run/check.py PROPERTY: decides one property against /repo's working tree."""
import os, shutil, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
import suites


def known(prop):
    out = []
    p = os.path.join(core.VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith(f"finding: property={prop} "):
                key, text = l.strip().split(" ", 3)[2:4]
                out.append((key, text))
    return out


def main():
    prop = sys.argv[1]
    fn = suites.CHECKS.get(prop)
    if not fn:
        print("unknown property", prop)
        return 2
    try:
        c = core.Check(prop, suites.LEVELS.get(prop, "model_checking"), known(prop))
        h = core.Harness(verify=prop in suites.NEEDS_VERIFY)
        if prop in suites.ONLY_VERIFY and not h.verify:
            raise core.ToolError("the verify feature does not build:\n" + h.err[-3000:])
        fn(c, h)
        return c.finish()
    except core.ToolError as e:
        print("ERROR:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        d = os.path.join(core.BUILD, "scratch")
        if os.path.isdir(d):
            for n in os.listdir(d):
                if n.startswith(f"{os.getpid()}-"):
                    shutil.rmtree(os.path.join(d, n), ignore_errors=True)


sys.exit(main())
