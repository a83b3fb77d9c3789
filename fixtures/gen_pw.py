#!/usr/bin/env python3
"""Generates, once, keys and containers under other passwords and ciphers (committed; the checks only read them).
The passwords are those of `pw` in harness/src/keys.rs."""
import os, subprocess
OUT = os.path.dirname(os.path.abspath(__file__))
PWS = {"wrong": "Secret", "empty": "", "lead": " secret", "trail": "secret ", "line": "secret\n", "inner": "sec ret", "short": "secre", "more": "secrets",
       "uni": "s\u00e9cret", "long": "0123456789" * 8, "cut": ("0123456789" * 8)[:64]}
def sh(*a): subprocess.run(a, cwd=OUT, check=True, capture_output=True)
L = ["-keypbe", "PBE-SHA1-3DES", "-certpbe", "PBE-SHA1-RC2-40", "-macalg", "sha1", "-legacy"]
for n, p in PWS.items():
    for k in ("a256", "b384"):
        sh("openssl", "pkcs8", "-topk8", "-in", f"{k}.key", "-out", f"{k}.pw-{n}.key", "-passout", "pass:" + p, "-v2", "aes-256-cbc", "-iter", "512")
    sh("openssl", "pkcs12", "-export", "-inkey", "b384.key", "-in", "b384_rootA.pem", "-out", f"b384.pw-{n}.p12", "-passout", "pass:" + p, *L)
for k in ("a256", "b384"):
    for c in ("aes-128-cbc", "aes-192-cbc"):
        sh("openssl", "pkcs8", "-topk8", "-in", f"{k}.key", "-out", f"{k}.{c}.key", "-passout", "pass:secret", "-v2", c, "-iter", "512")
    sh("openssl", "pkcs8", "-topk8", "-in", f"{k}.key", "-out", f"{k}.scrypt.key", "-passout", "pass:secret", "-scrypt", "-scrypt_N", "1024")
