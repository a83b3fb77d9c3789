#!/usr/bin/env python3
"""Generates, once, keys with zero bytes at the ends of their encodings (committed; the checks only read them):
z*: the public key ends with 0, l*: the private scalar begins with 0, x*: the public point's X begins with 0.
Their certificates are issued by the committed root A."""
import os, subprocess, shutil, tempfile, re
OUT = os.path.dirname(os.path.abspath(__file__))
W = tempfile.mkdtemp()
def sh(*a, **k):
    r = subprocess.run(a, cwd=W, capture_output=True, **k)
    if r.returncode: raise SystemExit(f"{a}\n{r.stderr}")
    return r.stdout
CURVE = {"256": "prime256v1", "384": "secp384r1"}
src = open(f"{OUT}/gen.py").read()
open(f"{W}/c.cnf", "w").write(re.search(r'CNF = """(.*?)"""', src, re.S)[1])
open(f"{W}/index.txt", "w").close(); open(f"{W}/serial", "w").write("1000\n")
for f in ("rootA.pem", "rootA.key"): shutil.copy(f"{OUT}/{f}", W)
want = {"z": lambda priv, pub: pub[-1] == 0, "l": lambda priv, pub: priv[0] == 0, "x": lambda priv, pub: pub[1] == 0}
for c in ("256", "384"):
    need, n = set(want), int(c) // 8
    while need:
        sh("openssl", "genpkey", "-algorithm", "EC", "-pkeyopt", f"ec_paramgen_curve:{CURVE[c]}", "-pkeyopt", "ec_param_enc:named_curve", "-out", "k.key")
        pub = sh("openssl", "pkey", "-in", "k.key", "-pubout", "-outform", "DER")
        sec = sh("openssl", "ec", "-in", "k.key", "-outform", "DER")
        priv = sec[sec.index(bytes([4, n])) + 2:][:n]
        for w in sorted(need):
            if want[w](priv, pub[-(2 * n + 1):]):
                k = w + c; need.discard(w)
                shutil.copy(f"{W}/k.key", f"{OUT}/{k}.key"); shutil.copy(f"{W}/k.key", f"{W}/{k}.key")
                open(f"{OUT}/{k}.pub.der", "wb").write(pub); open(f"{OUT}/{k}.sec1.der", "wb").write(sec)
                for ext, a in ((".sec1.key", ["ec", "-in", f"{k}.key"]), (".enc.key", ["pkcs8", "-topk8", "-in", f"{k}.key", "-passout", "pass:secret", "-v2", "aes-256-cbc", "-iter", "512"]),
                               (".pk8.der", ["pkcs8", "-topk8", "-nocrypt", "-in", f"{k}.key", "-outform", "DER"])):
                    sh("openssl", *a, "-out", f"{OUT}/{k}{ext}")
                sh("openssl", "req", "-new", "-key", f"{k}.key", "-subj", f"/CN=Leaf {k}", "-out", "r.csr", "-config", "c.cnf")
                sh("openssl", "ca", "-batch", "-config", "c.cnf", "-in", "r.csr", "-out", f"{OUT}/{k}_rootA.pem", "-extensions", "leaf", "-startdate", "20200101000000Z",
                   "-enddate", "20990101000000Z", "-md", "sha384" if c == "384" else "sha256", "-notext", "-rand_serial", "-cert", "rootA.pem", "-keyfile", "rootA.key")
                sh("openssl", "x509", "-in", f"{OUT}/{k}_rootA.pem", "-outform", "DER", "-out", f"{OUT}/{k}_rootA.der")
                sh("openssl", "pkcs12", "-export", "-inkey", f"{k}.key", "-in", f"{OUT}/{k}_rootA.pem", "-out", f"{OUT}/{k}.p12", "-passout", "pass:secret",
                   "-keypbe", "PBE-SHA1-3DES", "-certpbe", "PBE-SHA1-3DES", "-macalg", "sha1", "-legacy")
                break
shutil.rmtree(W)
