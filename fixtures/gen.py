#!/usr/bin/env python3
"""Generates the key and certificate fixtures once (they are committed; the checks only read them)."""
import os, subprocess, shutil, tempfile
OUT = os.path.dirname(os.path.abspath(__file__))
W = tempfile.mkdtemp()
def sh(*a, **k):
    r = subprocess.run(a, cwd=W, capture_output=True, text=True, **k)
    if r.returncode: raise SystemExit(f"{a}\n{r.stderr}")
def put(src, dst=None): shutil.copy(f"{W}/{src}", f"{OUT}/{dst or src}")
CURVE = {"p256": "prime256v1", "p384": "secp384r1", "p521": "secp521r1", "k256": "secp256k1"}
def key(name, curve):
    sh("openssl", "genpkey", "-algorithm", "EC", "-pkeyopt", f"ec_paramgen_curve:{CURVE[curve]}", "-pkeyopt", "ec_param_enc:named_curve", "-out", f"{name}.key")
    sh("openssl", "pkey", "-in", f"{name}.key", "-pubout", "-outform", "DER", "-out", f"{name}.pub.der")
    put(f"{name}.key"); put(f"{name}.pub.der")
CNF = """
[ca]
default_ca=d
[d]
dir=.
new_certs_dir=.
database=index.txt
serial=serial
default_md=sha256
policy=p
unique_subject=no
[p]
commonName=supplied
[ca_]
basicConstraints=critical,CA:TRUE
keyUsage=critical,digitalSignature,keyCertSign,cRLSign
subjectKeyIdentifier=hash
[ca_pl0]
basicConstraints=critical,CA:TRUE,pathlen:0
keyUsage=critical,digitalSignature,keyCertSign,cRLSign
[leaf]
basicConstraints=critical,CA:FALSE
keyUsage=critical,digitalSignature
extendedKeyUsage=codeSigning
[leaf_server]
basicConstraints=critical,CA:FALSE
keyUsage=critical,digitalSignature
extendedKeyUsage=serverAuth
[leaf_noeku]
basicConstraints=critical,CA:FALSE
keyUsage=critical,digitalSignature
[leaf_both]
basicConstraints=critical,CA:FALSE
extendedKeyUsage=serverAuth,codeSigning
[req]
distinguished_name=dn
[dn]
"""
open(f"{W}/c.cnf", "w").write(CNF)
open(f"{W}/index.txt", "w").close(); open(f"{W}/serial", "w").write("1000\n")
def cert(name, cn, keyname, issuer=None, ext="leaf", start="20200101000000Z", end="20990101000000Z", md="sha256"):
    """issuer = (certname, keyname) or None for self signed"""
    sh("openssl", "req", "-new", "-key", f"{keyname}.key", "-subj", f"/CN={cn}", "-out", "r.csr", "-config", "c.cnf")
    a = ["openssl", "ca", "-batch", "-config", "c.cnf", "-in", "r.csr", "-out", f"{name}.pem", "-extensions", ext,
         "-startdate", start, "-enddate", end, "-md", md, "-notext", "-rand_serial"]
    if issuer: a += ["-cert", f"{issuer[0]}.pem", "-keyfile", f"{issuer[1]}.key"]
    else: a += ["-selfsign", "-keyfile", f"{keyname}.key"]
    sh(*a)
    sh("openssl", "x509", "-in", f"{name}.pem", "-outform", "DER", "-out", f"{name}.der")
    put(f"{name}.der"); put(f"{name}.pem")
for n, c in [("a256", "p256"), ("b256", "p256"), ("a384", "p384"), ("b384", "p384"), ("rootA", "p384"), ("rootB", "p256"),
             ("rootX", "p256"), ("fakeA", "p384"), ("interA", "p256"), ("interA2", "p384"), ("interX", "p256"), ("k521", "p521"), ("k256", "k256")]:
    key(n, c)
cert("rootA", "Test Root A", "rootA", ext="ca_", md="sha384")
cert("rootB", "Test Root B", "rootB", ext="ca_")
cert("rootX", "Test Root X", "rootX", ext="ca_")
cert("fakeA", "Test Root A", "fakeA", ext="ca_")           # same name as root A, other key
cert("rootA_expired", "Test Root A", "rootA", ext="ca_", start="20100101000000Z", end="20150101000000Z")
R = ("rootA", "rootA")
cert("interA", "Test Inter A", "interA", R, "ca_")
cert("interA_expired", "Test Inter A", "interA", R, "ca_", start="20100101000000Z", end="20150101000000Z")
cert("interA_nonca", "Test Inter A", "interA", R, "leaf")
cert("interA_pl0", "Test Inter A", "interA", R, "ca_pl0")
cert("interA_byX", "Test Inter A", "interA", ("rootX", "rootX"), "ca_")
cert("interA2", "Test Inter A2", "interA2", ("interA", "interA"), "ca_")
cert("interX", "Test Inter X", "interX", ("rootX", "rootX"), "ca_")
for k in ["a256", "b256", "a384", "b384"]:
    md = "sha384" if "384" in k else "sha256"
    cert(f"{k}_rootA", f"Leaf {k}", k, R, md=md)
    cert(f"{k}_rootB", f"Leaf {k}", k, ("rootB", "rootB"), md=md)
    cert(f"{k}_rootX", f"Leaf {k}", k, ("rootX", "rootX"))
    cert(f"{k}_interA", f"Leaf {k}", k, ("interA", "interA"))
    cert(f"{k}_interA2", f"Leaf {k}", k, ("interA2", "interA2"))
    cert(f"{k}_self", f"Leaf {k}", k)
for k in ["a256", "a384"]:
    cert(f"{k}_interX", f"Leaf {k}", k, ("interX", "interX"))
    cert(f"{k}_expired", f"Leaf {k}", k, R, start="20100101000000Z", end="20150101000000Z")
    cert(f"{k}_future", f"Leaf {k}", k, R, start="20900101000000Z", end="20990101000000Z")
    cert(f"{k}_server", f"Leaf {k}", k, R, "leaf_server")
    cert(f"{k}_noeku", f"Leaf {k}", k, R, "leaf_noeku")
    cert(f"{k}_both", f"Leaf {k}", k, R, "leaf_both")
    cert(f"{k}_ca", f"Leaf {k}", k, R, "ca_")
    cert(f"{k}_fakeA", f"Leaf {k}", k, ("fakeA", "fakeA"))
    cert(f"{k}_expired_interA", f"Leaf {k}", k, ("interA", "interA"), start="20100101000000Z", end="20150101000000Z")
    cert(f"{k}_server_interA", f"Leaf {k}", k, ("interA", "interA"), "leaf_server")
# private key formats
for k in ["a256", "b256", "a384", "b384"]:
    sh("openssl", "ec", "-in", f"{k}.key", "-out", f"{k}.sec1.key"); put(f"{k}.sec1.key")
    sh("openssl", "pkcs8", "-topk8", "-in", f"{k}.key", "-out", f"{k}.enc.key", "-passout", "pass:secret", "-v2", "aes-256-cbc", "-iter", "512"); put(f"{k}.enc.key")
    sh("openssl", "pkcs8", "-topk8", "-nocrypt", "-in", f"{k}.key", "-outform", "DER", "-out", f"{k}.pk8.der"); put(f"{k}.pk8.der")
    sh("openssl", "ec", "-in", f"{k}.key", "-outform", "DER", "-out", f"{k}.sec1.der"); put(f"{k}.sec1.der")
sh("openssl", "genpkey", "-algorithm", "RSA", "-pkeyopt", "rsa_keygen_bits:2048", "-out", "rsa.key"); put("rsa.key")
sh("openssl", "pkcs8", "-topk8", "-in", "rsa.key", "-out", "rsa.enc.key", "-passout", "pass:secret", "-v2", "aes-256-cbc", "-iter", "512"); put("rsa.enc.key")
sh("openssl", "pkcs8", "-topk8", "-in", "k521.key", "-out", "k521.enc.key", "-passout", "pass:secret", "-v2", "aes-256-cbc", "-iter", "512"); put("k521.enc.key")
sh("openssl", "genpkey", "-algorithm", "ED25519", "-out", "ed.key"); put("ed.key")
cert("rsa_self", "RSA", "rsa"); cert("k521_self", "P521", "k521")
# PKCS#12 (only legacy ciphers are supported by the p12 crate)
L = ["-keypbe", "PBE-SHA1-3DES", "-certpbe", "PBE-SHA1-RC2-40", "-macalg", "sha1", "-legacy"]
L3 = ["-keypbe", "PBE-SHA1-3DES", "-certpbe", "PBE-SHA1-3DES", "-macalg", "sha1", "-legacy"]
for k in ["a256", "b256", "a384", "b384"]:
    sh("openssl", "pkcs12", "-export", "-inkey", f"{k}.key", "-in", f"{k}_rootA.pem", "-out", f"{k}.p12", "-passout", "pass:secret", *L); put(f"{k}.p12")
    open(f"{W}/chain.pem", "w").write(open(f"{W}/interA2.pem").read() + open(f"{W}/interA.pem").read() + open(f"{W}/rootA.pem").read())
    sh("openssl", "pkcs12", "-export", "-inkey", f"{k}.key", "-in", f"{k}_interA2.pem", "-certfile", "chain.pem", "-out", f"{k}_chain.p12", "-passout", "pass:secret", *L3); put(f"{k}_chain.p12")
sh("openssl", "pkcs12", "-export", "-nokeys", "-in", "a256_rootA.pem", "-out", "nokey.p12", "-passout", "pass:secret", *L); put("nokey.p12")
sh("openssl", "pkcs12", "-export", "-nocerts", "-inkey", "a256.key", "-out", "nocert.p12", "-passout", "pass:secret", *L); put("nocert.p12")
sh("openssl", "pkcs12", "-export", "-inkey", "rsa.key", "-in", "rsa_self.pem", "-out", "rsa.p12", "-passout", "pass:secret", *L); put("rsa.p12")
sh("openssl", "pkcs12", "-export", "-inkey", "k521.key", "-in", "k521_self.pem", "-out", "k521.p12", "-passout", "pass:secret", *L); put("k521.p12")
sh("openssl", "pkcs12", "-export", "-inkey", "a256.key", "-in", "a256_rootA.pem", "-out", "emptypw.p12", "-passout", "pass:", *L); put("emptypw.p12")
shutil.rmtree(W)
