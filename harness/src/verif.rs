//! Verification: signers, overall verdict, certificate chains.
#![cfg(feature = "verify")]
use crate::hist::{digest_of, module, with_block};
use crate::proj::arr;
use crate::zipm::{hash, int, scratch_file, yes};
use crate::{guarded, own, Report};
use ksusig::verifier::{CertChainVerifier, DigestContext, SignatureVerifier, TrustedRoots, VerifyError, VerifyResult};
use ksusig::{Module, SigningBlock};
use serde_json::Value;
use std::collections::HashMap;
use std::sync::{Mutex, OnceLock};

/// a certificate of the catalogue, or something that is none
fn der(n: &str) -> Vec<u8> {
    match n { "junk" => b"\x30\x03junk, no certificate".to_vec(), "empty" => vec![], _ => own::cert_of(n) }
}
pub fn roots(names: &[&str]) -> TrustedRoots {
    let mut t = TrustedRoots::new();
    for n in names { t.add_root(der(n)); }
    t
}
fn names(v: &Value) -> Vec<&str> { arr(v).iter().filter_map(|x| x.as_str()).collect() }

/// the certificates are what the specification takes them for
fn facts(n: &str, f: &Value) -> Result<(), String> {
    static SEEN: OnceLock<Mutex<HashMap<String, ()>>> = OnceLock::new();
    if SEEN.get_or_init(Default::default).lock().unwrap().contains_key(n) { return Ok(()); }
    use x509_cert::der::{Decode, Encode};
    use x509_cert::ext::pkix::{BasicConstraints, ExtendedKeyUsage};
    let c = x509_cert::Certificate::from_der(&own::cert_of(n)).map_err(|e| format!("fixture {n}: {e}"))?;
    let t = &c.tbs_certificate;
    let s = |k: &str| f[k].as_str().unwrap_or("").to_string();
    let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_or(0, |d| d.as_secs());
    let ext = |oid: &str| t.extensions.iter().flatten().find(|e| e.extn_id.to_string() == oid).map(|e| e.extn_value.as_bytes().to_vec());
    let bc = ext("2.5.29.19").map(|b| BasicConstraints::from_der(&b).expect("fixture"));
    let eku = ext("2.5.29.37").map(|b| ExtendedKeyUsage::from_der(&b).expect("fixture").0.iter().map(|o| o.to_string()).collect::<Vec<_>>());
    let (code, server) = (eku.iter().flatten().any(|o| o == "1.3.6.1.5.5.7.3.3"), eku.iter().flatten().any(|o| o == "1.3.6.1.5.5.7.3.1"));
    let key = t.subject_public_key_info.to_der().expect("fixture");
    let val = if now < t.validity.not_before.to_unix_duration().as_secs() { "future" } else if now > t.validity.not_after.to_unix_duration().as_secs() { "expired" } else { "ok" };
    let good = t.subject.to_string() == format!("CN={}", s("sub")) && t.issuer.to_string() == format!("CN={}", s("iss"))
        && key == own::pub_of(&s("key")) && bc.as_ref().is_some_and(|b| b.ca) == yes(&f["ca"])
        && bc.and_then(|b| b.path_len_constraint).map_or(-1, i64::from) == int(&f["pl"])
        && s("eku") == match (eku.is_some(), code, server) { (false, ..) => "none", (_, true, true) => "both", (_, true, _) => "code", _ => "server" }
        && s("val") == val && signed_by(&c, &own::pub_of(&s("by")));
    if !good { return Err(format!("fixture {n} is not what the specification says")); }
    SEEN.get().unwrap().lock().unwrap().insert(n.to_string(), ());
    Ok(())
}
fn signed_by(c: &x509_cert::Certificate, spki: &[u8]) -> bool {
    use sha2::{Digest, Sha256, Sha384};
    use x509_cert::der::Encode;
    let tbs = c.tbs_certificate.to_der().expect("fixture");
    let h: Vec<u8> = if c.signature_algorithm.oid.to_string().ends_with(".3") { Sha384::digest(&tbs).to_vec() } else { Sha256::digest(&tbs).to_vec() };
    let sig = c.signature.as_bytes().unwrap_or(&[]);
    use p256::ecdsa::signature::hazmat::PrehashVerifier;
    use p256::pkcs8::DecodePublicKey;
    if let Ok(k) = p256::ecdsa::VerifyingKey::from_public_key_der(spki) { return p256::ecdsa::Signature::from_der(sig).is_ok_and(|s| k.verify_prehash(&h, &s).is_ok()); }
    p384::ecdsa::VerifyingKey::from_public_key_der(spki).is_ok_and(|k| p384::ecdsa::Signature::from_der(sig).is_ok_and(|s| k.verify_prehash(&h, &s).is_ok()))
}

pub fn chain(c: &Value, r: &mut Report) {
    let leaf = c["leaf"].as_str().unwrap_or("");
    if c["fact"]["key"].is_string() { if let Err(e) = facts(leaf, &c["fact"]) { eprintln!("{e}"); std::process::exit(2) } }
    let sup: Vec<Vec<u8>> = names(&c["sup"]).iter().map(|n| der(n)).collect();
    let rs = names(&c["roots"]);
    let want = yes(&c["trusted"]);
    let tag = || format!("{leaf}, supplied {}, roots {}", c["sup"], c["roots"]);
    let v = match guarded(|| CertChainVerifier::new(roots(&rs)).verify_chain(&der(leaf), &sup)) { Ok(v) => v, Err(p) => return r.bad("panic", format!("{}: {p}", tag())) };
    r.hit(format!("trusted={want}"));
    r.check(v.1 == want, if want { "distrust" } else { "trust" }, || format!("{}: trusted={} ({:?})", tag(), v.1, v.2));
    r.check(!v.0 || yes(&c["may"]), "valid", || format!("{}: reported as a valid chain", tag()));
    r.check(v.0 || !v.1, "valid", || format!("{}: trusted, yet no valid chain", tag()));
    // the order in which roots were added, repeated roots and PEM make no difference
    let rev: Vec<&str> = rs.iter().rev().chain(rs.first()).copied().collect();
    r.check(guarded(|| CertChainVerifier::new(roots(&rev)).verify_chain(&der(leaf), &sup).1) == Ok(want), "order", || format!("{}: the order of the roots matters", tag()));
    if rs.iter().all(|n| *n != "junk") && !rs.is_empty() {
        let mut t = TrustedRoots::new();
        for n in &rs { if let Err(e) = t.add_root_pem(&own::fixture(&format!("{n}.pem"))) { r.bad("pem", format!("{n}: {e}")); } }
        r.check(t.roots().len() == rs.len() && rs.iter().all(|n| t.is_direct_root(&der(n))), "pem", || format!("{}: roots added as PEM are not there", tag()));
        r.check(t.is_direct_root(&der(leaf)) == rs.contains(&leaf), "pem", || format!("{}: is_direct_root", tag()));
        r.check(guarded(|| CertChainVerifier::new(t).verify_chain(&der(leaf), &sup).1) == Ok(want), "pem", || format!("{}: PEM roots differ from DER roots", tag()));
    }
}

// ---- an attacker's block ----
fn wrap(x: Vec<u8>) -> Vec<u8> { [&(x.len() as u32).to_le_bytes()[..], &x].concat() }
fn list(v: &Value, f: impl Fn(&Value) -> Vec<u8>) -> Vec<u8> { wrap(arr(v).iter().flat_map(|x| wrap(f(x))).collect()) }
fn alg(v: &Value) -> Vec<u8> { (int(v) as u32).to_le_bytes().to_vec() }
fn digest(a: i64, ver: i64) -> Vec<u8> {
    match a { 513 | 514 => digest_of(&module(3, ver), a as u32), _ => hash(0x201, &[7, ver as u8]) }
}
/// signed data without its length
fn sd(v: &Value) -> Vec<u8> {
    let mut x = list(&v["digs"], |d| [alg(&d["alg"]), wrap(digest(int(&d["alg"]), int(&d["ver"])))].concat());
    x.extend(list(&v["certs"], |c| der(c.as_str().unwrap_or(""))));
    x.extend(match int(&v["attrs"]) {
        0 => wrap(vec![]),
        1 => wrap(wrap([&0xe43c_5946u32.to_le_bytes()[..], &1_700_000_000u64.to_le_bytes()].concat())),
        _ => wrap(wrap(vec![1, 2, 3, 4, 5])),
    });
    if yes(&v["zero"]) { x.extend([0; 4]); }
    x
}
fn made(k: &str, data: &[u8]) -> Vec<u8> {
    static C: OnceLock<Mutex<HashMap<(String, Vec<u8>), Vec<u8>>>> = OnceLock::new();
    let key = (k.to_string(), data.to_vec());
    if let Some(s) = C.get_or_init(Default::default).lock().unwrap().get(&key) { return s.clone(); }
    let a = own::alg_of(k);
    let h = hash(a, data);
    let pem = String::from_utf8(own::fixture(&format!("{k}.key"))).unwrap();
    let s = if a == 0x201 {
        use p256::{ecdsa::{signature::Signer, Signature, SigningKey}, pkcs8::DecodePrivateKey};
        let s: Signature = SigningKey::from_pkcs8_pem(&pem).expect("fixture").sign(&h);
        s.to_der().as_bytes().to_vec()
    } else {
        use p384::{ecdsa::{signature::Signer, Signature, SigningKey}, pkcs8::DecodePrivateKey};
        let s: Signature = SigningKey::from_pkcs8_pem(&pem).expect("fixture").sign(&h);
        s.to_der().as_bytes().to_vec()
    };
    C.get().unwrap().lock().unwrap().insert(key, s.clone());
    s
}
fn signer(s: &Value) -> Vec<u8> {
    let sig = |g: &Value| {
        let mut x = made(g["by"].as_str().unwrap_or(""), &sd(&g["over"]));
        if yes(&g["bad"]) { let n = x.len() - 9; x[n] ^= 0x40; }
        [alg(&g["alg"]), wrap(x)].concat()
    };
    let key = match s["key"].as_str().unwrap_or("") { "" => vec![], "junk" => vec![5; 91], k => own::pub_of(k) };
    [wrap(sd(&s["sd"])), list(&s["sigs"], sig), wrap(key)].concat()
}
pub fn block_bytes(b: &Value) -> Vec<u8> {
    let mut c = vec![];
    for x in arr(b) {
        let (id, body) = match x["t"].as_str().unwrap_or("") {
            "v2" => (0x7109_871au32, list(&x["signers"], signer)),
            "stamp" => (0x6dff_800d, wrap(signer(&x["signers"][0]))),
            _ => (0x51, vec![1, 2, 3]),
        };
        c.extend((4 + body.len() as u64).to_le_bytes());
        c.extend(id.to_le_bytes());
        c.extend(body);
    }
    let n = (c.len() as u64 + 24).to_le_bytes();
    [&n[..], &c, &n, ksusig::MAGIC].concat()
}
fn full(v: &VerifyResult) -> bool { v.signature_valid && v.digest_valid && v.cert_chain_valid && v.is_trusted }
fn one(r: &mut Report, tag: &dyn Fn() -> String, t: &str, want: &Value, got: &Result<VerifyResult, VerifyError>) {
    let missing = matches!(got, Err(VerifyError::NoSignature));
    r.check(missing == yes(&want["missing"]), "missing", || format!("{}: {t} reported as {}", tag(), if missing { "missing" } else { "there" }));
    let pass = got.as_ref().is_ok_and(full);
    let w = yes(&want["pass"]);
    r.check(pass == w, if w { "refused" } else { "accepted" }, || format!("{}: {t} {}: {got:?}", tag(), if pass { "passes" } else { "fails" }));
    let Ok(v) = got else { return };
    let ss = arr(&want["signers"]);
    if v.signers.len() != ss.len() { return r.bad("count", format!("{}: {t} {} signers instead of {}", tag(), v.signers.len(), ss.len())); }
    for (i, (s, w)) in v.signers.iter().zip(ss).enumerate() {
        for (k, f) in [("sig", s.signature_valid), ("dig", s.digest_valid), ("trust", s.is_trusted)] {
            r.check(!f || yes(&w[k]), "flag", || format!("{}: {t} signer {i} reported with good {k}", tag()));
        }
    }
    let all = |k: &str, f: bool| !f || ss.iter().all(|w| yes(&w[k]));
    r.check(all("sig", v.signature_valid) && all("dig", v.digest_valid) && all("trust", v.is_trusted), "flag", || format!("{}: {t} reported {v:?}", tag()));
}
pub fn attack(c: &Value, r: &mut Report) {
    let bytes = block_bytes(&c["b"]);
    let blk = match guarded(|| SigningBlock::from_u8(&bytes).map_err(|e| e.to_string())) {
        Err(p) => return r.bad("panic", p),
        Ok(Err(e)) => return r.bad("parse", e),
        Ok(Ok(b)) => b,
    };
    for x in arr(&c["res"]) {
        let (rs, ver) = (names(&x["roots"]), int(&x["ctx"]["ver"]));
        let mut ctx = DigestContext::new();
        for a in arr(&x["ctx"]["algs"]) { ctx.add_digest(int(a) as u32, digest(int(a), ver)); }
        let ctx = (ver != -2).then_some(&ctx);
        let tag = || format!("content {ver}, roots {rs:?}");
        let v = SignatureVerifier::with_trusted_roots(roots(&rs));
        let all = match guarded(|| v.verify_all_with_digest(&blk, ctx)) { Err(p) => return r.bad("panic", p), Ok(a) => a };
        let valid = yes(&x["valid"]);
        r.hit(format!("valid={valid}"));
        r.check(all.is_valid() == valid, if valid { "refused" } else { "accepted" }, || format!("{}: overall {}: {all:?}", tag(), all.is_valid()));
        r.check(all.has_v2() != yes(&x["v2"]["missing"]) && all.has_source_stamp() != yes(&x["stamp"]["missing"]), "missing", || format!("{}: has_v2 {}, has_source_stamp {}", tag(), all.has_v2(), all.has_source_stamp()));
        one(r, &tag, "v2", &x["v2"], &all.v2);
        one(r, &tag, "stamp", &x["stamp"], &all.source_stamp);
        // the entry points for one kind agree
        if !yes(&c["file"]) {
        } else if let Some(k) = ctx {
            let d = guarded(|| ksusig::verifier::verify_with_roots_and_digest(&blk, roots(&rs), k));
            r.check(d.as_ref().is_ok_and(|d| d.as_ref().is_ok_and(full) == all.v2.as_ref().is_ok_and(full)), "agree", || format!("{}: verify_with_roots_and_digest: {d:?}", tag()));
        } else {
            let d = guarded(|| v.verify_source_stamp(&blk));
            r.check(d.as_ref().is_ok_and(|d| !d.as_ref().is_ok_and(|v| v.digest_valid)), "accepted", || format!("{}: verify_source_stamp vouches for the content", tag()));
        }
        // in a module file
        if yes(&c["file"]) && rs == ["rootA"] && (0..2).contains(&ver) && arr(&x["ctx"]["algs"]).len() == 2 {
            let p = scratch_file("attacked");
            std::fs::write(&p, with_block(&module(3, ver), &bytes)).expect("scratch file");
            let g = guarded(|| Module::new(p.clone()).map(|m| (m.verify_with_roots(roots(&rs)), m.verify_full().is_valid())).map_err(|e| e.to_string()));
            match g {
                Ok(Ok((a, b))) => {
                    r.check(a.is_valid() == valid, if valid { "refused" } else { "accepted" }, || format!("{}: module file {}", tag(), a.is_valid()));
                    r.check(!b, "accepted", || format!("{}: valid under the built-in roots", tag()));
                    r.check(a.v2.as_ref().is_ok_and(full) == yes(&x["v2"]["pass"]) && a.source_stamp.as_ref().is_ok_and(full) == yes(&x["stamp"]["pass"]), "file", || format!("{}: module file {a:?}", tag()));
                }
                g => r.bad("file", format!("{g:?}")),
            }
        }
        if r.issues.len() > 5 { return; }
    }
}
