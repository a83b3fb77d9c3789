//! The harness's own reading of files, independent of the library: the end record, the block and
//! its elements, and the cryptography.
use crate::proj::le;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::path::PathBuf;
use std::sync::{Mutex, OnceLock};

pub type Res<T> = Result<T, String>;
pub struct Rd<'a>(pub &'a [u8]);
impl<'a> Rd<'a> {
    pub fn take(&mut self, n: usize) -> Res<&'a [u8]> {
        if self.0.len() < n { return Err(format!("{n} bytes expected, {} left", self.0.len())); }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    pub fn u32(&mut self) -> Res<u32> { Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap())) }
    pub fn u64(&mut self) -> Res<u64> { Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap())) }
    pub fn part(&mut self) -> Res<Rd<'a>> { let n = self.u32()? as usize; Ok(Rd(self.take(n)?)) }
    /// the format allows zero bytes at the end of some V2 elements
    fn zeros(&self, v2: bool) -> Res<()> { if v2 && self.0.iter().all(|b| *b == 0) { Ok(()) } else { self.end() } }
    pub fn end(&self) -> Res<()> { if self.0.is_empty() { Ok(()) } else { Err(format!("{} bytes too many", self.0.len())) } }
}
fn list(mut r: Rd, f: impl Fn(Rd) -> Res<Value>) -> Res<Value> {
    let n = r.0.len();
    let mut items = vec![];
    while !r.0.is_empty() { items.push(f(r.part()?)?); }
    Ok(json!({"size": n, "items": items}))
}
fn alg_entry(mut e: Rd) -> Res<Value> {
    let n = e.0.len();
    let a = e.u32()?;
    let mut d = e.part()?;
    e.end()?;
    Ok(json!({"size": n, "alg": le(a), "data": d.take(d.0.len())?}))
}
fn cert(e: Rd) -> Res<Value> { Ok(json!({"size": e.0.len(), "data": e.0})) }
fn attr(mut e: Rd) -> Res<Value> { let n = e.0.len(); let i = e.u32()?; Ok(json!({"size": n, "id": le(i), "data": e.0})) }
fn signer(mut s: Rd, v2: bool) -> Res<Value> {
    let n = s.0.len();
    let mut d = s.part()?;
    let sd = json!({"size": d.0.len(), "digests": list(d.part()?, alg_entry)?, "certs": list(d.part()?, cert)?, "attrs": list(d.part()?, attr)?});
    d.zeros(v2)?;
    let sigs = list(s.part()?, alg_entry)?;
    let k = s.part()?;
    s.zeros(v2)?;
    Ok(json!({"size": n, "sd": sd, "sigs": sigs, "key": {"size": k.0.len(), "data": k.0}}))
}
/// one block occupying exactly `b`, in the form of `proj::block`
pub fn block(b: &[u8]) -> Res<Value> {
    let mut r = Rd(b);
    let size = r.u64()? as usize;
    if size + 8 != b.len() || size < 24 { return Err(format!("size field {size} in a block of {} bytes", b.len())); }
    let mut c = Rd(r.take(size - 24)?);
    let csize = c.0.len();
    if r.u64()? as usize != size { return Err("size fields differ".into()); }
    if r.0 != ksusig::MAGIC { return Err("magic".into()); }
    let mut out = vec![];
    while !c.0.is_empty() {
        let n = c.u64()? as usize;
        let mut p = Rd(c.take(n)?);
        let i = p.u32()?;
        out.push(match i {
            0x7109_871a => {
                let l = list(p.part()?, |s| signer(s, true))?;
                p.zeros(true)?;
                json!({"t": "v2", "size": n, "id": le(i), "ssize": l["size"], "signers": l["items"]})
            }
            0x6dff_800d => { let s = signer(p.part()?, false)?; p.end()?; json!({"t": "stamp", "size": n, "id": le(i), "signer": s}) }
            ELF_ID => {
                let count = p.u32()?;
                let mut es = vec![];
                for _ in 0..count {
                    let l = u16::from_le_bytes(p.take(2)?.try_into().unwrap());
                    let name = p.take(l as usize)?;
                    es.push(json!({"nlen": l, "name": name, "off": p.take(8)?, "len": p.take(8)?}));
                }
                p.end()?;
                json!({"t": "elf", "size": n, "id": le(i), "count": count, "entries": es})
            }
            _ => json!({"t": "raw", "size": n, "id": le(i), "data": p.0}),
        });
    }
    Ok(json!({"size1": size, "size2": size, "csize": csize, "content": out}))
}
pub const ELF_ID: u32 = 0x4c45_534b;
pub const PAD_ID: u32 = 0x4272_6577;

/// serialised signed data (without its length) of a signer in the form of `proj::block`
pub fn signed_data(s: &Value) -> Vec<u8> {
    let mut out = vec![];
    let d = &s["sd"];
    let b = crate::proj::bytes;
    let wrap = |x: Vec<u8>| [&(x.len() as u32).to_le_bytes()[..], &x].concat();
    let mut l = vec![];
    for e in crate::proj::arr(&d["digests"]["items"]) { l.extend(wrap([b(&e["alg"]), wrap(b(&e["data"]))].concat())); }
    out.extend(wrap(l));
    let mut l = vec![];
    for e in crate::proj::arr(&d["certs"]["items"]) { l.extend(wrap(b(&e["data"]))); }
    out.extend(wrap(l));
    let mut l = vec![];
    for e in crate::proj::arr(&d["attrs"]["items"]) { l.extend(wrap([b(&e["id"]), b(&e["data"])].concat())); }
    out.extend(wrap(l));
    out.resize((d["size"].as_u64().unwrap_or(0) as usize).max(out.len()), 0);
    out
}

/// ECDSA over the hash of the data, as the format defines it
pub fn sig_ok(alg: u32, key: &[u8], data: &[u8], sig: &[u8]) -> bool {
    let h = crate::zipm::hash(alg, data);
    match alg {
        0x201 => {
            use p256::ecdsa::signature::Verifier;
            use p256::pkcs8::DecodePublicKey;
            let (Ok(k), Ok(s)) = (p256::ecdsa::VerifyingKey::from_public_key_der(key), p256::ecdsa::Signature::from_der(sig)) else { return false };
            k.verify(&h, &s).is_ok()
        }
        0x202 => {
            use p384::ecdsa::signature::Verifier;
            use p384::pkcs8::DecodePublicKey;
            let (Ok(k), Ok(s)) = (p384::ecdsa::VerifyingKey::from_public_key_der(key), p384::ecdsa::Signature::from_der(sig)) else { return false };
            k.verify(&h, &s).is_ok()
        }
        _ => false,
    }
}
pub fn cert_key(der: &[u8]) -> Option<Vec<u8>> {
    use x509_cert::der::{Decode, Encode};
    x509_cert::Certificate::from_der(der).ok()?.tbs_certificate.subject_public_key_info.to_der().ok()
}

// ---- fixtures ----
pub fn fixture(name: &str) -> Vec<u8> {
    static C: OnceLock<Mutex<HashMap<String, Vec<u8>>>> = OnceLock::new();
    let c = C.get_or_init(Default::default);
    c.lock().unwrap().entry(name.to_string()).or_insert_with(|| {
        let p = PathBuf::from(std::env::var("VERIF_FIXTURES").expect("VERIF_FIXTURES")).join(name);
        std::fs::read(&p).unwrap_or_else(|e| { eprintln!("{}: {e}", p.display()); std::process::exit(2) })
    }).clone()
}
pub fn cert_of(name: &str) -> Vec<u8> { fixture(&format!("{name}.der")) }
pub fn pub_of(key: &str) -> Vec<u8> { fixture(&format!("{key}.pub.der")) }
pub fn key_of(key: &str) -> ksusig::signing_block::algorithms::PrivateKey {
    use ksusig::signing_block::algorithms::PrivateKey;
    let pem = String::from_utf8(fixture(&format!("{key}.key"))).unwrap();
    if key.contains("256") {
        use p256::pkcs8::DecodePrivateKey;
        PrivateKey::EcdsaP256(p256::ecdsa::SigningKey::from_pkcs8_pem(&pem).expect("fixture key"))
    } else {
        use p384::pkcs8::DecodePrivateKey;
        PrivateKey::EcdsaP384(p384::ecdsa::SigningKey::from_pkcs8_pem(&pem).expect("fixture key"))
    }
}
pub fn alg_of(key: &str) -> u32 { if key.contains("256") { 0x201 } else { 0x202 } }
