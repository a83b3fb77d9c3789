//! Histories of one module file.
use crate::proj::{self, arr};
use crate::zipm::{eocd, fill, first_diff, int, plan_digest, scratch_file, us, yes};
use crate::{guarded, own, Report};
use ksusig::common::{Digest, Digests};
use ksusig::signer::ModuleSigner;
use ksusig::{Algorithms, Module, ModuleSignerConfig, RawData, Signable, SigningBlock, ValueSigningBlock, MAGIC};
use serde_json::{json, Value};
use std::path::Path;

/// an unsigned module and its content/central directory/end record boundaries
pub struct Plain { pub bytes: Vec<u8>, pub cd: usize, pub eocd: usize }
pub fn module(form: i64, ver: i64) -> Plain {
    let (e, g) = (ver % 10, 7 * (ver / 10));
    let mut entries = match form {
        1 => fill(1 + e, 0, 100 + g),
        2 => fill(1 + e, 0, g),
        3 => [fill(1 + e, 0, 30 + g), MAGIC.to_vec(), fill(2, 0, 5)].concat(),
        4 => [b"PK\x03\x04".to_vec(), fill(3 + e, 0, 300 + g)].concat(),
        // large: several chunks of entries and of central directory, the longest comment
        6 => [b"PK\x03\x04".to_vec(), fill(3 + e, 0, (2 << 20) + 77 + g)].concat(),
        _ => [fill(1 + e, 0, 10), eocd(3, 0, 0), fill(2, 0, 40 + g)].concat(),
    };
    let cd = entries.len();
    entries.extend(fill(4, 0, match form { 2 => 46 + e, 6 => (1 << 20) + 9, _ => 46 }));
    let at = entries.len();
    match form {
        3 => { entries.extend(eocd(cd as u32, 5, 1)); entries.extend(b"hello"); }
        4 => { entries.extend(eocd(cd as u32, 0, 0)); entries.extend(fill(6, 0, 9)); }
        6 => { entries.extend(eocd(cd as u32, 65535, 3)); entries.extend(fill(6, 0, 65535)); }
        5 => { entries.extend(eocd(cd as u32, 40, 0)); entries.extend(fill(5, 0, 10)); entries.extend(eocd(2, 9, 1)); entries.extend(fill(5, 0, 8)); }
        _ => entries.extend(eocd(cd as u32, 0, 0)),
    }
    Plain { bytes: entries, cd, eocd: at }
}
pub fn digest_of(p: &Plain, alg: u32) -> Vec<u8> {
    let part = |a: usize, b: usize| (a..b).step_by(1 << 20).map(|x| json!({"from": x, "n": (b - x).min(1 << 20)})).collect::<Vec<_>>();
    let chunks = [part(0, p.cd), part(p.cd, p.eocd), part(p.eocd, p.bytes.len())].concat();
    plan_digest(&p.bytes, &json!({"mask": p.cd, "chunks": chunks}), Some(p.eocd), alg)
}
pub fn with_block(p: &Plain, b: &[u8]) -> Vec<u8> {
    let mut out = [&p.bytes[..p.cd], b, &p.bytes[p.cd..]].concat();
    let e = p.eocd + b.len() + 16;
    out[e..e + 4].copy_from_slice(&((p.cd + b.len()) as u32).to_le_bytes());
    out
}
pub fn cfg(c: &Value) -> ModuleSignerConfig {
    let k = c["key"].as_str().unwrap_or("");
    ModuleSignerConfig::with_cert_chain(own::key_of(k), own::cert_of(c["cert"].as_str().unwrap_or("")), Algorithms::from(own::alg_of(k)),
        arr(&c["chain"]).iter().map(|x| own::cert_of(x.as_str().unwrap_or(""))).collect())
}
pub fn digests(m: &Module, s: &ModuleSigner) -> Result<Digests, String> {
    let mut l = vec![];
    for a in s.required_algorithms() { l.push(Digest::new(a.clone(), m.digest(&a).map_err(|e| e.to_string())?)); }
    Ok(Digests::new(l))
}
fn es<T, E: std::fmt::Display>(r: Result<T, E>) -> Result<T, String> { r.map_err(|e| e.to_string()) }

/// performs one operation of the code; Ok: the new file
pub fn step(path: &Path, o: &Value) -> Result<Vec<u8>, String> {
    let op = o["op"].as_str().unwrap_or("");
    let mut m = es(Module::new(path.to_path_buf()))?;
    let (pad, ts) = (yes(&o["pad"]), yes(&o["ts"]));
    let set = |s: ModuleSigner| s.padding_enabled(pad).timestamp_enabled(ts);
    let put = |m: &Module, b: &SigningBlock| { let mut v = vec![]; es(Signable::write_with_signature(m, &mut v, b))?; Ok::<_, String>(v) };
    match op {
        "v2" | "both" | "stamp" => {
            let s = set(match op { "v2" => ModuleSigner::v2_only(cfg(&o["c"])), "stamp" => ModuleSigner::stamp_only(cfg(&o["c"])), _ => ModuleSigner::with_source_stamp(cfg(&o["c"]), cfg(&o["d"])) });
            let b = s.sign(digests(&m, &s)?)?;
            put(&m, &b)
        }
        "object" => {
            let k = o["c"]["key"].as_str().unwrap_or("");
            es(m.sign_v2(&Algorithms::from(own::alg_of(k)), &own::cert_of(o["c"]["cert"].as_str().unwrap_or("")), &own::key_of(k)))?;
            let mut v = vec![];
            es(m.write_with_signature(&mut v))?;
            Ok(v)
        }
        "add" => {
            let s = set(ModuleSigner::stamp_only(cfg(&o["c"])));
            let b = s.add_source_stamp(es(m.get_signing_block())?, digests(&m, &s)?)?;
            put(&m, &b)
        }
        "raw" => {
            let mut c: Vec<_> = es(m.get_signing_block())?.content.into_iter().filter(|x| x.id() != own::PAD_ID).collect();
            if yes(&o["front"]) { c.insert(0, ValueSigningBlock::BaseSigningBlock(RawData::new(81, fill(9, 0, 5)))) } else { c.push(ValueSigningBlock::BaseSigningBlock(RawData::new(82, vec![]))) }
            let b = es(if pad { SigningBlock::new_with_padding(c) } else { SigningBlock::new(c) })?;
            put(&m, &b)
        }
        "strip" => es(m.get_raw_module()),
        _ => panic!("case: operation {op}"),
    }
}
/// compares a signer (own parser) with the specification's sub-block; `content`: unsigned file per version
fn judge_signer(r: &mut Report, tag: &str, s: &Value, x: &Value, dig: &Digester, time: (u64, u64)) {
    let b = proj::bytes;
    let want: Vec<(u32, Vec<u8>)> = arr(&x["digs"]).iter().map(|d| { let a = int(&d["alg"]) as u32; (a, dig(a, int(&d["ver"]))) }).collect();
    let got: Vec<(u32, Vec<u8>)> = arr(&s["sd"]["digests"]["items"]).iter().map(|d| (proj::id(&d["alg"]), b(&d["data"]))).collect();
    r.check(got == want, "digest", || format!("{tag}: stored digests are not those of the content ({} instead of {})", got.len(), want.len()));
    let want: Vec<Vec<u8>> = arr(&x["certs"]).iter().map(|c| own::cert_of(c.as_str().unwrap_or(""))).collect();
    let got: Vec<Vec<u8>> = arr(&s["sd"]["certs"]["items"]).iter().map(|d| b(&d["data"])).collect();
    r.check(got == want, "certs", || format!("{tag}: certificates differ ({} instead of {})", got.len(), want.len()));
    let attrs: Vec<(u32, Vec<u8>)> = arr(&s["sd"]["attrs"]["items"]).iter().map(|d| (proj::id(&d["id"]), b(&d["data"]))).collect();
    let ts_ok = if yes(&x["ts"]) {
        attrs.len() == 1 && attrs[0].0 == 0xe43c_5946 && attrs[0].1.len() == 8 && { let t = u64::from_le_bytes(attrs[0].1[..].try_into().unwrap()); time.0 <= t && t <= time.1 }
    } else { attrs.is_empty() };
    r.check(ts_ok, "attrs", || format!("{tag}: attributes {attrs:?}, timestamp expected: {}", x["ts"]));
    let key = b(&s["key"]["data"]);
    let k = x["key"].as_str().unwrap_or("");
    r.check(key == own::pub_of(k), "key", || format!("{tag}: public key is not that of {k}"));
    r.check(arr(&s["sd"]["certs"]["items"]).first().and_then(|c| own::cert_key(&b(&c["data"]))) == Some(key.clone()), "key", || format!("{tag}: the certificate holds another key"));
    let sigs: Vec<(u32, Vec<u8>)> = arr(&s["sigs"]["items"]).iter().map(|d| (proj::id(&d["alg"]), b(&d["data"]))).collect();
    r.check(sigs.len() == 1 && sigs[0].0 as i64 == int(&x["alg"]), "signature", || format!("{tag}: {} signatures", sigs.len()));
    let sd = own::signed_data(s);
    for (a, sig) in &sigs {
        r.check(own::sig_ok(*a, &key, &sd, sig), "signature", || format!("{tag}: the signature does not verify"));
        let g = guarded(|| Algorithms::from(*a).verify(&key, &sd, sig));
        r.check(matches!(g, Ok(Ok(()))), "verify", || format!("{tag}: the library does not verify the signature: {g:?}"));
    }
}
/// the digest of a version of the content
pub type Digester<'a> = dyn Fn(u32, i64) -> Vec<u8> + 'a;
pub fn judge_subs(r: &mut Report, got: &[Value], want: &[Value], dig: &Digester, time: (u64, u64)) {
    let kinds = |l: &[Value]| l.iter().map(|x| x["t"].as_str().unwrap_or("").to_string()).collect::<Vec<_>>();
    if kinds(got) != kinds(want) { return r.bad("order", format!("sub-blocks {:?} instead of {:?}", kinds(got), kinds(want))); }
    for (g, w) in got.iter().zip(want) {
        match w["t"].as_str().unwrap_or("") {
            "v2" => { r.check(arr(&g["signers"]).len() == 1, "signature", || "number of signers".into()); for s in arr(&g["signers"]) { judge_signer(r, "signature scheme", s, w, dig, time); } }
            "stamp" => judge_signer(r, "source stamp", &g["signer"], w, dig, time),
            "elf" => {
                let le8 = |v: &Value| proj::bytes(v).iter().rev().fold(0u64, |a, b| a << 8 | u64::from(*b));
                let got: Vec<_> = arr(&g["entries"]).iter().map(|e| (proj::bytes(&e["name"]), le8(&e["off"]), le8(&e["len"]))).collect();
                let want: Vec<_> = arr(&w["regs"]).iter().map(|e| (e["name"].as_str().unwrap_or("").as_bytes().to_vec(), int(&e["off"]) as u64, int(&e["size"]) as u64)).collect();
                r.check(got == want, "sections", || format!("section info {got:?} instead of {want:?}"));
            }
            _ => r.check(proj::id(&g["id"]) as i64 == int(&w["id"]) && proj::bytes(&g["data"]) == fill(9, 0, int(&w["n"])), "order", || "a foreign sub-block changed".into()),
        }
    }
}
/// judges the padding of a block of n bytes and returns its other sub-blocks
pub fn unpadded(r: &mut Report, v: &Value, n: usize, pad: bool) -> Vec<Value> {
    let mut content = arr(&v["content"]).to_vec();
    let pads = content.iter().filter(|x| x["t"] == json!("raw") && proj::id(&x["id"]) == own::PAD_ID).count();
    if pad {
        r.check(n % 4096 == 0, "padding", || format!("padded block of {n} bytes"));
        r.check(pads <= 1, "padding", || format!("{pads} padding sub-blocks"));
        if pads > 0 {
            let l = content.pop().unwrap();
            r.check(l["t"] == json!("raw") && proj::id(&l["id"]) == own::PAD_ID && proj::bytes(&l["data"]).iter().all(|x| *x == 0), "padding", || "the last sub-block is not zero padding".into());
        }
    } else { r.check(pads == 0, "padding", || "padding although disabled".into()); }
    content
}
pub fn now() -> u64 { std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() }

pub fn hist(c: &Value, r: &mut Report) {
    let form = int(&c["form"]);
    let path = scratch_file("hist");
    let ops = arr(&c["hist"]);
    let mut ver = 0;
    let mut file = module(form, 0).bytes;
    let t0 = now();
    let refused = c["st"] == json!("refused");
    for (i, o) in ops.iter().enumerate() {
        let last = i + 1 == ops.len();
        let op = o["op"].as_str().unwrap_or("");
        match op {
            "edit" | "regrow" => {
                // the owner of the file edits its content and keeps whatever block it has
                let (p, n) = (module(form, ver), file.len() - module(form, ver).bytes.len());
                let b = file[p.cd..p.cd + n].to_vec();
                ver += if op == "edit" { 1 } else { 10 };
                let q = module(form, ver);
                file = if n == 0 { q.bytes } else { with_block(&q, &b) };
            }
            "corrupt" => {
                let p = module(form, ver);
                let n = file.len() - p.bytes.len();
                file[p.cd + n - 24] ^= 4;
            }
            _ => {
                std::fs::write(&path, &file).expect("scratch file");
                let g = guarded(|| step(&path, o));
                r.check(std::fs::read(&path).ok().as_deref() == Some(&file[..]), "input", || format!("{op}: the file on disk was changed"));
                match g {
                    Err(p) => return r.bad("panic", format!("{op}: {p}")),
                    Ok(Err(e)) if last && refused => { r.hit("refused"); let _ = e; }
                    Ok(Err(e)) => return r.bad("refuse", format!("step {} ({op}) failed: {e}", i + 1)),
                    Ok(Ok(f)) => {
                        if last && refused { return r.bad("corrupt", format!("{op} succeeded on a corrupt block")); }
                        file = f;
                    }
                }
            }
        }
        if last { r.hit(format!("op:{op}")); }
    }
    if refused || c["st"] == json!("corrupt") {
        std::fs::write(&path, &file).expect("scratch file");
        let g = guarded(|| Module::new(path.clone()).map(|m| (m.get_signing_block().is_err(), Signable::get_signing_block(&m).is_err(), m.get_offsets().is_err(), m.get_raw_module().is_err())));
        r.check(matches!(g, Ok(Ok((true, true, true, true)))), "corrupt", || format!("a corrupt block is not reported: {g:?}"));
        return;
    }
    // the file: the unsigned content and exactly one block before the central directory
    let p = module(form, ver);
    if file.len() < p.bytes.len() { return r.bad("file", format!("{} bytes, the content alone has {}", file.len(), p.bytes.len())); }
    let n = file.len() - p.bytes.len();
    let b = &file[p.cd..p.cd + n];
    let want = if n == 0 { p.bytes.clone() } else { with_block(&p, b) };
    r.check(file == want, "file", || format!("not the content with one block: {}", first_diff(&file, &want)));
    r.check((n > 0) == yes(&c["signed"]), "file", || format!("{n} bytes of signing block"));
    if n == 0 || file != want { return; }
    let v = match own::block(b) { Ok(v) => v, Err(e) => return r.bad("file", format!("between content and central directory is no block: {e}")) };
    let content = unpadded(r, &v, n, yes(&c["pad"]));
    judge_subs(r, &content, arr(&c["subs"]), &|a, v| digest_of(&module(form, v), a), (t0, now()));
    // what the library makes of it
    std::fs::write(&path, &file).expect("scratch file");
    match guarded(|| Module::new(path.clone()).and_then(|m| Ok((m.get_signing_block()?, m.get_raw_module()?, m.digest(&Algorithms::from(0x201))?, m.digest(&Algorithms::from(0x202))?)))) {
        Err(x) => r.bad("panic", x),
        Ok(Err(x)) => r.bad("reread", format!("the produced file cannot be read: {x}")),
        Ok(Ok((blk, raw, d1, d2))) => {
            r.check(proj::block(&blk) == v, "reread", || "the library reads another block".into());
            r.check(blk.file_offset_start == p.cd && blk.file_offset_end == p.cd + n, "reread", || "block offsets".into());
            r.check(raw == p.bytes, "strip", || format!("raw module: {}", first_diff(&raw, &p.bytes)));
            r.check(d1 == digest_of(&p, 0x201) && d2 == digest_of(&p, 0x202), "digest", || "digest of the produced file".into());
        }
    }
    #[cfg(feature = "verify")]
    {
        let g = guarded(|| Module::new(path.clone()).map(|m| m.verify_with_roots(crate::verif::roots(&["rootA"]))));
        match g {
            Ok(Ok(x)) => {
                let has = |t: &str| arr(&c["subs"]).iter().any(|s| s["t"] == json!(t));
                r.check(x.is_valid() == yes(&c["valid"]), "verdict", || format!("verification says {}: {:?} {:?}", x.is_valid(), x.v2.as_ref().err(), x.source_stamp.as_ref().err()));
                r.check(x.has_v2() == has("v2") && x.has_source_stamp() == has("stamp"), "verdict", || "presence of the signatures".into());
                r.hit(format!("verdict:{}", x.is_valid()));
            }
            Ok(Err(e)) => r.bad("verdict", e.to_string()),
            Err(p) => r.bad("panic", p),
        }
    }
    let _ = us;
}
