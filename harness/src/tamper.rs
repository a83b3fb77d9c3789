//! A signed module and an attacker changing its bytes.
use crate::hist::{digest_of, digests, module, with_block, Plain};
use crate::proj::{self, arr};
use crate::zipm::{eocd, int, scratch_file, yes};
use crate::{guarded, own, Report};
use ksusig::signer::ModuleSigner;
use ksusig::{Algorithms, Module, ModuleSignerConfig, Signable};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};

type Spans = Vec<(String, usize, usize)>;
pub struct Signed { pub p: Plain, pub file: Vec<u8>, pub n: usize, pub spans: Spans, pub stored: Vec<(u32, Vec<u8>)> }

/// where every element of a block lies (relative to its start)
pub fn spans(b: &[u8]) -> Spans {
    let mut out: Spans = vec![("size1".into(), 0, 8), ("size2".into(), b.len() - 24, b.len() - 16), ("magic".into(), b.len() - 16, b.len())];
    let u = |at: usize| u32::from_le_bytes(b[at..at + 4].try_into().unwrap()) as usize;
    let mut at = 8;
    while at < b.len() - 24 {
        let n = u64::from_le_bytes(b[at..at + 8].try_into().unwrap()) as usize;
        out.push(("psize".into(), at, at + 8));
        out.push(("pid".into(), at + 8, at + 12));
        let (mut q, end) = (at + 12, at + 8 + n);
        match u(at + 8) as u32 {
            0x7109_871a => {
                out.push(("v2len".into(), q, q + 4));
                let stop = q + 4 + u(q);
                q += 4;
                while q < stop { signer(b, q, "v2", &mut out); q += 4 + u(q); }
            }
            0x6dff_800d => signer(b, q, "stamp", &mut out),
            _ => out.push(("padding".into(), q, end)),
        }
        at = end;
    }
    out
}
fn signer(b: &[u8], at: usize, k: &str, out: &mut Spans) {
    let u = |at: usize| u32::from_le_bytes(b[at..at + 4].try_into().unwrap()) as usize;
    let mut add = |n: &str, a: usize, z: usize| out.push((format!("{k}.{n}"), a, z));
    add("signerlen", at, at + 4);
    let mut q = at + 4;
    add("sdlen", q, q + 4);
    let sd_end = q + 4 + u(q);
    q += 4;
    for name in ["digest", "cert", "attr"] {
        let len = format!("{name}len");
        add(&len, q, q + 4);
        let stop = q + 4 + u(q);
        q += 4;
        while q < stop {
            let e = q + 4 + u(q);
            add(&len, q, q + 4);
            match name {
                "digest" => { add("digestalg", q + 4, q + 8); add(&len, q + 8, q + 12); add(name, q + 12, e) }
                _ => add(name, q + 4, e),
            }
            q = e;
        }
    }
    add("sdzero", q, sd_end);
    q = sd_end;
    add("siglen", q, q + 4);
    let stop = q + 4 + u(q);
    q += 4;
    while q < stop {
        let e = q + 4 + u(q);
        add("siglen", q, q + 4);
        add("sigalg", q + 4, q + 8);
        add("siglen", q + 8, q + 12);
        add("sig", q + 12, e);
        q = e;
    }
    add("keylen", q, q + 4);
    add("key", q + 4, q + 4 + u(q));
}
pub fn signed(form: i64, sign: &str) -> Arc<Signed> {
    static C: OnceLock<Mutex<HashMap<(i64, String), Arc<Signed>>>> = OnceLock::new();
    if let Some(x) = C.get_or_init(Default::default).lock().unwrap().get(&(form, sign.to_string())) { return x.clone(); }
    let p = module(form, 0);
    let path = scratch_file("tosign");
    std::fs::write(&path, &p.bytes).expect("scratch file");
    let cf = |k: &str, cert: &str, chain: &[&str]| ModuleSignerConfig::with_cert_chain(own::key_of(k), own::cert_of(cert), Algorithms::from(own::alg_of(k)), chain.iter().map(|c| own::cert_of(c)).collect());
    let s = match sign {
        "v2" | "v2pad" => ModuleSigner::v2_only(cf("a256", "a256_rootA", &[])),
        "chain" => ModuleSigner::v2_only(cf("b384", "b384_interA2", &["interA2", "interA"])),
        "both" => ModuleSigner::with_source_stamp(cf("a384", "a384_rootA", &[]), cf("b256", "b256_rootA", &[])),
        _ => ModuleSigner::stamp_only(cf("a256", "a256_rootA", &[])),
    }.padding_enabled(sign == "v2pad").timestamp_enabled(true);
    let m = Module::new(path.clone()).expect("module");
    let b = s.sign(digests(&m, &s).expect("digests")).expect("signing").to_u8();
    let file = with_block(&p, &b);
    let mut sp = spans(&b);
    for x in &mut sp { x.1 += p.cd; x.2 += p.cd; }
    let (n, e, l) = (b.len(), p.eocd + b.len(), file.len());
    let cl = u16::from_le_bytes(file[e + 20..e + 22].try_into().unwrap()) as usize;
    for (k, a, z) in [("entries", 0, p.cd), ("cd", p.cd + n, e), ("eocd.sig", e, e + 4), ("eocd.fields", e + 4, e + 16), ("eocd.cdoff", e + 16, e + 20), ("eocd.clen", e + 20, e + 22), ("comment", e + 22, e + 22 + cl), ("trailing", e + 22 + cl, l)] { sp.push((k.into(), a, z)); }
    let stored = vec![(0x201, digest_of(&p, 0x201)), (0x202, digest_of(&p, 0x202))];
    let x = Arc::new(Signed { p, file, n, spans: sp, stored });
    C.get().unwrap().lock().unwrap().insert((form, sign.to_string()), x.clone());
    x
}

/// is this signer (as the library read it) good for a file with these digests
pub fn signer_good(s: &Value, dig: &[(u32, Option<Vec<u8>>)]) -> bool {
    let b = proj::bytes;
    let key = b(&s["key"]["data"]);
    let sigs = arr(&s["sigs"]["items"]);
    let sd = own::signed_data(s);
    !sigs.is_empty() && sigs.iter().all(|g| {
        let a = proj::id(&g["alg"]);
        let d = arr(&s["sd"]["digests"]["items"]).iter().find(|d| proj::id(&d["alg"]) == a).map(|d| b(&d["data"]));
        d.is_some() && dig.iter().any(|(x, v)| *x == a && *v == d) && Algorithms::from(a).verify(&key, &sd, &b(&g["data"])).is_ok()
    }) && arr(&s["sd"]["certs"]["items"]).first().and_then(|c| own::cert_key(&b(&c["data"]))) == Some(key)
}
pub struct View { pub found: bool, pub v2: bool, pub stamp: bool, pub dig: Vec<(u32, Option<Vec<u8>>)>, pub verdict: Option<bool> }
/// what the library makes of a file
pub fn look(file: &[u8]) -> View {
    let path = scratch_file("tampered");
    std::fs::write(&path, file).expect("scratch file");
    let mut v = View { found: false, v2: false, stamp: false, dig: vec![(0x201, None), (0x202, None)], verdict: None };
    let Ok(m) = Module::new(path) else { return v };
    for d in &mut v.dig { d.1 = m.digest(&Algorithms::from(d.0)).ok(); }
    let blk = match Signable::get_signing_block(&m) { Ok(Some(b)) => b, _ => { verdict(&m, &mut v); return v } };
    v.found = true;
    let (mut v2s, mut stamps) = (vec![], vec![]);
    for x in arr(&proj::block(&blk)["content"]) {
        match x["t"].as_str().unwrap_or("") { "v2" => v2s.extend(arr(&x["signers"]).iter().cloned()), "stamp" => stamps.push(x["signer"].clone()), _ => {} }
    }
    v.v2 = !v2s.is_empty() && v2s.iter().all(|s| signer_good(s, &v.dig));
    v.stamp = !stamps.is_empty() && stamps.iter().all(|s| signer_good(s, &v.dig));
    verdict(&m, &mut v);
    v
}
#[cfg(feature = "verify")]
fn verdict(m: &Module, v: &mut View) { v.verdict = Some(m.verify_with_roots(crate::verif::roots(&["rootA"])).is_valid()); }
#[cfg(not(feature = "verify"))]
fn verdict(_: &Module, _: &mut View) {}

fn judge(r: &mut Report, c: &Value, s: &Signed, file: &[u8], at: &str) -> bool {
    if file == s.file { return true; }
    r.hit("changed files");
    let v = match guarded(|| look(file)) { Ok(v) => v, Err(p) => { r.bad("panic", format!("{at}: {p}")); return false } };
    let mut ok = true;
    let mut no = |r: &mut Report, kind, what: String| { ok = false; r.bad(kind, what) };
    if yes(&c["content"]) {
        for (a, d) in &v.dig {
            if s.stored.iter().any(|(x, w)| x == a && Some(w) == d.as_ref()) { no(r, "content", format!("{at}: the digest {a:#x} of the changed file is still the stored one")); }
        }
        if v.v2 || v.stamp { no(r, "content", format!("{at}: a signature of the changed file still holds")); }
        if v.verdict == Some(true) { no(r, "verdict", format!("{at}: the changed file is reported valid")); }
    }
    if yes(&c["free"]) { return ok; }
    if v.found && !yes(&c["found"]) { no(r, "block", format!("{at}: a block is still found")); }
    for (k, got) in [("v2", v.v2), ("stamp", v.stamp)] {
        if got && !yes(&c[k]) { no(r, "signer", format!("{at}: the {k} signature still holds")); }
    }
    if v.verdict == Some(true) { no(r, "verdict", format!("{at}: the changed file is reported valid")); }
    ok
}
fn fix(s: &Signed, f: &mut [u8], at: usize, by: i64) {
    if at > s.p.cd + s.n || (at == s.p.cd + s.n && by < 0) { return; }
    let e = (s.p.eocd + s.n) as i64 + by + 16;
    let cd = (s.p.cd + s.n) as i64 + by;
    if e < 0 || e as usize + 4 > f.len() { return; }
    f[e as usize..e as usize + 4].copy_from_slice(&(cd as u32).to_le_bytes());
}
fn one(s: &Signed, f: &[u8], i: usize, op: &str, fx: bool) -> Vec<u8> {
    let mut f = f.to_vec();
    match op {
        "flip" => f[i] ^= 1 << ((i * 5) % 8),
        "zero" => f[i] = 0,
        "ones" => f[i] = 0xff,
        "insert" => { let x = if i % 2 == 0 { f.get(i).copied().unwrap_or(0) } else { 0 }; f.insert(i, x); if fx { fix(s, &mut f, i, 1) } }
        "delete" => { f.remove(i); if fx { fix(s, &mut f, i, -1) } }
        _ => panic!("case: {op}"),
    }
    f
}
pub fn tamper(c: &Value, r: &mut Report) {
    let s = signed(int(&c["form"]), c["sign"].as_str().unwrap_or(""));
    let ops = arr(&c["ops"]);
    let name = |o: &Value| (o["at"].as_str().unwrap_or("").to_string(), o["op"].as_str().unwrap_or("").to_string(), yes(&o["fix"]));
    let (at, op, fx) = name(&ops[0]);
    if at == "file" { return whole(c, r, &s, &op); }
    let places = |at: &str, ins: bool| -> Vec<usize> { s.spans.iter().filter(|x| x.0 == at).flat_map(|x| x.1..x.2.max(if ins { x.1 + 1 } else { x.1 })).collect() };
    let l = places(&at, op == "insert");
    if ops.len() > 1 {
        let all: Vec<(String, String, bool, Vec<usize>)> = ops.iter().map(|o| { let (at, op, fx) = name(o); let l = places(&at, false); (at, op, fx, l) }).collect();
        if all.iter().any(|x| x.3.is_empty()) { return; }
        for j in 0..4 {
            let mut f = s.file.clone();
            let mut what = String::new();
            for (q, (at, op, fx, l)) in all.iter().enumerate() {
                let i = l[(j * [7919, 104_729, 1_299_709][q % 3] + 3 + 2 * q) % l.len()];
                f = one(&s, &f, i, op, *fx);
                what += &format!("{op} at {i} ({at}) ");
            }
            if !judge(r, c, &s, &f, what.trim_end()) { return; }
        }
        return;
    }
    let step = if at == "padding" { 97 } else { 1 };
    // of a long component: its ends, both sides of every chunk boundary and some more places
    let l: Vec<usize> = if l.len() < 5000 || at == "padding" { l } else {
        let (n, mut q) = (l.len(), vec![0, 1, 2, l.len() - 3, l.len() - 2, l.len() - 1]);
        for k in 1..=n >> 20 { q.extend([(k << 20) - 1, k << 20]); }
        for k in 14..20 { q.extend([(1usize << k) - 1, 1 << k]); }
        q.extend((0..12).map(|k| (k * 2_654_435_761usize + 12_345) % n));
        q.into_iter().filter(|x| *x < n).map(|x| l[x]).collect()
    };
    for i in l.into_iter().step_by(step) {
        if !judge(r, c, &s, &one(&s, &s.file, i, &op, fx), &format!("{op} at byte {i} ({at})")) { return; }
    }
}
fn whole(c: &Value, r: &mut Report, s: &Signed, op: &str) {
    let (f, cd, n, e) = (&s.file, s.p.cd, s.n, s.p.eocd + s.n);
    let setcd = |mut f: Vec<u8>, e: usize, cd: usize| { f[e + 16..e + 20].copy_from_slice(&(cd as u32).to_le_bytes()); f };
    let block = &f[cd..cd + n];
    let files: Vec<(String, Vec<u8>)> = match op {
        "truncate" => (0..f.len()).map(|i| (format!("cut to {i}"), f[..i].to_vec())).collect(),
        "append" => [0u8, 0xff, b'P', 7].iter().flat_map(|x| [1usize, 2, 21, 22, 64, 4096].map(|k| (format!("{k} times {x} appended"), [&f[..], &vec![*x; k]].concat()))).collect(),
        "prepend" => [1usize, 2, 100].iter().map(|k| (format!("{k} bytes in front"), setcd([&vec![0; *k], &f[..]].concat(), e + k, cd + n + k))).collect(),
        "zeros" => [1usize, 5].iter().map(|k| { let mut g = f.clone(); let l = u16::from_le_bytes(g[e + 20..e + 22].try_into().unwrap()) + *k as u16; g[e + 20..e + 22].copy_from_slice(&l.to_le_bytes()); g.splice(e + 22..e + 22, vec![0; *k]); (format!("comment grown by {k}"), g) }).collect(),
        "record" => [(cd + n) as u32, 0, cd as u32].iter().map(|x| (format!("second end record, offset {x}"), [&f[..], &eocd(*x, 0, 0)].concat())).chain([("copy of the end record".to_string(), [&f[..], &f[e..]].concat())]).collect(),
        "relocate" => (0..=s.p.eocd).filter(|p| *p != cd).map(|p| (format!("block moved to {p}"), with_block(&Plain { bytes: s.p.bytes.clone(), cd: p, eocd: s.p.eocd }, block))).collect(),
        "twice" => vec![("block twice".into(), setcd([&f[..cd], block, block, &f[cd + n..]].concat(), e + n, cd + 2 * n))],
        "exchange" => (0..f.len() - 1).filter(|i| (*i < cd - 1.min(cd) || *i >= cd + n) && f[*i] != f[i + 1]).map(|i| { let mut g = f.clone(); g.swap(i, i + 1); (format!("bytes {i} and {} exchanged", i + 1), g) }).collect(),
        "transplant" => (1..4).map(|v| { let p = module(int(&c["form"]), [1, 10, 11][v - 1]); (format!("block put into another module ({v})"), with_block(&p, block)) }).collect(),
        "swapeocd" => { let (a, b) = (&s.p.bytes[..cd], &s.p.bytes[cd..s.p.eocd]); vec![("entries and central directory exchanged".into(), with_block(&Plain { bytes: [b, a, &s.p.bytes[s.p.eocd..]].concat(), cd: b.len(), eocd: s.p.eocd }, block)), ("central directory taken into the entries".into(), with_block(&Plain { bytes: s.p.bytes.clone(), cd: s.p.eocd, eocd: s.p.eocd }, block))] }
        _ => panic!("case: {op}"),
    };
    for (what, g) in files {
        // a file that happens to be a proper signed one again is none of our business
        if !judge(r, c, s, &g, &what) { return; }
    }
    let _ = json!(0);
}
