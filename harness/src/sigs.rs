//! Algorithms and signers.
use crate::hist::now;
use crate::proj::{self, arr};
use crate::zipm::{fill, int, yes};
use crate::{guarded, own, Report};
use ksusig::common::{Certificate, Digest, Digests};
use ksusig::signing_block::elf_section_info::{ElfSectionInfo, SectionEntry};
use ksusig::{Algorithms, ModuleSigner, ModuleSignerConfig, NewSourceStampSigner, RawData, SigningBlock, SourceStampSigner, SourceStampSignerBuilder, SourceStampSignerConfig, V2Signer, ValueSigningBlock};
use serde_json::{json, Value};
use sha2::Digest as _;

pub fn data(name: &str) -> Vec<u8> {
    match name {
        "empty" => vec![],
        "one" => vec![7],
        "one'" => vec![6],
        // the hash of another string is another string
        "hash256" => sha2::Sha256::digest([7]).to_vec(),
        "hash512" => sha2::Sha512::digest([7]).to_vec(),
        "long" => fill(3, 0, 5000),
        _ => { let mut v = fill(3, 0, 5000); v[4999] ^= 1; v }
    }
}
fn pub_bytes(p: &str) -> Vec<u8> {
    match p {
        "none" => vec![],
        "garbage" => fill(1, 0, 91),
        "short" => { let mut v = own::pub_of("a256"); v.pop(); v }
        "longer" => { let mut v = own::pub_of("a256"); v.push(0); v }
        k => own::pub_of(k),
    }
}
/// the numbers r and s of a DER signature, at full length
fn rs(sig: &[u8], a: u32) -> [Vec<u8>; 2] {
    let n = if a == 513 { 32 } else { 48 };
    let cut = |x: &[u8]| { let x = if x.len() > n { &x[x.len() - n..] } else { x }; [&vec![0; n - x.len()][..], x].concat() };
    let l = sig[3] as usize;
    [cut(&sig[4..4 + l]), cut(&sig[6 + l..])]
}
pub fn alg(c: &Value, r: &mut Report) {
    let (s, v) = (&c["s"], &c["v"]);
    let (k, d) = (s["key"].as_str().unwrap_or(""), data(s["data"].as_str().unwrap_or("")));
    let a = int(&s["alg"]) as u32;
    let sig = match guarded(|| Algorithms::from(a).sign(&own::key_of(k), &d)) {
        Err(p) => return r.bad("panic", format!("sign: {p}")),
        Ok(Err(e)) => { r.check(!yes(&c["signs"]), "sign", || format!("{k} with {a:#x} does not sign: {e}")); r.hit("no signature"); return; }
        Ok(Ok(x)) => x,
    };
    if !yes(&c["signs"]) { return r.bad("sign", format!("{k} signs with algorithm {a:#x}")); }
    r.check(own::sig_ok(a, &own::pub_of(k), &d, &sig), "sign", || "the signature is not an ECDSA signature of the hash of the data".into());
    if !yes(&c["check"]) {
        // identifiers, hashes and fingerprints
        let h = Algorithms::from(a).hash(&d);
        r.check(h == crate::zipm::hash(a, &d), "hash", || format!("hash of {} bytes", d.len()));
        let ce = Certificate::new(d.clone());
        r.check(ce.sha256_cert() == sha2::Sha256::digest(&d).to_vec() && ce.sha1_cert() == sha1::Sha1::digest(&d).to_vec() && ce.md5_cert() == md5::compute(&d).to_vec(), "hash", || "certificate fingerprints".into());
        r.check(own::key_of(k).public_key_der().ok() == Some(own::pub_of(k)), "sign", || "public_key_der".into());
        return;
    }
    let fl = &v["flip"];
    let bad = match v["mut"].as_str().unwrap_or("") {
        "none" => sig.clone(),
        "empty" => vec![],
        "short" => sig[..sig.len() - 1].to_vec(),
        "longer" => [&sig[..], &[0]].concat(),
        "garbage" => fill(2, 0, sig.len() as i64),
        "double" => [&sig[..], &sig].concat(),
        // r and s exchanged
        "swapped" => { let n = sig[3] as usize; let (rr, ss) = (&sig[2..4 + n], &sig[4 + n..]); if rr == ss { return } [&sig[..2], ss, rr].concat() }
        // the two numbers without the DER structure around them
        "raw" => rs(&sig, a).concat(),
        // the same two numbers in other encodings: length in the long form, integers with a superfluous zero, swapped tags
        "longform" => [&[0x30, 0x81, sig[1]][..], &sig[2..]].concat(),
        "padded" => { let n = sig[3] as usize; [&[0x30, sig[1] + 1, 2, sig[3] + 1, 0][..], &sig[4..4 + n], &sig[4 + n..]].concat() }
        "set" => [&[0x31][..], &sig[1..]].concat(),
        "octets" => [&[4, sig.len() as u8][..], &sig].concat(),
        // numbers that no signature has
        "zeros" => vec![0x30, 6, 2, 1, 0, 2, 1, 0],
        "zero r" => { let n = sig[3] as usize; let s = &sig[4 + n..]; [&[0x30, 3 + s.len() as u8, 2, 1, 0][..], s].concat() }
        "zero s" => { let n = sig[3] as usize; let x = &sig[2..4 + n]; [&[0x30, 3 + x.len() as u8][..], x, &[2, 1, 0]].concat() }
        "ones" => vec![0x30, 6, 2, 1, 1, 2, 1, 1],
        "zero bytes" => vec![0; sig.len()],
        _ => { let i = int(&fl["i"]) as usize; if i >= sig.len() { return } let mut x = sig.clone(); x[i] ^= 1 << int(&fl["b"]); x }
    };
    let va = int(&v["alg"]) as u32;
    let vd = data(v["data"].as_str().unwrap_or(""));
    r.hit(format!("verify {}", c["ok"]));
    match guarded(|| Algorithms::from(va).verify(&pub_bytes(v["pub"].as_str().unwrap_or("")), &vd, &bad)) {
        Err(p) => r.bad("panic", format!("verify: {p}")),
        Ok(g) => r.check(g.is_ok() == yes(&c["ok"]), "verify", || format!("verify says {g:?}")),
    }
}
/// data of any length
pub fn algdata(c: &Value, r: &mut Report) {
    let (k, a, n) = (c["key"].as_str().unwrap_or(""), int(&c["alg"]) as u32, int(&c["n"]));
    let al = Algorithms::from(a);
    let d = fill(n % 7, n, n);
    let sig = match guarded(|| al.sign(&own::key_of(k), &d)) {
        Err(p) => return r.bad("panic", format!("sign: {p}")),
        Ok(Err(e)) => return r.bad("sign", format!("{n} bytes: {e}")),
        Ok(Ok(x)) => x,
    };
    r.hit(format!("signature of {} bytes", sig.len()));
    let mut e = d.clone();
    match c["change"].as_str().unwrap_or("") {
        "first" => e[0] ^= 1,
        "middle" => e[n as usize / 2] ^= 0x80,
        "last" => e[n as usize - 1] ^= 1,
        "drop" => { e.pop(); }
        "append" => e.push(0),
        "front" => e.insert(0, 0),
        _ => {
            r.check(own::sig_ok(a, &own::pub_of(k), &d, &sig), "sign", || format!("{n} bytes: not an ECDSA signature of the hash of the data"));
            r.check(al.hash(&d) == crate::zipm::hash(a, &d), "hash", || format!("hash of {n} bytes"));
            let ce = Certificate::new(d.clone());
            r.check(ce.sha256_cert() == sha2::Sha256::digest(&d).to_vec() && ce.sha1_cert() == sha1::Sha1::digest(&d).to_vec() && ce.md5_cert() == md5::compute(&d).to_vec(), "hash", || format!("fingerprints of {n} bytes"));
        }
    }
    match guarded(|| al.verify(&own::pub_of(k), &e, &sig)) {
        Err(p) => r.bad("panic", format!("verify: {p}")),
        Ok(g) => r.check(g.is_ok() == yes(&c["ok"]), "verify", || format!("{n} bytes, change {}: verify says {g:?}", c["change"])),
    }
}
/// algorithm identifiers
pub fn ids(c: &Value, r: &mut Report) {
    let (a, b) = (int(&c["from"]) as u32, int(&c["to"]) as u32);
    let step = int(&c["mul"]) as u32;
    for i in a..b {
        let i = i.wrapping_mul(step).wrapping_add(int(&c["add"]) as u32);
        let x = Algorithms::from(i);
        let known = match i { 0x201 => x == Algorithms::ECDSA_SHA2_256, 0x202 => x == Algorithms::ECDSA_SHA2_512, _ => x == Algorithms::Unknown(i) };
        if !known || u32::from(&x) != i || x.to_u32() != i || !(i == x) || i.wrapping_add(1) == x { r.bad("ids", format!("id {i:#x} becomes {x:?}, {:#x}", x.to_u32())); return; }
        if !matches!(i, 0x201 | 0x202) && !x.hash(b"x").is_empty() { r.bad("ids", format!("id {i:#x} has a hash")); return; }
    }
    r.hit("ids");
}

fn given(v: &Value) -> Vec<(u32, Vec<u8>)> { arr(v).iter().map(|d| { let t = int(&d["tag"]); (int(&d["alg"]) as u32, fill(t, 0, match t { 1 | 100 => 32, 2 | 101 => 64, 3 => 0, t if t >= 200 => t - 200, _ => 5 })) }).collect() }
fn mk(v: &[(u32, Vec<u8>)]) -> Digests { Digests::new(v.iter().map(|(a, d)| Digest::new(Algorithms::from(*a), d.clone())).collect()) }
fn pairs(v: &[(u32, Vec<u8>)]) -> Vec<(Algorithms, Vec<u8>)> { v.iter().map(|(a, d)| (Algorithms::from(*a), d.clone())).collect() }
fn conf(k: &str, a: u32, chain: &[Vec<u8>]) -> ModuleSignerConfig { conf_cert(k, a, own::cert_of(&format!("{k}_rootA")), chain) }
fn conf_cert(k: &str, a: u32, cert: Vec<u8>, chain: &[Vec<u8>]) -> ModuleSignerConfig {
    if chain.is_empty() { ModuleSignerConfig::new(own::key_of(k), cert, Algorithms::from(a)) }
    else { ModuleSignerConfig::with_cert_chain(own::key_of(k), cert, Algorithms::from(a), chain.to_vec()) }
}
/// a signer read by our own parser, compared with what it was told
fn told(r: &mut Report, s: &Value, k: &str, a: u32, g: &[(u32, Vec<u8>)], certs: &[Vec<u8>], ts: bool, t0: u64) {
    let b = proj::bytes;
    let l: Vec<(u32, Vec<u8>)> = arr(&s["sd"]["digests"]["items"]).iter().map(|d| (proj::id(&d["alg"]), b(&d["data"]))).collect();
    r.check(l == g, "digest", || "the digests are not the given ones in order".into());
    let l: Vec<Vec<u8>> = arr(&s["sd"]["certs"]["items"]).iter().map(|d| b(&d["data"])).collect();
    r.check(l == certs, "certs", || "the certificates are not the given ones in order".into());
    let l = arr(&s["sd"]["attrs"]["items"]);
    let ok = if ts { l.len() == 1 && proj::id(&l[0]["id"]) == 0xe43c_5946 && b(&l[0]["data"]).len() == 8 && { let t = u64::from_le_bytes(b(&l[0]["data"]).try_into().unwrap()); t0 <= t && t <= now() } } else { l.is_empty() };
    r.check(ok, "attrs", || format!("attributes {l:?}, timestamp: {ts}"));
    r.check(b(&s["key"]["data"]) == own::pub_of(k), "key", || "public key".into());
    let l = arr(&s["sigs"]["items"]);
    r.check(l.len() == 1 && proj::id(&l[0]["alg"]) == a && own::sig_ok(a, &own::pub_of(k), &own::signed_data(s), &b(&l[0]["data"])), "signature", || format!("{} signatures; not one valid one with {a:#x}", l.len()));
}
fn some_cert(v: &Value) -> Vec<u8> {
    match v.as_str().unwrap_or("") { "empty" => vec![], "junk" => fill(9, 0, 20), "zeros" => vec![0; 8], n => own::cert_of(n) }
}
pub fn signer(c: &Value, r: &mut Report) {
    let api = c["api"].as_str().unwrap_or("");
    r.hit(api.to_string());
    match api { "module" => return combined(c, r), "add" => return add(c, r), _ => {} }
    let (k, a, ts) = (c["key"].as_str().unwrap_or(""), int(&c["alg"]) as u32, yes(&c["ts"]));
    let g = given(&c["given"]);
    let chain: Vec<Vec<u8>> = arr(&c["chain"]).iter().map(some_cert).collect();
    let t0 = now();
    let one = || some_cert(&c["cert"]);
    let conf = |k: &str, a: u32, chain: &[Vec<u8>]| conf_cert(k, a, one(), chain);
    let al = || Algorithms::from(a);
    let res = guarded(|| -> Result<ValueSigningBlock, String> {
        Ok(match api {
            "v2" => ValueSigningBlock::SignatureSchemeV2Block(V2Signer::new(conf(k, a, &chain)).sign(mk(&g))?),
            "v2pairs" => ValueSigningBlock::SignatureSchemeV2Block(V2Signer::new(conf(k, a, &chain)).sign_with_digests(pairs(&g))?),
            "stamp" => ValueSigningBlock::SourceStampBlock(NewSourceStampSigner::with_timestamp(conf(k, a, &chain), ts).sign(mk(&g))?),
            "stamppairs" => ValueSigningBlock::SourceStampBlock(NewSourceStampSigner::with_timestamp(conf(k, a, &chain), ts).sign_with_digests(pairs(&g))?),
            "stampdefault" => ValueSigningBlock::SourceStampBlock(NewSourceStampSigner::new(conf(k, a, &chain)).sign(mk(&g))?),
            "old" => ValueSigningBlock::SourceStampBlock(SourceStampSigner::new(SourceStampSignerConfig::new(own::key_of(k), one(), al(), ts)).sign(mk(&g))?),
            "oldpairs" => ValueSigningBlock::SourceStampBlock(SourceStampSigner::new(SourceStampSignerConfig::new(own::key_of(k), one(), al(), ts)).sign_with_digests(pairs(&g))?),
            "builder" => ValueSigningBlock::SourceStampBlock(SourceStampSignerBuilder::new(own::key_of(k), one(), al()).timestamp_enabled(ts).build().sign(mk(&g))?),
            _ => ValueSigningBlock::SourceStampBlock(SourceStampSignerBuilder::new(own::key_of(k), one(), al()).build().sign(mk(&g))?),
        })
    });
    let b = match res {
        Err(p) => return r.bad("panic", p),
        Ok(Err(e)) => return r.check(!yes(&c["ok"]), "mismatch", || format!("{api}: {k} with {a:#x} does not sign: {e}")),
        Ok(Ok(b)) => b,
    };
    if !yes(&c["ok"]) { return r.bad("mismatch", format!("{api}: {k} signs with algorithm {a:#x}")); }
    let certs: Vec<Vec<u8>> = arr(&c["certs"]).iter().map(some_cert).collect();
    let raw = match SigningBlock::new(vec![b]) { Ok(x) => x.to_u8(), Err(e) => return r.bad("order", format!("{api}: {e}")) };
    let v = match own::block(&raw) { Ok(v) => v, Err(e) => return r.bad("order", format!("{api}: ill-formed block: {e}")) };
    let p = &v["content"][0];
    let s = if p["t"] == json!("v2") { if arr(&p["signers"]).len() != 1 { return r.bad("order", "number of signers"); } &p["signers"][0] } else { &p["signer"] };
    r.check((p["t"] == json!("v2")) == api.starts_with("v2"), "order", || "kind of sub-block".into());
    told(r, s, k, a, &g, &certs, yes(&c["stamped"]), t0);
}
/// content without padding, checking the padding
fn unpad(r: &mut Report, raw: &[u8], pad: bool) -> Vec<Value> {
    let v = match own::block(raw) { Ok(v) => v, Err(e) => { r.bad("order", format!("ill-formed block: {e}")); return vec![] } };
    let mut l = arr(&v["content"]).to_vec();
    let n = l.iter().filter(|x| proj::id(&x["id"]) == own::PAD_ID).count();
    if pad {
        r.check(raw.len() % 4096 == 0 && n <= 1, "padding", || format!("{} bytes, {n} padding sub-blocks", raw.len()));
        if n == 1 {
            let x = l.pop().unwrap();
            r.check(proj::id(&x["id"]) == own::PAD_ID && proj::bytes(&x["data"]).iter().all(|z| *z == 0), "padding", || "padding is not last or not zero".into());
        }
    } else { r.check(n == 0, "padding", || format!("{n} padding sub-blocks")); }
    l
}
/// may padding a block of n bytes be refused? (a new signature may be a few bytes shorter or longer)
fn no_room(n: usize) -> bool { (n.saturating_sub(4)..=n + 4).any(|n| (4085..4096).contains(&(n % 4096)) || n > 16384) }
fn combined(c: &Value, r: &mut Report) {
    let (v, s) = (c["v2"].as_str().unwrap_or(""), c["stamp"].as_str().unwrap_or(""));
    let g = given(&c["given"]);
    // a chain of its own for each of the two, where the case has them
    let chain_of = |w: &str| if c[w].is_array() { arr(&c[w]).iter().map(some_cert).collect() } else { vec![own::cert_of("interA2"), own::cert_of("interA")] };
    let (vchain, schain) = (chain_of("vchain"), chain_of("schain"));
    let cert_of = |k: &str, w: &str| if c[w].is_string() { some_cert(&c[w]) } else { own::cert_of(&format!("{k}_rootA")) };
    let (vcert, scert) = (if v.is_empty() { vec![] } else { cert_of(v, "vcert") }, if s.is_empty() { vec![] } else { cert_of(s, "scert") });
    let cf = |k: &str| conf_cert(k, own::alg_of(k), vcert.clone(), &vchain);
    let cs = |k: &str| conf_cert(k, own::alg_of(k), scert.clone(), &schain);
    let make = || match (v, s) { ("", s) => ModuleSigner::stamp_only(cs(s)), (v, "") => ModuleSigner::v2_only(cf(v)), (v, s) => ModuleSigner::with_source_stamp(cf(v), cs(s)) };
    let m = make();
    let m = if yes(&c["pad"]) && yes(&c["ts"]) { m } else { m.padding_enabled(yes(&c["pad"])).timestamp_enabled(yes(&c["ts"])) };
    let req: Vec<i64> = m.required_algorithms().iter().map(|a| a.to_u32() as i64).collect();
    r.check(json!(req) == c["req"], "required", || format!("required_algorithms {req:?} instead of {}", c["req"]));
    let t0 = now();
    let b = match guarded(|| m.sign(mk(&g))) {
        Err(p) => return r.bad("panic", p),
        Ok(Err(_)) if yes(&c["pad"]) && matches!(guarded(|| make().padding_enabled(false).timestamp_enabled(yes(&c["ts"])).sign(mk(&g))), Ok(Ok(b)) if no_room(b.to_u8().len())) => return r.hit("no room for padding"),
        Ok(Err(e)) => return r.bad("mismatch", e),
        Ok(Ok(b)) => b.to_u8(),
    };
    let l = unpad(r, &b, yes(&c["pad"]));
    let kinds: Vec<&str> = l.iter().map(|x| x["t"].as_str().unwrap_or("")).collect();
    let want: Vec<&str> = [(v, "v2"), (s, "stamp")].iter().filter(|x| !x.0.is_empty()).map(|x| x.1).collect();
    if kinds != want { return r.bad("order", format!("{kinds:?} instead of {want:?}")); }
    for x in &l {
        if x["t"] == json!("v2") {
            if arr(&x["signers"]).len() != 1 { return r.bad("order", "number of signers"); }
            told(r, &x["signers"][0], v, own::alg_of(v), &g, &[vec![vcert.clone()], vchain.clone()].concat(), false, t0);
        } else { told(r, &x["signer"], s, own::alg_of(s), &g, &[scert.clone()], yes(&c["ts"]), t0); }
    }
}
fn elem(e: &str, i: i64) -> ValueSigningBlock {
    let raw = |id, d| ValueSigningBlock::BaseSigningBlock(RawData::new(id, d));
    let v2 = |k: &str| V2Signer::new(conf(k, own::alg_of(k), &[])).sign(mk(&[(0x201, fill(i, 0, 32))])).unwrap();
    match e {
        "v2" => ValueSigningBlock::SignatureSchemeV2Block(v2("a256")),
        "v2two" => {
            let (a, b) = (v2("b256"), v2("a384"));
            ValueSigningBlock::new_v2(ksusig::scheme_v2::Signers::new(vec![a.signers.signers_data[0].clone(), b.signers.signers_data[0].clone()]))
        }
        "stamp" => ValueSigningBlock::SourceStampBlock(NewSourceStampSigner::new(conf("b256", 0x201, &[])).sign(mk(&[(0x201, fill(i, 0, 32))])).unwrap()),
        "raw" => raw(0x1234 + i as u32, fill(i, 0, 40)),
        "raw0" => raw(0x1234_5678, vec![]),
        "elf" => ValueSigningBlock::ElfSectionInfoBlock(ElfSectionInfo::new(vec![SectionEntry::new(".text".into(), 64, 10 + i as u64)])),
        "pad" => raw(own::PAD_ID, vec![0; 100]),
        _ => raw(own::PAD_ID, vec![]),
    }
}
fn add(c: &Value, r: &mut Report) {
    let by = c["by"].as_str().unwrap_or("");
    let cf = |k: &str| conf(k, own::alg_of(k), &[own::cert_of("interA")]);
    let k = if by == "both" || by == "v2only" { "b384" } else { by };
    let make = || match by { "both" => ModuleSigner::with_source_stamp(cf("a256"), cf(k)), "v2only" => ModuleSigner::v2_only(cf(k)), _ => ModuleSigner::stamp_only(cf(k)) };
    let m = make().padding_enabled(yes(&c["pad"])).timestamp_enabled(yes(&c["ts"]));
    let content: Vec<ValueSigningBlock> = arr(&c["content"]).iter().enumerate().map(|(i, e)| elem(e.as_str().unwrap_or(""), i as i64)).collect();
    let keep: Vec<Vec<u8>> = arr(&c["content"]).iter().zip(&content).filter(|(e, _)| !["stamp", "pad", "pad0"].contains(&e.as_str().unwrap_or(""))).map(|(_, b)| b.to_u8()).collect();
    assert_eq!(keep.len(), arr(&c["kept"]).len());
    let old = SigningBlock::new(content).expect("block of a case");
    let g = if c["given"].is_array() { given(&c["given"]) } else { vec![(own::alg_of(k), fill(7, 0, 48))] };
    let t0 = now();
    let again = old.clone();
    let b = match guarded(|| m.add_source_stamp(old, mk(&g))) {
        Err(p) => return r.bad("panic", p),
        Ok(Err(_)) if yes(&c["ok"]) && yes(&c["pad"]) && matches!(guarded(|| make().padding_enabled(false).timestamp_enabled(yes(&c["ts"])).add_source_stamp(again, mk(&g))), Ok(Ok(b)) if no_room(b.to_u8().len())) => return r.hit("no room for padding"),
        Ok(Err(e)) => return r.check(!yes(&c["ok"]), "order", || format!("add_source_stamp: {e}")),
        Ok(Ok(b)) => b.to_u8(),
    };
    if !yes(&c["ok"]) { return r.bad("order", "a stamp was added without a stamp signer"); }
    let l = unpad(r, &b, yes(&c["pad"]));
    // kept sub-blocks, byte for byte, then the new stamp
    let mut at = 8;
    for (i, k) in keep.iter().enumerate() {
        r.check(b.get(at..at + k.len()) == Some(&k[..]), "order", || format!("sub-block {i} of {} was changed or moved", c["content"]));
        at += k.len();
    }
    if l.len() != keep.len() + 1 || l[keep.len()]["t"] != json!("stamp") { return r.bad("order", format!("{} sub-blocks for {}", l.len(), c["content"])); }
    told(r, &l[keep.len()]["signer"], k, own::alg_of(k), &g, &[own::cert_of(&format!("{k}_rootA"))], yes(&c["ts"]), t0);
}

/// sizes: signs so that the content has about `c.c` bytes and records what became of it
pub fn size(c: &Value, r: &mut Report) {
    let api = c["api"].as_str().unwrap_or("");
    let target = int(&c["c"]);
    let pad = yes(&c["pad"]);
    let g = mk(&[(0x201, fill(1, 0, 32))]);
    let cf = |n: i64| ModuleSignerConfig::new(own::key_of("a256"), fill(4, 0, n), Algorithms::from(0x201));
    let v2 = |n: i64, d: &Digests| V2Signer::new(cf(n)).sign(d.clone()).unwrap().size as i64 + 8;
    let st = |n: i64| NewSourceStampSigner::with_timestamp(cf(n), false).sign(g.clone()).unwrap().size as i64 + 8;
    let path = crate::zipm::scratch_file("size");
    let obj = if api == "object" { std::fs::write(&path, crate::hist::module(1, 0).bytes).unwrap(); let a = Algorithms::from(0x201); Some(mk(&[(0x201, ksusig::Module::new(path.clone()).unwrap().digest(&a).unwrap())])) } else { None };
    let total = |n: i64| match api { "v2" => v2(n, &g), "object" => v2(n, obj.as_ref().unwrap()), "stamp" => st(n), "both" => v2(n, &g) + st(20), _ => n + 12 + st(30) };
    // the DER form of a signature varies by a byte or two: approach the target
    let mut n = target - total(0);
    for _ in 0..3 { if n < 0 { return } n += target - total(n); }
    if n < 0 { return }
    let content = total(n);
    let m = match api { "v2" => ModuleSigner::v2_only(cf(n)), "stamp" => ModuleSigner::stamp_only(cf(n)), "both" => ModuleSigner::with_source_stamp(cf(n), cf(20)), _ => ModuleSigner::stamp_only(cf(30)) };
    let m = m.padding_enabled(pad).timestamp_enabled(false);
    let res = guarded(|| match api {
        "add" => {
            // a foreign sub-block of n bytes; too large blocks cannot exist to start with
            let raw = ValueSigningBlock::BaseSigningBlock(RawData::new(99, fill(5, 0, n)));
            SigningBlock::new(vec![raw]).map_err(|e| e.to_string()).and_then(|b| m.add_source_stamp(b, g.clone()))
        }
        "object" => { let mut o = ksusig::Module::new(path.clone()).unwrap(); o.sign_v2(&Algorithms::from(0x201), &fill(4, 0, n), &own::key_of("a256")).map(|()| o.sig.take().unwrap()).map_err(|e| e.to_string()) }
        _ => m.sign(g.clone()),
    });
    r.hit(api.to_string());
    r.out = Some(match res {
        Err(p) => { r.bad("panic", p); return }
        Ok(Err(_)) => json!({"api": api, "c": content, "pad": pad || api == "object", "ok": false, "total": 0, "plen": -1, "last": true}),
        Ok(Ok(b)) => {
            let raw = b.to_u8();
            let (mut plen, mut last) = (-1, true);
            for (i, x) in b.content.iter().enumerate() {
                if x.id() == own::PAD_ID { plen = x.to_u8().len() as i64 - 12; last = i + 1 == b.content.len() && x.to_u8()[12..].iter().all(|z| *z == 0); }
            }
            let same = SigningBlock::from_u8(&raw).map(|x| x.to_u8() == raw);
            r.check(same == Ok(true), "limit", || format!("{api}: content {content}: the parser does not read the block back: {same:?}"));
            json!({"api": api, "c": content, "pad": pad || api == "object", "ok": true, "total": raw.len(), "plen": plen, "last": last})
        }
    });
}
