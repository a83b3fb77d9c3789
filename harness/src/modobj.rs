//! One module object, its operations in every order.
use crate::hist::{digest_of, module, with_block, Plain};
use crate::proj::{self, arr};
use crate::zipm::{blk_block, first_diff, scratch_file, yes};
use crate::{guarded, own, Report};
use ksusig::{Algorithms, Module, Signable, SigningBlock};
use serde_json::{json, Value};

fn disk_block() -> SigningBlock { blk_block(&json!({"d": 9, "s": 5, "e": false})) }
/// the content as the object must see it, and the bytes of the file
fn file(disk: &str, raw: bool) -> (Plain, Vec<u8>) {
    let p = module(match disk { "magic" => 3, "trailing" => 4, _ => 1 }, 0);
    let bytes = match disk {
        "signed" => with_block(&p, &disk_block().to_u8()),
        "corrupt" => { let mut b = disk_block().to_u8(); b[0] ^= 1; with_block(&p, &b) }
        "nozip" => crate::zipm::fill(1, 0, 200),
        _ => p.bytes.clone(),
    };
    if raw && bytes.len() > p.bytes.len() {
        // everything before the central directory counts as content
        let d = bytes.len() - p.bytes.len();
        return (Plain { bytes: bytes.clone(), cd: p.cd + d, eocd: p.eocd + d }, bytes);
    }
    (p, bytes)
}
/// is this block (bytes) the one the specification names
fn is(r: &mut Report, op: &str, b: &[u8], name: &str, p: &Plain) {
    match name {
        "disk" => r.check(b == disk_block().to_u8(), "block", || format!("{op}: not the block of the file")),
        "given" => r.check(b == blk_block(&json!({"d": 7, "s": 8, "e": false})).to_u8(), "block", || format!("{op}: not the given block")),
        k => {
            let v = match own::block(b) { Ok(v) => v, Err(e) => return r.bad("block", format!("{op}: {e}")) };
            r.check(b.len() % 4096 == 0, "block", || format!("{op}: {} bytes", b.len()));
            let mut c = arr(&v["content"]).to_vec();
            if c.len() == 2 && proj::id(&c[1]["id"]) == own::PAD_ID { c.pop(); }
            let a = own::alg_of(k);
            let s = if c.len() == 1 && c[0]["t"] == json!("v2") && arr(&c[0]["signers"]).len() == 1 { c[0]["signers"][0].clone() } else { return r.bad("block", format!("{op}: content {}", crate::short(&v))) };
            let b = proj::bytes;
            let d = arr(&s["sd"]["digests"]["items"]);
            r.check(d.len() == 1 && proj::id(&d[0]["alg"]) == a && b(&d[0]["data"]) == digest_of(p, a), "digest", || format!("{op}: the stored digest is not that of the content"));
            let ce = arr(&s["sd"]["certs"]["items"]);
            r.check(ce.len() == 1 && b(&ce[0]["data"]) == own::cert_of(&format!("{k}_rootA")), "block", || format!("{op}: certificate"));
            r.check(b(&s["key"]["data"]) == own::pub_of(k), "block", || format!("{op}: public key"));
            let g = arr(&s["sigs"]["items"]);
            r.check(g.len() == 1 && proj::id(&g[0]["alg"]) == a && own::sig_ok(a, &own::pub_of(k), &own::signed_data(&s), &b(&g[0]["data"])), "block", || format!("{op}: the signature does not verify"));
        }
    }
}
enum Out { Nothing, Bytes(Vec<u8>), Block(Option<SigningBlock>), File(Vec<u8>), Offs([usize; 6]), Regs(Vec<(u64, u64)>), Eocd(usize, u32) }

pub fn object(c: &Value, r: &mut Report) {
    let raw = yes(&c["raw"]);
    let disk = c["disk"].as_str().unwrap_or("");
    let (p, bytes) = file(disk, raw);
    let path = scratch_file("object");
    std::fs::write(&path, &bytes).expect("scratch file");
    let mut m = match if raw { Module::new_raw(path.clone()) } else { Module::new(path.clone()) } { Ok(m) => m, Err(e) => return r.bad("open", e.to_string()) };
    r.hit(format!("{disk}{}", if raw { " raw" } else { "" }));
    let mut len = None; // length of the block in memory
    for (o, x) in arr(&c["hist"]).iter().zip(arr(&c["res"])) {
        let o = o.as_str().unwrap_or("");
        let es = |e: std::io::Error| e.to_string();
        let sign = |m: &mut Module, k: &str, a: u32| m.sign_v2(&Algorithms::from(a), &own::cert_of(&format!("{k}_rootA")), &own::key_of(k)).map(|()| Out::Nothing).map_err(es);
        let g = guarded(|| match o {
            "digest256" => m.digest(&Algorithms::from(0x201)).map(Out::Bytes).map_err(es),
            "digest512" => m.digest(&Algorithms::from(0x202)).map(Out::Bytes).map_err(es),
            "signA" => sign(&mut m, "a256", 0x201),
            "signB" => sign(&mut m, "a384", 0x202),
            "signX" => sign(&mut m, "a256", 0x202),
            "block" => m.get_signing_block().map(|b| Out::Block(Some(b))).map_err(es),
            "present" => Signable::get_signing_block(&m).map(Out::Block).map_err(|e| e.to_string()),
            "offsets" => m.get_offsets().map(|o| Out::Offs([o.start_content, o.stop_content, o.start_cd, o.stop_cd, o.start_eocd, o.stop_eocd])).map_err(es),
            "regions" => Signable::digest_regions(&m).map(|l| Out::Regs(l.iter().map(|x| (x.offset, x.size)).collect())).map_err(|e| e.to_string()),
            "write" => { let mut v = vec![]; m.write_with_signature(&mut v).map(|()| Out::File(v)).map_err(es) }
            "put" => { let mut v = vec![]; Signable::write_with_signature(&m, &mut v, &blk_block(&json!({"d": 7, "s": 8, "e": false}))).map(|()| Out::File(v)).map_err(|e| e.to_string()) }
            "raw" => m.get_raw_module().map(Out::Bytes).map_err(es),
            "eocd" => m.find_eocd().map(|e| Out::Eocd(e.file_offset, e.cd_offset)).map_err(es),
            _ => panic!("case: {o}"),
        });
        let name = x["val"].as_str().unwrap_or("none").to_string();
        let ok = yes(&x["ok"]);
        match g {
            Err(e) => return r.bad("panic", format!("{o}: {e}")),
            Ok(Err(e)) => r.check(!ok, "order", || format!("{o} after {}: {e}", c["hist"])),
            Ok(Ok(v)) => {
                if !ok {
                    // the raw module of an unsigned file may be the file itself
                    if let ("raw", Out::Bytes(b)) = (o, &v) { if *b == bytes && (disk == "unsigned" || disk == "magic" || disk == "trailing") { continue; } }
                    r.bad("error", format!("{o} succeeded, state {disk}, raw {raw}"));
                    continue;
                }
                match v {
                    Out::Nothing => { len = m.sig.as_ref().map(|s| s.to_u8().len()); r.check(len.is_some(), "order", || format!("{o}: no signature in memory")); }
                    Out::Bytes(b) if o == "raw" => { let w = if raw { &bytes } else { &p.bytes }; r.check(b == *w, "raw", || format!("raw module: {}", first_diff(&b, w))); }
                    Out::Bytes(b) => { let a = if o == "digest256" { 0x201 } else { 0x202 }; r.check(b == digest_of(&p, a), "digest", || format!("{o} after {}: not the digest of the content", c["hist"])); }
                    Out::Block(None) => r.check(name == "none", "order", || format!("{o}: no block")),
                    Out::Block(Some(b)) => {
                        if name == "none" { r.bad("order", format!("{o}: a block is reported")); continue; }
                        is(r, o, &b.to_u8(), &name, &p);
                        r.check(b.file_offset_start == p.cd && b.file_offset_end == p.cd + b.to_u8().len(), "offsets", || format!("{o}: block offsets {}..{}, content ends at {}", b.file_offset_start, b.file_offset_end, p.cd));
                    }
                    Out::Offs(g) => {
                        let n = match name.as_str() { "none" => 0, "disk" => disk_block().to_u8().len(), _ => len.unwrap_or(0) };
                        let w = [0, p.cd, p.cd + n, p.eocd + n, p.eocd + n, p.bytes.len() + n];
                        r.check(g == w, "offsets", || format!("offsets {g:?} instead of {w:?} after {}", c["hist"]));
                    }
                    Out::Regs(g) => {
                        let n = (bytes.len() - p.bytes.len()) as u64;
                        let (a, b, e) = (p.cd as u64, p.eocd as u64, p.bytes.len() as u64);
                        r.check(g == vec![(0, a), (a + n, b - a), (b + n, e - b)], "offsets", || format!("regions {g:?} after {}", c["hist"]));
                    }
                    Out::File(f) => {
                        if f.len() < p.bytes.len() { r.bad("write", format!("{o}: {} bytes written", f.len())); continue; }
                        let n = f.len() - p.bytes.len();
                        let b = f[p.cd..p.cd + n].to_vec();
                        let w = with_block(&p, &b);
                        r.check(f == w, "write", || format!("{o} after {}: {}", c["hist"], first_diff(&f, &w)));
                        is(r, o, &b, &name, &p);
                    }
                    Out::Eocd(a, cd) => { let n = bytes.len() - p.bytes.len(); r.check(a == p.eocd + n && cd as usize == p.cd + n, "offsets", || format!("end record at {a}")); }
                }
            }
        }
    }
    r.check(std::fs::read(&path).ok().as_deref() == Some(&bytes[..]), "input", || "the file on disk was changed".into());
}
