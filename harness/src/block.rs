//! Signing block: parsing, construction, padding.
use crate::proj::{self, bytes};
use crate::{alloc, guarded, short, Report};
use ksusig::{MyReader, RawData, SigningBlock, ValueSigningBlock};
use serde_json::{json, Value};
use std::io::Cursor;

const PRE: [u8; 11] = [200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210];
const POST: [u8; 13] = [1; 13];

/// {} and [] are the same empty sequence in TLC's JSON
pub fn norm(v: &Value) -> Value {
    match v {
        Value::Object(m) if m.is_empty() => json!([]),
        Value::Object(m) => Value::Object(m.iter().map(|(k, x)| (k.clone(), norm(x))).collect()),
        Value::Array(a) => Value::Array(a.iter().map(norm).collect()),
        x => x.clone(),
    }
}

/// What the parser is allowed to do with these bytes, whatever entry point is used.
/// `got`: result, `exp`: specification's verdict, `slice`: bytes an accepted block must reproduce
fn judge(r: &mut Report, name: &str, got: Result<Result<SigningBlock, String>, String>, peak: u64, len: usize, exp: &Value, v: &Value, data: &[u8]) -> Option<SigningBlock> {
    r.check(peak <= alloc::allowed(len), "alloc", || format!("{name}: {peak} bytes allocated for an input of {len}"));
    let ok = exp["ok"] == json!(true);
    match got {
        Err(p) => { r.bad("panic", format!("{name}: {p}")); None }
        Ok(Err(e)) => { if ok { r.bad("reject", format!("{name}: well-formed block refused: {e}")); } None }
        Ok(Ok(b)) => {
            let again = guarded(|| b.to_u8());
            let from = exp["from"].as_u64().unwrap_or(0) as usize;
            let to = exp["to"].as_u64().unwrap_or(0) as usize;
            if ok {
                match again {
                    Ok(a) => r.check(data.get(from..to) == Some(a.as_slice()), "roundtrip", || format!("{name}: serialising the parsed block gives {a:?}, read from {:?}", data.get(from..to))),
                    Err(p) => r.bad("roundtrip", format!("{name}: {p}")),
                }
                let got = proj::block(&b);
                r.check(got == *v, "structure", || format!("{name}: parsed as {} instead of {}", short(&got), short(v)));
                r.check(b.get_full_size() == to - from, "structure", || format!("{name}: full size {} instead of {}", b.get_full_size(), to - from));
                r.check(b.magic == *ksusig::MAGIC, "structure", || format!("{name}: magic {:?}", b.magic));
            } else {
                r.bad("accept", format!("{name}: ill-formed block accepted as {}", short(&proj::block(&b))));
                // inverse property on whatever was accepted: the last magic delimits it
                if let Ok(a) = again {
                    let inside = data.windows(a.len().max(1)).any(|w| w == a.as_slice());
                    r.check(inside, "roundtrip", || format!("{name}: accepted bytes are not reproduced: {a:?}"));
                }
            }
            Some(b)
        }
    }
}

pub fn parse(c: &Value, r: &mut Report) {
    let b = bytes(&c["b"]);
    let (u, q) = (norm(&c["u"]), norm(&c["r"]));
    r.hit(if u["ok"] == json!(true) { "accepted" } else { "refused" });
    r.hit(format!("st:{}", c["s"].as_str().unwrap_or("")));
    let v = if u["ok"] == json!(true) { u["v"].clone() } else { Value::Null };
    let (g, p) = alloc::peak(|| guarded(|| SigningBlock::from_u8(&b)));
    judge(r, "from_u8", g, p, b.len(), &u, &v, &b);
    let (g, p) = alloc::peak(|| guarded(|| SigningBlock::from_reader(Cursor::new(&b), b.len(), 0).map_err(|e| e.to_string())));
    if let Some(x) = judge(r, "from_reader", g, p, b.len(), &u, &v, &b) {
        if u["ok"] == json!(true) {
            let o = (x.file_offset_start as u64, x.file_offset_end as u64);
            r.check(o == (u["from"].as_u64().unwrap(), u["to"].as_u64().unwrap()), "structure", || format!("from_reader: offsets {o:?}"));
        }
    }
    // the block in the middle of a file
    let f = [&PRE[..], &b, &POST[..]].concat();
    let same = c["same"] == json!(true);
    let (g, p) = alloc::peak(|| guarded(|| SigningBlock::from_reader(Cursor::new(&f), f.len(), POST.len()).map_err(|e| e.to_string())));
    if same {
        if let Some(x) = judge(r, "from_reader(inside a file)", g, p, f.len(), &q, &v, &f) {
            if q["ok"] == json!(true) {
                let o = (x.file_offset_start as u64, x.file_offset_end as u64);
                r.check(o == (q["from"].as_u64().unwrap(), q["to"].as_u64().unwrap()), "structure", || format!("from_reader(inside): offsets {o:?}"));
            }
        }
    } else if let Err(p) = g {
        r.bad("panic", format!("from_reader(inside): {p}"));
    }
    // sub-block parser on the bytes after the first size field
    let tail = b.get(8..).unwrap_or(&[]);
    let (g, p) = alloc::peak(|| guarded(|| { let mut m = MyReader::new(tail); ValueSigningBlock::parse(&mut m).map(|x| { let n = x.to_u8(); (x, n) }) }));
    r.check(p <= alloc::allowed(tail.len()), "alloc", || format!("ValueSigningBlock::parse: {p} bytes allocated"));
    match g {
        Err(p) => r.bad("panic", format!("ValueSigningBlock::parse: {p}")),
        Ok(Ok((x, n))) => {
            r.check(tail.get(..n.len()) == Some(&n[..]), "roundtrip", || format!("ValueSigningBlock::parse: {tail:?} re-serialises as {n:?}"));
            r.check(x.size() == n.len() && x.inner_size() + 8 == n.len(), "structure", || format!("size() {} of {} bytes", x.size(), n.len()));
            if u["ok"] == json!(true) && u["from"] == json!(0) {
                if let Some(first) = proj::arr(&v["content"]).first() {
                    r.check(proj::pair(&x) == *first, "structure", || format!("ValueSigningBlock::parse: {} instead of {}", short(&proj::pair(&x)), short(first)));
                }
            }
        }
        Ok(Err(e)) => {
            if u["ok"] == json!(true) && u["from"] == json!(0) && !proj::arr(&v["content"]).is_empty() {
                r.bad("reject", format!("ValueSigningBlock::parse: well-formed sub-block refused: {e}"));
            }
        }
    }
}

pub fn build(c: &Value, r: &mut Report) {
    let v = norm(&c["v"]);
    let b = bytes(&c["b"]);
    let content: Vec<ValueSigningBlock> = proj::arr(&v["content"]).iter().map(proj::mk_pair).collect();
    r.hit(format!("pairs:{}", content.len()));
    for (p, e) in content.iter().zip(proj::arr(&v["content"])) {
        r.hit(format!("kind:{}", e["t"].as_str().unwrap_or("")));
        let got = proj::pair(p);
        r.check(got == *e, "structure", || format!("constructed {} instead of {}", short(&got), short(e)));
        r.check(p.id() == proj::id(&e["id"]), "structure", || format!("id() = {:#x}", p.id()));
        r.check(p.to_u8().len() == p.size(), "structure", || format!("size() {} but {} bytes", p.size(), p.to_u8().len()));
    }
    let blk = match SigningBlock::new(content.clone()) {
        Ok(x) => x,
        Err(e) => return r.bad("structure", format!("construction refused: {e}")),
    };
    let got = proj::block(&blk);
    r.check(got == v, "structure", || format!("built {} instead of {}", short(&got), short(&v)));
    let out = blk.to_u8();
    r.check(out == b, "bytes", || format!("serialised as {out:?} instead of {b:?}"));
    r.check(blk.content_to_u8() == b[8..b.len() - 24], "bytes", || "content_to_u8 differs".into());
    r.check(blk.get_full_size() == b.len(), "structure", || format!("full size {}", blk.get_full_size()));
    r.check((blk.file_offset_start, blk.file_offset_end) == (0, b.len()), "structure", || "offsets of a new block".into());
    for (name, p) in [("from_u8", SigningBlock::from_u8(&out)), ("from_reader", SigningBlock::from_reader(Cursor::new(&out), out.len(), 0).map_err(|e| e.to_string()))] {
        match p {
            Ok(p) => r.check(p == blk, "inverse", || format!("{name}: parsed back as {} instead of {}", short(&proj::block(&p)), short(&v))),
            Err(e) => r.bad("inverse", format!("{name}: cannot read back: {e}")),
        }
    }
    // size fields restored by recalculate_size after the content was edited in place
    if let Ok(mut x) = SigningBlock::new(vec![]) {
        x.offset_by(7);
        *x.content_mut() = content;
        x.recalculate_size();
        r.check(proj::block(&x) == v && x.to_u8() == b && (x.file_offset_start, x.file_offset_end) == (7, 7 + b.len()), "structure",
            || format!("recalculate_size: {} at {}..{}", short(&proj::block(&x)), x.file_offset_start, x.file_offset_end));
    }
    json_form(&blk, &b, r);
    // parsed form, at a non-zero place in a file, through JSON as well
    let f = [&PRE[..], &b].concat();
    match SigningBlock::from_reader(Cursor::new(&f), f.len(), 0) {
        Ok(x) => json_form(&x, &b, r),
        Err(e) => r.bad("inverse", format!("from_reader: {e}")),
    }
}

/// JSON form: lossless, algorithms as numeric ids
fn json_form(blk: &SigningBlock, b: &[u8], r: &mut Report) {
    let s = match serde_json::to_string(blk) {
        Ok(s) => s,
        Err(e) => return r.bad("json", format!("to_string: {e}")),
    };
    match serde_json::from_str::<SigningBlock>(&s) {
        Err(e) => r.bad("json", format!("from_str: {e}")),
        Ok(x) => {
            r.check(x == *blk, "json", || format!("JSON round trip gives {} instead of {}", short(&proj::block(&x)), short(&proj::block(blk))));
            r.check(x.to_u8() == b, "json", || "JSON round trip changes the bytes".into());
            r.check((x.file_offset_start, x.file_offset_end) == (blk.file_offset_start, blk.file_offset_end), "json", || "JSON round trip changes the offsets".into());
            let p = (proj::block(&x), proj::block(blk));
            r.check(p.0 == p.1, "json", || format!("JSON round trip gives {} instead of {}", short(&p.0), short(&p.1)));
        }
    }
    // algorithms as numbers, in order of appearance
    let v: Value = serde_json::from_str(&s).unwrap_or(Value::Null);
    let mut algs = Vec::new();
    collect(&v, &mut algs);
    let mut want = Vec::new();
    for p in &blk.content {
        match p {
            ValueSigningBlock::SignatureSchemeV2Block(x) => for s in &x.signers.signers_data {
                want.extend(s.signed_data.digests.digests_data.iter().map(|d| d.signature_algorithm_id.to_u32()));
                want.extend(s.signatures.signatures_data.iter().map(|d| d.signature_algorithm_id.to_u32()));
            },
            ValueSigningBlock::SourceStampBlock(x) => {
                want.extend(x.stamp_block.signed_data.digests.digests_data.iter().map(|d| d.signature_algorithm_id.to_u32()));
                want.extend(x.stamp_block.signatures.signatures_data.iter().map(|d| d.signature_algorithm_id.to_u32()));
            }
            _ => {}
        }
    }
    // object keys may come in any order: compare as multisets
    let mut got: Vec<Option<u64>> = algs;
    got.sort();
    let mut w: Vec<Option<u64>> = want.into_iter().map(|x| Some(u64::from(x))).collect();
    w.sort();
    r.check(got == w, "json", || format!("algorithm ids in JSON {got:?}, expected {w:?}"));
}
fn collect(v: &Value, out: &mut Vec<Option<u64>>) {
    match v {
        Value::Object(m) => for (k, x) in m {
            if k == "signature_algorithm_id" { out.push(x.as_u64()); } else { collect(x, out); }
        },
        Value::Array(a) => a.iter().for_each(|x| collect(x, out)),
        _ => {}
    }
}

pub fn pad(c: &Value, r: &mut Report) {
    let n = c["n"].as_u64().unwrap_or(0) as usize;
    let k = c["k"].as_u64().unwrap_or(0) as usize;
    let p = c["p"].as_u64().unwrap_or(0) as usize;
    // k sub-blocks, the last one takes what is left
    let content: Vec<ValueSigningBlock> = (1..=k).map(|i| {
        let len = if i == k { n - 12 * k } else { 0 };
        let id = if i == p { 0x4272_6577 } else { 0x1000 + i as u32 };
        ValueSigningBlock::BaseSigningBlock(RawData::new(id, vec![if i == p { 0 } else { 7 }; len]))
    }).collect();
    for (name, exp, got) in [("new", &c["plain"], guarded(|| SigningBlock::new(content.clone()))), ("new_with_padding", &c["padded"], guarded(|| SigningBlock::new_with_padding(content.clone())))] {
        let ok = exp["ok"] == json!(true);
        r.hit(format!("{name}:{}", if ok { "ok" } else { "refused" }));
        match got {
            Err(e) => r.bad("panic", format!("{name}, content of {n} bytes: {e}")),
            Ok(Err(e)) => if ok { r.bad("refused", format!("{name}, content of {n} bytes: {e}")) },
            Ok(Ok(b)) => {
                if !ok {
                    r.bad("limit", format!("{name}, content of {n} bytes in {k} sub-blocks (padding at {p}): should be refused, total {}", b.to_u8().len()));
                    continue;
                }
                let out = b.to_u8();
                let total = exp["total"].as_u64().unwrap_or(0) as usize;
                r.check(out.len() == total && b.get_full_size() == total && b.file_offset_end == total && b.size_of_block_end + 8 == total && b.content_size + 32 == total, "size",
                    || format!("{name}, content of {n} bytes: {} bytes, size fields {} {} content {} instead of {total}", out.len(), b.size_of_block_start, b.size_of_block_end, b.content_size));
                let pad = exp["pad"].as_i64().unwrap_or(-1);
                let mut want = content.clone();
                if pad >= 0 { want.push(ValueSigningBlock::BaseSigningBlock(RawData::new(0x4272_6577, vec![0; pad as usize]))); }
                r.check(b.content == want, "content", || format!("{name}, content of {n} bytes: sub-blocks {:?}", b.content.iter().map(|x| (x.id(), x.size())).collect::<Vec<_>>()));
                match SigningBlock::from_u8(&out) {
                    Ok(x) => r.check(x == b, "readable", || format!("{name}, content of {n} bytes: reads back differently")),
                    Err(e) => r.bad("readable", format!("{name}, content of {n} bytes: cannot be read back: {e}")),
                }
            }
        }
    }
}

/// Blocks and sub-blocks around the size limit, written out by hand.
pub fn limit(c: &Value, r: &mut Report) {
    let n = c["n"].as_u64().unwrap_or(0) as usize;
    let k = c["k"].as_u64().unwrap_or(0) as usize;
    let ok = c["plain"]["ok"] == json!(true);
    let mut content = Vec::new();
    for i in 1..=k {
        let len = if i == k { n - 12 * k } else { 0 };
        content.extend_from_slice(&((len + 4) as u64).to_le_bytes());
        content.extend_from_slice(&(0x2000 + i as u32).to_le_bytes());
        content.extend(std::iter::repeat(5u8).take(len));
    }
    let size = ((content.len() + 24) as u64).to_le_bytes();
    let b = [&size[..], &content, &size, &ksusig::MAGIC[..]].concat();
    let f = [&PRE[..], &b, &POST[..]].concat();
    r.hit(if ok { "within" } else { "beyond" });
    for (name, g) in [("from_u8", guarded(|| SigningBlock::from_u8(&b))),
        ("from_reader", guarded(|| SigningBlock::from_reader(Cursor::new(&f), f.len(), POST.len()).map_err(|e| e.to_string())))] {
        match g {
            Err(e) => r.bad("panic", format!("{name}, block with {n} bytes of content: {e}")),
            Ok(Ok(x)) => {
                r.check(ok, "accept", || format!("{name}: block size {} beyond the limit accepted", content.len() + 24));
                r.check(x.to_u8() == b, "roundtrip", || format!("{name}: block with {n} bytes of content does not round-trip"));
            }
            Ok(Err(e)) => r.check(!ok, "reject", || format!("{name}: block size {} refused: {e}", content.len() + 24)),
        }
    }
    if k == 1 {
        // one sub-block of declared size n - 8 on its own
        let ok = n - 8 <= c["limit"].as_u64().unwrap_or(16384) as usize;
        match guarded(|| ValueSigningBlock::parse(&mut MyReader::new(&content))) {
            Err(e) => r.bad("panic", format!("sub-block of size {}: {e}", n - 8)),
            Ok(Ok(x)) => {
                r.check(ok, "accept", || format!("sub-block of declared size {} beyond the limit accepted", n - 8));
                r.check(x.to_u8() == content, "roundtrip", || format!("sub-block of size {} does not round-trip", n - 8));
            }
            Ok(Err(e)) => r.check(!ok, "reject", || format!("sub-block of size {} refused: {e}", n - 8)),
        }
    }
}
