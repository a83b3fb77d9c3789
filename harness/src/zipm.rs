//! Module files: building them from the specification's pieces, and comparing what the library
//! makes of them.
use crate::proj::arr;
use crate::{alloc, guarded, Report};
use ksusig::module::zip::find_eocd;
use ksusig::{Algorithms, FileFormat, Module, RawData, Signable, SignableFile, SigningBlock, ValueSigningBlock, MAGIC};
use serde_json::{json, Value};
use sha2::Digest;
use std::io::Cursor;
use std::path::PathBuf;

pub fn int(v: &Value) -> i64 { v.as_i64().unwrap_or_else(|| panic!("case: integer expected, got {v}")) }
pub fn us(v: &Value) -> usize { int(v) as usize }
pub fn yes(v: &Value) -> bool { v.as_bool() == Some(true) }

pub fn fill(s: i64, from: i64, n: i64) -> Vec<u8> {
    // special contents: bytes that code might take for absent, or for structure
    let rep = |p: &[u8]| (from..from + n).map(|i| p[i as usize % p.len()]).collect();
    match s {
        100 => return rep(&[0]),
        101 => return rep(&[0xff]),
        102 => return rep(b"PK\x05"),
        103 => return rep(b"PK\x03\x04"),
        104 => return rep(&MAGIC[..15]),
        105 => return rep(b" \r\n\t"),
        106 => return rep(b"PK\x01\x02"),
        107 => return rep(&[1]),
        108 => return rep(b"PK\x06\x06\x07"),
        109 => return rep(b"PK\x05\x07"),
        110..=121 => {
            let mut b = blk_bytes(&serde_json::json!({"d": 3, "s": 1, "e": false, "bad": ""}));
            let m = b.len() - 16;
            match s {
                110 => b[m..].make_ascii_lowercase(),
                111 => b[m..].make_ascii_uppercase(),
                112 => b[m..m + 3].copy_from_slice(b"APK"),
                113 => b[m + 15] = b'3',
                114 => b[m] ^= 0x20,
                115 => b[m + 1] ^= 1,
                116 => b[m + 3] = 0,
                117 => b[m + 7] = b'\t',
                118 => b[m + 13] = b'_',
                119 => b[m + 14] = b'5',
                120 => b[m..].rotate_left(1),
                _ => b[m..].reverse(),
            }
            return rep(&b);
        }
        _ => {}
    }
    (from..from + n).map(|i| 0x80 | ((i * 7 + s * 31 + (i >> 8) * 13 + (i >> 16) * 5) & 0x7f) as u8).collect()
}
pub fn eocd(cd: u32, cl: u16, f: i64) -> Vec<u8> {
    let mut v = vec![0x50, 0x4b, 5, 6];
    v.extend(match f {
        0 => [2, 1, 4, 3, 6, 5, 8, 7, 12, 11, 10, 9],
        1 => [0xff; 12],
        2 => [0; 12],
        3 => [0, 0, 0, 0, 1, 0, 1, 0, 46, 0, 0, 0],
        _ => std::array::from_fn(|i| ((i as i64 + 3) * (f * 37 + 11) % 79) as u8),
    });
    v.extend(cd.to_le_bytes());
    v.extend(cl.to_le_bytes());
    v
}
/// data of the sub-block of a `blk` piece
pub fn blk_data(p: &Value) -> Vec<u8> {
    let d = int(&p["d"]);
    let mut v = fill(int(&p["s"]) + 40, 0, d);
    if yes(&p["e"]) { let e = eocd(5, 0, 0); v[..22].copy_from_slice(&e); }
    v
}
pub fn blk_block(p: &Value) -> SigningBlock {
    SigningBlock::new(vec![ValueSigningBlock::BaseSigningBlock(RawData::new(0x0bad_cafe, blk_data(p)))]).expect("block of a case")
}
fn blk_bytes(p: &Value) -> Vec<u8> {
    let data = blk_data(p);
    let bad = p["bad"].as_str().unwrap_or("");
    let n = (data.len() + 36) as u64;
    let (mut s1, mut s2, mut ps, mut id) = (n, n, data.len() as u64 + 4, 0x0bad_cafe_u32);
    match bad {
        "size1" => s1 += 1,
        "size2" => s2 += 1,
        "both" => { s1 += 1; s2 += 1 }
        "pair" => ps += 1,
        "small" => { s1 = 10; s2 = 10 }
        "beyond" => { s1 += 1000; s2 += 1000 }
        "first0" => s1 = 0,
        "ones" => { s1 = u64::MAX; s2 = u64::MAX }
        "wrap" => { s1 = u64::MAX - 7; s2 = u64::MAX - 7 }
        "short" => { s1 -= 1; s2 -= 1 }
        "v2" => id = 0x7109_871a,
        _ => {}
    }
    [&s1.to_le_bytes()[..], &ps.to_le_bytes(), &id.to_le_bytes(), &data, &s2.to_le_bytes(), &MAGIC[..]].concat()
}
/// `own`: bytes for pieces the code itself produced (t = "own")
pub fn render(f: &Value, own: &dyn Fn(&Value) -> Vec<u8>) -> Vec<u8> {
    let mut out = Vec::new();
    for p in arr(f) {
        match p["t"].as_str().unwrap_or("") {
            "fill" => out.extend(fill(int(&p["s"]), int(&p["from"]), int(&p["n"]))),
            "eocd" => out.extend(eocd(int(&p["cd"]) as u32, int(&p["cl"]) as u16, int(&p["f"]))),
            "blk" => out.extend(blk_bytes(p)),
            "magic" => out.extend(&MAGIC[..]),
            _ => out.extend(own(p)),
        }
    }
    out
}
pub fn render_plain(f: &Value) -> Vec<u8> { render(f, &|p| panic!("case: piece {p}")) }

pub fn hash(alg: u32, data: &[u8]) -> Vec<u8> {
    if alg == 0x201 { sha2::Sha256::digest(data).to_vec() } else { sha2::Sha512::digest(data).to_vec() }
}
/// chunk digest computed from the specification's plan
pub fn plan_digest(file: &[u8], plan: &Value, eocd_at: Option<usize>, alg: u32) -> Vec<u8> {
    let mut file = file.to_vec();
    if let Some(e) = eocd_at { file[e + 16..e + 20].copy_from_slice(&(int(&plan["mask"]) as u32).to_le_bytes()); }
    let cs = arr(&plan["chunks"]);
    let mut top = vec![0x5a];
    top.extend((cs.len() as u32).to_le_bytes());
    for c in cs {
        let (a, n) = (us(&c["from"]), us(&c["n"]));
        let mut m = vec![0xa5];
        m.extend((n as u32).to_le_bytes());
        m.extend(&file[a..a + n]);
        top.extend(hash(alg, &m));
    }
    hash(alg, &top)
}
pub fn splice(file: &[u8], s: &Value, new: &[u8]) -> Vec<u8> {
    let mut out = [&file[..us(&s["from"])], new, &file[us(&s["to"])..]].concat();
    let e = us(&s["eocd"]) + 16;
    out[e..e + 4].copy_from_slice(&(int(&s["cd"]) as u32).to_le_bytes());
    out
}
pub fn scratch_file(name: &str) -> PathBuf {
    let d = PathBuf::from(std::env::var("VERIF_SCRATCH").expect("VERIF_SCRATCH"));
    d.join(format!("{name}-{:?}", std::thread::current().id()).replace(['(', ')'], ""))
}
pub fn first_diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or_else(|| a.len().min(b.len()));
    format!("lengths {} and {}, first difference at {i}", a.len(), b.len())
}
const ALGS: [u32; 2] = [0x201, 0x202];

pub fn zip(c: &Value, r: &mut Report) {
    let bytes = render_plain(&c["f"]);
    let path = scratch_file("module");
    std::fs::write(&path, &bytes).expect("scratch file");
    let state = c["state"].as_str().unwrap_or("");
    r.hit(format!("state:{state}"));
    let limit = alloc::allowed(bytes.len()) + (8 << 20);

    // the end record
    let e = &c["eocd"];
    for (name, got) in [("find_eocd", guarded(|| find_eocd(&mut Cursor::new(&bytes), bytes.len()))),
                        ("Module::find_eocd", guarded(|| Module::new(path.clone()).and_then(|m| m.find_eocd())))] {
        match got {
            Err(p) => r.bad("panic", format!("{name}: {p}")),
            Ok(Err(x)) => r.check(!yes(&e["ok"]), "eocd", || format!("{name}: not found ({x}), expected at {}", e["off"])),
            Ok(Ok(x)) => {
                if !yes(&e["ok"]) { r.bad("eocd", format!("{name}: found at {}, none expected", x.file_offset)); continue; }
                let off = us(&e["off"]);
                r.check(x.file_offset == off && x.cd_offset == int(&e["cd"]) as u32 && u64::from(x.comment_len) == e["cl"].as_u64().unwrap_or(0), "eocd",
                    || format!("{name}: record at {} cd {} comment {} instead of {e}", x.file_offset, x.cd_offset, x.comment_len));
                let g = |i: usize| u16::from_le_bytes([bytes[off + i], bytes[off + i + 1]]);
                let fields = x.signature == [0x50, 0x4b, 5, 6] && x.disk_number == g(4) && x.disk_with_cd == g(6) && x.num_entries == g(8) && x.total_entries == g(10)
                    && x.cd_size.to_le_bytes() == bytes[off + 12..off + 16] && x.comment[..] == bytes[off + 22..off + 22 + us(&e["cl"])];
                r.check(fields, "eocd", || format!("{name}: fields {x:?}"));
                r.check(x.to_u8() == bytes[off..off + 22 + us(&e["cl"])], "eocd", || format!("{name}: record serialises differently"));
            }
        }
    }

    let block_at = |v: &Value| -> Vec<u8> { bytes[us(&v["offs"]["stop_content"])..us(&v["offs"]["start_cd"])].to_vec() };
    let new = blk_block(&c["new"]);
    for (i, v) in arr(&c["views"]).iter().enumerate() {
        let raw = i == 1;
        let tag = if raw { "raw module" } else { "module" };
        let ok = yes(&v["ok"]);
        let m = match if raw { Module::new_raw(path.clone()) } else { Module::new(path.clone()) } {
            Ok(m) => m,
            Err(x) => { r.bad("open", format!("{tag}: {x}")); continue; }
        };
        let (g, peak) = alloc::peak(|| guarded(|| (m.get_offsets(), m.get_signing_block(), Signable::get_signing_block(&m), <Module as Signable>::digest_regions(&m))));
        r.check(peak <= limit, "alloc", || format!("{tag}: {peak} bytes allocated for a file of {}", bytes.len()));
        let (offs, blk, sblk, regs) = match g {
            Ok(x) => x,
            Err(p) => { r.bad("panic", format!("{tag}: {p}")); continue; }
        };
        match offs {
            Err(x) => r.check(!ok, "offsets", || format!("{tag}: get_offsets: {x}")),
            Ok(o) => {
                let got = json!({"stop_content": o.stop_content, "start_cd": o.start_cd, "stop_cd": o.stop_cd, "start_eocd": o.start_eocd, "stop_eocd": o.stop_eocd});
                r.check(ok && got == v["offs"] && o.start_content == 0, "offsets", || format!("{tag}, state {state}: offsets {got} instead of {}", v["offs"]));
            }
        }
        match regs {
            Err(x) => r.check(!ok, "regions", || format!("{tag}: digest_regions: {x}")),
            Ok(g) => {
                let o = &v["offs"];
                let got: Vec<(u64, u64)> = g.iter().map(|x| (x.offset, x.size)).collect();
                let want = || { let u = |k: &str| us(&o[k]) as u64; vec![(0, u("stop_content")), (u("start_cd"), u("stop_cd") - u("start_cd")), (u("start_eocd"), u("stop_eocd") - u("start_eocd"))] };
                r.check(ok && got == want(), "regions", || format!("{tag}: regions {got:?}"));
            }
        }
        // the block, the absence of one, or a corruption error
        let signed = state == "signed" && !raw;
        match blk {
            Ok(b) => {
                if !signed { r.bad("block", format!("{tag}, state {state}: a block is reported at {}..{}", b.file_offset_start, b.file_offset_end)); }
                else {
                    let o = &v["offs"];
                    r.check(b.file_offset_start == us(&o["stop_content"]) && b.file_offset_end == us(&o["start_cd"]) && b.to_u8() == block_at(v), "block",
                        || format!("{tag}: block at {}..{} instead of {o}", b.file_offset_start, b.file_offset_end));
                }
            }
            Err(x) => r.check(!signed, "block", || format!("{tag}: block not read: {x}")),
        }
        match sblk {
            Ok(Some(_)) => r.check(signed, "block", || format!("{tag}, state {state}: reported as signed")),
            Ok(None) => r.check(raw || state == "unsigned", "block", || format!("{tag}, state {state}: reported as unsigned")),
            Err(x) => r.check(!(raw && ok) && state != "unsigned" && !signed, "block", || format!("{tag}, state {state}: {x}")),
        }
        // digests
        for a in ALGS {
            let (g, peak) = alloc::peak(|| guarded(|| m.digest(&Algorithms::from(a))));
            r.check(peak <= limit, "alloc", || format!("{tag}: digest: {peak} bytes allocated for a file of {}", bytes.len()));
            match g {
                Err(p) => r.bad("panic", format!("{tag}: digest: {p}")),
                Ok(Err(x)) => r.check(!ok, "digest", || format!("{tag}: digest: {x}")),
                Ok(Ok(d)) => {
                    let want = || plan_digest(&bytes, &v["plan"], Some(us(&v["offs"]["start_eocd"])), a);
                    r.check(ok && d == want(), "digest", || format!("{tag}, state {state}: digest {a:#x} differs from the chunk formula"));
                }
            }
        }
        // signing
        let mut out = Vec::new();
        match guarded(|| Signable::write_with_signature(&m, &mut out, &new)) {
            Err(p) => r.bad("panic", format!("{tag}: write_with_signature: {p}")),
            Ok(Err(x)) => r.check(!ok, "sign", || format!("{tag}, state {state}: write_with_signature: {x}")),
            Ok(Ok(())) => {
                if !ok { r.bad("refuse", format!("{tag}, state {state}: signed although it must be refused")); }
                else {
                    let want = splice(&bytes, &v["sign"], &new.to_u8());
                    r.check(out == want, "sign", || format!("{tag}, state {state}: signed file differs: {}", first_diff(&out, &want)));
                    // the produced file, read again
                    let p2 = scratch_file("signed");
                    std::fs::write(&p2, &out).expect("scratch file");
                    match guarded(|| Module::new(p2).and_then(|m2| Ok((m2.get_raw_module()?, m2.get_signing_block()?, m2.digest(&Algorithms::from(0x201))?)))) {
                        Err(p) => r.bad("panic", format!("{tag}: signed file: {p}")),
                        Ok(Err(x)) => r.bad("reread", format!("{tag}: signed file cannot be read: {x}")),
                        Ok(Ok((back, b, d))) => {
                            let orig = splice(&bytes, &v["strip"], &[]);
                            r.check(back == orig, "strip", || format!("{tag}, state {state}: raw module of the signed file: {}", first_diff(&back, &orig)));
                            r.check(b.to_u8() == new.to_u8(), "reread", || format!("{tag}: another block in the signed file"));
                            r.check(d == plan_digest(&bytes, &v["plan"], Some(us(&v["offs"]["start_eocd"])), 0x201), "digest", || format!("{tag}: signing changes the digest"));
                        }
                    }
                }
            }
        }
        // the raw module
        match guarded(|| m.get_raw_module()) {
            Err(p) => r.bad("panic", format!("{tag}: get_raw_module: {p}")),
            Ok(Err(x)) => r.check(!raw && !signed, "strip", || format!("{tag}, state {state}: get_raw_module: {x}")),
            Ok(Ok(g)) => {
                if raw { r.check(g == bytes, "strip", || format!("{tag}: get_raw_module differs from the file")); }
                else if signed { let w = splice(&bytes, &v["strip"], &[]); r.check(g == w, "strip", || format!("{tag}: raw module: {}", first_diff(&g, &w))); }
                else if state == "unsigned" { r.check(g == bytes, "strip", || format!("{tag}: unsigned module changed by get_raw_module")); }
                else { r.bad("strip", format!("{tag}, state {state}: get_raw_module succeeded")); }
            }
        }
    }
    // detection and the format-independent interface
    match guarded(|| SignableFile::open(&path).map(|s| (s.format(), s.signing_block().map(|b| b.is_some()), s.digest(&Algorithms::from(0x201)), s.digest_regions().map(|x| x.len())))) {
        Err(p) => r.bad("panic", format!("SignableFile: {p}")),
        Ok(Err(x)) => r.check(!yes(&e["ok"]), "open", || format!("SignableFile::open: {x}")),
        Ok(Ok((f, b, d, n))) => {
            if yes(&e["ok"]) {
                let v = &c["views"][0];
                r.check(f == FileFormat::Module, "open", || "not taken for a module".into());
                let exp = match state { "signed" => Some(true), "unsigned" => Some(false), _ => None };
                r.check(b.as_ref().ok().copied() == exp, "block", || format!("SignableFile, state {state}: {b:?}"));
                r.check(d.is_ok() == yes(&v["ok"]) && n.is_ok() == yes(&v["ok"]), "digest", || format!("SignableFile, state {state}: digest ok = {}", d.is_ok()));
                if let (Ok(d), true) = (d, yes(&v["ok"])) {
                    r.check(d == plan_digest(&bytes, &v["plan"], Some(us(&v["offs"]["start_eocd"])), 0x201), "digest", || "SignableFile: digest differs".into());
                }
            }
        }
    }
    r.check(std::fs::read(&path).ok().as_deref() == Some(&bytes[..]), "input", || "the input file was changed".into());
}

/// bytes of the block language put where a module holds its block
pub fn parsemod(c: &Value, r: &mut Report) {
    let b = crate::proj::bytes(&c["b"]);
    // as MCParse!PRE
    let pre: Vec<u8> = (200..=210).collect();
    let at = pre.len() + b.len();
    let cd = fill(4, 0, 13);
    let tail = fill(6, 0, 3);
    let file = [&pre[..], &b, &cd, &eocd(at as u32, 0, 3), &tail].concat();
    // what the specification says of the bytes before the central directory
    let q = &c["r"];
    let magic = b.ends_with(MAGIC) || [&pre[..], &b].concat().ends_with(MAGIC);
    // (a block further to the front is none of the central directory's)
    let state = if !magic { "unsigned" } else if yes(&q["ok"]) && us(&q["to"]) == at { "signed" } else { "corrupt" };
    r.hit(format!("state:{state}"));
    let start = if state == "signed" { us(&q["from"]) } else { at };
    let path = scratch_file("parsemod");
    std::fs::write(&path, &file).expect("scratch file");
    let new = blk_block(&json!({"d": 9, "s": 3, "e": false}));
    let m = match Module::new(path.clone()) { Ok(m) => m, Err(x) => return r.bad("open", x.to_string()) };
    let g = guarded(|| {
        let mut out = vec![];
        let w = Signable::write_with_signature(&m, &mut out, &new).map_err(|e| e.to_string()).map(|()| out);
        (m.get_signing_block().map(|b| (b.file_offset_start, b.file_offset_end, b.to_u8())).map_err(|e| e.to_string()), Signable::get_signing_block(&m).map(|b| b.map(|b| b.to_u8())).map_err(|e| e.to_string()),
         m.get_offsets().map(|o| (o.start_content, o.stop_content, o.start_cd, o.stop_cd, o.start_eocd, o.stop_eocd)).map_err(|e| e.to_string()), m.digest(&Algorithms::from(0x201)).map_err(|e| e.to_string()),
         m.get_raw_module().map_err(|e| e.to_string()), w, Signable::is_signed(&m), SignableFile::open(&path).and_then(|s| s.signing_block()).map(|b| b.is_some()).map_err(|e| e.to_string()))
    });
    let (blk, sblk, offs, dig, raw, out, is, any) = match g { Ok(x) => x, Err(p) => return r.bad("panic", p) };
    let t = || format!("{} bytes {} before the central directory, {state}", b.len(), c["s"]);
    let chunks = |f: &[u8], cd0: usize, cd1: usize, e: usize| plan_digest(f, &json!({"mask": start, "chunks": [{"from": 0, "n": start}, {"from": cd0, "n": cd1 - cd0}, {"from": e, "n": f.len() - e}]}), Some(e), 0x201);
    let e = at + cd.len();
    if state == "corrupt" {
        r.check(blk.is_err() && sblk.is_err() && any.is_err(), "block", || format!("{}: {blk:?} {sblk:?} {any:?}", t()));
        r.check(offs.is_err(), "offsets", || format!("{}: {offs:?}", t()));
        r.check(dig.is_err(), "digest", || format!("{}: a digest is computed", t()));
        r.check(out.is_err(), "refuse", || format!("{}: signed although its block is corrupt", t()));
        r.check(raw.is_err(), "strip", || format!("{}: stripped although its block is corrupt", t()));
        return;
    }
    let signed = state == "signed";
    r.check(offs == Ok((0, start, at, e, e, file.len())), "offsets", || format!("{}: {offs:?}", t()));
    r.check(dig == Ok(chunks(&file, at, e, e)), "digest", || format!("{}: digest {dig:?}", t()));
    r.check(is == signed && any == Ok(signed), "block", || format!("{}: reported as signed: {is} {any:?}", t()));
    if signed {
        let want = file[start..at].to_vec();
        r.check(blk == Ok((start, at, want.clone())) && sblk == Ok(Some(want)), "block", || format!("{}: another block", t()));
    } else { r.check(blk.is_err() && sblk == Ok(None), "block", || format!("{}: {blk:?} {sblk:?}", t())); }
    let mut plain = [&file[..start], &file[at..]].concat();
    let ee = start + cd.len();
    plain[ee + 16..ee + 20].copy_from_slice(&(start as u32).to_le_bytes());
    if signed { r.check(raw.as_ref() == Ok(&plain), "strip", || format!("{}: the raw module is not the file without the block", t())); }
    else { r.check(raw.is_err() || raw.as_ref() == Ok(&file), "strip", || format!("{}: the raw module of an unsigned file", t())); }
    let nb = new.to_u8();
    let mut want = [&plain[..start], &nb, &plain[start..]].concat();
    let ne = ee + nb.len();
    want[ne + 16..ne + 20].copy_from_slice(&((start + nb.len()) as u32).to_le_bytes());
    match out {
        Ok(o) => r.check(o == want, "sign", || format!("{}: signed file differs: {}", t(), first_diff(&o, &want))),
        Err(x) => r.bad("sign", format!("{}: {x}", t())),
    }
}
