//! ELF files: building them from the specification, reading them with a reader of our own, and
//! comparing what the library makes of them.
use crate::proj::arr;
use crate::zipm::{blk_block, fill, first_diff, int, plan_digest, scratch_file, us, yes};
use crate::{alloc, guarded, Report};
use ksusig::file_formats::elf::ElfFile;
use ksusig::{Algorithms, FileFormat, SignableFile, SigningBlock};
use serde_json::{json, Value};

pub struct Form { pub c64: bool, pub le: bool }
impl Form {
    fn put(&self, v: &mut [u8], at: usize, n: usize, x: u64) {
        for i in 0..n { v[at + if self.le { i } else { n - 1 - i }] = (x >> (8 * i)) as u8; }
    }
    fn get(&self, v: &[u8], at: usize, n: usize) -> Option<u64> {
        let b = v.get(at..at.checked_add(n)?)?;
        Some((0..n).fold(0, |a, i| a | u64::from(b[if self.le { i } else { n - 1 - i }]) << (8 * i)))
    }
    fn word(&self) -> usize { if self.c64 { 8 } else { 4 } }
    pub fn shsize(&self) -> usize { if self.c64 { 64 } else { 40 } }
    fn hsize(&self) -> usize { if self.c64 { 64 } else { 52 } }
    // offsets of e_shoff, e_shentsize, e_shnum, e_shstrndx
    fn hdr(&self) -> (usize, usize, usize, usize) { if self.c64 { (40, 58, 60, 62) } else { (32, 46, 48, 50) } }
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Sec { pub name: Vec<u8>, pub typ: u64, pub flags: u64, pub addr: u64, pub off: u64, pub size: u64, pub link: u64, pub info: u64, pub align: u64, pub ent: u64 }

pub fn build(f: &Value) -> Vec<u8> {
    let m = Form { c64: int(&f["class"]) == 64, le: yes(&f["le"]) };
    let lay = f["layout"].as_str().unwrap_or("");
    let secs = arr(&f["secs"]);
    let mut v = fill(3, 0, int(&f["len"]));
    let w = m.word();
    let hs = m.hsize();
    v[..hs].fill(0);
    v[..16].copy_from_slice(&[0x7f, b'E', b'L', b'F', if m.c64 { 2 } else { 1 }, if m.le { 1 } else { 2 }, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
    m.put(&mut v, 16, 2, 3);
    m.put(&mut v, 18, 2, if m.c64 { 183 } else { 40 });
    m.put(&mut v, 20, 4, 1);
    m.put(&mut v, 24, w, 0x1234);
    let (shoff, shent, shnum, shstr) = m.hdr();
    let phent = if m.c64 { 56 } else { 32 };
    let ph = lay == "mixed";
    // without program headers their position means nothing, and stays what it is
    let odd = lay == "nonul";
    m.put(&mut v, 24 + w, w, if ph { hs as u64 } else if odd { 0x34 } else { 0 });
    if odd { v[7] = 3; v[8] = 1; m.put(&mut v, 16, 2, 2); }
    m.put(&mut v, shoff, w, us(&f["shoff"]) as u64);
    m.put(&mut v, shoff + w, 4, 0x500);
    m.put(&mut v, shoff + w + 4, 2, hs as u64);
    m.put(&mut v, shoff + w + 6, 2, phent as u64);
    m.put(&mut v, shoff + w + 8, 2, u64::from(ph));
    m.put(&mut v, shent, 2, m.shsize() as u64);
    m.put(&mut v, shnum, 2, secs.len() as u64);
    m.put(&mut v, shstr, 2, secs.iter().position(|s| yes(&s["str"])).unwrap() as u64);
    if ph {
        v[hs..hs + phent].fill(0);
        m.put(&mut v, hs, 4, 1);
        let len = int(&f["len"]) as u64;
        if m.c64 { m.put(&mut v, hs + 4, 4, 5); m.put(&mut v, hs + 32, 8, len); m.put(&mut v, hs + 40, 8, len); m.put(&mut v, hs + 48, 8, 0x1000) }
        else { m.put(&mut v, hs + 16, 4, len); m.put(&mut v, hs + 20, 4, len); m.put(&mut v, hs + 24, 4, 5); m.put(&mut v, hs + 28, 4, 0x1000) }
    }
    // the name table
    let st = secs.iter().find(|s| yes(&s["str"])).unwrap();
    let (so, sn) = (us(&st["off"]), us(&st["size"]));
    let mut tab = vec![0u8; sn];
    let mut at = 1;
    let mut offs = vec![0u64; secs.len()];
    for (i, s) in secs.iter().enumerate() {
        let n = s["name"].as_str().unwrap_or("").as_bytes();
        if n.is_empty() { continue; }
        let last = i + 1 == secs.len();
        if lay == "nonul" && last {
            // the last name ends with the table
            offs[i] = (sn - n.len()) as u64;
            tab[sn - n.len()..].copy_from_slice(n);
            continue;
        }
        if let Some(j) = secs[..i].iter().position(|t| { let t = t["name"].as_str().unwrap_or(""); t.as_bytes().ends_with(n) && t.len() > n.len() }) {
            offs[i] = offs[j] + (secs[j]["name"].as_str().unwrap_or("").len() - n.len()) as u64;
            continue;
        }
        tab[at..at + n.len()].copy_from_slice(n);
        offs[i] = at as u64;
        at += n.len() + 1;
    }
    v[so..so + sn].copy_from_slice(&tab);
    for (i, s) in secs.iter().enumerate() {
        let e = us(&f["shoff"]) + i * m.shsize();
        v[e..e + m.shsize()].fill(0);
        m.put(&mut v, e, 4, offs[i]);
        m.put(&mut v, e + 4, 4, int(&s["type"]) as u64);
        let mut a = e + 8;
        let null = i == 0;
        for (n, x) in [(w, int(&s["flags"]) as u64), (w, if null { 0 } else { 0x1000 * i as u64 }), (w, int(&s["off"]) as u64), (w, int(&s["size"]) as u64), (4, if null { 0 } else { (i * 7 % 5) as u64 }), (4, if null { 0 } else { i as u64 }), (w, if null { 0 } else { 1 << (i % 5) }), (w, if null { 0 } else { (i * 5 % 7) as u64 })] { m.put(&mut v, a, n, x); a += n; }
    }
    v
}
/// header form, sections, index of the name table
pub fn parse(v: &[u8]) -> Option<(Form, Vec<Sec>, usize)> {
    if v.get(..4)? != b"\x7fELF" { return None; }
    let m = Form { c64: *v.get(4)? == 2, le: *v.get(5)? == 1 };
    let w = m.word();
    let (shoff, _, shnum, shstr) = m.hdr();
    let (o, n, k) = (m.get(v, shoff, w)? as usize, m.get(v, shnum, 2)? as usize, m.get(v, shstr, 2)? as usize);
    let mut out = vec![];
    let mut names = vec![];
    for i in 0..n {
        let e = o.checked_add(i * m.shsize())?;
        names.push(m.get(v, e, 4)? as usize);
        let mut a = e + 8;
        let mut x = [0; 8];
        for (j, n) in [w, w, w, w, 4, 4, w, w].into_iter().enumerate() { x[j] = m.get(v, a, n)?; a += n; }
        out.push(Sec { name: vec![], typ: m.get(v, e + 4, 4)?, flags: x[0], addr: x[1], off: x[2], size: x[3], link: x[4], info: x[5], align: x[6], ent: x[7] });
    }
    let s = out.get(k)?;
    let tab = v.get(s.off as usize..(s.off as usize).checked_add(s.size as usize)?)?;
    for (s, a) in out.iter_mut().zip(names) { s.name = tab.get(a..)?.iter().take_while(|b| **b != 0).copied().collect(); }
    Some((m, out, k))
}
pub fn masked(v: &[u8], m: &Form) -> Vec<u8> {
    let mut v = v.to_vec();
    let (a, b, c, d) = m.hdr();
    for (x, n) in [(a, m.word()), (b, 2), (c, 2), (d, 2)] { v[x..x + n].fill(0); }
    v
}
fn blocks() -> [SigningBlock; 3] { [9, 300, 0].map(|d| blk_block(&json!({"d": d, "s": d, "e": false}))) }

/// requests against one file; `same`: digests must be those of this file
fn requests(r: &mut Report, tag: &str, path: &std::path::Path, orig: &[u8], reqs: &[Value]) {
    for (qi, q) in reqs.iter().enumerate() {
        let names: Vec<String> = arr(&q["names"]).iter().map(|x| x.as_str().unwrap_or("").to_string()).collect();
        // blanks around names and empty names do not count
        let given: Vec<String> = match qi % 3 { 0 => names.clone(), 1 => names.iter().map(|n| format!(" {n}\t")).collect(), _ => names.iter().cloned().chain([String::new(), " ".into()]).collect() };
        let ok = yes(&q["ok"]);
        let g = guarded(|| -> Result<_, String> {
            let mut e = ElfFile::new(path.to_path_buf()).map_err(|e| format!("open: {e}"))?;
            if !(qi % 2 == 0 && names == [".text", ".rodata"]) { e.set_signed_sections(given.clone()).map_err(|e| e.to_string())?; }
            let d: Vec<_> = [0x201, 0x202].iter().map(|a| e.digest(&Algorithms::from(*a)).map_err(|e| e.to_string())).collect();
            let regs = e.digest_regions().map(|l| l.into_iter().map(|x| (x.name, x.offset, x.size)).collect::<Vec<_>>()).map_err(|e| e.to_string());
            let res = e.resolved_sections().map_err(|e| e.to_string());
            let mut s = SignableFile::open(path).map_err(|e| e.to_string())?;
            s.set_elf_sections(given.clone()).map_err(|e| e.to_string())?;
            let sd = s.digest(&Algorithms::from(0x201)).map_err(|e| e.to_string());
            Ok((d, regs, res, sd))
        });
        let t = || format!("{tag}, request {names:?}");
        match g {
            Err(p) => r.bad("panic", format!("{}: {p}", t())),
            Ok(Err(e)) => r.check(!ok, "request", || format!("{}: {e}", t())),
            Ok(Ok((d, regs, res, sd))) => {
                if !ok {
                    r.hit("request refused");
                    r.check(d.iter().all(|x| x.is_err()) && regs.is_err() && res.is_err() && sd.is_err(), "request", || format!("{}: accepted", t()));
                    continue;
                }
                r.hit("request digested");
                let want: Vec<(String, u64, u64)> = arr(&q["regs"]).iter().map(|x| (x["name"].as_str().unwrap_or("").to_string(), int(&x["off"]) as u64, int(&x["size"]) as u64)).collect();
                r.check(regs.as_ref() == Ok(&want) && res.as_ref() == Ok(&want), "regions", || format!("{}: {regs:?}, {res:?} instead of {want:?}", t()));
                for (a, d) in [0x201, 0x202].into_iter().zip(d.iter()) {
                    let w = plan_digest(orig, &json!({"mask": 0, "chunks": q["chunks"]}), None, a);
                    r.check(d.as_ref() == Ok(&w), "digest", || format!("{}: digest {a:#x} is not that of the sections", t()));
                    if a == 0x201 { r.check(sd.as_ref() == Ok(&w), "digest", || format!("{}: SignableFile digest", t())); }
                }
            }
        }
    }
}
pub fn elf(c: &Value, r: &mut Report) {
    let bytes = build(&c["f"]);
    let path = scratch_file("elf");
    std::fs::write(&path, &bytes).expect("scratch file");
    let (form, orig, _) = parse(&bytes).expect("ELF of a case");
    let tag = format!("{}-bit {} {} {}", c["f"]["class"], if yes(&c["f"]["le"]) { "LE" } else { "BE" }, c["f"]["layout"], c["f"]["kinds"]);
    match guarded(|| SignableFile::open(&path).map(|s| s.format())) {
        Err(p) => return r.bad("panic", p),
        Ok(Err(e)) => return r.bad("open", format!("{tag}: {e}")),
        Ok(Ok(f)) => r.check(f == FileFormat::Elf, "open", || format!("{tag}: not taken for an ELF")),
    }
    requests(r, &tag, &path, &bytes, arr(&c["reqs"]));
    // is there a block to begin with
    let first = arr(&c["f"]["secs"]).iter().find(|s| s["name"] == ".ksu_sign").map(|s| int(&s["size"]));
    let g = guarded(|| ElfFile::new(path.clone()).map_err(|e| e.to_string()).and_then(|e| e.get_signing_block().map_err(|e| e.to_string())));
    let good = match (&g, first) { (Ok(Ok(None)), None | Some(0)) => true, (Ok(Err(_)), Some(n)) => n > 0, _ => false };
    r.check(good, "block", || format!("{tag}: get_signing_block of the unsigned file: {g:?}"));
    // signing once, and twice more
    let mut file = bytes.clone();
    for (k, b) in blocks().iter().enumerate() {
        std::fs::write(&path, &file).expect("scratch file");
        let mut out = vec![];
        let via = k == 1;
        let g = guarded(|| if via { SignableFile::open(&path).and_then(|s| s.write_with_signature(&mut out, b)).map_err(|e| e.to_string()) }
                           else { ElfFile::new(path.clone()).and_then(|e| e.write_with_signature(&mut out, b)).map_err(|e| e.to_string()) });
        let tag = format!("{tag}, signed {} times", k + 1);
        match g { Err(p) => return r.bad("panic", format!("{tag}: {p}")), Ok(Err(e)) => return r.bad("sign", format!("{tag}: {e}")), Ok(Ok(())) => {} }
        r.check(std::fs::read(&path).ok().as_deref() == Some(&file[..]), "input", || format!("{tag}: the file on disk was changed"));
        r.hit("signed");
        let Some((m2, now, str2)) = parse(&out) else { return r.bad("sign", format!("{tag}: no ELF comes out")) };
        if m2.c64 != form.c64 || m2.le != form.le { return r.bad("sign", format!("{tag}: class or byte order changed")); }
        if out.len() < file.len() { return r.bad("sign", format!("{tag}: the file shrinks")); }
        let (a, z) = (masked(&out[..bytes.len()], &form), masked(&bytes, &form));
        r.check(a == z, "bytes", || format!("{tag}: original bytes changed: {}", first_diff(&a, &z)));
        let want = arr(if k == 0 { &c["after"] } else { &c["again"] });
        if now.len() != want.len() { return r.bad("sections", format!("{tag}: {} sections instead of {}", now.len(), want.len())); }
        let mut sig = None;
        for (i, w) in want.iter().enumerate() {
            let s = &now[i];
            let name = w["name"].as_str().unwrap_or("").as_bytes();
            if name == b".ksu_sign" && int(&w["off"]) == -1 {
                r.check(s.name == name && s.typ == 1, "sections", || format!("{tag}: signature section {s:?}"));
                r.check(sig.is_none(), "sections", || format!("{tag}: two signature sections"));
                sig = Some(s.clone());
                continue;
            }
            let mut o = orig[i].clone();
            if yes(&w["str"]) {
                // the name table may move and grow
                r.check(str2 == i, "sections", || format!("{tag}: another name table"));
                let (old, new) = (&bytes[o.off as usize..(o.off + o.size) as usize], out.get(s.off as usize..(s.off + s.size) as usize).unwrap_or(&[]));
                r.check(new.starts_with(old), "sections", || format!("{tag}: the name table lost its content"));
                o.off = s.off;
                o.size = s.size;
            }
            r.check(*s == o, "sections", || format!("{tag}: section {i} changed from {o:?} to {s:?}"));
            if o.typ != 8 && !yes(&w["str"]) && o.off + o.size <= bytes.len() as u64 && i > 0 {
                let x = o.off as usize..(o.off + o.size) as usize;
                r.check(out[x.clone()] == bytes[x], "bytes", || format!("{tag}: bytes of section {i} changed"));
            }
        }
        match sig {
            None => r.bad("sections", format!("{tag}: no signature section")),
            Some(s) => r.check(out.get(s.off as usize..(s.off + s.size) as usize) == Some(&b.to_u8()[..]), "block", || format!("{tag}: the signature section does not hold the block")),
        }
        std::fs::write(&path, &out).expect("scratch file");
        let g = guarded(|| ElfFile::new(path.clone()).map_err(|e| e.to_string()).and_then(|e| e.get_signing_block().map_err(|e| e.to_string())).map(|x| x.map(|b| b.to_u8())));
        r.check(g == Ok(Ok(Some(b.to_u8()))), "block", || format!("{tag}: reading the block back: {g:?}"));
        let g = guarded(|| SignableFile::open(&path).and_then(|s| s.signing_block()).map(|x| x.map(|b| b.to_u8())).map_err(|e| e.to_string()));
        r.check(g == Ok(Ok(Some(b.to_u8()))), "block", || format!("{tag}: SignableFile::signing_block: {g:?}"));
        if k != 1 || bytes.len() < 1 << 20 {
            let n = r.issues.len();
            requests(r, &tag, &path, &bytes, arr(&c["reqs"]));
            for x in &mut r.issues[n..] { if x.kind == "digest" || x.kind == "request" { x.kind = if x.kind == "digest" { "stable" } else { "stable" }; } }
        }
        if r.issues.len() > 5 { return; }
        file = out;
    }
}
/// bytes presented as an ELF: one field or byte changed, or cut
pub fn elfbytes(c: &Value, r: &mut Report) {
    let bytes = build(&c["f"]);
    let bytes = if yes(&c["signed"]) {
        let p = scratch_file("elfsrc");
        std::fs::write(&p, &bytes).expect("scratch file");
        let mut out = vec![];
        ElfFile::new(p).expect("ELF").write_with_signature(&mut out, &blocks()[0]).expect("sign");
        out
    } else { bytes };
    let path = scratch_file("elfbytes");
    let try_one = |r: &mut Report, f: &[u8], what: &dyn Fn() -> String| {
        std::fs::write(&path, f).expect("scratch file");
        let limit = alloc::allowed(f.len()) + (16 << 20);
        let t = std::time::Instant::now();
        let (g, peak) = alloc::peak(|| guarded(|| {
            let _ = SignableFile::open(&path).map(|s| (s.digest(&Algorithms::from(0x201)).is_ok(), s.signing_block().is_ok()));
            if let Ok(mut e) = ElfFile::new(path.clone()) {
                let _ = e.get_signing_block();
                let _ = e.write_with_signature(&mut std::io::sink(), &blocks()[0]);
                for n in [".text", ".shstrtab", ".bss", ".out"] { let _ = e.set_signed_sections(vec![n.into()]); let d = e.digest(&Algorithms::from(0x201)); if let (Ok(_), Ok(l)) = (&d, e.resolved_sections()) { for (n, o, s) in l { if s == 0 || o.checked_add(s).is_none_or(|z| z > f.len() as u64) { panic!("section {n} outside the file digested"); } } } }
            }
        }));
        r.hit("files");
        if let Err(p) = g { r.bad("panic", format!("{}: {p}", what())); }
        r.check(peak <= limit, "alloc", || format!("{}: {peak} bytes allocated for {}", what(), f.len()));
        r.check(t.elapsed().as_secs() < 20, "hang", || what());
    };
    match c["op"].as_str().unwrap_or("") {
        "cut" => for n in 0..bytes.len() { try_one(r, &bytes[..n], &|| format!("cut to {n}")); },
        "byte" => for i in 0..bytes.len() {
            if bytes.len() > 1200 && i > 300 && i + 700 < bytes.len() { continue; }
            let mut f = bytes.clone();
            f[i] = match int(&c["v"]) { 256 => f[i] ^ 1, 257 => f[i] ^ 0x80, x => x as u8 };
            if f[i] == bytes[i] { continue; }
            try_one(r, &f, &|| format!("byte {i} changed from {} to {}", bytes[i], f[i]));
        },
        // words set to extreme values
        _ => for i in (0..bytes.len() - 8).step_by(2) {
            if bytes.len() > 1200 && i > 300 && i + 700 < bytes.len() { continue; }
            for n in [2usize, 4, 8] {
                for x in [0u64, 1, u64::MAX, u64::MAX >> 1, 0x7fff_fff0, bytes.len() as u64, 0x1_0000_0000] {
                    let mut f = bytes.clone();
                    let m = Form { c64: true, le: yes(&c["f"]["le"]) };
                    m.put(&mut f, i, n, x);
                    try_one(r, &f, &|| format!("{n} bytes at {i} set to {x:#x}"));
                    if r.issues.len() > 5 { return; }
                }
            }
        },
    }
}
