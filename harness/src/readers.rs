//! Readers that deliver bytes in their own way.
use crate::hist::{digest_of, module, with_block, Plain};
use crate::proj::arr;
use crate::zipm::{blk_block, eocd, fill, int, plan_digest};
use crate::{guarded, Report};
use ksusig::file_formats::elf::digest::digest_elf_sections;
use ksusig::module::digest::digest_module;
use ksusig::module::zip::{find_eocd, FileOffsets};
use ksusig::{Algorithms, SigningBlock};
use serde_json::{json, Value};
use std::io::{Cursor, Error, ErrorKind, Read, Seek, SeekFrom};
use std::sync::OnceLock;

struct Odd<'a> { data: Cursor<&'a [u8]>, steps: &'a [i64], cycle: bool, skip: usize, calls: usize, bad_seek: usize, seeks: usize, hard: bool, soft: bool }
impl Read for Odd<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if b.is_empty() { return Ok(0); }
        let i = self.calls;
        self.calls += 1;
        let k = if i < self.skip { i64::MAX } else { let j = i - self.skip; if j < self.steps.len() { self.steps[j] } else if self.cycle { self.steps[j % self.steps.len()] } else { i64::MAX } };
        match k {
            -1 => { self.hard = true; Err(Error::other("the device failed")) }
            0 => { self.soft = true; Err(ErrorKind::Interrupted.into()) }
            k => { let n = b.len().min(k as usize); self.data.read(&mut b[..n]) }
        }
    }
}
impl Seek for Odd<'_> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.seeks += 1;
        if self.seeks == self.bad_seek { self.hard = true; return Err(Error::other("the device failed")); }
        self.data.seek(p)
    }
}
struct Subject { p: Plain, file: Vec<u8>, n: usize, d: [Vec<u8>; 2], elf: Vec<(String, u64, u64)>, e: [Vec<u8>; 2] }
fn subjects() -> &'static [Subject] {
    static S: OnceLock<Vec<Subject>> = OnceLock::new();
    S.get_or_init(|| {
        let big = |n: i64, cd: i64| { let mut b = fill(1, 0, n); b.extend(fill(4, 0, cd)); b.extend(eocd(n as u32, 0, 0)); b.extend(fill(6, 0, 3)); Plain { bytes: b, cd: n as usize, eocd: (n + cd) as usize } };
        [module(3, 0), module(4, 0), big((1 << 20) + 1, 80), big(2 << 20, (1 << 20) + 5)].into_iter().map(|p| {
            let b = blk_block(&json!({"d": 33, "s": 5, "e": false})).to_u8();
            let file = with_block(&p, &b);
            let l = file.len() as u64;
            let elf = vec![(".a".to_string(), 0, 7), (".b".to_string(), 9, l / 2), (".c".to_string(), l / 2 + 20, l - l / 2 - 20)];
            let chunks: Vec<Value> = elf.iter().flat_map(|(_, o, n)| { let mut v = vec![]; let (mut a, z) = (*o, o + n); while a < z { let k = (z - a).min(1 << 20); v.push(json!({"from": a, "n": k})); a += k; } v }).collect();
            let e = [0x201, 0x202].map(|a| plan_digest(&file, &json!({"mask": 0, "chunks": chunks}), None, a));
            let whole = |a: u32| if p.bytes.len() < 1 << 20 { digest_of(&p, a) } else {
                let mut c = vec![];
                for (f, t) in [(0, p.cd), (p.cd, p.eocd), (p.eocd, p.bytes.len())] { let mut x = f; while x < t { let k = (t - x).min(1 << 20); c.push(json!({"from": x, "n": k})); x += k; } }
                plan_digest(&p.bytes, &json!({"mask": p.cd, "chunks": c}), Some(p.eocd), a)
            };
            let d = [whole(0x201), whole(0x202)];
            Subject { n: b.len(), file, d, elf, e, p }
        }).collect()
    })
}
#[derive(PartialEq, Debug)]
enum Got { Eocd(usize, u32, u16), Block(Vec<u8>, usize), Digest(Vec<u8>) }

pub fn reader(c: &Value, r: &mut Report) {
    let steps: Vec<i64> = arr(&c["steps"]).iter().map(int).collect();
    for (si, s) in subjects().iter().enumerate() {
        let (len, cd, e) = (s.file.len(), s.p.cd + s.n, s.p.eocd + s.n);
        let offs = || FileOffsets { start_content: 0, stop_content: s.p.cd, start_cd: cd, stop_cd: e, start_eocd: e, stop_eocd: len };
        let cl = u16::from_le_bytes(s.file[e + 20..e + 22].try_into().unwrap());
        let apis: [(&str, Got); 6] = [
            ("find_eocd", Got::Eocd(e, cd as u32, cl)), ("from_reader", Got::Block(s.file[s.p.cd..cd].to_vec(), s.p.cd)),
            ("digest_module 256", Got::Digest(s.d[0].clone())), ("digest_module 512", Got::Digest(s.d[1].clone())),
            ("digest_elf_sections 256", Got::Digest(s.e[0].clone())), ("digest_elf_sections 512", Got::Digest(s.e[1].clone()))];
        let ways: Vec<(bool, usize, usize, usize)> = if si < 2 {
            let mut w: Vec<_> = [(false, 0), (true, 0), (false, 1), (false, 2), (true, 3)].iter().map(|x| (x.0, x.1, 0, len)).collect();
            if steps == [1] { for k in 1..8 { w.push((true, 0, k, len)); } for t in [0, 1, 5, s.p.cd - 1, s.p.cd, cd - 1, cd, e, e + 10, len - 1] { w.push((true, 0, 0, t)); w.push((false, 0, 0, t)); } }
            w
        } else if steps.len() == 1 || (steps.len() == 2 && si == 2) { vec![(true, 0, 0, len), (false, 1, 0, len)] } else { continue };
        for (name, want) in &apis {
            if si >= 2 && name.ends_with("512") { continue; }
            for &(cycle, skip, bad_seek, cut) in &ways {
                if steps.iter().all(|x| *x == 0) && cycle { continue; } // interrupted for ever
                let mut o = Odd { data: Cursor::new(&s.file[..cut]), steps: &steps, cycle, skip, calls: 0, bad_seek, seeks: 0, hard: false, soft: false };
                let a = Algorithms::from(if name.ends_with("512") { 0x202 } else { 0x201 });
                let g = guarded(|| match *name {
                    "find_eocd" => find_eocd(&mut o, len).map(|x| Got::Eocd(x.file_offset, x.cd_offset, x.comment_len)),
                    "from_reader" => SigningBlock::from_reader(&mut o, len, len - cd).map(|b| Got::Block(b.to_u8(), b.file_offset_start)),
                    n if n.starts_with("digest_module") => digest_module(&mut o, &offs(), &a).map(Got::Digest),
                    _ => digest_elf_sections(&mut o, &s.elf, &a).map(Got::Digest),
                });
                let tag = || format!("{name}, file {si}, deliveries {steps:?}{}, after {skip} calls{}{}", if cycle { " over and over" } else { "" }, if bad_seek > 0 { format!(", seek {bad_seek} fails") } else { String::new() }, if cut < len { format!(", data ends at {cut}") } else { String::new() });
                match g {
                    Err(p) => r.bad("panic", format!("{}: {p}", tag())),
                    Ok(Ok(x)) => {
                        if o.hard { r.bad("error", format!("{}: the failure of the reader is not reported", tag())); }
                        else if x != *want { r.bad("deliver", format!("{}: another result", tag())); }
                        else { r.hit("same result"); }
                    }
                    Ok(Err(e)) => { if !o.hard && !o.soft && cut == len { r.bad("deliver", format!("{}: {e}", tag())); } else { r.hit("error reported"); } }
                }
                if !r.issues.is_empty() { return; }
            }
        }
    }
}
