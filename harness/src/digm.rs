//! The digest functions called directly.
use crate::proj::arr;
use crate::zipm::{fill, hash, int, plan_digest, us};
use crate::{guarded, Report};
use ksusig::file_formats::elf::digest::digest_elf_sections;
use ksusig::module::digest::{digest_central_directory, digest_end_of_central_directory, digest_final_digest, digest_module, digest_zip_contents};
use ksusig::module::zip::FileOffsets;
use ksusig::Algorithms;
use serde_json::{json, Value};
use std::io::Cursor;

/// a file whose first `base` bytes are all alike, followed by the data
struct FarFile<'a> { base: u64, data: &'a [u8], pos: u64 }
impl std::io::Read for FarFile<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = if self.pos < self.base {
            let n = b.len().min((self.base - self.pos) as usize);
            b[..n].fill(0xee);
            n
        } else {
            let rest = self.data.get((self.pos - self.base) as usize..).unwrap_or(&[]);
            let n = b.len().min(rest.len());
            b[..n].copy_from_slice(&rest[..n]);
            n
        };
        self.pos += n as u64;
        Ok(n)
    }
}
impl std::io::Seek for FarFile<'_> {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        let end = self.base + self.data.len() as u64;
        let q = match p { std::io::SeekFrom::Start(x) => Some(x), std::io::SeekFrom::End(d) => end.checked_add_signed(d), std::io::SeekFrom::Current(d) => self.pos.checked_add_signed(d) };
        self.pos = q.ok_or_else(|| std::io::Error::new(std::io::ErrorKind::InvalidInput, "seek"))?;
        Ok(self.pos)
    }
}

fn chunk(alg: u32, d: &[u8]) -> Vec<u8> { hash(alg, &[&[0xa5][..], &(d.len() as u32).to_le_bytes(), d].concat()) }

pub fn digest(c: &Value, r: &mut Report) {
    let t = c["t"].as_str().unwrap_or("");
    r.hit(t.to_string());
    let far: usize = if c["far"].is_null() { 0 } else { 1 << int(&c["far"]) };
    for a in [0x201, 0x202] {
        let al = Algorithms::from(a);
        match t {
            "module" => {
                let o = &c["o"];
                let u = |k: &str| us(&o[k]);
                let offs = FileOffsets { start_content: u("start_content"), stop_content: u("stop_content"), start_cd: u("start_cd"), stop_cd: u("stop_cd"), start_eocd: u("start_eocd"), stop_eocd: u("stop_eocd") };
                let data = fill(3, 0, offs.stop_eocd as i64);
                let want = plan_digest(&data, &json!({"mask": offs.stop_content + far, "chunks": c["chunks"]}), Some(offs.start_eocd), a);
                if far > 0 {
                    let o2 = FileOffsets { start_content: u("start_content") + far, stop_content: u("stop_content") + far, start_cd: u("start_cd") + far, stop_cd: u("stop_cd") + far, start_eocd: u("start_eocd") + far, stop_eocd: u("stop_eocd") + far };
                    let g = guarded(|| digest_module(&mut FarFile { base: far as u64, data: &data, pos: 0 }, &o2, &al).map_err(|e| e.to_string()));
                    r.check(g == Ok(Ok(want)), "digest", || format!("digest_module {a:#x} with {o}, {far} bytes into a file: {g:?}"));
                    continue;
                }
                let g = guarded(|| digest_module(&mut Cursor::new(&data), &offs, &al).map_err(|e| e.to_string()));
                r.check(g == Ok(Ok(want)), "digest", || format!("digest_module {a:#x} with {o}: {g:?}"));
                // region by region
                let mut masked = data.clone();
                masked[offs.start_eocd + 16..offs.start_eocd + 20].copy_from_slice(&(offs.stop_content as u32).to_le_bytes());
                let part = |f: usize, t: usize| -> Vec<Vec<u8>> { arr(&c["chunks"]).iter().filter(|x| us(&x["from"]) >= f && us(&x["from"]) < t).map(|x| chunk(a, &masked[us(&x["from"])..us(&x["from"]) + us(&x["n"])])).collect() };
                let m = || Cursor::new(&data);
                let g = guarded(|| (digest_zip_contents(&mut m(), offs.start_content, offs.stop_content - offs.start_content, &al).map_err(|e| e.to_string()),
                    digest_central_directory(&mut m(), offs.start_cd, offs.stop_cd - offs.start_cd, &al).map_err(|e| e.to_string()),
                    digest_end_of_central_directory(&mut m(), offs.start_eocd, offs.stop_eocd - offs.start_eocd, offs.stop_content, &al).map_err(|e| e.to_string())));
                let w = (Ok(part(offs.start_content, offs.stop_content)), Ok(part(offs.start_cd, offs.stop_cd)), Ok(part(offs.start_eocd, offs.stop_eocd)));
                r.check(g.as_ref() == Ok(&w), "digest", || format!("chunk digests {a:#x} with {o} differ"));
            }
            "count" => {
                let n = int(&c["n"]);
                let head: Vec<u8> = arr(&c["head"]).iter().map(|x| int(x) as u8).collect();
                let w = if a == 0x201 { 32 } else { 64 };
                let chunks: Vec<Vec<u8>> = (0..n).map(|i| fill(i % 50, i, w)).collect();
                let want = hash(a, &[head, chunks.concat()].concat());
                let g = guarded(|| digest_final_digest(chunks.clone(), &al));
                r.check(g.as_ref() == Ok(&want), "digest", || format!("digest_final_digest {a:#x} of {n} chunk digests"));
            }
            _ => {
                let secs: Vec<(String, u64, u64)> = arr(&c["secs"]).iter().enumerate().map(|(i, s)| (format!(".s{i}"), int(&s["off"]) as u64, int(&s["n"]) as u64)).collect();
                let end = secs.iter().map(|s| s.1 + s.2).max().unwrap_or(0);
                let data = fill(4, 0, end as i64 + 9);
                let want = plan_digest(&data, &json!({"mask": 0, "chunks": c["chunks"]}), None, a);
                let moved: Vec<(String, u64, u64)> = secs.iter().map(|(n, o, s)| (n.clone(), o + far as u64, *s)).collect();
                let g = guarded(|| digest_elf_sections(&mut FarFile { base: far as u64, data: &data, pos: 0 }, &moved, &al).map_err(|e| e.to_string()));
                r.check(g == Ok(Ok(want)), "elfdigest", || format!("digest_elf_sections {a:#x} of {} sections", secs.len()));
            }
        }
    }
}
