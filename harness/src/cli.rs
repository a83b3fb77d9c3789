//! The command line tool, run as a process in a directory of its own.
use crate::hist::{digest_of, judge_subs, module, now, unpadded, with_block};
use crate::proj::arr;
use crate::zipm::{eocd, fill, first_diff, int, plan_digest, scratch_file, us, yes};
use crate::{elfm, keys, own, Report};
use serde_json::{json, Value};
use std::path::Path;
use std::process::{Command, Stdio};

fn zip_form(form: &str) -> Option<i64> { form.strip_prefix("zip").and_then(|n| n.parse().ok()) }
/// the bytes of a form without block; None: there is no such file
fn bytes_of(form: &str, elf: &Value) -> Option<Vec<u8>> {
    if let Some(n) = zip_form(form) { return Some(module(n, 0).bytes); }
    Some(match form {
        "absent" | "dir" => return None,
        "corrupt" => {
            let b = crate::zipm::blk_block(&json!({"d": 30, "s": 1, "e": false})).to_u8();
            let p = module(3, 0);
            let mut f = with_block(&p, &b);
            f[p.cd + b.len() - 24] ^= 4;
            f
        }
        "badcd" => [b"PK\x03\x04".to_vec(), fill(1, 0, 30), eocd(70, 0, 0)].concat(),
        "text" => b"nothing that could be signed, just text\n".to_vec(),
        "short" => b"PK".to_vec(),
        "empty" => vec![],
        "pkonly" => [b"PK\x03\x04".to_vec(), fill(1, 0, 300)].concat(),
        "elfcut" => [b"\x7fELF\x02\x01\x01".to_vec(), fill(1, 0, 20)].concat(),
        "old" => b"an older output".to_vec(),
        _ => elfm::build(elf),
    })
}
pub struct Run { pub code: Option<i32>, pub out: Vec<u8>, pub err: String }
pub fn run(dir: &Path, args: &[String], full: bool) -> Run {
    let exe = std::env::var("KSUSIG_CLI").expect("KSUSIG_CLI");
    let mut cmd = if full { Command::new("bash") } else { Command::new(&exe) };
    // no file may grow beyond 2 KiB: writing the output fails half way
    if full { cmd.args(["-c", "trap '' XFSZ; ulimit -f 2; exec \"$@\"", "limited", &exe]); }
    let o = cmd.args(args).current_dir(dir).stdin(Stdio::null()).output().expect("the command line tool");
    Run { code: o.status.code(), out: o.stdout, err: String::from_utf8_lossy(&o.stderr).chars().take(300).collect() }
}
/// the options naming the credentials; their files are put into the directory
fn cred(dir: &Path, pre: &str, a: &Value, args: &mut Vec<String>) {
    let s = |k: &str| a[k].as_str().unwrap_or("");
    let mut opt = |n: &str, v: String| args.extend([format!("--{pre}{n}"), v]);
    if !s("p12").is_empty() {
        let n = format!("{pre}c.p12");
        if s("p12") != "missing" { std::fs::write(dir.join(&n), own::fixture(&format!("{}.p12", s("p12")))).expect("scratch"); }
        opt("p12", n);
    }
    if !s("key").is_empty() {
        let n = format!("{pre}k.pem");
        if s("form") != "nofile" { std::fs::write(dir.join(&n), keys::key_pem(s("form"), s("key"))).expect("scratch"); }
        opt("key", n);
    }
    if a["certs"] != json!(["-"]) {
        let n = format!("{pre}cert.pem");
        if a["certs"] == json!(["garbage"]) { std::fs::write(dir.join(&n), b"\x30\x82junk").expect("scratch"); }
        else if a["certs"] != json!(["nofile"]) { std::fs::write(dir.join(&n), keys::blocks(&a["certs"], "lf")).expect("scratch"); }
        opt("cert", n);
    }
    if let Some(p) = keys::pw(&a["pw"]) { opt("password", p.to_string()); }
}
/// is the certificate within its validity period
#[cfg(feature = "verify")]
fn current(der: &[u8]) -> bool {
    use x509_cert::der::Decode;
    let v = x509_cert::Certificate::from_der(der).expect("fixture").tbs_certificate.validity;
    (v.not_before.to_unix_duration().as_secs()..=v.not_after.to_unix_duration().as_secs()).contains(&now())
}
/// the verify command
#[cfg(feature = "verify")]
pub fn verify(c: &Value, r: &mut Report) {
    let dir = scratch_file("cliv");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("scratch");
    let kind = c["file"].as_str().unwrap_or("");
    let b = crate::verif::block_bytes(&c["b"]);
    for x in arr(&c["runs"]) {
        let (mut ok, root) = (yes(&x["ok"]), x["root"].as_str().unwrap_or(""));
        if kind == "official" && ok { ok = current(&own::fixture("official.der")); }
        let _ = std::fs::remove_file(dir.join("m"));
        let bytes = match kind {
            "module" => Some(with_block(&module(3, int(&x["ver"])), &b)),
            "unsigned" => Some(module(3, 0).bytes),
            "official" => Some(own::fixture("official.zip")),
            "elf" => Some(std::fs::read("/proc/self/exe").map(|v| v[..v.len().min(100_000)].to_vec()).unwrap_or_default()),
            "dir" => { let _ = std::fs::create_dir(dir.join("m")); None }
            f => bytes_of(f, &json!(null)),
        };
        if let Some(v) = bytes { std::fs::write(dir.join("m"), v).expect("scratch"); }
        let mut a = vec!["verify".to_string(), "m".to_string()];
        if root != "builtin" { a.extend(["--root".into(), "root.pem".into()]); }
        let _ = std::fs::remove_file(dir.join("root.pem"));
        let pem = match root { "builtin" | "nofile" => None, "garbage" => Some(b"-----BEGIN CERTIFICATE-----\n?\n".to_vec()), "emptyfile" => Some(vec![]), "key" => Some(own::fixture("a256.key")), n => Some(own::fixture(&format!("{n}.pem"))) };
        if let Some(p) = pem { std::fs::write(dir.join("root.pem"), p).expect("scratch"); }
        if b.len() % 3 == 0 { a.push("-v".into()); }
        let before = std::fs::read(dir.join("m")).ok();
        let g = run(&dir, &a, false);
        let tag = || format!("{kind}, root {root}, content {}: {}", x["ver"], g.err.replace('\n', " "));
        r.hit(format!("verify:{ok}"));
        match g.code {
            Some(0) => r.check(ok, "accepted", || format!("{}: exit 0", tag())),
            Some(101) | None => r.bad("panic", format!("{}: died ({:?})", tag(), g.code)),
            Some(n) => r.check(!ok, "refused", || format!("{}: exit {n}: {}", tag(), String::from_utf8_lossy(&g.out))),
        }
        r.check(std::fs::read(dir.join("m")).ok() == before, "harm", || format!("{}: the file was changed", tag()));
    }
    let _ = std::fs::remove_dir_all(&dir);
}
fn path(p: &Value) -> String { match p.as_str().unwrap_or("") { "nodir" => "nodir/file".to_string(), x => x.to_string() } }
fn command(dir: &Path, c: &Value, i: usize) -> Vec<String> {
    let mut a = vec![c["cmd"].as_str().unwrap_or("").to_string(), path(&c["in"])];
    if a[0] == "sign" {
        a.push(path(&c["out"]));
        cred(dir, "", &c["v2"], &mut a);
        cred(dir, "stamp-", &c["stamp"], &mut a);
    } else {
        match c["alg"].as_str().unwrap_or("") { "" => {} "both" => a.extend(["--sha256".into(), "--sha512".into()]), x => a.push(format!("--{x}")) }
        if c["fmt"] != json!("") { a.push(format!("--format={}", c["fmt"].as_str().unwrap_or(""))); }
        if c["dump"] != json!("") { a.extend(["--dump".into(), path(&c["dump"])]); }
    }
    let secs: Vec<&str> = arr(&c["secs"]).iter().filter_map(|x| x.as_str()).collect();
    // a list in one option, or the option repeated
    if !secs.is_empty() { if i % 2 == 0 { a.extend(["--elf-section".into(), secs.join(",")]) } else { for s in secs { a.extend(["--elf-section".into(), s.into()]) } } }
    a
}
/// the block inside a signed file and the file without it
fn find_block(r: &mut Report, tag: &str, form: &str, elf: &Value, got: &[u8]) -> Option<Vec<u8>> {
    if let Some(z) = zip_form(form) {
        let p = module(z, 0);
        if got.len() <= p.bytes.len() { r.bad("file", format!("{tag}: {} bytes, the unsigned module alone has {}", got.len(), p.bytes.len())); return None; }
        let b = got[p.cd..p.cd + got.len() - p.bytes.len()].to_vec();
        let want = with_block(&p, &b);
        r.check(got == want, "file", || format!("{tag}: not the module with one block: {}", first_diff(got, &want)));
        return Some(b);
    }
    let base = elfm::build(elf);
    let Some((m, secs, _)) = elfm::parse(got) else { r.bad("file", format!("{tag}: no ELF")); return None };
    if got.len() < base.len() { r.bad("file", format!("{tag}: the file shrank")); return None; }
    let (a, b) = (elfm::masked(&got[..base.len()], &m), elfm::masked(&base, &m));
    r.check(a == b, "file", || format!("{tag}: original bytes changed: {}", first_diff(&a, &b)));
    let sig: Vec<_> = secs.iter().filter(|s| s.name == b".ksu_sign").collect();
    if sig.len() != 1 { r.bad("file", format!("{tag}: {} signature sections", sig.len())); return None; }
    got.get(sig[0].off as usize..(sig[0].off + sig[0].size) as usize).map(<[u8]>::to_vec).or_else(|| { r.bad("file", format!("{tag}: the signature lies outside the file")); None })
}
/// regions of a file in the order in which they are digested
fn dumped(form: &str, regs: &Value, file: &[u8]) -> Vec<u8> {
    if let Some(z) = zip_form(form) {
        let p = module(z, 0);
        let n = file.len() - p.bytes.len();
        return [&file[..p.cd], &file[p.cd + n..]].concat();
    }
    arr(regs).iter().flat_map(|x| file[us(&x["off"])..us(&x["off"]) + us(&x["size"])].to_vec()).collect()
}

pub fn cli(c: &Value, r: &mut Report) {
    let dir = scratch_file("cli");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("scratch");
    let elf = |form: &str| -> Value { for p in ["in", "out"] { if c["start"][p]["form"] == json!(form) { return c["elf"][p].clone(); } } json!(null) };
    for p in ["in", "out"] {
        let f = c["start"][p]["form"].as_str().unwrap_or("");
        if f == "dir" { std::fs::create_dir(dir.join(p)).expect("scratch"); }
        if let Some(b) = bytes_of(f, &elf(f)) { std::fs::write(dir.join(p), b).expect("scratch"); }
    }
    std::os::unix::fs::symlink("in", dir.join("link")).expect("scratch");
    let hist = arr(&c["hist"]);
    let t0 = now();
    let mut before = [None, None];
    let mut res = None;
    let read = |p: &str| std::fs::read(dir.join(p)).ok();
    for (i, h) in hist.iter().enumerate() {
        before = [read("in"), read("out")];
        res = Some((run(&dir, &command(&dir, &h["c"], h.to_string().len()), yes(&h["c"]["full"])), h));
        let _ = i;
    }
    let (g, h) = res.expect("a command");
    let (k, ok) = (&h["c"], yes(&h["ok"]));
    let sign = k["cmd"] == json!("sign");
    let tag = format!("{} {:?} -> {}", k["cmd"].as_str().unwrap_or(""), command(&dir, k, 0).join(" "), g.err.replace('\n', " "));
    r.hit(format!("{}:{}", k["cmd"].as_str().unwrap_or(""), if ok { "done" } else { "refused" }));
    match g.code {
        Some(0) => r.check(ok, "status", || format!("{tag}: exit 0, the command must fail")),
        Some(101) | None => r.bad("panic", format!("{tag}: died ({:?})", g.code)),
        Some(n) => r.check(!ok, "status", || format!("{tag}: exit {n}, the command must succeed")),
    }
    // the files
    for (i, p) in ["in", "out"].into_iter().enumerate() {
        let w = &c["fs"][p];
        let form = w["form"].as_str().unwrap_or("");
        let got = read(p);
        let role = if !ok { "changed by a failing command" } else { "not what it must be" };
        let kind = if (!ok || got != before[i]) && k[if sign { "out" } else { "dump" }] != json!(p) { "harm" } else { "file" };
        if form == "dir" { r.check(dir.join(p).is_dir(), kind, || format!("{tag}: the directory {p} is gone")); continue; }
        if form == "dump" {
            let of = w["blk"]["form"].as_str().unwrap_or("");
            let source = before[usize::from(k["in"] == json!("out"))].clone().unwrap_or_default();
            // only a dump made by the last command is compared with its source
            if !sign && k["dump"] != json!("") && ok {
                let want = dumped(of, &w["regs"], &source);
                r.check(got.as_deref() == Some(&want[..]), "dump", || format!("{tag}: dumped bytes: {}", first_diff(got.as_deref().unwrap_or(&[]), &want)));
            } else { r.check(got == before[i], kind, || format!("{tag}: {p} {role}")); }
            continue;
        }
        if arr(&w["blk"]["subs"]).is_empty() {
            let want = bytes_of(form, &elf(form));
            r.check(got == want, kind, || format!("{tag}: {p} {role}: {}", first_diff(got.as_deref().unwrap_or(&[]), want.as_deref().unwrap_or(&[]))));
            continue;
        }
        let Some(got) = got else { r.bad(kind, format!("{tag}: {p} is missing")); continue };
        // a file that this command did not write stays as it was
        if !(sign && ok && (k["out"] == json!(p) || (k["out"] == json!("link") && p == "in"))) {
            r.check(before[i].as_deref() == Some(&got[..]), "harm", || format!("{tag}: {p} was changed"));
        }
        let e = elf(form);
        let Some(b) = find_block(r, &tag, form, &e, &got) else { continue };
        match own::block(&b) {
            Err(x) => r.bad("file", format!("{tag}: no block in {p}: {x}")),
            Ok(v) => {
                let content = unpadded(r, &v, b.len(), yes(&w["blk"]["pad"]));
                let plain = bytes_of(form, &e).unwrap_or_default();
                let regs = arr(&w["blk"]["subs"]).iter().find(|s| s["t"] == json!("elf")).map_or(json!([]), |s| s["regs"].clone());
                let dig = |a: u32, _v: i64| match zip_form(form) {
                    Some(z) => digest_of(&module(z, 0), a),
                    None => plan_digest(&plain, &json!({"mask": 0, "chunks": arr(&regs).iter().map(|x| json!({"from": x["off"], "n": x["size"]})).collect::<Vec<_>>()}), None, a),
                };
                let n = r.issues.len();
                judge_subs(r, &content, arr(&w["blk"]["subs"]), &dig, (t0, now()));
                for x in &mut r.issues[n..] { x.what = format!("{tag}: {p}: {}", x.what); }
            }
        }
    }
    // what is printed
    if !sign {
        let w = &h["prints"];
        let form = w["form"].as_str().unwrap_or("");
        let want = if form.is_empty() { String::new() } else {
            let a = int(&w["alg"]) as u32;
            let d = match zip_form(form) { Some(z) => digest_of(&module(z, 0), a), None => plan_digest(&bytes_of(form, &elf(form)).unwrap_or_default(), &json!({"mask": 0, "chunks": w["chunks"]}), None, a) };
            if w["fmt"] == json!("base64") { base64::Engine::encode(&base64::engine::general_purpose::STANDARD, &d) + "\n" } else { d.iter().map(|b| format!("{b:02x}")).collect::<String>() + "\n" }
        };
        r.check(g.out == want.as_bytes(), "print", || format!("{tag}: printed {:?} instead of {want:?}", String::from_utf8_lossy(&g.out)));
    }
    let _ = std::fs::remove_dir_all(&dir);
}
