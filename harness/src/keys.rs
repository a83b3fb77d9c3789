//! Loading credentials.
use crate::proj::arr;
use crate::zipm::{int, scratch_file, yes};
use crate::{guarded, own, Report};
use ksusig::keystore::{self, SignerCredentials};
use ksusig::signing_block::algorithms::PrivateKey;
use serde_json::Value;

fn text(n: &str) -> String { String::from_utf8(own::fixture(n)).unwrap() }
pub fn pw(v: &Value) -> Option<&'static str> {
    const LONG: &str = "01234567890123456789012345678901234567890123456789012345678901234567890123456789";
    Some(match v.as_str().unwrap_or("none") {
        "right" => "secret", "wrong" => "Secret", "empty" => "", "lead" => " secret", "trail" => "secret ", "line" => "secret\n", "inner" => "sec ret",
        "short" => "secre", "more" => "secrets", "uni" => "s\u{e9}cret", "long" => LONG, "cut" => &LONG[..64], _ => return None,
    })
}
pub fn key_pem(form: &str, k: &str) -> String {
    match form {
        "pk8" => text(&format!("{k}.key")),
        "sec1" => text(&format!("{k}.sec1.key")),
        "enc" => text(&format!("{k}.enc.key")),
        "empty" => String::new(),
        "garbage" => { let t = text("a256.key"); t.replace("MIG", "!?!") }
        "cert" => text("a256_rootA.pem"),
        "public" => pem::encode(&pem::Pem::new("PUBLIC KEY", own::pub_of("a256"))),
        _ => panic!("case: {form}"),
    }
}
pub fn blocks(v: &Value, eol: &str) -> String {
    let s: String = arr(v).iter().map(|b| match b.as_str().unwrap_or("") {
        "key" => text("b256.key"),
        "text" => "Bag Attributes\n  friendlyName: x\nsubject=/CN=y\n\n".to_string(),
        "crl" => pem::encode(&pem::Pem::new("X509 CRL", vec![1, 2, 3])),
        "trusted" => pem::encode(&pem::Pem::new("TRUSTED CERTIFICATE", own::cert_of("interX"))),
        "request" => pem::encode(&pem::Pem::new("CERTIFICATE REQUEST", own::cert_of("interX"))),
        "lower" => pem::encode(&pem::Pem::new("certificate", own::cert_of("interX"))),
        "broken" => text("interA.pem").replacen("MII", "M!I", 1),
        n => text(&format!("{n}.pem")),
    }).collect();
    if eol == "crlf" { s.replace("\r\n", "\n").replace('\n', "\r\n") } else { s }
}
fn pub_der(k: &PrivateKey) -> Vec<u8> {
    match k {
        PrivateKey::EcdsaP256(k) => { use p256::pkcs8::EncodePublicKey; k.verifying_key().to_public_key_der().unwrap().as_bytes().to_vec() }
        PrivateKey::EcdsaP384(k) => { use p384::pkcs8::EncodePublicKey; k.verifying_key().to_public_key_der().unwrap().as_bytes().to_vec() }
        #[allow(unreachable_patterns)]
        _ => vec![],
    }
}
/// is it the key of the fixture, the secret part included
fn same_key(k: &PrivateKey, name: &str) -> bool {
    let sign = |k: &PrivateKey| match k {
        PrivateKey::EcdsaP256(k) => k.to_bytes().to_vec(),
        PrivateKey::EcdsaP384(k) => k.to_bytes().to_vec(),
        #[allow(unreachable_patterns)]
        _ => vec![],
    };
    pub_der(k) == own::pub_of(name) && sign(k) == sign(&own::key_of(name))
}
fn same(r: &mut Report, tag: &str, c: &SignerCredentials, w: &Value) {
    let name = w["key"].as_str().unwrap_or("");
    r.check(same_key(&c.private_key, name), "key", || format!("{tag}: not the key {name}"));
    r.check(i64::from(c.algorithm.to_u32()) == int(&w["alg"]), "alg", || format!("{tag}: algorithm {:#x}", c.algorithm.to_u32()));
    r.check(c.certificate == own::cert_of(w["cert"].as_str().unwrap_or("")), "cert", || format!("{tag}: another signing certificate than {}", w["cert"]));
    let chain: Vec<Vec<u8>> = arr(&w["chain"]).iter().map(|n| own::cert_of(n.as_str().unwrap_or(""))).collect();
    r.check(c.cert_chain == chain, "chain", || format!("{tag}: chain of {} certificates is not {}", c.cert_chain.len(), w["chain"]));
}
fn judge(r: &mut Report, tag: &str, g: Result<Result<SignerCredentials, String>, String>, c: &Value) {
    match (g, yes(&c["ok"])) {
        (Err(p), _) => r.bad("panic", format!("{tag}: {p}")),
        (Ok(Err(e)), true) => r.bad("refused", format!("{tag}: {e}")),
        (Ok(Err(_)), false) => r.hit("refused"),
        (Ok(Ok(x)), false) => r.bad("accepted", format!("{tag}: loaded {}", x.algorithm.to_u32())),
        (Ok(Ok(x)), true) => { r.hit("loaded"); same(r, tag, &x, &c["want"]) }
    }
}
/// a container put together from the key bags of the fixtures and certificates
fn made(c: &Value) -> Vec<u8> {
    use p12::{CertBag, ContentInfo, EncryptedData, SafeBag, SafeBagKind, PFX};
    let bmp: Vec<u8> = "secret".encode_utf16().chain([0]).flat_map(u16::to_be_bytes).collect();
    let plain = |bags: &[SafeBag]| ContentInfo::Data(yasna::construct_der(|w| w.write_sequence_of(|w| for b in bags { b.write(w.next()) })));
    let keys: Vec<SafeBag> = arr(&c["keys"]).iter().map(|k| {
        let f = own::fixture(&format!("{}.p12", k.as_str().unwrap_or("")));
        PFX::parse(&f).unwrap().bags("secret").unwrap().into_iter().find(|b| matches!(b.bag, SafeBagKind::Pkcs8ShroudedKeyBag(_))).expect("key bag")
    }).collect();
    let certs: Vec<SafeBag> = arr(&c["certs"]).iter().map(|n| SafeBag { bag: SafeBagKind::CertBag(CertBag::X509(own::cert_of(n.as_str().unwrap_or("")))), attributes: vec![] }).collect();
    let cs = if yes(&c["plain"]) { plain(&certs) } else { ContentInfo::EncryptedData(EncryptedData::from_safe_bags(&certs, &bmp).expect("bags")) };
    let mut l = vec![plain(&keys), cs];
    if c["first"] == serde_json::json!("certs") { l.reverse(); }
    let contents = yasna::construct_der(|w| w.write_sequence_of(|w| for x in &l { x.write(w.next()) }));
    let mac = p12::MacData::new(&contents, &bmp);
    PFX { version: 3, auth_safe: ContentInfo::Data(contents), mac_data: Some(mac) }.to_der()
}
pub fn keys(c: &Value, r: &mut Report) {
    let x = &c["x"];
    let s = |k: &str| x[k].as_str().unwrap_or("");
    let tag = format!("{x} {}", c["blocks"]);
    let er = |e: keystore::KeystoreError| e.to_string();
    match s("what") {
        "pem" => {
            let mut k = key_pem(s("form"), s("key"));
            if s("eol") == "crlf" { k = k.replace('\n', "\r\n"); }
            let b = blocks(&c["blocks"], s("eol"));
            judge(r, &tag, guarded(|| keystore::load_pem_from_bytes(k.as_bytes(), b.as_bytes(), pw(&x["pw"])).map_err(er)), c);
            let (p, q) = (scratch_file("key"), scratch_file("certs"));
            std::fs::write(&p, &k).expect("scratch file");
            std::fs::write(&q, &b).expect("scratch file");
            judge(r, &format!("{tag} (files)"), guarded(|| keystore::load_pem(p.to_str().unwrap(), q.to_str().unwrap(), pw(&x["pw"])).map_err(er)), c);
        }
        "p12" => {
            let f = own::fixture(&format!("{}.p12", x["c"]["file"].as_str().unwrap_or("")));
            let w = pw(&x["pw"]).unwrap_or("");
            judge(r, &tag, guarded(|| keystore::load_p12_from_bytes(&f, w).map_err(er)), c);
            let p = scratch_file("p12");
            std::fs::write(&p, &f).expect("scratch file");
            judge(r, &format!("{tag} (file)"), guarded(|| keystore::load_p12(p.to_str().unwrap(), w).map_err(er)), c);
            if yes(&c["ok"]) {
                // a damaged container gives an error or still the same key
                for n in (0..f.len()).step_by(13) {
                    r.check(matches!(guarded(|| keystore::load_p12_from_bytes(&f[..n], w).is_err()), Ok(true)), "accepted", || format!("{tag}: cut to {n} bytes, loaded"));
                }
                for i in (0..f.len()).step_by(5) {
                    let mut g = f.clone();
                    g[i] ^= 1 << (i % 8);
                    match guarded(|| keystore::load_p12_from_bytes(&g, w).map(|x| same_key(&x.private_key, c["want"]["key"].as_str().unwrap_or("")))) {
                        Err(p) => r.bad("panic", format!("{tag}: byte {i} changed: {p}")),
                        Ok(Ok(false)) => r.bad("key", format!("{tag}: byte {i} changed: another key")),
                        _ => {}
                    }
                }
            }
        }
        "pw" => {
            let (f, k, u) = (s("form"), s("key"), s("under"));
            let w = pw(&x["pw"]);
            if f == "p12" {
                let b = own::fixture(&if u == "right" { format!("{k}.p12") } else { format!("{k}.pw-{u}.p12") });
                judge(r, &tag, guarded(|| keystore::load_p12_from_bytes(&b, w.unwrap_or("")).map_err(er)), c);
                return;
            }
            let t = text(&match (f, u) { ("enc", "right") => format!("{k}.enc.key"), ("enc", u) => format!("{k}.pw-{u}.key"), (c, _) => format!("{k}.{c}.key") });
            let cert = text(&format!("{k}_rootA.pem"));
            judge(r, &tag, guarded(|| keystore::load_pem_from_bytes(t.as_bytes(), cert.as_bytes(), w).map_err(er)), c);
        }
        "made" => {
            let f = made(&x["c"]);
            judge(r, &tag, guarded(|| keystore::load_p12_from_bytes(&f, pw(&x["pw"]).unwrap_or("")).map_err(er)), c);
        }
        "two" => {
            let k = key_pem(s("form"), s("key")) + &key_pem(s("form"), s("other"));
            let cert = text("a256_rootA.pem");
            match guarded(|| keystore::load_pem_from_bytes(k.as_bytes(), cert.as_bytes(), None).map_err(er)) {
                Err(p) => r.bad("panic", p),
                Ok(Err(_)) => r.hit("refused"),
                Ok(Ok(x)) => { r.hit("loaded"); r.check(same_key(&x.private_key, s("key")) && i64::from(x.algorithm.to_u32()) == int(&c["want"]["alg"]), "key", || format!("{tag}: not the first key")) }
            }
        }
        "der" => {
            let d = match s("form") {
                "pk8" => own::fixture(&format!("{}.pk8.der", s("key"))),
                "sec1" => own::fixture(&format!("{}.sec1.der", s("key"))),
                "empty" => vec![],
                "garbage" => vec![0x30, 0x77, 1, 2, 3],
                "cut" => { let mut d = own::fixture(&format!("{}.pk8.der", s("key"))); d.pop(); d }
                _ => own::cert_of("a256_rootA"),
            };
            match (guarded(|| keystore::load_private_key_der(&d).map_err(er)), yes(&c["ok"])) {
                (Err(p), _) => r.bad("panic", p),
                (Ok(Err(e)), true) => r.bad("refused", format!("{tag}: {e}")),
                (Ok(Err(_)), false) => r.hit("refused"),
                (Ok(Ok(_)), false) => r.bad("accepted", tag.clone()),
                (Ok(Ok((k, a))), true) => { r.hit("loaded"); r.check(same_key(&k, s("key")) && i64::from(a.to_u32()) == int(&c["want"]["alg"]), "key", || format!("{tag}: not the key")) }
            }
            let g = guarded(|| keystore::load_certificate_der(&d).map_err(er));
            r.check(g == Ok(if d.is_empty() { Err(String::new()) } else { Ok(d.clone()) }) || (d.is_empty() && matches!(g, Ok(Err(_)))), "cert", || format!("{tag}: load_certificate_der"));
        }
        w => panic!("case: {w}"),
    }
}
