//! Projection of the library's structures to the specification's values, and construction of
//! the library's structures from them through the public constructors.
use ksusig::common::*;
use ksusig::signing_block::elf_section_info::{ElfSectionInfo, SectionEntry};
use ksusig::{scheme_v2, source_stamp, Algorithms, RawData, SigningBlock, ValueSigningBlock};
use serde_json::{json, Value};

pub fn le(id: u32) -> Value { json!(id.to_le_bytes()) }
fn entry(size: usize, a: &Algorithms, d: &[u8]) -> Value { json!({"size": size, "alg": le(a.to_u32()), "data": d}) }
fn digests(d: &Digests) -> Value {
    json!({"size": d.size, "items": d.digests_data.iter().map(|x| entry(x.size, &x.signature_algorithm_id, &x.digest)).collect::<Vec<_>>()})
}
fn certs(c: &Certificates) -> Value {
    json!({"size": c.size, "items": c.certificates_data.iter().map(|x| json!({"size": x.size, "data": x.certificate})).collect::<Vec<_>>()})
}
fn attrs(c: &AdditionalAttributes) -> Value {
    json!({"size": c.size, "items": c.additional_attributes_data.iter().map(|x| json!({"size": x.size, "id": le(x.id), "data": x.data})).collect::<Vec<_>>()})
}
fn sigs(c: &Signatures) -> Value {
    json!({"size": c.size, "items": c.signatures_data.iter().map(|x| entry(x.size, &x.signature_algorithm_id, &x.signature)).collect::<Vec<_>>()})
}
fn key(k: &PubKey) -> Value { json!({"size": k.size, "data": k.data}) }

pub fn pair(p: &ValueSigningBlock) -> Value {
    match p {
        ValueSigningBlock::BaseSigningBlock(r) => json!({"t": "raw", "size": r.size, "id": le(r.id), "data": r.data}),
        ValueSigningBlock::SignatureSchemeV2Block(v) => json!({"t": "v2", "size": v.size, "id": le(v.id), "ssize": v.signers.size,
            "signers": v.signers.signers_data.iter().map(|s| json!({"size": s.size,
                "sd": {"size": s.signed_data.size, "digests": digests(&s.signed_data.digests), "certs": certs(&s.signed_data.certificates),
                       "attrs": attrs(&s.signed_data.additional_attributes)},
                "sigs": sigs(&s.signatures), "key": key(&s.pub_key)})).collect::<Vec<_>>()}),
        ValueSigningBlock::SourceStampBlock(s) => {
            let b = &s.stamp_block;
            json!({"t": "stamp", "size": s.size, "id": le(s.id), "signer": {"size": b.size,
                "sd": {"size": b.signed_data.size(), "digests": digests(&b.signed_data.digests), "certs": certs(&b.signed_data.certificates),
                       "attrs": attrs(&b.signed_data.additional_attributes)},
                "sigs": sigs(&b.signatures), "key": key(&b.public_key)}})
        }
        ValueSigningBlock::ElfSectionInfoBlock(e) => json!({"t": "elf", "size": e.size, "id": le(e.id), "count": e.section_count,
            "entries": e.sections.iter().map(|s| json!({"nlen": s.name_len, "name": s.name.as_bytes(),
                "off": s.file_offset.to_le_bytes(), "len": s.size.to_le_bytes()})).collect::<Vec<_>>()}),
    }
}
pub fn block(b: &SigningBlock) -> Value {
    json!({"size1": b.size_of_block_start, "size2": b.size_of_block_end, "csize": b.content_size,
        "content": b.content.iter().map(pair).collect::<Vec<_>>()})
}

// ---- specification value -> constructors ----
pub fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().map_or_else(Vec::new, |a| a.iter().map(|x| x.as_u64().expect("byte") as u8).collect())
}
pub fn arr(v: &Value) -> &[Value] { v.as_array().map_or(&[], |a| a.as_slice()) }
pub fn id(v: &Value) -> u32 { u32::from_le_bytes(bytes(v).try_into().expect("4 bytes")) }
fn u64le(v: &Value) -> u64 { u64::from_le_bytes(bytes(v).try_into().expect("8 bytes")) }
pub fn mk_digests(v: &Value) -> Digests { Digests::new(arr(&v["items"]).iter().map(|x| Digest::new(Algorithms::from(id(&x["alg"])), bytes(&x["data"]))).collect()) }
pub fn mk_certs(v: &Value) -> Certificates { Certificates::new(arr(&v["items"]).iter().map(|x| Certificate::new(bytes(&x["data"]))).collect()) }
pub fn mk_attrs(v: &Value) -> AdditionalAttributes {
    AdditionalAttributes::new(arr(&v["items"]).iter().map(|x| { let d = bytes(&x["data"]); AdditionalAttribute { size: 4 + d.len(), id: id(&x["id"]), data: d } }).collect())
}
pub fn mk_sigs(v: &Value) -> Signatures { Signatures::new(arr(&v["items"]).iter().map(|x| Signature::new(Algorithms::from(id(&x["alg"])), bytes(&x["data"]))).collect()) }
pub fn mk_pair(p: &Value) -> ValueSigningBlock {
    match p["t"].as_str() {
        Some("raw") => ValueSigningBlock::BaseSigningBlock(RawData::new(id(&p["id"]), bytes(&p["data"]))),
        Some("v2") => ValueSigningBlock::new_v2(scheme_v2::Signers::new(arr(&p["signers"]).iter().map(|s| scheme_v2::Signer::new(
            scheme_v2::SignedData::new(mk_digests(&s["sd"]["digests"]), mk_certs(&s["sd"]["certs"]), mk_attrs(&s["sd"]["attrs"])),
            mk_sigs(&s["sigs"]), PubKey::new(bytes(&s["key"]["data"])))).collect())),
        Some("stamp") => { let s = &p["signer"]; ValueSigningBlock::new_source_stamp(source_stamp::StampBlock::new(
            source_stamp::SignedData::new(mk_digests(&s["sd"]["digests"]), mk_certs(&s["sd"]["certs"]), mk_attrs(&s["sd"]["attrs"])),
            mk_sigs(&s["sigs"]), PubKey::new(bytes(&s["key"]["data"])))) }
        Some("elf") => ValueSigningBlock::ElfSectionInfoBlock(ElfSectionInfo::new(arr(&p["entries"]).iter().map(|e| SectionEntry::new(
            String::from_utf8(bytes(&e["name"])).expect("utf8"), u64le(&e["off"]), u64le(&e["len"]))).collect())),
        _ => panic!("bad pair in case"),
    }
}
