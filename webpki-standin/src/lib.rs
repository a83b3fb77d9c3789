//! Stand-in for `Kernel-SU/webpki`, which cannot be fetched offline.
//!
//! It offers the part of the API that ksusig uses and does real RFC 5280 style path building:
//! issuer/subject names, signatures (ECDSA P-256/P-384), validity, CA flag, path length and the
//! codeSigning extended key usage.  It is part of the trusted base of the checks.

use rustls_pki_types::{CertificateDer, Der, TrustAnchor, UnixTime};
use sha2::{Digest, Sha256, Sha384, Sha512};
use x509_cert::der::asn1::ObjectIdentifier;
use x509_cert::der::{Decode, Encode};
use x509_cert::ext::pkix::{BasicConstraints, ExtendedKeyUsage as Eku};
use x509_cert::Certificate;

#[derive(Debug, Clone, PartialEq, Eq)]
#[non_exhaustive]
pub enum Error {
    BadDer,
    UnsupportedCertVersion,
    CertExpired { time: u64, not_after: u64 },
    CertNotValidYet { time: u64, not_before: u64 },
    CaUsedAsEndEntity,
    EndEntityUsedAsCa,
    PathLenConstraintViolated,
    RequiredEkuNotFound(&'static str),
    InvalidSignatureForPublicKey,
    UnsupportedSignatureAlgorithm,
    MaximumPathDepthExceeded,
    UnknownIssuer,
}

impl Error {
    fn rank(&self) -> u32 {
        match self {
            Error::CertExpired { .. } | Error::CertNotValidYet { .. } => 200,
            Error::RequiredEkuNotFound(_) => 190,
            Error::CaUsedAsEndEntity | Error::EndEntityUsedAsCa => 180,
            Error::PathLenConstraintViolated => 170,
            Error::InvalidSignatureForPublicKey => 160,
            Error::UnsupportedSignatureAlgorithm => 150,
            Error::MaximumPathDepthExceeded => 140,
            Error::BadDer | Error::UnsupportedCertVersion => 130,
            Error::UnknownIssuer => 0,
        }
    }
    fn most_specific(self, other: Error) -> Error {
        if self.rank() >= other.rank() {
            self
        } else {
            other
        }
    }
}

pub struct VerificationAlgorithm;
pub static ALL_VERIFICATION_ALGS: &[VerificationAlgorithm] = &[VerificationAlgorithm];

pub struct ExtendedKeyUsage(ObjectIdentifier);
impl ExtendedKeyUsage {
    pub fn code_signing() -> Self {
        Self(ObjectIdentifier::new_unwrap("1.3.6.1.5.5.7.3.3"))
    }
}

pub struct RevocationOptions;
pub struct VerifiedPath;
type PathCb<'a> = &'a dyn Fn(&VerifiedPath) -> Result<(), Error>;

struct Parsed {
    cert: Certificate,
    tbs: Vec<u8>,
    subject: Vec<u8>,
    issuer: Vec<u8>,
    spki: Vec<u8>,
}

fn content(der: &[u8]) -> Vec<u8> {
    // strips tag and length of one DER element
    let mut n = 2;
    if let Some(l) = der.get(1) {
        if l & 0x80 != 0 {
            n += (l & 0x7f) as usize;
        }
    }
    der.get(n..).unwrap_or_default().to_vec()
}

fn parse(der: &[u8]) -> Result<Parsed, Error> {
    let cert = Certificate::from_der(der).map_err(|_| Error::BadDer)?;
    let t = &cert.tbs_certificate;
    let enc = |r: Result<Vec<u8>, x509_cert::der::Error>| r.map_err(|_| Error::BadDer);
    let p = Parsed {
        tbs: enc(t.to_der())?,
        subject: content(&enc(t.subject.to_der())?),
        issuer: content(&enc(t.issuer.to_der())?),
        spki: enc(t.subject_public_key_info.to_der())?,
        cert: cert.clone(),
    };
    Ok(p)
}

fn verify_sig(spki: &[u8], p: &Parsed) -> Result<(), Error> {
    let oid = p.cert.signature_algorithm.oid.to_string();
    let hash: Vec<u8> = match oid.as_str() {
        "1.2.840.10045.4.3.2" => Sha256::digest(&p.tbs).to_vec(),
        "1.2.840.10045.4.3.3" => Sha384::digest(&p.tbs).to_vec(),
        "1.2.840.10045.4.3.4" => Sha512::digest(&p.tbs).to_vec(),
        _ => return Err(Error::UnsupportedSignatureAlgorithm),
    };
    let sig = p.cert.signature.as_bytes().ok_or(Error::BadDer)?;
    let bad = Error::InvalidSignatureForPublicKey;
    {
        use p256::ecdsa::signature::hazmat::PrehashVerifier;
        use p256::pkcs8::DecodePublicKey;
        if let Ok(k) = p256::ecdsa::VerifyingKey::from_public_key_der(spki) {
            let s = p256::ecdsa::Signature::from_der(sig).map_err(|_| bad.clone())?;
            return k.verify_prehash(&hash, &s).map_err(|_| bad);
        }
    }
    use p384::ecdsa::signature::hazmat::PrehashVerifier;
    use p384::pkcs8::DecodePublicKey;
    let k = p384::ecdsa::VerifyingKey::from_public_key_der(spki)
        .map_err(|_| Error::UnsupportedSignatureAlgorithm)?;
    let s = p384::ecdsa::Signature::from_der(sig).map_err(|_| bad.clone())?;
    k.verify_prehash(&hash, &s).map_err(|_| bad)
}

fn ext<T: for<'a> Decode<'a>>(c: &Certificate, oid: &str) -> Result<Option<T>, Error> {
    for e in c.tbs_certificate.extensions.iter().flatten() {
        if e.extn_id.to_string() == oid {
            return T::from_der(e.extn_value.as_bytes()).map(Some).map_err(|_| Error::BadDer);
        }
    }
    Ok(None)
}

fn check_independent(
    p: &Parsed,
    now: u64,
    usage: &ExtendedKeyUsage,
    as_ca: bool,
    cas_below: usize,
) -> Result<(), Error> {
    let v = &p.cert.tbs_certificate.validity;
    let nb = v.not_before.to_unix_duration().as_secs();
    let na = v.not_after.to_unix_duration().as_secs();
    if now < nb {
        return Err(Error::CertNotValidYet { time: now, not_before: nb });
    }
    if now > na {
        return Err(Error::CertExpired { time: now, not_after: na });
    }
    let bc: Option<BasicConstraints> = ext(&p.cert, "2.5.29.19")?;
    let ca = bc.as_ref().is_some_and(|b| b.ca);
    if as_ca && !ca {
        return Err(Error::EndEntityUsedAsCa);
    }
    if !as_ca && ca {
        return Err(Error::CaUsedAsEndEntity);
    }
    if as_ca {
        if let Some(n) = bc.and_then(|b| b.path_len_constraint) {
            if cas_below > n as usize {
                return Err(Error::PathLenConstraintViolated);
            }
        }
    }
    let eku: Option<Eku> = ext(&p.cert, "2.5.29.37")?;
    match eku {
        Some(e) if e.0.contains(&usage.0) => Ok(()),
        None if as_ca => Ok(()),
        _ => Err(Error::RequiredEkuNotFound("codeSigning")),
    }
}

pub struct EndEntityCert(Parsed);

impl<'a> TryFrom<&'a CertificateDer<'a>> for EndEntityCert {
    type Error = Error;
    fn try_from(der: &'a CertificateDer<'a>) -> Result<Self, Error> {
        let p = parse(der.as_ref())?;
        if p.cert.tbs_certificate.version != x509_cert::Version::V3 {
            return Err(Error::UnsupportedCertVersion);
        }
        Ok(Self(p))
    }
}

impl EndEntityCert {
    #[allow(clippy::too_many_arguments)]
    pub fn verify_for_usage(
        &self,
        _algs: &[VerificationAlgorithm],
        anchors: &[TrustAnchor<'_>],
        intermediates: &[CertificateDer<'_>],
        time: UnixTime,
        usage: &ExtendedKeyUsage,
        _revocation: Option<RevocationOptions>,
        _verify_path: Option<PathCb<'_>>,
    ) -> Result<VerifiedPath, Error> {
        build(&self.0, &[], anchors, intermediates, time.as_secs(), usage, 0)?;
        Ok(VerifiedPath)
    }
}

fn build(
    cert: &Parsed,
    chain_below: &[&Parsed],
    anchors: &[TrustAnchor<'_>],
    intermediates: &[CertificateDer<'_>],
    now: u64,
    usage: &ExtendedKeyUsage,
    depth: usize,
) -> Result<(), Error> {
    check_independent(cert, now, usage, depth > 0, depth.saturating_sub(1))?;
    let mut err = Error::UnknownIssuer;
    for a in anchors {
        if a.subject.as_ref() != cert.issuer.as_slice() {
            continue;
        }
        let mut spki = vec![0x30];
        let body = a.subject_public_key_info.as_ref();
        if body.len() < 128 {
            spki.push(body.len() as u8);
        } else if body.len() < 256 {
            spki.extend([0x81, body.len() as u8]);
        } else {
            spki.extend([0x82, (body.len() >> 8) as u8, body.len() as u8]);
        }
        spki.extend(body);
        // signatures are checked from the anchor down to the end entity
        let mut ok = verify_sig(&spki, cert);
        let mut above = cert;
        for c in chain_below.iter().rev() {
            ok = ok.and_then(|_| verify_sig(&above.spki, c));
            above = c;
        }
        match ok {
            Ok(()) => return Ok(()),
            Err(e) => err = e.most_specific(err),
        }
    }
    if depth >= 6 {
        return Err(Error::MaximumPathDepthExceeded);
    }
    for der in intermediates {
        let p = match parse(der.as_ref()) {
            Ok(p) => p,
            Err(e) => {
                err = e.most_specific(err);
                continue;
            }
        };
        if p.subject != cert.issuer {
            continue;
        }
        // no loops: the same key and subject may not occur twice
        if chain_below
            .iter()
            .chain([&cert])
            .any(|c| c.spki == p.spki && c.subject == p.subject)
        {
            continue;
        }
        let mut below: Vec<&Parsed> = chain_below.to_vec();
        below.push(cert);
        match build(&p, &below, anchors, intermediates, now, usage, depth + 1) {
            Ok(()) => return Ok(()),
            Err(e) => err = e.most_specific(err),
        }
    }
    Err(err)
}

pub fn anchor_from_trusted_cert<'a>(
    der: &'a CertificateDer<'a>,
) -> Result<TrustAnchor<'a>, Error> {
    let p = parse(der.as_ref())?;
    Ok(TrustAnchor {
        subject: Der::from(p.subject),
        subject_public_key_info: Der::from(content(&p.spki)),
        name_constraints: None,
    })
}
