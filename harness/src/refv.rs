//! Reference verifier: decides from the protocol rules alone whether a
//! request/response pair is certified, and what a verified response must say.
//! Signatures are checked by calling the BLS primitive directly (never through
//! the code under test and never through its cache).
use crate::cert::*;
use crate::spec::*;
use miracl_core_bls12381::bls12381::bls;
use std::cell::RefCell;
use std::collections::HashMap;

thread_local! {
    static SIGS: RefCell<HashMap<H, bool>> = RefCell::new(HashMap::new());
}
/// Raw BLS check with the lengths the encoding demands.
pub fn bls_ok(pk: &[u8], sig: &[u8], msg: &[u8]) -> bool {
    if pk.len() != 96 || sig.len() != 48 || pk[0] & 0x80 == 0 || sig[0] & 0x80 == 0 {
        return false;
    }
    let k = sha(&[pk, sig, msg]);
    if let Some(r) = SIGS.with(|s| s.borrow().get(&k).copied()) {
        return r;
    }
    let r = bls::core_verify(sig, msg, pk) == bls::BLS_OK;
    SIGS.with(|s| s.borrow_mut().insert(k, r));
    r
}
pub fn sig_ok(der: &[u8], sig: &[u8], root: &H) -> bool {
    if der.len() != 133 || &der[..37] != DER {
        return false;
    }
    let mut msg = b"\x0Dic-state-root".to_vec();
    msg.extend_from_slice(root);
    bls_ok(&der[37..], sig, &msg)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum CertVerdict {
    Ok,
    Bad(&'static str),
    /// outside of what the protocol settles (e.g. principals of different lengths)
    Open(&'static str),
}

/// unsigned LEB128 of at most 64 bits; None when malformed
pub fn read_leb(b: &[u8]) -> Option<(u64, usize)> {
    let mut v: u128 = 0;
    for (i, x) in b.iter().enumerate() {
        if i >= 10 {
            return None;
        }
        v |= ((x & 0x7f) as u128) << (7 * i);
        if x & 0x80 == 0 {
            return if v <= u64::MAX as u128 { Some((v as u64, i + 1)) } else { None };
        }
    }
    None
}

pub struct Trust<'a> {
    pub canister: &'a [u8],
    pub now: u128,
    pub offset: u128,
    pub root_der: &'a [u8],
}

/// `inner` is the decoded certificate of the delegation, when there is one.
pub fn check_cert(c: &Cert, inner: Option<&Result<Cert, ()>>, ranges: &dyn Fn(&[u8]) -> Option<Vec<(Vec<u8>, Vec<u8>)>>, t: &Trust) -> CertVerdict {
    use CertVerdict::{Bad, Open};
    // time
    let mut open = None;
    match look_path(&c.tree, &[b"time".to_vec()]) {
        LookPath::Found(v) => match read_leb(&v) {
            Some((n, used)) => {
                if used != v.len() {
                    open = Some("trailing bytes in the time leaf");
                }
                let n = n as u128;
                if n > t.now.saturating_add(t.offset) || n < t.now.saturating_sub(t.offset) {
                    return Bad("time window");
                }
            }
            None => return Bad("time encoding"),
        },
        _ => return Bad("no time"),
    }
    let key: Vec<u8> = match &c.delegation {
        None => t.root_der.to_vec(),
        Some(d) => {
            let inner = match inner {
                Some(Ok(i)) => i,
                _ => return Bad("delegation certificate does not decode"),
            };
            if inner.delegation.is_some() {
                return Bad("nested delegation");
            }
            if !sig_ok(t.root_der, &inner.signature, &inner.tree.digest()) {
                return Bad("delegation signature");
            }
            let p = |l: &str| vec![b"subnet".to_vec(), d.subnet_id.clone(), l.as_bytes().to_vec()];
            let rs = match look_path(&inner.tree, &p("canister_ranges")) {
                LookPath::Found(v) => match ranges(&v) {
                    Some(r) => r,
                    None => return Bad("ranges do not decode"),
                },
                _ => return Bad("no ranges"),
            };
            let mut inside = false;
            for (a, b) in &rs {
                if a.len() == t.canister.len() && b.len() == t.canister.len() {
                    inside |= a.as_slice() <= t.canister && t.canister <= b.as_slice();
                } else {
                    open = Some("range bounds of another length");
                }
            }
            if !inside && open.is_none() {
                return Bad("canister out of range");
            }
            match look_path(&inner.tree, &p("public_key")) {
                LookPath::Found(v) => v,
                _ => return Bad("no subnet key"),
            }
        }
    };
    if !sig_ok(&key, &c.signature, &c.tree.digest()) {
        return Bad("signature");
    }
    match open {
        Some(o) => Open(o),
        None => CertVerdict::Ok,
    }
}

pub fn certified_data<'a>(c: &'a Cert, id: &[u8]) -> Option<Vec<u8>> {
    match look_path(&c.tree, &[b"canister".to_vec(), id.to_vec(), b"certified_data".to_vec()]) {
        LookPath::Found(v) => Some(v),
        _ => None,
    }
}

/// Is this expression path the one that must certify a request for `path`?
/// Ok(()) / Err(why); None when the protocol leaves it open.
pub fn expr_path_ok(expr: &[String], path: &str, tree: &T) -> Option<Result<(), &'static str>> {
    let b: Vec<Vec<u8>> = expr.iter().map(|s| s.as_bytes().to_vec()).collect();
    if b.len() < 2 || b[0] != b"http_expr" {
        return Some(Err("prefix"));
    }
    let mid = b[1..b.len() - 1].to_vec();
    let segs = segments(path);
    let with = |mid: &[Vec<u8>], end: &str| {
        let mut p = vec![b"http_expr".to_vec()];
        p.extend(mid.iter().cloned());
        p.push(end.as_bytes().to_vec());
        p
    };
    let exact = with(&segs, "<$>");
    if b.last().unwrap() == b"<$>" {
        if mid != segs {
            return Some(Err("exact path of another request"));
        }
        return Some(match look_subtree(tree, &b) {
            Look::Found(_) => Ok(()),
            _ => Err("exact path not in tree"),
        });
    }
    if b.last().unwrap() != b"<*>" {
        return Some(Err("suffix"));
    }
    if look_subtree(tree, &exact) != Look::Absent {
        return Some(Err("an exact match may exist"));
    }
    let wilds = wildcards_for(path);
    let Some(i) = wilds.iter().position(|w| *w == mid) else {
        // "/a/" as a wildcard for "/a": not settled by the protocol
        if mid.last().map(|l| l.is_empty()).unwrap_or(false) && mid[..mid.len() - 1] == segs[..] {
            return None;
        }
        return Some(Err("wildcard does not cover the request"));
    };
    for w in &wilds[..i] {
        if look_subtree(tree, &with(w, "<*>")) != Look::Absent {
            return Some(Err("a more specific wildcard may exist"));
        }
    }
    Some(match look_subtree(tree, &b) {
        Look::Found(_) => Ok(()),
        _ => Err("wildcard not in tree"),
    })
}

/// The part of a v2 decision after the certificate: does `tree` certify this exchange
/// under `cel` (whose text is `cel_text`) at `expr`?
/// Some(Ok(Some(headers))): verified, with these certified headers; Some(Ok(None)): skipped.
#[allow(clippy::type_complexity)]
pub fn v2_tree_ok(req: &Req, resp: &Resp, cel: &Cel, cel_text: &str, expr: &[String], tree: &T) -> Option<Result<Option<Vec<(String, String)>>, &'static str>> {
    let Some(path) = request_path(&req.url) else {
        return Some(Err("request path"));
    };
    match expr_path_ok(expr, &path, tree) {
        None => return None,
        Some(Err(e)) => return Some(Err(e)),
        Some(Ok(())) => {}
    }
    let mut p: Vec<Vec<u8>> = expr.iter().map(|s| s.as_bytes().to_vec()).collect();
    p.push(sha(&[cel_text.as_bytes()]).to_vec());
    match cel {
        Cel::Skip => {
            return Some(match look_subtree(tree, &p) {
                Look::Found(_) => Ok(None),
                _ => Err("skip not certified here"),
            })
        }
        Cel::RespOnly(r) => {
            p.push(vec![]);
            p.push(response_hash(resp, r).to_vec());
        }
        Cel::Full { headers, query, resp: r } => {
            p.push(request_hash(req, headers, query).to_vec());
            p.push(response_hash(resp, r).to_vec());
        }
    }
    Some(match look_subtree(tree, &p) {
        Look::Found(T::Leaf(v)) if v.is_empty() => Ok(Some(certified_headers(resp, cel.resp_rule().unwrap()))),
        _ => Err("hashes not in tree"),
    })
}

pub fn v1_tree_ok(path: &str, resp: &Resp, tree: &T, encoding: Option<&str>) -> bool {
    let under = |p: &str| look_path(tree, &[b"http_assets".to_vec(), p.as_bytes().to_vec()]);
    let want = match under(path) {
        LookPath::Found(v) => v,
        LookPath::Absent => match under("/index.html") {
            LookPath::Found(v) => v,
            _ => return false,
        },
        _ => return false,
    };
    let decoded = match encoding {
        Some("gzip") => gunzip(&resp.body),
        Some("deflate") => inflate(&resp.body),
        _ => Some(resp.body.clone()),
    };
    match decoded {
        // a body that cannot be decoded is never accepted
        None => false,
        Some(d) => sha(&[&d]).to_vec() == want || (encoding.is_some() && sha(&[&resp.body]).to_vec() == want),
    }
}
pub fn gunzip(b: &[u8]) -> Option<Vec<u8>> {
    use std::io::Read;
    let mut o = vec![];
    flate2::read::GzDecoder::new(b).read_to_end(&mut o).ok()?;
    Some(o)
}
pub fn inflate(b: &[u8]) -> Option<Vec<u8>> {
    use std::io::Read;
    let mut o = vec![];
    flate2::read::DeflateDecoder::new(b).read_to_end(&mut o).ok()?;
    Some(o)
}

/// Structured view of a real certificate (fields only).
pub fn cert_from_real(c: &ic_certification::Certificate) -> Cert {
    Cert {
        tree: from_real(&c.tree),
        signature: c.signature.clone(),
        delegation: c.delegation.as_ref().map(|d| Deleg { subnet_id: d.subnet_id.clone(), certificate: d.certificate.clone() }),
    }
}
/// Decodes with the code under test's decoder (its fidelity is a property of its own).
pub fn decode_cert(b: &[u8]) -> Result<Cert, ()> {
    use ic_cbor::CertificateToCbor;
    ic_certification::Certificate::from_cbor(b).map(|c| cert_from_real(&c)).map_err(|_| ())
}
pub fn decode_tree(b: &[u8]) -> Option<T> {
    use ic_cbor::HashTreeToCbor;
    ic_certification::HashTree::from_cbor(b).ok().map(|t| from_real(&t))
}
pub fn decode_ranges(b: &[u8]) -> Option<Vec<(Vec<u8>, Vec<u8>)>> {
    ic_cbor::parse_cbor_principals_array(b).ok().map(|v| v.iter().map(|(a, b)| (a.as_slice().to_vec(), b.as_slice().to_vec())).collect())
}
/// Full certificate decision.
pub fn cert_verdict(c: &Cert, t: &Trust) -> CertVerdict {
    let inner = c.delegation.as_ref().map(|d| decode_cert(&d.certificate));
    check_cert(c, inner.as_ref(), &decode_ranges, t)
}
