//! Decisions about whole HTTP exchanges.
use crate::api::*;
use crate::case::Case;
use crate::cert::*;

use crate::rng::Rng;
use crate::spec::*;
use crate::world::*;
use crate::{Property, Workload};
use std::collections::HashMap;

// ---------------------------------------------------------------- shared judging

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    /// only wrong acceptances (and wrong content) are this property's business
    Sound,
    /// only wrong rejections (and wrong content) are
    Complete,
    Both,
}

/// Runs the real verifier on `s` and compares with the reference. Returns whether it accepted.
pub fn judge(c: &mut Case, s: &Served, cels: &HashMap<String, Cel>, mode: Mode) -> Option<bool> {
    let v = reference(s, cels);
    let real = c.guard("verify_request_response_pair", || real_verify(s))?;
    c.eval();
    match (&v, &real) {
        (Verdict::Accept(o), Ok(i)) => {
            c.obs("accepted_rightly");
            if !same_out(o, &out_of(i)) {
                c.viol("content", format!("the verified response differs from the certified part: got {:?}, expected {:?}; {}", out_of(i), o, describe(s)));
            }
        }
        (Verdict::Reject(w), Ok(_)) => {
            c.obs("accepted_wrongly");
            if mode != Mode::Complete {
                c.viol("unsound", format!("an exchange that is not certified ({w}) was verified: {}", describe(s)));
            }
        }
        (Verdict::Accept(_), Err(e)) => {
            c.obs("rejected_wrongly");
            if mode != Mode::Sound {
                c.viol("incomplete", format!("a certified exchange was rejected with {e:?}: {}", describe(s)));
            }
        }
        (Verdict::Reject(w), Err(_)) => {
            c.obs("rejected_rightly");
            let w = format!("rejected: {w}");
            c.obs(&w);
        }
        (Verdict::Open(w), r) => {
            let w = format!("open: {w}{}", if r.is_ok() { " (accepted)" } else { "" });
            c.obs(&w);
        }
    }
    Some(real.is_ok())
}

// ---------------------------------------------------------------- hostile alterations

fn other_text(r: &mut Rng, w: &World, s: &mut Served) {
    let t = if r.bool() || w.entries.is_empty() { let cel = gen_cel(r); gen_text(r, &cel) } else { r.pick(&w.entries).text.clone() };
    if let Some(h) = s.resp.headers.iter_mut().find(|h| h.0.eq_ignore_ascii_case(EXPR_HEADER)) {
        h.1 = t;
    }
}

/// One alteration. `o` is another world (another canister with its own certificate).
pub fn tamper(r: &mut Rng, s: &mut Served, w: &World, o: &World) {
    let a = authority();
    let what: String = match r.below(45) {
        0 => {
            s.resp.status = *r.pick(STATUSES);
            "status".into()
        }
        1 => {
            s.resp.body = gen_body(r);
            "body".into()
        }
        2 => {
            if s.resp.body.is_empty() {
                s.resp.body.push(0);
            } else {
                let i = r.below(s.resp.body.len());
                match r.below(3) {
                    0 => s.resp.body[i] ^= 1 << r.below(8),
                    1 => {
                        s.resp.body.remove(i);
                    }
                    _ => s.resp.body.insert(i, r.u8()),
                }
            }
            "body byte".into()
        }
        3 => {
            let h = (recase(r, hname(&mut r.clone())), hvalue(r));
            let i = r.below(s.resp.headers.len() + 1);
            s.resp.headers.insert(i, h.clone());
            format!("response header added {h:?}")
        }
        4 if s.resp.headers.len() > 1 => {
            let i = r.below(s.resp.headers.len());
            let h = s.resp.headers.remove(i);
            format!("response header removed {}", h.0)
        }
        5 if !s.resp.headers.is_empty() => {
            let i = r.below(s.resp.headers.len());
            if !s.resp.headers[i].0.eq_ignore_ascii_case(EXPR_HEADER) {
                s.resp.headers[i].1 = hvalue(r);
            } else {
                s.resp.headers[i].1.push(' ');
            }
            format!("response header value {}", s.resp.headers[i].0)
        }
        6 if !s.resp.headers.is_empty() => {
            let i = r.below(s.resp.headers.len());
            let h = s.resp.headers[i].clone();
            let j = r.below(s.resp.headers.len() + 1);
            s.resp.headers.insert(j, h);
            "response header duplicated".into()
        }
        7 => {
            r.shuffle(&mut s.resp.headers);
            for h in s.resp.headers.iter_mut() {
                h.0 = recase(r, &h.0);
            }
            "response headers reordered and recased".into()
        }
        8 if !s.resp.headers.is_empty() => {
            let i = r.below(s.resp.headers.len());
            let n = hname(r);
            if !s.resp.headers[i].0.eq_ignore_ascii_case(EXPR_HEADER) {
                s.resp.headers[i].0 = recase(r, n);
            }
            "response header renamed".into()
        }
        9 => {
            s.req.method = gen_method(r);
            "method".into()
        }
        10 => {
            s.req.body = gen_body(r);
            "request body".into()
        }
        11 => {
            let h = (recase(r, hname(&mut r.clone())), hvalue(r));
            let i = r.below(s.req.headers.len() + 1);
            s.req.headers.insert(i, h);
            "request header added".into()
        }
        12 if !s.req.headers.is_empty() => {
            let i = r.below(s.req.headers.len());
            if r.bool() {
                s.req.headers.remove(i);
            } else {
                s.req.headers[i].1 = hvalue(r);
            }
            "request header changed".into()
        }
        13 | 14 => {
            let p = request_path(&s.req.url).unwrap_or("/".into());
            let q = gen_query(r);
            s.req.url = gen_url(r, &p, q);
            "query".into()
        }
        15..=17 => {
            let p = match r.below(4) {
                0 => gen_path(r),
                1 => {
                    let e = r.pick(&w.entries).pat.clone();
                    path_under(r, &e)
                }
                2 => {
                    let p = request_path(&s.req.url).unwrap_or("/".into());
                    if p.len() > 1 && p.ends_with('/') {
                        p[..p.len() - 1].to_string()
                    } else {
                        format!("{p}/")
                    }
                }
                _ => {
                    let p = request_path(&s.req.url).unwrap_or("/".into());
                    if r.bool() {
                        parent(&p)
                    } else {
                        extend_path(r, &p)
                    }
                }
            };
            let q = split_url(&s.req.url).1;
            s.req.url = gen_url(r, &p, q);
            format!("path {p}")
        }
        18 | 19 => {
            let e = if r.chance(1, 4) { gen_pat(r) } else { r.pick(&w.entries).pat.clone() };
            s.expr = e.expr_path();
            format!("expr_path of {e:?}")
        }
        20 => {
            match r.below(6) {
                0 => {
                    s.expr.pop();
                }
                1 => {
                    s.expr.remove(0);
                }
                2 => s.expr.push(if r.bool() { "<*>".into() } else { "<$>".into() }),
                3 => {
                    let n = s.expr.len();
                    s.expr[n - 1] = if s.expr[n - 1] == "<*>" { "<$>".into() } else { "<*>".into() };
                }
                4 => {
                    let i = r.range(1, s.expr.len());
                    s.expr.insert(i, r.pick(&["", "a", "b", "<*>", "http_expr"]).to_string());
                }
                _ => {
                    let i = r.below(s.expr.len());
                    s.expr.remove(i);
                }
            }
            if s.expr.is_empty() {
                s.expr.push("http_expr".into());
            }
            "expr_path edited".into()
        }
        21 => {
            other_text(r, w, s);
            "expression header".into()
        }
        22 => {
            s.resp.headers.retain(|h| !h.0.eq_ignore_ascii_case(EXPR_HEADER));
            "no expression header".into()
        }
        23..=26 => {
            // hide part of the witness
            for _ in 0..r.range(1, 3) {
                let n = s.tree.size();
                if let Some(t) = prune_nth(&s.tree, r.below(n)) {
                    s.tree = t;
                }
            }
            "witness pruned further".into()
        }
        27 => {
            s.tree = w.full.clone();
            "full tree".into()
        }
        28 => {
            // forge: insert the claimed entry into the tree without certifying it
            let mut m = entries_map(&w.entries);
            if let Some(cel) = s.resp.headers.iter().find(|h| h.0.eq_ignore_ascii_case(EXPR_HEADER)).and_then(|h| w.cels.get(&h.1)) {
                let mut p: Vec<Vec<u8>> = s.expr.iter().map(|x| x.as_bytes().to_vec()).collect();
                p.push(sha(&[cel.text().as_bytes()]).to_vec());
                m.insert(&p, vec![]);
            }
            s.tree = crate::gen::tree_of(r, &m, 30);
            "forged tree".into()
        }
        29 => {
            s.tree = o.full.clone();
            "tree of another canister".into()
        }
        30 => {
            s.cert = o.cert.clone();
            "certificate of another canister".into()
        }
        31 => {
            s.cert = o.cert.clone();
            s.tree = o.full.clone();
            if r.bool() {
                let e = r.pick(&o.entries).clone();
                s.resp = e.resp.clone();
                s.req = e.req.clone();
                s.expr = e.pat.expr_path();
            }
            "everything of another canister".into()
        }
        32 => {
            // stale: an older certificate of the same canister
            let d = if r.bool() { r.u64() % 900_000_000_000 } else { r.u64() % 3 + 300_000_000_000 - 1 };
            s.now = if r.bool() { w.time as u128 + d as u128 } else { w.time as u128 - d as u128 };
            "time of verification".into()
        }
        33 => {
            let d = w.full.digest();
            match r.below(6) {
                0 => s.cert.signature = a.other.sign(&s.cert.tree.digest()),
                1 => s.cert.signature = a.root.sign(&d),
                2 => {
                    let i = r.below(s.cert.signature.len());
                    s.cert.signature[i] ^= 1 << r.below(8);
                }
                3 => s.cert.signature = o.cert.signature.clone(),
                4 => {
                    s.cert.signature.pop();
                }
                _ => {
                    s.cert.signature.push(0);
                }
            }
            "signature".into()
        }
        34 => {
            // self-made certificate over a changed state
            let t = crate::gen::prune(r, &w.full, 0);
            let mut c = honest(r, &s.canister, &t.digest(), w.time, false, 0);
            c.signature = a.other.sign(&c.tree.digest());
            s.cert = c;
            "certificate signed by a stranger".into()
        }
        35 => {
            let t = T::Empty;
            s.cert = honest(r, &s.canister, &t.digest(), w.time, r.clone().bool(), 0);
            "genuine certificate for other data".into()
        }
        36 => {
            s.cert.delegation = match (&s.cert.delegation, &o.cert.delegation) {
                (Some(_), _) if r.bool() => None,
                (_, Some(d)) => Some(d.clone()),
                _ => {
                    let c = honest(r, &s.canister, b"x", w.time, true, 0);
                    c.delegation
                }
            };
            "delegation swapped".into()
        }
        37 => {
            s.canister = if r.bool() { o.id.clone() } else { canister_id(r.u64() % (1 << 34)) };
            "verified as another canister".into()
        }
        38 => {
            s.version = r.pick(&[None, Some("1"), Some("2"), Some("3"), Some("0"), Some("255"), Some("256"), Some("02"), Some(""), Some("x")]).map(|x| x.to_string());
            "version field".into()
        }
        39 => {
            s.min_version = *r.pick(&[0, 1, 2, 3, 255]);
            "minimum version".into()
        }
        40 => {
            let mut p = s.clone();
            let w2 = w;
            tamper_header(r, &mut p, w2, o);
            s.raw = p.raw;
            s.odd = true;
            "certificate header syntax".into()
        }
        41 => {
            let i = r.below(s.resp.headers.len() + 2);
            let v = match r.below(3) {
                0 => {
                    let mut p = s.clone();
                    p.tree = o.full.clone();
                    p.header()
                }
                1 => "garbage".to_string(),
                _ => s.header(),
            };
            s.extra.push((i, recase(r, CERT_HEADER), v));
            "second certificate header".into()
        }
        43 => {
            s.name = r.pick(&["X-IC-Certificate", "IC-Certificates", "IC_Certificate", "Certificate", "IC-Certificate ", "", "IC-CertificateExpression2"]).to_string();
            "no certificate header".into()
        }
        42 => {
            let i = r.below(s.resp.headers.len() + 2);
            let t = if r.bool() { Cel::Skip.text() } else { r.pick(&w.entries).text.clone() };
            s.extra.push((i, recase(r, EXPR_HEADER), t));
            "second expression header".into()
        }
        _ => {
            let k = match r.below(3) {
                0 => a.other.der(),
                1 => a.subnet.der(),
                _ => {
                    let mut d = a.root.der();
                    let i = r.below(d.len());
                    d[i] ^= 1 << r.below(8);
                    d
                }
            };
            s.root_der = k;
            "root key".into()
        }
    };
    s.log.push(what);
}

/// Rewrites the text of the certificate header (structure-level mischief).
fn tamper_header(r: &mut Rng, s: &mut Served, w: &World, o: &World) {
    let c = b64(&s.cert.cbor());
    let t = b64(&tree_cbor(&s.tree, true));
    let t2 = b64(&tree_cbor(&o.full, true));
    let c2 = b64(&o.cert.cbor());
    let e = b64(&strings_cbor(&s.expr));
    let e2 = b64(&strings_cbor(&r.pick(&w.entries).pat.expr_path()));
    let f = |n: &str, v: &str| format!("{n}=:{v}:");
    let mut fs = vec![f("certificate", &c), f("tree", &t), f("expr_path", &e), "version=2".to_string()];
    for _ in 0..r.range(1, 3) {
        let i = r.below(fs.len() + 1);
        match r.below(9) {
            0 => fs.insert(i, f("tree", &t2)),
            1 => fs.insert(i, f("certificate", &c2)),
            2 => fs.insert(i, f("expr_path", &e2)),
            3 => fs.insert(i, format!("version={}", r.below(4))),
            4 => fs.insert(i, f("unknown", &t2)),
            5 => {
                if i < fs.len() {
                    fs.remove(i);
                }
            }
            6 => r.shuffle(&mut fs),
            7 => {
                if i < fs.len() {
                    fs[i] = fs[i].replace(':', "");
                }
            }
            _ => {
                if i < fs.len() {
                    let mut b = fs[i].clone().into_bytes();
                    let k = r.below(b.len());
                    b[k] = *r.pick(b"AZaz09+/=:, ");
                    fs[i] = String::from_utf8(b).unwrap();
                }
            }
        }
    }
    let sep = *r.pick(&[",", ", ", " , "]);
    s.raw = Some(fs.join(sep));
}

/// a path worth asking this world for
pub fn interesting_path(r: &mut Rng, w: &World) -> String {
    if r.chance(1, 5) {
        return gen_path(r);
    }
    let p = r.pick(&w.entries).pat.clone();
    let q = path_under(r, &p);
    match r.below(6) {
        0 => extend_path(r, &q),
        1 => parent(&q),
        _ => q,
    }
}

fn c01_tampered(c: &mut Case) {
    let mut r = c.rng.clone();
    let w = gen_world(&mut r);
    let o = gen_world(&mut r);
    let mut cels = w.cels.clone();
    cels.extend(o.cels.clone());
    for _ in 0..6 {
        let path = interesting_path(&mut r, &w);
        let greedy = r.chance(1, 3);
        let Some(h) = serve(&mut r, &w, &path, greedy) else {
            c.obs("no_certified_answer");
            continue;
        };
        judge(c, &h, &cels, Mode::Sound);
        for _ in 0..8 {
            let mut s = h.clone();
            for _ in 0..*r.pick(&[1, 1, 1, 2, 2, 3]) {
                tamper(&mut r, &mut s, &w, &o);
            }
            c.nontrivial(format!("{:?}", s.log).as_bytes());
            c.sample(|| describe(&s));
            judge(c, &s, &cels, Mode::Sound);
        }
    }
}

/// Every node of a witness is pruned in turn, every segment of expr_path changed.
fn c01_boundary(c: &mut Case) {
    let mut r = c.rng.clone();
    let w = gen_world(&mut r);
    for _ in 0..2 {
        let path = interesting_path(&mut r, &w);
        let Some(h) = serve(&mut r, &w, &path, true) else { continue };
        judge(c, &h, &w.cels, Mode::Sound);
        for i in 0..h.tree.size() {
            if let Some(t) = prune_nth(&h.tree, i) {
                let mut s = h.clone();
                s.tree = t;
                s.log.push(format!("node {i} pruned"));
                c.nontrivial(&s.tree.digest());
                judge(c, &s, &w.cels, Mode::Sound);
                c.obs("witness_nodes_hidden");
            }
        }
        // the same witness for every other pattern and for neighbouring requests
        for e in &w.entries {
            let mut s = h.clone();
            s.tree = w.full.clone();
            s.expr = e.pat.expr_path();
            s.resp = e.resp.clone();
            s.log.push(format!("answered with the entry at {:?}", e.pat));
            judge(c, &s, &w.cels, Mode::Sound);
            s.tree = prune_greedy(&mut r, &w.full, &|t| {
                let p: Vec<Vec<u8>> = entry_path(e);
                matches!(look_subtree(t, &p), Look::Found(_))
            });
            s.log.push("witness showing only that entry".into());
            judge(c, &s, &w.cels, Mode::Sound);
            c.obs("other_entries_offered");
        }
    }
}

pub const C01: Property = Property {
    id: "C01",
    rule: "one altered exchange (1-3 alterations of request, response, witness, expression path, certificate, header or trust inputs) decided by the real verifier and by the reference verifier; distinct by the list of alterations",
    assumptions: &["BLS signatures cannot be forged and SHA-256 has no collisions", "exchanges with several certificate or expression headers are only required not to be accepted when no reading of them is certified"],
    must_observe: &["accepted_rightly", "rejected_rightly", "witness_nodes_hidden", "other_entries_offered"],
    workloads: &[
        Workload { name: "tampered", f: c01_tampered, quick: 2_000, thorough: 120_000 },
        Workload { name: "boundary", f: c01_boundary, quick: 600, thorough: 40_000 },
    ],
};

// ---------------------------------------------------------------- C02

fn c02_model(c: &mut Case) {
    let mut r = c.rng.clone();
    let w = gen_world(&mut r);
    for k in 0..8 {
        let path = interesting_path(&mut r, &w);
        let Some(mut h) = serve(&mut r, &w, &path, k % 2 == 0) else {
            c.obs("no_certified_answer");
            continue;
        };
        // freedom a gateway or a client has without touching what is certified
        for _ in 0..r.below(3) {
            match r.below(5) {
                0 => {
                    let mut order: Vec<usize> = (0..h.resp.headers.len()).collect();
                    r.shuffle(&mut order);
                    // the certified part is a multiset of headers
                    h.resp.headers = order.iter().map(|i| h.resp.headers[*i].clone()).collect();
                    h.log.push("response headers reordered".into());
                }
                1 => {
                    for x in h.resp.headers.iter_mut().chain(h.req.headers.iter_mut()) {
                        x.0 = recase(&mut r, &x.0);
                    }
                    h.log.push("header names recased".into());
                }
                2 => {
                    h.now = h.now.max(w.time as u128);
                    h.offset = 300_000_000_000 + r.below(1000) as u128;
                    h.log.push("wider time window".into());
                }
                3 => {
                    let (p, q) = split_url(&h.req.url);
                    if let Some(d) = pct_decode(&p) {
                        h.req.url = gen_url(&mut r, &d, q);
                    }
                    h.log.push("url respelled".into());
                }
                _ => {
                    h.pos = r.below(h.resp.headers.len() + 1);
                    h.log.push("certificate header moved".into());
                }
            }
        }
        c.nontrivial(format!("{:?}{:?}", h.expr, h.tree.digest()).as_bytes());
        c.sample(|| describe(&h));
        if judge(c, &h, &w.cels, Mode::Complete) == Some(true) {
            c.obs("honest_exchanges_verified");
        }
    }
}

/// The library certifies, serves and verifies.
fn c02_library(c: &mut Case) {
    let mut r = c.rng.clone();
    let entries = gen_world(&mut r).entries;
    let Some(can) = c.guard("certify", || Canister::new(&mut r, entries)) else { return };
    let can = match can {
        Ok(x) => x,
        Err(e) => return c.viol("certify", e),
    };
    for _ in 0..6 {
        let path = interesting_path(&mut r, &can.w);
        let Some(mut h) = serve(&mut r, &can.w, &path, false) else {
            c.obs("no_certified_answer");
            continue;
        };
        let e = can.w.entries[h.entry].clone();
        let Some(x) = c.guard("witness", || can.header_for(&e, &path, &h.resp)) else { continue };
        let (tree, header) = match x {
            Ok(x) => x,
            Err(m) => {
                if matches!(&e.pat, Pat::Wild(p) if p.ends_with('/')) {
                    c.obs("open: wildcard on the directory itself");
                } else {
                    c.viol("witness", format!("no witness for {:?} on request {path}: {m}", e.pat));
                }
                continue;
            }
        };
        h.tree = tree;
        h.raw = Some(header);
        h.log.push("witness and header made by the library".into());
        c.nontrivial(format!("{:?}{:?}", h.expr, h.tree.digest()).as_bytes());
        c.sample(|| describe(&h));
        match reference(&h, &can.w.cels) {
            Verdict::Reject(why) => c.viol("witness-reference", format!("the library's own answer is not certified ({why}): {}", describe(&h))),
            _ => {
                if judge(c, &h, &can.w.cels, Mode::Both) == Some(true) {
                    c.obs("library_exchanges_verified");
                }
            }
        }
        // the same request under another entry must not verify unless the reference agrees
        let o = r.pick(&can.w.entries).clone();
        if let Some(Ok((tree, header))) = c.guard("witness", || can.header_for(&o, &path, &o.resp)) {
            let mut s = h.clone();
            s.tree = tree;
            s.expr = o.pat.expr_path();
            s.raw = Some(header);
            s.resp = o.resp.clone();
            s.log.push(format!("answered with {:?}", o.pat));
            judge(c, &s, &can.w.cels, Mode::Both);
        }
    }
}

pub const C02: Property = Property {
    id: "C02",
    rule: "one honest exchange (made by the model or by the certification library, with uncertified parts varied) verified by the real verifier; distinct by expression path and witness digest",
    assumptions: &["canister identifiers have at most 29 bytes", "names in certification expressions contain neither a double quote nor a backslash", "a wildcard that ends in a slash is not expected to cover the path without that slash"],
    must_observe: &["honest_exchanges_verified", "library_exchanges_verified"],
    workloads: &[
        Workload { name: "model", f: c02_model, quick: 4_000, thorough: 150_000 },
        Workload { name: "library", f: c02_library, quick: 4_000, thorough: 150_000 },
    ],
};
