//! C10: nothing taken from the network makes the library panic, overflow the
//! stack, hang or allocate out of proportion.
use crate::alloc::measure;
use crate::api::*;
use crate::case::Case;
use crate::cert::*;
use crate::gen::mutate_bytes;
use crate::props::http::{interesting_path, tamper};
use crate::rng::Rng;
use crate::spec::*;
use crate::world::*;
use crate::{Property, Workload};
use candid::{Decode, Encode};
use ic_asset_certification::{Asset, AssetConfig, AssetEncoding, AssetFallbackConfig, AssetRedirectKind, AssetRouter, ASSET_CHUNK_SIZE};
use ic_cbor::{parse_cbor, parse_cbor_principals_array, parse_cbor_string_array, CertificateToCbor, HashTreeToCbor};
use ic_certificate_verification::VerifyCertificate;
use ic_certification::{Certificate, HashTree};
use ic_http_certification::utils::{is_wildcard_path_valid_for_request_path, more_specific_wildcards_for};
use ic_http_certification::{HttpCertificationTree, HttpRequest, HttpResponse, Method};

fn cpu() -> u64 {
    let s = std::fs::read_to_string("/proc/thread-self/schedstat").unwrap_or_default();
    s.split_whitespace().next().and_then(|x| x.parse().ok()).unwrap_or(0)
}

/// Runs one operation on input of `len` bytes and judges how it behaved.
fn probe<R>(c: &mut Case, op: &str, len: usize, what: &dyn Fn() -> String, f: impl FnOnce() -> R) -> Option<R> {
    crate::PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let t = if len > 4_000 { cpu() } else { 0 };
    c.eval();
    warm_up();
    let r = match crate::case::quiet_catch(|| measure(f)) {
        Ok(x) => x,
        Err(p) => {
            if p.in_harness() {
                c.viol(&format!("step:{op}"), format!("a step that has to succeed did not: {}", p.text));
            } else {
                c.viol(&format!("panic:{op}"), format!("{op} panicked ({}) on {}", p.text, what()));
            }
            return None;
        }
    };
    let (r, u) = r;
    let len = len as u64;
    c.check(u.peak <= (1 << 20) + 600 * len, &format!("memory:{op}"), || format!("{op} held {} bytes at its peak for {len} bytes of input: {}", u.peak, what()));
    c.check(u.largest <= (1 << 20) + 300 * len, &format!("allocation:{op}"), || format!("{op} made an allocation of {} bytes for {len} bytes of input: {}", u.largest, what()));
    if len > 4_000 {
        let ns = cpu().saturating_sub(t);
        c.check(ns <= 4_000_000_000 + 30_000 * len, &format!("time:{op}"), || format!("{op} took {} ms of CPU time for {len} bytes of input: {}", ns / 1_000_000, what()));
        c.obs("large_inputs");
    }
    c.obs("operations");
    Some(r)
}
/// The cache of verified signatures reserves its memory when it is first used.
fn warm_up() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let id = canister_id(1);
        let k = honest(&mut Rng::new(1), &id, &[1; 32], 1, false, 0).real();
        let _ = k.verify(&id, &authority().root.der(), &1, &1);
    });
}
fn show(b: &[u8]) -> String {
    let h: String = b.iter().take(120).map(|x| format!("{x:02x}")).collect();
    format!("{} bytes {h}{}", b.len(), if b.len() > 120 { "…" } else { "" })
}
fn cut(s: &str) -> String {
    let t: String = s.chars().take(200).collect();
    if t.len() < s.len() { format!("{t}… ({} bytes)", s.len()) } else { t }
}

// ------------------------------------------------------------------ hostile material

fn size(r: &mut Rng, max: usize) -> usize {
    match r.below(8) {
        0 => r.below(4),
        1 | 2 => r.below(40),
        3 | 4 => r.below(400),
        5 => r.below(4_000.min(max)),
        6 => r.below(40_000.min(max)),
        _ => r.below(max),
    }
}
fn some_tree(r: &mut Rng, n: usize) -> T {
    if n == 0 {
        return match r.below(5) {
            0 => T::Empty,
            1 => {
                let mut h = [0u8; 32];
                h.copy_from_slice(&r.bytes(32));
                T::Pruned(h)
            }
            _ => {
                let k = r.below(40);
                leaf(r.bytes(k))
            }
        };
    }
    match r.below(3) {
        0 => {
            let k = r.below(20);
            lab(r.bytes(k), some_tree(r, n - 1))
        }
        _ => {
            let k = r.below(n);
            let a = some_tree(r, k);
            let b = some_tree(r, n - 1 - k);
            fork(a, b)
        }
    }
}
/// A genuine encoding of something the decoders know.
fn genuine(r: &mut Rng) -> Vec<u8> {
    match r.below(5) {
        0 => {
            let n = r.below(30);
            tree_cbor(&some_tree(r, n), true)
        }
        1 | 2 => {
            let id = canister_id(7);
            let (t, d) = (r.u64() >> 3, r.bool());
            let data = r.bytes(32);
            if r.bool() {
                honest(r, &id, &data, t, d, 2).cbor()
            } else {
                let n = r.below(20);
                let tree = some_tree(r, n);
                let (s, i, k) = (*r.pick(&[0, 1, 47, 48, 49, 96]), r.below(40), r.below(60));
                Cert { tree, signature: r.bytes(s), delegation: if d { Some(Deleg { subnet_id: r.bytes(i), certificate: r.bytes(k) }) } else { None } }.cbor()
            }
        }
        3 => {
            let n = r.below(6);
            let v: Vec<(Vec<u8>, Vec<u8>)> = (0..n)
                .map(|_| {
                    let (a, b) = (r.below(34), r.below(34));
                    (r.bytes(a), r.bytes(b))
                })
                .collect();
            ranges_cbor(&v)
        }
        _ => {
            let n = r.below(8);
            let v: Vec<String> = (0..n).map(|_| r.pick(&["http_expr", "<$>", "", "a", "é", "<*>"]).to_string()).collect();
            strings_cbor(&v)
        }
    }
}
fn head_lies(r: &mut Rng) -> Vec<u8> {
    let mut o = vec![];
    if r.chance(1, 3) {
        o.extend_from_slice(&SELF_DESCRIBE);
    }
    let n = *r.pick(&[0u64, 1, 23, 24, 255, 256, 65535, 65536, 1 << 20, 1 << 28, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 40, 1 << 56, i64::MAX as u64, 1 << 63, u64::MAX - 1, u64::MAX]);
    let m = *r.pick(&[0u64, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 7]) as u8;
    o.push(m << 5 | 27);
    o.extend_from_slice(&n.to_be_bytes());
    let k = r.below(40);
    o.extend(r.bytes(k));
    o
}
fn hostile_cbor(r: &mut Rng, max: usize) -> Vec<u8> {
    match r.below(14) {
        0 => {
            let n = size(r, 3_000.min(max));
            r.bytes(n)
        }
        1..=4 => {
            let mut b = genuine(r);
            let o = genuine(r);
            for _ in 0..r.range(1, 3) {
                mutate_bytes(r, &mut b, &o);
            }
            b
        }
        5 => genuine(r),
        6 => {
            // nesting: the same opening over and over
            let n = size(r, max / 4);
            let unit: &[u8] = *r.pick::<&[u8]>(&[&[0x81], &[0x82, 0x00], &[0x83, 0x01], &[0x83, 0x01, 0x81, 0x00], &[0x83, 0x02, 0x41, 0x61], &[0xa1, 0x61, 0x61], &[0xa1, 0x64, 0x74, 0x72, 0x65, 0x65], &[0xd9, 0xd9, 0xf7], &[0xc0], &[0x9f], &[0xbf], &[0x5f], &[0x82, 0x81, 0x00], &[0x9b, 0, 0, 0, 0, 0, 0, 0, 1], &[0x9a, 0xff, 0xff, 0xff, 0xff], &[0x9b, 0, 0, 0, 1, 0, 0, 0, 0], &[0xba, 0, 0xff, 0xff, 0xff, 0x61, 0x61], &[0x9a, 0, 1, 0, 0]]);
            let mut o = if r.bool() { SELF_DESCRIBE.to_vec() } else { vec![] };
            for _ in 0..n / unit.len() + 1 {
                o.extend_from_slice(unit);
            }
            match r.below(3) {
                0 => {}
                1 => o.extend_from_slice(&[0x81, 0x00]),
                _ => {
                    for _ in 0..n.min(max / 4) {
                        o.extend_from_slice(&[0x81, 0x00]);
                    }
                }
            }
            o
        }
        7 => head_lies(r),
        8 => {
            // lies deep inside something genuine
            let mut b = genuine(r);
            let i = r.below(b.len() + 1);
            let l = head_lies(r);
            b.splice(i..i, l);
            b
        }
        9 => {
            // wide
            let n = size(r, max / 4);
            let mut o = vec![];
            let unit: &[u8] = *r.pick::<&[u8]>(&[&[0x00], &[0x05], &[0x20], &[0x40], &[0x60], &[0x80], &[0xa0], &[0x81, 0x00], &[0x61, 0x61], &[0x82, 0x40, 0x40], &[0x38, 0xff], &[0x1b, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff]]);
            let count = (n / unit.len()) as u64;
            cbor_head(*r.pick(&[4, 4, 5]), *r.pick(&[count, count, count + 1, count.saturating_sub(1), count / 2]), &mut o);
            for _ in 0..count {
                o.extend_from_slice(unit);
            }
            o
        }
        10 => {
            // a map with many distinct keys
            let n = size(r, max / 8);
            let mut o = vec![];
            cbor_head(5, n as u64 / 6, &mut o);
            for i in 0..n / 6 {
                cbor_text(&format!("{i:x}"), &mut o);
                o.push(0x40);
            }
            o
        }
        11 => {
            // a full, balanced or one-sided tree, as deep and wide as it gets
            let n = size(r, max / 12);
            if r.bool() {
                tree_cbor(&some_tree(r, n.min(20_000)), r.clone().bool())
            } else {
                let mut t = leaf(b"x");
                for i in 0..n.min(400) {
                    t = if r.bool() { fork(t, lab(format!("{i}"), T::Empty)) } else { lab("a", t) };
                }
                tree_cbor(&t, true)
            }
        }
        12 => {
            // large strings
            let n = size(r, max);
            let mut o = vec![];
            cbor_head(*r.pick(&[2, 3]), n as u64, &mut o);
            let b = if r.bool() { vec![b'a'; n] } else { r.bytes(n) };
            o.extend(b);
            o
        }
        _ => {
            let mut b = genuine(r);
            let n = r.below(b.len() + 1);
            b.truncate(n);
            b
        }
    }
}

fn c10_decoders(c: &mut Case) {
    let mut r = c.rng.clone();
    let max = if c.thorough { 400_000 } else { 200_000 };
    let max = if r.chance(1, 12) { max } else { 4_000 };
    let b = hostile_cbor(&mut r, max);
    let n = b.len();
    let what = || show(&b);
    c.sample(|| show(&b));
    let v = probe(c, "parse_cbor", n, &what, || parse_cbor(&b).map(|_| ()).map_err(|_| ()));
    let s = probe(c, "parse_cbor_string_array", n, &what, || parse_cbor_string_array(&b).map(|_| ()).map_err(|e| format!("{e}{e:?}").len()));
    let p = probe(c, "parse_cbor_principals_array", n, &what, || parse_cbor_principals_array(&b).map(|_| ()).map_err(|e| format!("{e}{e:?}").len()));
    let t = probe(c, "HashTree::from_cbor", n, &what, || <HashTree as HashTreeToCbor>::from_cbor(&b).map_err(|e| format!("{e}{e:?}").len()));
    let k = probe(c, "Certificate::from_cbor", n, &what, || <Certificate as CertificateToCbor>::from_cbor(&b).map_err(|e| format!("{e}{e:?}").len()));
    let any = matches!(v, Some(Ok(_))) as u8 | (matches!(s, Some(Ok(_))) as u8) << 1 | (matches!(p, Some(Ok(_))) as u8) << 2 | (matches!(t, Some(Ok(_))) as u8) << 3 | (matches!(k, Some(Ok(_))) as u8) << 4;
    c.nontrivial(&[&b[..n.min(4000)], &[any]].concat());
    c.obs(if any == 0 { "refused_by_all_decoders" } else { "decoded" });
    // what was decoded is used
    let mut trees = vec![];
    if let Some(Ok(t)) = t {
        trees.push(t);
    }
    if let Some(Ok(k)) = k {
        let kk = k.clone();
        let root = authority().root.der();
        probe(c, "Certificate::verify", n + 200, &what, || k.verify(&canister_id(7), &root, &0, &u128::MAX).map_err(|e| format!("{e}{e:?}").len()));
        trees.push(kk.tree);
    }
    for t in trees {
        use_tree(c, &mut r, &t, n, &what);
        c.obs("trees_used");
    }
    // the serde decoders
    probe(c, "serde HashTree", n, &what, || serde_cbor::from_slice::<HashTree>(&b).map(|t| t.digest()).map_err(|e| format!("{e}")));
    probe(c, "serde Certificate", n, &what, || serde_cbor::from_slice::<Certificate>(&b).map(|t| t.tree.digest()).map_err(|e| format!("{e}")));
}
fn use_tree(c: &mut Case, r: &mut Rng, t: &HashTree, n: usize, what: &dyn Fn() -> String) {
    let n = n + 500;
    let path: Vec<Vec<u8>> = (0..r.below(6))
        .map(|_| {
            let k = r.below(4);
            match r.below(3) {
                0 => b"a".to_vec(),
                1 => vec![],
                _ => r.bytes(k),
            }
        })
        .collect();
    probe(c, "digest", n, what, || t.digest());
    probe(c, "lookup_path", n, what, || format!("{:?}", t.lookup_path(&path)).len());
    probe(c, "lookup_subtree", n, what, || format!("{:?}", t.lookup_subtree(&path)).len());
    probe(c, "list_paths", n, what, || t.list_paths().len());
    probe(c, "clone and compare", n, what, || t.clone() == *t);
}

// ---------------------------------------------------------------- hostile exchanges

fn long(r: &mut Rng, max: usize) -> String {
    let n = size(r, max);
    let unit = *r.pick(&["a", "/", "/a", "a/", "//", "%", "%2f", "%41", "%zz", "é", "?", "&", "=", "a=b&", ":", "=:", ",", "a=:,", "certificate=:", "(", "((", "[", "{", "\"", "'", "\\", "\\\"", "a(", "f{", "f{a:", "f{a:[", "a(f{b:", " ", "\n", "\0", "#", "..", "/..", "<*>", "/<*>", "ValidationArgs{", "certification:", "default_certification(", "[\"a\",", "no_certification:Empty{},", ";q=0,", "br,"]);
    let mut s = String::new();
    while s.len() < n {
        s.push_str(unit);
    }
    s
}
fn odd_text(r: &mut Rng, like: &str, max: usize) -> String {
    match r.below(8) {
        0 => String::new(),
        1 => long(r, max),
        2 => format!("{like}{}", long(r, max)),
        3 => format!("{}{like}", long(r, max)),
        4 => {
            let cs: Vec<char> = like.chars().collect();
            let i = r.below(cs.len() + 1);
            let m = long(r, max / 4);
            format!("{}{m}{}", cs[..i].iter().collect::<String>(), cs[i..].iter().collect::<String>())
        }
        5 => {
            let mut cs: Vec<char> = like.chars().collect();
            for _ in 0..r.range(1, 6) {
                if cs.is_empty() {
                    break;
                }
                let i = r.below(cs.len());
                match r.below(4) {
                    0 => {
                        cs.remove(i);
                    }
                    1 => cs[i] = *r.pick(&['"', '(', ')', '{', '}', '[', ']', ',', ':', '=', '%', '/', '\0', 'é', '\u{fffd}', '\\', ' ', '\u{10ffff}', '\u{130}', 'ß']),
                    2 => cs.insert(i, *r.pick(&['"', '(', ')', '{', '}', '[', ']', ',', ':', '=', '%', '/', '?', '#'])),
                    _ => cs.truncate(i),
                }
            }
            cs.into_iter().collect()
        }
        6 => {
            let n = r.below(60);
            (0..n).map(|_| char::from_u32(r.below(0x11_0000) as u32).unwrap_or('\u{fffd}')).collect()
        }
        _ => {
            let k = r.range(2, 6);
            like.repeat(k)
        }
    }
}
/// A certificate signed by those who may sign, saying odd things.
fn odd_cert(r: &mut Rng, id: &[u8], data: &[u8]) -> Cert {
    let a = authority();
    let time = match r.below(8) {
        0 => vec![],
        1 => vec![0x80; r.below(40)],
        2 => vec![0xff; r.range(8, 12)],
        3 => {
            let n = r.below(20_000);
            vec![0x80; n]
        }
        4 => leb(u64::MAX),
        5 => {
            let mut v = vec![0xff; 9];
            v.push(*r.pick(&[0x00, 0x01, 0x02, 0x7f, 0x81]));
            v
        }
        6 => leb(0),
        _ => leb(r.u64()),
    };
    let time_tree = match r.below(8) {
        0 => T::Empty,
        1 => lab("x", leaf(b"")),
        2 => T::Pruned([7; 32]),
        _ => leaf(&time),
    };
    let cd = match r.below(4) {
        0 => {
            let n = r.below(40);
            r.bytes(n)
        }
        _ => data.to_vec(),
    };
    let tree = fork(lab("canister", lab(id, lab("certified_data", leaf(cd)))), lab("time", time_tree));
    let delegated = r.chance(2, 3);
    let signer = if delegated { &a.subnet } else { &a.root };
    let mut signature = signer.sign(&tree.digest());
    match r.below(6) {
        0 => {
            let n = *r.pick(&[0usize, 1, 47, 49, 96, 97, 1000]);
            signature = r.bytes(n);
        }
        1 => signature[0] = r.u8(),
        2 => signature = vec![*r.pick(&[0u8, 0xc0, 0xff, 0x80]); 48],
        _ => {}
    }
    let delegation = delegated.then(|| {
        let sid = {
            let n = *r.pick(&[0usize, 1, 29, 29, 29, 30, 100]);
            r.bytes(n)
        };
        let der = match r.below(10) {
            0 => vec![],
            1 => r.bytes(133),
            2 => {
                let mut d = a.subnet.der();
                let n = r.below(d.len());
                d.truncate(n);
                d
            }
            3 => {
                let mut d = DER.to_vec();
                let n = *r.pick(&[0usize, 1, 95, 96, 97]);
                d.extend(r.bytes(n));
                d
            }
            4 => {
                let mut d = DER.to_vec();
                d.extend(vec![*r.pick(&[0u8, 0xc0, 0xff, 0x80]); 96]);
                d
            }
            _ => a.subnet.der(),
        };
        let ranges = match r.below(6) {
            0 => hostile_cbor(r, 20_000),
            1 => ranges_cbor(&[]),
            2 => {
                let v: Vec<_> = (0..r.below(40)).map(|_| (r.clone().bytes(29), r.bytes(10))).collect();
                ranges_cbor(&v)
            }
            _ => ranges_cbor(&[(canister_id(0), canister_id(u64::MAX))]),
        };
        let mut st = fork(lab("subnet", lab(&sid, fork(lab("canister_ranges", leaf(ranges)), lab("public_key", leaf(der))))), lab("time", leaf(leb(1))));
        if r.chance(1, 6) {
            st = r.pick(&[T::Empty, T::Pruned([1; 32]), lab("subnet", T::Pruned([2; 32])), lab("subnet", leaf(b"x"))]).clone();
        }
        let sig = a.root.sign(&st.digest());
        let inner = Cert { tree: st, signature: sig, delegation: r.chance(1, 8).then(|| Deleg { subnet_id: sid.clone(), certificate: vec![0xa0] }) };
        Deleg { subnet_id: sid, certificate: if r.chance(1, 8) { hostile_cbor(r, 20_000) } else { inner.cbor() } }
    });
    Cert { tree, signature, delegation }
}

fn c10_certificates(c: &mut Case) {
    let mut r = c.rng.clone();
    let id = canister_id(r.below(1 << 20) as u64);
    let k = odd_cert(&mut r, &id, &[3; 32]);
    let (now, off) = (*r.pick(&[0u128, 1, 1_700_000_000_000_000_000, u64::MAX as u128, u128::MAX, u128::MAX - 1]), *r.pick(&[0u128, 1, 300_000_000_000, u64::MAX as u128, u128::MAX]));
    let key = match r.below(8) {
        0 => {
            let n = *r.pick(&[0usize, 1, 37, 96, 132, 133, 134, 1000]);
            r.bytes(n)
        }
        1 => {
            let mut d = DER.to_vec();
            d.extend(vec![*r.pick(&[0u8, 0xc0, 0xff]); 96]);
            d
        }
        _ => authority().root.der(),
    };
    let n = k.cbor().len() + key.len();
    let what = || format!("a certificate of {}, at {now} ± {off}, under a key of {}", show(&k.cbor()), show(&key));
    c.sample(what);
    let real = k.real();
    if let Some(v) = probe(c, "Certificate::verify", n, &what, || real.verify(&id, &key, &now, &off).map_err(|e| format!("{e}{e:?}").len())) {
        c.obs(if v.is_ok() { "certificates_accepted" } else { "certificates_refused" });
        c.nontrivial(&k.cbor());
    }
}

/// An exchange altered by somebody who does not care about plausibility.
pub fn hostile_exchange(r: &mut Rng, max: usize) -> Option<Served> {
    let w = gen_world(r);
    let o = gen_world(r);
    let path = interesting_path(r, &w);
    let greedy = r.bool();
    let mut s = serve(r, &w, &path, greedy)?;
    for _ in 0..r.range(1, 3) {
        match r.below(16) {
            0 => tamper(r, &mut s, &w, &o),
            1 => {
                let h = s.header();
                s.raw = Some(odd_text(r, &h, max));
            }
            2 => {
                // one field replaced by something well-wrapped but hostile
                let f = *r.pick(&["certificate", "tree", "expr_path"]);
                let b = b64(&hostile_cbor(r, max));
                let ver = *r.pick(&["1", "2", "2", "0", "3", "255", "256", "-1", "1.5", ""]);
                let mut fields = vec![format!("version={ver}")];
                for (n, v) in [("certificate", b64(&s.cert.cbor())), ("tree", b64(&tree_cbor(&s.tree, true))), ("expr_path", b64(&strings_cbor(&s.expr)))] {
                    fields.push(format!("{n}=:{}:", if n == f { b.clone() } else { v }));
                }
                r.shuffle(&mut fields);
                s.raw = Some(fields.join(", "));
            }
            3 => {
                for h in s.resp.headers.iter_mut().filter(|h| h.0.eq_ignore_ascii_case(EXPR_HEADER)) {
                    h.1 = odd_text(r, &h.1.clone(), max);
                }
            }
            4 => s.req.url = odd_text(r, &s.req.url.clone(), max),
            5 => s.req.url = format!("{}?{}", s.req.url, long(r, max)),
            6 => {
                let k = r.below(max / 10 + 1);
                let seg = *r.pick(&["/a", "/", "/%41", "/<*>", "/b"]);
                s.req.url = format!("{}{}", s.req.url, seg.repeat(k));
            }
            7 => {
                s.cert = odd_cert(r, &w.id, &w.full.digest());
            }
            8 => {
                let n = r.below(40);
                s.tree = match r.below(4) {
                    0 => some_tree(r, n),
                    1 => T::Empty,
                    2 => T::Pruned([9; 32]),
                    _ => fork(s.tree.clone(), some_tree(r, n)),
                };
                let data = s.tree.digest();
                if r.bool() {
                    let (id, t) = (s.canister.clone(), w.time);
                    s.cert = honest(r, &id, &data, t, false, 0);
                }
            }
            9 => {
                let k = r.below(max / 8 + 1);
                let seg = *r.pick(&["a", "", "<*>", "<$>", "http_expr", "é"]);
                s.expr = match r.below(3) {
                    0 => vec![seg.to_string(); k],
                    1 => {
                        let mut v = vec!["http_expr".to_string()];
                        v.extend(vec![seg.to_string(); k]);
                        v.push("<*>".into());
                        v
                    }
                    _ => {
                        let mut v = s.expr.clone();
                        let i = r.below(v.len() + 1);
                        v.insert(i, long(r, max));
                        v
                    }
                };
            }
            10 => {
                let k = r.below(max / 20 + 1);
                for i in 0..k {
                    let v = if r.chance(1, 20) { long(r, 200) } else { "v".into() };
                    s.resp.headers.push((if r.bool() { format!("x-{i}") } else { "x-same".into() }, v));
                }
            }
            11 => {
                let k = r.below(max / 20 + 1);
                for i in 0..k {
                    s.req.headers.push((if r.bool() { format!("x-{i}") } else { "accept".into() }, "v".into()));
                }
            }
            12 => {
                let n = size(r, max);
                s.resp.body = r.bytes(n);
                if r.bool() {
                    s.resp.headers.push(("content-encoding".into(), r.pick(&["gzip", "deflate", "br", "identity", "", "GZIP", "gzip, deflate"]).to_string()));
                }
            }
            13 => {
                s.now = *r.pick(&[0, 1, u64::MAX as u128, u128::MAX]);
                s.offset = *r.pick(&[0, 1, u64::MAX as u128, u128::MAX]);
            }
            14 => {
                let n = *r.pick(&[0usize, 1, 37, 133, 134]);
                s.root_der = r.bytes(n);
            }
            _ => {
                // the version-1 path
                s.version = r.pick(&[None, Some("1".to_string())]).clone();
                s.min_version = 1;
                let id = s.canister.clone();
                let assets = lab("http_assets", lab(s.req.url.clone(), leaf(sha(&[&s.resp.body]))));
                s.cert = honest(r, &id, &assets.digest(), w.time, false, 0);
                s.tree = assets;
                if r.bool() {
                    s.resp.headers.push(("content-encoding".into(), r.pick(&["gzip", "deflate", "br"]).to_string()));
                    let k = r.below(200);
                    let mut z = crate::props::http2::gz(&vec![b'a'; k], 6);
                    if r.bool() {
                        let o = r.bytes(8);
                        mutate_bytes(r, &mut z, &o);
                    }
                    s.resp.body = z;
                }
            }
        }
    }
    Some(s)
}
fn c10_exchanges(c: &mut Case) {
    let mut r = c.rng.clone();
    let max = if r.chance(1, 10) { 60_000 } else { 3_000 };
    let Some(s) = hostile_exchange(&mut r, max) else { return };
    let resp = s.response();
    let n = s.req.url.len() + s.req.body.len() + resp.body.len() + s.req.headers.iter().chain(&resp.headers).map(|h| h.0.len() + h.1.len() + 48).sum::<usize>() + s.root_der.len();
    let what = || cut(&describe(&s));
    c.sample(|| cut(&describe(&s)));
    let (q, p) = (real_request(&s.req), real_response(&resp));
    let v = probe(c, "verify_request_response_pair", n, &what, || {
        ic_response_verification::verify_request_response_pair(q, p, &s.canister, s.now, s.offset, &s.root_der, s.min_version).map_err(|e| format!("{e}{e:?}").len())
    });
    if let Some(v) = v {
        c.obs(if v.is_ok() { "exchanges_accepted" } else { "exchanges_refused" });
        c.nontrivial(format!("{}{}{}", s.req.url, resp.headers.len(), cut(&s.header())).as_bytes());
    }
}

/// A certificate expression from somebody who wants the reader to fail: nested, wide, unclosed.
fn hostile_expression(r: &mut Rng, like: &str, max: usize) -> String {
    match r.below(5) {
        0 => odd_text(r, like, max),
        1 => {
            // many of the same
            let (a, unit, z) = *r.pick(&[
                ("default_certification(ValidationArgs{certification:Certification{no_request_certification:Empty{},response_certification:ResponseCertification{certified_response_headers:ResponseHeaderList{headers:[", "\"x\",", "\"y\"]}}}})"),
                ("default_certification(", "ValidationArgs{no_certification:Empty{}},", "ValidationArgs{no_certification:Empty{}})"),
                ("default_certification(ValidationArgs{", "no_certification:Empty{},", "no_certification:Empty{}})"),
                ("f{", "a:[],", "b:[]}"),
                ("[", "[],", "[]]"),
                ("", " ", ""),
                ("default_certification(ValidationArgs{no_certification:Empty{}})", ")", ""),
            ]);
            let k = size(r, max / unit.len());
            format!("{a}{}{z}", unit.repeat(k))
        }
        _ => {
            // nested, of one construct or of several in turn, closed or not
            const OPEN: &[(&str, &str)] = &[("a(", ")"), ("f{a:", "}"), ("[", "]"), ("[ ", " ]"), ("_{\n_ :", "}"), ("{:", "}"), ("(", ")"), ("ValidationArgs{certification:", "}"), ("f{b:[],a:", "}"), ("f{a:", ",b:[]}"), ("[\"x\",", "]"), ("a(a(),", ")")];
            let n = r.range(1, 3);
            let cycle: Vec<(&str, &str)> = (0..n).map(|_| *r.pick(OPEN)).collect();
            let k = size(r, max / 4);
            let mut s: String = (0..k).map(|i| cycle[i % n].0).collect();
            s.push_str(*r.pick(&["\"x\"", "", "a()", "Empty{}", "\"", "~"]));
            let closed = *r.pick(&[0, k / 2, k, k, k + 1]);
            for i in 0..closed {
                s.push_str(cycle[(k.saturating_sub(i + 1)) % n].1);
            }
            if r.bool() {
                let at: Vec<usize> = like.char_indices().filter(|x| "{:(,[".contains(x.1)).map(|x| x.0 + 1).collect();
                if !at.is_empty() {
                    let p = *r.pick(&at);
                    s = format!("{}{s}{}", &like[..p], &like[p..]);
                }
            }
            s
        }
    }
}
fn c10_expressions(c: &mut Case) {
    let mut r = c.rng.clone();
    let w = gen_world(&mut r);
    let path = interesting_path(&mut r, &w);
    let Some(mut s) = serve(&mut r, &w, &path, false) else { return };
    s.version = Some("2".into());
    let Some(at) = s.resp.headers.iter().position(|h| h.0.eq_ignore_ascii_case(EXPR_HEADER)) else { return };
    for _ in 0..20 {
        let max = if r.chance(1, 8) { 60_000 } else { 3_000 };
        let like = gen_cel(&mut r).text();
        let text = hostile_expression(&mut r, &like, max);
        s.resp.headers[at].1 = text.clone();
        let resp = s.response();
        let n = s.req.url.len() + s.req.body.len() + resp.body.len() + s.req.headers.iter().chain(&resp.headers).map(|h| h.0.len() + h.1.len() + 48).sum::<usize>() + s.root_der.len();
        let (q, p) = (real_request(&s.req), real_response(&resp));
        let v = probe(c, "read an expression", n, &|| format!("the certificate expression {}", cut(&text)), || {
            ic_response_verification::verify_request_response_pair(q, p, &s.canister, s.now, s.offset, &s.root_der, s.min_version).map_err(|e| format!("{e}{e:?}").len())
        });
        if let Some(v) = v {
            c.obs(if v.is_ok() { "expressions_accepted" } else { "expressions_refused" });
            c.nontrivial(text.as_bytes());
        }
    }
}

// ---------------------------------------------------------------- hostile requests, served

fn hostile_url(r: &mut Rng, max: usize) -> String {
    let base = gen_path(r);
    let base = gen_url(r, &base, None);
    match r.below(8) {
        0 => odd_text(r, &base, max),
        1 => {
            let k = r.below(max / 2 + 1);
            let seg = *r.pick(&["/a", "/", "/b/", "/%41", "/.."]);
            seg.repeat(k)
        }
        2 => r.pick(&["", "/", "?", "#", "http://", "https://", "//", "://", "*", "http://[::1", "http://[", "a:b@c", "/%", "/%f", "/%ff", "/%00", "http:///x", "HTTP://x/y", "/\u{7f}", "/\r\nx", "ftp://x/y?z", "https://x", "https://x?y", "\\", "http://user:pw@host:99999/x"]).to_string(),
        3 => format!("{base}?{}", long(r, max)),
        4 => format!("{base}#{}", long(r, max)),
        5 => format!("https://{}{base}", long(r, max.min(3_000))),
        _ => base,
    }
}
fn c10_serving(c: &mut Case) {
    let mut r = c.rng.clone();
    thread_local! {
        static ROUTER: (AssetRouter<'static>, HttpCertificationTree, Vec<Entry>) = {
            let mut router = AssetRouter::new();
            let f = |p: &str, n: usize| Asset::new(p.to_string(), vec![b'x'; n]);
            let file = |p: &str, scopes: &[&str], aliases: &[&str]| AssetConfig::File {
                path: p.into(),
                content_type: None,
                headers: vec![],
                fallback_for: scopes.iter().map(|s| AssetFallbackConfig { scope: s.to_string(), status_code: None }).collect(),
                aliased_by: aliases.iter().map(|s| s.to_string()).collect(),
                encodings: vec![AssetEncoding::Brotli.default_config(), AssetEncoding::Gzip.default_config()],
            };
            router.certify_assets(
                vec![f("index.html", 9), f("index.html.br", 5), f("a/b", 3), f("a", 1), f("big", 2 * ASSET_CHUNK_SIZE + 7), f("big.gz", ASSET_CHUNK_SIZE + 1)],
                vec![file("index.html", &["/"], &["/"]), file("a/b", &["/a/"], &[]), file("a", &["/a/a/a"], &[]), file("big", &[], &["/large"]), AssetConfig::Redirect { from: "/old".into(), to: "/".into(), kind: AssetRedirectKind::Permanent }],
            ).unwrap();
            let mut rr = Rng::new(99);
            let mut tree = HttpCertificationTree::default();
            let mut es = vec![];
            for p in ["/", "/a", "/a/b", ""] {
                for pat in [Pat::Exact(p.into()), Pat::Wild(p.into())] {
                    let cel = Cel::RespOnly(RespRule::Exclude(vec![]));
                    let text = cel.text();
                    let mut e = Entry { req: gen_req(&mut rr, p), resp: gen_resp(&mut rr, &text), pat, cel, text };
                    library_spelling(&mut e);
                    if let Ok(x) = real_entry(&e) {
                        tree.insert(&x);
                        es.push(e);
                    }
                }
            }
            (router, tree, es)
        };
    }
    let max = if r.chance(1, 10) { 40_000 } else { 2_000 };
    let url = hostile_url(&mut r, max);
    let mut headers = gen_headers(&mut r, 3);
    if r.bool() {
        let like = *r.pick(&["br, gzip;q=0.5", "*", "gzip"]);
        headers.push(("Accept-Encoding".into(), odd_text(&mut r, like, max)));
    }
    if r.bool() {
        let like = r.pick(&["bytes=0-", "bytes=2000000-", "bytes=18446744073709551615-", "bytes=0-18446744073709551616", "bytes=4000007-", "bytes=2000000-2000000"]).to_string();
        headers.push(("range".into(), if r.bool() { like } else { odd_text(&mut r, &like, max) }));
    }
    let body = r.bytes(3);
    let req = HttpRequest::builder().with_method(Method::GET).with_url(url.clone()).with_headers(headers.clone()).with_body(body).build();
    let n = url.len() + headers.iter().map(|h| h.0.len() + h.1.len()).sum::<usize>();
    let what = || format!("GET {} {}", cut(&url), cut(&format!("{headers:?}")));
    c.sample(|| what());
    let p = probe(c, "get_path", n, &what, || req.get_path().map_err(|e| format!("{e}{e:?}").len()));
    probe(c, "get_query", n, &what, || req.get_query().map_err(|e| format!("{e}{e:?}").len()));
    ROUTER.with(|(router, tree, es)| {
        // a response may be as large as an asset
        let s = probe(c, "serve_asset", n + 4 * ASSET_CHUNK_SIZE / 300, &what, || router.serve_asset(b"certificate", &req).map(|x| x.status_code().as_u16()).map_err(|e| format!("{e}{e:?}").len()));
        match s {
            Some(Ok(x)) => c.obs(if x == 206 { "chunk_served" } else { "asset_served" }),
            Some(Err(_)) => c.obs("asset_refused"),
            None => {}
        }
        if let Some(Ok(path)) = p {
            c.nontrivial(path.as_bytes());
            let e = r.pick(es);
            let Ok(x) = real_entry(e) else { return };
            if let Some(Ok(w)) = probe(c, "witness", n + 1000, &what, || tree.witness(&x, &path)) {
                c.obs("witnesses");
                let exprs = e.pat.expr_path();
                probe(c, "add_v2_certificate_header", n + 4000, &what, || {
                    let mut resp = real_response(&e.resp);
                    ic_http_certification::utils::add_v2_certificate_header(b"certificate", &mut resp, &w, &exprs);
                    resp.headers().len()
                });
            }
            if max <= 2_000 {
                let segs = segments(&path);
                let wild = e.pat.segs();
                probe(c, "wildcard functions", n * 200 + n * n, &what, || (is_wildcard_path_valid_for_request_path(&wild, &segs), more_specific_wildcards_for(&segs, &wild).len()));
            }
        }
    });
}

fn c10_candid(c: &mut Case) {
    let mut r = c.rng.clone();
    let q = gen_req(&mut r, "/a/b");
    let cel = gen_cel(&mut r);
    let text = gen_text(&mut r, &cel);
    let p = gen_resp(&mut r, &text);
    let mut b = if r.bool() { Encode!(&real_request(&q)).unwrap() } else { Encode!(&real_response(&p)).unwrap() };
    let o = Encode!(&real_request(&q), &real_response(&p)).unwrap();
    if !r.chance(1, 20) {
        for _ in 0..r.range(1, 3) {
            mutate_bytes(&mut r, &mut b, &o);
        }
    }
    let n = b.len() + 2_000;
    let what = || show(&b);
    c.sample(|| show(&b));
    // candid's own bound on what a message may make it build is by decoding cost, not by length: only panics are judged
    let one = |c: &mut Case, op: &str, ok: Option<bool>| {
        if let Some(ok) = ok {
            c.eval();
            c.obs(if ok { "candid_decoded" } else { "candid_refused" });
            let _ = op;
        }
    };
    let x = c.guard("decode request", || Decode!(&b, HttpRequest).map(|q| (q.get_path().is_ok(), q.get_query().is_ok(), format!("{q:?}").len())).is_ok());
    one(c, "request", x);
    let x = c.guard("decode response", || Decode!(&b, HttpResponse).map(|q| format!("{q:?}").len()).is_ok());
    one(c, "response", x);
    let _ = (n, what);
    c.nontrivial(&b);
}

pub const C10: Property = Property {
    id: "C10",
    rule: "one hostile input given to one decoding, verifying or serving operation, watched for panics, crashes, CPU time and memory; distinct by the input's bytes",
    assumptions: &[
        "bounds: peak memory 1 MiB + 600 per input byte, single allocation 1 MiB + 300 per byte, CPU time 4 s + 30 us per byte (the largest inputs are hundreds of kilobytes, so anything quadratic is far beyond)",
        "canister ids are principals (at most 29 bytes)",
        "for candid messages only panics and crashes are judged, their decoding cost is bounded by the candid library",
    ],
    must_observe: &["operations", "large_inputs", "refused_by_all_decoders", "decoded", "trees_used", "certificates_accepted", "certificates_refused", "exchanges_accepted", "exchanges_refused", "expressions_refused", "asset_served", "asset_refused", "witnesses", "candid_decoded", "candid_refused"],
    workloads: &[
        Workload { name: "decoders", f: c10_decoders, quick: 50_000, thorough: 1_500_000 },
        Workload { name: "certificates", f: c10_certificates, quick: 6_000, thorough: 100_000 },
        Workload { name: "exchanges", f: c10_exchanges, quick: 12_000, thorough: 200_000 },
        Workload { name: "expressions", f: c10_expressions, quick: 3_000, thorough: 100_000 },
        Workload { name: "serving", f: c10_serving, quick: 15_000, thorough: 300_000 },
        Workload { name: "candid", f: c10_candid, quick: 6_000, thorough: 300_000 },
    ],
};
