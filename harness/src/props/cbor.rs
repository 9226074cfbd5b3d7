//! C09 CBOR codec agreement.
use crate::case::Case;
use crate::cert::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::spec::*;
use crate::{Property, Workload};
use ic_cbor::{parse_cbor, parse_cbor_principals_array, parse_cbor_string_array, CborHashTree, CborNegativeInt, CborUnsignedInt, CborValue, CertificateToCbor, HashTreeToCbor};
use ic_certification::{Certificate, HashTree};
use std::collections::BTreeMap;

pub const C09: Property = Property {
    id: "C09",
    rule: "a distinct encoding (genuine, non-canonical or corrupted) decoded by the library's decoders and judged by an independent strict decoder",
    assumptions: &[
        "unsigned integers 0..4 stand for hash-tree node kinds in the light decoder (documented there), so generated scalars avoid them",
        "floats and simple values are outside the decoder's documented scope, encodings that contain them are not judged for acceptance",
    ],
    must_observe: &["tree_round_trip", "certificate_round_trip", "delegation_round_trip", "value_decoded", "negative_decoded", "truncation_rejected", "extension_rejected", "corrupted_accepted", "corrupted_rejected", "string_array", "principal_ranges", "noncanonical_head", "surplus_parts_rejected", "label_round_trip"],
    workloads: &[
        Workload { name: "tree_codec", f: tree_codec, quick: 150_000, thorough: 1_500_000 },
        Workload { name: "certificate_codec", f: cert_codec, quick: 80_000, thorough: 800_000 },
        Workload { name: "values", f: values, quick: 250_000, thorough: 3_000_000 },
        Workload { name: "lists", f: lists, quick: 120_000, thorough: 1_200_000 },
    ],
};

// ---- an independent strict decoder for the definite-length subset

#[derive(Clone, Debug, PartialEq)]
pub enum CV {
    U(u64),
    N(i128),
    B(Vec<u8>),
    A(Vec<CV>),
    O(BTreeMap<Vec<u8>, CV>),
}
struct Dec<'a> {
    b: &'a [u8],
    i: usize,
    /// contains something the light decoder documents as unsupported
    odd: bool,
    depth: usize,
}
impl<'a> Dec<'a> {
    fn byte(&mut self) -> Option<u8> {
        let x = *self.b.get(self.i)?;
        self.i += 1;
        Some(x)
    }
    fn head(&mut self) -> Option<(u8, u64)> {
        let x = self.byte()?;
        let n = match x & 31 {
            k @ 0..=23 => k as u64,
            k @ 24..=27 => {
                let mut v = 0u64;
                for _ in 0..1 << (k - 24) {
                    v = v << 8 | self.byte()? as u64;
                }
                v
            }
            _ => return None,
        };
        Some((x >> 5, n))
    }
    fn item(&mut self) -> Option<CV> {
        self.depth += 1;
        if self.depth > 100 {
            self.odd = true;
            return None;
        }
        let r = self.item_();
        self.depth -= 1;
        r
    }
    fn item_(&mut self) -> Option<CV> {
        let (m, n) = self.head()?;
        match m {
            0 => Some(CV::U(n)),
            1 => Some(CV::N(-1 - n as i128)),
            2 | 3 => {
                let n = usize::try_from(n).ok()?;
                let s = self.b.get(self.i..self.i.checked_add(n)?)?;
                self.i += n;
                Some(CV::B(s.to_vec()))
            }
            4 => {
                let mut v = vec![];
                for _ in 0..n {
                    v.push(self.item()?);
                }
                Some(CV::A(v))
            }
            5 => {
                let mut o = BTreeMap::new();
                for _ in 0..n {
                    let k = match self.item()? {
                        CV::B(k) => k,
                        _ => return None,
                    };
                    std::str::from_utf8(&k).ok()?;
                    let v = self.item()?;
                    if o.insert(k, v).is_some() {
                        self.odd = true;
                    }
                }
                Some(CV::O(o))
            }
            6 => self.item(),
            _ => {
                self.odd = true;
                None
            }
        }
    }
}
/// (value if the bytes are exactly one supported item, whether they hold something not judged)
pub fn strict(b: &[u8]) -> (Option<CV>, bool) {
    let mut d = Dec { b, i: 0, odd: false, depth: 0 };
    let v = d.item();
    let v = if d.i == b.len() { v } else { None };
    (v, d.odd)
}
/// does a light-decoder value mean the same as the strict one?
fn same(real: &CborValue, want: &CV) -> bool {
    match (real, want) {
        (CborValue::HashTree(h), CV::U(n)) => {
            let k = match h {
                CborHashTree::Empty => 0,
                CborHashTree::Fork => 1,
                CborHashTree::Labelled => 2,
                CborHashTree::Leaf => 3,
                CborHashTree::Pruned => 4,
            };
            k == *n
        }
        (CborValue::Unsigned(u), CV::U(n)) => {
            let v = match u {
                CborUnsignedInt::UInt8(x) => *x as u64,
                CborUnsignedInt::UInt16(x) => *x as u64,
                CborUnsignedInt::UInt32(x) => *x as u64,
                CborUnsignedInt::UInt64(x) => *x,
            };
            v == *n
        }
        (CborValue::Signed(s), CV::N(n)) => {
            let v = match s {
                CborNegativeInt::Int8(x) => *x as i128,
                CborNegativeInt::Int16(x) => *x as i128,
                CborNegativeInt::Int32(x) => *x as i128,
                CborNegativeInt::Int64(x) => *x as i128,
            };
            v == *n
        }
        (CborValue::ByteString(a), CV::B(b)) => a == b,
        (CborValue::Array(a), CV::A(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)),
        (CborValue::Map(a), CV::O(b)) => a.len() == b.len() && b.iter().all(|(k, v)| std::str::from_utf8(k).ok().and_then(|k| a.get(k)).map(|x| same(x, v)).unwrap_or(false)),
        _ => false,
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn gen_value(r: &mut Rng, depth: usize, o: &mut Vec<u8>, st: &mut (bool, bool)) {
    let head = |r: &mut Rng, m: u8, n: u64, o: &mut Vec<u8>, st: &mut (bool, bool)| {
        // sometimes a longer head than needed
        if r.chance(1, 5) {
            st.1 = true;
            let k = r.range(0, 3);
            let (code, w) = [(24u8, 1usize), (25, 2), (26, 4), (27, 8)][k];
            if w == 8 || n >> (8 * w) == 0 {
                o.push(m << 5 | code);
                o.extend_from_slice(&n.to_be_bytes()[8 - w..]);
                return;
            }
        }
        cbor_head(m, n, o);
    };
    match r.below(if depth == 0 { 5 } else { 8 }) {
        0 => {
            let n = int(r).max(5);
            head(r, 0, n, o, st)
        }
        1 => {
            st.0 = true;
            let n = int(r);
            head(r, 1, n, o, st)
        }
        2 => {
            let k = r.below(30);
            let v = r.bytes(k);
            head(r, 2, k as u64, o, st);
            o.extend(v);
        }
        3 => {
            let k = r.below(10);
            let v: String = (0..k).map(|_| *r.pick(&['a', 'é', '0', '\u{1f600}'])).collect();
            head(r, 3, v.len() as u64, o, st);
            o.extend(v.bytes());
        }
        4 => {
            // a tag is transparent
            cbor_head(6, *r.pick(&[0u64, 24, 55799, 1 << 40]), o);
            gen_value(r, depth, o, st)
        }
        5 | 6 => {
            let k = r.below(5) as u64;
            head(r, 4, k, o, st);
            for _ in 0..k {
                gen_value(r, depth - 1, o, st);
            }
        }
        _ => {
            let k = r.below(4) as u64;
            head(r, 5, k, o, st);
            for i in 0..k {
                let key = format!("{}{}", r.pick(&["k", "tree", "signature"]), i);
                if r.bool() {
                    cbor_text(&key, o);
                } else {
                    cbor_bytes(key.as_bytes(), o);
                }
                gen_value(r, depth - 1, o, st);
            }
        }
    }
}
fn int(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => r.below(24) as u64,
        1 => r.range(120, 260) as u64,
        2 => r.range(0x7ff0, 0x10010) as u64,
        3 => r.range(0x7fff_fff0, 0x1_0000_0010) as u64,
        4 => u64::MAX - r.below(3) as u64,
        5 => i64::MAX as u64 + r.below(3) as u64,
        6 => i64::MAX as u64 - r.below(3) as u64,
        _ => r.u64() >> r.below(60),
    }
}

fn values(c: &mut Case) {
    let mut o = vec![];
    let mut st = (false, false);
    gen_value(&mut c.rng, 3, &mut o, &mut st);
    judge(c, &o, true);
    if st.0 {
        c.obs("negative_decoded");
    }
    if st.1 {
        c.obs("noncanonical_head");
    }
    let other = o.clone();
    for _ in 0..3 {
        let mut b = o.clone();
        mutate_bytes(&mut c.rng, &mut b, &other);
        judge(c, &b, false);
    }
    // every proper prefix and every extension is rejected
    let cut = c.rng.below(o.len());
    if let Some(r) = c.guard("parse_cbor", || parse_cbor(&o[..cut]).is_ok()) {
        c.check(!r, "cbor:truncated_accepted", || format!("prefix of {cut} bytes of {} is accepted", hex(&o)));
        c.obs("truncation_rejected");
    }
    let mut e = o.clone();
    e.push(c.rng.u8());
    if let Some(r) = c.guard("parse_cbor", || parse_cbor(&e).is_ok()) {
        c.check(!r, "cbor:extended_accepted", || format!("{} with a trailing byte is accepted", hex(&o)));
        c.obs("extension_rejected");
    }
    c.sample(|| hex(&o));
}

fn judge(c: &mut Case, b: &[u8], genuine: bool) {
    let (want, odd) = strict(b);
    let Some(got) = c.guard("parse_cbor", || parse_cbor(b).ok()) else { return };
    c.nontrivial(b);
    match (&got, &want) {
        (Some(g), Some(w)) => {
            c.obs(if genuine { "value_decoded" } else { "corrupted_accepted" });
            c.check(same(g, w), "cbor:value", || format!("{} decodes to {g:?}, RFC 8949 gives {w:?}", hex(b)));
        }
        (None, Some(w)) => {
            // values no result type can hold may be refused, everything else must decode
            if !has_big_negative(w) {
                c.eval();
                c.viol("cbor:refused", format!("{} is refused, RFC 8949 gives {w:?}", hex(b)));
            }
        }
        (Some(g), None) => {
            if !odd {
                c.eval();
                c.viol("cbor:malformed_accepted", format!("{} is not a well-formed item but decodes to {g:?}", hex(b)));
            }
        }
        (None, None) => {
            c.eval();
            c.obs("corrupted_rejected");
        }
    }
}
fn has_big_negative(v: &CV) -> bool {
    match v {
        CV::N(n) => *n < i64::MIN as i128,
        CV::A(x) => x.iter().any(has_big_negative),
        CV::O(x) => x.values().any(has_big_negative),
        _ => false,
    }
}

fn gen_tree(r: &mut Rng) -> T {
    let m = map(r, 3, 4);
    let t = tree_of(r, &m, 10);
    prune(r, &t, 100)
}

/// Decodes with both decoders; both or neither result is compared with `want`.
fn both_trees(c: &mut Case, b: &[u8]) -> (Option<T>, Option<T>) {
    let a = c.guard("HashTree::from_cbor", || HashTree::from_cbor(b).ok().map(|t| from_real(&t))).flatten();
    let s = c.guard("serde HashTree", || serde_cbor::from_slice::<HashTree>(b).ok().map(|t| from_real(&t))).flatten();
    (a, s)
}

fn tree_codec(c: &mut Case) {
    let t = gen_tree(&mut c.rng);
    let real = to_real(&t);
    let Some(enc) = c.guard("serialize tree", || serde_cbor::to_vec(&real).unwrap()) else { return };
    c.check(enc == tree_cbor(&t, false), "cbor:tree_encoding", || format!("encoding of {t:?} is {}", hex(&enc)));
    let sd = c.rng.bool();
    let b = tree_cbor(&t, sd);
    let (a, s) = both_trees(c, &b);
    c.obs("tree_round_trip");
    c.check(a.as_ref() == Some(&t), "cbor:tree_light", || format!("light decoder reads {a:?} from the encoding of {t:?}"));
    c.check(s.as_ref() == Some(&t), "cbor:tree_serde", || format!("serde decoder reads {s:?} from the encoding of {t:?}"));
    c.nontrivial(&b);
    // a label on its own: bytes, or their hexadecimal digits where text is wanted
    let n = some_len(&mut c.rng, &[0, 1, 4, 32]);
    let text = c.rng.bytes(n);
    let lb = ic_certification::hash_tree::Label::from(text.clone());
    let got = c.guard("serde Label", || {
        let b = serde_cbor::to_vec(&lb).unwrap();
        let back = serde_cbor::from_slice::<ic_certification::hash_tree::Label<Vec<u8>>>(&b).ok().map(|x| x.as_bytes().to_vec());
        (b, back, serde_json::to_value(&lb).ok().and_then(|x| x.as_str().map(|x| x.to_lowercase())))
    });
    let Some((lb_bytes, back, json)) = got else { return };
    c.check(lb_bytes == bytes_cbor(&text) && back.as_ref() == Some(&text), "cbor:label", || format!("the label {} is encoded as {} and read back as {back:02x?}", hex(&text), hex(&lb_bytes)));
    c.check(json == Some(hex(&text)), "json:label", || format!("the label {} is written as {json:?}", hex(&text)));
    c.obs("label_round_trip");
    // truncations and extensions
    let cut = c.rng.below(b.len());
    let (x, y) = both_trees(c, &b[..cut]);
    c.check(x.is_none() && y.is_none(), "cbor:tree_truncated", || format!("{} cut to {cut} bytes is accepted ({x:?}, {y:?})", hex(&b)));
    c.obs("truncation_rejected");
    let mut e = b.clone();
    e.push(c.rng.u8());
    let (x, y) = both_trees(c, &e);
    c.check(x.is_none() && y.is_none(), "cbor:tree_extended", || format!("{} is accepted ({x:?}, {y:?})", hex(&e)));
    c.obs("extension_rejected");
    // corrupted: whenever both accept they agree, and the light decoder agrees with the strict reading
    let t2 = gen_tree(&mut c.rng);
    let other = tree_cbor(&t2, false);
    for _ in 0..3 {
        let mut m = b.clone();
        mutate_bytes(&mut c.rng, &mut m, &other);
        let (x, y) = both_trees(c, &m);
        c.nontrivial(&m);
        c.eval();
        match (&x, &y) {
            (Some(p), Some(q)) => {
                c.obs("corrupted_accepted");
                if p != q {
                    c.viol("cbor:decoders_disagree", format!("{}: light decoder {p:?}, serde decoder {q:?}", hex(&m)));
                }
            }
            (Some(p), None) => {
                c.obs("accepted_by_light_only");
                let (w, odd) = strict(&m);
                if !odd && !w.as_ref().map(|w| cv_tree(w).as_ref() == Some(p)).unwrap_or(false) {
                    c.viol("cbor:malformed_accepted", format!("{} decodes to {p:?} but is not an encoding of it", hex(&m)));
                }
            }
            (None, Some(q)) => {
                c.obs("accepted_by_serde_only");
                let (w, odd) = strict(&m);
                if !odd {
                    if let Some(w) = w.as_ref().and_then(cv_tree) {
                        if w != *q {
                            c.viol("cbor:decoders_disagree", format!("{}: serde decoder {q:?}, strict reading {w:?}", hex(&m)));
                        }
                    }
                }
            }
            (None, None) => c.obs("corrupted_rejected"),
        }
    }
    // wrong digest sizes and missing parts are refused by both
    let bad: Vec<u8> = match c.rng.below(6) {
        0 => {
            let n = *c.rng.pick(&[0usize, 1, 31, 33, 64]);
            let mut o = vec![0x82, 4];
            cbor_bytes(&c.rng.bytes(n), &mut o);
            o
        }
        1 => vec![0x81, 4],
        2 => vec![0x82, 1, 0x81, 0],
        3 => vec![0x82, 2, 0x41, b'a'],
        4 => vec![0x81, 3],
        _ => vec![0x81, c.rng.range(5, 23) as u8],
    };
    let (x, y) = both_trees(c, &bad);
    c.check(x.is_none() && y.is_none(), "cbor:bad_node_accepted", || format!("{} is accepted ({x:?}, {y:?})", hex(&bad)));
    // and so are nodes with one part more than they have
    let (l, m) = (tree_cbor(&gen_tree(&mut c.rng), false), tree_cbor(&t2, false));
    let mut more = match c.rng.below(5) {
        0 => vec![0x82, 0],
        1 => [&[0x84, 1][..], &l, &m].concat(),
        2 => [&[0x84, 2, 0x41, b'a'][..], &l].concat(),
        3 => vec![0x83, 3, 0x41, 7],
        _ => [&[0x83, 4, 0x58, 32][..], &c.rng.bytes(32)].concat(),
    };
    more.extend_from_slice(match c.rng.below(5) {
        0 => &[0],
        1 => &[0x40],
        2 => &[0x80],
        3 => &[0x81, 0],
        _ => &m,
    });
    if c.rng.bool() {
        more = match c.rng.below(3) {
            0 => [&[0x83, 1][..], &more, &[0x81, 0]].concat(),
            1 => [&[0x83, 1, 0x81, 0][..], &more].concat(),
            _ => [&[0x83, 2, 0x41, b'a'][..], &more].concat(),
        };
    }
    let bad = more;
    c.obs("surplus_parts_rejected");
    let (x, y) = both_trees(c, &bad);
    c.check(x.is_none() && y.is_none(), "cbor:surplus_accepted", || format!("{} is accepted ({x:?}, {y:?})", hex(&bad)));
    c.sample(|| hex(&b));
}
/// the tree a strictly decoded value encodes
fn cv_tree(v: &CV) -> Option<T> {
    let CV::A(xs) = v else { return None };
    match &xs[..] {
        [CV::U(0)] => Some(T::Empty),
        [CV::U(1), l, r] => Some(fork(cv_tree(l)?, cv_tree(r)?)),
        [CV::U(2), CV::B(b), t] => Some(lab(b.clone(), cv_tree(t)?)),
        [CV::U(3), CV::B(b)] => Some(leaf(b.clone())),
        [CV::U(4), CV::B(b)] => Some(T::Pruned(b.clone().try_into().ok()?)),
        _ => None,
    }
}

/// a length between nothing and beyond every length head
fn some_len(r: &mut Rng, usual: &[usize]) -> usize {
    match r.below(8) {
        0 => *r.pick(&[0usize, 1, 2, 22, 23, 24, 25, 255, 256, 257]),
        1 if r.chance(1, 20) => *r.pick(&[65_535usize, 65_536, 70_000]),
        _ => *r.pick(usual),
    }
}
/// the entries of a map, encoded, in the given order
fn map_cbor(entries: &[(&str, Vec<u8>)]) -> Vec<u8> {
    let mut o = vec![];
    cbor_head(5, entries.len() as u64, &mut o);
    for (k, v) in entries {
        cbor_text(k, &mut o);
        o.extend(v);
    }
    o
}
fn bytes_cbor(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    cbor_bytes(b, &mut o);
    o
}

fn cert_codec(c: &mut Case) {
    let deleg = c.rng.bool();
    let tree = gen_tree(&mut c.rng);
    let n = some_len(&mut c.rng, &[0, 48, 48, 5]);
    let (k, l) = (some_len(&mut c.rng, &[29, 29, 10]), some_len(&mut c.rng, &[3, 40, 60]));
    let cert = Cert {
        tree,
        signature: c.rng.bytes(n),
        delegation: if deleg { Some(Deleg { subnet_id: c.rng.bytes(k), certificate: c.rng.bytes(l) }) } else { None },
    };
    let real = cert.real();
    let b = cert.cbor();
    let Some(enc) = c.guard("serialize certificate", || serde_cbor::to_vec(&real).unwrap()) else { return };
    for (what, bytes) in [("serde encoding", &enc), ("reference encoding", &b)] {
        let a = c.guard("Certificate::from_cbor", || Certificate::from_cbor(bytes)).map(|x| x.ok());
        let Some(a) = a else { return };
        c.check(a.as_ref() == Some(&real), "cbor:certificate_light", || format!("light decoder reads {a:?} from the {what} of {real:?}"));
        let s = c.guard("serde Certificate", || serde_cbor::from_slice::<Certificate>(bytes)).map(|x| x.ok());
        let Some(s) = s else { return };
        c.check(s.as_ref() == Some(&real), "cbor:certificate_serde", || format!("serde decoder reads {s:?} from the {what} of {real:?}"));
    }
    // read in place, and read into whatever storage is needed
    let sl = c.guard("serde Certificate<&[u8]>", || {
        serde_cbor::from_slice::<ic_certification::certificate::Certificate<&[u8]>>(&b).ok().map(|x| (serde_cbor::to_vec(&x).unwrap(), x.tree.digest(), x.signature.to_vec(), x.delegation.map(|d| (d.subnet_id.to_vec(), d.certificate.to_vec()))))
    });
    let co = c.guard("serde Certificate<Cow>", || {
        serde_cbor::from_slice::<ic_certification::certificate::Certificate<std::borrow::Cow<[u8]>>>(&b).ok().map(|x| (serde_cbor::to_vec(&x).unwrap(), x.tree.digest(), x.signature.to_vec(), x.delegation.map(|d| (d.subnet_id.to_vec(), d.certificate.to_vec()))))
    });
    let want = Some((enc.clone(), cert.tree.digest(), cert.signature.clone(), cert.delegation.as_ref().map(|d| (d.subnet_id.clone(), d.certificate.clone()))));
    c.check(sl == Some(want.clone()) && co == Some(want), "cbor:certificate_storage", || format!("the borrowing decoders read {sl:?} and {co:?} from {}", hex(&b)));
    // the order of the entries has no meaning, their types have
    let mut inner = vec![];
    if let Some(d) = &cert.delegation {
        inner = vec![("subnet_id", bytes_cbor(&d.subnet_id)), ("certificate", bytes_cbor(&d.certificate))];
        c.rng.shuffle(&mut inner);
    }
    let mut outer = vec![("tree", tree_cbor(&cert.tree, false)), ("signature", bytes_cbor(&cert.signature))];
    if deleg {
        outer.push(("delegation", map_cbor(&inner)));
    }
    c.rng.shuffle(&mut outer);
    let perm = map_cbor(&outer);
    let a = c.guard("Certificate::from_cbor", || Certificate::from_cbor(&perm).ok()).flatten();
    let s = c.guard("serde Certificate", || serde_cbor::from_slice::<Certificate>(&perm).ok()).flatten();
    c.check(a.as_ref() == Some(&real) && s.as_ref() == Some(&real), "cbor:certificate_order", || format!("{} decodes to {a:?} and {s:?}, expected {real:?}", hex(&perm)));
    c.obs("entries_reordered");
    // (a text string where a byte string belongs is read as bytes by both decoders)
    let wrong: Vec<u8> = match c.rng.below(4) {
        0 => vec![0x00],
        1 => vec![0x81, 0x41, 1],
        2 => vec![0xa0],
        _ => vec![0x41, 1],
    };
    let mut bad = outer.clone();
    let i = c.rng.below(bad.len());
    if bad[i].0 == "delegation" && c.rng.bool() {
        let j = c.rng.below(2);
        if wrong[0] != 0x41 {
            inner[j].1 = wrong;
        } else {
            inner.remove(j);
        }
        bad[i].1 = map_cbor(&inner);
    } else if bad[i].0 == "signature" && wrong[0] == 0x41 {
        bad.remove(i);
    } else {
        bad[i].1 = wrong;
    }
    let bad = map_cbor(&bad);
    let a = c.guard("Certificate::from_cbor", || Certificate::from_cbor(&bad).ok()).flatten();
    let s = c.guard("serde Certificate", || serde_cbor::from_slice::<Certificate>(&bad).ok()).flatten();
    c.check(a.is_none() && s.is_none(), "cbor:certificate_types", || format!("{} has an entry missing or of the wrong type and decodes to {a:?} and {s:?}", hex(&bad)));
    c.obs("wrong_types_rejected");
    // an entry under another name is not the entry
    let misname = |r: &mut Rng, n: &str| match r.below(5) {
        0 => n[..r.range(1, n.len() - 1)].to_string(),
        1 => n.to_uppercase(),
        2 => format!("{n}{}", r.pick(&[" ", "s", "\0", "_"])),
        3 => format!(" {n}"),
        _ => format!("{}{}", n[..1].to_uppercase(), &n[1..]),
    };
    let mut other = outer.clone();
    let name: String;
    if deleg && c.rng.bool() {
        let mut d = cert.delegation.as_ref().map(|d| vec![("subnet_id", bytes_cbor(&d.subnet_id)), ("certificate", bytes_cbor(&d.certificate))]).unwrap();
        let j = c.rng.below(2);
        name = misname(&mut c.rng, d[j].0);
        d[j].0 = &name;
        other.iter_mut().find(|x| x.0 == "delegation").unwrap().1 = map_cbor(&d);
    } else {
        let w = *c.rng.pick(&["tree", "signature"]);
        name = misname(&mut c.rng, w);
        other.iter_mut().find(|x| x.0 == w).unwrap().0 = &name;
    }
    let other = map_cbor(&other);
    let a = c.guard("Certificate::from_cbor", || Certificate::from_cbor(&other).ok()).flatten();
    let s = c.guard("serde Certificate", || serde_cbor::from_slice::<Certificate>(&other).ok()).flatten();
    c.check(a.is_none() && s.is_none(), "cbor:certificate_names", || format!("{} has {name:?} in place of an entry and decodes to {a:?} and {s:?}", hex(&other)));
    c.obs("misnamed_rejected");
    c.obs(if deleg { "delegation_round_trip" } else { "certificate_round_trip" });
    c.nontrivial(&b);
    // a cut certificate is not a certificate
    let cut = c.rng.below(b.len());
    let r = c.guard("Certificate::from_cbor", || Certificate::from_cbor(&b[..cut]).is_ok()).unwrap_or(false);
    c.check(!r, "cbor:certificate_truncated", || format!("{} cut to {cut} of {} bytes is accepted as a certificate", hex(&b), b.len()));
    c.obs("truncation_rejected");
    if deleg {
        // cut exactly before the delegation entry
        let mut plain = cert.clone();
        plain.delegation = None;
        let mut short = plain.cbor();
        short[3] = 0xa3;
        let r = c.guard("Certificate::from_cbor", || Certificate::from_cbor(&short).is_ok()).unwrap_or(false);
        c.check(!r, "cbor:certificate_truncated", || format!("{} announces three fields but has two and is accepted", hex(&short)));
    }
    let mut m = b.clone();
    mutate_bytes(&mut c.rng, &mut m, &enc);
    let a = c.guard("Certificate::from_cbor", || Certificate::from_cbor(&m).ok()).flatten();
    let s = c.guard("serde Certificate", || serde_cbor::from_slice::<Certificate>(&m).ok()).flatten();
    if let (Some(a), Some(s)) = (&a, &s) {
        c.obs("corrupted_accepted");
        c.check(a == s, "cbor:decoders_disagree", || format!("{}: light decoder {a:?}, serde decoder {s:?}", hex(&m)));
    } else {
        c.obs("corrupted_rejected");
    }
    if let Some(a) = &a {
        let (w, odd) = strict(&m);
        if !odd {
            let ok = match &w {
                Some(CV::O(o)) => {
                    let sig = matches!(o.get(&b"signature"[..]), Some(CV::B(x)) if *x == a.signature);
                    let tree = o.get(&b"tree"[..]).and_then(cv_tree) == Some(from_real(&a.tree));
                    let del = match (o.get(&b"delegation"[..]), &a.delegation) {
                        (Some(CV::O(d)), Some(x)) => matches!(d.get(&b"subnet_id"[..]), Some(CV::B(y)) if *y == x.subnet_id) && matches!(d.get(&b"certificate"[..]), Some(CV::B(y)) if *y == x.certificate),
                        (None, None) => true,
                        _ => false,
                    };
                    sig && tree && del
                }
                _ => false,
            };
            c.check(ok, "cbor:malformed_accepted", || format!("{} decodes to {a:?}, strict reading {w:?}", hex(&m)));
        }
    }
    c.sample(|| hex(&b));
}

fn lists(c: &mut Case) {
    // text arrays
    let n = *c.rng.pick(&[0usize, 1, 3, 23, 24, 30]);
    let xs: Vec<String> = (0..n)
        .map(|_| {
            let k = *c.rng.pick(&[0usize, 1, 5, 23, 24, 300]);
            (0..k).map(|_| *c.rng.pick(&['a', '/', 'é', '<', '\u{1f600}'])).collect()
        })
        .collect();
    let b = strings_cbor(&xs);
    let got = c.guard("parse_cbor_string_array", || parse_cbor_string_array(&b).ok()).flatten();
    c.check(got.as_ref() == Some(&xs), "cbor:string_array", || format!("{xs:?} decodes to {got:?}"));
    c.obs("string_array");
    c.nontrivial(&b);
    let cut = c.rng.below(b.len());
    let r = c.guard("parse_cbor_string_array", || parse_cbor_string_array(&b[..cut]).is_ok()).unwrap_or(false);
    c.check(!r, "cbor:list_truncated", || format!("{} cut to {cut} is accepted", hex(&b)));
    // an element that is not text
    let mut bad = vec![0x82, 0x61, b'a'];
    bad.extend(match c.rng.below(4) {
        0 => vec![0x05],
        1 => vec![0x80],
        2 => vec![0x62, 0xff, 0xfe],
        _ => vec![0xa0],
    });
    let r = c.guard("parse_cbor_string_array", || parse_cbor_string_array(&bad).is_ok()).unwrap_or(false);
    c.check(!r, "cbor:list_bad_element", || format!("{} is accepted as a list of strings", hex(&bad)));
    // principal ranges
    let n = *c.rng.pick(&[0usize, 1, 2, 24]);
    let rs: Vec<(Vec<u8>, Vec<u8>)> = (0..n)
        .map(|_| {
            let (a, b) = (c.rng.below(30), c.rng.below(30));
            (c.rng.bytes(a), c.rng.bytes(b))
        })
        .collect();
    let b = ranges_cbor(&rs);
    let got = c
        .guard("parse_cbor_principals_array", || parse_cbor_principals_array(&b).ok())
        .flatten()
        .map(|v| v.into_iter().map(|(a, b)| (a.as_slice().to_vec(), b.as_slice().to_vec())).collect::<Vec<_>>());
    c.check(got.as_ref() == Some(&rs), "cbor:principal_ranges", || format!("{rs:?} decodes to {got:?}"));
    c.obs("principal_ranges");
    c.nontrivial(&b);
    let cut = c.rng.below(b.len());
    let r = c.guard("parse_cbor_principals_array", || parse_cbor_principals_array(&b[..cut]).is_ok()).unwrap_or(false);
    c.check(!r, "cbor:list_truncated", || format!("{} cut to {cut} is accepted", hex(&b)));
    // over-long principals and incomplete pairs are refused, not misread
    let long = { let n = c.rng.range(30, 60); c.rng.bytes(n) };
    let bad = match c.rng.below(4) {
        0 => ranges_cbor(&[(long, vec![1])]),
        1 => ranges_cbor(&[(vec![1], long)]),
        2 => {
            let mut o = vec![0x81, 0x83];
            for i in 0..3 {
                cbor_bytes(&[i; 10], &mut o);
            }
            o
        }
        _ => {
            let mut o = vec![0x81, 0x81];
            cbor_bytes(&[1, 2], &mut o);
            o
        }
    };
    let r = c.guard("parse_cbor_principals_array", || parse_cbor_principals_array(&bad).is_ok()).unwrap_or(false);
    c.check(!r, "cbor:bad_range_accepted", || format!("{} is accepted as canister ranges", hex(&bad)));
    c.sample(|| format!("{xs:?} {rs:?}"));
}
