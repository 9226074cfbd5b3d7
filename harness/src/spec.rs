//! Independent executable model of the formats and rules the library
//! implements, written from the IC interface specification and the HTTP gateway
//! protocol specification.  Nothing in this file calls the code under test
//! (except the two conversion helpers at the end).
use sha2::{Digest, Sha256};
use std::collections::BTreeMap;

pub type H = [u8; 32];

pub fn sha(parts: &[&[u8]]) -> H {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}

// ---------------------------------------------------------------- hash trees

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum T {
    Empty,
    Fork(Box<T>, Box<T>),
    Label(Vec<u8>, Box<T>),
    Leaf(Vec<u8>),
    Pruned(H),
}

pub fn fork(a: T, b: T) -> T {
    T::Fork(Box::new(a), Box::new(b))
}
pub fn lab(l: impl AsRef<[u8]>, t: T) -> T {
    T::Label(l.as_ref().to_vec(), Box::new(t))
}
pub fn leaf(v: impl AsRef<[u8]>) -> T {
    T::Leaf(v.as_ref().to_vec())
}

impl T {
    pub fn digest(&self) -> H {
        match self {
            T::Empty => sha(&[b"\x11ic-hashtree-empty"]),
            T::Fork(a, b) => sha(&[b"\x10ic-hashtree-fork", &a.digest(), &b.digest()]),
            T::Label(l, t) => sha(&[b"\x13ic-hashtree-labeled", l, &t.digest()]),
            T::Leaf(v) => sha(&[b"\x10ic-hashtree-leaf", v]),
            T::Pruned(h) => *h,
        }
    }
    pub fn size(&self) -> usize {
        match self {
            T::Fork(a, b) => 1 + a.size() + b.size(),
            T::Label(_, t) => 1 + t.size(),
            _ => 1,
        }
    }
    pub fn pruned_count(&self) -> usize {
        match self {
            T::Fork(a, b) => a.pruned_count() + b.pruned_count(),
            T::Label(_, t) => t.pruned_count(),
            T::Pruned(_) => 1,
            _ => 0,
        }
    }
    /// the spec's flatten_forks
    pub fn flatten<'a>(&'a self, out: &mut Vec<&'a T>) {
        match self {
            T::Empty => {}
            T::Fork(a, b) => {
                a.flatten(out);
                b.flatten(out);
            }
            t => out.push(t),
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            T::Fork(a, b) => 1 + a.depth().max(b.depth()),
            T::Label(_, t) => 1 + t.depth(),
            _ => 1,
        }
    }
    /// depth of the fork structure of this node's own map (labels are not entered)
    pub fn fork_depth(&self) -> usize {
        match self {
            T::Fork(a, b) => 1 + a.fork_depth().max(b.fork_depth()),
            _ => 0,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Look<'a> {
    Found(&'a T),
    Absent,
    Unknown,
}

/// find_label of the interface specification, on one level
pub fn find_label<'a>(t: &'a T, l: &[u8]) -> Look<'a> {
    let mut xs = vec![];
    t.flatten(&mut xs);
    for x in &xs {
        if let T::Label(k, sub) = x {
            if k == l {
                return Look::Found(sub);
            }
        }
    }
    // adjacent labelled siblings around l
    for w in xs.windows(2) {
        if let (T::Label(a, _), T::Label(b, _)) = (w[0], w[1]) {
            if a.as_slice() < l && l < b.as_slice() {
                return Look::Absent;
            }
        }
    }
    match xs.first() {
        Some(T::Label(b, _)) if l < b.as_slice() => return Look::Absent,
        None => return Look::Absent,
        Some(T::Leaf(_)) if xs.len() == 1 => return Look::Absent,
        _ => {}
    }
    if let Some(T::Label(a, _)) = xs.last() {
        if a.as_slice() < l {
            return Look::Absent;
        }
    }
    Look::Unknown
}

/// Sub-tree lookup: Found carries whatever stands at the path (possibly a pruned node).
pub fn look_subtree<'a>(t: &'a T, path: &[Vec<u8>]) -> Look<'a> {
    let mut cur = t;
    for l in path {
        match find_label(cur, l) {
            Look::Found(s) => cur = s,
            // `find_label` on a pruned node is Unknown already
            o => return o,
        }
    }
    Look::Found(cur)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum LookPath {
    Found(Vec<u8>),
    Absent,
    Unknown,
    Error,
}
/// Leaf lookup as in the spec's lookup_path
pub fn look_path(t: &T, path: &[Vec<u8>]) -> LookPath {
    match look_subtree(t, path) {
        Look::Absent => LookPath::Absent,
        Look::Unknown => LookPath::Unknown,
        Look::Found(T::Leaf(v)) => LookPath::Found(v.clone()),
        Look::Found(T::Empty) => LookPath::Absent,
        Look::Found(T::Pruned(_)) => LookPath::Unknown,
        Look::Found(_) => LookPath::Error,
    }
}

// A full (unpruned) tree as nested sorted maps.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum M {
    Val(Vec<u8>),
    Map(BTreeMap<Vec<u8>, M>),
}
impl M {
    pub fn new() -> M {
        M::Map(BTreeMap::new())
    }
    pub fn insert(&mut self, path: &[Vec<u8>], v: Vec<u8>) {
        if path.is_empty() {
            *self = M::Val(v);
            return;
        }
        if let M::Val(_) = self {
            *self = M::new();
        }
        if let M::Map(m) = self {
            m.entry(path[0].clone()).or_insert_with(M::new).insert(&path[1..], v);
        }
    }
    pub fn get(&self, path: &[Vec<u8>]) -> Option<&M> {
        if path.is_empty() {
            return Some(self);
        }
        match self {
            M::Val(_) => None,
            M::Map(m) => m.get(&path[0]).and_then(|x| x.get(&path[1..])),
        }
    }
    pub fn leaves(&self, pre: &mut Vec<Vec<u8>>, out: &mut Vec<(Vec<Vec<u8>>, Vec<u8>)>) {
        match self {
            M::Val(v) => out.push((pre.clone(), v.clone())),
            M::Map(m) => {
                for (k, x) in m {
                    pre.push(k.clone());
                    x.leaves(pre, out);
                    pre.pop();
                }
            }
        }
    }
    /// all inner and leaf paths
    pub fn paths(&self, pre: &mut Vec<Vec<u8>>, out: &mut Vec<Vec<Vec<u8>>>) {
        out.push(pre.clone());
        if let M::Map(m) = self {
            for (k, x) in m {
                pre.push(k.clone());
                x.paths(pre, out);
                pre.pop();
            }
        }
    }
}

/// Reads a complete (unpruned) tree back as nested maps; Err explains why it is not well formed.
pub fn tree_to_map(t: &T) -> Result<M, String> {
    let mut xs = vec![];
    t.flatten(&mut xs);
    if xs.len() == 1 {
        if let T::Leaf(v) = xs[0] {
            return Ok(M::Val(v.clone()));
        }
    }
    let mut m = BTreeMap::new();
    let mut last: Option<&Vec<u8>> = None;
    for x in xs {
        match x {
            T::Label(k, s) => {
                if let Some(l) = last {
                    if l >= k {
                        return Err(format!("labels out of order: {:?} then {:?}", l, k));
                    }
                }
                last = Some(k);
                m.insert(k.clone(), tree_to_map(s)?);
            }
            T::Pruned(_) => return Err("pruned node in a complete tree".into()),
            T::Leaf(_) => return Err("leaf among labelled nodes".into()),
            _ => unreachable!(),
        }
    }
    Ok(M::Map(m))
}

/// Is `t` a pruning of `full`? (every node of t equals full's or is pruned to its digest)
pub fn is_pruning_of(t: &T, full: &T) -> bool {
    match (t, full) {
        (T::Pruned(h), f) => *h == f.digest(),
        (T::Empty, T::Empty) => true,
        (T::Leaf(a), T::Leaf(b)) => a == b,
        (T::Label(a, x), T::Label(b, y)) => a == b && is_pruning_of(x, y),
        (T::Fork(a, b), T::Fork(c, d)) => is_pruning_of(a, c) && is_pruning_of(b, d),
        _ => false,
    }
}

// ---------------------------------------------------------------- CBOR writer

pub fn cbor_head(major: u8, n: u64, out: &mut Vec<u8>) {
    let m = major << 5;
    if n < 24 {
        out.push(m | n as u8);
    } else if n <= 0xff {
        out.extend_from_slice(&[m | 24, n as u8]);
    } else if n <= 0xffff {
        out.push(m | 25);
        out.extend_from_slice(&(n as u16).to_be_bytes());
    } else if n <= 0xffff_ffff {
        out.push(m | 26);
        out.extend_from_slice(&(n as u32).to_be_bytes());
    } else {
        out.push(m | 27);
        out.extend_from_slice(&n.to_be_bytes());
    }
}
pub fn cbor_bytes(b: &[u8], out: &mut Vec<u8>) {
    cbor_head(2, b.len() as u64, out);
    out.extend_from_slice(b);
}
pub fn cbor_text(b: &str, out: &mut Vec<u8>) {
    cbor_head(3, b.len() as u64, out);
    out.extend_from_slice(b.as_bytes());
}
pub fn cbor_tree(t: &T, out: &mut Vec<u8>) {
    match t {
        T::Empty => {
            cbor_head(4, 1, out);
            cbor_head(0, 0, out);
        }
        T::Fork(a, b) => {
            cbor_head(4, 3, out);
            cbor_head(0, 1, out);
            cbor_tree(a, out);
            cbor_tree(b, out);
        }
        T::Label(l, s) => {
            cbor_head(4, 3, out);
            cbor_head(0, 2, out);
            cbor_bytes(l, out);
            cbor_tree(s, out);
        }
        T::Leaf(v) => {
            cbor_head(4, 2, out);
            cbor_head(0, 3, out);
            cbor_bytes(v, out);
        }
        T::Pruned(h) => {
            cbor_head(4, 2, out);
            cbor_head(0, 4, out);
            cbor_bytes(h, out);
        }
    }
}
pub const SELF_DESCRIBE: [u8; 3] = [0xd9, 0xd9, 0xf7];
pub fn tree_cbor(t: &T, self_describe: bool) -> Vec<u8> {
    let mut o = vec![];
    if self_describe {
        o.extend_from_slice(&SELF_DESCRIBE);
    }
    cbor_tree(t, &mut o);
    o
}
pub fn strings_cbor<S: AsRef<str>>(xs: &[S]) -> Vec<u8> {
    let mut o = SELF_DESCRIBE.to_vec();
    cbor_head(4, xs.len() as u64, &mut o);
    for x in xs {
        cbor_text(x.as_ref(), &mut o);
    }
    o
}

// ---------------------------------------------------------------- base64

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn b64(data: &[u8]) -> String {
    let mut s = String::with_capacity(data.len() * 4 / 3 + 4);
    for c in data.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            if k <= c.len() {
                s.push(B64[(n >> (18 - 6 * k) & 63) as usize] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}
pub fn b64_decode(s: &str) -> Option<Vec<u8>> {
    let mut out = vec![];
    let mut acc = 0u32;
    let mut bits = 0;
    for c in s.bytes() {
        if c == b'=' {
            break;
        }
        let v = B64.iter().position(|x| *x == c)? as u32;
        acc = acc << 6 | v;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    Some(out)
}

// ---------------------------------------------------------------- leb128

pub fn leb(mut n: u64) -> Vec<u8> {
    let mut o = vec![];
    loop {
        let b = (n & 0x7f) as u8;
        n >>= 7;
        if n == 0 {
            o.push(b);
            return o;
        }
        o.push(b | 0x80);
    }
}

// ---------------------------------------------------------------- representation independent hash

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Str(String),
    Num(u64),
    Bytes(Vec<u8>),
    Arr(Vec<V>),
}
pub fn hash_value(v: &V) -> H {
    match v {
        V::Str(s) => sha(&[s.as_bytes()]),
        V::Num(n) => sha(&[&leb(*n)]),
        V::Bytes(b) => sha(&[b]),
        V::Arr(xs) => {
            let mut cat = vec![];
            for x in xs {
                cat.extend_from_slice(&hash_value(x));
            }
            sha(&[&cat])
        }
    }
}
pub fn ri_hash(map: &[(String, V)]) -> H {
    let mut pairs: Vec<Vec<u8>> = map
        .iter()
        .map(|(k, v)| {
            let mut p = sha(&[k.as_bytes()]).to_vec();
            p.extend_from_slice(&hash_value(v));
            p
        })
        .collect();
    pairs.sort();
    sha(&[&pairs.concat()])
}

// ---------------------------------------------------------------- HTTP certification model

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Req {
    pub method: String,
    pub url: String,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Resp {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RespRule {
    Include(Vec<String>),
    Exclude(Vec<String>),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Cel {
    Skip,
    RespOnly(RespRule),
    Full { headers: Vec<String>, query: Vec<String>, resp: RespRule },
}

fn str_list(xs: &[String]) -> String {
    xs.iter().map(|x| format!("\"{x}\"")).collect::<Vec<_>>().join(",")
}
impl Cel {
    /// the textual form documented by the protocol, without white space
    pub fn text(&self) -> String {
        let rr = |r: &RespRule| match r {
            RespRule::Include(h) => format!("response_certification:ResponseCertification{{certified_response_headers:ResponseHeaderList{{headers:[{}]}}}}", str_list(h)),
            RespRule::Exclude(h) => format!("response_certification:ResponseCertification{{response_header_exclusions:ResponseHeaderList{{headers:[{}]}}}}", str_list(h)),
        };
        match self {
            Cel::Skip => "default_certification(ValidationArgs{no_certification:Empty{}})".to_string(),
            Cel::RespOnly(r) => format!("default_certification(ValidationArgs{{certification:Certification{{no_request_certification:Empty{{}},{}}}}})", rr(r)),
            Cel::Full { headers, query, resp } => format!(
                "default_certification(ValidationArgs{{certification:Certification{{request_certification:RequestCertification{{certified_request_headers:[{}],certified_query_parameters:[{}]}},{}}}}})",
                str_list(headers), str_list(query), rr(resp)
            ),
        }
    }
    pub fn resp_rule(&self) -> Option<&RespRule> {
        match self {
            Cel::Skip => None,
            Cel::RespOnly(r) => Some(r),
            Cel::Full { resp, .. } => Some(resp),
        }
    }
}

pub const CERT_HEADER: &str = "IC-Certificate";
pub const EXPR_HEADER: &str = "IC-CertificateExpression";

/// The certified part of a response's headers, lower-cased, in order.
pub fn certified_headers(resp: &Resp, rule: &RespRule) -> Vec<(String, String)> {
    let mut out = vec![];
    for (k, v) in &resp.headers {
        if k.eq_ignore_ascii_case(CERT_HEADER) {
            continue;
        }
        let inc = k.eq_ignore_ascii_case(EXPR_HEADER)
            || match rule {
                RespRule::Include(hs) => hs.iter().any(|h| h.eq_ignore_ascii_case(k)),
                RespRule::Exclude(hs) => !hs.iter().any(|h| h.eq_ignore_ascii_case(k)),
            };
        if inc {
            out.push((k.to_ascii_lowercase(), v.clone()));
        }
    }
    out
}
pub fn response_hash(resp: &Resp, rule: &RespRule) -> H {
    let mut m: Vec<(String, V)> = certified_headers(resp, rule).into_iter().map(|(k, v)| (k, V::Str(v))).collect();
    m.push((":ic-cert-status".into(), V::Num(resp.status as u64)));
    sha(&[&ri_hash(&m), &sha(&[&resp.body])])
}

/// Splits a URL (absolute or origin form) into path and query, both still encoded.
pub fn split_url(url: &str) -> (String, Option<String>) {
    let rest = match url.find("://") {
        Some(i) => {
            let r = &url[i + 3..];
            match r.find(['/', '?']) {
                Some(j) => &r[j..],
                None => "",
            }
        }
        None => url,
    };
    let rest = rest.split('#').next().unwrap();
    let (p, q) = match rest.find('?') {
        Some(i) => (&rest[..i], Some(rest[i + 1..].to_string())),
        None => (rest, None),
    };
    (if p.is_empty() { "/".to_string() } else { p.to_string() }, q)
}
/// percent-decoding; None if the result is not UTF-8
pub fn pct_decode(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let hex = |c: u8| (c as char).to_digit(16).map(|d| d as u8);
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() + 0 && i + 2 <= b.len() - 1 {
            if let (Some(h), Some(l)) = (hex(b[i + 1]), hex(b[i + 2])) {
                out.push(h << 4 | l);
                i += 3;
                continue;
            }
        }
        out.push(b[i]);
        i += 1;
    }
    String::from_utf8(out).ok()
}
pub fn request_path(url: &str) -> Option<String> {
    pct_decode(&split_url(url).0)
}

pub fn request_hash(req: &Req, headers: &[String], query: &[String]) -> H {
    let mut m: Vec<(String, V)> = vec![];
    for (k, v) in &req.headers {
        if headers.iter().any(|h| h.eq_ignore_ascii_case(k)) {
            m.push((k.to_ascii_lowercase(), V::Str(v.clone())));
        }
    }
    m.push((":ic-cert-method".into(), V::Str(req.method.clone())));
    if let (_, Some(q)) = split_url(&req.url) {
        let kept: Vec<&str> = q
            .split('&')
            .filter(|frag| {
                let name = frag.split('=').next().unwrap_or("");
                query.iter().any(|x| x.eq_ignore_ascii_case(name))
            })
            .collect();
        m.push((":ic-cert-query".into(), V::Str(kept.join("&"))));
    }
    sha(&[&ri_hash(&m), &sha(&[&req.body])])
}

/// URL path -> path segments as certified (a trailing slash is an empty last segment)
pub fn segments(path: &str) -> Vec<Vec<u8>> {
    let mut s: Vec<Vec<u8>> = path.split('/').filter(|x| !x.is_empty()).map(|x| x.as_bytes().to_vec()).collect();
    if path.ends_with('/') {
        s.push(vec![]);
    }
    s
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Pat {
    Exact(String),
    Wild(String),
}
impl Pat {
    pub fn segs(&self) -> Vec<Vec<u8>> {
        match self {
            Pat::Exact(p) => {
                let mut s = segments(p);
                s.push(b"<$>".to_vec());
                s
            }
            Pat::Wild(p) => {
                let mut s = segments(p);
                s.push(b"<*>".to_vec());
                s
            }
        }
    }
    pub fn expr_path(&self) -> Vec<String> {
        let mut v = vec!["http_expr".to_string()];
        v.extend(self.segs().into_iter().map(|s| String::from_utf8(s).unwrap()));
        v
    }
}

/// Wildcard patterns (without terminator) matching a request path, most specific first.
/// `/a/b` is matched by the wildcards at a/b, a/"" , a, "" and the root.
pub fn wildcards_for(path: &str) -> Vec<Vec<Vec<u8>>> {
    let req = segments(path);
    let mut out = vec![];
    let mut cur = req;
    loop {
        out.push(cur.clone());
        if cur.last().map(|l| l.is_empty()).unwrap_or(false) {
            cur.pop();
        } else if cur.is_empty() {
            break;
        } else {
            cur.pop();
            cur.push(vec![]);
        }
    }
    out
}

// ---------------------------------------------------------------- conversions to/from the code under test

pub fn to_real(t: &T) -> ic_certification::HashTree {
    use ic_certification::hash_tree as h;
    match t {
        T::Empty => h::empty(),
        T::Fork(a, b) => h::fork(to_real(a), to_real(b)),
        T::Label(l, s) => h::label::<Vec<u8>, h::Label<Vec<u8>>, _>(h::Label::from(l.clone()), to_real(s)),
        T::Leaf(v) => h::leaf(v.clone()),
        T::Pruned(d) => h::pruned(*d),
    }
}
pub fn from_real(t: &ic_certification::HashTree) -> T {
    fn go(n: &ic_certification::hash_tree::HashTreeNode<Vec<u8>>) -> T {
        use ic_certification::hash_tree::HashTreeNode as N;
        match n {
            N::Empty() => T::Empty,
            N::Fork(x) => T::Fork(Box::new(go(&x.0)), Box::new(go(&x.1))),
            N::Labeled(l, s) => T::Label(l.as_bytes().to_vec(), Box::new(go(s))),
            N::Leaf(v) => T::Leaf(v.clone()),
            N::Pruned(h) => T::Pruned(*h),
        }
    }
    go(t.as_ref())
}
