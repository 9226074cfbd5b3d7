//! Random HTTP-certified canisters ("worlds"), the exchanges they serve, hostile
//! alterations of those exchanges, and the reference decision on the result.
use crate::cert::*;
use crate::refv::*;
use crate::rng::Rng;
use crate::spec::*;
use ic_http_certification::{HttpRequest, HttpResponse, Method, StatusCode};
use ic_response_verification::types::VerificationInfo;
use ic_response_verification::{verify_request_response_pair, ResponseVerificationError};
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub struct Entry {
    pub pat: Pat,
    pub cel: Cel,
    pub text: String,
    pub req: Req,
    /// as certified: includes the expression header, not the certificate header
    pub resp: Resp,
}

#[derive(Clone)]
pub struct World {
    pub id: Vec<u8>,
    pub time: u64,
    pub now: u128,
    pub offset: u128,
    pub entries: Vec<Entry>,
    pub full: T,
    pub cels: HashMap<String, Cel>,
    pub cert: Cert,
}

// ------------------------------------------------------------------ generators

pub const SEGS: &[&str] = &["a", "a", "b", "b", "c", "ab", "index.html", "A", "x y", "é", "a.b", "a+b", "100%", "<*>", "<$>", "http_expr", "%41", "a:b", "~", "a;b=c", "..", ".", "x ", " ", " x", "\t", "a\n", "\0", "\u{a0}", "a?b", "#", "\\", "\"", "\u{202e}", "😀"];
pub fn gen_path(r: &mut Rng) -> String {
    let n = if r.chance(1, 40) { r.range(4, 14) } else if r.chance(1, 100) { r.range(15, 140) } else { r.below(4) };
    let mut p = String::from("/");
    for i in 0..n {
        if i > 0 {
            p.push('/');
        }
        if r.chance(1, 150) {
            let k = *r.pick(&[23, 24, 63, 64, 127, 128, 255, 256, 300, 1000]);
            p.push_str(&r.pick(&["x", "yz", "é"]).repeat(k));
        } else {
            p.push_str(if r.chance(3, 4) { SEGS[r.below(6)] } else { *r.pick(SEGS) });
        }
    }
    if n > 0 && r.chance(1, 4) {
        p.push('/');
    }
    // a repeated slash separates no more than one
    if r.chance(1, 40) {
        let at: Vec<usize> = p.match_indices('/').map(|x| x.0).collect();
        let i = if r.bool() { at[at.len() - 1] } else { *r.pick(&at) };
        for _ in 0..r.range(1, 2) {
            p.insert(i, '/');
        }
    }
    p
}
pub fn extend_path(r: &mut Rng, base: &str) -> String {
    let mut p = base.to_string();
    if !p.ends_with('/') && r.chance(5, 6) {
        p.push('/');
    }
    for i in 0..r.below(3) {
        if i > 0 {
            p.push('/');
        }
        p.push_str(SEGS[r.below(7)]);
    }
    if !p.starts_with('/') {
        p.insert(0, '/');
    }
    p
}
/// Percent-encodes a path so that it is a legal URI path that decodes to itself.
pub fn encode_path(r: &mut Rng, p: &str) -> String {
    let mut o = String::new();
    for b in p.bytes() {
        let plain = b.is_ascii_alphanumeric() || b"/-._~+:;=@!$&'()*,".contains(&b);
        if !plain || (b != b'/' && r.chance(1, 12)) {
            if r.bool() {
                o.push_str(&format!("%{b:02X}"));
            } else {
                o.push_str(&format!("%{b:02x}"));
            }
        } else {
            o.push(b as char);
        }
    }
    o
}
pub const HNAMES: &[&str] = &["Content-Type", "ETag", "Cache-Control", "X-A", "X-B", "Accept", "If-None-Match", "Set-Cookie", "X_Under", "Server", "Content-Encoding", "X-A2"];
/// less common names: near misses of the protocol's own, odd but legal tokens, often special-cased ones
const RARE: &[&str] = &["x", "Content-Length", "Vary", "Date", "Connection", "Transfer-Encoding", "Location", "Content-Range", "Host", "Cookie", "Authorization", "!#$%&'*+-.^_`|~0", "IC-Certificate-X", "X-IC-Certificate", "IC-CertificateExpression2", "IC-CertificateVersion", "a-very-long-header-name-that-goes-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on", "Content-Typ", "Content-Type2", "Content_Type", "X-\u{e9}", "IC-Certificate ", " ic-certificate", "IC-CertificateExpression ", "content-type ", "etag ", ""];
pub fn hname(r: &mut Rng) -> &'static str {
    if r.chance(1, 10) {
        *r.pick(RARE)
    } else {
        *r.pick(HNAMES)
    }
}
const HVALUES: &[&str] = &["", "a", "b", "text/html", "no-cache, no-store", "\"abc\"", "é", "gzip", "a=b; c", "0", "1", "200", " a", "a ", "A", "a,b", "\t", "00"];
pub const QNAMES: &[&str] = &["foo", "bar", "baz", "x_y", "q", "Foo", "a.b"];
/// names that a reader of queries may take apart, decode or normalise
const RARE_QNAMES: &[&str] = &["a+b", "a b", "a%20b", "a%2Bb", "%66oo", "foo[]", "foo[", "", "foo=", "foo=1", "foo&bar", "foo;bar", "foo#", "x-y", "fooo", "fo", "foo ", "?foo", "/", "_", "\u{e9}", "%C3%A9"];
pub fn qname(r: &mut Rng) -> &'static str {
    if r.chance(1, 10) {
        *r.pick(RARE_QNAMES)
    } else {
        *r.pick(QNAMES)
    }
}

pub fn recase(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 => s.to_ascii_lowercase(),
        1 => s.to_ascii_uppercase(),
        2 => s.chars().map(|c| if r.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        _ => s.to_string(),
    }
}
pub fn hvalue(r: &mut Rng) -> String {
    match r.below(8) {
        0 => {
            let n = if r.chance(1, 20) { *r.pick(&[255, 256, 1000, 5000]) } else { r.range(1, 60) };
            (0..n).map(|_| (32 + r.below(95)) as u8 as char).collect()
        }
        _ => r.pick(HVALUES).to_string(),
    }
}
pub fn gen_headers(r: &mut Rng, max: usize) -> Vec<(String, String)> {
    let n = if r.chance(1, 100) { r.range(20, 150) } else { r.below(max + 1) };
    (0..n)
        .map(|_| {
            let k = hname(r);
            (recase(r, k), hvalue(r))
        })
        .collect()
}
fn names(r: &mut Rng, pool: &[&str], max: usize) -> Vec<String> {
    let n = if r.chance(1, 100) { r.range(9, 30) } else { r.below(max + 1) };
    let mut v: Vec<String> = (0..n)
        .map(|_| {
            let k = if pool == HNAMES { hname(r) } else { qname(r) };
            recase(r, k)
        })
        .collect();
    if r.chance(1, 12) {
        v.push(if r.bool() { "IC-Certificate".into() } else { "ic-certificateexpression".into() });
    }
    v
}
pub fn gen_rule(r: &mut Rng) -> RespRule {
    if r.bool() {
        RespRule::Include(names(r, HNAMES, 5))
    } else {
        RespRule::Exclude(names(r, HNAMES, 4))
    }
}
pub fn gen_cel(r: &mut Rng) -> Cel {
    match r.below(10) {
        0 => Cel::Skip,
        1..=4 => Cel::RespOnly(gen_rule(r)),
        _ => Cel::Full { headers: names(r, HNAMES, 4), query: names(r, QNAMES, 3), resp: gen_rule(r) },
    }
}
/// A textual form of the expression with arbitrary white space between tokens.
pub fn gen_text(r: &mut Rng, c: &Cel) -> String {
    spaced(r, c.text())
}
/// The text itself or with white space between its tokens.
pub fn spaced(r: &mut Rng, t: String) -> String {
    if r.bool() {
        return t;
    }
    let dense = r.bool();
    let mut o = String::new();
    let mut q = false;
    for ch in t.chars() {
        if ch == '"' {
            q = !q;
        }
        let punct = !q && "(){}[],:".contains(ch);
        let ws = |r: &mut Rng, o: &mut String| {
            if r.chance(1, if dense { 8 } else { 2 }) {
                o.push_str(*r.pick(&[" ", "  ", "\t", "\n", " \r\n "]));
            }
        };
        if punct {
            ws(r, &mut o);
        }
        o.push(ch);
        if punct {
            ws(r, &mut o);
        }
    }
    o
}
pub fn gen_body(r: &mut Rng) -> Vec<u8> {
    if r.chance(1, 150) {
        let n = *r.pick(&[255, 256, 1023, 1024, 4096, 10_000, 16_384, 65_535, 65_536, 65_537, 100_000]);
        return r.bytes(n);
    }
    match r.below(6) {
        0 => vec![],
        1 => {
            let n = r.range(1, 300);
            r.bytes(n)
        }
        2 => b"<html></html>".to_vec(),
        _ => {
            let n = r.range(1, 8);
            r.bytes(n)
        }
    }
}
pub fn gen_query(r: &mut Rng) -> Option<String> {
    if r.chance(2, 5) {
        return None;
    }
    let n = if r.chance(1, 60) { r.range(10, 80) } else { r.below(5) };
    Some(
        (0..n)
            .map(|_| {
                let k = qname(r);
                let k = if k.bytes().all(|b| b.is_ascii_graphic() && b != b'#') { k } else { "foo" };
                match r.below(12) {
                    6 => format!("{k}={k}"),
                    8 => format!("{}{}={}", recase(r, k), r.pick(&["[]", "[", "%", "%5B%5D", " ", "+", "*", ".", "_", "-", "s", "0", "?", "/", "[0]", "%20", "%00", ":", "\t"]).trim_matches(|c: char| c == ' ' || c == '\t'), r.below(4)),
                    9 => format!("{}{k}={}", r.pick(&["_", "x", "%20", "+", "$", "/", "-"]), r.below(4)),
                    7 => r.pick(&["", "=", "=a", "foo%3D1", "%66oo=1", "foo+bar=1", "fo=1", "fooo=1", "foo;bar=1", "foo[]=1", "foo?x=1", "foo/=1"]).to_string(),
                    0 => recase(r, k),
                    1 => format!("{k}="),
                    2 => format!("{k}=a=b"),
                    3 => format!("{k}=%20%26{}", r.below(5)),
                    _ => format!("{}={}", recase(r, k), r.below(4)),
                }
            })
            .collect::<Vec<_>>()
            .join("&"),
    )
}
pub fn gen_url(r: &mut Rng, path: &str, query: Option<String>) -> String {
    let mut u = String::new();
    if r.chance(1, 5) {
        u.push_str(*r.pick(&["https://example.com", "http://localhost:8080", "https://r7inp-6aaaa-aaaaa-aaabq-cai.icp0.io"]));
    }
    u.push_str(&encode_path(r, path));
    if let Some(q) = query {
        u.push('?');
        u.push_str(&q);
    }
    u
}
pub fn gen_method(r: &mut Rng) -> String {
    r.pick(&["GET", "GET", "POST", "PUT", "HEAD", "DELETE", "OPTIONS", "PATCH", "PURGE", "get"]).to_string()
}
pub const STATUSES: &[u16] = &[200, 200, 200, 404, 301, 206, 304, 500, 100, 204, 127, 128, 255, 256, 599, 999];

pub fn gen_resp(r: &mut Rng, text: &str) -> Resp {
    let mut headers = gen_headers(r, 5);
    let i = r.below(headers.len() + 1);
    headers.insert(i, (recase(r, EXPR_HEADER), text.to_string()));
    Resp { status: *r.pick(STATUSES), headers, body: gen_body(r) }
}
pub fn gen_req(r: &mut Rng, path: &str) -> Req {
    let q = gen_query(r);
    Req { method: gen_method(r), url: gen_url(r, path, q), headers: gen_headers(r, 5), body: if r.chance(2, 3) { vec![] } else { gen_body(r) } }
}

pub fn gen_pat(r: &mut Rng) -> Pat {
    let p = gen_path(r);
    if r.bool() {
        Pat::Exact(p)
    } else if r.chance(1, 4) {
        Pat::Wild("".into())
    } else {
        Pat::Wild(p)
    }
}
/// a request path that this pattern covers
pub fn path_under(r: &mut Rng, pat: &Pat) -> String {
    match pat {
        Pat::Exact(p) => p.clone(),
        Pat::Wild(p) => {
            if r.chance(1, 5) && p.starts_with('/') {
                p.clone()
            } else {
                extend_path(r, p)
            }
        }
    }
}
pub fn entry_path(e: &Entry) -> Vec<Vec<u8>> {
    let mut p = vec![b"http_expr".to_vec()];
    p.extend(e.pat.segs());
    p.push(sha(&[e.text.as_bytes()]).to_vec());
    match &e.cel {
        Cel::Skip => {}
        Cel::RespOnly(rr) => {
            p.push(vec![]);
            p.push(response_hash(&e.resp, rr).to_vec());
        }
        Cel::Full { headers, query, resp } => {
            p.push(request_hash(&e.req, headers, query).to_vec());
            p.push(response_hash(&e.resp, resp).to_vec());
        }
    }
    p
}
pub fn entries_map(es: &[Entry]) -> M {
    let mut m = M::new();
    for e in es {
        m.insert(&entry_path(e), vec![]);
    }
    m
}

pub fn gen_world(r: &mut Rng) -> World {
    let n = r.range(1, 6);
    let mut entries: Vec<Entry> = vec![];
    for _ in 0..n {
        let pat = if !entries.is_empty() && r.chance(1, 3) {
            let p = r.pick(&entries).pat.clone();
            match r.below(4) {
                0 => p,
                // the same place, the other kind
                1 => match p {
                    Pat::Exact(x) => Pat::Wild(x),
                    Pat::Wild(x) if !x.is_empty() => Pat::Exact(x),
                    p => p,
                },
                // a parent or a child
                _ => {
                    let q = path_under(r, &p);
                    let q = if r.bool() { extend_path(r, &q) } else { parent(&q) };
                    if r.bool() {
                        Pat::Exact(q)
                    } else {
                        Pat::Wild(q)
                    }
                }
            }
        } else {
            gen_pat(r)
        };
        let (cel, text) = if !entries.is_empty() && r.chance(1, 3) {
            let e = r.pick(&entries);
            (e.cel.clone(), e.text.clone())
        } else {
            let c = gen_cel(r);
            let t = gen_text(r, &c);
            (c, t)
        };
        let path = path_under(r, &pat);
        entries.push(Entry { req: gen_req(r, &path), resp: gen_resp(r, &text), pat, cel, text });
    }
    build_world(r, entries)
}
pub fn parent(p: &str) -> String {
    let t = p.trim_end_matches('/');
    match t.rfind('/') {
        Some(0) | None => "/".into(),
        Some(i) => t[..i].to_string(),
    }
}
pub fn build_world(r: &mut Rng, entries: Vec<Entry>) -> World {
    let mut m = entries_map(&entries);
    if r.chance(1, 5) {
        m.insert(&[b"http_assets".to_vec(), b"/index.html".to_vec()], r.bytes(32));
    }
    let full = crate::gen::tree_of(r, &m, 0);
    finish_world(r, entries, full)
}
pub fn finish_world(r: &mut Rng, entries: Vec<Entry>, full: T) -> World {
    let cels = entries.iter().map(|e| (e.text.clone(), e.cel.clone())).collect();
    let id = canister_id(r.below(1 << 20) as u64);
    let time = 1_700_000_000_000_000_000 + (r.u64() >> 24);
    let offset: u128 = 300_000_000_000;
    let now = time as u128 + (r.below(2 * 300_000_000) as u128) * 1000 - offset;
    let (delegated, noise) = (r.chance(1, 4), r.below(3));
    let cert = honest(r, &id, &full.digest(), time, delegated, noise);
    World { id, time, now, offset, entries, full, cels, cert }
}
/// The certified pattern that must answer this request path.
pub fn best_pattern(w: &World, path: &str) -> Option<Pat> {
    let exact = Pat::Exact(path.to_string()).segs();
    if let Some(e) = w.entries.iter().find(|e| matches!(e.pat, Pat::Exact(_)) && e.pat.segs() == exact) {
        return Some(e.pat.clone());
    }
    for wild in wildcards_for(path) {
        let mut s = wild.clone();
        s.push(b"<*>".to_vec());
        if let Some(e) = w.entries.iter().find(|e| matches!(e.pat, Pat::Wild(_)) && e.pat.segs() == s) {
            return Some(e.pat.clone());
        }
    }
    None
}

// ------------------------------------------------------------------ exchanges

#[derive(Clone)]
pub struct Served {
    pub req: Req,
    /// response without certificate headers
    pub resp: Resp,
    pub cert: Cert,
    pub tree: T,
    pub expr: Vec<String>,
    pub version: Option<String>,
    /// the certified entry this exchange was made from
    pub entry: usize,
    /// replaces the rendered certificate header
    pub raw: Option<String>,
    pub extra: Vec<(usize, String, String)>,
    pub pos: usize,
    pub name: String,
    pub canister: Vec<u8>,
    pub now: u128,
    pub offset: u128,
    pub root_der: Vec<u8>,
    pub min_version: u8,
    /// header syntax or framing the protocol does not fully settle
    pub odd: bool,
    pub log: Vec<String>,
}
impl Served {
    pub fn header(&self) -> String {
        if let Some(r) = &self.raw {
            return r.clone();
        }
        let mut s = format!("certificate=:{}:, tree=:{}:", b64(&self.cert.cbor()), b64(&tree_cbor(&self.tree, true)));
        if !self.expr.is_empty() || self.version.as_deref() == Some("2") {
            s.push_str(&format!(", expr_path=:{}:", b64(&strings_cbor(&self.expr))));
        }
        if let Some(v) = &self.version {
            s.push_str(&format!(", version={v}"));
        }
        s
    }
    pub fn response(&self) -> Resp {
        let mut r = self.resp.clone();
        let h = self.header();
        let i = self.pos.min(r.headers.len());
        r.headers.insert(i, (self.name.clone(), h));
        for (i, k, v) in &self.extra {
            let i = (*i).min(r.headers.len());
            r.headers.insert(i, (k.clone(), v.clone()));
        }
        r
    }
}

/// What the world's canister would answer; `greedy` prunes the witness as far as possible.
pub fn serve(r: &mut Rng, w: &World, path: &str, greedy: bool) -> Option<Served> {
    let pat = best_pattern(w, path)?;
    let es: Vec<usize> = (0..w.entries.len()).filter(|i| w.entries[*i].pat.segs() == pat.segs()).collect();
    let entry = *r.pick(&es);
    let e = w.entries[entry].clone();
    let mut req = Req { url: String::new(), ..e.req.clone() };
    // request: the certified parts of the entry, everything else free
    let (_, q) = split_url(&e.req.url);
    match &e.cel {
        Cel::Full { headers, query, .. } => {
            let keep = |h: &str| headers.iter().any(|x| x.eq_ignore_ascii_case(h));
            if r.bool() {
                let mut hs: Vec<(String, String)> = req.headers.iter().filter(|h| keep(&h.0)).cloned().collect();
                for h in gen_headers(r, 3) {
                    if !keep(&h.0) {
                        let i = r.below(hs.len() + 1);
                        hs.insert(i, h);
                    }
                }
                for h in hs.iter_mut() {
                    h.0 = recase(r, &h.0);
                }
                req.headers = hs;
            }
            let q2 = q.map(|q| {
                let keep = |f: &str| query.iter().any(|x| x.eq_ignore_ascii_case(f.split('=').next().unwrap()));
                let mut fs: Vec<String> = q.split('&').filter(|f| keep(f)).map(|s| s.to_string()).collect();
                for k in ["utm", "zzz"] {
                    if r.chance(1, 3) {
                        let i = r.below(fs.len() + 1);
                        fs.insert(i, format!("{k}=1"));
                    }
                }
                fs.join("&")
            });
            req.url = gen_url(r, path, q2);
        }
        _ => {
            req = gen_req(r, path);
        }
    }
    let mut resp = e.resp.clone();
    // response: uncertified headers are free
    match &e.cel {
        Cel::Skip => {
            resp = gen_resp(r, &e.text);
        }
        Cel::RespOnly(rule) | Cel::Full { resp: rule, .. } => {
            if r.bool() {
                let probe = |k: &str| !certified_headers(&Resp { status: 1, headers: vec![(k.to_string(), String::new())], body: vec![] }, rule).is_empty();
                let mut hs: Vec<(String, String)> = resp.headers.iter().filter(|h| probe(&h.0)).cloned().collect();
                for h in gen_headers(r, 4) {
                    if !probe(&h.0) {
                        let i = r.below(hs.len() + 1);
                        hs.insert(i, h);
                    }
                }
                if r.chance(1, 4) {
                    r.shuffle(&mut hs);
                }
                resp.headers = hs;
            }
        }
    }
    let a = authority();
    let mut s = Served {
        req,
        pos: r.below(resp.headers.len() + 1),
        resp,
        cert: w.cert.clone(),
        tree: w.full.clone(),
        expr: pat.expr_path(),
        version: Some("2".into()),
        raw: None,
        extra: vec![],
        entry,
        name: recase(r, CERT_HEADER),
        canister: w.id.clone(),
        now: w.now,
        offset: w.offset,
        root_der: a.root.der(),
        min_version: r.range(0, 2) as u8,
        odd: false,
        log: vec![format!("honest {pat:?} for {path}")],
    };
    let ok = |t: &T| matches!(v2_tree_ok(&s.req, &s.resp, &e.cel, &e.text, &s.expr, t), Some(Ok(_)));
    if !ok(&w.full) {
        return None;
    }
    s.tree = if greedy { prune_greedy(r, &w.full, &ok) } else {
        let mut best = w.full.clone();
        for p in [250, 80, 25] {
            let t = crate::gen::prune(r, &w.full, p);
            if ok(&t) {
                best = t;
                break;
            }
        }
        best
    };
    Some(s)
}

/// Tries to prune every node (in random order); keeps a pruning while `ok` holds.
pub fn prune_greedy(r: &mut Rng, t: &T, ok: &dyn Fn(&T) -> bool) -> T {
    let mut cur = t.clone();
    let n = cur.size();
    let mut order: Vec<usize> = (0..n).collect();
    r.shuffle(&mut order);
    // random numbers address nodes in preorder of the current tree
    for k in order {
        let size = cur.size();
        let cand = prune_nth(&cur, k % size);
        if let Some(c) = cand {
            if ok(&c) {
                cur = c;
            }
        }
    }
    cur
}
pub fn prune_nth(t: &T, n: usize) -> Option<T> {
    fn go(t: &T, n: &mut usize) -> Option<T> {
        if *n == 0 {
            return if matches!(t, T::Pruned(_)) { None } else { Some(T::Pruned(t.digest())) };
        }
        *n -= 1;
        match t {
            T::Fork(a, b) => {
                let s = a.size();
                if *n < s {
                    go(a, n).map(|x| fork(x, (**b).clone()))
                } else {
                    *n -= s;
                    go(b, n).map(|x| fork((**a).clone(), x))
                }
            }
            T::Label(l, x) => go(x, n).map(|x| lab(l, x)),
            _ => None,
        }
    }
    let mut n = n;
    go(t, &mut n)
}

// ------------------------------------------------------------------ reference decision

#[derive(Debug, Clone, PartialEq)]
pub struct Out {
    pub version: u16,
    pub response: Option<(Option<u16>, Vec<(String, String)>, Vec<u8>)>,
}
#[derive(Debug, Clone, PartialEq)]
pub enum Verdict {
    Accept(Out),
    Reject(&'static str),
    Open(&'static str),
}

fn fields(h: &str) -> Vec<(String, String)> {
    let mut out = vec![];
    for f in h.split(',') {
        let f = f.trim();
        let Some(i) = f.find('=') else { continue };
        let (name, rest) = (&f[..i], &f[i + 1..]);
        let rest = rest.strip_prefix(':').unwrap_or(rest);
        let (val, tail) = match rest.find(':') {
            Some(j) => (&rest[..j], &rest[j + 1..]),
            None => (rest, ""),
        };
        if tail.is_empty() && !name.is_empty() && !val.is_empty() {
            out.push((name.to_string(), val.to_string()));
        }
    }
    out
}

pub fn reference(s: &Served, cels: &HashMap<String, Cel>) -> Verdict {
    let resp = s.response();
    let of = |name: &str| -> Vec<String> { resp.headers.iter().filter(|h| h.0.eq_ignore_ascii_case(name)).map(|h| h.1.clone()).collect() };
    let certs = of(CERT_HEADER);
    let exprs = of(EXPR_HEADER);
    let encs = of("content-encoding");
    if certs.is_empty() {
        return Verdict::Reject("no certificate header");
    }
    let several = certs.len() > 1 || exprs.len() > 1 || encs.len() > 1;
    let mut verdicts = vec![];
    for c in &certs {
        for e in exprs.iter().map(Some).chain(if exprs.is_empty() { Some(None) } else { None }) {
            for enc in encs.iter().map(Some).chain(if encs.is_empty() { Some(None) } else { None }) {
                verdicts.push(reference_one(s, &resp, c, e.map(|x| x.as_str()), enc.map(|x| x.as_str()), cels));
            }
        }
    }
    if !several {
        return match verdicts.remove(0) {
            Verdict::Accept(_) if s.odd => Verdict::Open("unsettled header syntax"),
            v => v,
        };
    }
    if let Some(v) = verdicts.iter().find(|v| !matches!(v, Verdict::Reject(_))) {
        match v {
            Verdict::Accept(_) => return Verdict::Open("several headers of one name"),
            v => return v.clone(),
        }
    }
    verdicts.remove(0)
}

fn reference_one(s: &Served, resp: &Resp, header: &str, expr_text: Option<&str>, enc: Option<&str>, cels: &HashMap<String, Cel>) -> Verdict {
    use ic_cbor::HashTreeToCbor;
    use Verdict::*;
    let fs = fields(header);
    let first = |n: &str| fs.iter().find(|f| f.0 == n).map(|f| f.1.clone());
    let version = match first("version") {
        None => 1u8,
        Some(v) => match v.parse::<u8>() {
            Ok(v) => v,
            Err(_) => return Reject("version"),
        },
    };
    let Some(cert_b) = first("certificate").and_then(|v| b64_decode(&v)) else { return Reject("certificate field") };
    let Some(tree_b) = first("tree").and_then(|v| b64_decode(&v)) else { return Reject("tree field") };
    if version < s.min_version {
        return Reject("version below the minimum");
    }
    if version != 1 && version != 2 {
        return Reject("unsupported version");
    }
    // structured data when it is what was rendered, otherwise the library's own decoder
    let cert = if cert_b == s.cert.cbor() { s.cert.clone() } else {
        match decode_cert(&cert_b) {
            Ok(c) => c,
            Err(_) => return Reject("certificate does not decode"),
        }
    };
    let tree = if tree_b == tree_cbor(&s.tree, true) { s.tree.clone() } else {
        match ic_certification::HashTree::from_cbor(&tree_b) {
            Ok(t) => from_real(&t),
            Err(_) => return Reject("tree does not decode"),
        }
    };
    let trust = Trust { canister: &s.canister, now: s.now, offset: s.offset, root_der: &s.root_der };
    let mut open = None;
    match cert_verdict(&cert, &trust) {
        CertVerdict::Ok => {}
        CertVerdict::Bad(w) => return Reject(w),
        CertVerdict::Open(w) => open = Some(w),
    }
    if certified_data(&cert, &s.canister) != Some(tree.digest().to_vec()) {
        return Reject("tree is not the certified one");
    }
    if version == 1 {
        let Some(path) = request_path(&s.req.url) else { return Reject("request path") };
        if !v1_tree_ok(&path, resp, &tree, enc) {
            return Reject("v1 body");
        }
        if let Some(o) = open {
            return Open(o);
        }
        return Accept(Out { version: 1, response: Some((None, vec![], resp.body.clone())) });
    }
    let Some(text) = expr_text else { return Reject("no expression header") };
    let Some(cel) = cels.get(text) else { return Reject("expression unknown to the canister") };
    let Some(expr_b) = first("expr_path").and_then(|v| b64_decode(&v)) else { return Reject("expr_path field") };
    let expr = if expr_b == strings_cbor(&s.expr) { s.expr.clone() } else {
        match ic_cbor::parse_cbor_string_array(&expr_b) {
            Ok(e) => e,
            Err(_) => return Reject("expr_path does not decode"),
        }
    };
    match v2_tree_ok(&s.req, resp, cel, text, &expr, &tree) {
        None => Open("wildcard on the directory itself"),
        Some(Err(e)) => Reject(e),
        Some(Ok(o)) => {
            if let Some(o) = open {
                return Open(o);
            }
            Accept(Out {
                version: 2,
                response: o.map(|hs| {
                    let mut hs = hs;
                    hs.push((CERT_HEADER.to_string(), header.to_string()));
                    (Some(resp.status), hs, resp.body.clone())
                }),
            })
        }
    }
}

// ------------------------------------------------------------------ the code under test

pub fn real_request(q: &Req) -> HttpRequest<'static> {
    HttpRequest::builder()
        .with_method(Method::from_bytes(q.method.as_bytes()).unwrap())
        .with_url(q.url.clone())
        .with_headers(q.headers.clone())
        .with_body(q.body.clone())
        .build()
}
pub fn real_response(p: &Resp) -> HttpResponse<'static> {
    HttpResponse::builder()
        .with_status_code(StatusCode::from_u16(p.status).unwrap())
        .with_headers(p.headers.clone())
        .with_body(p.body.clone())
        .build()
}
pub fn real_verify(s: &Served) -> Result<VerificationInfo, ResponseVerificationError> {
    verify_request_response_pair(real_request(&s.req), real_response(&s.response()), &s.canister, s.now, s.offset, &s.root_der, s.min_version)
}
pub fn out_of(i: &VerificationInfo) -> Out {
    Out { version: i.verification_version, response: i.response.as_ref().map(|r| (r.status_code, r.headers.clone(), r.body.clone())) }
}
/// Same content, header order aside.
pub fn same_out(a: &Out, b: &Out) -> bool {
    let norm = |o: &Out| {
        let mut o = o.clone();
        if let Some((_, h, _)) = &mut o.response {
            for x in h.iter_mut() {
                x.0 = x.0.to_ascii_lowercase();
            }
            h.sort();
        }
        o
    };
    norm(a) == norm(b)
}
pub fn describe(s: &Served) -> String {
    let r = s.response();
    let hs: Vec<String> = r.headers.iter().map(|(k, v)| format!("{k}: {}", if v.len() > 160 { format!("{}…", v.chars().take(160).collect::<String>()) } else { v.clone() })).collect();
    format!("[{}] {} {} headers={:?} body={}B -> {} {:?} body={}B expr_path={:?}", s.log.join("; "), s.req.method, s.req.url, s.req.headers, s.req.body.len(), r.status, hs, r.body.len(), s.expr)
}
