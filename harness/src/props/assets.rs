//! Monitors of the asset router: routing and certification of sites, histories
//! of certifying and deleting, chunks, and content negotiation.
use crate::api::*;
use crate::case::Case;
use crate::cel::{meaning, Meaning};
use crate::cert::*;
use crate::rng::Rng;
use crate::spec::*;
use crate::world::*;
use crate::{Property, Workload};
use ic_asset_certification::{Asset, AssetConfig, AssetEncoding, AssetFallbackConfig, AssetMap, AssetRedirectKind, AssetRouter, ASSET_CHUNK_SIZE};
use ic_http_certification::{utils::add_v2_certificate_header, HttpCertificationTree, HttpResponse, StatusCode};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[path = "canisters.rs"]
mod canisters;
pub use canisters::C29;

// ------------------------------------------------------------------ model

/// encodings in the documented order of preference
const ENCS: &[&str] = &["br", "zstd", "gzip", "deflate", "identity"];
fn real_enc(e: &str) -> AssetEncoding {
    match e {
        "br" => AssetEncoding::Brotli,
        "zstd" => AssetEncoding::Zstd,
        "gzip" => AssetEncoding::Gzip,
        "deflate" => AssetEncoding::Deflate,
        _ => AssetEncoding::Identity,
    }
}
type Enc = &'static str;

#[derive(Clone, Debug, PartialEq)]
enum Glob {
    Literal(String),
    Suffix(String),
    Dir(String),
    Either(String, String),
    All,
    Of(Vec<Tok>),
}
/// Pieces of the documented glob syntax.
#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Lit(String),
    /// `?`
    One,
    /// `*`
    Star,
    /// `[ab]`, `[!ab]`
    Class(Vec<char>, bool),
    /// `**/` at the start, `/**/` within, `/**` at the end
    Pre,
    Mid,
    End,
    /// `{a,b}`
    Alt(Vec<String>),
}
fn tok_text(t: &Tok) -> String {
    match t {
        Tok::Lit(x) => x.clone(),
        Tok::One => "?".into(),
        Tok::Star => "*".into(),
        Tok::Class(x, not) => format!("[{}{}]", if *not { "!" } else { "" }, x.iter().collect::<String>()),
        Tok::Pre => "**/".into(),
        Tok::Mid => "/**/".into(),
        Tok::End => "/**".into(),
        Tok::Alt(x) => format!("{{{}}}", x.join(",")),
    }
}
fn tok_match(ts: &[Tok], s: &str) -> bool {
    let Some(t) = ts.first() else { return s.is_empty() };
    let rest = &ts[1..];
    let next = s.chars().next();
    match t {
        Tok::Lit(x) => s.strip_prefix(x.as_str()).is_some_and(|s| tok_match(rest, s)),
        Tok::One => next.is_some() && tok_match(rest, &s[1..]),
        Tok::Star => (0..=s.len()).any(|i| tok_match(rest, &s[i..])),
        Tok::Class(x, not) => next.is_some_and(|n| x.contains(&n) != *not) && tok_match(rest, &s[1..]),
        // any directories, or none
        Tok::Pre => tok_match(rest, s) || s.match_indices('/').any(|(i, _)| tok_match(rest, &s[i + 1..])),
        Tok::Mid => s.starts_with('/') && s.match_indices('/').any(|(i, _)| tok_match(rest, &s[i + 1..])),
        Tok::End => s.starts_with('/'),
        Tok::Alt(x) => x.iter().any(|x| s.strip_prefix(x.as_str()).is_some_and(|s| tok_match(rest, s))),
    }
}
/// A pattern made from a name by leaving parts of it open.
fn glob_from(r: &mut Rng, name: &str) -> Vec<Tok> {
    let mut out = vec![];
    let cs: Vec<char> = name.chars().collect();
    let mut i = 0;
    match r.below(6) {
        0 => out.push(Tok::Pre),
        1 if name.contains('/') => {
            out.push(Tok::Pre);
            i = cs.iter().rposition(|c| *c == '/').unwrap() + 1;
        }
        2 => {
            out.push(Tok::Star);
            i = r.below(cs.len());
        }
        _ => {}
    }
    while i < cs.len() {
        let c = cs[i];
        i += 1;
        match r.below(14) {
            0 => out.push(Tok::One),
            1 if !matches!(out.last(), Some(Tok::Star | Tok::Pre | Tok::Mid)) && c != '/' => {
                out.push(Tok::Star);
                i = (i + r.below(3)).min(cs.len());
            }
            2 if c.is_ascii_alphanumeric() => out.push(Tok::Class(vec![c, *r.pick(&['x', 'q', '*', '?'])], false)),
            3 if c.is_ascii_alphanumeric() => out.push(Tok::Class(vec!['x', 'q', '7'], true)),
            4 if c.is_ascii_alphanumeric() => out.push(Tok::Alt(vec![c.to_string(), "xyz".into()])),
            5 if c == '/' && i > 1 && i < cs.len() && matches!(out.last(), Some(Tok::Lit(_))) => out.push(Tok::Mid),
            6 if c == '/' && i > 1 && matches!(out.last(), Some(Tok::Lit(_))) => {
                out.push(Tok::End);
                return out;
            }
            _ => out.push(Tok::Lit(c.to_string())),
        }
    }
    out
}
impl Glob {
    fn text(&self) -> String {
        match self {
            Glob::Literal(p) => p.clone(),
            Glob::Suffix(s) => format!("**/*{s}"),
            Glob::Dir(d) => format!("{d}/**"),
            Glob::Either(a, b) => format!("{{{a},{b}}}"),
            Glob::All => "**".into(),
            Glob::Of(ts) => ts.iter().map(tok_text).collect(),
        }
    }
    fn matches(&self, p: &str) -> bool {
        match self {
            Glob::Literal(x) => p == x,
            Glob::Suffix(s) => p.ends_with(s.as_str()),
            Glob::Dir(d) => p.starts_with(&format!("{d}/")),
            Glob::Either(a, b) => p == a || p == b,
            Glob::All => true,
            Glob::Of(ts) => tok_match(ts, p),
        }
    }
}
#[derive(Clone, Debug)]
enum Cfg {
    File { path: String, ct: Option<String>, headers: Vec<(String, String)>, scopes: Vec<(String, Option<u16>)>, aliases: Vec<String>, encs: Vec<(Enc, String)> },
    Pattern { glob: Glob, ct: Option<String>, headers: Vec<(String, String)>, encs: Vec<(Enc, String)> },
    Redirect { from: String, to: String, permanent: bool },
}
impl Cfg {
    fn real(&self) -> AssetConfig {
        let es = |v: &[(Enc, String)]| v.iter().map(|(e, x)| if real_enc(e).default_config().1 == *x { real_enc(e).default_config() } else { real_enc(e).custom_config(x.clone()) }).collect::<Vec<_>>();
        match self {
            Cfg::File { path, ct, headers, scopes, aliases, encs } => AssetConfig::File {
                path: path.clone(),
                content_type: ct.clone(),
                headers: headers.clone(),
                fallback_for: scopes.iter().map(|(s, st)| AssetFallbackConfig { scope: s.clone(), status_code: st.map(|x| StatusCode::from_u16(x).unwrap()) }).collect(),
                aliased_by: aliases.clone(),
                encodings: es(encs),
            },
            Cfg::Pattern { glob, ct, headers, encs } => AssetConfig::Pattern { pattern: glob.text(), content_type: ct.clone(), headers: headers.clone(), encodings: es(encs) },
            Cfg::Redirect { from, to, permanent } => AssetConfig::Redirect { from: from.clone(), to: to.clone(), kind: if *permanent { AssetRedirectKind::Permanent } else { AssetRedirectKind::Temporary } },
        }
    }
    fn matches(&self, p: &str) -> bool {
        match self {
            Cfg::File { path, .. } => path == p,
            Cfg::Pattern { glob, .. } => glob.matches(p),
            Cfg::Redirect { .. } => false,
        }
    }
}
#[derive(Clone, Debug)]
struct AssetDef {
    path: String,
    content: Rc<Vec<u8>>,
}
impl AssetDef {
    fn real(&self) -> Asset<'static, 'static> {
        Asset::new(Cow::Owned(self.path.clone()), Cow::Owned(self.content.as_ref().clone()))
    }
    fn url(&self) -> String {
        if self.path.starts_with('/') { self.path.clone() } else { format!("/{}", self.path) }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Place {
    Url(String),
    Scope(String),
}
#[derive(Clone, Debug, PartialEq)]
struct Unit {
    status: u16,
    /// headers other than content-length, the expression and the certificate; names in lower case
    headers: Vec<(String, String)>,
    body: Rc<Vec<u8>>,
}
type Key = (Place, Option<Enc>);
type Site = BTreeMap<Key, Unit>;

/// What certifying these assets with these configurations puts on the site, as documented.
fn expand(assets: &[AssetDef], cfgs: &[Cfg]) -> Result<Site, String> {
    let mut out = Site::new();
    let mut put = |k: Key, u: Unit| -> Result<(), String> {
        match out.insert(k.clone(), u.clone()) {
            Some(o) if o != u => Err(format!("{k:?}")),
            _ => Ok(()),
        }
    };
    for a in assets {
        let cfg = cfgs.iter().find(|c| c.matches(&a.path));
        let (ct, headers, encs) = match cfg {
            Some(Cfg::File { ct, headers, encs, .. }) | Some(Cfg::Pattern { ct, headers, encs, .. }) => (ct.clone(), headers.clone(), encs.clone()),
            _ => (None, vec![], vec![]),
        };
        let mut variants: Vec<(Option<Enc>, Rc<Vec<u8>>)> = vec![(None, a.content.clone())];
        for (e, x) in &encs {
            if let Some(b) = assets.iter().find(|b| b.path == format!("{}{x}", a.path)) {
                variants.push((Some(e), b.content.clone()));
            }
        }
        for (enc, body) in variants {
            let mut hs: Vec<(String, String)> = headers.iter().map(|(k, v)| (k.to_ascii_lowercase(), v.clone())).collect();
            if let Some(c) = &ct {
                hs.push(("content-type".into(), c.clone()));
            }
            if let Some(e) = enc {
                hs.push(("content-encoding".into(), e.to_string()));
            }
            hs.sort();
            let u = Unit { status: 200, headers: hs, body };
            put((Place::Url(a.url()), enc), u.clone())?;
            if let Some(Cfg::File { scopes, aliases, .. }) = cfg {
                for al in aliases {
                    put((Place::Url(al.clone()), enc), u.clone())?;
                }
                for (s, st) in scopes {
                    put((Place::Scope(s.clone()), enc), Unit { status: st.unwrap_or(200), ..u.clone() })?;
                }
            }
        }
    }
    for c in cfgs {
        if let Cfg::Redirect { from, to, permanent } = c {
            put((Place::Url(from.clone()), None), Unit { status: if *permanent { 301 } else { 307 }, headers: vec![("location".into(), to.clone())], body: Rc::new(vec![]) })?;
        }
    }
    Ok(out)
}

/// The places that may answer for a path, most specific first.
fn places_for(path: &str) -> Vec<Place> {
    let mut out = vec![Place::Url(path.to_string())];
    let mut s = path.to_string();
    out.push(Place::Scope(s.clone()));
    loop {
        if s.ends_with('/') {
            s.pop();
            if s.is_empty() {
                return out;
            }
        } else {
            while !s.ends_with('/') {
                s.pop();
            }
        }
        out.push(Place::Scope(s.clone()));
    }
}
/// What the site says should be served; `accept` lists acceptable encodings, in the documented order.
fn designated<'a>(site: &'a Site, path: &str, accept: &[Enc]) -> Option<(&'a Key, &'a Unit)> {
    for p in places_for(path) {
        for e in ENCS.iter().filter(|e| accept.contains(e)) {
            if let Some(x) = site.get_key_value(&(p.clone(), Some(e))) {
                return Some(x);
            }
        }
        if let Some(x) = site.get_key_value(&(p.clone(), None)) {
            return Some(x);
        }
    }
    None
}

// ------------------------------------------------------------------ generation

const PATHS: &[&str] = &[
    "index.html", "app.js", "css/app.css", "/img/logo.png", "a", "a/b", "a/b/c.txt", "js/app.js", "docs/index.html", "docs/", "", "main.css", "js/lib/core.js", "A", "robots.txt", "a/b/",
];
const ODD_PATHS: &[&str] = &["my file.txt", "é.txt", "100%.txt", "what?x=1.txt", "a#b.txt", "<*>", "<$>", "a+b.txt", "%41.txt", "http_expr", "docs/x y/é.js", "a:b", "~u/.well-known/x"];
fn status(r: &mut Rng) -> Option<u16> {
    match r.below(6) {
        0 | 1 => None,
        2 => Some(200),
        3 => Some(404),
        4 => Some(*r.pick(&[201, 203, 204, 206, 299, 300, 304, 400, 401, 403, 405, 410, 418, 429, 451, 500, 501, 503, 511])),
        _ => Some(r.range(200, 599) as u16),
    }
}
const URLS: &[&str] = &["/404", "/404/", "/404.html", "/not-found", "/not-found/", "/not-found/index.html", "/old", "/old/", "/old/page", "/home page", "/docs/readme", "/Ünï", "/a/c", "/js"];
const SCOPES: &[&str] = &["/", "/js", "/js/", "/a", "/a/b", "/a/b/", "/css", "/docs/", "/docs", "/img", "/my dir", "/not-found", "/é/"];

fn small_body(r: &mut Rng) -> Rc<Vec<u8>> {
    let n = *r.pick(&[0, 1, 2, 5, 17, 60, 300]);
    Rc::new(r.bytes(n))
}
fn big_body(r: &mut Rng) -> Rc<Vec<u8>> {
    let k = r.range(1, 3);
    let n = ASSET_CHUNK_SIZE * k + *r.pick(&[1, 1, 2, 1000, ASSET_CHUNK_SIZE / 2, ASSET_CHUNK_SIZE - 1, ASSET_CHUNK_SIZE]);
    // cheap to make, but no two stretches are alike
    let mut x = r.u64() | 1;
    let mut v = Vec::with_capacity(n + 8);
    while v.len() < n {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        v.extend_from_slice(&(x >> 11).to_le_bytes());
    }
    v.truncate(n);
    Rc::new(v)
}
fn site_headers(r: &mut Rng) -> Vec<(String, String)> {
    let all = [("Cache-Control", "public, no-cache, no-store"), ("X-Frame-Options", "DENY"), ("etag", "\"1\""), ("Strict-Transport-Security", "max-age=31536000"), ("x-empty", ""), ("Vary", "accept-encoding")];
    let mut v = vec![];
    // what the router adds itself may be configured as well
    if r.chance(1, 12) {
        v.push((r.pick(&["content-type", "Content-Type", "location", "content-language"]).to_string(), r.pick(&["text/plain", "en", ""]).to_string()));
    }
    for (k, x) in all {
        if r.chance(1, 3) {
            v.push((k.to_string(), if r.chance(1, 3) { format!("{x}{}", r.below(10)) } else { x.to_string() }));
        }
    }
    // a header may be there several times
    if r.chance(1, 8) {
        for k in 0..r.range(1, 3) {
            let i = r.below(v.len() + 1);
            v.insert(i, (r.pick(&["Link", "link", "set-cookie", "Vary"]).to_string(), format!("v{k}")));
        }
    }
    // twice the same one
    if !v.is_empty() && r.chance(1, 12) {
        let (i, at) = (r.below(v.len()), r.below(v.len() + 1));
        v.insert(at, v[i].clone());
    }
    // values are passed on as they are
    if r.chance(1, 12) {
        let at = r.below(v.len() + 1);
        let x = match r.below(6) {
            0 => " spaced\t".into(),
            1 => "é—\u{1f980}".into(),
            2 => "x".repeat(3000),
            3 => "a, b;c=\"d\"".into(),
            4 => "%41+%".into(),
            _ => " ".into(),
        };
        v.insert(at, (r.pick(&["x-odd", "X-ODD_2", "Content-Disposition", "range", "accept-encoding"]).to_string(), x));
    }
    v
}
fn ext(e: Enc) -> String {
    real_enc(e).default_config().1
}

/// A site to certify: every url, alias, scope and redirect has one owner.
#[derive(Clone, Debug)]
struct Plan {
    names: Vec<String>,
    /// encodings available for each name
    encs: Vec<Vec<(Enc, String)>>,
    /// configuration shape for each name
    aliases: Vec<Vec<String>>,
    scopes: Vec<Vec<(String, Option<u16>)>>,
    style: Vec<u8>,
    redirects: Vec<(String, String, bool)>,
    globs: Vec<Glob>,
}
fn plan(r: &mut Rng, max: usize, redirects: bool) -> Plan {
    let mut names: Vec<String> = vec![];
    let n = r.range(1, max);
    while names.len() < n {
        let p = if r.chance(1, 5) { r.pick(ODD_PATHS) } else { r.pick(PATHS) }.to_string();
        if !names.contains(&p) {
            names.push(p);
        }
    }
    let mut urls: Vec<String> = URLS.iter().map(|x| x.to_string()).collect();
    urls.push("/".into());
    urls.retain(|u| !names.iter().any(|n| format!("/{}", n.trim_start_matches('/')) == *u));
    r.shuffle(&mut urls);
    let mut scopes: Vec<String> = SCOPES.iter().map(|x| x.to_string()).collect();
    r.shuffle(&mut scopes);
    let mut p = Plan { encs: vec![], aliases: vec![], scopes: vec![], style: vec![], redirects: vec![], globs: vec![], names };
    for i in 0..n {
        let mut es = vec![];
        for e in ENCS.iter().take(4) {
            if r.chance(1, 3) {
                es.push((*e, if r.chance(1, 6) { format!(".{e}-x") } else { ext(e) }));
            }
        }
        if r.chance(1, 10) {
            es.push(("identity", String::new()));
        }
        if r.chance(1, 3) {
            r.shuffle(&mut es);
        }
        if p.names[i].is_empty() || p.names[i].ends_with('/') {
            es.clear();
        }
        p.encs.push(es);
        // 0, 1: file; 2: pattern; 3: none
        let st = *r.pick(&[0, 0, 0, 0, 1, 2, 3]);
        p.style.push(st);
        let (na, ns) = if st <= 1 { (r.below(3), *r.pick(&[0, 0, 1, 1, 2, 3])) } else { (0, 0) };
        p.aliases.push((0..na).filter_map(|_| urls.pop()).collect());
        p.scopes.push((0..ns).filter_map(|_| scopes.pop()).map(|s| (s, status(r))).collect());
    }
    if redirects {
        for _ in 0..r.below(3) {
            if let Some(f) = urls.pop() {
                let to = r.pick(&["/new", "/", "https://example.com/x?y=1", "new", ""]).to_string();
                p.redirects.push((f, to, r.bool()));
            }
        }
    }
    // catch-all patterns come last and serve whoever has no configuration of their own
    let ascii: Vec<String> = p.names.iter().filter(|n| !n.is_empty() && !n.ends_with('/') && n.is_ascii() && glob_safe(n)).cloned().collect();
    if p.names.iter().all(|n| n.is_ascii()) && !ascii.is_empty() && r.bool() {
        for _ in 0..r.range(1, 3) {
            let n = r.pick(&ascii).clone();
            p.globs.push(Glob::Of(glob_from(r, &n)));
        }
    }
    if r.chance(1, 3) {
        let g = match r.below(4) {
            0 => Glob::Suffix(".js".into()),
            1 => Glob::Suffix(".css".into()),
            2 => Glob::Dir(r.pick(&["a", "js", "docs"]).to_string()),
            _ => Glob::All,
        };
        p.globs.push(g);
    }
    p
}
fn glob_safe(p: &str) -> bool {
    !p.is_empty() && !p.contains(['*', '?', '[', ']', '{', '}', '\\', '<', '>'])
}
/// One release of (some of) the planned names.
fn release(r: &mut Rng, p: &Plan, which: &[usize], with_redirects: bool, big: &mut usize) -> (Vec<AssetDef>, Vec<Cfg>) {
    let mut assets = vec![];
    let mut cfgs = vec![];
    let mut body = |r: &mut Rng| {
        if *big > 0 && r.chance(1, 2) {
            *big -= 1;
            big_body(r)
        } else {
            small_body(r)
        }
    };
    for &i in which {
        let name = &p.names[i];
        assets.push(AssetDef { path: name.clone(), content: body(r) });
        for (e, x) in &p.encs[i] {
            if *e != "identity" && r.chance(4, 5) {
                assets.push(AssetDef { path: format!("{name}{x}"), content: body(r) });
            }
        }
        let ct = if r.chance(2, 3) { Some(r.pick(&["text/html", "text/javascript", "application/json; charset=utf-8", ""]).to_string()) } else { None };
        let headers = site_headers(r);
        match p.style[i] {
            0 | 1 => cfgs.push(Cfg::File { path: name.clone(), ct, headers, scopes: p.scopes[i].clone(), aliases: p.aliases[i].clone(), encs: p.encs[i].clone() }),
            2 if glob_safe(name) => {
                let glob = if r.bool() { Glob::Literal(name.clone()) } else { Glob::Either(name.clone(), "nowhere".into()) };
                cfgs.push(Cfg::Pattern { glob, ct, headers, encs: p.encs[i].clone() })
            }
            _ => {}
        }
    }
    r.shuffle(&mut cfgs);
    for g in &p.globs {
        let headers = site_headers(r);
        let mut es: Vec<Enc> = ENCS[..4].to_vec();
        r.shuffle(&mut es);
        es.truncate(*r.pick(&[0, 0, 1, 1, 2, 4]));
        let ct = if r.bool() { None } else { Some("text/x-glob".to_string()) };
        cfgs.push(Cfg::Pattern { glob: g.clone(), ct, headers, encs: es.into_iter().map(|e| (e, ext(e))).collect() });
    }
    if with_redirects {
        for (f, t, k) in &p.redirects {
            let at = r.below(cfgs.len() + 1);
            cfgs.insert(at, Cfg::Redirect { from: f.clone(), to: t.clone(), permanent: *k });
        }
    }
    // a redirect takes the place of an asset of another release, and the other way round
    for i in 0..p.names.len() {
        let plain = p.names[i].bytes().all(|b| b.is_ascii_alphanumeric() || b"/._-".contains(&b));
        if !which.contains(&i) && plain && r.chance(1, 8) {
            let at = r.below(cfgs.len() + 1);
            let from = AssetDef { path: p.names[i].clone(), content: Default::default() }.url();
            cfgs.insert(at, Cfg::Redirect { from, to: "https://example.com/moved".into(), permanent: r.bool() });
        }
    }
    r.shuffle(&mut assets);
    (assets, cfgs)
}

// ------------------------------------------------------------------ driving the router

struct Desk {
    tree: Rc<RefCell<HttpCertificationTree>>,
    router: AssetRouter<'static>,
    id: Vec<u8>,
    time: u64,
    cert: Cert,
}
impl Desk {
    fn new(r: &mut Rng) -> Desk {
        let tree: Rc<RefCell<HttpCertificationTree>> = Default::default();
        let n = r.u64() % 1000;
        let mut d = Desk { router: AssetRouter::with_tree(tree.clone()), tree, id: canister_id(n), time: 1_700_000_000_000_000_000 + r.u64() % 1_000_000_000, cert: Cert { tree: T::Empty, signature: vec![], delegation: None } };
        d.certify(r);
        d
    }
    fn certify(&mut self, r: &mut Rng) {
        let root = self.router.root_hash();
        let (delegated, noise) = (r.chance(1, 5), r.below(2));
        self.cert = honest(r, &self.id, &root, self.time, delegated, noise);
    }
    fn verify(&self, req: &Req, resp: HttpResponse<'static>) -> Result<Out, String> {
        match ic_response_verification::verify_request_response_pair(real_request(req), resp, &self.id, self.time as u128, 1_000_000_000, &authority().root.der(), 2) {
            Ok(i) => Ok(out_of(&i)),
            Err(e) => Err(format!("{e}")),
        }
    }
}
fn get(r: &mut Rng, path: &str) -> Req {
    Req { method: "GET".into(), url: gen_url(r, path, None), headers: gen_headers(r, 2).into_iter().filter(|h| !["range", "accept-encoding"].contains(&h.0.to_ascii_lowercase().as_str())).collect(), body: vec![] }
}
fn lower(hs: &[(String, String)]) -> Vec<(String, String)> {
    let mut v: Vec<_> = hs.iter().map(|(k, v)| (k.to_ascii_lowercase(), v.clone())).collect();
    v.sort();
    v
}
fn plain(hs: &[(String, String)]) -> Vec<(String, String)> {
    lower(hs).into_iter().filter(|h| !["content-length", EXPR_HEADER, CERT_HEADER].iter().any(|x| x.eq_ignore_ascii_case(&h.0)) && h.0 != "content-range").collect()
}
fn one<'a>(hs: &'a [(String, String)], n: &str) -> Option<&'a str> {
    let v: Vec<_> = hs.iter().filter(|h| h.0.eq_ignore_ascii_case(n)).collect();
    if v.len() == 1 { Some(&v[0].1) } else { None }
}
/// "bytes a-b/n"
fn content_range(s: &str) -> Option<(usize, usize, usize)> {
    let (r, n) = s.strip_prefix("bytes ")?.split_once('/')?;
    let (a, b) = r.split_once('-')?;
    Some((a.parse().ok()?, b.parse().ok()?, n.parse().ok()?))
}

/// Compares one served response with the designated one, and verifies it.
/// `from`: offset the client asked to start from (0 without a range).
fn inspect(c: &mut Case, d: &Desk, req: &Req, place: &Place, u: &Unit, resp: &HttpResponse<'static>, from: usize, what: &dyn Fn() -> String) -> Option<usize> {
    let hs = resp.headers().to_vec();
    let body = resp.body().to_vec();
    c.eval();
    let whole = matches!(place, Place::Scope(_)) || u.body.len() <= ASSET_CHUNK_SIZE;
    if whole {
        if resp.status_code().as_u16() != u.status || body != **u.body {
            c.viol("wrong-response", format!("{}: served status {} with a body of {} bytes, not the designated status {} with {} bytes ({place:?})", what(), resp.status_code(), body.len(), u.status, u.body.len()));
            return None;
        }
    } else {
        let Some((a, b, n)) = one(&hs, "content-range").and_then(content_range) else {
            c.viol("no-content-range", format!("{}: part of a large asset was served as {} with {} bytes without a content-range", what(), resp.status_code(), body.len()));
            return None;
        };
        if resp.status_code().as_u16() != 206 || a != from || n != u.body.len() || b >= n || b < a || body != u.body[a..=b] {
            c.viol("wrong-chunk", format!("{}: served {} bytes {a}-{b}/{n} with {} bytes of body, for an asset of {} bytes from offset {from}", what(), resp.status_code(), body.len(), u.body.len()));
            return None;
        }
        c.obs("chunks_inspected");
    }
    if plain(&hs) != u.headers || one(&hs, "content-length") != Some(body.len().to_string().as_str()) {
        c.viol("wrong-headers", format!("{}: served headers {:?}, configured {:?}", what(), lower(&hs).into_iter().filter(|h| h.0 != "ic-certificate").collect::<Vec<_>>(), u.headers));
        return None;
    }
    match c.guard("verify_request_response_pair", || d.verify(req, resp.clone())) {
        None => return None,
        Some(Err(e)) => {
            c.viol("unverifiable", format!("{}: the served response does not verify: {e}", what()));
            return None;
        }
        Some(Ok(o)) => {
            let want = Out { version: 2, response: Some((Some(resp.status_code().as_u16()), hs.clone(), body.clone())) };
            if !same_out(&o, &want) {
                let got = o.response.map(|(s, h, b)| (s, lower(&h).into_iter().filter(|h| h.0 != "ic-certificate").collect::<Vec<_>>(), b.len()));
                c.viol("uncertified-parts", format!("{}: the served response verifies only as {got:?}", what()));
                return None;
            }
        }
    }
    c.obs("responses_verified");
    Some(body.len())
}

/// The router's own listing of its responses: exactly those of the site, chunk by chunk.
type Row = (String, Option<String>, Option<usize>);
struct Listed {
    len: usize,
    empty: bool,
    rows: Vec<(Row, usize)>,
}
fn listed<'a>(m: &'a impl AssetMap<'a>) -> Listed {
    Listed { len: m.len(), empty: m.is_empty(), rows: m.iter().map(|((p, e, at), x)| ((p.to_string(), e.map(str::to_string), at), x.body().len())).collect() }
}
fn listings(r: &AssetRouter<'static>) -> [Listed; 2] {
    // SAFETY: iterating asks for a reference as long-lived as the contents; nothing borrowed outlives this function
    let r: &'static AssetRouter<'static> = unsafe { &*(r as *const AssetRouter<'static>) };
    [listed(r.get_assets()), listed(r.get_fallback_assets())]
}
fn check_listing(c: &mut Case, d: &Desk, site: &Site, what: &dyn Fn() -> String) {
    let (mut urls, mut scopes): (BTreeMap<Row, usize>, BTreeMap<Row, usize>) = Default::default();
    for ((place, enc), u) in site {
        let e = enc.map(|e| e.to_string());
        let n = u.body.len();
        match place {
            Place::Url(x) => {
                urls.insert((x.clone(), e.clone(), None), n);
                if n > ASSET_CHUNK_SIZE {
                    for at in (0..n).step_by(ASSET_CHUNK_SIZE) {
                        urls.insert((x.clone(), e.clone(), Some(at)), ASSET_CHUNK_SIZE.min(n - at));
                    }
                }
            }
            Place::Scope(x) => {
                scopes.insert((x.clone(), e, None), n);
            }
        }
    }
    for (kind, want, Listed { len, empty, rows }) in ["assets", "fallback assets"].into_iter().zip([&urls, &scopes]).zip(listings(&d.router)).map(|((k, w), l)| (k, w, l)) {
        c.check(len == want.len() && empty == want.is_empty() && rows.len() == want.len(), "listing-size", || format!("the router counts {len} {kind} (empty: {empty}, iterated: {}), expected {} after {}", rows.len(), want.len(), what()));
        let got: BTreeMap<Row, usize> = rows.into_iter().collect();
        c.check(got == *want, "listing-rows", || format!("the router lists the {kind} {got:?}, expected {want:?} after {}", what()));
    }
    c.obs("listings_compared");
}

fn interesting(r: &mut Rng, site: &Site) -> String {
    let keys: Vec<&Key> = site.keys().collect();
    let base = match r.below(8) {
        0 => gen_path(r),
        1 => r.pick(URLS).to_string(),
        2 => format!("/{}", r.pick(PATHS).trim_start_matches('/')),
        _ if keys.is_empty() => "/".into(),
        _ => match &r.pick(&keys).0 {
            Place::Url(u) => u.clone(),
            Place::Scope(s) => match r.below(4) {
                0 => s.clone(),
                1 if !s.ends_with('/') => format!("{s}x"),
                _ => format!("{}/{}", s.trim_end_matches('/'), r.pick(&["x", "x/y", "x y/é.html", "", "index.html", "a/b/c/d/e/f"])),
            },
        },
    };
    match r.below(10) {
        0 if base.len() > 1 && base.ends_with('/') => base[..base.len() - 1].to_string(),
        0 if !base.ends_with('/') => format!("{base}/"),
        1 => format!("{}/{}", base.trim_end_matches('/'), r.pick(&["x", "b"])),
        _ => base,
    }
}
/// the verifier and the router have no settled common meaning for repeated slashes,
/// and a scope with a trailing slash may or may not cover the directory itself
fn settled(site: &Site, path: &str) -> bool {
    !path.contains("//") && !(site.keys().any(|k| matches!(&k.0, Place::Scope(s) if s.ends_with('/') && s.len() > 1 && s[..s.len() - 1] == *path)))
}

/// After deleting some variants, what is left of the most specific place may be nothing the client can decode.
fn only_unacceptable(site: &Site, path: &str, accept: &[Enc]) -> bool {
    for p in places_for(path) {
        let variants: Vec<Option<Enc>> = site.keys().filter(|k| k.0 == p).map(|k| k.1).collect();
        if !variants.is_empty() {
            return !variants.iter().any(|v| v.map_or(true, |e| accept.contains(&e)));
        }
    }
    false
}

fn ask(c: &mut Case, r: &mut Rng, d: &Desk, site: &Site, path: &str, accept: &[Enc], log: &[String]) {
    let mut req = get(r, path);
    if !accept.is_empty() {
        let mut a: Vec<String> = accept.iter().map(|x| x.to_string()).collect();
        r.shuffle(&mut a);
        let (name, sep) = (recase(r, "accept-encoding"), *r.pick(&[",", ", "]));
        req.headers.push((name, a.join(sep)));
    }
    let what = || format!("GET {} accepting {accept:?} after {}", req.url, log.join("; "));
    let got = match c.guard("serve_asset", || d.router.serve_asset(&d.cert.cbor(), &real_request(&req))) {
        Some(x) => x,
        None => return,
    };
    if !settled(site, path) {
        c.obs("open: unsettled path");
        return;
    }
    if only_unacceptable(site, path, accept) {
        c.obs("open: the most specific place has no acceptable variant");
        return;
    }
    match (designated(site, path, accept), got) {
        (None, Err(_)) => {
            c.eval();
            c.obs("nothing_configured_nothing_served");
        }
        (None, Ok(x)) => c.viol("served-nothing-configured", format!("{}: nothing is configured for {path}, but a response of {} bytes was served", what(), x.body().len())),
        (Some((k, _)), Err(e)) => c.viol("not-served", format!("{}: {k:?} is configured, but: {e}", what())),
        (Some((k, u)), Ok(x)) => {
            if inspect(c, d, &req, &k.0, u, &x, 0, &what).is_some() {
                c.obs(match k {
                    (Place::Scope(_), Some(_)) => "fallback_encoded",
                    (Place::Scope(_), None) => "fallback",
                    (Place::Url(_), Some(_)) => "exact_encoded",
                    (Place::Url(_), None) if u.status >= 300 => "redirect",
                    (Place::Url(_), None) => "exact",
                });
                c.nontrivial(format!("{k:?}{path}{:?}{}", u.headers, u.body.len()).as_bytes());
            }
        }
    }
}
fn some_encs(r: &mut Rng) -> Vec<Enc> {
    let mut v: Vec<Enc> = ENCS.iter().copied().filter(|_| r.chance(1, 3)).collect();
    if r.chance(1, 4) {
        v = ENCS.to_vec();
    }
    v
}

// ---------------------------------------------------------------- C17

fn c17_sites(c: &mut Case) {
    let mut r = c.rng.clone();
    let p = plan(&mut r, 7, true);
    let all: Vec<usize> = (0..p.names.len()).collect();
    let mut big = if r.chance(1, 40) { 1 } else { 0 };
    let (assets, cfgs) = release(&mut r, &p, &all, true, &mut big);
    let Ok(site) = expand(&assets, &cfgs) else {
        c.obs("open: one place with two owners");
        return;
    };
    let mut d = Desk::new(&mut r);
    // the tree may be shared with the canister's own certifications
    let foreign = if r.chance(1, 4) {
        let mut es: Vec<Entry> = gen_world(&mut r).entries.into_iter().filter(|e| matches!(&e.pat, Pat::Exact(u) if !site.contains_key(&(Place::Url(u.clone()), None)))).take(2).collect();
        for e in es.iter_mut() {
            e.pat = Pat::Exact(format!("/api/v1{}", match &e.pat { Pat::Exact(u) | Pat::Wild(u) => u.clone() }));
            library_spelling(e);
            if let Ok(x) = real_entry(e) {
                d.tree.borrow_mut().insert(&x);
            }
        }
        es.len()
    } else {
        0
    };
    let log = vec![format!("certify {:?} with {cfgs:?}{}", assets.iter().map(|a| format!("{}:{}", a.path, a.content.len())).collect::<Vec<_>>(), if foreign > 0 { " beside other certifications" } else { "" })];
    c.sample(|| log[0].clone());
    match c.guard("certify_assets", || d.router.certify_assets(assets.iter().map(|a| a.real()), cfgs.iter().map(|x| x.real()))) {
        None => return,
        Some(Err(e)) => return c.viol("certify", format!("{}: {e}", log[0])),
        Some(Ok(())) => {}
    }
    d.certify(&mut r);
    for _ in 0..8 {
        let path = interesting(&mut r, &site);
        if path.starts_with("/api") {
            continue;
        }
        let acc = some_encs(&mut r);
        ask(c, &mut r, &d, &site, &path, &acc, &log);
    }
    // the router lists what it certified
    check_listing(c, &d, &site, &|| log[0].clone());
    let want = site.iter().filter(|(k, u)| matches!(k.0, Place::Url(_)) && u.body.len() <= ASSET_CHUNK_SIZE);
    for ((p, e), u) in want {
        let Place::Url(url) = p else { continue };
        let got = d.router.get_assets().get(url.clone(), e.map(real_enc), None).map(|x| (x.status_code().as_u16(), plain(x.headers()), x.body().to_vec()));
        c.check(got == Some((u.status, u.headers.clone(), u.body.as_ref().clone())), "listed", || format!("{}: the router's listing of {url} {e:?} is not what was certified", log[0]));
    }
    for ((p, e), u) in site.iter() {
        let Place::Scope(s) = p else { continue };
        let got = d.router.get_fallback_assets().get(s.clone(), e.map(real_enc), None).map(|x| (x.status_code().as_u16(), plain(x.headers()), x.body().to_vec()));
        c.check(got == Some((u.status, u.headers.clone(), u.body.as_ref().clone())), "listed", || format!("{}: the router's listing of scope {s} {e:?} is not what was certified", log[0]));
    }
}

/// Known finding: requests with a query string. Kept apart, as every such response fails.
fn c17_query(c: &mut Case) {
    let mut r = c.rng.clone();
    let p = plan(&mut r, 3, true);
    let all: Vec<usize> = (0..p.names.len()).collect();
    let (assets, cfgs) = release(&mut r, &p, &all, true, &mut 0);
    let Ok(site) = expand(&assets, &cfgs) else { return };
    let mut d = Desk::new(&mut r);
    if !matches!(c.guard("certify_assets", || d.router.certify_assets(assets.iter().map(|a| a.real()), cfgs.iter().map(|x| x.real()))), Some(Ok(()))) {
        return;
    }
    d.certify(&mut r);
    for ((place, enc), u) in site.iter().take(4) {
        let path = match place {
            Place::Url(u) => u.clone(),
            Place::Scope(_) => continue,
        };
        let q = r.pick(&["", "v=1", "a=b&c=d", "utm_source=x", "x"]).to_string();
        let mut req = Req { method: "GET".into(), url: gen_url(&mut r, &path, None), headers: enc.iter().map(|e| ("accept-encoding".to_string(), e.to_string())).collect(), body: vec![] };
        let Some(Ok(x)) = c.guard("serve_asset", || d.router.serve_asset(&d.cert.cbor(), &real_request(&req))) else { continue };
        if !matches!(c.guard("verify_request_response_pair", || d.verify(&req, x)), Some(Ok(_))) {
            continue; // judged by the other workload
        }
        req.url = format!("{}?{q}", req.url);
        let what = || format!("GET {} of {place:?}", req.url);
        match c.guard("serve_asset", || d.router.serve_asset(&d.cert.cbor(), &real_request(&req))) {
            None => {}
            Some(Err(e)) => c.viol("query-not-served", format!("{}: {e}", what())),
            Some(Ok(x)) => {
                c.check(x.status_code().as_u16() == u.status && *x.body() == u.body[..], "query-wrong-response", || format!("{}: not the designated response", what()));
                match c.guard("verify_request_response_pair", || d.verify(&req, x)) {
                    Some(Ok(_)) => c.obs("query_verified"),
                    Some(Err(e)) => c.viol("query-string", format!("{}: the response does not verify: {e}", what())),
                    None => {}
                }
            }
        }
    }
}

pub const C17: Property = Property {
    id: "C17",
    rule: "one (site, request) pair: the response served is compared with the one the documented rules designate, then verified; distinct by place, path and content",
    assumptions: &["each url, alias, scope and redirect has one owner", "GET requests without a query string", "no repeated slashes in paths"],
    must_observe: &["exact", "exact_encoded", "fallback", "fallback_encoded", "redirect", "nothing_configured_nothing_served", "responses_verified", "listings_compared"],
    workloads: &[
        Workload { name: "sites", f: c17_sites, quick: 6_000, thorough: 300_000 },
        Workload { name: "query", f: c17_query, quick: 50, thorough: 1_000 },
    ],
};

// ---------------------------------------------------------------- C18

struct Old {
    req: Req,
    pat: Pat,
    place: Place,
    resp: Resp,
}
fn still_live(site: &Site, o: &Old) -> bool {
    site.iter().any(|(k, u)| {
        k.0 == o.place
            && u.headers == plain(&o.resp.headers)
            && (u.status == o.resp.status && **u.body == o.resp.body
                // a chunk, told from a whole body that is configured to be served as 206
                || o.resp.status == 206
                    && u.body.len() > ASSET_CHUNK_SIZE
                    && one(&o.resp.headers, "content-range").and_then(content_range).is_some_and(|(a, b, n)| n == u.body.len() && b < n && u.body[a..=b] == o.resp.body[..]))
    })
}

fn c18_history(c: &mut Case) {
    let mut r = c.rng.clone();
    let p = plan(&mut r, 4, true);
    let mut d = Desk::new(&mut r);
    // the tree may be shared with the canister's own certifications, which stay whatever happens to the assets
    let mut foreign: Vec<Entry> = vec![];
    if r.chance(1, 3) {
        for mut e in gen_world(&mut r).entries.into_iter().take(3) {
            e.pat = Pat::Exact(format!("/api/v1{}", match &e.pat { Pat::Exact(u) | Pat::Wild(u) => u.clone() }));
            library_spelling(&mut e);
            if let Ok(x) = real_entry(&e) {
                d.tree.borrow_mut().insert(&x);
                foreign.push(e);
            }
        }
        d.certify(&mut r);
    }
    let empty_root = d.router.root_hash();
    let mut site = Site::new();
    let mut ever: BTreeSet<Key> = BTreeSet::new();
    // what has been certified and is not (wholly) deleted: per release
    let mut releases: Vec<(Vec<AssetDef>, Vec<Cfg>)> = vec![];
    let mut old: Vec<Old> = vec![];
    let mut log: Vec<String> = vec![];
    let mut big = if r.chance(1, 12) { 2 } else { 0 };
    for step in 0..r.range(2, 7) {
        let names = |a: &[AssetDef]| a.iter().map(|a| format!("{}:{}", a.path, a.content.len())).collect::<Vec<_>>().join(" ");
        let op = if releases.is_empty() { 9 } else { r.below(12) };
        let before = d.router.root_hash();
        match op {
            0 => {
                if c.guard("delete_all_assets", || d.router.delete_all_assets()).is_none() {
                    return;
                }
                site.clear();
                log.push("delete all".into());
                c.obs("delete_all");
            }
            1..=5 => {
                // delete a release, wholly or partly, or with other content
                let i = r.below(releases.len());
                let (mut assets, cfgs) = releases[i].clone();
                let mode = r.below(6);
                let mut cfgs = cfgs;
                match mode {
                    0 if assets.len() > 1 => {
                        let k = r.below(assets.len());
                        assets.remove(k);
                    }
                    1 => {
                        cfgs.retain(|c| !matches!(c, Cfg::Redirect { .. }));
                    }
                    2 => {
                        let k = r.below(assets.len());
                        assets[k].content = small_body(&mut r);
                    }
                    3 => {
                        for x in cfgs.iter_mut() {
                            if let Cfg::File { encs, .. } = x {
                                if !encs.is_empty() {
                                    let k = r.below(encs.len());
                                    encs.remove(k);
                                }
                            }
                        }
                    }
                    _ => {}
                }
                let Ok(gone) = expand(&assets, &cfgs) else {
                    c.obs("open: one place with two owners");
                    return;
                };
                match c.guard("delete_assets", || d.router.delete_assets(assets.iter().map(|a| a.real()), cfgs.iter().map(|x| x.real()))) {
                    None => return,
                    Some(Err(e)) => return c.viol("delete", format!("deleting {} after {}: {e}", names(&assets), log.join("; "))),
                    _ => {}
                }
                let n = site.len();
                for k in gone.keys() {
                    site.remove(k);
                }
                log.push(format!("delete {} with {cfgs:?}", names(&assets)));
                if n == site.len() {
                    let after = d.router.root_hash();
                    c.check(before == after, "delete-nothing", || format!("deleting what is not certified changed the root hash: {}", log.join("; ")));
                    c.obs("deleted_nothing");
                }
                c.obs("deletions");
            }
            _ => {
                let which: Vec<usize> = (0..p.names.len()).filter(|_| r.chance(2, 3)).collect();
                let which = if which.is_empty() { vec![r.below(p.names.len())] } else { which };
                let wr = r.chance(1, 3);
                let (assets, cfgs) = release(&mut r, &p, &which, wr, &mut big);
                let Ok(add) = expand(&assets, &cfgs) else {
                    c.obs("open: one place with two owners");
                    return;
                };
                match c.guard("certify_assets", || d.router.certify_assets(assets.iter().map(|a| a.real()), cfgs.iter().map(|x| x.real()))) {
                    None => return,
                    Some(Err(e)) => return c.viol("certify", format!("certifying {} after {}: {e}", names(&assets), log.join("; "))),
                    _ => {}
                }
                for (k, u) in add {
                    ever.insert(k.clone());
                    if site.insert(k, u.clone()).is_some_and(|o| o != u) {
                        c.obs("replaced");
                    }
                }
                log.push(format!("certify {} with {cfgs:?}", names(&assets)));
                releases.push((assets, cfgs));
                c.obs("certifications");
            }
        }
        if site.is_empty() {
            let h = d.router.root_hash();
            c.check(h == empty_root, "empty", || format!("everything was deleted, but the root hash is not the empty one's: {}", log.join("; ")));
            c.obs("emptied");
        }
        d.certify(&mut r);
        check_listing(c, &d, &site, &|| log.join("; "));
        for e in &foreign {
            let Ok(x) = real_entry(e) else { continue };
            let path = match &e.pat { Pat::Exact(u) | Pat::Wild(u) => u.clone() };
            let w = c.guard("witness", || d.tree.borrow().witness(&x, &path).is_ok());
            c.check(w == Some(true), "foreign", || format!("a certification the router has nothing to do with is gone after {}", log.join("; ")));
            c.obs("foreign_kept");
        }
        // what is there is served; what was served is remembered
        let keys: Vec<Key> = site.keys().cloned().collect();
        let n = if step == 0 { 6 } else { 4 };
        for _ in 0..n.min(keys.len()) {
            let (place, enc) = r.pick(&keys).clone();
            let path = match &place {
                Place::Url(u) => u.clone(),
                Place::Scope(s) => format!("{}/zz", s.trim_end_matches('/')),
            };
            let acc: Vec<Enc> = enc.into_iter().collect();
            ask(c, &mut r, &d, &site, &path, &acc, &log);
            let mut req = get(&mut r, &path);
            if let Some(e) = enc {
                req.headers.push(("accept-encoding".into(), e.to_string()));
            }
            if r.chance(1, 3) {
                if let Some(u) = site.get(&(place.clone(), enc)) {
                    if u.body.len() > ASSET_CHUNK_SIZE {
                        req.headers.push(("range".into(), format!("bytes={ASSET_CHUNK_SIZE}-")));
                    }
                }
            }
            if let Some(Ok(x)) = c.guard("serve_asset", || d.router.serve_asset(&d.cert.cbor(), &real_request(&req))) {
                let Some(k) = designated(&site, &path, &acc).map(|x| x.0.clone()) else { continue };
                let pat = match &k.0 {
                    Place::Url(u) => Pat::Exact(u.clone()),
                    Place::Scope(s) => Pat::Wild(s.clone()),
                };
                let resp = Resp { status: x.status_code().as_u16(), headers: x.headers().iter().filter(|h| !h.0.eq_ignore_ascii_case(CERT_HEADER)).cloned().collect(), body: x.body().to_vec() };
                if old.len() < 14 {
                    old.push(Old { req, pat, place: k.0, resp });
                }
            }
        }
        for _ in 0..3 {
            let path = interesting(&mut r, &site);
            let acc = some_encs(&mut r);
            ask(c, &mut r, &d, &site, &path, &acc, &log);
        }
        // responses of the past, offered with the best witness the current tree can give
        for o in &old {
            if still_live(&site, o) {
                continue;
            }
            let Some(text) = o.resp.headers.iter().find(|h| h.0.eq_ignore_ascii_case(EXPR_HEADER)).map(|h| h.1.clone()) else { continue };
            let Meaning::Is(cel) = meaning(&text) else {
                c.viol("expression", format!("the router serves an expression that is not one: {text}"));
                continue;
            };
            let e = Entry { pat: o.pat.clone(), cel, text, req: o.req.clone(), resp: o.resp.clone() };
            let Ok(re) = real_entry(&e) else { continue };
            let path = request_path(&o.req.url).unwrap();
            let Some(Ok(wit)) = c.guard("witness", || d.tree.borrow().witness(&re, &path)) else { continue };
            let mut resp = real_response(&o.resp);
            add_v2_certificate_header(&d.cert.cbor(), &mut resp, &wit, &o.pat.expr_path());
            let Some(v) = c.guard("verify_request_response_pair", || d.verify(&o.req, resp)) else { return };
            c.check(v.is_err(), "stale", || format!("a response that was deleted or replaced still verifies: {:?} {} with {} bytes; {}", o.place, o.resp.status, o.resp.body.len(), log.join("; ")));
            c.obs("stale_refused");
        }
    }
    if r.chance(1, 3) {
        c18_failing(c, &mut r, &mut d, &p, &mut site, &empty_root, &mut ever, &mut log);
    }
    for k in &ever {
        let Place::Url(u) = &k.0 else { continue };
        let got = d.router.get_assets().get(u.clone(), k.1.map(real_enc), None).is_some();
        c.check(got == site.contains_key(k), "listing", || format!("the router {} {k:?} after {}", if got { "still lists" } else { "does not list" }, log.join("; ")));
    }
    c.nontrivial(log.join(";").as_bytes());
    c.sample(|| log.join("; "));
}

pub const C18: Property = Property {
    id: "C18",
    rule: "one history of certifying, re-certifying and deleting parts of a site, with served and formerly served responses verified after each step; distinct by history",
    assumptions: &["each url, alias, scope and redirect has one owner", "GET requests without a query string"],
    must_observe: &["certifications", "deletions", "replaced", "deleted_nothing", "emptied", "stale_refused", "delete_all", "foreign_kept", "responses_verified", "chunks_inspected", "listings_compared"],
    workloads: &[Workload { name: "history", f: c18_history, quick: 1_500, thorough: 60_000 }],
};

// ---------------------------------------------------------------- C19

/// Calls that fail: refused configurations have no effect at all, and a certification that fails
/// on the way leaves nothing that is served and cannot be verified, or that deleting does not reach.
#[allow(clippy::too_many_arguments)]
fn c18_failing(c: &mut Case, r: &mut Rng, d: &mut Desk, p: &Plan, site: &mut Site, empty_root: &[u8; 32], ever: &mut BTreeSet<Key>, log: &mut Vec<String>) {
    let all: Vec<usize> = (0..p.names.len()).collect();
    let mut big = 0;
    let (assets, cfgs) = release(r, p, &all, true, &mut big);
    let broken = *r.pick(&["[", "{a,b", "a[b-", "[z-a]", "**/[!", "a{b,{c}"]);
    let at = r.below(cfgs.len() + 1);
    let with_broken = || {
        let mut v: Vec<AssetConfig> = cfgs.iter().map(|x| x.real()).collect();
        v.insert(at, AssetConfig::Pattern { pattern: broken.into(), content_type: None, headers: vec![], encodings: vec![] });
        v
    };
    let deleting = r.bool();
    let before = d.router.root_hash();
    let got = c.guard("certify or delete with a broken pattern", || {
        let assets = assets.iter().map(|a| a.real());
        if deleting { d.router.delete_assets(assets, with_broken()) } else { d.router.certify_assets(assets, with_broken()) }
    });
    match got {
        None => return,
        Some(x) => c.check(x.is_err(), "broken-pattern", || format!("the pattern {broken} was taken after {}", log.join("; "))),
    };
    log.push(format!("refused {} with the pattern {broken}", if deleting { "deletion" } else { "certification" }));
    c.check(d.router.root_hash() == before, "refused-effect", || format!("a refused call changed the root hash: {}", log.join("; ")));
    check_listing(c, d, site, &|| log.join("; "));
    c.obs("refused_calls");

    // the header the router itself adds makes one of the responses impossible to certify
    let files: Vec<usize> = (0..cfgs.len()).filter(|i| matches!(&cfgs[*i], Cfg::File { .. })).collect();
    if files.is_empty() {
        return;
    }
    let k = *r.pick(&files);
    let mut bad = cfgs.clone();
    if let Cfg::File { headers, .. } = &mut bad[k] {
        let name = recase(r, EXPR_HEADER);
        headers.push((name, "x".into()));
    }
    let got = c.guard("certify_assets", || d.router.certify_assets(assets.iter().map(|a| a.real()), bad.iter().map(|x| x.real())));
    let Some(got) = got else { return };
    if got.is_ok() {
        // (allowed, if what is served then verifies)
        c.obs("second_expression_taken");
    } else {
        c.obs("failed_on_the_way");
    }
    log.push(format!("certify with {bad:?} ({})", if got.is_ok() { "taken" } else { "failed" }));
    d.certify(r);
    let [urls, scopes] = listings(&d.router);
    let rows: Vec<(bool, Row, usize)> = urls.rows.into_iter().map(|(x, n)| (false, x, n)).chain(scopes.rows.into_iter().map(|(x, n)| (true, x, n))).collect();
    let held: BTreeSet<Place> = rows.iter().map(|(f, x, _)| if *f { Place::Scope(x.0.clone()) } else { Place::Url(x.0.clone()) }).collect();
    for (fallback, (path, enc, _), _) in rows.into_iter().filter(|x| x.1 .2.is_none()) {
        let place = if fallback { Place::Scope(path.clone()) } else { Place::Url(path.clone()) };
        let path = if fallback { format!("{}/zz", path.trim_end_matches('/')) } else { path };
        // only the most specific place for the path has to answer
        if path.contains("//") || !path.starts_with('/') || places_for(&path).into_iter().find(|x| held.contains(x)) != Some(place) {
            continue;
        }
        let mut req = get(r, &path);
        if let Some(e) = &enc {
            req.headers.push(("accept-encoding".into(), e.clone()));
        }
        let what = || format!("GET {} accepting {enc:?} after {}", req.url, log.join("; "));
        let Some(x) = c.guard("serve_asset", || d.router.serve_asset(&d.cert.cbor(), &real_request(&req))) else { return };
        match x {
            Err(e) => c.viol("listed-not-served", format!("{}: {e}", what())),
            Ok(x) => {
                // a place with no acceptable variant at all is left open, as everywhere
                let own = one(x.headers(), "content-encoding").map(str::to_string) == enc;
                match c.guard("verify_request_response_pair", || d.verify(&req, x.clone())) {
                    None => return,
                    Some(v) if own => {
                        c.check(v.is_ok(), "unverifiable-after-failure", || format!("{}: {v:?}", what()));
                        c.obs("verified_after_failure");
                    }
                    _ => c.obs("open: another variant was served"),
                }
            }
        }
    }
    if r.bool() {
        // deleting all of it leaves nothing behind
        if c.guard("delete_all_assets", || d.router.delete_all_assets()).is_none() {
            return;
        }
        log.push("delete all".into());
        site.clear();
        ever.clear();
        c.check(d.router.root_hash() == *empty_root, "empty-after-failure", || format!("everything was deleted, but the root hash is not the empty one's: {}", log.join("; ")));
        check_listing(c, d, site, &|| log.join("; "));
        c.obs("emptied_after_failure");
    } else {
        // certifying again, properly, makes up for the failure
        let Ok(add) = expand(&assets, &cfgs) else { return };
        match c.guard("certify_assets", || d.router.certify_assets(assets.iter().map(|a| a.real()), cfgs.iter().map(|x| x.real()))) {
            None => return,
            Some(Err(e)) => return c.viol("certify", format!("certifying after {}: {e}", log.join("; "))),
            _ => {}
        }
        log.push(format!("certify with {cfgs:?}"));
        d.certify(r);
        let keys: Vec<Key> = add.keys().cloned().collect();
        for _ in 0..3.min(keys.len()) {
            let (place, enc) = r.pick(&keys).clone();
            let Place::Url(path) = &place else { continue };
            let acc: Vec<Enc> = enc.into_iter().collect();
            ask(c, r, d, &add, path, &acc, log);
            c.obs("served_after_recovery");
        }
        ever.clear();
    }
}

struct Large {
    d: Desk,
    site: Site,
    log: Vec<String>,
}
/// A site with one asset of the given sizes: unencoded, and per encoding.
fn large_site(c: &mut Case, r: &mut Rng, with_fallback: bool) -> Option<Large> {
    let size = |r: &mut Rng, thorough: bool| -> usize {
        let k = if r.chance(1, 8) { 0 } else { r.range(1, if thorough { 6 } else { 3 }) };
        let n = ASSET_CHUNK_SIZE * k;
        match r.below(9) {
            0 | 1 => n + 1,
            2 => n + 2,
            3 if n > 0 => n - 1,
            4 => n + ASSET_CHUNK_SIZE / 2,
            5 => n + ASSET_CHUNK_SIZE - 1,
            6 => n + r.below(ASSET_CHUNK_SIZE),
            _ => n,
        }
    };
    let bytes = |r: &mut Rng, n: usize| {
        let mut x = r.u64() | 1;
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            v.extend_from_slice(&(x >> 11).to_le_bytes());
        }
        v.truncate(n);
        Rc::new(v)
    };
    let name = r.pick(&["big.bin", "video/long movie.mp4", "a", "docs/", "é/big.js", "what?x=1.bin", ""]).to_string();
    let mut assets = vec![];
    let n = size(r, c.thorough);
    assets.push(AssetDef { path: name.clone(), content: bytes(r, n) });
    let mut encs = vec![];
    if !name.is_empty() && !name.ends_with('/') {
        for e in ENCS.iter().take(4) {
            if r.chance(1, 6) {
                encs.push((*e, ext(e)));
                let n = size(r, false);
                assets.push(AssetDef { path: format!("{name}{}", ext(e)), content: bytes(r, n) });
            }
        }
    }
    let ct = if r.bool() { Some("application/octet-stream".to_string()) } else { None };
    let mut cfgs = vec![match r.below(3) {
        0 => Cfg::Pattern { glob: Glob::All, ct, headers: site_headers(r), encs },
        _ => Cfg::File { path: name.clone(), ct, headers: site_headers(r), scopes: vec![], aliases: if r.chance(1, 3) { vec!["/alias of it".into()] } else { vec![] }, encs },
    }];
    if with_fallback {
        assets.push(AssetDef { path: "fallback.html".into(), content: small_body(r) });
        cfgs.insert(0, Cfg::File { path: "fallback.html".into(), ct: None, headers: vec![], scopes: vec![("/".into(), None)], aliases: vec![], encs: vec![] });
    }
    r.shuffle(&mut assets);
    let site = expand(&assets, &cfgs).ok()?;
    let mut d = Desk::new(r);
    let log = vec![format!("certify {:?} with {cfgs:?}", assets.iter().map(|a| format!("{}:{}", a.path, a.content.len())).collect::<Vec<_>>())];
    match c.guard("certify_assets", || d.router.certify_assets(assets.iter().map(|a| a.real()), cfgs.iter().map(|x| x.real()))) {
        None => return None,
        Some(Err(e)) => {
            c.viol("certify", format!("{}: {e}", log[0]));
            return None;
        }
        Some(Ok(())) => {}
    }
    d.certify(r);
    Some(Large { d, site, log })
}

/// A range header that is not well-formed, often by little.
fn malformed_range(r: &mut Rng) -> String {
    // units in another case, suffixes and several ranges are well-formed, whether they are served is open
    fn well_formed(s: &str) -> bool {
        let s = s.trim();
        let Some(list) = s.get(..6).filter(|u| u.eq_ignore_ascii_case("bytes=")).map(|_| &s[6..]) else { return false };
        let number = |s: &str| -> Option<Option<u64>> {
            match s {
                "" => Some(None),
                s if s.bytes().all(|b| b.is_ascii_digit()) => Some(Some(s.parse().ok()?)),
                _ => None,
            }
        };
        list.split(',').all(|x| {
            let Some((a, b)) = x.trim().split_once('-') else { return false };
            match (number(a), number(b)) {
                (Some(Some(a)), Some(b)) => b.map_or(true, |b| a <= b),
                (Some(None), Some(Some(_))) => true,
                _ => false,
            }
        })
    }
    if r.chance(1, 3) {
        return r.pick(&["bytes=", "bytes=x-", "bytes=5", "items=0-", "bytes 0-", "bytes=9-5", "bytes=2000000-1999999", "bytes=2000000-x", "bytes=99999999999999999999999999-", "bytes=1-2-3", "0-5", "bytes=--", "bytes=2000000", "bytes=bytes=0-", "bytes=+0-", "bytes=0-+9"]).to_string();
    }
    loop {
        let a = *r.pick(&[0, 1, 9, ASSET_CHUNK_SIZE - 1, ASSET_CHUNK_SIZE, 2 * ASSET_CHUNK_SIZE]);
        let mut s = if r.bool() { format!("bytes={a}-") } else { format!("bytes={a}-{}", a + r.below(99)) };
        for _ in 0..r.range(1, 3) {
            let at = r.below(s.len() + 1);
            match r.below(3) {
                0 if s.is_char_boundary(at) => s.insert_str(at, *r.pick(&["+", "-", "=", "bytes=", "bytes", " ", ",", "x", "_", ".", "e", "%", "0x", "\u{661}", "*", ";"])),
                1 if at < s.len() && s.is_char_boundary(at) && s.is_char_boundary(at + 1) => drop(s.remove(at)),
                _ => {
                    let to = r.range(at, s.len());
                    if s.is_char_boundary(at) && s.is_char_boundary(to) {
                        let piece = s[at..to].to_string();
                        s.insert_str(at, &piece);
                    }
                }
            }
        }
        if !well_formed(&s) {
            return s;
        }
    }
}

fn c19_follow(c: &mut Case) {
    let mut r = c.rng.clone();
    let fb = r.chance(1, 3);
    let Some(l) = large_site(c, &mut r, fb) else { return };
    c.sample(|| l.log[0].clone());
    let urls: BTreeSet<String> = l.site.keys().filter_map(|k| if let Place::Url(u) = &k.0 { Some(u.clone()) } else { None }).collect();
    let urls: Vec<String> = urls.into_iter().collect();
    for _ in 0..2 {
        crate::PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let url = r.pick(&urls).clone();
        let acc = some_encs(&mut r);
        let Some((k, u)) = designated(&l.site, &url, &acc) else { continue };
        let total = u.body.len();
        let mut whole: Vec<u8> = vec![];
        let mut next = 0;
        let mut steps = 0;
        loop {
            let mut req = get(&mut r, &url);
            if !acc.is_empty() {
                req.headers.push((recase(&mut r, "accept-encoding"), acc.join(", ")));
            }
            if next > 0 {
                let at = r.below(req.headers.len() + 1);
                let n = recase(&mut r, "range");
                req.headers.insert(at, (n, format!("bytes={next}-")));
            }
            let what = || format!("GET {} from {next} accepting {acc:?} after {}", req.url, l.log[0]);
            let resp = match c.guard("serve_asset", || l.d.router.serve_asset(&l.d.cert.cbor(), &real_request(&req))) {
                None => return,
                Some(Err(e)) => return c.viol("chunk-missing", format!("{}: {e}", what())),
                Some(Ok(x)) => x,
            };
            if inspect(c, &l.d, &req, &k.0, u, &resp, next, &what).is_none() {
                return;
            }
            whole.extend_from_slice(resp.body());
            steps += 1;
            let hs = resp.headers().to_vec();
            // a chunk is the answer to the request it was made for, and to no other
            if one(&hs, "content-range").is_some() && r.chance(1, 3) {
                let mut other = req.clone();
                other.headers.retain(|h| !h.0.eq_ignore_ascii_case("range"));
                let m = r.below(total / ASSET_CHUNK_SIZE + 2) * ASSET_CHUNK_SIZE;
                let m = if m == next { next + ASSET_CHUNK_SIZE } else { m };
                if m > 0 {
                    other.headers.push((recase(&mut r, "range"), format!("bytes={m}-")));
                }
                let Some(v) = c.guard("verify_request_response_pair", || l.d.verify(&other, resp.clone())) else { return };
                c.check(v.is_err(), "chunk-of-another-range", || format!("the chunk from {next} verifies as the answer to a request from {m}: {}", what()));
                c.obs("chunks_refused_elsewhere");
            }
            match one(&hs, "content-range").and_then(content_range) {
                Some((_, b, n)) if b + 1 < n => next = b + 1,
                _ => break,
            }
            if steps > 64 || whole.len() > total {
                break;
            }
        }
        c.check(whole == **u.body, "reassembly", || format!("{url} {:?}: {} bytes were put together from {steps} responses, the asset has {total}; {}", k.1, whole.len(), l.log[0]));
        c.obs(if steps > 1 { "reassembled_from_chunks" } else { "served_whole" });
        if k.1.is_some() && steps > 1 {
            c.obs("encoded_reassembled");
        }
        c.nontrivial(format!("{url}{:?}{total}", k.1).as_bytes());
        // nothing comes of a malformed range; an asset in one piece is served whole whatever the range
        for _ in 0..3 {
            let bad = malformed_range(&mut r);
            let mut req = get(&mut r, &url);
            req.headers.push(("Range".into(), bad.clone()));
            if let Some(x) = c.guard("serve_asset", || l.d.router.serve_asset(&l.d.cert.cbor(), &real_request(&req))) {
                c.check(x.is_err(), "malformed-range", || format!("GET {} with range {bad:?} is answered {:?}; {}", req.url, x.map(|y| (y.status_code(), y.body().len())), l.log[0]));
                c.obs("malformed_refused");
            }
        }
        if total <= ASSET_CHUNK_SIZE {
            let ok = match r.below(4) {
                0 => "bytes=0-".to_string(),
                1 => format!("bytes=0-{}", r.below(total + 1)),
                2 => format!("bytes={}-", r.below(total + 2)),
                _ => format!("bytes={ASSET_CHUNK_SIZE}-"),
            };
            let mut req = get(&mut r, &url);
            if !acc.is_empty() {
                req.headers.push(("accept-encoding".into(), acc.join(", ")));
            }
            req.headers.push(("range".into(), ok.clone()));
            let what = || format!("GET {} with range {ok:?} accepting {acc:?} after {}", req.url, l.log[0]);
            match c.guard("serve_asset", || l.d.router.serve_asset(&l.d.cert.cbor(), &real_request(&req))) {
                None => return,
                Some(Err(e)) => c.viol("whole-not-served", format!("{}: {e}", what())),
                Some(Ok(x)) => {
                    if inspect(c, &l.d, &req, &k.0, u, &x, 0, &what).is_some() {
                        c.obs("whole_despite_range");
                    }
                }
            }
        }
        // the listing knows the chunks by their offsets
        let listed = |at: Option<usize>| l.d.router.get_assets().get(url.clone(), k.1.map(real_enc), at).map(|x| x.body().to_vec());
        let mut at = 0;
        while total > ASSET_CHUNK_SIZE && at < total {
            let end = (at + ASSET_CHUNK_SIZE).min(total);
            let got = listed(Some(at));
            c.check(got.as_deref() == Some(&u.body[at..end]), "listed-chunk", || format!("the listing of {url} {:?} from {at} is not that part of the asset; {}", k.1, l.log[0]));
            at = end;
        }
        c.check(listed(None).as_deref() == Some(&u.body[..]) && listed(Some(at.max(ASSET_CHUNK_SIZE))).is_none() && (total > ASSET_CHUNK_SIZE || listed(Some(0)).is_none()), "listed-whole", || format!("the listing of {url} {:?} is not the asset; {}", k.1, l.log[0]));
    }
}

/// Known finding: ranges that no response can be certified for. Kept apart, as every such response fails.
fn c19_forms(c: &mut Case) {
    let mut r = c.rng.clone();
    let fb = r.chance(1, 3);
    let Some(l) = large_site(c, &mut r, fb) else { return };
    for (k, u) in l.site.iter() {
        let Place::Url(url) = &k.0 else { continue };
        if u.body.len() <= ASSET_CHUNK_SIZE {
            continue;
        }
        let n = u.body.len();
        let kind = r.below(6);
        let any = r.range(1, n);
        let range = match kind {
            0 => "bytes=0-".to_string(),
            1 => format!("bytes=0-{}", ASSET_CHUNK_SIZE - 1),
            2 => format!("bytes={ASSET_CHUNK_SIZE}-{}", n - 1),
            3 => format!("bytes={}-", *r.pick(&[1, 2, ASSET_CHUNK_SIZE - 1, ASSET_CHUNK_SIZE + 1, n - 1, any, any])),
            4 => format!("bytes={n}-"),
            _ => format!("bytes=0{ASSET_CHUNK_SIZE}-"),
        };
        let mut req = get(&mut r, url);
        if let Some(e) = k.1 {
            req.headers.push(("accept-encoding".into(), e.to_string()));
        }
        req.headers.push(("range".into(), range.clone()));
        let Some(x) = c.guard("serve_asset", || l.d.router.serve_asset(&l.d.cert.cbor(), &real_request(&req))) else { continue };
        match x {
            Err(_) => c.obs("range_refused"),
            Ok(x) => {
                // the listed finding does not cover parts served for a start that no part has
                let key = if (kind == 3 || kind == 4) && one(x.headers(), "content-range").is_some() { "range-unaligned" } else { "range-form" };
                // whatever is served has to be true to its own description, verifiable or not
                let hs = x.headers().to_vec();
                if let Some((a, b, t)) = one(&hs, "content-range").and_then(content_range) {
                    let named = one(&hs, "content-encoding").and_then(|n| ENCS.iter().copied().find(|e| *e == n));
                    let Some(u) = l.site.get(&(k.0.clone(), named)) else {
                        c.viol("untrue-encoding", format!("GET {url} with range {range}: served as {named:?}, of which there is no variant"));
                        continue;
                    };
                    let n = u.body.len();
                    c.check(t == n && a <= b && b < n && *x.body() == u.body[a..=b], "untrue-range", || format!("GET {url} with range {range}: bytes {a}-{b}/{t} are not those"));
                }
                match c.guard("verify_request_response_pair", || l.d.verify(&req, x)) {
                    Some(Err(e)) => c.viol(key, format!("GET {url} with range {range}: the response does not verify: {e}")),
                    Some(Ok(_)) => c.obs("range_verified"),
                    None => {}
                }
            }
        }
    }
}

pub const C19: Property = Property {
    id: "C19",
    rule: "one download: the ranges announced by the responses are followed to the end, every response is verified and the concatenation compared; distinct by url, encoding and size",
    assumptions: &["GET requests without a query string", "the client follows with `bytes=N-`, N the end of what it has"],
    must_observe: &["reassembled_from_chunks", "served_whole", "encoded_reassembled", "malformed_refused", "whole_despite_range", "chunks_inspected", "chunks_refused_elsewhere"],
    workloads: &[
        Workload { name: "follow", f: c19_follow, quick: 1_000, thorough: 8_000 },
        Workload { name: "forms", f: c19_forms, quick: 100, thorough: 1_000 },
    ],
};

// ---------------------------------------------------------------- C20

#[derive(Debug)]
struct Accept {
    /// explicitly acceptable
    yes: BTreeSet<Enc>,
    /// explicitly unacceptable
    no: BTreeSet<Enc>,
    star: Option<bool>,
    /// the text leaves the answer open in part
    open: bool,
}
/// What an accept-encoding text says, read independently of the router (RFC 9110, 12.5.3).
fn read_accept(text: &str) -> Accept {
    let mut a = Accept { yes: BTreeSet::new(), no: BTreeSet::new(), star: None, open: false };
    for item in text.split(',') {
        let mut parts = item.split(';').map(|x| x.trim_matches([' ', '\t']));
        let name = parts.next().unwrap_or("").to_ascii_lowercase();
        let mut q = true;
        for p in parts {
            let Some((k, v)) = p.split_once('=') else {
                a.open = true;
                continue;
            };
            if !k.eq_ignore_ascii_case("q") {
                a.open = true;
                continue;
            }
            let ok = {
                let (i, f) = v.split_once('.').unwrap_or((v, ""));
                f.len() <= 3 && f.bytes().all(|x| x.is_ascii_digit()) && (i == "0" || (i == "1" && f.bytes().all(|x| x == b'0')))
            };
            if !ok {
                a.open = true;
            } else {
                q = v.bytes().any(|x| (b'1'..=b'9').contains(&x));
            }
        }
        if name == "*" {
            a.star = Some(q);
            continue;
        }
        if let Some(e) = ENCS.iter().find(|e| **e == name) {
            let set = if q { &mut a.yes } else { &mut a.no };
            set.insert(*e);
        }
    }
    if a.yes.intersection(&a.no).next().is_some() {
        a.open = true;
    }
    a
}
fn gen_accept(r: &mut Rng) -> String {
    if r.chance(1, 30) {
        return r.pick(&["", " ", ",", ";", "br;q", "br;q=", "gzip;q=abc", "br;level=4", ";q=0", "identity;q=0", "*;q=0", "gzip;q=0.0000", "br;q=2", "br;q=-1", "deflate, gzip;q=1.0, *;q=0.5", "gzip;q=nan", "br;;q=0"]).to_string();
    }
    let mut out: Vec<String> = vec![];
    let mut names: Vec<&str> = ENCS.to_vec();
    names.extend(["*", "compress", "x-gzip", "brotli", "gzi", "gzipped", "b r", "zstd2", "BR ", "exi"]);
    for _ in 0..*r.pick(&[1, 1, 2, 2, 3, 4, 6]) {
        let known = r.chance(4, 5);
        let n = if known { *r.pick(ENCS) } else { *r.pick(&names) };
        let n = if r.chance(1, 5) { recase(r, n) } else { n.to_string() };
        let q = if r.chance(1, 2) { String::new() } else { let sp = *r.pick(&["", "", " ", "  ", "\t"]); format!("{}{}{}={}", *r.pick(&[";", ";", " ;", " ; "]), sp, *r.pick(&["q", "q", "Q"]), *r.pick(&["0", "0.0", "0.000", "0.001", "1", "1.0", "0.5", "0.8", "0.25", "1.000", "0.", "0.01"])) };
        out.push(format!("{n}{q}"));
    }
    let sep = *r.pick(&[",", ", ", " , ", ",,", ",\t"]);
    let mut s = out.join(sep);
    if r.chance(1, 12) {
        s = format!(" {s} ");
    }
    s
}

fn c20_negotiate(c: &mut Case) {
    let mut r = c.rng.clone();
    // one asset with any set of variants, under a path, an alias and a fallback scope
    let name = r.pick(&["index.html", "js/app.js", "a", "my file.txt"]).to_string();
    let mut encs = vec![];
    let mut assets = vec![AssetDef { path: name.clone(), content: small_body(&mut r) }];
    for e in ENCS.iter().take(4) {
        if r.chance(1, 2) {
            let x = if r.chance(1, 8) { format!("-{e}") } else { ext(e) };
            if r.chance(5, 6) {
                let mut b = small_body(&mut r).as_ref().clone();
                b.extend_from_slice(e.as_bytes());
                assets.push(AssetDef { path: format!("{name}{x}"), content: Rc::new(b) });
            }
            encs.push((*e, x));
        } else if r.chance(1, 4) {
            // there is such a file, but it is no variant of the asset
            assets.push(AssetDef { path: format!("{name}{}", ext(e)), content: Rc::new(format!("not a variant {e}").into_bytes()) });
        }
    }
    if r.chance(1, 8) {
        encs.push(("identity", String::new()));
    }
    r.shuffle(&mut encs);
    let cfgs = vec![Cfg::File { path: name.clone(), ct: Some("text/html".into()), headers: site_headers(&mut r), scopes: vec![("/".into(), status(&mut r))], aliases: vec!["/alias".into()], encs }];
    let Ok(site) = expand(&assets, &cfgs) else { return };
    r.shuffle(&mut assets);
    let mut d = Desk::new(&mut r);
    let log = format!("certify {:?} with {cfgs:?}", assets.iter().map(|a| format!("{}:{}", a.path, a.content.len())).collect::<Vec<_>>());
    match c.guard("certify_assets", || d.router.certify_assets(assets.iter().map(|a| a.real()), cfgs.iter().map(|x| x.real()))) {
        None => return,
        Some(Err(e)) => return c.viol("certify", format!("{log}: {e}")),
        Some(Ok(())) => {}
    }
    d.certify(&mut r);
    let own = format!("/{name}");
    for _ in 0..12 {
        let (path, place) = match r.below(3) {
            0 => (own.clone(), Place::Url(own.clone())),
            1 => ("/alias".to_string(), Place::Url("/alias".into())),
            _ => ("/nowhere/x".to_string(), Place::Scope("/".into())),
        };
        let text = gen_accept(&mut r);
        let a = read_accept(&text);
        let mut req = get(&mut r, &path);
        let h = recase(&mut r, "accept-encoding");
        if !r.chance(1, 20) {
            let at = r.below(req.headers.len() + 1);
            req.headers.insert(at, (h, text.clone()));
        }
        let listed = req.headers.iter().any(|h| h.0.eq_ignore_ascii_case("accept-encoding"));
        let what = || format!("GET {} with accept-encoding {text:?} after {log}", req.url);
        let resp = match c.guard("serve_asset", || d.router.serve_asset(&d.cert.cbor(), &real_request(&req))) {
            None => return,
            Some(Err(e)) => {
                c.viol("not-served", format!("{}: {e}", what()));
                continue;
            }
            Some(Ok(x)) => x,
        };
        // what was served, by its own account
        let hs = resp.headers().to_vec();
        let named: Option<Enc> = match one(&hs, "content-encoding") {
            None => None,
            Some(n) => match ENCS.iter().find(|e| **e == n) {
                Some(e) => Some(e),
                None => {
                    c.viol("odd-encoding", format!("{}: served with content-encoding {n:?}", what()));
                    continue;
                }
            },
        };
        let Some(u) = site.get(&(place.clone(), named)) else {
            c.viol("uncertified-variant", format!("{}: served as {named:?}, which this asset has no variant of", what()));
            continue;
        };
        if inspect(c, &d, &req, &place, u, &resp, 0, &what).is_none() {
            continue;
        }
        c.nontrivial(format!("{text}|{named:?}|{place:?}|{}", site.len()).as_bytes());
        if !listed {
            c.check(named.is_none() || named == Some("identity"), "unasked", || format!("GET {} without accept-encoding: served as {named:?}; {log}", req.url));
            c.obs("no_header");
            continue;
        }
        let starred = |e: &Enc| a.star == Some(true) && !a.no.contains(e) && !a.yes.contains(e);
        if let Some(e) = named {
            if e != "identity" {
                c.check(a.yes.contains(e) || starred(&e) || a.open, "unacceptable", || format!("{}: served as {e}, which the client does not accept", what()));
            }
        }
        if a.open || a.star.is_some() || a.no.contains("identity") {
            c.obs("open: the header leaves the choice open");
            continue;
        }
        let best = ENCS.iter().copied().find(|e| a.yes.contains(e) && site.contains_key(&(place.clone(), Some(e))));
        c.check(named == best, "not-preferred", || format!("{}: served as {named:?}, the most preferred acceptable variant is {best:?}", what()));
        c.obs(match named {
            None if a.yes.is_empty() => "nothing_acceptable",
            None => "no_such_variant",
            Some("br") => "served_br",
            Some("zstd") => "served_zstd",
            Some("gzip") => "served_gzip",
            Some("deflate") => "served_deflate",
            Some(_) => "served_identity",
        });
        if !a.no.is_empty() {
            c.obs("with_refused_encodings");
        }
    }
    c.sample(|| log.clone());
}

pub const C20: Property = Property {
    id: "C20",
    rule: "one (site, accept-encoding text) pair: the served variant is identified by its body and headers, verified, and compared with an independent reading of the text; distinct by text, place and variants",
    assumptions: &["one accept-encoding header", "wildcards, malformed quality values, contradicting repetitions and a refused identity leave the choice open, but never to an explicitly refused encoding"],
    must_observe: &["served_br", "served_zstd", "served_gzip", "served_deflate", "served_identity", "no_such_variant", "nothing_acceptable", "no_header", "with_refused_encodings"],
    workloads: &[Workload { name: "negotiate", f: c20_negotiate, quick: 4_000, thorough: 200_000 }],
};
