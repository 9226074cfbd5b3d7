//! Drives the certification library the way a canister does, for a given world.
use crate::cert::*;
use crate::rng::Rng;
use crate::spec::*;
use crate::world::*;
use ic_http_certification::{
    cel::{create_cel_expr, create_default_cel_expr, DefaultRequestCertification, create_default_full_cel_expr, create_default_response_only_cel_expr},
    utils::add_v2_certificate_header, CelExpression, DefaultCelBuilder, DefaultCelExpression, DefaultFullCelExpression, DefaultResponseCertification, DefaultResponseOnlyCelExpression, HttpCertification, HttpCertificationError,
    HttpCertificationPath, HttpCertificationTree, HttpCertificationTreeEntry,
};

fn strs(v: &[String]) -> Vec<&str> {
    v.iter().map(|s| s.as_str()).collect()
}
pub fn real_rule(r: &RespRule) -> DefaultResponseCertification<'_> {
    match r {
        RespRule::Include(h) => DefaultResponseCertification::certified_response_headers(strs(h)),
        RespRule::Exclude(h) => DefaultResponseCertification::response_header_exclusions(strs(h)),
    }
}
pub fn real_full<'a>(headers: &'a [String], query: &'a [String], resp: &'a RespRule) -> DefaultFullCelExpression<'a> {
    DefaultCelBuilder::full_certification().with_request_headers(strs(headers)).with_request_query_parameters(strs(query)).with_response_certification(real_rule(resp)).build()
}
pub fn real_resp_only(r: &RespRule) -> DefaultResponseOnlyCelExpression<'_> {
    DefaultCelBuilder::response_only_certification().with_response_certification(real_rule(r)).build()
}
pub fn real_text(c: &Cel) -> String {
    match c {
        Cel::Skip => DefaultCelBuilder::skip_certification().to_string(),
        Cel::RespOnly(r) => real_resp_only(r).to_string(),
        Cel::Full { headers, query, resp } => real_full(headers, query, resp).to_string(),
    }
}
/// The same text by the library's other ways of writing it.
pub fn real_texts(c: &Cel) -> Vec<String> {
    let d = match c {
        Cel::Skip => DefaultCelExpression::Skip,
        Cel::RespOnly(r) => DefaultCelExpression::ResponseOnly(real_resp_only(r)),
        Cel::Full { headers, query, resp } => DefaultCelExpression::Full(real_full(headers, query, resp)),
    };
    let mut v = vec![d.to_string(), create_default_cel_expr(&d), CelExpression::Default(d.clone()).to_string(), create_cel_expr(&CelExpression::Default(d.clone()))];
    match (c, &d) {
        (Cel::RespOnly(RespRule::Include(h)), _) if h.is_empty() => v.push(DefaultCelBuilder::response_only_certification().build().to_string()),
        (Cel::RespOnly(r), DefaultCelExpression::ResponseOnly(x)) => {
            v.push(create_default_response_only_cel_expr(x));
            v.push(create_default_response_only_cel_expr(&DefaultResponseOnlyCelExpression { response: real_rule(r) }));
        }
        (Cel::Full { headers, query, resp }, DefaultCelExpression::Full(x)) => {
            v.push(create_default_full_cel_expr(x));
            let b = DefaultCelBuilder::full_certification().with_response_certification(real_rule(resp));
            let b = if query.is_empty() { b } else { b.with_request_query_parameters(strs(query)) };
            let b = if headers.is_empty() { b } else { b.with_request_headers(strs(headers)) };
            v.push(b.build().to_string());
            let request = DefaultRequestCertification::new(strs(headers), strs(query));
            v.push(DefaultFullCelExpression { request, response: real_rule(resp) }.to_string());
        }
        _ => {}
    }
    v
}
pub fn real_certification(c: &Cel, req: &Req, resp: &Resp) -> Result<HttpCertification, HttpCertificationError> {
    match c {
        Cel::Skip => Ok(HttpCertification::skip()),
        Cel::RespOnly(r) => HttpCertification::response_only(&real_resp_only(r), &real_response(resp), None),
        Cel::Full { headers, query, resp: rr } => HttpCertification::full(&real_full(headers, query, rr), &real_request(req), &real_response(resp), None),
    }
}
pub fn real_path(p: &Pat) -> HttpCertificationPath<'static> {
    match p {
        Pat::Exact(s) => HttpCertificationPath::exact(s.clone()),
        Pat::Wild(s) => HttpCertificationPath::wildcard(s.clone()),
    }
}
pub fn real_entry(e: &Entry) -> Result<HttpCertificationTreeEntry<'static>, HttpCertificationError> {
    Ok(HttpCertificationTreeEntry::new(real_path(&e.pat), real_certification(&e.cel, &e.req, &e.resp)?))
}
/// Rewrites an entry so that its expression is spelled the way the library's builder spells it.
pub fn library_spelling(e: &mut Entry) {
    let t = real_text(&e.cel);
    for h in e.resp.headers.iter_mut() {
        if h.0.eq_ignore_ascii_case(EXPR_HEADER) {
            h.1 = t.clone();
        }
    }
    e.text = t;
}

/// A canister that keeps its certification in the library's tree.
pub struct Canister {
    pub w: World,
    pub tree: HttpCertificationTree,
}
impl Canister {
    pub fn new(r: &mut Rng, mut entries: Vec<Entry>) -> Result<Canister, String> {
        for e in entries.iter_mut() {
            library_spelling(e);
        }
        let mut tree = HttpCertificationTree::default();
        for e in &entries {
            tree.insert(&real_entry(e).map_err(|x| format!("cannot certify {e:?}: {x}"))?);
        }
        let w = build_world(r, entries);
        let mut c = Canister { w, tree };
        c.certify(r);
        Ok(c)
    }
    /// A certificate for the current state of the tree.
    pub fn certify(&mut self, r: &mut Rng) {
        let (delegated, noise) = (r.chance(1, 4), r.below(3));
        self.w.cert = honest(r, &self.w.id, &self.tree.root_hash(), self.w.time, delegated, noise);
    }
    /// Adds the library's certificate header for `e`, for a request of `path`.
    pub fn header_for(&self, e: &Entry, path: &str, resp: &Resp) -> Result<(T, String), String> {
        let entry = real_entry(e).map_err(|x| format!("{x}"))?;
        let wit = self.tree.witness(&entry, path).map_err(|x| format!("{x}"))?;
        let mut rr = real_response(resp);
        add_v2_certificate_header(&self.w.cert.cbor(), &mut rr, &wit, &entry.path.to_expr_path());
        let h = rr.headers().last().cloned().ok_or("no header was added")?;
        if !h.0.eq_ignore_ascii_case(CERT_HEADER) {
            return Err(format!("the header added is {}", h.0));
        }
        Ok((from_real(&wit), h.1))
    }
}
