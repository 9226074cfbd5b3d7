//! Representation-independent hashing, request/response hashing, HTTP types, tree histories.
use super::http::{interesting_path, judge, Mode};
use crate::api::*;
use crate::case::Case;
use crate::cert::*;
use crate::rng::Rng;
use crate::spec::*;
use crate::world::*;
use crate::{Property, Workload};
use candid::{CandidType, Decode, Encode};
use ic_http_certification::{
    cel::DefaultRequestCertification, filter_response_headers, request_hash as real_request_hash, response_hash as real_response_hash, response_headers_hash, DefaultResponseCertification, HttpCertificationTree,
    HttpRequest, HttpResponse, HttpUpdateRequest, HttpUpdateResponse, Method, StatusCode,
};
use ic_representation_independent_hash::{hash, representation_independent_hash, Value};

// ---------------------------------------------------------------- C11

fn gen_num(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => 0,
        1 => u64::MAX,
        2 => {
            let k = 7 * r.range(1, 9) as u32;
            (1u64 << k).wrapping_sub(r.below(2) as u64)
        }
        3 => r.below(300) as u64,
        _ => r.u64() >> r.below(64),
    }
}
fn gen_str(r: &mut Rng) -> String {
    if r.chance(1, 150) {
        let n = *r.pick(&[255, 256, 1024, 4096, 65_535, 65_536, 65_537]);
        return "q".repeat(n) + &r.below(10).to_string();
    }
    match r.below(5) {
        0 => String::new(),
        1 => r.pick(&["a", "A", "é", "日本", "\u{0}", "name", ":ic-cert-status"]).to_string(),
        2 => {
            let n = r.below(200);
            "z".repeat(n)
        }
        _ => {
            let n = r.range(1, 10);
            (0..n).map(|_| (32 + r.below(95)) as u8 as char).collect()
        }
    }
}
fn gen_v(r: &mut Rng, d: usize) -> V {
    match r.below(if d == 0 { 3 } else { 4 }) {
        0 => V::Str(gen_str(r)),
        1 => V::Num(gen_num(r)),
        2 => {
            let n = if r.chance(1, 100) { *r.pick(&[255, 256, 1024, 65_536, 70_000]) } else { *r.pick(&[0, 1, 31, 32, 33, 64, 100]) };
            V::Bytes(r.bytes(n))
        }
        _ => {
            let n = if r.chance(1, 60) { r.range(5, 40) } else { r.below(4) };
            V::Arr((0..n).map(|_| gen_v(r, d - 1)).collect())
        }
    }
}
fn real_v(v: &V) -> Value {
    match v {
        V::Str(s) => Value::String(s.clone()),
        V::Num(n) => Value::Number(*n),
        V::Bytes(b) => Value::Bytes(b.clone()),
        V::Arr(x) => Value::Array(x.iter().map(real_v).collect()),
    }
}
fn real_map(m: &[(String, V)]) -> Vec<(String, Value)> {
    m.iter().map(|(k, v)| (k.clone(), real_v(v))).collect()
}

fn c11_maps(c: &mut Case) {
    let mut r = c.rng.clone();
    for _ in 0..10 {
        let n = if r.chance(1, 100) { *r.pick(&[33, 64, 100, 256, 300]) } else { *r.pick(&[0, 1, 2, 3, 5, 8, 20]) };
        let d = if r.chance(1, 50) { 12 } else { 3 };
        let mut m: Vec<(String, V)> = (0..n)
            .map(|_| {
                let k = gen_str(&mut r);
                (k, gen_v(&mut r, d))
            })
            .collect();
        if n > 1 && r.bool() {
            let i = r.below(n);
            let k = m[i].0.clone();
            let v = if r.bool() { m[i].1.clone() } else { gen_v(&mut r, 2) };
            m.push((k, v));
        }
        let Some(h) = c.guard("representation_independent_hash", || representation_independent_hash(&real_map(&m))) else { return };
        c.nontrivial(format!("{m:?}").as_bytes());
        c.sample(|| format!("{m:?}"));
        c.check(h == ri_hash(&m), "value", || format!("hash of {m:?} is {h:02x?}, the specification says {:02x?}", ri_hash(&m)));
        // order of the fields does not matter
        let mut p = m.clone();
        r.shuffle(&mut p);
        let hp = representation_independent_hash(&real_map(&p));
        c.check(h == hp, "order", || format!("hash changed when the fields of {m:?} were reordered to {p:?}"));
        c.obs("reorderings");
        // every change of content does
        if !m.is_empty() {
            let i = r.below(m.len());
            let mut q = m.clone();
            match r.below(4) {
                0 => {
                    q.remove(i);
                }
                1 => q[i].0.push('!'),
                2 => {
                    let x = q[i].clone();
                    q.push(x);
                }
                _ => {
                    q[i].1 = match &q[i].1 {
                        V::Num(n) => V::Num(n ^ (1 << r.below(64))),
                        V::Str(s) => V::Str(format!("{s} ")),
                        V::Bytes(b) => {
                            let mut b = b.clone();
                            if b.is_empty() {
                                b.push(0);
                            } else {
                                let k = r.below(b.len());
                                b[k] ^= 1 << r.below(8);
                            }
                            V::Bytes(b)
                        }
                        V::Arr(a) => {
                            let mut a = a.clone();
                            if a.len() > 1 && hash_value(&a[0]) != hash_value(&a[1]) && r.bool() {
                                a.swap(0, 1);
                            } else {
                                a.push(V::Num(0));
                            }
                            V::Arr(a)
                        }
                    };
                }
            }
            let hq = representation_independent_hash(&real_map(&q));
            c.check(h != hq, "collision", || format!("{m:?} and {q:?} have the same hash"));
            c.obs("content_changes");
        }
        let n = if r.chance(1, 100) { *r.pick(&[65_535, 65_536, 65_537, 300_000]) } else { *r.pick(&[0, 1, 55, 56, 63, 64, 65, 1000]) };
        let b = r.bytes(n);
        let hb = hash(&b);
        c.check(hb == sha(&[&b]), "sha256", || format!("hash of {} bytes is not SHA-256", b.len()));
    }
}

pub const C11: Property = Property {
    id: "C11",
    rule: "one map of names to (nested) values hashed by the real code and by the reference; distinct by map content",
    assumptions: &["sha2 is the trusted SHA-256 primitive"],
    must_observe: &["reorderings", "content_changes"],
    workloads: &[Workload { name: "maps", f: c11_maps, quick: 50_000, thorough: 2_000_000 }],
};

// ---------------------------------------------------------------- C12

fn strs(v: &[String]) -> Vec<&str> {
    v.iter().map(|s| s.as_str()).collect()
}

fn c12_requests(c: &mut Case) {
    let mut r = c.rng.clone();
    for _ in 0..8 {
        let path = gen_path(&mut r);
        let req = gen_req(&mut r, &path);
        let Cel::Full { headers, query, .. } = (loop {
            if let x @ Cel::Full { .. } = gen_cel(&mut r) {
                break x;
            }
        }) else {
            unreachable!()
        };
        let h = |c: &mut Case, q: &Req| -> Option<[u8; 32]> {
            let def = DefaultRequestCertification::new(strs(&headers), strs(&query));
            match c.guard("request_hash", || real_request_hash(&real_request(q), &def)) {
                Some(Ok(h)) => Some(h),
                Some(Err(e)) => {
                    c.viol("request-error", format!("request_hash failed with {e}: {q:?}"));
                    None
                }
                None => None,
            }
        };
        let Some(got) = h(c, &req) else { return };
        c.nontrivial(format!("{req:?}{headers:?}{query:?}").as_bytes());
        c.sample(|| format!("{req:?} certified headers {headers:?} query {query:?}"));
        let want = request_hash(&req, &headers, &query);
        c.check(got == want, "request-value", || format!("request hash {got:02x?} is not the specified {want:02x?} for {req:?} with headers {headers:?} and query parameters {query:?}"));
        for _ in 0..4 {
            let mut q = req.clone();
            match r.below(9) {
                0 => q.method = gen_method(&mut r),
                1 if !q.body.is_empty() && r.bool() => {
                    let i = r.below(q.body.len());
                    match r.below(3) {
                        0 => q.body[i] ^= 1 << r.below(8),
                        1 => q.body.truncate(i),
                        _ => q.body.push(0),
                    }
                }
                1 => q.body = gen_body(&mut r),
                2 | 3 => {
                    let i = r.below(q.headers.len() + 1);
                    let n = hname(&mut r);
                    let h = (recase(&mut r, n), hvalue(&mut r));
                    q.headers.insert(i, h);
                }
                4 if !q.headers.is_empty() => {
                    let n = r.below(q.headers.len());
                    q.headers.remove(n);
                }
                5 if !q.headers.is_empty() => {
                    let n = r.below(q.headers.len());
                    q.headers[n].1 = hvalue(&mut r);
                }
                6 => {
                    r.shuffle(&mut q.headers);
                    for h in q.headers.iter_mut() {
                        h.0 = recase(&mut r, &h.0);
                    }
                }
                _ => {
                    let p = if r.bool() { path.clone() } else { gen_path(&mut r) };
                    let qu = gen_query(&mut r);
                    q.url = gen_url(&mut r, &p, qu);
                }
            }
            let Some(g2) = h(c, &q) else { return };
            let w2 = request_hash(&q, &headers, &query);
            c.check((g2 == got) == (w2 == want), "request-scope", || {
                format!("the change from {req:?} to {q:?} {} the request hash, certified headers {headers:?}, query parameters {query:?}", if g2 == got { "did not change" } else { "changed" })
            });
            c.obs(if w2 == want { "uncertified_request_changes" } else { "certified_request_changes" });
        }
    }
}

fn c12_responses(c: &mut Case) {
    let mut r = c.rng.clone();
    for _ in 0..8 {
        let rule = gen_rule(&mut r);
        let cel = Cel::RespOnly(rule.clone());
        let mut resp = gen_resp(&mut r, &cel.text());
        if r.chance(1, 4) {
            resp.headers.retain(|h| !h.0.eq_ignore_ascii_case(EXPR_HEADER));
        }
        if r.chance(1, 3) {
            let i = r.below(resp.headers.len() + 1);
            resp.headers.insert(i, (recase(&mut r, CERT_HEADER), "certificate=:AAAA:".into()));
        }
        let def: DefaultResponseCertification = real_rule(&rule);
        let got = match c.guard("response_hash", || real_response_hash(&real_response(&resp), &def, None)) {
            Some(x) => x,
            None => return,
        };
        c.nontrivial(format!("{resp:?}{rule:?}").as_bytes());
        c.sample(|| format!("{resp:?} certified by {rule:?}"));
        let want = response_hash(&resp, &rule);
        c.check(got == want, "response-value", || format!("response hash {got:02x?} is not the specified {want:02x?} for {resp:?} with {rule:?}"));
        let rr = real_response(&resp);
        let f = filter_response_headers(&rr, &def);
        let hw = certified_headers(&resp, &rule);
        let lower = |v: &[(String, String)]| {
            let mut v: Vec<(String, String)> = v.iter().map(|(k, x)| (k.to_ascii_lowercase(), x.clone())).collect();
            v.sort();
            v
        };
        c.check(lower(&f.headers) == lower(&hw), "filter", || format!("certified headers {:?} are not the specified {hw:?} for {resp:?} with {rule:?}", f.headers));
        let n_cert = resp.headers.iter().filter(|h| h.0.eq_ignore_ascii_case(CERT_HEADER)).count();
        c.check(f.certificate.is_some() == (n_cert > 0), "filter-certificate", || format!("certificate header reported as {:?} for {resp:?}", f.certificate));
        let st = resp.status as u64;
        let hh = response_headers_hash(&st, &f);
        let parts = sha(&[&hh, &sha(&[&resp.body])]);
        c.check(parts == want, "headers-hash", || format!("response_headers_hash is {hh:02x?}, which does not make up the response hash of {resp:?} with {rule:?}"));
        // a body hash supplied by the caller replaces the body
        let bh = sha(&[&gen_body(&mut r)]);
        let hb = real_response_hash(&rr, &def, Some(bh));
        c.check(hb == sha(&[&hh, &bh]), "body-hash", || format!("the supplied body hash is not the one certified for {resp:?}"));
        for _ in 0..4 {
            let mut q = resp.clone();
            match r.below(8) {
                0 => q.status = *r.pick(STATUSES),
                1 if !q.body.is_empty() && r.bool() => {
                    let i = r.below(q.body.len());
                    match r.below(3) {
                        0 => q.body[i] ^= 1 << r.below(8),
                        1 => q.body.truncate(i),
                        _ => q.body.push(0),
                    }
                }
                1 => q.body = gen_body(&mut r),
                2 | 3 => {
                    let i = r.below(q.headers.len() + 1);
                    let n = hname(&mut r);
                    let h = (recase(&mut r, n), hvalue(&mut r));
                    q.headers.insert(i, h);
                }
                4 if !q.headers.is_empty() => {
                    let i = r.below(q.headers.len());
                    q.headers.remove(i);
                }
                5 if !q.headers.is_empty() => {
                    let i = r.below(q.headers.len());
                    q.headers[i].1.push('x');
                }
                6 => {
                    r.shuffle(&mut q.headers);
                    for h in q.headers.iter_mut() {
                        h.0 = recase(&mut r, &h.0);
                    }
                }
                _ => {
                    let i = r.below(q.headers.len() + 1);
                    q.headers.insert(i, (recase(&mut r, CERT_HEADER), "x".into()));
                }
            }
            let Some(g2) = c.guard("response_hash", || real_response_hash(&real_response(&q), &def, None)) else { return };
            let w2 = response_hash(&q, &rule);
            c.check((g2 == got) == (w2 == want), "response-scope", || {
                format!("the change from {resp:?} to {q:?} {} the response hash under {rule:?}", if g2 == got { "did not change" } else { "changed" })
            });
            c.obs(if w2 == want { "uncertified_response_changes" } else { "certified_response_changes" });
        }
    }
}

pub const C12: Property = Property {
    id: "C12",
    rule: "one request or response with a certification definition, hashed before and after one change; distinct by message and definition",
    assumptions: &["SHA-256 has no collisions", "header names are compared without regard to ASCII case"],
    must_observe: &["uncertified_request_changes", "certified_request_changes", "uncertified_response_changes", "certified_response_changes"],
    workloads: &[
        Workload { name: "requests", f: c12_requests, quick: 50_000, thorough: 600_000 },
        Workload { name: "responses", f: c12_responses, quick: 50_000, thorough: 600_000 },
    ],
};

// ---------------------------------------------------------------- C22

#[derive(CandidType, serde::Deserialize, Debug, PartialEq, Clone)]
struct WireReq {
    method: String,
    url: String,
    headers: Vec<(String, String)>,
    body: Vec<u8>,
    certificate_version: Option<u16>,
}
#[derive(CandidType, serde::Deserialize, Debug, PartialEq, Clone)]
struct WireResp {
    status_code: u16,
    headers: Vec<(String, String)>,
    body: Vec<u8>,
    upgrade: Option<bool>,
}
#[derive(CandidType, serde::Deserialize, Debug, PartialEq, Clone)]
struct WireUpdReq {
    method: String,
    url: String,
    headers: Vec<(String, String)>,
    body: Vec<u8>,
}
#[derive(CandidType, serde::Deserialize, Debug, PartialEq, Clone)]
struct WireUpdResp {
    status_code: u16,
    headers: Vec<(String, String)>,
    body: Vec<u8>,
}

fn c22_types(c: &mut Case) {
    let mut r = c.rng.clone();
    for _ in 0..6 {
        let path = gen_path(&mut r);
        let q = gen_req(&mut r, &path);
        let mut p = gen_resp(&mut r, "x");
        if r.chance(1, 20) {
            let n = r.range(1_000, 60_000);
            p.body = r.bytes(n);
        }
        let ver: Option<u16> = if r.bool() { Some(*r.pick(&[0, 1, 2, 255, 256, 65535])) } else { None };
        let up = *r.pick(&[None, Some(true), Some(false)]);
        c.nontrivial(format!("{q:?}{p:?}{ver:?}{up:?}").as_bytes());
        c.sample(|| format!("{q:?} {ver:?} / {p:?} {up:?}"));
        let wq = WireReq { method: q.method.clone(), url: q.url.clone(), headers: q.headers.clone(), body: q.body.clone(), certificate_version: ver };
        let wp = WireResp { status_code: p.status, headers: p.headers.clone(), body: p.body.clone(), upgrade: up };
        // what another implementation of the interface sends is what the canister sees
        let bytes = Encode!(&wq).unwrap();
        let Some(got) = c.guard("decode request", || Decode!(&bytes, HttpRequest).map_err(|e| e.to_string())) else { return };
        match got {
            Err(e) => c.viol("request-decode", format!("{wq:?} was not decoded: {e}")),
            Ok(x) => {
                let back = WireReq { method: x.method().to_string(), url: x.url().into(), headers: x.headers().to_vec(), body: x.body().to_vec(), certificate_version: x.certificate_version() };
                c.check(back == wq, "request-decode", || format!("{wq:?} was decoded as {back:?}"));
                let mut b = HttpRequest::builder().with_method(Method::from_bytes(q.method.as_bytes()).unwrap()).with_url(q.url.clone()).with_headers(q.headers.clone()).with_body(q.body.clone());
                if let Some(v) = ver {
                    b = b.with_certificate_version(v);
                }
                let built = b.clone().build();
                c.check(built == x, "request-built", || format!("the builder gave {built:?} instead of {x:?}"));
                // and the other way round
                let enc = Encode!(&built).unwrap();
                let y = Decode!(&enc, WireReq);
                c.check(matches!(&y, Ok(y) if *y == wq), "request-encode", || format!("{wq:?} was encoded as {y:?}"));
                let upd: HttpUpdateRequest = if r.bool() { built.into() } else { b.build_update() };
                let wu = WireUpdReq { method: q.method.clone(), url: q.url.clone(), headers: q.headers.clone(), body: q.body.clone() };
                let enc = Encode!(&upd).unwrap();
                let y = Decode!(&enc, WireUpdReq);
                c.check(matches!(&y, Ok(y) if *y == wu), "update-request-encode", || format!("{wu:?} was encoded as {y:?}"));
                let z = Decode!(&Encode!(&wu).unwrap(), HttpUpdateRequest);
                c.check(matches!(&z, Ok(z) if *z == upd), "update-request-decode", || format!("{wu:?} was decoded as {z:?}"));
                c.check(upd.get_path().ok() == request_path(&q.url) && upd.get_query().ok() == Some(split_url(&q.url).1), "update-url", || format!("{}: path {:?} query {:?}", q.url, upd.get_path(), upd.get_query()));
            }
        }
        let bytes = Encode!(&wp).unwrap();
        let Some(got) = c.guard("decode response", || Decode!(&bytes, HttpResponse).map_err(|e| e.to_string())) else { return };
        match got {
            Err(e) => c.viol("response-decode", format!("{wp:?} was not decoded: {e}")),
            Ok(x) => {
                let back = WireResp { status_code: x.status_code().as_u16(), headers: x.headers().to_vec(), body: x.body().to_vec(), upgrade: x.upgrade() };
                c.check(back == wp, "response-decode", || format!("{wp:?} was decoded as {back:?}"));
                let mut b = HttpResponse::builder().with_status_code(StatusCode::from_u16(p.status).unwrap()).with_headers(p.headers.clone()).with_body(p.body.clone());
                if let Some(v) = up {
                    b = b.with_upgrade(v);
                }
                let built = b.clone().build();
                let enc = Encode!(&built).unwrap();
                let y = Decode!(&enc, WireResp);
                c.check(matches!(&y, Ok(y) if *y == wp), "response-encode", || format!("{wp:?} was encoded as {y:?}"));
                let same = c.guard("debug", || format!("{built:?}").len() > 10);
                c.check(built == x && same == Some(true), "response-built", || format!("the builder gave {built:?} instead of {x:?}"));
                // unequal responses are unequal
                let mut o = x.clone();
                o.add_header(("x-more".into(), "1".into()));
                c.check(o != x && o.headers().len() == x.headers().len() + 1, "response-equality", || format!("{o:?} equals {x:?}"));
                let upd: HttpUpdateResponse = if r.bool() { built.into() } else { b.build_update() };
                let wu = WireUpdResp { status_code: p.status, headers: p.headers.clone(), body: p.body.clone() };
                let y = Decode!(&Encode!(&upd).unwrap(), WireUpdResp);
                c.check(matches!(&y, Ok(y) if *y == wu), "update-response-encode", || format!("{wu:?} was encoded as {y:?}"));
                let z = Decode!(&Encode!(&wu).unwrap(), HttpUpdateResponse);
                c.check(matches!(&z, Ok(z) if *z == upd), "update-response-decode", || format!("{wu:?} was decoded as {z:?}"));
            }
        }
        c.obs("round_trips");
        // values that are no method or status code are refused, not altered
        let bad = match r.below(4) {
            0 => String::new(),
            1 => "GET ".into(),
            2 => "é".into(),
            _ => "a b".into(),
        };
        let wq = WireReq { method: bad.clone(), ..wq };
        let x = c.guard("decode request", || Decode!(&Encode!(&wq).unwrap(), HttpRequest).is_err());
        c.check(x == Some(true), "bad-method", || format!("method {bad:?} was accepted"));
        let code = *r.pick(&[0u16, 1, 99, 1000, 65535]);
        let wp = WireResp { status_code: code, ..wp };
        let x = c.guard("decode response", || Decode!(&Encode!(&wp).unwrap(), HttpResponse).is_err());
        c.check(x == Some(true), "bad-status", || format!("status {code} was accepted"));
        c.obs("bad_values_refused");
        // url parts
        let real = HttpRequest::get(q.url.clone()).build();
        let (path, query) = (real.get_path(), real.get_query());
        c.check(path.as_ref().ok() == request_path(&q.url).as_ref(), "path", || format!("the path of {} is {path:?}, expected {:?}", q.url, request_path(&q.url)));
        c.check(query.as_ref().ok() == Some(&split_url(&q.url).1), "query", || format!("the query of {} is {query:?}, expected {:?}", q.url, split_url(&q.url).1));
        c.obs("urls");
    }
}

/// Values put together step by step, in any order and more than once, read back, changed, converted.
fn c22_builders(c: &mut Case) {
    let mut r = c.rng.clone();
    // requests
    let path = gen_path(&mut r);
    let (mut q, mut q2) = (gen_req(&mut r, &path), gen_req(&mut r, "/other"));
    // a value object keeps what it is given, malformed or empty URLs included
    for q in [&mut q, &mut q2] {
        if r.below(12) == 0 {
            q.url = (*r.pick(&["", " ", "/a b", "not a url", "/%", "/é?ü", "?", "#", "http://", "\u{0}"])).into();
        }
    }
    let odd = |u: &str| !u.starts_with('/') || u.contains([' ', '%', 'é', '\u{0}']) || request_path(u).is_none();
    let method = |m: &str| Method::from_bytes(m.as_bytes()).unwrap();
    let mut want = WireReq { method: "GET".into(), url: "/".into(), headers: vec![], body: vec![], certificate_version: None };
    let mut log: Vec<&str> = vec![];
    let mut b = match r.below(6) {
        0 => HttpRequest::builder(),
        k => {
            want.url = q.url.clone();
            want.method = ["GET", "POST", "PUT", "PATCH", "DELETE"][k - 1].into();
            log.push(["get", "post", "put", "patch", "delete"][k - 1]);
            match k {
                1 => HttpRequest::get(q.url.clone()),
                2 => HttpRequest::post(q.url.clone()),
                3 => HttpRequest::put(q.url.clone()),
                4 => HttpRequest::patch(q.url.clone()),
                _ => HttpRequest::delete(q.url.clone()),
            }
        }
    };
    for _ in 0..r.below(7) {
        let src = if r.bool() { &q } else { &q2 };
        match r.below(5) {
            0 => {
                b = b.with_method(method(&src.method));
                want.method = src.method.clone();
                log.push("method");
            }
            1 => {
                b = b.with_url(src.url.clone());
                want.url = src.url.clone();
                log.push("url");
            }
            2 => {
                b = b.with_headers(src.headers.clone());
                want.headers = src.headers.clone();
                log.push("headers");
            }
            3 => {
                b = b.with_body(src.body.clone());
                want.body = src.body.clone();
                log.push("body");
            }
            _ => {
                let v = *r.pick(&[0, 1, 2, 3, 255, 256, u16::MAX]);
                b = b.with_certificate_version(v);
                want.certificate_version = Some(v);
                log.push("version");
            }
        }
    }
    let read = |x: &HttpRequest| WireReq { method: x.method().to_string(), url: x.url().into(), headers: x.headers().to_vec(), body: x.body().to_vec(), certificate_version: x.certificate_version() };
    let spare = b.clone();
    let Some(x) = c.guard("build", || b.build()) else { return };
    let got = read(&x);
    c.check(got == want, "request-built", || format!("{log:?} gave {got:?} instead of {want:?}"));
    let again = spare.clone().build();
    c.check(again == x, "request-rebuilt", || format!("{log:?} built twice gave {again:?} and {x:?}"));
    let upd = spare.build_update();
    let from: HttpUpdateRequest = x.clone().into();
    let got = WireReq { method: upd.method().to_string(), url: upd.url().into(), headers: upd.headers().to_vec(), body: upd.body().to_vec(), certificate_version: want.certificate_version };
    c.check(got == want && from == upd, "update-request-built", || format!("{log:?} gave the update request {got:?} (converted: {from:?}) instead of {want:?}"));
    c.check(odd(&want.url) || upd.get_path().ok() == request_path(&want.url) && upd.get_query().ok() == Some(split_url(&want.url).1), "update-url", || format!("{}: path {:?} query {:?}", want.url, upd.get_path(), upd.get_query()));
    // a request is equal to itself only
    let mut other = WireReq { method: if r.bool() { want.method.clone() } else { q2.method.clone() }, ..want.clone() };
    match r.below(8) {
        0 => other.url = q2.url.clone(),
        1 => other.body = q2.body.clone(),
        2 => other.body.push(0),
        3 => other.certificate_version = *r.pick(&[None, Some(0), Some(1), Some(2)]),
        4 if !other.headers.is_empty() => {
            let i = r.below(other.headers.len());
            other.headers[i].1.push('1');
        }
        5 if !other.headers.is_empty() => {
            let i = r.below(other.headers.len());
            other.headers.remove(i);
        }
        6 => other.url.push('#'),
        _ => {}
    }
    let y = HttpRequest::builder().with_method(method(&other.method)).with_url(other.url.clone()).with_headers(other.headers.clone()).with_body(other.body.clone());
    let y = match other.certificate_version { Some(v) => y.with_certificate_version(v), None => y }.build();
    c.check((x == y) == (want == other), "request-equality", || format!("{x:?} and {y:?}"));
    c.nontrivial(format!("{log:?}{want:?}").as_bytes());
    c.obs("requests_built");

    // responses
    let (p, p2) = (gen_resp(&mut r, "x"), gen_resp(&mut r, "y"));
    let mut want = WireResp { status_code: 200, headers: vec![], body: vec![], upgrade: None };
    let mut log: Vec<&str> = vec![];
    let mut b = HttpResponse::builder();
    for _ in 0..r.below(7) {
        let src = if r.bool() { &p } else { &p2 };
        match r.below(5) {
            0 => {
                b = b.with_status_code(StatusCode::from_u16(src.status).unwrap());
                want.status_code = src.status;
                log.push("status");
            }
            1 => {
                b = b.with_headers(src.headers.clone());
                want.headers = src.headers.clone();
                log.push("headers");
            }
            2 => {
                b = b.with_body(src.body.clone());
                want.body = src.body.clone();
                log.push("body");
            }
            3 => {
                let v = r.bool();
                b = b.with_upgrade(v);
                want.upgrade = Some(v);
                log.push("upgrade");
            }
            _ => {
                // a response made into a builder again
                b = b.build().into();
                log.push("rebuild");
            }
        }
    }
    let read = |x: &HttpResponse| WireResp { status_code: x.status_code().as_u16(), headers: x.headers().to_vec(), body: x.body().to_vec(), upgrade: x.upgrade() };
    let Some(mut x) = c.guard("build", || b.clone().build()) else { return };
    let got = read(&x);
    c.check(got == want, "response-built", || format!("{log:?} gave {got:?} instead of {want:?}"));
    let mut upd: HttpUpdateResponse = if r.bool() { b.build_update() } else { x.clone().into() };
    for _ in 0..r.below(4) {
        let h = (hname(&mut r).to_string(), hvalue(&mut r));
        match r.below(3) {
            0 if !want.headers.is_empty() => {
                let i = r.below(want.headers.len());
                want.headers[i].1 = h.1.clone();
                x.headers_mut()[i].1 = h.1.clone();
                upd.headers_mut()[i].1 = h.1;
                log.push("headers_mut");
            }
            1 => {
                let i = r.below(want.headers.len() + 1);
                want.headers.insert(i, h.clone());
                x.headers_mut().insert(i, h.clone());
                upd.headers_mut().insert(i, h);
                log.push("headers_mut insert");
            }
            _ => {
                want.headers.push(h.clone());
                x.add_header(h.clone());
                upd.add_header(h);
                log.push("add_header");
            }
        }
    }
    let got = read(&x);
    c.check(got == want, "response-changed", || format!("{log:?} gave {got:?} instead of {want:?}"));
    let got = WireResp { status_code: upd.status_code().as_u16(), headers: upd.headers().to_vec(), body: upd.body().to_vec(), upgrade: want.upgrade };
    c.check(got == want, "update-response-built", || format!("{log:?} gave the update response {got:?} instead of {want:?}"));
    // equality: the same parts, whatever the order of the headers
    let mut other = want.clone();
    match r.below(6) {
        0 => other.status_code = p2.status,
        1 => other.body = p2.body.clone(),
        2 => other.upgrade = *r.pick(&[None, Some(true), Some(false)]),
        3 if !other.headers.is_empty() => {
            let i = r.below(other.headers.len());
            other.headers[i].1.push('1');
        }
        4 if !other.headers.is_empty() => {
            let i = r.below(other.headers.len());
            other.headers.remove(i);
        }
        _ => r.shuffle(&mut other.headers),
    }
    let y = HttpResponse::builder().with_status_code(StatusCode::from_u16(other.status_code).unwrap()).with_headers(other.headers.clone()).with_body(other.body.clone());
    let y = match other.upgrade { Some(v) => y.with_upgrade(v), None => y }.build();
    let sorted = |x: &WireResp| {
        let mut x = x.clone();
        x.headers.sort();
        x
    };
    c.check((x == y) == (sorted(&want) == sorted(&other)), "response-equality", || format!("{x:?} and {y:?}"));
    c.nontrivial(format!("{log:?}{want:?}").as_bytes());
    c.obs("responses_built");
}

pub const C22: Property = Property {
    id: "C22",
    rule: "one request and one response passed between the library's types and an independent definition of the candid interface, in both directions; distinct by content",
    assumptions: &["candid is the trusted codec"],
    must_observe: &["round_trips", "bad_values_refused", "urls", "requests_built", "responses_built"],
    workloads: &[Workload { name: "types", f: c22_types, quick: 12_000, thorough: 300_000 }, Workload { name: "builders", f: c22_builders, quick: 40_000, thorough: 600_000 }],
};

// ---------------------------------------------------------------- C25

fn c25_history(c: &mut Case) {
    let mut r = c.rng.clone();
    let mut pool = gen_world(&mut r).entries;
    pool.extend(gen_world(&mut r).entries);
    for e in pool.iter_mut() {
        library_spelling(e);
    }
    let reals: Vec<_> = match pool.iter().map(real_entry).collect::<Result<_, _>>() {
        Ok(x) => x,
        Err(e) => return c.viol("certify", format!("{e}")),
    };
    let mut tree = HttpCertificationTree::default();
    // entries with the same tree path are the same entry
    let id = |i: usize| entry_path(&pool[i]);
    let mut live: std::collections::BTreeSet<Vec<Vec<u8>>> = Default::default();
    let empty_root = tree.root_hash();
    let mut log = vec![];
    let steps = r.range(3, 14);
    for _ in 0..steps {
        let i = r.below(pool.len());
        match r.below(20) {
            0 => {
                tree.clear();
                live.clear();
                log.push("clear".to_string());
                let h = tree.root_hash();
                c.check(h == empty_root, "clear", || format!("a cleared tree has another root hash than a new one after {log:?}"));
            }
            1..=7 => {
                let e = if r.chance(1, 6) || live.is_empty() { i } else { *r.pick(&(0..pool.len()).filter(|k| live.contains(&id(*k))).collect::<Vec<_>>()) };
                if c.guard("delete", || tree.delete(&reals[e])).is_none() {
                    return;
                }
                live.remove(&id(e));
                log.push(format!("delete {:?}#{e}", pool[e].pat));
                c.obs("deletions");
            }
            8 => {
                // a copy is independent
                let mut copy = tree.clone();
                copy.clear();
                let h = tree.root_hash();
                c.check(live.is_empty() || h != empty_root, "copy", || format!("clearing a copy emptied the original: {log:?}"));
            }
            _ => {
                let was = live.contains(&id(i));
                let before = tree.root_hash();
                if c.guard("insert", || tree.insert(&reals[i])).is_none() {
                    return;
                }
                live.insert(id(i));
                log.push(format!("insert {:?}#{i}", pool[i].pat));
                let after = tree.root_hash();
                c.check(was || before != after, "insert-root", || format!("the root hash did not change after {log:?}"));
                c.obs("insertions");
            }
        }
        if live.is_empty() {
            let h = tree.root_hash();
            c.check(h == empty_root, "empty", || format!("nothing is certified after {log:?}, but the root hash is not that of an empty tree"));
        }
        // every entry's witness is anchored in the root and tells the truth
        let root = tree.root_hash();
        for (k, e) in pool.iter().enumerate() {
            let path = path_under(&mut r, &e.pat);
            let wit = match c.guard("witness", || tree.witness(&reals[k], &path)) {
                Some(Ok(w)) => from_real(&w),
                Some(Err(x)) => {
                    if !matches!(&e.pat, Pat::Wild(p) if p.ends_with('/')) {
                        c.viol("witness", format!("no witness for {:?} on {path}: {x}", e.pat));
                    }
                    continue;
                }
                None => return,
            };
            c.eval();
            if wit.digest() != root {
                c.viol("witness-root", format!("the witness for {:?} on {path} does not have the tree's root hash after {log:?}", e.pat));
                return;
            }
            let there = look_subtree(&wit, &id(k));
            if live.contains(&id(k)) {
                c.check(matches!(there, Look::Found(T::Leaf(v)) if v.is_empty()), "member", || format!("the witness for the certified entry {:?}#{k} on {path} does not show it: {there:?}; {log:?}", e.pat));
                c.obs("members_proved");
            } else {
                c.check(there == Look::Absent, "non-member", || format!("the witness for {:?}#{k} on {path}, which is not certified, says {there:?}; {log:?}", e.pat));
                c.obs("absences_proved");
            }
        }
    }
    c.nontrivial(format!("{log:?}").as_bytes());
    c.sample(|| format!("{log:?}"));
    // at the end of the history the survivors, and only they, are served
    let entries: Vec<Entry> = (0..pool.len()).filter(|k| live.contains(&id(*k))).map(|k| pool[k].clone()).collect();
    if entries.is_empty() {
        return;
    }
    let w = build_world(&mut r, entries);
    let mut can = Canister { w, tree };
    can.certify(&mut r);
    let mut cels = can.w.cels.clone();
    cels.extend(pool.iter().map(|e| (e.text.clone(), e.cel.clone())));
    for _ in 0..3 {
        let path = interesting_path(&mut r, &can.w);
        if let Some(mut h) = serve(&mut r, &can.w, &path, false) {
            let e = can.w.entries[h.entry].clone();
            if let Some(Ok((t, raw))) = c.guard("witness", || can.header_for(&e, &path, &h.resp)) {
                h.tree = t;
                h.raw = Some(raw);
                h.log.push(format!("{log:?}"));
                if judge(c, &h, &cels, Mode::Both) == Some(false) {
                    c.viol("served", format!("a certified entry was not accepted after {log:?}: {}", describe(&h)));
                }
                c.obs("survivors_served");
            }
        }
        let k = r.below(pool.len());
        let e = pool[k].clone();
        let path = path_under(&mut r, &e.pat);
        if let Some(Ok((t, raw))) = c.guard("witness", || can.header_for(&e, &path, &e.resp)) {
            let (_, q) = split_url(&e.req.url);
            let s = Served {
                req: Req { url: gen_url(&mut r, &path, q), ..e.req.clone() },
                resp: e.resp.clone(),
                cert: can.w.cert.clone(),
                tree: t,
                expr: e.pat.expr_path(),
                version: Some("2".into()),
                entry: 0,
                raw: Some(raw),
                extra: vec![],
                pos: 0,
                name: CERT_HEADER.into(),
                canister: can.w.id.clone(),
                now: can.w.now,
                offset: can.w.offset,
                root_der: authority().root.der(),
                min_version: 2,
                odd: false,
                log: log.clone(),
            };
            let got = judge(c, &s, &cels, Mode::Both);
            if !live.contains(&id(k)) {
                c.check(got != Some(true), "deleted-served", || format!("an entry that is not certified any more was accepted: {}", describe(&s)));
                c.obs("deleted_refused");
            }
        }
    }
}

pub const C25: Property = Property {
    id: "C25",
    rule: "one history of insertions, deletions and clearings of a certification tree, with every known entry's witness checked after each step; distinct by history",
    assumptions: &["SHA-256 has no collisions"],
    must_observe: &["insertions", "deletions", "members_proved", "absences_proved", "survivors_served", "deleted_refused"],
    workloads: &[Workload { name: "history", f: c25_history, quick: 3_000, thorough: 150_000 }],
};

// ---------------------------------------------------------------- C27

const MALFORMED_URLS: &[&str] = &["", "/a b", "http://[::1", "/\u{7f}", "http://", "/a\nb"];

/// An entry of one path, its expression header replaced, repeated or removed, and what should come of it.
fn c27_create(c: &mut Case) {
    let mut r = c.rng.clone();
    let mut made: Vec<(Vec<Vec<u8>>, ic_http_certification::HttpCertification)> = vec![];
    let path = gen_path(&mut r);
    let pat = if r.bool() { Pat::Exact(path.clone()) } else { Pat::Wild(path.clone()) };
    let (mut cel, mut req, mut resp) = (gen_cel(&mut r), gen_req(&mut r, &path), gen_resp(&mut r, "x"));
    for _ in 0..6 {
        // keep some parts of the previous round
        match r.below(5) {
            0 => cel = gen_cel(&mut r),
            1 => req = gen_req(&mut r, &path),
            2 => resp = gen_resp(&mut r, "x"),
            3 => {
                if let Some(h) = resp.headers.iter_mut().find(|h| !h.0.eq_ignore_ascii_case(EXPR_HEADER)) {
                    h.1.push('1');
                }
            }
            _ => {}
        }
        let text = real_text(&cel);
        resp.headers.retain(|h| !h.0.eq_ignore_ascii_case(EXPR_HEADER));
        let mut ok = true;
        let values: Vec<String> = match r.below(12) {
            0 => vec![],
            1 => vec![text.clone(), text.clone()],
            2 => {
                // white space and the like make it another text
                let mut at: Vec<usize> = text.char_indices().map(|x| x.0).collect();
                at.push(text.len());
                let i = match r.below(4) {
                    0 => 0,
                    1 => text.len(),
                    _ => *r.pick(&at),
                };
                let mut t = text.clone();
                t.insert(i, *r.pick(&[' ', '\t', 'x', '"', '\n', '\0', '\u{a0}']));
                vec![t]
            }
            3 => vec![text[..text.len() - 1].to_string()],
            4 => vec![real_text(&gen_cel(&mut r))],
            5 => {
                let mut v = vec![text.clone(), real_text(&gen_cel(&mut r))];
                r.shuffle(&mut v);
                v
            }
            6 => vec![recase(&mut r, &text)],
            7 => vec![String::new()],
            _ => vec![text.clone()],
        };
        if values != [text.clone()] {
            ok = false;
        }
        for v in &values {
            let i = r.below(resp.headers.len() + 1);
            let name = recase(&mut r, EXPR_HEADER);
            resp.headers.insert(i, (name, v.clone()));
        }
        // names that are merely similar do not count
        if r.chance(1, 5) {
            let i = r.below(resp.headers.len() + 1);
            resp.headers.insert(i, (r.pick(&["IC-Certificate-Expression", "IC-CertificateExpression ", "X-IC-CertificateExpression", "IC_CertificateExpression"]).to_string(), text.clone()));
        }
        let mut req2 = req.clone();
        if r.chance(1, 12) {
            req2.url = r.pick(MALFORMED_URLS).to_string();
            ok &= !matches!(cel, Cel::Full { .. });
        }
        let body_hash: Option<[u8; 32]> = match r.below(4) {
            0 => Some(sha(&[&resp.body])),
            1 => Some(sha(&[b"chunk", &resp.body])),
            _ => None,
        };
        if matches!(cel, Cel::Skip) {
            continue;
        }
        c.eval();
        let got = c.guard("certification", || match &cel {
            Cel::Skip => unreachable!(),
            Cel::RespOnly(rr) => ic_http_certification::HttpCertification::response_only(&real_resp_only(rr), &real_response(&resp), body_hash),
            Cel::Full { headers, query, resp: rr } => ic_http_certification::HttpCertification::full(&real_full(headers, query, rr), &real_request(&req2), &real_response(&resp), body_hash),
        });
        let Some(got) = got else { return };
        let what = || format!("{cel:?} for {req2:?} {resp:?} with body hash {body_hash:?}");
        let x = match got {
            Err(e) => {
                c.check(!ok, "refused", || format!("{}: {e}", what()));
                c.obs("refused");
                continue;
            }
            Ok(x) => {
                if !c.check(ok, "created", || format!("a certification was created for a response that does not declare it: {}", what())) {
                    continue;
                }
                x
            }
        };
        c.obs("created");
        c.nontrivial(what().as_bytes());
        c.sample(&what);
        // its place in the tree
        let rr = cel.resp_rule().unwrap();
        let mut place = vec![b"http_expr".to_vec()];
        place.extend(pat.segs());
        place.push(sha(&[text.as_bytes()]).to_vec());
        place.push(match &cel {
            Cel::Full { headers, query, .. } => request_hash(&req2, headers, query).to_vec(),
            _ => vec![],
        });
        place.push(match body_hash {
            None => response_hash(&resp, rr).to_vec(),
            Some(h) => {
                let mut m: Vec<(String, V)> = certified_headers(&resp, rr).into_iter().map(|(k, v)| (k, V::Str(v))).collect();
                m.push((":ic-cert-status".into(), V::Num(resp.status as u64)));
                sha(&[&ri_hash(&m), &h]).to_vec()
            }
        });
        let mut tree = HttpCertificationTree::default();
        let entry = ic_http_certification::HttpCertificationTreeEntry::new(real_path(&pat), x);
        if c.guard("insert", || tree.insert(&entry)).is_none() {
            return;
        }
        let model = place.iter().rev().fold(leaf(""), |t, l| lab(l, t));
        let root = tree.root_hash();
        c.check(root == model.digest(), "place", || format!("the certification is not at its specified place in the tree: {}", what()));
        let same = c.guard("delete", || {
            tree.delete(&entry);
            tree.root_hash() == HttpCertificationTree::default().root_hash()
        });
        c.check(same == Some(true), "delete", || format!("the tree is not empty after its only entry was deleted: {}", what()));
        for (other, y) in &made {
            c.check((x == *y) == (place == *other), "equality", || format!("two certifications with {} places compare as {}: {}", if place == *other { "the same" } else { "different" }, x == *y, what()));
            c.obs(if x == *y { "equal_pairs" } else { "unequal_pairs" });
        }
        made.push((place, x));
    }
}

pub const C27: Property = Property {
    id: "C27",
    rule: "one attempt to create a certification for a response: the outcome, the certification's place in a tree and its equality with others are compared with the model; distinct by definition, request and response",
    assumptions: &["SHA-256 has no collisions"],
    must_observe: &["created", "refused", "equal_pairs", "unequal_pairs"],
    workloads: &[Workload { name: "create", f: c27_create, quick: 30_000, thorough: 600_000 }],
};
