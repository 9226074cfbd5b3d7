//! C29: canisters built from the library for WebAssembly, run under node: what they answer on the wire, and whether it
//! verifies against the data they have certified.
use super::*;
use crate::node::Node;
use candid::{CandidType, Decode, Encode};
use serde_json::{json, Value};

thread_local! {
    static NODE: RefCell<Option<Node>> = const { RefCell::new(None) };
}
fn tell(m: &Value) -> Option<Value> {
    NODE.with(|n| {
        let mut n = n.borrow_mut();
        let node = n.get_or_insert_with(|| Node::start("canisters/drive.js", &std::env::var("VERIF_CANISTERS").expect("VERIF_CANISTERS names the directory of the built canisters")));
        let r = node.ask(m);
        if r.is_none() {
            *n = None;
        }
        r
    })
}

#[derive(CandidType, serde::Deserialize, Debug, PartialEq, Clone)]
struct WReq {
    method: String,
    url: String,
    headers: Vec<(String, String)>,
    body: Vec<u8>,
    certificate_version: Option<u16>,
}
#[derive(CandidType, serde::Deserialize, Debug, PartialEq, Clone)]
struct WResp {
    status_code: u16,
    headers: Vec<(String, String)>,
    body: Vec<u8>,
    upgrade: Option<bool>,
}
#[derive(CandidType, serde::Deserialize, Debug, PartialEq, Clone)]
struct WCount {
    count: u32,
    certificate: Vec<u8>,
    witness: Vec<u8>,
}
#[derive(CandidType)]
enum Config {
    File { path: String, content_type: Option<String>, headers: Vec<(String, String)>, fallback_for: Vec<(String, Option<u16>)>, aliased_by: Vec<String>, encodings: Vec<(String, String)> },
    Pattern { pattern: String, content_type: Option<String>, headers: Vec<(String, String)>, encodings: Vec<(String, String)> },
    Redirect { from: String, to: String, permanent: bool },
}
fn wire_cfg(c: &Cfg) -> Config {
    let es = |v: &[(Enc, String)]| v.iter().map(|(e, x)| (e.to_string(), x.clone())).collect();
    match c {
        Cfg::File { path, ct, headers, scopes, aliases, encs } => Config::File { path: path.clone(), content_type: ct.clone(), headers: headers.clone(), fallback_for: scopes.clone(), aliased_by: aliases.clone(), encodings: es(encs) },
        Cfg::Pattern { glob, ct, headers, encs } => Config::Pattern { pattern: glob.text(), content_type: ct.clone(), headers: headers.clone(), encodings: es(encs) },
        Cfg::Redirect { from, to, permanent } => Config::Redirect { from: from.clone(), to: to.clone(), permanent: *permanent },
    }
}

enum Reply {
    Bytes(Vec<u8>),
    Trap(String),
}
/// An installed canister, its certified data and the certificate for it.
struct Live {
    id: Vec<u8>,
    time: u64,
    data: Option<Vec<u8>>,
    cert: Option<Cert>,
    old_cert: Option<Cert>,
}
impl Live {
    fn take(&mut self, c: &mut Case, r: &mut Rng, v: Option<Value>, what: &str) -> Option<Value> {
        let Some(v) = v else {
            c.viol("no-answer", format!("the canister neither replied nor trapped: {what}"));
            return None;
        };
        if let Some(d) = v["certified"].as_str().and_then(b64_decode) {
            if self.data.as_ref() != Some(&d) {
                self.time += 1 + r.u64() % 1_000_000;
                let (delegated, noise) = (r.chance(1, 6), r.below(2));
                let new = honest(r, &self.id, &d, self.time, delegated, noise);
                self.old_cert = self.cert.replace(new);
                self.data = Some(d);
            }
        }
        Some(v)
    }
    fn install(c: &mut Case, r: &mut Rng, wasm: &str) -> Option<Live> {
        let n = r.u64() % 1000;
        let mut l = Live { id: canister_id(n), time: 1_700_000_000_000_000_000 + r.u64() % 1_000_000_000, data: None, cert: None, old_cert: None };
        let v = tell(&json!({"op": "install", "wasm": wasm}));
        let v = l.take(c, r, v, "installing")?;
        if !c.check(v["ok"] == json!(true), "install", || format!("{wasm} cannot be installed: {}", v["error"])) {
            return None;
        }
        Some(l)
    }
    fn call(&mut self, c: &mut Case, r: &mut Rng, kind: &str, name: &str, arg: Vec<u8>, what: &dyn Fn() -> String) -> Option<Reply> {
        let mut m = json!({"op": kind, "name": name, "arg": b64(&arg), "time": self.time.to_string()});
        if kind == "query" {
            if let Some(x) = &self.cert {
                m["cert"] = json!(b64(&x.cbor()));
            }
        }
        let v = tell(&m);
        let v = self.take(c, r, v, &what())?;
        c.obs(if kind == "query" { "queries" } else { "updates" });
        if v["ok"] == json!(true) {
            if !c.check(v["replied"] == json!(true), "no-reply", || format!("{name} ended without a reply: {}", what())) {
                return None;
            }
            return Some(Reply::Bytes(b64_decode(v["reply"].as_str().unwrap_or("")).unwrap_or_default()));
        }
        Some(Reply::Trap(v["error"].as_str().unwrap_or("").to_string()))
    }
    /// The reply to an HTTP request, or what the canister trapped with.
    fn http(&mut self, c: &mut Case, r: &mut Rng, kind: &str, name: &str, req: &WReq, what: &dyn Fn() -> String) -> Option<Result<WResp, String>> {
        match self.call(c, r, kind, name, Encode!(req).unwrap(), what)? {
            Reply::Trap(e) => Some(Err(e)),
            Reply::Bytes(b) => match Decode!(&b, WResp) {
                Ok(x) => Some(Ok(x)),
                Err(e) => {
                    c.viol("reply-type", format!("the reply is not a response: {e}: {}", what()));
                    None
                }
            },
        }
    }
    fn verify(&self, req: &WReq, resp: &WResp) -> Result<Out, String> {
        let q = Req { method: req.method.clone(), url: req.url.clone(), headers: req.headers.clone(), body: req.body.clone() };
        let p = Resp { status: resp.status_code, headers: resp.headers.clone(), body: resp.body.clone() };
        match ic_response_verification::verify_request_response_pair(real_request(&q), real_response(&p), &self.id, self.time as u128, 1_000_000_000, &authority().root.der(), 2) {
            Ok(i) => Ok(out_of(&i)),
            Err(e) => Err(format!("{e}")),
        }
    }
}
fn wreq(q: Req, r: &mut Rng) -> WReq {
    WReq { method: q.method, url: q.url, headers: q.headers, body: q.body, certificate_version: *r.pick(&[None, Some(2), Some(2), Some(2), Some(3)]) }
}

// ------------------------------------------------------------------ a site

fn c29_site(c: &mut Case) {
    let mut r = c.rng.clone();
    let p = plan(&mut r, 5, true);
    let Some(mut l) = Live::install(c, &mut r, "site") else { return };
    // what the same calls do natively
    let mut d = Desk::new(&mut r);
    let mut site = Site::new();
    let mut releases: Vec<(Vec<AssetDef>, Vec<Cfg>)> = vec![];
    let mut log: Vec<String> = vec![];
    let mut calls: Vec<(&str, Vec<u8>)> = vec![];
    let mut big = if r.chance(1, 30) { 1 } else { 0 };
    for _ in 0..r.range(1, 4) {
        let op = if releases.is_empty() { 9 } else { r.below(10) };
        let (name, assets, cfgs) = match op {
            0 => ("delete_all", vec![], vec![]),
            1..=3 => {
                let i = r.below(releases.len());
                ("delete", releases[i].0.clone(), releases[i].1.clone())
            }
            _ => {
                let which: Vec<usize> = (0..p.names.len()).filter(|_| r.chance(2, 3)).collect();
                let which = if which.is_empty() { vec![r.below(p.names.len())] } else { which };
                let wr = r.bool();
                let (a, x) = release(&mut r, &p, &which, wr, &mut big);
                ("certify", a, x)
            }
        };
        let Ok(change) = expand(&assets, &cfgs) else {
            c.obs("open: one place with two owners");
            return;
        };
        log.push(format!("{name} {:?} with {cfgs:?}", assets.iter().map(|a| format!("{}:{}", a.path, a.content.len())).collect::<Vec<_>>()));
        let what = || log.join("; ");
        let wire_assets: Vec<(String, Vec<u8>)> = assets.iter().map(|a| (a.path.clone(), a.content.as_ref().clone())).collect();
        let wire_cfgs: Vec<Config> = cfgs.iter().map(wire_cfg).collect();
        let arg = if name == "delete_all" { Encode!().unwrap() } else { Encode!(&wire_assets, &wire_cfgs).unwrap() };
        calls.push((name, arg.clone()));
        match l.call(c, &mut r, "update", name, arg, &what) {
            None => return,
            Some(Reply::Trap(e)) => return c.viol("update-trapped", format!("{e}: {}", what())),
            Some(Reply::Bytes(_)) => {}
        }
        let native = c.guard("router", || match name {
            "certify" => d.router.certify_assets(assets.iter().map(|a| a.real()), cfgs.iter().map(|x| x.real())).is_ok(),
            "delete" => d.router.delete_assets(assets.iter().map(|a| a.real()), cfgs.iter().map(|x| x.real())).is_ok(),
            _ => {
                d.router.delete_all_assets();
                true
            }
        });
        if native != Some(true) {
            // for C17 and C18 to report
            return;
        }
        match name {
            "certify" => {
                site.extend(change);
                releases.push((assets, cfgs));
            }
            "delete" => change.keys().for_each(|k| {
                site.remove(k);
            }),
            _ => site.clear(),
        }
        let (id, time, cert) = (l.id.clone(), l.time, l.cert.clone());
        d.id = id;
        d.time = time;
        if let Some(x) = cert {
            d.cert = x;
        }
        for _ in 0..5 {
            let path = interesting(&mut r, &site);
            let acc = some_encs(&mut r);
            let mut q = get(&mut r, &path);
            if !acc.is_empty() {
                q.headers.push((recase(&mut r, "accept-encoding"), acc.join(", ")));
            }
            let mut from = 0;
            if let Some((k, u)) = designated(&site, &path, &acc) {
                if matches!(k.0, Place::Url(_)) && u.body.len() > ASSET_CHUNK_SIZE && r.bool() {
                    from = ASSET_CHUNK_SIZE * r.below(u.body.len().div_ceil(ASSET_CHUNK_SIZE));
                    if from > 0 {
                        q.headers.push((recase(&mut r, "range"), format!("bytes={from}-")));
                    }
                }
            }
            let w = wreq(q.clone(), &mut r);
            let what = || format!("GET {} ({:?}) after {}", q.url, q.headers, log.join("; "));
            let Some(got) = l.http(c, &mut r, "query", "http_request", &w, &what) else { return };
            if !settled(&site, &path) || only_unacceptable(&site, &path, &acc) {
                c.obs("open: unsettled path");
                continue;
            }
            match (designated(&site, &path, &acc), got) {
                (None, Err(e)) => {
                    c.check(e.contains("Failed to serve asset"), "trap", || format!("trapped with {e}: {}", what()));
                    c.obs("nothing_configured_nothing_served");
                }
                (None, Ok(x)) => c.viol("served-nothing-configured", format!("nothing is configured, but a response of {} bytes came: {}", x.body.len(), what())),
                (Some((k, _)), Err(e)) => c.viol("not-served", format!("{k:?} is configured, but: {e}: {}", what())),
                (Some((k, u)), Ok(x)) => {
                    let b = HttpResponse::builder().with_status_code(StatusCode::from_u16(x.status_code).unwrap()).with_headers(x.headers.clone()).with_body(x.body.clone()).build();
                    if inspect(c, &d, &q, &k.0, u, &b, from, &what).is_some() {
                        c.check(x.upgrade.is_none(), "upgrade", || format!("the response asks for an upgrade: {}", what()));
                        c.obs("assets_served");
                        c.nontrivial(format!("{k:?}{path}{:?}{}", u.headers, u.body.len()).as_bytes());
                    }
                }
            }
        }
    }
    // every replica that makes the same calls certifies the same data
    if r.chance(1, 3) {
        let Some(mut again) = Live::install(c, &mut r, "site") else { return };
        for (name, arg) in calls {
            if again.call(c, &mut r, "update", name, arg, &|| log.join("; ")).is_none() {
                return;
            }
        }
        c.check(again.data == l.data, "certified-data", || format!("the same calls made again certify {:?} instead of {:?}: {}", again.data, l.data, log.join("; ")));
        c.obs("replicas_compared");
    }
    c.sample(|| log.join("; "));
}

// ------------------------------------------------------------------ the todo list

const TODO_HEADERS: &[(&str, &str)] = &[
    ("cache-control", "no-store, max-age=0"),
    ("content-type", "application/json"),
    ("pragma", "no-cache"),
    ("referrer-policy", "no-referrer"),
    ("strict-transport-security", "max-age=31536000; includeSubDomains"),
    ("x-content-type-options", "nosniff"),
];
fn sorted_list(v: &Value) -> Option<Vec<String>> {
    let mut x: Vec<String> = v["ok"]["data"].as_array()?.iter().map(|y| y.to_string()).collect();
    x.sort();
    Some(x)
}
fn c29_todo(c: &mut Case) {
    let mut r = c.rng.clone();
    let Some(mut l) = Live::install(c, &mut r, "json_api") else { return };
    let mut items: BTreeMap<u32, (String, bool)> = BTreeMap::new();
    let mut next = 0u32;
    let mut log: Vec<String> = vec!["install".into()];
    let mut old: Vec<(WReq, WResp)> = vec![];
    for _ in 0..r.range(3, 14) {
        let plain_req = |method: &str, url: String, body: Vec<u8>| WReq { method: method.into(), url, headers: vec![], body, certificate_version: Some(2) };
        // a change now and then: first asked for as a query, which says that it must be an update
        let change = match r.below(8) {
            0 | 1 => {
                let title = r.pick(&["milk", "", "été", "a \"quoted\" thing", "x\ny", "long enough to need more than one block of the hash function, or two"]).to_string();
                Some((plain_req("POST", "/todos".into(), json!({ "title": title }).to_string().into_bytes()), 201u16))
            }
            2 if !items.is_empty() => {
                let ids: Vec<u32> = items.keys().copied().collect();
                let id = *r.pick(&ids);
                let mut b = json!({});
                if r.bool() {
                    b["title"] = json!(format!("t{}", r.below(9)));
                }
                if r.bool() {
                    b["completed"] = json!(r.bool());
                }
                Some((plain_req("PATCH", format!("/todos/{id}"), b.to_string().into_bytes()), 200))
            }
            3 if next > 0 => {
                let id = r.below(next as usize + 1);
                Some((plain_req("DELETE", format!("/todos/{id}"), vec![]), 204))
            }
            4 if r.chance(1, 4) => {
                let v = tell(&json!({"op": "upgrade"}));
                let Some(v) = l.take(c, &mut r, v, "upgrading") else { return };
                if !c.check(v["ok"] == json!(true), "upgrade", || format!("the upgrade trapped: {} after {}", v["error"], log.join("; "))) {
                    return;
                }
                items.clear();
                next = 0;
                log.push("upgrade".into());
                c.obs("upgrades");
                None
            }
            5 => {
                // a malformed change traps and leaves everything as it was
                let bad = plain_req("POST", "/todos".into(), b"{\"title\":".to_vec());
                let before = l.data.clone();
                let what = || format!("POST a malformed body after {}", log.join("; "));
                let Some(x) = l.http(c, &mut r, "update", "http_request_update", &bad, &what) else { return };
                c.check(x.is_err() && l.data == before, "malformed-change", || format!("{x:?}: {}", what()));
                c.obs("traps_undone");
                None
            }
            _ => None,
        };
        if let Some((q, status)) = change {
            log.push(format!("{} {} {}", q.method, q.url, String::from_utf8_lossy(&q.body)));
            let what = || log.join("; ");
            let before = l.data.clone();
            match l.http(c, &mut r, "query", "http_request", &q, &what) {
                None => return,
                Some(x) => {
                    c.check(x.as_ref().is_ok_and(|y| y.upgrade == Some(true)) && l.data == before, "ask-upgrade", || format!("a change asked for as a query is answered {x:?}: {}", what()));
                }
            }
            match l.http(c, &mut r, "update", "http_request_update", &q, &what) {
                None => return,
                Some(Err(e)) => return c.viol("update-trapped", format!("{e}: {}", what())),
                Some(Ok(x)) => {
                    c.check(x.status_code == status && x.upgrade.is_none(), "update-reply", || format!("answered {} upgrade {:?}: {}", x.status_code, x.upgrade, what()));
                }
            }
            match q.method.as_str() {
                "POST" => {
                    let t: Value = serde_json::from_slice(&q.body).unwrap();
                    items.insert(next, (t["title"].as_str().unwrap().to_string(), false));
                    next += 1;
                }
                m => {
                    let id: u32 = q.url.rsplit('/').next().unwrap().parse().unwrap();
                    if m == "DELETE" {
                        items.remove(&id);
                    } else if let Some(i) = items.get_mut(&id) {
                        let t: Value = serde_json::from_slice(&q.body).unwrap();
                        if let Some(x) = t["title"].as_str() {
                            i.0 = x.to_string();
                        }
                        if let Some(x) = t["completed"].as_bool() {
                            i.1 = x;
                        }
                    }
                }
            }
            c.obs("changes");
        }
        // and is asked for
        for _ in 0..2 {
            let method = *r.pick(&["GET", "GET", "GET", "GET", "HEAD", "PUT", "OPTIONS", "TRACE", "CONNECT"]);
            let path = match r.below(5) {
                0..=2 => "/todos".to_string(),
                3 => r.pick(&["/todos/", "/todos/0", "/todo", "/todos/a/b", "/Todos", "/http_expr", "/<$>", "/é"]).to_string(),
                _ => {
                    let p = gen_path(&mut r);
                    if p.contains("//") || p == "/" { "/x".into() } else { p }
                }
            };
            let query = if r.chance(1, 4) { gen_query(&mut r) } else { None };
            let body = if r.chance(1, 12) { b"x".to_vec() } else { vec![] };
            let q = wreq(Req { method: method.into(), url: gen_url(&mut r, &path, query), headers: gen_headers(&mut r, 2), body }, &mut r);
            let what = || format!("{method} {} after {}", q.url, log.join("; "));
            let Some(got) = l.http(c, &mut r, "query", "http_request", &q, &what) else { return };
            let x = match got {
                Ok(x) => x,
                Err(e) => {
                    c.viol("query-trapped", format!("{e}: {}", what()));
                    continue;
                }
            };
            let on = path == "/todos";
            let status = if !on { 404 } else if method == "GET" { 200 } else { 405 };
            let good = x.status_code == status && plain(&x.headers).iter().map(|h| (h.0.as_str(), h.1.as_str())).eq(TODO_HEADERS.iter().copied()) && x.upgrade.is_none();
            c.check(good, "reply", || format!("answered {} {:?}: {}", x.status_code, plain(&x.headers), what()));
            let b: Value = serde_json::from_slice(&x.body).unwrap_or_default();
            if status == 200 {
                let mut want: Vec<String> = items.iter().map(|(id, (t, done))| json!({"id": id, "title": t, "completed": done}).to_string()).collect();
                want.sort();
                c.check(sorted_list(&b).as_ref() == Some(&want), "list", || format!("the list is {b}, expected {want:?}: {}", what()));
            } else {
                c.check(b["err"]["code"] == json!(status), "error-body", || format!("{b}: {}", what()));
            }
            let v = l.verify(&q, &x);
            if on && split_url(&q.url).1.is_some() {
                // whether a query string is there at all is part of what is certified for a request (see C17's known finding)
                c.obs("open: query string");
            } else if on && !q.body.is_empty() {
                // only requests without a body are certified
                c.check(v.is_err(), "other-request", || format!("a response certified for another request verifies: {}", what()));
                c.obs("other_requests_refused");
            } else {
                let want = Out { version: 2, response: Some((Some(x.status_code), x.headers.clone(), x.body.clone())) };
                c.check(v.as_ref().is_ok_and(|o| same_out(o, &want)), "unverifiable", || format!("verified as {v:?}: {}", what()));
                c.obs(match status {
                    200 => "lists_verified",
                    404 => "not_found_verified",
                    _ => "not_allowed_verified",
                });
                c.nontrivial(format!("{method}{path}{items:?}").as_bytes());
            }
            // what was true once is not verified with today's certificate
            if status == 200 && q.body.is_empty() {
                for (oq, ox) in &old {
                    if ox.headers.iter().find(|h| h.0.eq_ignore_ascii_case(CERT_HEADER)) == x.headers.iter().find(|h| h.0.eq_ignore_ascii_case(CERT_HEADER)) || ox.body == x.body {
                        continue;
                    }
                    let mut mixed = ox.clone();
                    let now = x.headers.iter().find(|h| h.0.eq_ignore_ascii_case(CERT_HEADER)).unwrap().1.clone();
                    mixed.headers.iter_mut().filter(|h| h.0.eq_ignore_ascii_case(CERT_HEADER)).for_each(|h| h.1 = now.clone());
                    let v = l.verify(oq, &mixed);
                    c.check(v.is_err(), "stale", || format!("an old list verifies with the new certificate: {}", what()));
                    c.obs("stale_refused");
                }
                if old.len() < 4 {
                    old.push((q.clone(), x.clone()));
                }
            }
        }
    }
    c.sample(|| log.join("; "));
}

// ------------------------------------------------------------------ the small ones

fn c29_small(c: &mut Case) {
    let mut r = c.rng.clone();
    match r.below(3) {
        0 => {
            let Some(mut l) = Live::install(c, &mut r, "counter") else { return };
            let mut n = 0u32;
            for _ in 0..r.range(1, 6) {
                for _ in 0..r.range(1, 4) {
                    match l.call(c, &mut r, "update", "inc_count", Encode!().unwrap(), &|| "inc_count".into()) {
                        Some(Reply::Bytes(_)) => n += 1,
                        Some(Reply::Trap(e)) => return c.viol("update-trapped", format!("inc_count: {e}")),
                        None => return,
                    }
                }
                let what = || format!("get_count after {n} increments");
                let b = match l.call(c, &mut r, "query", "get_count", Encode!().unwrap(), &what) {
                    Some(Reply::Bytes(b)) => b,
                    Some(Reply::Trap(e)) => return c.viol("query-trapped", format!("{e}: {}", what())),
                    None => return,
                };
                let Ok(x) = Decode!(&b, WCount) else { return c.viol("reply-type", what()) };
                c.check(x.count == n, "count", || format!("{}: {}", x.count, what()));
                let data = l.data.clone();
                c.check(l.cert.as_ref().is_some_and(|k| k.cbor() == x.certificate), "certificate", || format!("not the certificate the system gave: {}", what()));
                let tree = crate::refv::decode_tree(&x.witness);
                let good = tree.as_ref().is_some_and(|t| Some(t.digest().to_vec()) == data && look_path(t, &[b"count".to_vec()]) == LookPath::Found(sha(&[&n.to_be_bytes()]).to_vec()));
                c.check(good, "witness", || format!("the witness {tree:?} does not show the count under the certified data {data:?}: {}", what()));
                c.obs("counts_verified");
                c.nontrivial(&x.witness);
            }
        }
        1 => {
            let Some(mut l) = Live::install(c, &mut r, "skip") else { return };
            for _ in 0..3 {
                let p = gen_path(&mut r);
                let q = gen_req(&mut r, &p);
                let q = wreq(q, &mut r);
                let what = || format!("{} {} from the canister that skips certification", q.method, q.url);
                match l.http(c, &mut r, "query", "http_request", &q, &what) {
                    None => return,
                    Some(Err(e)) => return c.viol("query-trapped", format!("{e}: {}", what())),
                    Some(Ok(x)) => {
                        let v = l.verify(&q, &x);
                        c.check(x.status_code == 200 && String::from_utf8_lossy(&x.body).contains(&l.time.to_string()), "reply", || format!("answered {}: {}", x.status_code, what()));
                        c.check(v.as_ref().is_ok_and(|o| same_out(o, &Out { version: 2, response: None })), "skip-unverifiable", || format!("verified as {v:?}: {}", what()));
                        c.obs("skipped_verified");
                        c.nontrivial(format!("{}{}", q.method, q.url).as_bytes());
                    }
                }
            }
        }
        _ => {
            let Some(mut l) = Live::install(c, &mut r, "upgrade") else { return };
            let p = gen_path(&mut r);
            let q = gen_req(&mut r, &p);
            let q = wreq(q, &mut r);
            let what = || format!("{} {} from the canister that upgrades", q.method, q.url);
            match l.http(c, &mut r, "query", "http_request", &q, &what) {
                None => return,
                Some(x) => {
                    c.check(x.as_ref().is_ok_and(|y| y.upgrade == Some(true)), "ask-upgrade", || format!("answered {x:?}: {}", what()));
                }
            }
            match l.http(c, &mut r, "update", "http_request_update", &q, &what) {
                None => return,
                Some(x) => {
                    c.check(x.as_ref().is_ok_and(|y| *y == WResp { status_code: 418, headers: vec![], body: b"I'm a teapot".to_vec(), upgrade: None }), "update-reply", || format!("answered {x:?}: {}", what()));
                }
            }
            c.obs("upgraded");
        }
    }
}

pub const C29: Property = Property {
    id: "C29",
    rule: "one reply of a canister built from the library for WebAssembly, compared with what its calls so far designate and verified against the data it certified; distinct by request and state",
    assumptions: &[
        "the canisters are built for wasm32-unknown-unknown with overflow checks; node, ic-cdk and candid are trusted, the system interface is stood in for: queries change nothing, traps undo",
        "the site canister is the monitor's own, after the asset certification documentation; the others are the repository's examples that build offline",
    ],
    must_observe: &["assets_served", "nothing_configured_nothing_served", "replicas_compared", "responses_verified", "lists_verified", "not_found_verified", "not_allowed_verified", "other_requests_refused", "stale_refused", "changes", "traps_undone", "upgrades", "counts_verified", "skipped_verified", "upgraded"],
    workloads: &[
        Workload { name: "site", f: c29_site, quick: 1_000, thorough: 20_000 },
        Workload { name: "todo", f: c29_todo, quick: 600, thorough: 12_000 },
        Workload { name: "small", f: c29_small, quick: 500, thorough: 12_000 },
    ],
};
