//! C24: the WebAssembly binding, run under node, against the native verifier.
use crate::case::Case;
use crate::cert::*;
use crate::gen::mutate_bytes;
use crate::node::Node;
use crate::props::hostile::hostile_exchange;
use crate::props::http::{interesting_path, tamper};
use crate::props::http2::{deflate, gz};
use crate::rng::Rng;
use crate::spec::*;
use crate::world::*;
use crate::{Property, Workload};
use serde_json::{json, Value};
use std::cell::RefCell;

thread_local! {
    static NODE: RefCell<Option<Node>> = const { RefCell::new(None) };
}
/// Asks the binding; `None` if it did not answer within two minutes or the process died.
fn ask(m: &Value) -> Option<Value> {
    NODE.with(|n| {
        let mut n = n.borrow_mut();
        let node = n.get_or_insert_with(|| Node::start("wasm/drive.js", &std::env::var("VERIF_BINDING").expect("VERIF_BINDING names the directory of the built binding")));
        let r = node.ask(m);
        if r.is_none() {
            *n = None;
        }
        r
    })
}
fn restart() {
    NODE.with(|n| *n.borrow_mut() = None);
}

fn message(r: &mut Rng, s: &Served, status: Value) -> Value {
    let resp = s.response();
    json!({
        "op": "verify",
        "req": {"url": s.req.url, "method": s.req.method, "headers": s.req.headers, "body": b64(&s.req.body)},
        "resp": {"status": status, "headers": resp.headers, "body": b64(&resp.body)},
        "canister": b64(&s.canister), "root": b64(&s.root_der),
        "now": s.now.to_string(), "offset": s.offset.to_string(), "min": s.min_version,
        "form": r.below(4), "rot": r.below(8), "extra": r.bool(),
    })
}

/// A version-1 exchange, honest or slightly wrong.
fn version_one(r: &mut Rng) -> Served {
    let id = canister_id(r.below(1 << 20) as u64);
    let time = 1_700_000_000_000_000_000 + (r.u64() >> 24);
    let path = gen_path(r);
    let n = *r.pick(&[0, 1, 300, 40_000]);
    let body = if r.bool() { r.bytes(n) } else { vec![b'x'; n] };
    let (certified, sent, enc) = match r.below(4) {
        0 => (body.clone(), gz(&body, 6), Some("gzip")),
        1 => (body.clone(), deflate(&body, 6), Some("deflate")),
        2 => (gz(&body, 6), gz(&body, 6), Some("gzip")),
        _ => (body.clone(), body.clone(), None),
    };
    let mut m = M::new();
    let named = if r.chance(1, 3) { "/index.html".to_string() } else { path.clone() };
    m.insert(&[b"http_assets".to_vec(), named.into_bytes()], sha(&[&certified]).to_vec());
    m.insert(&[b"http_assets".to_vec(), b"/other".to_vec()], sha(&[b"other"]).to_vec());
    let full = crate::gen::tree_of(r, &m, 0);
    let dl = r.chance(1, 3);
    let cert = honest(r, &id, &full.digest(), time, dl, 1);
    let mut headers: Vec<(String, String)> = gen_headers(r, 3).into_iter().filter(|h| !h.0.eq_ignore_ascii_case("content-encoding")).collect();
    if let Some(e) = enc {
        headers.push(("Content-Encoding".into(), e.into()));
    }
    let mut s = Served {
        req: gen_req(r, &path),
        resp: Resp { status: *r.pick(STATUSES), headers, body: sent },
        cert,
        tree: full,
        expr: vec![],
        version: r.pick(&[None, Some("1")]).map(|x| x.to_string()),
        entry: 0,
        raw: None,
        extra: vec![],
        pos: 0,
        name: CERT_HEADER.into(),
        canister: id,
        now: time as u128,
        offset: 0,
        root_der: authority().root.der(),
        min_version: *r.pick(&[0, 1, 1, 1, 2]),
        odd: false,
        log: vec!["version 1".into()],
    };
    match r.below(6) {
        0 => {
            let o = r.bytes(4);
            mutate_bytes(r, &mut s.resp.body, &o);
            s.log.push("body bytes".into());
        }
        1 => {
            let k = s.tree.size();
            let k = r.below(k);
            if let Some(t) = prune_nth(&s.tree, k) {
                s.tree = t;
            }
            s.log.push("witness pruned".into());
        }
        _ => {}
    }
    s
}

fn variant(d: &str) -> String {
    d.chars().take_while(|c| c.is_ascii_alphanumeric()).collect()
}

/// Runs the exchange natively and in the binding.
fn compare(c: &mut Case, r: &mut Rng, s: &Served) {
    let native = match crate::case::quiet_catch(|| real_verify(s)) {
        Ok(x) => x,
        // panics are for C10 to report
        Err(_) => return,
    };
    let m = message(r, s, json!(s.resp.status));
    let Some(v) = ask(&m) else {
        c.viol("no-answer", format!("the binding neither returned nor threw: {}", describe(s)));
        return;
    };
    c.eval();
    c.check(v["touched"] == json!(false), "inputs", || format!("the binding altered its inputs: {}", describe(s)));
    match (native, v["ok"] == json!(true)) {
        (Ok(i), true) => {
            c.obs("both_accept");
            let o = out_of(&i);
            let got = v["response"].as_object().map(|x| {
                let hs: Vec<(String, String)> = serde_json::from_value(x["headers"].clone()).unwrap_or_else(|_| vec![("?".into(), x["headers"].to_string())]);
                (x["status"].as_u64().map(|n| n as u16), hs, b64_decode(x["body"].as_str().unwrap_or("?")).unwrap_or_default())
            });
            let g = Out { version: v["version"].as_u64().unwrap_or(u64::MAX) as u16, response: got };
            c.check(same_out(&o, &g), "content", || format!("the binding returned {g:?} and the native verifier {o:?}: {}", describe(s)));
            if o.response.is_some() {
                c.obs(&format!("responses_version_{}", o.version));
                c.check(v["response"]["isBytes"] == json!(true), "type", || format!("the body is not a Uint8Array: {}", describe(s)));
                let has = v["response"]["keys"].as_array().is_some_and(|k| k.contains(&json!("statusCode")));
                c.check(has == o.response.as_ref().unwrap().0.is_some(), "status-presence", || format!("statusCode is {}present: {}", if has { "" } else { "not " }, describe(s)));
            } else {
                c.obs("accepted_without_response");
            }
        }
        (Err(e), false) => {
            c.obs("both_refuse");
            let code = variant(&format!("{e:?}"));
            c.obs(&format!("refused: {code}"));
            let ok = v["kind"] == json!("ResponseVerificationError");
            c.check(ok, "error-kind", || format!("the binding threw a {} ({}) where the native verifier rejected with {e:?}: {}", v["kind"], v["message"], describe(s)));
            if ok {
                c.check(v["code"] == json!(code), "error-code", || format!("the binding's error code is {}, the rejection was {e:?}: {}", v["code"], describe(s)));
                c.check(v["message"] == json!(e.to_string()), "error-message", || format!("the binding's message is {}, the rejection's is {:?}: {}", v["message"], e.to_string(), describe(s)));
            } else {
                restart();
            }
        }
        (Ok(_), false) => {
            c.viol("refused-only-in-wasm", format!("the native verifier accepts and the binding throws {} {} {}: {}", v["kind"], v["code"], v["message"], describe(s)));
            restart();
        }
        (Err(e), true) => c.viol("accepted-only-in-wasm", format!("the binding accepts what the native verifier rejects with {e:?}: {}", describe(s))),
    }
}

fn c24_exchanges(c: &mut Case) {
    let mut r = c.rng.clone();
    let w = gen_world(&mut r);
    let o = gen_world(&mut r);
    let path = interesting_path(&mut r, &w);
    let greedy = r.bool();
    let Some(s) = serve(&mut r, &w, &path, greedy) else { return };
    c.sample(|| describe(&s));
    let mut vs = vec![s.clone()];
    for _ in 0..3 {
        let mut x = s.clone();
        for _ in 0..r.range(1, 2) {
            tamper(&mut r, &mut x, &w, &o);
        }
        vs.push(x);
    }
    vs.push(version_one(&mut r));
    for mut s in vs {
        narrow(&mut s);
        c.nontrivial(format!("{}{}{:?}{}", s.req.url, s.resp.status, s.log, s.resp.body.len()).as_bytes());
        compare(c, &mut r, &s);
    }
}
/// The binding takes times as 64-bit integers.
fn narrow(s: &mut Served) {
    s.now = s.now.min(u64::MAX as u128);
    s.offset = s.offset.min(u64::MAX as u128);
}
fn c24_hostile(c: &mut Case) {
    let mut r = c.rng.clone();
    let max = if r.chance(1, 10) { 30_000 } else { 2_000 };
    let Some(mut s) = hostile_exchange(&mut r, max) else { return };
    narrow(&mut s);
    c.sample(|| describe(&s).chars().take(300).collect());
    c.nontrivial(format!("{}{}{:?}{}", s.req.url, s.header(), s.log, s.resp.body.len()).as_bytes());
    compare(c, &mut r, &s);
}
/// Status codes that a response cannot have: there is no native counterpart, the binding has to throw its own error.
fn c24_status(c: &mut Case) {
    let mut r = c.rng.clone();
    let s = if r.bool() {
        version_one(&mut r)
    } else {
        let w = gen_world(&mut r);
        let path = interesting_path(&mut r, &w);
        let Some(s) = serve(&mut r, &w, &path, true) else { return };
        s
    };
    let status = match r.below(5) {
        0 => json!(r.below(100)),
        1 => json!(r.range(1000, 65_535)),
        2 => json!(65_536 + r.range(100, 599)),
        3 => json!(-(r.range(1, 600) as i64)),
        _ => json!(r.pick(&[0u64, 99, 1000, 65_535, 65_536, 65_736, 1 << 32, (1 << 32) + 200, (1 << 53) - 1])),
    };
    c.nontrivial(status.to_string().as_bytes());
    c.sample(|| format!("status {status}"));
    let m = message(&mut r, &s, status.clone());
    let Some(v) = ask(&m) else {
        c.viol("no-answer", format!("the binding neither returned nor threw for status {status}: {}", describe(&s)));
        return;
    };
    c.eval();
    c.obs("invalid_statuses");
    if c.check(v["ok"] == json!(false), "status-accepted", || format!("a response with status {status} was verified: {}", describe(&s))) {
        let fine = v["kind"] == json!("ResponseVerificationError") && v["code"].as_str().is_some_and(|x| x != "undefined" && !x.is_empty()) && v["message"].as_str().is_some_and(|x| !x.is_empty());
        c.check(fine, "status-error", || format!("a response with status {status} ended in a {} ({}) instead of an error with code and message: {}", v["kind"], v["message"], describe(&s)));
        if !fine {
            restart();
        }
    }
    // and the binding is still fine
    let mut s = s;
    narrow(&mut s);
    compare(c, &mut r, &s);
    if r.chance(1, 20) {
        let v = ask(&json!({"op": "versions"})).unwrap_or_default();
        let want = json!({"min": ic_response_verification::MIN_VERIFICATION_VERSION, "max": ic_response_verification::MAX_VERIFICATION_VERSION});
        c.check(v == want, "versions", || format!("the binding reports versions {v}, the library {want}"));
        c.obs("versions_asked");
    }
}

pub const C24: Property = Property {
    id: "C24",
    rule: "one exchange decided by the WebAssembly binding under node and by the native verifier; distinct by url, status, alterations and body",
    assumptions: &[
        "the binding is built for wasm32-unknown-unknown with overflow checks and translated by the installed wasm-bindgen 0.2.93; node is trusted",
        "methods are valid HTTP methods and fields have the types the binding declares; times are 64-bit",
    ],
    must_observe: &["both_accept", "both_refuse", "responses_version_1", "responses_version_2", "accepted_without_response", "invalid_statuses", "versions_asked", "refused: InvalidResponseHashes", "refused: CertificateVerificationFailed", "refused: CborDecodingFailed", "refused: InvalidTree", "refused: CelError", "refused: Base64DecodingError"],
    workloads: &[
        Workload { name: "exchanges", f: c24_exchanges, quick: 1_500, thorough: 60_000 },
        Workload { name: "hostile", f: c24_hostile, quick: 3_000, thorough: 120_000 },
        Workload { name: "status", f: c24_status, quick: 800, thorough: 20_000 },
    ],
};
