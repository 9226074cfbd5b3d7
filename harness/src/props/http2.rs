//! Expressions, wildcards, skipping, version 1 and version negotiation.
use super::http::{interesting_path, judge, tamper, Mode};
use crate::api::*;
use crate::case::Case;
use crate::cel::*;
use crate::cert::*;
use crate::rng::Rng;
use crate::spec::*;
use crate::world::*;
use crate::{Property, Workload};
use ic_http_certification::utils::{add_skip_certification_header, is_wildcard_path_valid_for_request_path, more_specific_wildcards_for, skip_certification_certified_data};
use std::collections::HashMap;

// ---------------------------------------------------------------- C13

fn odd_name(r: &mut Rng) -> String {
    const POOL: &[&str] = &["a", "b", "-", "_", "1", " ", ",", ":", "{", "}", "[", "]", "(", ")", "'", "\t", "\n", "é", "日", "%", "=", "&", "*", "/", ".", "!", "#", "\u{7f}", "\u{0}", "{}", "Empty{}", "\\"];
    let n = r.below(7);
    let s: String = (0..n).map(|_| *r.pick(&POOL[..POOL.len() - 1])).collect();
    s
}
fn odd_cel(r: &mut Rng) -> Cel {
    let mut c = gen_cel(r);
    let spice = |r: &mut Rng, v: &mut Vec<String>| {
        for _ in 0..r.below(4) {
            let i = r.below(v.len() + 1);
            v.insert(i, odd_name(r));
        }
    };
    match &mut c {
        Cel::Skip => {}
        Cel::RespOnly(RespRule::Include(v)) | Cel::RespOnly(RespRule::Exclude(v)) => spice(r, v),
        Cel::Full { headers, query, resp } => {
            spice(r, headers);
            // query parameter names are compared with the text between & and =
            spice(r, query);
            match resp {
                RespRule::Include(v) | RespRule::Exclude(v) => spice(r, v),
            }
        }
    }
    c
}

fn one_entry(r: &mut Rng, cel: &Cel, text: &str) -> Entry {
    let pat = gen_pat(r);
    let path = path_under(r, &pat);
    Entry { req: gen_req(r, &path), resp: gen_resp(r, text), pat, cel: cel.clone(), text: text.to_string() }
}

/// Every definition, spelled in any way, means exactly itself.
fn c13_roundtrip(c: &mut Case) {
    let mut r = c.rng.clone();
    for _ in 0..4 {
        let cel = odd_cel(&mut r);
        let text = if r.chance(1, 3) {
            match c.guard("build expression", || real_text(&cel)) {
                Some(t) => {
                    if let Some(ts) = c.guard("build expression", || real_texts(&cel)) {
                        c.obs("written_in_other_ways");
                        c.check(ts.iter().all(|x| *x == t), "spelling", || format!("the library writes {cel:?} as {t:?} and as {ts:?}"));
                    }
                    t
                }
                None => return,
            }
        } else {
            gen_text(&mut r, &cel)
        };
        c.check(meaning(&text) == Meaning::Is(cel.clone()), "spelling", || format!("the text {text:?} built for {cel:?} reads as {:?}", meaning(&text)));
        c.nontrivial(text.as_bytes());
        c.sample(|| text.clone());
        let e = one_entry(&mut r, &cel, &text);
        let path = path_under(&mut r, &e.pat);
        let w = build_world(&mut r, vec![e]);
        let Some(s) = serve(&mut r, &w, &path, true) else { continue };
        if judge(c, &s, &w.cels, Mode::Both) == Some(true) {
            c.obs("expressions_understood");
        }
        // each name in turn: present / absent / changed in the message
        for k in 0..4 {
            let mut s = s.clone();
            let names: Vec<String> = match &cel {
                Cel::Skip => vec![],
                Cel::RespOnly(RespRule::Include(v)) | Cel::RespOnly(RespRule::Exclude(v)) => v.clone(),
                Cel::Full { headers, resp: RespRule::Include(v), .. } | Cel::Full { headers, resp: RespRule::Exclude(v), .. } => headers.iter().chain(v).cloned().collect(),
            };
            let n = if names.is_empty() || r.chance(1, 4) { odd_name(&mut r) } else { r.pick(&names).clone() };
            if !n.is_ascii() || n.eq_ignore_ascii_case(EXPR_HEADER) || n.eq_ignore_ascii_case(CERT_HEADER) || n.eq_ignore_ascii_case("content-encoding") {
                continue;
            }
            let h = (recase(&mut r, &n), hvalue(&mut r));
            if k % 2 == 0 {
                s.resp.headers.push(h);
            } else {
                s.req.headers.push(h);
            }
            s.log.push(format!("a header named {n:?} added"));
            judge(c, &s, &w.cels, Mode::Both);
            c.obs("names_probed");
        }
    }
}

fn tokens(t: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut q = false;
    for ch in t.chars() {
        if ch == '"' {
            if !q {
                out.push("\"".into());
            } else {
                out.last_mut().unwrap().push('"');
            }
            q = !q;
            continue;
        }
        if q {
            out.last_mut().unwrap().push(ch);
        } else if ch.is_ascii_alphanumeric() || ch == '_' {
            match out.last_mut() {
                Some(l) if l.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') => l.push(ch),
                _ => out.push(ch.to_string()),
            }
        } else {
            out.push(ch.to_string());
        }
    }
    out
}

/// A meaning one step away from the given one.
fn near_cel(r: &mut Rng, cel: &Cel) -> Cel {
    fn drop_one(r: &mut Rng, v: &[String]) -> Vec<String> {
        let mut v = v.to_vec();
        if v.is_empty() {
            v.push(odd_name(r));
        } else {
            let i = r.below(v.len());
            v.remove(i);
        }
        v
    }
    fn near_rule(r: &mut Rng, x: &RespRule) -> RespRule {
        match x {
            RespRule::Include(v) if r.bool() => RespRule::Exclude(v.clone()),
            RespRule::Exclude(v) if r.bool() => RespRule::Include(v.clone()),
            RespRule::Include(v) => RespRule::Include(drop_one(r, v)),
            RespRule::Exclude(v) => RespRule::Exclude(drop_one(r, v)),
        }
    }
    match cel {
        Cel::Skip => Cel::RespOnly(RespRule::Exclude(vec![])),
        Cel::RespOnly(x) => match r.below(3) {
            0 => Cel::Full { headers: vec![], query: vec![], resp: x.clone() },
            _ => Cel::RespOnly(near_rule(r, x)),
        },
        Cel::Full { headers, query, resp } => match r.below(5) {
            0 => Cel::RespOnly(resp.clone()),
            1 => Cel::Full { headers: drop_one(r, headers), query: query.clone(), resp: resp.clone() },
            2 => Cel::Full { headers: headers.clone(), query: drop_one(r, query), resp: resp.clone() },
            3 => Cel::Full { headers: query.clone(), query: headers.clone(), resp: resp.clone() },
            _ => Cel::Full { headers: headers.clone(), query: query.clone(), resp: near_rule(r, resp) },
        },
    }
}

/// Texts that are almost expressions: never accepted under a meaning they do not have.
fn c13_malformed(c: &mut Case) {
    let mut r = c.rng.clone();
    let cel = gen_cel(&mut r);
    let base = gen_text(&mut r, &cel);
    let other = gen_cel(&mut r).text();
    const WORDS: &[&str] = &[
        "default_certification", "ValidationArgs", "no_certification", "Empty", "certification", "Certification", "no_request_certification", "request_certification", "RequestCertification",
        "certified_request_headers", "certified_query_parameters", "response_certification", "ResponseCertification", "certified_response_headers", "response_header_exclusions", "ResponseHeaderList", "headers",
    ];
    const FRAGS: &[&str] = &[
        "no_certification:Empty{}", "no_request_certification:Empty{}", "request_certification:RequestCertification{certified_request_headers:[],certified_query_parameters:[]}",
        "certified_response_headers:ResponseHeaderList{headers:[]}", "response_header_exclusions:ResponseHeaderList{headers:[]}", "response_header_exclusions:ResponseHeaderList{headers:[\"x-a\",\"x-b\"]}", "x:\"y\"",
        "certification:Certification{no_request_certification:Empty{},response_certification:ResponseCertification{certified_response_headers:ResponseHeaderList{headers:[]}}}",
    ];
    // a sound text, certified under its own meaning and under others
    {
        let text = gen_text(&mut r, &cel);
        let near = near_cel(&mut r, &cel);
        let mut cels = HashMap::new();
        cels.insert(text.clone(), cel.clone());
        let far = gen_cel(&mut r);
        for me in [cel.clone(), near, far] {
            if me != cel {
                c.obs("texts_with_another_meaning");
            }
            let e = one_entry(&mut r, &me, &text);
            let path = path_under(&mut r, &e.pat);
            let w = build_world(&mut r, vec![e]);
            let Some(s) = serve(&mut r, &w, &path, false) else { continue };
            judge(c, &s, &cels, Mode::Both);
        }
    }
    for _ in 0..6 {
        let mut t = tokens(&base);
        for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
            if t.is_empty() {
                break;
            }
            let i = r.below(t.len());
            match r.below(10) {
                0 => {
                    t.remove(i);
                }
                1 => {
                    let x = t[i].clone();
                    t.insert(i, x);
                }
                2 => {
                    let j = r.below(t.len());
                    t.swap(i, j);
                }
                3 => t[i] = r.pick(WORDS).to_string(),
                4 => {
                    let o = tokens(&other);
                    t[i] = r.pick(&o).clone();
                }
                5 => t.insert(i, r.pick(&["{", "}", "[", "]", "(", ")", ",", ":", "\"", "\\", "Empty{}", "\"a\"", "[]"]).to_string()),
                6 => t[i] = recase(&mut r, &t[i].clone()),
                7 => t.truncate(i),
                // a further property
                _ => {
                    let at: Vec<usize> = (0..t.len()).filter(|k| t[*k] == "{" || t[*k] == ",").collect();
                    if !at.is_empty() {
                        let k = *r.pick(&at);
                        t.insert(k + 1, format!("{},", r.pick(FRAGS)));
                    } else {
                        t.remove(i);
                    }
                }
            }
        }
        let text: String = t.concat();
        let m = meaning(&text);
        c.nontrivial(text.as_bytes());
        c.sample(|| format!("{text} -> {m:?}"));
        let mut cels = HashMap::new();
        match &m {
            Meaning::Is(c) => {
                cels.insert(text.clone(), c.clone());
            }
            Meaning::Invalid(_) => c.obs("malformed_texts"),
            Meaning::Open(_) => c.obs("open: unsettled texts"),
        }
        // the canister certifies this very text, under one meaning or another
        let mut meanings = vec![cel.clone(), Cel::Skip, gen_cel(&mut r)];
        if let Meaning::Is(c2) = &m {
            meanings.push(c2.clone());
            if *c2 != cel {
                c.obs("texts_with_another_meaning");
            }
        }
        for me in meanings {
            let e = one_entry(&mut r, &me, &text);
            let path = path_under(&mut r, &e.pat);
            let w = build_world(&mut r, vec![e]);
            let Some(s) = serve(&mut r, &w, &path, false) else { continue };
            if matches!(m, Meaning::Open(_)) {
                c.guard("verify_request_response_pair", || real_verify(&s).is_ok());
                continue;
            }
            judge(c, &s, &cels, Mode::Both);
        }
    }
}

/// One step away from a sound structure.
fn alter(r: &mut Rng, n: &mut N, spare: &mut N) {
    const NAMES: &[&str] = &[
        "", "Empty", "ValidationArgs", "Certification", "RequestCertification", "ResponseCertification", "ResponseHeaderList", "default_certification", "no_certification", "certification",
        "no_request_certification", "request_certification", "response_certification", "certified_request_headers", "certified_query_parameters", "certified_response_headers", "response_header_exclusions", "headers", "x",
    ];
    let name = r.pick(NAMES).to_string();
    let k = r.below(spare.size());
    let other = spare.nth(k).clone();
    let objects: Vec<usize> = (0..n.size()).filter(|k| matches!(n.nth(*k), N::Obj(..))).collect();
    // fields matter most
    let k = if r.chance(2, 3) && !objects.is_empty() { *r.pick(&objects) } else { r.below(n.size()) };
    let (what, i) = (r.below(8), r.u64() as usize);
    match n.nth(k) {
        N::Obj(id, fs) => match what {
            0 | 1 if !fs.is_empty() => {
                fs.remove(i % fs.len());
            }
            2 => *id = name,
            3 if !fs.is_empty() => {
                let l = fs.len();
                fs[i % l].0 = name;
            }
            4 if !fs.is_empty() => {
                let l = fs.len();
                fs[i % l].1 = other;
            }
            // a field of another object
            5 | 6 => {
                if let N::Obj(_, more) = other {
                    if !more.is_empty() {
                        let at = i % (fs.len() + 1);
                        fs.insert(at, more[i % more.len()].clone());
                        return;
                    }
                }
                let at = i % (fs.len() + 1);
                fs.insert(at, (name, N::Obj("Empty".into(), vec![])));
            }
            _ => fs.reverse(),
        },
        N::Arr(v) => match what {
            0 => *n.nth(k) = other,
            1 if !v.is_empty() => {
                let w = v[i % v.len()].clone();
                *n.nth(k) = w;
            }
            2 | 3 => {
                let at = i % (v.len() + 1);
                v.insert(at, other);
            }
            4 if !v.is_empty() => {
                let at = i % v.len();
                v[at] = N::Arr(vec![v[at].clone()]);
            }
            5 => {
                let w = N::Arr(v.clone());
                *n.nth(k) = N::Arr(vec![w]);
            }
            _ => {
                let w = v.clone();
                *n.nth(k) = N::Obj("ResponseHeaderList".into(), vec![("headers".into(), N::Arr(w))]);
            }
        },
        N::Fun(id, v) => match what {
            0 | 1 => *id = name,
            2 => v.clear(),
            3 if !v.is_empty() => v[0] = N::Arr(vec![v[0].clone()]),
            4 => {
                let w = v.first().cloned();
                if let Some(w) = w {
                    *n.nth(k) = w;
                }
            }
            _ => v.insert(0, other),
        },
        x => *x = other,
    }
}

/// Texts of a sound syntax and a structure that is not quite that of an expression, at a place where the canister
/// has certified everything one might take them for.
fn c13_structure(c: &mut Case) {
    let mut r = c.rng.clone();
    for _ in 0..4 {
        let cel = gen_cel(&mut r);
        let mut n = structure(&cel.text()).expect("a sound text");
        let mut spare = structure(&gen_cel(&mut r).text()).expect("a sound text");
        for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
            alter(&mut r, &mut n, &mut spare);
        }
        let text = spaced(&mut r, n.text());
        let m = meaning(&text);
        c.nontrivial(text.as_bytes());
        c.sample(|| format!("{text} -> {m:?}"));
        let mut lists = vec![vec![]];
        n.lists(&mut lists);
        r.shuffle(&mut lists);
        lists.truncate(5);
        lists.push(vec![]);
        let mut readings: Vec<Cel> = vec![];
        let mut rules: Vec<RespRule> = cel.resp_rule().cloned().into_iter().collect();
        for l in &lists {
            rules.push(RespRule::Include(l.clone()));
            rules.push(RespRule::Exclude(l.clone()));
        }
        let (h, q) = if let Cel::Full { headers, query, .. } = &cel { (headers.clone(), query.clone()) } else { (r.pick(&lists).clone(), r.pick(&lists).clone()) };
        for x in &rules {
            readings.push(Cel::RespOnly(x.clone()));
            for (h, q) in [(h.clone(), q.clone()), (vec![], q.clone()), (h.clone(), vec![]), (q.clone(), h.clone()), (vec![], vec![])] {
                readings.push(Cel::Full { headers: h, query: q, resp: x.clone() });
            }
        }
        let mut cels = HashMap::new();
        match &m {
            Meaning::Is(is) => {
                cels.insert(text.clone(), is.clone());
                if *is != cel {
                    c.obs("texts_with_another_meaning");
                }
                // now and then the one meaning it has is the one that is not certified
                readings.retain(|x| x != is);
                if r.chance(2, 3) {
                    readings.push(is.clone());
                }
                if *is == Cel::Skip && readings.contains(is) {
                    readings = vec![Cel::Skip];
                }
            }
            Meaning::Invalid(_) => c.obs("malformed_structures"),
            Meaning::Open(_) => {
                c.obs("open: unsettled texts");
                continue;
            }
        }
        let first = one_entry(&mut r, &cel, &text);
        let entries: Vec<Entry> = readings.iter().map(|x| Entry { cel: x.clone(), ..first.clone() }).collect();
        let path = path_under(&mut r, &first.pat);
        let w = build_world(&mut r, entries);
        for k in 0..3 {
            let Some(mut s) = serve(&mut r, &w, &path, false) else { continue };
            if k == 0 {
                // the very exchange that was certified under all of these meanings
                let (_, query) = split_url(&first.req.url);
                s.req = Req { url: gen_url(&mut r, &path, query), ..first.req.clone() };
                s.resp = first.resp.clone();
                s.pos = s.pos.min(s.resp.headers.len());
                s.tree = w.full.clone();
            }
            s.log.push(format!("the text {text} certified under {} meanings", readings.len()));
            if judge(c, &s, &cels, Mode::Both) == Some(false) && matches!(m, Meaning::Invalid(_)) {
                c.obs("malformed_structures_refused");
            }
        }
    }
}

/// Long lists: every name counts, wherever it stands.
fn c13_many(c: &mut Case) {
    let mut r = c.rng.clone();
    let many = |r: &mut Rng, p: &str| -> Vec<String> {
        let n = *r.pick(&[0, 1, 2, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 150, 199, 255, 256, 257, 300, 500]);
        let mut v: Vec<String> = (0..n).map(|i| format!("{p}{i}")).collect();
        if r.bool() {
            r.shuffle(&mut v);
        }
        v
    };
    let listed = many(&mut r, "x-r");
    let rule = if r.bool() { RespRule::Include(listed) } else { RespRule::Exclude(listed) };
    let cel = if r.chance(1, 3) { Cel::RespOnly(rule) } else { Cel::Full { headers: many(&mut r, "x-q"), query: many(&mut r, "p"), resp: rule } };
    let text = if r.bool() {
        match c.guard("build expression", || real_text(&cel)) {
            Some(t) => t,
            None => return,
        }
    } else {
        gen_text(&mut r, &cel)
    };
    c.nontrivial(text.as_bytes());
    let e = one_entry(&mut r, &cel, &text);
    let path = path_under(&mut r, &e.pat);
    let w = build_world(&mut r, vec![e]);
    let Some(base) = serve(&mut r, &w, &path, true) else { return };
    if judge(c, &base, &w.cels, Mode::Both) == Some(true) {
        c.obs("long_lists_understood");
    }
    let (hs, qs, rs) = match &cel {
        Cel::Skip => (vec![], vec![], vec![]),
        Cel::RespOnly(RespRule::Include(v)) | Cel::RespOnly(RespRule::Exclude(v)) => (vec![], vec![], v.clone()),
        Cel::Full { headers, query, resp: RespRule::Include(v) | RespRule::Exclude(v) } => (headers.clone(), query.clone(), v.clone()),
    };
    let at = |r: &mut Rng, v: &[String]| -> Option<String> {
        if v.is_empty() {
            return None;
        }
        let n = v.len();
        let i = match r.below(4) {
            0 => n - 1,
            1 => n - 1 - r.below(n.min(4)),
            _ => r.below(n),
        };
        Some(v[i].clone())
    };
    for _ in 0..6 {
        let mut s = base.clone();
        let v = hvalue(&mut r);
        match r.below(3) {
            0 => {
                let Some(n) = at(&mut r, &hs) else { continue };
                s.req.headers.push((recase(&mut r, &n), v));
                s.log.push(format!("a header {n} of the request added"));
            }
            1 => {
                let Some(n) = at(&mut r, &qs) else { continue };
                let sep = if s.req.url.contains('?') { '&' } else { '?' };
                s.req.url.push_str(&format!("{sep}{n}=1"));
                s.log.push(format!("a parameter {n} of the query added"));
            }
            _ => {
                let Some(n) = at(&mut r, &rs) else { continue };
                s.resp.headers.push((recase(&mut r, &n), v));
                s.log.push(format!("a header {n} of the response added"));
            }
        }
        judge(c, &s, &w.cels, Mode::Both);
        c.obs("names_of_long_lists_probed");
    }
}

pub const C13: Property = Property {
    id: "C13",
    rule: "one expression text, certified by a canister under a known meaning, decided by the real verifier and by the reference; distinct by text",
    assumptions: &["names contain neither a double quote nor a backslash", "text after the expression, duplicate or unknown fields, and escapes have no settled meaning"],
    must_observe: &["expressions_understood", "malformed_texts", "malformed_structures_refused", "texts_with_another_meaning", "names_probed", "long_lists_understood", "names_of_long_lists_probed"],
    workloads: &[
        Workload { name: "roundtrip", f: c13_roundtrip, quick: 1_500, thorough: 120_000 },
        Workload { name: "malformed", f: c13_malformed, quick: 700, thorough: 60_000 },
        Workload { name: "structure", f: c13_structure, quick: 700, thorough: 60_000 },
        Workload { name: "many", f: c13_many, quick: 800, thorough: 40_000 },
    ],
};

// ---------------------------------------------------------------- C14

fn c14_functions(c: &mut Case) {
    let mut r = c.rng.clone();
    for _ in 0..20 {
        let path = gen_path(&mut r);
        let path = if r.bool() { path } else { extend_path(&mut r, &path) };
        let req = segments(&path);
        let wilds = wildcards_for(&path);
        c.nontrivial(path.as_bytes());
        c.sample(|| path.clone());
        let with = |p: &[Vec<u8>], end: &[u8]| {
            let mut v = vec![b"http_expr".to_vec()];
            v.extend(p.iter().cloned());
            v.push(end.to_vec());
            v
        };
        for (i, w) in wilds.iter().enumerate() {
            // all of a usual path, some of a very long one
            if wilds.len() > 40 && i > 1 && i + 2 < wilds.len() && !r.chance(10, wilds.len() as _) {
                continue;
            }
            let Some(ok) = c.guard("is_wildcard_path_valid_for_request_path", || is_wildcard_path_valid_for_request_path(w, &req)) else { return };
            c.check(ok, "covers", || format!("wildcard {w:?} is said not to cover {path}"));
            let Some(got) = c.guard("more_specific_wildcards_for", || more_specific_wildcards_for(&with(&req, b"<$>"), &with(w, b"<*>"))) else { return };
            let want: Vec<Vec<Vec<u8>>> = wilds[..i].iter().map(|x| with(x, b"<*>")[1..].to_vec()).collect();
            let missing: Vec<_> = want.iter().filter(|x| !got.contains(x)).collect();
            c.check(missing.is_empty(), "more-specific", || format!("for {path} answered by {w:?} the more specific wildcards {missing:?} are not listed, got {got:?}"));
            let extra: Vec<_> = got.iter().filter(|x| !want.contains(x)).collect();
            c.check(extra.is_empty(), "not-more-specific", || format!("for {path} answered by {w:?}, {extra:?} are listed but are not more specific wildcards"));
            c.obs("wildcard_pairs");
        }
        // other wildcards
        for _ in 0..6 {
            let p = if r.bool() { gen_path(&mut r) } else { extend_path(&mut r, &path) };
            let w = segments(&p);
            if wilds.contains(&w) || (w.last().map(|l| l.is_empty()).unwrap_or(false) && w[..w.len() - 1] == req[..]) {
                continue;
            }
            let Some(ok) = c.guard("is_wildcard_path_valid_for_request_path", || is_wildcard_path_valid_for_request_path(&w, &req)) else { return };
            c.check(!ok, "covers-too-much", || format!("wildcard {w:?} is said to cover {path}"));
            c.obs("foreign_wildcards");
        }
    }
}

/// Every pattern of a dense family of nested patterns, tried for every request.
fn c14_decisions(c: &mut Case) {
    let mut r = c.rng.clone();
    // patterns around one deep path
    let mut base = String::from("/");
    for i in 0..r.range(1, 4) {
        if i > 0 {
            base.push('/');
        }
        base.push_str(*r.pick(&["a", "b", "<*>", "<$>", "http_expr", "c d", "é"]));
    }
    let mut pats = vec![];
    let mut p = base.clone();
    loop {
        let slash = if p.ends_with('/') { p.clone() } else { format!("{p}/") };
        for x in [p.clone(), slash] {
            pats.push(Pat::Exact(x.clone()));
            pats.push(Pat::Wild(x));
        }
        if p == "/" {
            break;
        }
        p = parent(&p);
    }
    pats.push(Pat::Wild(String::new()));
    r.shuffle(&mut pats);
    let n = r.range(1, 5).min(pats.len());
    let mut entries: Vec<Entry> = vec![];
    let one_cel = gen_cel(&mut r);
    let text = one_cel.text();
    let resp = gen_resp(&mut r, &text);
    for p in &pats[..n] {
        if entries.iter().any(|e| e.pat.segs() == p.segs()) {
            continue;
        }
        let path = path_under(&mut r, p);
        let resp = if r.bool() { resp.clone() } else { gen_resp(&mut r, &text) };
        entries.push(Entry { pat: p.clone(), cel: one_cel.clone(), text: text.clone(), req: gen_req(&mut r, &path), resp });
    }
    let can = match c.guard("certify", || Canister::new(&mut r, entries)) {
        Some(Ok(x)) => x,
        Some(Err(e)) => return c.viol("certify", e),
        None => return,
    };
    c.nontrivial(format!("{:?}", can.w.entries.iter().map(|e| &e.pat).collect::<Vec<_>>()).as_bytes());
    for _ in 0..5 {
        let mut path = if r.chance(2, 3) { base.clone() } else { interesting_path(&mut r, &can.w) };
        match r.below(5) {
            0 => path = parent(&path),
            1 => path = extend_path(&mut r, &path),
            2 if !path.ends_with('/') => path.push('/'),
            _ => {}
        }
        let best = best_pattern(&can.w, &path);
        for (i, e) in can.w.entries.clone().into_iter().enumerate() {
            // the entry's own request, moved to this path
            let (_, q) = split_url(&e.req.url);
            let url = gen_url(&mut r, &path, q);
            let req = Req { url, ..e.req.clone() };
            let mut s = Served {
                req,
                resp: e.resp.clone(),
                cert: can.w.cert.clone(),
                tree: T::Empty,
                expr: e.pat.expr_path(),
                version: Some("2".into()),
                entry: i,
                raw: None,
                extra: vec![],
                pos: 0,
                name: CERT_HEADER.into(),
                canister: can.w.id.clone(),
                now: can.w.now,
                offset: can.w.offset,
                root_der: authority().root.der(),
                min_version: 2,
                odd: false,
                log: vec![format!("request {path}, answered by {:?}, best {best:?}, certified {:?}", e.pat, can.w.entries.iter().map(|e| &e.pat).collect::<Vec<_>>())],
            };
            let x = c.guard("witness", || can.header_for(&e, &path, &e.resp));
            let is_best = best.as_ref() == Some(&e.pat);
            match x {
                Some(Ok((t, h))) => {
                    s.tree = t;
                    s.raw = Some(h);
                    let got = judge(c, &s, &can.w.cels, Mode::Both);
                    if got == Some(true) {
                        c.obs("best_pattern_accepted");
                    }
                    if got == Some(false) && !is_best {
                        c.obs("other_pattern_refused");
                    }
                }
                Some(Err(m)) => {
                    if is_best {
                        c.viol("witness", format!("no witness for the best pattern: {m}; {:?}", s.log));
                    }
                    continue;
                }
                None => return,
            }
            // the same claim against the whole tree, shown completely
            let mut t = s.clone();
            t.raw = None;
            t.tree = can.w.full.clone();
            t.cert = honest(&mut r, &t.canister, &t.tree.digest(), can.w.time, false, 0);
            t.log.push("complete tree".into());
            judge(c, &t, &can.w.cels, Mode::Both);
            c.obs("complete_trees");
            // and with parts of the tree withheld: all that is not needed for the claim itself, or anything
            let place = entry_path(&e);
            let shown = |t: &T| matches!(look_subtree(t, &place), Look::Found(T::Leaf(_)));
            let (only, k) = (r.bool(), 1 + r.below(3) as u32);
            t.tree = if only { prune_greedy(&mut r, &can.w.full, &shown) } else { crate::gen::prune(&mut r, &can.w.full, k) };
            t.log.push(format!("pruned tree {only}"));
            if judge(c, &t, &can.w.cels, Mode::Both) == Some(false) && shown(&t.tree) {
                c.obs("withheld_refused");
            }
            // some of what the library's witness shows is withheld
            if s.raw.is_some() && is_best {
                let n = 1 + r.below(12);
                if let Some(x) = prune_nth(&s.tree, n) {
                    let mut t = s.clone();
                    t.raw = None;
                    t.tree = x;
                    t.log.push("witness with a part pruned".into());
                    if judge(c, &t, &can.w.cels, Mode::Both) == Some(false) && shown(&t.tree) {
                        c.obs("withheld_refused");
                    }
                }
            }
        }
    }
}

pub const C14: Property = Property {
    id: "C14",
    rule: "one (request path, wildcard) pair for the path functions, one (set of certified patterns, request, responding pattern) for decisions; distinct by path or pattern set",
    assumptions: &["a wildcard that ends in a slash is not settled for the path without that slash"],
    must_observe: &["wildcard_pairs", "foreign_wildcards", "best_pattern_accepted", "other_pattern_refused", "complete_trees", "withheld_refused"],
    workloads: &[
        Workload { name: "functions", f: c14_functions, quick: 8_000, thorough: 400_000 },
        Workload { name: "decisions", f: c14_decisions, quick: 1_200, thorough: 60_000 },
    ],
};

// ---------------------------------------------------------------- C15

fn c15_library(c: &mut Case) {
    let mut r = c.rng.clone();
    let id = canister_id(r.below(1 << 20) as u64);
    let time = 1_700_000_000_000_000_000 + (r.u64() >> 24);
    let Some(data) = c.guard("skip_certification_certified_data", skip_certification_certified_data) else { return };
    let (dl, noise) = (r.chance(1, 4), r.below(2));
    let cert = honest(&mut r, &id, &data, time, dl, noise);
    let w2 = gen_world(&mut r);
    for _ in 0..4 {
        let path = gen_path(&mut r);
        let req = gen_req(&mut r, &path);
        let mut resp = gen_resp(&mut r, "");
        resp.headers.retain(|h| !h.0.eq_ignore_ascii_case(EXPR_HEADER));
        // a response that came with headers of its own of that kind: the added ones are the last, and count
        if r.chance(1, 4) {
            let full = w2.entries.first().map(|e| e.text.clone()).unwrap_or_default();
            let text = if r.bool() { full } else { "default_certification(ValidationArgs{no_certification:Empty{}})".into() };
            let name = *r.pick(&[EXPR_HEADER, "ic-certificateexpression"]);
            resp.headers.push((name.into(), text));
            if r.bool() {
                resp.headers.push(("IC-Certificate".into(), "certificate=:AQID:, tree=:2dn3:, version=2".into()));
            }
            c.obs("skip_over_other_headers");
        }
        let mut real = real_response(&resp);
        if c.guard("add_skip_certification_header", || add_skip_certification_header(cert.cbor(), &mut real)).is_none() {
            return;
        }
        let v = |c: &mut Case, id: &[u8], now: u128, off: u128, key: &[u8], min: u8| {
            c.guard("verify_request_response_pair", || ic_response_verification::verify_request_response_pair(real_request(&req), real.clone(), id, now, off, key, min).map(|i| out_of(&i)))
        };
        let der = authority().root.der();
        let Some(ok) = v(c, &id, time as u128, 0, &der, 2) else { return };
        c.nontrivial(format!("{req:?}{resp:?}").as_bytes());
        c.sample(|| format!("{} {} skipped", req.method, req.url));
        c.check(ok.as_ref().ok() == Some(&Out { version: 2, response: None }), "skip-accepted", || format!("a response whose certification the canister skips gave {ok:?}; {req:?}"));
        c.obs("skip_accepted");
        // still tied to the canister, to the time and to the key
        let other = canister_id(1 << 21);
        for (id, now, off, key, why) in [
            (&other, time as u128, 0u128, &der, "another canister"),
            (&id, time as u128 + 1, 0, &der, "too late"),
            (&id, time as u128 - 1, 0, &der, "too early"),
            (&id, time as u128, 0, &authority().other.der(), "another root key"),
        ] {
            let Some(x) = v(c, id, now, off, key, 2) else { return };
            c.check(x.is_err(), "skip-untied", || format!("skipping was accepted for {why}: {x:?}"));
            c.obs("skip_refused");
        }
        // a canister that certifies something else does not authorise skipping
        let mut forged = real_response(&resp);
        add_skip_certification_header(w2.cert.cbor(), &mut forged);
        let x = c.guard("verify_request_response_pair", || ic_response_verification::verify_request_response_pair(real_request(&req), forged, &w2.id, w2.time as u128, 0, &der, 0).is_ok());
        let legit = w2.full.digest() == data;
        c.check(x == Some(legit), "skip-forged", || format!("the skip header with the certificate of a canister certifying {:?} gave {x:?}", w2.entries.iter().map(|e| (&e.pat, &e.cel)).collect::<Vec<_>>()));
        c.obs("skip_refused");
    }
}

/// Skipping next to certified content.
fn c15_mixed(c: &mut Case) {
    let mut r = c.rng.clone();
    let mut es = gen_world(&mut r).entries;
    let skip = Cel::Skip;
    for e in es.iter_mut() {
        if r.chance(1, 3) {
            let t = if r.bool() { skip.text() } else { gen_text(&mut r, &skip) };
            e.cel = Cel::Skip;
            e.resp = gen_resp(&mut r, &t);
            e.text = t;
        }
    }
    let w = build_world(&mut r, es);
    let o = gen_world(&mut r);
    let mut cels = w.cels.clone();
    cels.insert(skip.text(), Cel::Skip);
    for _ in 0..5 {
        let path = interesting_path(&mut r, &w);
        let greedy = r.bool();
        let Some(h) = serve(&mut r, &w, &path, greedy) else { continue };
        c.nontrivial(&[&h.tree.digest()[..], path.as_bytes()].concat());
        judge(c, &h, &cels, Mode::Both);
        for _ in 0..5 {
            // claim to be skipped
            let mut s = h.clone();
            let t = if r.bool() { skip.text() } else { r.pick(&w.entries).text.clone() };
            match s.resp.headers.iter_mut().find(|x| x.0.eq_ignore_ascii_case(EXPR_HEADER)) {
                Some(x) => x.1 = t,
                None => continue,
            }
            s.log.push("claims another expression".into());
            match r.below(5) {
                0 => s.expr = Pat::Wild(String::new()).expr_path(),
                1 => s.expr = r.pick(&w.entries).pat.expr_path(),
                2 => s.tree = w.full.clone(),
                3 => tamper(&mut r, &mut s, &w, &o),
                _ => {}
            }
            if r.bool() {
                s.resp.body = gen_body(&mut r);
                s.resp.status = *r.pick(STATUSES);
            }
            if s.expr.is_empty() {
                continue;
            }
            let mut cels = cels.clone();
            cels.extend(o.cels.clone());
            let claimed_skip = s.resp.headers.iter().any(|x| x.0.eq_ignore_ascii_case(EXPR_HEADER) && cels.get(&x.1) == Some(&Cel::Skip));
            let got = judge(c, &s, &cels, Mode::Sound);
            if claimed_skip {
                c.obs(if got == Some(true) { "skip_claims_granted" } else { "skip_claims_refused" });
            }
        }
    }
}

pub const C15: Property = Property {
    id: "C15",
    rule: "one response that claims to be exempt from certification, or that the library marks as such, decided by the real verifier; distinct by request and response or by witness and path",
    assumptions: &["BLS signatures cannot be forged and SHA-256 has no collisions"],
    must_observe: &["skip_accepted", "skip_refused", "skip_claims_granted", "skip_claims_refused"],
    workloads: &[
        Workload { name: "library", f: c15_library, quick: 1_200, thorough: 60_000 },
        Workload { name: "mixed", f: c15_mixed, quick: 1_500, thorough: 80_000 },
    ],
};

// ---------------------------------------------------------------- C16

pub fn gz(b: &[u8], level: u32) -> Vec<u8> {
    use std::io::Write;
    let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::new(level));
    e.write_all(b).unwrap();
    e.finish().unwrap()
}
pub fn deflate(b: &[u8], level: u32) -> Vec<u8> {
    use std::io::Write;
    let mut e = flate2::write::DeflateEncoder::new(vec![], flate2::Compression::new(level));
    e.write_all(b).unwrap();
    e.finish().unwrap()
}

fn c16_assets(c: &mut Case) {
    let mut r = c.rng.clone();
    let id = canister_id(r.below(1 << 20) as u64);
    let time = 1_700_000_000_000_000_000 + (r.u64() >> 24);
    let mut assets: Vec<(String, Vec<u8>, Vec<u8>, Option<&str>)> = vec![]; // path, certified, sent, encoding
    let mut m = M::new();
    for _ in 0..r.range(1, 5) {
        let p = if r.chance(1, 3) { "/index.html".to_string() } else { gen_path(&mut r) };
        if assets.iter().any(|a| a.0 == p) {
            continue;
        }
        // now and then beyond the sizes at which buffers are divided
        let n = if r.chance(1, 25) { *r.pick(&[1023, 1024, 1025, 8192, 32_768, 65_535, 65_536, 65_537, 70_000, 200_000, 1_100_000]) } else { *r.pick(&[0, 1, 5, 300, 5000]) };
        let mut b = if r.bool() { r.bytes(n) } else { vec![b'x'; n] };
        let lvl = r.below(10) as u32;
        let huge = r.chance(1, 500);
        if huge {
            // as much as an asset canister holds in one piece, and more
            b = vec![b'x'; *r.pick(&[2_000_001, 10_485_761, 17_000_000])];
            c.obs("v1_huge_bodies");
        }
        let (cert, sent, enc) = match r.below(if huge { 2 } else { 6 }) {
            0 => (b.clone(), gz(&b, lvl), Some("gzip")),
            1 => (b.clone(), deflate(&b, lvl), Some("deflate")),
            2 => (gz(&b, lvl), gz(&b, lvl), Some("gzip")),
            3 => (b.clone(), b.clone(), Some(*r.pick(&["br", "identity", "zstd", ""]))),
            _ => (b.clone(), b.clone(), None),
        };
        m.insert(&[b"http_assets".to_vec(), p.clone().into_bytes()], sha(&[&cert]).to_vec());
        assets.push((p, cert, sent, enc));
    }
    // what no asset canister certifies: something that is not a hash, or a subtree, where a hash belongs
    let mut strange: Vec<String> = vec![];
    for _ in 0..r.below(3) {
        let p = if r.chance(1, 6) { "/index.html".to_string() } else { gen_path(&mut r) };
        if assets.iter().any(|a| a.0 == p) {
            continue;
        }
        let h = sha(&[&assets[0].1]).to_vec();
        let at = [b"http_assets".to_vec(), p.clone().into_bytes()];
        match r.below(5) {
            0 => m.insert(&at, vec![]),
            1 => m.insert(&at, h[..r.range(1, 31)].to_vec()),
            2 => m.insert(&at, [h, vec![0; r.range(1, 3)]].concat()),
            3 => m.insert(&[at[0].clone(), at[1].clone(), r.pick(&[b"".to_vec(), b"a".to_vec(), b"<$>".to_vec(), h.clone()]).clone()], h),
            _ => m.insert(&at, assets[0].1.clone()),
        }
        strange.push(p);
    }
    if r.chance(1, 3) {
        m.insert(&[b"http_expr".to_vec(), b"a".to_vec(), b"<$>".to_vec(), sha(&[b"x"]).to_vec()], vec![]);
    }
    let full = crate::gen::tree_of(&mut r, &m, 0);
    let (dl, noise) = (r.chance(1, 4), r.below(2));
    let cert = honest(&mut r, &id, &full.digest(), time, dl, noise);
    let o = gen_world(&mut r);
    for _ in 0..6 {
        let a = r.pick(&assets).clone();
        // the first asset or the index, offered at a path where something else stands
        let odd_path = (!strange.is_empty() && r.chance(1, 3)).then(|| r.pick(&strange).clone());
        let a = match &odd_path {
            Some(_) => assets.iter().find(|x| x.0 == "/index.html").filter(|_| r.bool()).unwrap_or(&assets[0]).clone(),
            None => a,
        };
        if odd_path.is_some() {
            c.obs("v1_strange_values");
        }
        let path = match r.below(5) {
            _ if odd_path.is_some() => odd_path.unwrap(),
            0 => gen_path(&mut r),
            1 => {
                let x = extend_path(&mut r, &a.0);
                x
            }
            _ => a.0.clone(),
        };
        let mut headers: Vec<(String, String)> = gen_headers(&mut r, 3).into_iter().filter(|h| !h.0.eq_ignore_ascii_case("content-encoding")).collect();
        if let Some(e) = a.3 {
            headers.push((recase(&mut r, "Content-Encoding"), e.to_string()));
        }
        let mut s = Served {
            req: gen_req(&mut r, &path),
            resp: Resp { status: *r.pick(STATUSES), headers, body: a.2.clone() },
            cert: cert.clone(),
            tree: full.clone(),
            expr: vec![],
            version: r.pick(&[None, Some("1")]).map(|x| x.to_string()),
            entry: 0,
            raw: None,
            extra: vec![],
            pos: 0,
            name: recase(&mut r, CERT_HEADER),
            canister: id.clone(),
            now: time as u128,
            offset: 0,
            root_der: authority().root.der(),
            min_version: *r.pick(&[0, 1, 1, 1, 2]),
            odd: false,
            log: vec![format!("version 1: {path}, answered with {} ({:?})", a.0, a.3)],
        };
        let p = *r.pick(&[0, 50, 200]);
        s.tree = crate::gen::prune(&mut r, &full, p);
        c.nontrivial(format!("{path}{:?}{}", a.3, assets.len()).as_bytes());
        c.sample(|| describe(&s));
        let none = HashMap::new();
        if judge(c, &s, &none, Mode::Both) == Some(true) {
            c.obs("v1_accepted");
            if path != a.0 {
                c.obs("v1_index_fallback");
            }
            if a.3 == Some("gzip") || a.3 == Some("deflate") {
                c.obs("v1_encoded_accepted");
            }
        }
        for _ in 0..5 {
            let mut s = s.clone();
            match r.below(10) {
                0 => {
                    s.resp.body = r.pick(&assets).1.clone();
                    s.log.push("body of another asset".into());
                }
                1 => {
                    let lvl = r.below(10) as u32;
                    s.resp.body = if r.bool() { gz(&a.1, lvl) } else { deflate(&a.1, lvl) };
                    s.log.push("recompressed".into());
                }
                2 => {
                    s.resp.headers.retain(|h| !h.0.eq_ignore_ascii_case("content-encoding"));
                    if r.bool() {
                        s.resp.headers.push(("content-encoding".into(), r.pick(&["gzip", "deflate", "br", "GZIP", "gzip, deflate", "identity"]).to_string()));
                        if matches!(s.resp.headers.last().unwrap().1.as_str(), "GZIP" | "gzip, deflate") {
                            s.odd = true;
                        }
                    }
                    s.log.push("content encoding".into());
                }
                3 => {
                    let mut b = s.resp.body.clone();
                    crate::gen::mutate_bytes(&mut r, &mut b, &a.1);
                    s.resp.body = b;
                    s.log.push("body bytes".into());
                }
                4 => {
                    let n = s.resp.body.len();
                    s.resp.body.truncate(r.below(n + 1));
                    s.log.push("body truncated".into());
                }
                5 => {
                    s.resp.body.extend_from_slice(&gz(b"more", 6));
                    s.log.push("second gzip member".into());
                    s.odd = true;
                }
                6 => {
                    let n = s.tree.size();
                    if let Some(t) = prune_nth(&s.tree, r.below(n)) {
                        s.tree = t;
                    }
                    s.log.push("witness pruned".into());
                }
                7 => {
                    let p = match r.below(3) {
                        0 => gen_path(&mut r),
                        1 => "/index.html".into(),
                        _ => r.pick(&assets).0.clone(),
                    };
                    s.req.url = gen_url(&mut r, &p, None);
                    s.log.push(format!("path {p}"));
                }
                8 => {
                    s.tree = o.full.clone();
                    s.log.push("tree of another canister".into());
                }
                _ => {
                    s.cert = o.cert.clone();
                    if r.bool() {
                        s.canister = o.id.clone();
                    }
                    s.log.push("certificate of another canister".into());
                }
            }
            if judge(c, &s, &none, Mode::Both) == Some(false) {
                c.obs("v1_refused");
            }
        }
    }
}

pub const C16: Property = Property {
    id: "C16",
    rule: "one version-1 exchange (asset, encoding, witness) decided by the real verifier and by the reference; distinct by path, encoding and number of assets",
    assumptions: &["flate2 is the trusted gzip/deflate primitive", "encoding names are compared as the protocol writes them, in lower case; multi-member gzip bodies are left open"],
    must_observe: &["v1_accepted", "v1_index_fallback", "v1_encoded_accepted", "v1_refused", "v1_strange_values"],
    workloads: &[Workload { name: "assets", f: c16_assets, quick: 2_500, thorough: 120_000 }],
};

// ---------------------------------------------------------------- C23

fn c23_versions(c: &mut Case) {
    let mut r = c.rng.clone();
    // a canister that certifies under both versions
    let mut es = gen_world(&mut r).entries;
    es.truncate(3);
    let mut m = entries_map(&es);
    let path = path_under(&mut r, &es[0].pat);
    let body = es[0].resp.body.clone();
    m.insert(&[b"http_assets".to_vec(), path.clone().into_bytes()], sha(&[&body]).to_vec());
    let full = crate::gen::tree_of(&mut r, &m, 0);
    let w = finish_world(&mut r, es, full);
    let Some(mut s) = serve(&mut r, &w, &path, false) else { return };
    s.tree = w.full.clone();
    s.min_version = 0;
    for v in [None, Some("1"), Some("2"), Some("3"), Some("0"), Some("255"), Some("256"), Some("-1"), Some("two"), Some("1.0"), Some("99999999999999999999")] {
        for min in [0u8, 1, 2, 3, 255] {
            let mut x = s.clone();
            x.version = v.map(|v| v.to_string());
            x.min_version = min;
            x.log.push(format!("version {v:?}, at least {min}"));
            c.nontrivial(format!("{v:?}{min}{:?}", x.expr).as_bytes());
            c.sample(|| describe(&x));
            let got = judge(c, &x, &w.cels, Mode::Both);
            if got == Some(true) {
                let n: u32 = v.map(|v| v.parse().unwrap()).unwrap_or(1);
                c.obs(if n == 1 { "version_1_accepted" } else { "version_2_accepted" });
                c.check(n >= min as u32, "downgrade", || format!("version {n} accepted although at least {min} was asked for: {}", describe(&x)));
            } else {
                c.obs("version_refused");
            }
        }
    }
    // the header's fields mean the same in any order, with unknown ones in between
    let f = |n: &str, v: &str| format!("{n}=:{v}:");
    for _ in 0..6 {
        let mut x = s.clone();
        x.min_version = *r.pick(&[0, 1, 2]);
        let ver = *r.pick(&[1, 2, 2]);
        let mut fs = vec![
            f("certificate", &b64(&x.cert.cbor())),
            f("tree", &b64(&tree_cbor(&x.tree, r.bool()))),
            f("expr_path", &b64(&strings_cbor(&x.expr))),
            format!("version={ver}"),
        ];
        let mut missing = None;
        if r.chance(1, 3) {
            missing = Some(fs.remove(r.below(3)));
        }
        for _ in 0..r.below(3) {
            fs.push(match r.below(3) {
                0 => f("extra", "AAAA"),
                1 => f("certificates", &b64(&x.cert.cbor())),
                _ => f("Tree", "!!"),
            });
        }
        r.shuffle(&mut fs);
        // optional white space around fields, empty fields, and a field list that begins or ends with either
        let mut h = fs.join(*r.pick(&[", ", ",", ", ", ",\t", " , ", "\t,  ", ", ,", ",  \t "]));
        match r.below(8) {
            0 => h.push_str(*r.pick(&[" ", ",", ", ", "\t"])),
            1 => h.insert_str(0, *r.pick(&[" ", ",", ", ", "\t"])),
            _ => {}
        }
        x.raw = Some(h);
        x.log.push(format!("version {ver}, fields in another order, {} missing", missing.is_some()));
        judge(c, &x, &w.cels, Mode::Both);
        c.obs("field_orders");
    }
}

pub const C23: Property = Property {
    id: "C23",
    rule: "one exchange certified under both versions, with one (version field, minimum version) pair or one order of the header's fields; distinct by the pair and the expression path",
    assumptions: &["version numbers are written in plain decimal"],
    must_observe: &["version_1_accepted", "version_2_accepted", "version_refused", "field_orders"],
    workloads: &[Workload { name: "versions", f: c23_versions, quick: 1_000, thorough: 50_000 }],
};
