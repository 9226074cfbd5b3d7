//! C26: the JavaScript certificate verifier, run under node.
use crate::case::Case;
use crate::cert::*;
use crate::gen::mutate_bytes;
use crate::node::Node;
use crate::rng::Rng;
use crate::spec::*;
use crate::{Property, Workload};
use serde_json::json;
use std::cell::RefCell;

thread_local! {
    static NODE: RefCell<Option<Node>> = const { RefCell::new(None) };
}

fn data_tree(r: &mut Rng) -> T {
    let mut m = M::new();
    for _ in 0..r.range(1, 6) {
        let n = r.below(3);
        let path: Vec<Vec<u8>> = (0..=n)
            .map(|_| {
                let k = r.below(4);
                r.bytes(k)
            })
            .collect();
        let k = *r.pick(&[0, 1, 32, 300]);
        m.insert(&path, r.bytes(k));
    }
    let t = crate::gen::tree_of(r, &m, 0);
    let p = *r.pick(&[0, 30, 90]);
    crate::gen::prune(r, &t, p)
}

fn c26_case(c: &mut Case) {
    let mut r = c.rng.clone();
    let id = canister_id(r.below(1 << 20) as u64);
    let other_id = canister_id((1 << 21) + r.below(1 << 20) as u64);
    let root = authority().root.der();
    let tree = data_tree(&mut r);
    let now: u64 = 1_700_000_000_000 + (r.u64() >> 32);
    let offset: i64 = *r.pick(&[0, 1, 5_000, 300_000, 86_400_000, 5_000, 300_000, 31_536_000_000, 1 << 40, (1 << 53) - 1]);
    // the certificate's time, in milliseconds and a bit
    let sooner = r.range(1, 1 << 30) as i64;
    let at = now as i64;
    let ms = match r.below(8) {
        0 => at - offset,
        1 => at + offset,
        2 => at - offset - 1,
        3 => at + offset + 1,
        4 => at - offset - sooner,
        5 => at + offset + sooner + 1,
        _ => at - offset / 2 + r.below(offset as usize + 1) as i64,
    }
    .clamp(0, 18_000_000_000_000) as u64;
    let ns = ms * 1_000_000 + if r.bool() { r.below(1_000_000) as u64 } else { 0 };
    let mut data = tree.digest().to_vec();
    let mut log = vec![];
    // what the canister certified
    match r.below(12) {
        0 => data = r.bytes(32),
        1 => {
            let i = r.below(32);
            data[i] ^= 1 << r.below(8);
            log.push("certified data differs in a bit");
        }
        2 => {
            data.truncate(r.below(32));
            log.push("certified data shortened");
        }
        3 => {
            data.push(0);
            log.push("certified data extended");
        }
        4 => {
            let k = r.below(31) + 1;
            data.rotate_left(k);
            log.push("certified data rotated");
        }
        _ => {}
    }
    let noise = r.below(3);
    let mut cans = vec![(if r.chance(1, 12) { other_id.clone() } else { id.clone() }, data.clone())];
    if r.bool() {
        cans.push((canister_id((1 << 23) + r.below(99) as u64), if r.bool() { tree.digest().to_vec() } else { r.bytes(32) }));
    }
    let mut state = state_tree(&mut r, &StateOpts { canisters: cans, time: ns, noise });
    // a certificate that says less or other things
    match r.below(16) {
        0 => {
            let keep = vec![vec![b"time".to_vec()]];
            state = prune_except(&mut r, &state, &keep, 100);
            log.push("only the time is left");
        }
        1 => {
            let keep = vec![vec![b"canister".to_vec()]];
            state = prune_except(&mut r, &state, &keep, 100);
            log.push("the time is pruned");
        }
        2 => {
            let f = vec![(b"certified_data".to_vec(), leaf(&data))];
            let x = map_tree(&mut r, f);
            let y = map_tree(&mut r, vec![(id.clone(), x)]);
            let t = r.pick(&[vec![], vec![0x80], vec![0xff; 9], leb(0), leb(u64::MAX)]).clone();
            state = map_tree(&mut r, vec![(b"canister".to_vec(), y), (b"time".to_vec(), leaf(t))]);
            log.push("odd time");
        }
        _ => {}
    }
    let cert = Cert { tree: state, signature: r.bytes(48), delegation: None };
    let cert_bytes = cert.cbor();
    let mut genuine = vec![(cert_bytes.clone(), id.clone(), root.clone())];
    let mut trusted = true;
    match r.below(14) {
        0 => {
            genuine.clear();
            trusted = false;
        }
        1 => {
            genuine[0].1 = other_id.clone();
            trusted = false;
        }
        2 => {
            genuine[0].2 = authority().other.der();
            trusted = false;
        }
        3 => {
            genuine[0].0.pop();
            trusted = false;
        }
        _ => {}
    }
    // the witness that comes along
    let mut sent = tree_cbor(&tree, r.bool());
    let mut decodes = true;
    let mut sent_tree = tree.clone();
    match r.below(12) {
        0 => {
            sent_tree = data_tree(&mut r);
            sent = tree_cbor(&sent_tree, true);
            log.push("another tree");
        }
        1 => {
            let p = *r.pick(&[20, 60, 100]);
            sent_tree = crate::gen::prune(&mut r, &tree, p);
            sent = tree_cbor(&sent_tree, true);
        }
        2 => {
            sent_tree = T::Pruned(tree.digest());
            sent = tree_cbor(&sent_tree, false);
        }
        3 => {
            let o = r.bytes(8);
            mutate_bytes(&mut r, &mut sent, &o);
            decodes = false; // perhaps
            log.push("bytes of the tree altered");
        }
        _ => {}
    }
    // the decision by the documentation
    let time = look_path(&cert.tree, &[b"time".to_vec()]);
    let certified = look_path(&cert.tree, &[b"canister".to_vec(), id.clone(), b"certified_data".to_vec()]);
    let t = match &time {
        LookPath::Found(v) => {
            let mut x: u128 = 0;
            let mut ok = false;
            for (i, b) in v.iter().enumerate() {
                x |= ((b & 0x7f) as u128) << (7 * i.min(16));
                if b & 0x80 == 0 {
                    ok = i + 1 == v.len();
                    break;
                }
            }
            ok.then_some(x)
        }
        _ => None,
    };
    let m = 1_000_000u128;
    let (lo, hi) = ((at - offset).max(0) as u128 * m, (at + offset) as u128 * m);
    let time_ok = t.map(|t| if t < lo || t >= hi + m { Some(false) } else if t <= hi { Some(true) } else { None });
    let data_ok = matches!(&certified, LookPath::Found(v) if *v == sent_tree.digest());
    let verdict = if !trusted || !data_ok || time_ok.is_none() || time_ok == Some(Some(false)) {
        Some(false)
    } else if time_ok == Some(None) {
        None
    } else {
        Some(true)
    };
    let what = || format!("now {now} ms, offset {offset} ms, certificate time {t:?} ns ({time:?}), trusted {trusted}, certified data {certified:02x?}, tree digest {:02x?}, {log:?}", sent_tree.digest());
    c.nontrivial(format!("{log:?}{verdict:?}{trusted}{time_ok:?}{data_ok}{offset}{noise}{:?}", sent.len()).as_bytes());
    c.sample(what);
    let g: Vec<[String; 3]> = genuine.iter().map(|x| [b64(&x.0), b64(&x.1), b64(&x.2)]).collect();
    let msg = json!({"now": now, "offset": offset, "genuine": g, "certificate": b64(&cert_bytes), "canister": b64(&id), "root": b64(&root), "tree": b64(&sent)});
    let v = NODE.with(|n| {
        let mut n = n.borrow_mut();
        let node = n.get_or_insert_with(|| Node::start("js/drive.js", "/repo/packages/certificate-verification-js/src"));
        let v = node.ask(&msg);
        if v.is_none() {
            *n = None;
        }
        v
    });
    c.eval();
    let Some(v) = v else {
        c.viol("silent", format!("the verifier's process died or gave no answer: {}", what()));
        return;
    };
    let ok = v["ok"] == json!(true);
    c.check(v["touched"] == json!(false), "inputs", || format!("the encoded tree was altered: {}", what()));
    if !decodes {
        // what the bytes mean now is for the (stand-in) decoder to say: only untrusted certificates are judged
        c.obs("altered_trees");
        if ok && (!trusted || time_ok.is_none() || time_ok == Some(Some(false))) {
            c.viol("unsound", format!("accepted an altered tree although {}", what()));
        }
        return;
    }
    match (verdict, ok) {
        (Some(true), true) => {
            c.obs("accepted_rightly");
            c.check(v["same"] == json!(true), "tree", || format!("the returned tree is not the one that was sent: {}", what()));
            c.check(v["created"].as_u64() > Some(0), "chain", || format!("accepted without verifying the certificate: {}", what()));
        }
        (Some(false), false) => {
            c.obs("rejected_rightly");
            c.check(v["isError"] == json!(true), "error", || format!("rejected with something that is not an Error: {v}: {}", what()));
            if trusted && time_ok == Some(Some(false)) && data_ok {
                c.obs("rejected_for_time");
                c.check(v["name"] == json!("CertificateTimeError"), "error-name", || format!("rejected with {v} for its time: {}", what()));
            }
            if trusted && time_ok == Some(Some(true)) && !data_ok {
                c.obs("rejected_for_data");
                c.check(v["name"] == json!("CertificateVerificationError"), "error-name", || format!("rejected with {v} for its data: {}", what()));
            }
            if !trusted {
                c.obs("rejected_for_certificate");
            }
        }
        (Some(true), false) => c.viol("incomplete", format!("rejected with {} {}: {}", v["name"], v["message"], what())),
        (Some(false), true) => c.viol("unsound", format!("accepted although {}", what())),
        (None, _) => c.obs("open"),
    }
}

pub const C26: Property = Property {
    id: "C26",
    rule: "one call of verifyCertification under node, judged by the documented conditions; distinct by alterations, outcome and sizes",
    assumptions: &[
        "the agent library is not installed: its decoding, hashing and lookup of trees are stood in for after its interface (version 1), and its certificate check believes exactly the triples (certificate, canister, root key) the monitor declares genuine",
        "times are compared in whole milliseconds; the fraction of a millisecond at the upper end is left open",
    ],
    must_observe: &["accepted_rightly", "rejected_rightly", "rejected_for_time", "rejected_for_data", "rejected_for_certificate", "altered_trees"],
    workloads: &[Workload { name: "calls", f: c26_case, quick: 40_000, thorough: 1_000_000 }],
};
