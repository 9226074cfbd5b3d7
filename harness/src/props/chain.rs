//! Certificates, delegations, the signature cache and version negotiation.
use crate::case::Case;
use crate::cert::*;
use crate::refv::*;
use crate::rng::Rng;
use crate::spec::*;
use crate::{Property, Workload};
use ic_certificate_verification::VerifyCertificate;

/// Everything a verifier is given to judge a certificate.
/// what a DER-encoded BLS key starts with before the key itself
const DER_PREFIX_LEN: usize = 37;
#[derive(Clone)]
struct Exam {
    cert: Cert,
    id: Vec<u8>,
    now: u128,
    offset: u128,
    root: Vec<u8>,
    log: String,
}

fn judge(c: &mut Case, x: &Exam) -> Option<bool> {
    let trust = Trust { canister: &x.id, now: x.now, offset: x.offset, root_der: &x.root };
    let want = cert_verdict(&x.cert, &trust);
    let real = x.cert.real();
    let got = c.guard("Certificate::verify", || real.verify(&x.id, &x.root, &x.now, &x.offset))?;
    c.eval();
    c.nontrivial(&[x.log.as_bytes(), &x.cert.tree.digest()].concat());
    c.sample(|| format!("{} canister={:02x?} now={} offset={} delegated={} -> {want:?}", x.log, x.id, x.now, x.offset, x.cert.delegation.is_some()));
    let d = || format!("{}: canister {:02x?} now {} offset {} delegated {} root key {} bytes; signature {:02x?}; state tree {:?}", x.log, x.id, x.now, x.offset, x.cert.delegation.is_some(), x.root.len(), x.cert.signature, x.cert.tree);
    match (&want, &got) {
        (CertVerdict::Ok, Ok(())) => c.obs(if x.cert.delegation.is_some() { "accepted_delegated" } else { "accepted_direct" }),
        (CertVerdict::Ok, Err(e)) => c.viol("incomplete", format!("a valid certificate was rejected with {e}; {}", d())),
        (CertVerdict::Bad(w), Ok(())) => c.viol("unsound", format!("a certificate was accepted although: {w}; {}", d())),
        (CertVerdict::Bad(w), Err(_)) => {
            let w = format!("rejected: {w}");
            c.obs(&w);
        }
        (CertVerdict::Open(w), r) => {
            let w = format!("open: {w}{}", if r.is_ok() { " (accepted)" } else { "" });
            c.obs(&w);
        }
    }
    Some(got.is_ok())
}

fn enc_time(r: &mut Rng, t: u64) -> Vec<u8> {
    let mut b = leb(t);
    match r.below(6) {
        // padded but within ten bytes
        0 => {
            let n = r.below(11 - b.len().min(10));
            if n > 0 {
                let l = b.len();
                b[l - 1] |= 0x80;
                for _ in 1..n {
                    b.push(0x80);
                }
                b.push(0);
            }
        }
        1 => b.push(r.u8()),
        _ => {}
    }
    b
}

fn c03_time(c: &mut Case) {
    let mut r = c.rng.clone();
    let a = authority();
    let id = canister_id(r.below(1000) as u64);
    let t: u64 = match r.below(6) {
        0 => 0,
        1 => u64::MAX,
        2 => r.u64() >> r.below(64),
        3 => 127 + r.below(3) as u64,
        _ => 1_700_000_000_000_000_000 + (r.u64() >> 20),
    };
    let enc = enc_time(&mut r, t);
    let mut top = vec![(b"canister".to_vec(), lab(&id, lab("certified_data", leaf([7u8; 32])))), (b"time".to_vec(), leaf(&enc))];
    match r.below(12) {
        0 => {
            top.pop();
        }
        1 => top[1].1 = lab("x", leaf(&enc)),
        2 => top[1].1 = T::Pruned([9; 32]),
        3 => top[1].1 = T::Empty,
        4 => top[1].1 = leaf(vec![0xff; r.below(13)]),
        5 => top[1].1 = leaf(b""),
        6 => top.push((b"timd".to_vec(), leaf(leb(t)))),
        7 => top.push((b"tim".to_vec(), leaf(leb(t)))),
        _ => {}
    }
    let tree = map_tree(&mut r, top);
    let cert = Cert { signature: a.root.sign(&tree.digest()), tree, delegation: None };
    let offs: [u128; 7] = [0, 1, 300_000_000_000, u64::MAX as u128, u128::MAX, u128::MAX - 1, r.u64() as u128];
    for _ in 0..10 {
        let offset = *r.pick(&offs);
        let t = t as u128;
        let d = *r.pick(&[0i64, -1, 1, -2, 2, -1000, 1000]);
        let base = match r.below(6) {
            0 => t.saturating_add(offset),
            1 => t.saturating_sub(offset),
            2 => t,
            3 => 0,
            4 => u128::MAX,
            _ => t.saturating_add(r.u64() as u128 >> r.below(64)),
        };
        let now = if d < 0 { base.saturating_sub(d.unsigned_abs() as u128) } else { base.saturating_add(d as u128) };
        let x = Exam { cert: cert.clone(), id: id.clone(), now, offset, root: a.root.der(), log: format!("time {t} encoded as {enc:02x?}") };
        judge(c, &x);
    }
}

fn bump(id: &[u8], d: i64) -> Vec<u8> {
    let mut v = id.to_vec();
    for b in v.iter_mut().rev() {
        let n = *b as i64 + d.signum();
        if (0..=255).contains(&n) {
            *b = n as u8;
            break;
        }
        *b = n.rem_euclid(256) as u8;
    }
    v
}

fn c03_chain(c: &mut Case) {
    let mut r = c.rng.clone();
    let a = authority();
    // the usual form of an id, or another length with the number anywhere in it
    let frame = if r.chance(1, 4) { r.range(8, 29) } else { 0 };
    let (at, fill) = (r.below(frame.saturating_sub(8) + 1), r.bytes(frame));
    let canister_id = |n: u64| {
        if frame == 0 {
            return canister_id(n);
        }
        let mut v = fill.clone();
        v[at..at + 8].copy_from_slice(&n.to_be_bytes());
        v
    };
    let id = canister_id(r.u64() % 100_000);
    let time = 1_700_000_000_000_000_000 + (r.u64() >> 24);
    let cd = r.bytes(32);
    let sid = { let n = *r.pick(&[29, 29, 29, 10, 1, 0, 30, 64, 300]); r.bytes(n) };
    // an honest chain, a chain with one flaw, or with any number of them
    let style = r.below(3);
    let flaw = if style == 0 { 99 } else { r.below(7) };
    let may = |k: usize| style == 2 || flaw == k;
    let state = state_tree(&mut r, &StateOpts { canisters: vec![(id.clone(), cd)], time, noise: 2 });
    // ranges around the canister
    let mut ranges: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    for _ in 0..r.below(4) {
        ranges.push(match r.below(9) {
            0 => (id.clone(), id.clone()),
            1 => (id.clone(), bump(&id, 1)),
            2 => (bump(&id, -1), id.clone()),
            3 => (bump(&id, 1), bump(&bump(&id, 1), 1)),
            4 => (bump(&bump(&id, -1), -1), bump(&id, -1)),
            5 => (bump(&id, 1), bump(&id, -1)),
            6 => {
                let n = r.below(11);
                (r.bytes(n), id.clone())
            }
            7 => (canister_id(0), canister_id(u64::MAX)),
            _ => (canister_id(r.u64()), canister_id(r.u64())),
        });
    }
    if !may(0) {
        let cover = match r.below(5) {
            0 => (id.clone(), id.clone()),
            1 => (id.clone(), bump(&id, 1)),
            2 => (bump(&id, -1), id.clone()),
            3 => (bump(&id, -1), bump(&id, 1)),
            _ => (canister_id(0), canister_id(u64::MAX)),
        };
        let i = r.below(ranges.len() + 1);
        ranges.insert(i, cover);
        // more ranges than a short list
        if r.chance(1, 6) {
            for k in 0..*r.pick(&[20u64, 23, 24, 60, 260]) {
                let x = canister_id((1 << 40) + 10 * k);
                let i = r.below(ranges.len() + 1);
                ranges.insert(i, (x.clone(), x));
            }
        }
    }
    let subnet_der = match if may(1) { r.below(if flaw == 1 { 4 } else { 10 }) } else { 9 } {
        0 => a.other.der(),
        1 => a.root.der(),
        2 => {
            let mut d = a.subnet.der();
            let i = if r.bool() { r.below(DER_PREFIX_LEN) } else { r.below(d.len()) };
            d[i] ^= 1 << r.below(8);
            d
        }
        3 => a.subnet.pk.clone(),
        _ => a.subnet.der(),
    };
    let mut inner = subnet_tree(&mut r, &sid, &ranges, &subnet_der, 1);
    let full = inner.clone();
    let p = |l: &str| vec![b"subnet".to_vec(), sid.clone(), l.as_bytes().to_vec()];
    let mut log = String::from("chain");
    let mut keep = vec![p("canister_ranges"), p("public_key")];
    match if may(2) { r.below(if flaw == 2 { 2 } else { 8 }) } else { 9 } {
        0 => {
            keep.remove(0);
            log += "; ranges hidden";
        }
        1 => {
            keep.pop();
            log += "; key hidden";
        }
        _ => {}
    }
    if r.bool() {
        let p = if keep.len() == 2 { 60 } else { 100 };
        inner = prune_except(&mut r, &inner, &keep, p);
    }
    let signer = match if may(3) { r.below(if flaw == 3 { 2 } else { 8 }) } else { 9 } {
        0 => &a.other,
        1 => &a.subnet,
        _ => &a.root,
    };
    let mut inner_cert = Cert { signature: signer.sign(&full.digest()), tree: inner, delegation: None };
    let (n, d) = if flaw == 4 { (1, 1) } else { (1, 10) };
    if may(4) && r.chance(n, d) {
        // a delegation inside the delegation
        let s2 = subnet_tree(&mut r, &sid, &[(canister_id(0), canister_id(u64::MAX))], &a.other.der(), 0);
        let c2 = Cert { signature: a.root.sign(&s2.digest()), tree: s2, delegation: None };
        inner_cert.delegation = Some(match r.below(4) {
            0 => Deleg { subnet_id: vec![], certificate: vec![] },
            1 => Deleg { subnet_id: r.bytes(29), certificate: c2.cbor() },
            _ => Deleg { subnet_id: sid.clone(), certificate: c2.cbor() },
        });
        inner_cert.signature = a.other.sign(&full.digest());
        if r.bool() {
            inner_cert.signature = a.root.sign(&full.digest());
        }
        log += "; nested delegation";
    }
    let mut inner_bytes = inner_cert.cbor();
    match if may(5) { r.below(if flaw == 5 { 3 } else { 14 }) } else { 14 } {
        0 => {
            inner_bytes.pop();
            log += "; inner truncated";
        }
        1 => inner_bytes = vec![],
        2 => {
            let i = r.below(inner_bytes.len());
            inner_bytes[i] ^= 1 << r.below(8);
            log += "; inner bit flipped";
        }
        _ => {}
    }
    let deleg = Deleg {
        subnet_id: match if may(6) { r.below(if flaw == 6 { 4 } else { 12 }) } else { 12 } {
            0 => r.bytes(29),
            1 => vec![],
            2 => sid[..sid.len() / 2].to_vec(),
            3 => [&sid[..], &[0]].concat(),
            _ => sid.clone(),
        },
        certificate: inner_bytes,
    };
    let key = match if style == 2 { r.below(6) } else { 6 } {
        0 => &a.root,
        1 => &a.other,
        _ => &a.subnet,
    };
    let cert = Cert { signature: key.sign(&state.digest()), tree: state.clone(), delegation: Some(deleg) };
    let base = Exam { cert, id: id.clone(), now: time as u128, offset: 0, root: a.root.der(), log };
    judge(c, &base);
    // the same chain for other canisters, and with the parts exchanged
    for d in [-1i64, 1] {
        let mut x = base.clone();
        x.id = bump(&id, d);
        x.log += "; neighbour canister";
        judge(c, &x);
    }
    // a root key that is not encoded as one, whichever byte says so
    for i in 0..DER_PREFIX_LEN {
        if r.chance(1, 4) {
            let mut x = base.clone();
            x.root[i] ^= 1 << r.below(8);
            x.log += "; root key encoded otherwise";
            judge(c, &x);
            c.obs("key_encodings_altered");
        }
    }
    for k in 0..8 {
        let mut x = base.clone();
        match k {
            6 | 7 => {
                // the clock matters for delegated certificates, too; the age of the delegation does not
                let off = *r.pick(&[0u128, 1, 300_000_000_000, 1 << 62]);
                let by = *r.pick(&[0u128, 1, 1_000_000, 1 << 61]);
                let edge = if r.bool() { off + by } else { off.saturating_sub(by) };
                x.offset = off;
                x.now = if k == 6 { time as u128 + edge } else { (time as u128).saturating_sub(edge) };
                x.log += "; another time";
            }
            0 => {
                x.cert.delegation = None;
                x.log += "; delegation removed";
            }
            1 => {
                x.cert.delegation = None;
                x.cert.signature = a.root.sign(&state.digest());
                x.log += "; signed by the root directly";
            }
            2 => {
                let m = [&b"ic-state-root"[..], &state.digest()].concat();
                let m2 = [&b"\x0eic-state-root"[..], &state.digest()].concat();
                let m3 = state.digest().to_vec();
                let raw = *r.pick(&[&m, &m2, &m3]);
                x.cert.signature = a.subnet.sign_raw(raw);
                x.log += "; signature without the domain separator";
            }
            3 => {
                let l = x.cert.signature.len();
                match r.below(5) {
                    0 => x.cert.signature[r.below(l)] ^= 1 << r.below(8),
                    1 => x.cert.signature.truncate(r.below(l)),
                    2 => x.cert.signature.push(0),
                    3 => x.cert.signature = vec![],
                    _ => x.cert.signature = r.bytes(48),
                }
                x.log += "; signature damaged";
            }
            4 => {
                match r.below(6) {
                    0 => x.root = a.subnet.der(),
                    1 => x.root = a.root.pk.clone(),
                    2 => {
                        x.root.pop();
                    }
                    3 => x.root.push(0),
                    4 => {
                        let i = r.below(x.root.len());
                        x.root[i] ^= 1 << r.below(8);
                    }
                    _ => x.root = vec![],
                }
                x.log += "; other root key";
            }
            _ => {
                // the state says something else than what was signed
                let cd = r.bytes(32);
                x.cert.tree = state_tree(&mut r, &StateOpts { canisters: vec![(id.clone(), cd)], time, noise: 0 });
                x.log += "; state replaced";
            }
        }
        judge(c, &x);
    }
    // hiding parts of the state never changes the decision, as long as time stays visible
    let mut x = base.clone();
    x.cert.tree = prune_except(&mut r, &state, &[vec![b"time".to_vec()]], 100);
    x.log += "; state pruned to the time";
    let a1 = judge(c, &x);
    let a2 = judge(c, &base);
    c.check(a1 == a2, "pruning", || format!("pruning the state tree changed the decision from {a2:?} to {a1:?}: {}", base.log));
}

pub const C03: Property = Property {
    id: "C03",
    rule: "one certificate with its trust inputs (canister, clock, offset, root key) judged by the real verifier and by the reference; distinct by the alterations and the state tree digest",
    assumptions: &["canister identifiers have at most 29 bytes", "range bounds whose length differs from the canister's and trailing bytes in the time leaf are left open", "miracl_core_bls12381 is the trusted BLS primitive"],
    must_observe: &["accepted_direct", "accepted_delegated", "rejected: time window", "rejected: signature", "rejected: delegation signature", "rejected: canister out of range", "rejected: nested delegation"],
    workloads: &[
        Workload { name: "time", f: c03_time, quick: 4_000, thorough: 100_000 },
        Workload { name: "chain", f: c03_chain, quick: 3_000, thorough: 60_000 },
    ],
};

// ---------------------------------------------------------------- C21

/// Certificates that share keys, signatures and states in every combination.
fn crossing(r: &mut Rng) -> Vec<Exam> {
    let a = authority();
    let id = canister_id(r.u64() % 100_000);
    let time = 1_700_000_000_000_000_000 + (r.u64() >> 24);
    let keys = [&a.root, &a.other, &a.subnet];
    let mut out = vec![];
    let states: Vec<T> = (0..2)
        .map(|_| {
            let cd = r.bytes(32);
            state_tree(r, &StateOpts { canisters: vec![(id.clone(), cd)], time, noise: 1 })
        })
        .collect();
    let mut sigs: Vec<Vec<u8>> = vec![];
    for s in &states {
        for k in &keys[..2] {
            sigs.push(k.sign(&s.digest()));
        }
    }
    let mut bent = sigs[0].clone();
    bent[r.below(48)] ^= 1 << r.below(8);
    sigs.push(bent);
    for s in &states {
        for k in keys {
            for (i, g) in sigs.iter().enumerate() {
                let cert = Cert { tree: s.clone(), signature: g.clone(), delegation: None };
                out.push(Exam { cert, id: id.clone(), now: time as u128, offset: 0, root: k.der(), log: format!("signature {i}") });
            }
        }
    }
    // keys, signatures and states that differ in a bit from ones that go together, wherever that bit is
    // (the bit that marks an infinite point is not looked at by the primitive)
    let bend = |r: &mut Rng, b: &mut Vec<u8>, from: usize| {
        let at = r.range(from, b.len() - 1);
        let bit = if at == from { *r.pick(&[0, 1, 2, 3, 4, 5, 7]) } else { r.below(8) };
        b[at] ^= 1 << bit;
    };
    for _ in 0..12 {
        let mut x = r.pick(&out[..]).clone();
        let k = if r.bool() { &a.root } else { &a.other };
        x.cert.signature = k.sign(&x.cert.tree.digest());
        x.root = k.der();
        match r.below(3) {
            0 => bend(r, &mut x.cert.signature, 0),
            1 => {
                let n = x.root.len();
                bend(r, &mut x.root, n - 96);
            }
            // the key's framing
            _ => {
                let at = r.below(x.root.len() - 96);
                x.root[at] ^= 1 << r.below(8);
            }
        }
        x.log += " bent";
        out.push(x);
    }
    // the same ones with clock and framing faults
    for _ in 0..4 {
        let mut x = r.pick(&out).clone();
        match r.below(3) {
            0 => x.now += 1,
            1 => {
                x.cert.signature.pop();
            }
            _ => {
                x.root.pop();
            }
        }
        x.log += " damaged";
        out.push(x);
    }
    // and behind a delegation
    for k in 0..3 {
        let cd = r.bytes(32);
        let mut c = honest(r, &id, &cd, time, true, 0);
        if k == 1 {
            c.signature = keys[1].sign(&c.tree.digest());
        }
        if k == 2 {
            c.signature = keys[0].sign(&c.tree.digest());
        }
        out.push(Exam { cert: c, id: id.clone(), now: time as u128, offset: 0, root: a.root.der(), log: format!("delegated {k}") });
    }
    out
}
fn want(x: &Exam) -> CertVerdict {
    cert_verdict(&x.cert, &Trust { canister: &x.id, now: x.now, offset: x.offset, root_der: &x.root })
}

fn c21_repeats(c: &mut Case) {
    let mut r = c.rng.clone();
    let mut xs = crossing(&mut r);
    let mut seen = std::collections::HashMap::new();
    for round in 0..4 {
        r.shuffle(&mut xs);
        for x in &xs {
            let got = judge(c, x);
            if let Some(g) = got {
                let k = format!("{}{:?}{:?}{}{:?}", x.log, x.cert.tree.digest(), x.cert.signature, x.now, x.root);
                let first = *seen.entry(k).or_insert(g);
                c.check(first == g, "unstable", || format!("the same certificate was decided {first} first and {g} in round {round}: {}", x.log));
                if round > 0 {
                    c.obs(if g { "repeated_acceptances" } else { "repeated_rejections" });
                }
            }
        }
    }
}

fn c21_threads(c: &mut Case) {
    use std::sync::atomic::{AtomicUsize, Ordering};
    use std::sync::{Arc, Barrier};
    let mut r = c.rng.clone();
    let xs: Vec<Exam> = crossing(&mut r);
    let wants: Vec<CertVerdict> = xs.iter().map(want).collect();
    let n = r.range(2, 8);
    let xs = Arc::new(xs);
    let reals: Arc<Vec<ic_certification::Certificate>> = Arc::new(xs.iter().map(|x| x.cert.real()).collect());
    let turn = Arc::new(AtomicUsize::new(0));
    let gate = Arc::new(Barrier::new(n));
    let mut hs = vec![];
    for t in 0..n {
        let (xs, reals, turn, gate) = (xs.clone(), reals.clone(), turn.clone(), gate.clone());
        let mut r = Rng::new(r.u64());
        hs.push(std::thread::spawn(move || {
            let mut order: Vec<usize> = (0..xs.len()).chain(0..xs.len()).collect();
            r.shuffle(&mut order);
            gate.wait();
            let mut log = vec![];
            for i in order {
                if r.chance(1, 4) {
                    std::thread::yield_now();
                }
                if r.chance(1, 16) {
                    std::thread::sleep(std::time::Duration::from_micros(r.below(200) as u64));
                }
                let x = &xs[i];
                let got = crate::case::quiet_catch(|| reals[i].verify(&x.id, &x.root, &x.now, &x.offset).is_ok());
                log.push((turn.fetch_add(1, Ordering::SeqCst), t, i, got.map_err(|p| p.text)));
            }
            log
        }));
    }
    let mut log = vec![];
    for h in hs {
        match h.join() {
            Ok(l) => log.extend(l),
            Err(_) => c.viol("thread", "a verifying thread died"),
        }
    }
    log.sort_by_key(|e| e.0);
    let order: Vec<u8> = log.iter().flat_map(|e| [e.1 as u8, e.2 as u8]).collect();
    c.nontrivial(&order);
    c.obs_n("concurrent_decisions", log.len() as u64);
    for (seq, t, i, got) in &log {
        c.eval();
        match (got, &wants[*i]) {
            (Err(p), _) => c.viol("panic:concurrent", format!("verification panicked on thread {t}: {p}")),
            (Ok(true), CertVerdict::Bad(w)) => c.viol("concurrent-unsound", format!("thread {t} of {n}, event {seq}: accepted although {w}: {}", xs[*i].log)),
            (Ok(false), CertVerdict::Ok) => c.viol("concurrent-incomplete", format!("thread {t} of {n}, event {seq}: a valid certificate was rejected: {}", xs[*i].log)),
            _ => {}
        }
    }
    c.sample(|| format!("{n} threads, {} decisions", log.len()));
}

/// More genuine signatures than the verifier remembers.
fn c21_eviction(c: &mut Case) {
    use std::sync::atomic::{AtomicU64, Ordering};
    let mut r = c.rng.clone();
    let first = crossing(&mut r);
    for x in &first {
        judge(c, x);
    }
    let (ok, bad) = (AtomicU64::new(0), AtomicU64::new(0));
    let per = 13_000u64;
    let seed = r.u64();
    let err = std::sync::Mutex::new(vec![]);
    std::thread::scope(|s| {
        for t in 0..8u64 {
            let (ok, bad, err) = (&ok, &bad, &err);
            s.spawn(move || {
                let a = authority();
                let key = a.root.der();
                for i in 0..per {
                    let tree = map_tree(&mut Rng::new(seed ^ t ^ (i << 8)), vec![(b"time".to_vec(), leaf(leb(i))), (b"x".to_vec(), leaf([t.to_le_bytes(), i.to_le_bytes()].concat()))]);
                    let cert = Cert { signature: a.root.sign(&tree.digest()), tree, delegation: None }.real();
                    let r = crate::case::quiet_catch(|| cert.verify(&[1], &key, &(i as u128), &0).is_ok());
                    match r {
                        Ok(true) => ok.fetch_add(1, Ordering::Relaxed),
                        x => {
                            err.lock().unwrap().push(format!("genuine certificate {t}/{i}: {:?}", x.map_err(|p| p.text)));
                            0
                        }
                    };
                    if i % 64 == 0 {
                        crate::PROGRESS.fetch_add(1, Ordering::Relaxed);
                        // forged by reusing the signature for another state
                        let mut f = cert.clone();
                        f.tree = ic_certification::hash_tree::label("time", ic_certification::hash_tree::leaf(leb(i)));
                        let r = crate::case::quiet_catch(|| f.verify(&[1], &key, &(i as u128), &0).is_err());
                        match r {
                            Ok(true) => bad.fetch_add(1, Ordering::Relaxed),
                            x => {
                                err.lock().unwrap().push(format!("forged certificate {t}/{i}: {:?}", x.map_err(|p| p.text)));
                                0
                            }
                        };
                    }
                }
            });
        }
    });
    c.obs_n("genuine_signatures_verified", ok.load(Ordering::Relaxed));
    c.obs_n("forged_signatures_refused", bad.load(Ordering::Relaxed));
    for e in err.lock().unwrap().iter().take(3) {
        c.viol("eviction", e.clone());
    }
    // what was decided before the memory overflowed is still decided the same way
    for x in &first {
        judge(c, x);
    }
    c.nontrivial(b"eviction");
}

pub const C21: Property = Property {
    id: "C21",
    rule: "one family of certificates that recombine the same keys, signatures and states, decided repeatedly in shuffled orders or from several threads; distinct by family or by the observed interleaving of decisions",
    assumptions: &["miracl_core_bls12381 is the trusted BLS primitive"],
    must_observe: &["repeated_acceptances", "repeated_rejections", "concurrent_decisions"],
    workloads: &[
        Workload { name: "repeats", f: c21_repeats, quick: 150, thorough: 6_000 },
        Workload { name: "threads", f: c21_threads, quick: 150, thorough: 6_000 },
        Workload { name: "eviction", f: c21_eviction, quick: 0, thorough: 1 },
    ],
};
