//! An independent certificate authority: builds IC state trees, subnet
//! delegations and BLS signatures, so that the real verifier can be run on
//! genuine and on forged certificates.
use crate::rng::Rng;
use crate::spec::*;
use miracl_core_bls12381::bls12381::bls;

#[derive(Clone)]
pub struct Key {
    pub sk: [u8; 48],
    pub pk: Vec<u8>,
}
pub const DER: &[u8] = b"\x30\x81\x82\x30\x1d\x06\x0d\x2b\x06\x01\x04\x01\x82\xdc\x7c\x05\x03\x01\x02\x01\x06\x0c\x2b\x06\x01\x04\x01\x82\xdc\x7c\x05\x03\x02\x01\x03\x61\x00";

impl Key {
    pub fn new(seed: u64) -> Key {
        let ikm = sha(&[b"monitor key", &seed.to_le_bytes()]);
        let mut sk = [0u8; 48];
        let mut pk = [0u8; 96];
        bls::key_pair_generate(&ikm, &mut sk, &mut pk);
        Key { sk, pk: pk.to_vec() }
    }
    pub fn der(&self) -> Vec<u8> {
        let mut d = DER.to_vec();
        d.extend_from_slice(&self.pk);
        d
    }
    pub fn sign(&self, root: &H) -> Vec<u8> {
        let mut msg = b"\x0Dic-state-root".to_vec();
        msg.extend_from_slice(root);
        self.sign_raw(&msg)
    }
    pub fn sign_raw(&self, msg: &[u8]) -> Vec<u8> {
        let mut sig = [0u8; 48];
        bls::core_sign(&mut sig, msg, &self.sk);
        sig.to_vec()
    }
}

#[derive(Clone, Debug)]
pub struct Cert {
    pub tree: T,
    pub signature: Vec<u8>,
    pub delegation: Option<Deleg>,
}
#[derive(Clone, Debug)]
pub struct Deleg {
    pub subnet_id: Vec<u8>,
    pub certificate: Vec<u8>,
}
impl Cert {
    pub fn cbor(&self) -> Vec<u8> {
        let mut o = SELF_DESCRIBE.to_vec();
        cbor_head(5, if self.delegation.is_some() { 3 } else { 2 }, &mut o);
        cbor_text("tree", &mut o);
        cbor_tree(&self.tree, &mut o);
        cbor_text("signature", &mut o);
        cbor_bytes(&self.signature, &mut o);
        if let Some(d) = &self.delegation {
            cbor_text("delegation", &mut o);
            cbor_head(5, 2, &mut o);
            cbor_text("subnet_id", &mut o);
            cbor_bytes(&d.subnet_id, &mut o);
            cbor_text("certificate", &mut o);
            cbor_bytes(&d.certificate, &mut o);
        }
        o
    }
    pub fn real(&self) -> ic_certification::Certificate {
        ic_certification::Certificate {
            tree: to_real(&self.tree),
            signature: self.signature.clone(),
            delegation: self.delegation.as_ref().map(|d| ic_certification::Delegation {
                subnet_id: d.subnet_id.clone(),
                certificate: d.certificate.clone(),
            }),
        }
    }
}

/// A well-formed tree holding these labelled children, sorted, with a random fork shape.
pub fn map_tree(rng: &mut Rng, mut xs: Vec<(Vec<u8>, T)>) -> T {
    xs.sort_by(|a, b| a.0.cmp(&b.0));
    fn go(rng: &mut Rng, xs: &[(Vec<u8>, T)]) -> T {
        match xs.len() {
            0 => T::Empty,
            1 => lab(&xs[0].0, xs[0].1.clone()),
            n => {
                let k = rng.range(1, n - 1);
                fork(go(rng, &xs[..k]), go(rng, &xs[k..]))
            }
        }
    }
    go(rng, &xs)
}

/// Randomly prunes subtrees that do not lie on one of the `keep` paths.
pub fn prune_except(rng: &mut Rng, t: &T, keep: &[Vec<Vec<u8>>], p: u32) -> T {
    match t {
        T::Label(l, s) => {
            let sub: Vec<Vec<Vec<u8>>> = keep.iter().filter(|k| !k.is_empty() && k[0] == *l).map(|k| k[1..].to_vec()).collect();
            if sub.is_empty() {
                return if rng.chance(p, 100) { T::Pruned(t.digest()) } else { t.clone() };
            }
            if sub.iter().any(|k| k.is_empty()) {
                return t.clone();
            }
            T::Label(l.clone(), Box::new(prune_except(rng, s, &sub, p)))
        }
        T::Fork(a, b) => {
            if !touches(t, keep) && rng.chance(p, 100) {
                return T::Pruned(t.digest());
            }
            fork(prune_except(rng, a, keep, p), prune_except(rng, b, keep, p))
        }
        t => t.clone(),
    }
}
fn touches(t: &T, keep: &[Vec<Vec<u8>>]) -> bool {
    match t {
        T::Label(l, _) => keep.iter().any(|k| !k.is_empty() && k[0] == *l),
        T::Fork(a, b) => touches(a, keep) || touches(b, keep),
        _ => false,
    }
}

pub struct StateOpts {
    pub canisters: Vec<(Vec<u8>, Vec<u8>)>, // id -> certified data
    pub time: u64,
    pub noise: usize,
}

/// A replica state tree: canister/<id>/certified_data, time and unrelated noise.
pub fn state_tree(rng: &mut Rng, o: &StateOpts) -> T {
    let mut cans = vec![];
    for (id, cd) in &o.canisters {
        let mut fields = vec![(b"certified_data".to_vec(), leaf(cd))];
        if o.noise > 0 && rng.bool() {
            fields.push((b"module_hash".to_vec(), leaf(rng.bytes(32))));
        }
        if o.noise > 1 && rng.bool() {
            fields.push((b"controllers".to_vec(), leaf(rng.bytes(12))));
            fields.push((b"metadata".to_vec(), lab("candid:service", leaf("service : {}"))));
        }
        cans.push((id.clone(), map_tree(rng, fields)));
    }
    for _ in 0..o.noise {
        let id = rng.bytes(10);
        if !cans.iter().any(|c| c.0 == id) {
            cans.push((id, lab("certified_data", leaf(rng.bytes(32)))));
        }
    }
    let mut top = vec![(b"canister".to_vec(), map_tree(rng, cans)), (b"time".to_vec(), leaf(leb(o.time)))];
    if o.noise > 0 {
        top.push((b"request_status".to_vec(), map_tree(rng, vec![])));
        if rng.bool() {
            top.push((b"subnet".to_vec(), lab(rng.clone().bytes(29), leaf("x"))));
        }
        if rng.bool() {
            top.push((b"streams".to_vec(), T::Empty));
        }
    }
    map_tree(rng, top)
}

pub fn ranges_cbor(ranges: &[(Vec<u8>, Vec<u8>)]) -> Vec<u8> {
    let mut o = SELF_DESCRIBE.to_vec();
    cbor_head(4, ranges.len() as u64, &mut o);
    for (a, b) in ranges {
        cbor_head(4, 2, &mut o);
        cbor_bytes(a, &mut o);
        cbor_bytes(b, &mut o);
    }
    o
}

pub fn subnet_tree(rng: &mut Rng, subnet_id: &[u8], ranges: &[(Vec<u8>, Vec<u8>)], der: &[u8], noise: usize) -> T {
    let mut fields = vec![(b"canister_ranges".to_vec(), leaf(ranges_cbor(ranges))), (b"public_key".to_vec(), leaf(der))];
    if noise > 0 {
        fields.push((b"node".to_vec(), lab(rng.bytes(8), lab("public_key", leaf(rng.bytes(44))))));
    }
    let mut subs = vec![(subnet_id.to_vec(), map_tree(rng, fields))];
    for _ in 0..noise {
        let f = vec![(b"canister_ranges".to_vec(), leaf(ranges_cbor(&[(vec![9], vec![9, 9])]))), (b"public_key".to_vec(), leaf(rng.bytes(133)))];
        subs.push((rng.bytes(29), map_tree(rng, f)));
    }
    let t = rng.u64() >> 20;
    let mut top = vec![(b"subnet".to_vec(), map_tree(rng, subs)), (b"time".to_vec(), leaf(leb(t)))];
    if noise > 0 && rng.bool() {
        top.push((b"canister".to_vec(), lab(rng.bytes(10), lab("certified_data", leaf(rng.bytes(32))))));
    }
    map_tree(rng, top)
}

/// What a signed certificate, once made, says.
pub struct Authority {
    pub root: Key,
    pub subnet: Key,
    pub other: Key,
}
thread_local! {
    static AUTH: std::rc::Rc<Authority> = std::rc::Rc::new(Authority { root: Key::new(1), subnet: Key::new(2), other: Key::new(3) });
}
pub fn authority() -> std::rc::Rc<Authority> {
    AUTH.with(|a| a.clone())
}

pub fn canister_id(n: u64) -> Vec<u8> {
    let mut v = n.to_be_bytes().to_vec();
    v.extend_from_slice(&[1, 1]);
    v
}

/// An honest certificate for (canister, certified data), with or without a delegation.
pub fn honest(rng: &mut Rng, id: &[u8], data: &[u8], time: u64, delegated: bool, noise: usize) -> Cert {
    let a = authority();
    let t = state_tree(rng, &StateOpts { canisters: vec![(id.to_vec(), data.to_vec())], time, noise });
    let keep = vec![vec![b"time".to_vec()], vec![b"canister".to_vec(), id.to_vec(), b"certified_data".to_vec()]];
    let pruned = prune_except(rng, &t, &keep, 70);
    let key = if delegated { &a.subnet } else { &a.root };
    let signature = key.sign(&t.digest());
    let delegation = if delegated {
        let sid = rng.bytes(29);
        let st = subnet_tree(rng, &sid, &[(canister_id(0), canister_id(0xffff_ffff))], &a.subnet.der(), noise);
        let keep = vec![
            vec![b"subnet".to_vec(), sid.clone(), b"canister_ranges".to_vec()],
            vec![b"subnet".to_vec(), sid.clone(), b"public_key".to_vec()],
        ];
        let c = Cert { tree: prune_except(rng, &st, &keep, 70), signature: a.root.sign(&st.digest()), delegation: None };
        Some(Deleg { subnet_id: sid, certificate: c.cbor() })
    } else {
        None
    };
    Cert { tree: pruned, signature, delegation }
}
