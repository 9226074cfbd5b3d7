//! C04 hash-tree lookup, C05 digests under pruning and merging.
use crate::case::{quiet_catch, Case};
use crate::gen::*;
use crate::spec::*;
use crate::{Property, Workload};
use ic_certification::{merge_hash_trees, LookupResult, SubtreeLookupResult};

pub const C04: Property = Property {
    id: "C04",
    rule: "a distinct (pruned tree, path) pair whose lookup was compared with the specification's three-valued lookup and with the complete tree",
    assumptions: &["trees are well formed (labels of a node strictly increasing), as the certificate producer guarantees", "SHA-256 digests do not collide"],
    must_observe: &["found", "absent", "unknown", "error", "absent_next_to_pruned", "empty_in_fork", "subtree_found", "large_tree"],
    workloads: &[
        Workload { name: "lookup", f: lookup, quick: 400_000, thorough: 1_500_000 },
        Workload { name: "lookup_exhaustive_small", f: lookup_small, quick: 3000, thorough: 40_000 },
    ],
};

fn compare(c: &mut Case, full: &T, t: &T, path: &[Vec<u8>]) {
    let real = to_real(t);
    let want = look_path(t, path);
    let truth = look_path(full, path);
    let got = match c.guard("lookup_path", || match real.lookup_path(path) {
        LookupResult::Absent => LookPath::Absent,
        LookupResult::Unknown => LookPath::Unknown,
        LookupResult::Found(v) => LookPath::Found(v.to_vec()),
        LookupResult::Error => LookPath::Error,
    }) {
        Some(g) => g,
        None => return,
    };
    let ctx = || format!("path {} in {:?} (complete tree {:?})", show_path(path), t, full);
    // soundness against the complete tree
    match &got {
        LookPath::Found(_) => {
            c.obs("found");
            c.check(got == truth, "lookup:found_wrong", || format!("found {got:?}, complete tree says {truth:?}: {}", ctx()));
        }
        LookPath::Absent => {
            c.obs("absent");
            c.check(truth == LookPath::Absent, "lookup:absent_but_present", || {
                format!("reported absent although the complete tree says {truth:?}: {}", ctx())
            });
            if t.pruned_count() > 0 {
                c.obs("absent_next_to_pruned");
            }
        }
        LookPath::Unknown => c.obs("unknown"),
        LookPath::Error => {
            c.obs("error");
            c.check(truth == LookPath::Error, "lookup:error_wrong", || format!("error, complete tree says {truth:?}: {}", ctx()));
        }
    }
    c.check(got == want, "lookup:spec", || format!("got {got:?}, the specification's lookup gives {want:?}: {}", ctx()));
    // sub-tree lookup
    let ws = look_subtree(t, path);
    let gs = match c.guard("lookup_subtree", || real.lookup_subtree(path)) {
        Some(g) => g,
        None => return,
    };
    let ok = match (&ws, &gs) {
        (Look::Absent, SubtreeLookupResult::Absent) => true,
        (Look::Unknown, SubtreeLookupResult::Unknown) => true,
        (Look::Found(s), SubtreeLookupResult::Found(h)) => {
            c.obs("subtree_found");
            from_real(h) == **s
        }
        _ => false,
    };
    c.check(ok, "lookup:subtree", || format!("sub-tree lookup {gs:?}, the specification gives {ws:?}: {}", ctx()));
    let ts = look_subtree(full, path);
    if let SubtreeLookupResult::Absent = gs {
        c.check(ts == Look::Absent, "lookup:subtree_absent_but_present", || {
            format!("sub-tree reported absent although the complete tree has {ts:?}: {}", ctx())
        });
    }
    let mut id = tree_cbor(t, false);
    for p in path {
        id.push(0);
        id.extend_from_slice(p);
    }
    c.nontrivial(&id);
}

fn has_inner_empty(t: &T) -> bool {
    match t {
        T::Fork(a, b) => matches!(**a, T::Empty) || matches!(**b, T::Empty) || has_inner_empty(a) || has_inner_empty(b),
        T::Label(_, s) => has_inner_empty(s),
        _ => false,
    }
}

fn leaf_paths(t: &T, pre: &mut Vec<Vec<u8>>, out: &mut Vec<Vec<Vec<u8>>>) {
    match t {
        T::Fork(a, b) => {
            leaf_paths(a, pre, out);
            leaf_paths(b, pre, out);
        }
        T::Label(l, s) => {
            pre.push(l.clone());
            leaf_paths(s, pre, out);
            pre.pop();
        }
        T::Leaf(_) => out.push(pre.clone()),
        _ => {}
    }
}

fn lookup(c: &mut Case) {
    let d = c.rng.below(3);
    let w = c.rng.range(1, 6);
    let m = if c.rng.chance(1, 300) {
        c.obs("large_tree");
        large_map(&mut c.rng)
    } else {
        map(&mut c.rng, d, w)
    };
    let pe = *c.rng.pick(&[0u32, 0, 10, 30]);
    let full = tree_of(&mut c.rng, &m, pe);
    if has_inner_empty(&full) {
        c.obs("empty_in_fork");
    }
    let p = *c.rng.pick(&[0u32, 50, 150, 300]);
    let t = prune(&mut c.rng, &full, p);
    let mut known = vec![];
    m.paths(&mut vec![], &mut known);
    for _ in 0..6 {
        let path = probe(&mut c.rng, &known);
        compare(c, &full, &t, &path);
    }
    let mut want = vec![];
    leaf_paths(&t, &mut vec![], &mut want);
    let real = to_real(&t);
    let got: Vec<Vec<Vec<u8>>> = real.list_paths().into_iter().map(|p| p.into_iter().map(|l| l.as_bytes().to_vec()).collect()).collect();
    c.check(got == want, "lookup:list_paths", || format!("list_paths gives {got:?}, expected {want:?} for {t:?}"));
    c.sample(|| format!("tree {t:?}"));
}

/// one level, few labels, every pruning of it and every probe label around it
fn lookup_small(c: &mut Case) {
    let n = c.rng.range(0, 4);
    let labels: Vec<Vec<u8>> = [b"b".to_vec(), b"d".to_vec(), b"f".to_vec(), b"h".to_vec()][..n].to_vec();
    let mut m = M::new();
    for l in &labels {
        m.insert(&[l.clone()], vec![l[0]]);
    }
    let pe = *c.rng.pick(&[0u32, 25, 60]);
    let full = tree_of(&mut c.rng, &m, pe);
    if has_inner_empty(&full) {
        c.obs("empty_in_fork");
    }
    // enumerate prunings by bit mask over fork/label nodes in pre-order
    fn nodes(t: &T) -> usize {
        match t {
            T::Fork(a, b) => 1 + nodes(a) + nodes(b),
            T::Pruned(_) => 0,
            _ => 1,
        }
    }
    fn apply(t: &T, mask: u64, i: &mut u32) -> T {
        let me = *i;
        *i += 1;
        if mask >> me & 1 == 1 {
            return T::Pruned(t.digest());
        }
        match t {
            T::Fork(a, b) => {
                let x = apply(a, mask, i);
                let y = apply(b, mask, i);
                fork(x, y)
            }
            t => t.clone(),
        }
    }
    let k = nodes(&full).min(9);
    for mask in 0..(1u64 << k) {
        // at most 64 prunings per tree, picked at random when there are more
        if k > 6 && !c.rng.chance(64, 1 << k) {
            continue;
        }
        let t = apply(&full, mask, &mut 0);
        for probe in [&b""[..], b"a", b"b", b"c", b"d", b"e", b"f", b"g", b"h", b"i", b"bb"] {
            compare(c, &full, &t, &[probe.to_vec()]);
        }
    }
}

pub const C05: Property = Property {
    id: "C05",
    rule: "a distinct tree whose digest was recomputed independently before and after pruning or merging",
    assumptions: &["SHA-256 digests do not collide"],
    must_observe: &["digest_checked", "pruned_checked", "merge_checked", "merge_joined", "inconsistent_merge_refused", "large_tree", "labels_made", "ill_formed_hex_refused"],
    workloads: &[
        Workload { name: "prune", f: prune_case, quick: 250_000, thorough: 3_000_000 },
        Workload { name: "merge", f: merge_case, quick: 250_000, thorough: 3_000_000 },
        Workload { name: "parts", f: parts, quick: 60_000, thorough: 500_000 },
    ],
};

/// Labels and pruned nodes are the bytes they are made from, however they are made.
fn parts(c: &mut Case) {
    use ic_certification::hash_tree as h;
    use std::borrow::Cow;
    let (a, b) = (key(&mut c.rng), key(&mut c.rng));
    let text = String::from_utf8_lossy(&a).into_owned();
    let t = text.as_bytes().to_vec();
    let mut made: Vec<(&str, h::Label<Vec<u8>>, Vec<u8>)> = vec![
        ("a vector", a.clone().into(), a.clone()),
        ("a slice", a.as_slice().into(), a.clone()),
        ("text", text.as_str().into(), t.clone()),
        ("a string", text.clone().into(), t.clone()),
        ("a borrowed label", h::Label::from_label(h::Label::<&[u8]>::from(text.as_str())), t.clone()),
        ("a copied label", h::Label::from_label(h::Label::<Cow<[u8]>>::from(a.as_slice())), a.clone()),
    ];
    if let Ok(x) = <[u8; 4]>::try_from(&a[..a.len().min(4)]) {
        made.push(("an array", x.into(), x.to_vec()));
        made.push(("a borrowed array", (&x).into(), x.to_vec()));
        made.push(("a label of an array", h::Label::from_label(h::Label::<&[u8]>::from(&x)), x.to_vec()));
        made.push(("a label of a borrowed array", h::Label::from_label(h::Label::<Cow<[u8]>>::from(&x)), x.to_vec()));
    }
    made.push(("bytes", h::Label::from_label(h::Label::<&[u8]>::from_bytes(&a)), a.clone()));
    let other: h::Label<Vec<u8>> = b.clone().into();
    for (what, l, want) in &made {
        c.check(l.as_bytes() == &want[..] && l.as_ref() == &want[..], "label:bytes", || format!("a label made from {what} {want:?} is {:?}", l.as_bytes()));
        c.check(l.cmp(&other) == want.cmp(&b) && (*l == other) == (*want == b), "label:order", || format!("label {want:?} compares to {b:?} as {:?}", l.cmp(&other)));
        let tree: ic_certification::HashTree = h::label(l.clone(), h::leaf(b.clone()));
        let spec = T::Label(want.clone(), Box::new(T::Leaf(b.clone())));
        c.check(tree.digest() == spec.digest(), "label:digest", || format!("the digest of a tree under the label made from {what} {want:?} is not the specified one"));
        c.check(LookupResult::Found(&b[..]) == tree.lookup_path([l]), "label:lookup", || format!("the label made from {what} {want:?} is not found"));
        match serde_cbor::to_vec(l).map(|x| (serde_cbor::from_slice::<h::Label<Vec<u8>>>(&x).ok(), serde_cbor::from_slice::<serde_cbor::Value>(&x).ok())) {
            Ok((back, v)) => {
                c.check(back.as_ref() == Some(l) && v == Some(serde_cbor::Value::Bytes(want.clone())), "label:cbor", || format!("label {want:?} is encoded as {v:?} and decoded as {back:?}"));
            }
            Err(e) => c.viol("label:cbor", format!("label {want:?} cannot be encoded: {e}")),
        }
        c.obs("labels_made");
    }
    // trees over borrowed bytes are the same trees
    let lent: h::HashTree<&[u8]> = h::fork(h::label::<&[u8], h::Label<&[u8]>, _>(a.as_slice().into(), h::leaf(&b[..])), h::leaf(&t[..]));
    let spec = fork(T::Label(a.clone(), Box::new(T::Leaf(b.clone()))), T::Leaf(t.clone()));
    c.check(lent.digest() == spec.digest(), "lent:digest", || format!("the digest of a tree of borrowed bytes is not the specified one: {a:?} {b:?} {t:?}"));
    c.check(LookupResult::Found(&b[..]) == lent.lookup_path([&a]), "lent:lookup", || format!("{a:?} is not found in a tree of borrowed bytes"));
    // hashes computed without a tree
    let (x, y) = (spec.digest(), T::Leaf(t.clone()).digest());
    c.check(h::leaf_hash(&t) == y && h::fork_hash(&x, &y) == fork(spec.clone(), T::Leaf(t.clone())).digest() && h::labeled_hash(&a, &x) == T::Label(a.clone(), Box::new(spec.clone())).digest(), "parts:hash", || format!("a hash of leaf {t:?}, label {a:?} or fork is not the specified one"));
    // pruned nodes from hexadecimal text
    let d: [u8; 32] = c.rng.bytes(32).try_into().unwrap();
    let mut x: String = d.iter().map(|b| format!("{b:02x}")).collect();
    if c.rng.bool() {
        x = x.to_uppercase();
    }
    c.check(ic_certification::pruned_from_hex(&x).is_ok_and(|t| t.digest() == d && from_real(&t) == T::Pruned(d)), "pruned:hex", || format!("{x} does not make the pruned node it names"));
    match c.rng.below(4) {
        0 => x.truncate(c.rng.below(64)),
        1 => x.push_str(if c.rng.bool() { "0" } else { "00" }),
        2 => x.insert_str(0, "0x"),
        _ => {
            let i = c.rng.below(64);
            x.replace_range(i..i + 1, *c.rng.pick(&["g", " ", "-", "/", ":", "@", "`"]));
        }
    }
    if let Some(got) = c.guard("pruned_from_hex", || ic_certification::pruned_from_hex(&x)) {
        c.check(got.is_err(), "pruned:hex", || format!("{x:?} makes a pruned node"));
        c.obs("ill_formed_hex_refused");
    }
    c.nontrivial(format!("{a:?}{b:?}").as_bytes());
}

fn prune_case(c: &mut Case) {
    let m = if c.rng.chance(1, 300) {
        c.obs("large_tree");
        large_map(&mut c.rng)
    } else {
        map(&mut c.rng, 3, 5)
    };
    let pe = *c.rng.pick(&[0u32, 0, 20]);
    let full = tree_of(&mut c.rng, &m, pe);
    let want = full.digest();
    let got = match c.guard("digest", || to_real(&full).digest()) {
        Some(g) => g,
        None => return,
    };
    c.obs("digest_checked");
    c.check(got == want, "digest:spec", || format!("digest of {full:?} differs from the specification's"));
    let mut t = full.clone();
    for _ in 0..3 {
        let p = *c.rng.pick(&[30u32, 120, 300]);
        t = prune(&mut c.rng, &t, p);
        let g = to_real(&t).digest();
        c.obs("pruned_checked");
        c.check(g == want, "digest:pruning", || format!("pruning {full:?} to {t:?} changed the digest"));
        c.nontrivial(&tree_cbor(&t, false));
    }
    // any change to a visible part changes the digest
    let mut u = full.clone();
    if mutate(&mut c.rng, &mut u) && u != full {
        let g = to_real(&u).digest();
        c.check(g != want, "digest:binding", || format!("{full:?} and {u:?} have the same digest"));
        c.obs("mutations_distinguished");
    }
    c.sample(|| format!("{t:?}"));
}
/// changes one node's content, kind or position
pub fn mutate(r: &mut crate::rng::Rng, t: &mut T) -> bool {
    match t {
        T::Fork(a, b) => match r.below(6) {
            0 if a != b => {
                std::mem::swap(a, b);
                true
            }
            1 => {
                *t = (**a).clone();
                true
            }
            2 => {
                // re-associate
                if let T::Fork(x, y) = (**a).clone() {
                    *t = T::Fork(x, Box::new(T::Fork(y, b.clone())));
                    return true;
                }
                mutate(r, b)
            }
            3 | 4 => mutate(r, a) || mutate(r, b),
            _ => mutate(r, b) || mutate(r, a),
        },
        T::Label(l, s) => match r.below(4) {
            0 => {
                l.push(0);
                true
            }
            1 => {
                // shift a byte between the label and a leaf below it
                if let T::Leaf(v) = &mut **s {
                    if let Some(x) = l.pop() {
                        v.insert(0, x);
                        return true;
                    }
                }
                mutate(r, s)
            }
            2 => {
                *t = (**s).clone();
                true
            }
            _ => mutate(r, s),
        },
        T::Leaf(v) => {
            match r.below(3) {
                0 => v.push(0),
                1 if !v.is_empty() => {
                    let i = r.below(v.len());
                    v[i] ^= 1 << r.below(8);
                }
                _ => v.insert(0, 0x10),
            }
            true
        }
        T::Empty => {
            *t = T::Leaf(vec![]);
            true
        }
        T::Pruned(h) => {
            h[r.below(32)] ^= 1;
            true
        }
    }
}

/// what a merge of two prunings of one tree must reveal
fn union(a: &T, b: &T) -> T {
    match (a, b) {
        (T::Pruned(_), x) | (x, T::Pruned(_)) => x.clone(),
        (T::Fork(a1, a2), T::Fork(b1, b2)) => fork(union(a1, b1), union(a2, b2)),
        (T::Label(l, x), T::Label(_, y)) => lab(l, union(x, y)),
        (x, _) => x.clone(),
    }
}

fn merge_case(c: &mut Case) {
    let m = if c.rng.chance(1, 300) {
        c.obs("large_tree");
        large_map(&mut c.rng)
    } else {
        map(&mut c.rng, 3, 5)
    };
    let pe = *c.rng.pick(&[0u32, 0, 15]);
    let full = tree_of(&mut c.rng, &m, pe);
    let (p, q) = (*c.rng.pick(&[50u32, 200, 400]), *c.rng.pick(&[50u32, 200, 400]));
    let a = prune(&mut c.rng, &full, p);
    let b = prune(&mut c.rng, &full, q);
    let want = union(&a, &b);
    let got = match c.guard("merge_hash_trees", || from_real(&merge_hash_trees(to_real(&a), to_real(&b)))) {
        Some(g) => g,
        None => return,
    };
    c.obs("merge_checked");
    if want != a && want != b {
        c.obs("merge_joined");
    }
    c.check(got.digest() == full.digest(), "merge:digest", || format!("merging {a:?} and {b:?} changed the digest"));
    c.check(got == want, "merge:content", || format!("merging {a:?} and {b:?} gives {got:?}, expected {want:?}"));
    let mut id = tree_cbor(&a, false);
    id.extend(tree_cbor(&b, false));
    c.nontrivial(&id);
    // two proofs that contradict each other on something both reveal are refused, not blended
    let mut full2 = full.clone();
    if conflict(&mut c.rng, &mut full2) && full2 != full {
        let swap = c.rng.bool();
        let r = quiet_catch(|| if swap { merge_hash_trees(to_real(&full2), to_real(&full)) } else { merge_hash_trees(to_real(&full), to_real(&full2)) });
        c.eval();
        match r {
            Err(_) => c.obs("inconsistent_merge_refused"),
            Ok(t) => c.viol("merge:blended", format!("merging the contradicting {full:?} and {full2:?} gives {t:?}")),
        }
    }
    c.sample(|| format!("{a:?} + {b:?}"));
}
/// makes some bytes differ: longer, shorter, or in one place
fn alter(r: &mut crate::rng::Rng, v: &mut Vec<u8>) {
    match r.below(6) {
        0 if !v.is_empty() => drop(v.pop()),
        1 if !v.is_empty() => drop(v.remove(0)),
        2 if !v.is_empty() => {
            let i = r.below(v.len());
            v[i] ^= 1 << r.below(8);
        }
        3 if !v.is_empty() => v.clear(),
        4 => v.insert(0, 0),
        _ => v.push(7),
    }
}

/// changes one label or leaf value in place
fn conflict(r: &mut crate::rng::Rng, t: &mut T) -> bool {
    match t {
        T::Fork(a, b) => {
            if r.bool() {
                conflict(r, a) || conflict(r, b)
            } else {
                conflict(r, b) || conflict(r, a)
            }
        }
        T::Label(l, s) => {
            if r.bool() && conflict(r, s) {
                return true;
            }
            alter(r, l);
            true
        }
        T::Leaf(v) => {
            alter(r, v);
            true
        }
        _ => false,
    }
}
