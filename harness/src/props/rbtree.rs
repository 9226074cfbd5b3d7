//! C06 map histories, C07 witnesses, C08 nested tree histories.
use crate::case::Case;
use crate::gen::*;
use crate::rng::Rng;
use crate::spec::*;
use crate::{Property, Workload};
use ic_certification::{AsHashTree, NestedTree, RbTree};
use std::collections::BTreeMap;

type Tree = RbTree<Vec<u8>, Vec<u8>>;
type Model = BTreeMap<Vec<u8>, Vec<u8>>;

pub const C06: Property = Property {
    id: "C06",
    rule: "a distinct sequence of insert/modify/delete operations, compared with a sorted map and re-hashed after every step",
    assumptions: &["SHA-256 digests do not collide"],
    must_observe: &["insert_new", "overwrite", "delete_present", "delete_absent", "modify_present", "modify_absent", "root_hash_checked", "iterated", "large_history_balanced", "emptied", "inner_maps_checked", "typed_checked"],
    workloads: &[
        Workload { name: "history", f: history, quick: 60_000, thorough: 250_000 },
        Workload { name: "long_history", f: long_history, quick: 600, thorough: 3000 },
        Workload { name: "delete_all", f: delete_all, quick: 8_000, thorough: 100_000 },
        Workload { name: "two_levels", f: two_levels, quick: 20_000, thorough: 400_000 },
        Workload { name: "typed", f: typed, quick: 20_000, thorough: 200_000 },
    ],
};

fn hist_key(r: &mut Rng, universe: usize) -> Vec<u8> {
    if universe > 0 {
        // a bounded universe, so that operations hit each other
        let k = r.below(universe);
        let mut v = (k as u16).to_be_bytes().to_vec();
        if k % 3 == 0 {
            v.truncate(1);
            v.push(k as u8);
            v.push(0);
        }
        v
    } else {
        key(r)
    }
}

fn full_check(c: &mut Case, t: &Tree, m: &Model, trace: &dyn Fn() -> String) {
    let tree = from_real(&t.as_hash_tree());
    let rh = t.root_hash();
    c.obs("root_hash_checked");
    c.check(rh == tree.digest(), "rbtree:root_hash", || format!("root_hash is not the digest of the tree after {}", trace()));
    match tree_to_map(&tree) {
        Ok(M::Map(got)) => {
            let want: BTreeMap<Vec<u8>, M> = m.iter().map(|(k, v)| (k.clone(), M::Val(v.clone()))).collect();
            c.check(got == want, "rbtree:content", || format!("tree holds {got:?}, expected {want:?} after {}", trace()));
        }
        Ok(_) => c.viol("rbtree:shape", format!("not a map after {}", trace())),
        Err(e) => c.viol("rbtree:shape", format!("{e} after {}", trace())),
    }
    let it: Vec<(Vec<u8>, Vec<u8>)> = t.iter().map(|(k, v)| (AsRef::<[u8]>::as_ref(k).to_vec(), v.clone())).collect();
    let want: Vec<(Vec<u8>, Vec<u8>)> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    c.obs("iterated");
    c.check(it == want, "rbtree:iter", || format!("iteration gives {it:?}, expected {want:?} after {}", trace()));
    let seen = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
    {
        let s = seen.clone();
        t.for_each(move |k, v| s.borrow_mut().push((k.to_vec(), v.clone())));
    }
    c.check(*seen.borrow() == want, "rbtree:for_each", || format!("for_each differs from the map after {}", trace()));
    c.check(t.is_empty() == m.is_empty(), "rbtree:is_empty", || format!("is_empty wrong after {}", trace()));
}

fn run_history(c: &mut Case, len: usize, universe: usize, check_every: usize) {
    let mut t = Tree::new();
    let mut m = Model::new();
    let mut log: Vec<String> = vec![];
    let bias = c.rng.range(1, 9) as u32;
    for step in 0..len {
        let k = if !m.is_empty() && c.rng.chance(1, 3) {
            let i = c.rng.below(m.len());
            m.keys().nth(i).unwrap().clone()
        } else {
            hist_key(&mut c.rng, universe)
        };
        let what = c.rng.below(10) as u32;
        if what < bias {
            let v = value(&mut c.rng);
            c.obs(if m.contains_key(&k) { "overwrite" } else { "insert_new" });
            log.push(format!("insert {k:?}={v:?}"));
            m.insert(k.clone(), v.clone());
            if c.guard("rbtree insert", || t.insert(k.clone(), v)).is_none() {
                return;
            }
        } else if c.rng.chance(1, 4) {
            let v = value(&mut c.rng);
            c.obs(if m.contains_key(&k) { "modify_present" } else { "modify_absent" });
            log.push(format!("modify {k:?}={v:?}"));
            if let Some(x) = m.get_mut(&k) {
                *x = v.clone();
            }
            if c.guard("rbtree modify", || t.modify(&k, |x| *x = v)).is_none() {
                return;
            }
        } else {
            c.obs(if m.contains_key(&k) { "delete_present" } else { "delete_absent" });
            log.push(format!("delete {k:?}"));
            m.remove(&k);
            if c.guard("rbtree delete", || t.delete(&k)).is_none() {
                return;
            }
            if m.is_empty() {
                c.obs("emptied");
            }
        }
        let trace = || {
            let n = log.len();
            log[n.saturating_sub(40)..].join("; ")
        };
        let g = t.get(&k).cloned();
        c.check(g == m.get(&k).cloned(), "rbtree:get", || format!("get {k:?} = {g:?} after {}", trace()));
        let probe = hist_key(&mut c.rng, universe);
        let g = t.get(&probe).cloned();
        c.check(g == m.get(&probe).cloned(), "rbtree:get", || format!("get {probe:?} = {g:?} after {}", trace()));
        if step % check_every == check_every - 1 || step + 1 == len {
            full_check(c, &t, &m, &trace);
        }
    }
    // equality and order depend on the content only, not on the history
    let rebuilt: Tree = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    c.check(rebuilt == t, "rbtree:eq", || format!("a map with the same content compares different after {}", log.join("; ")));
    c.check(rebuilt.cmp(&t) == std::cmp::Ordering::Equal, "rbtree:ord", || "a map with the same content does not compare equal".into());
    let mut other = t.clone();
    other.insert(vec![0xfe, 1, 2, 3], vec![9]);
    // maps compare like the sequences of their entries
    let mut m2 = m.clone();
    let mut t2 = t.clone();
    for _ in 0..c.rng.below(3) {
        let k = hist_key(&mut c.rng, universe);
        let v = value(&mut c.rng);
        if c.rng.bool() {
            t2.insert(k.clone(), v.clone());
            m2.insert(k, v);
        } else {
            t2.delete(&k);
            m2.remove(&k);
        }
    }
    c.check(t.cmp(&t2) == m.cmp(&m2) && t.partial_cmp(&t2) == Some(m.cmp(&m2)), "rbtree:ord", || format!("{m:?} compares to {m2:?} as {:?}, expected {:?}", t.cmp(&t2), m.cmp(&m2)));
    c.check((t == t2) == (m == m2), "rbtree:eq", || format!("equality of {m:?} and {m2:?} is {}", t == t2));
    c.check((other == t) == (m.get(&vec![0xfe, 1, 2, 3]) == Some(&vec![9])), "rbtree:eq", || "maps with different content compare equal".into());
    // depth stays logarithmic
    let tree = from_real(&t.as_hash_tree());
    let n = m.len();
    let bound = 2 * (2 * (usize::BITS - (n + 1).leading_zeros()) as usize) + 2;
    c.check(tree.fork_depth() <= bound, "rbtree:balance", || format!("{n} entries, fork depth {} > {bound} after {}", tree.fork_depth(), log.join("; ")));
    if n > 200 {
        c.obs("large_history_balanced");
    }
    c.nontrivial(log.join(";").as_bytes());
    c.sample(|| log.join("; "));
}

fn history(c: &mut Case) {
    let len = c.rng.range(1, 40);
    let u = *c.rng.pick(&[0usize, 4, 8, 16, 40]);
    run_history(c, len, u, 1);
}
fn long_history(c: &mut Case) {
    let len = c.rng.range(400, 1200);
    let u = *c.rng.pick(&[64usize, 600, 5000]);
    run_history(c, len, u, 97);
    // and a monotone fill, the worst case for a tree that does not rebalance
    let up = c.rng.bool();
    let mut t = Tree::new();
    let mut m = Model::new();
    let n = c.rng.range(300, 900);
    for i in 0..n {
        let k = if up { i } else { n - i };
        let k = (k as u32).to_be_bytes().to_vec();
        t.insert(k.clone(), vec![1]);
        m.insert(k, vec![1]);
    }
    full_check(c, &t, &m, &|| format!("monotone fill of {n}"));
    let d = from_real(&t.as_hash_tree()).fork_depth();
    c.check(d <= 2 * 2 * 10 + 2, "rbtree:balance", || format!("monotone fill of {n} has fork depth {d}"));
    c.obs("large_history_balanced");
    // delete every other element, then check again
    for i in (0..n).step_by(2) {
        let k = (i as u32).to_be_bytes().to_vec();
        t.delete(&k);
        m.remove(&k);
    }
    full_check(c, &t, &m, &|| format!("monotone fill of {n}, even keys deleted"));
}
fn delete_all(c: &mut Case) {
    let n = c.rng.range(1, 60);
    let mut keys: Vec<Vec<u8>> = (0..n).map(|i| vec![(i * 4) as u8]).collect();
    c.rng.shuffle(&mut keys);
    let mut t = Tree::new();
    let mut m = Model::new();
    for k in &keys {
        t.insert(k.clone(), k.clone());
        m.insert(k.clone(), k.clone());
    }
    let mut order = keys.clone();
    match c.rng.below(3) {
        0 => order.sort(),
        1 => {
            order.sort();
            order.reverse();
        }
        _ => c.rng.shuffle(&mut order),
    }
    for (i, k) in order.iter().enumerate() {
        if c.guard("rbtree delete", || t.delete(k)).is_none() {
            return;
        }
        m.remove(k);
        c.obs("delete_present");
        full_check(c, &t, &m, &|| format!("insert {keys:?}; delete {:?}", &order[..=i]));
    }
    c.obs("emptied");
    c.check(t.root_hash() == T::Empty.digest(), "rbtree:empty_root", || "an emptied map does not have the empty root hash".into());
    c.nontrivial(format!("{keys:?}{order:?}").as_bytes());
}

/// keys and values of other types
fn typed(c: &mut Case) {
    let mut t: RbTree<String, ic_certification::Hash> = RbTree::new();
    let mut m: BTreeMap<String, [u8; 32]> = BTreeMap::new();
    let mut log: Vec<String> = vec![];
    for _ in 0..c.rng.range(1, 12) {
        let k = c.rng.pick(&["", "a", "ab", "b", "é", "é/", "zz", "\u{0}", "\u{ffff}", "\u{10000}"]).to_string();
        let v: [u8; 32] = c.rng.bytes(32).try_into().unwrap();
        match c.rng.below(4) {
            0 => {
                log.push(format!("delete {k:?}"));
                m.remove(&k);
                t.delete(k.as_bytes());
            }
            1 => {
                log.push(format!("modify {k:?}"));
                if let Some(x) = m.get_mut(&k) {
                    *x = v;
                }
                t.modify(k.as_bytes(), |x| *x = v);
            }
            _ => {
                log.push(format!("insert {k:?}"));
                m.insert(k.clone(), v);
                t.insert(k, v);
            }
        }
        let tree = from_real(&t.as_hash_tree());
        c.check(t.root_hash() == tree.digest(), "rbtree:root_hash", || format!("root_hash of a map of digests is not the digest of its tree after {}", log.join("; ")));
        // keys count by their bytes
        let want: BTreeMap<Vec<u8>, M> = m.iter().map(|(k, v)| (k.as_bytes().to_vec(), M::Val(v.to_vec()))).collect();
        c.check(tree_to_map(&tree) == Ok(M::Map(want)), "rbtree:content", || format!("a map of digests holds {tree:?}, expected {m:?} after {}", log.join("; ")));
        let k = c.rng.pick(&["", "a", "aa", "ab", "c", "é", "zz"]).to_string();
        let w = from_real(&t.witness(k.as_bytes()));
        let want = m.get(&k).map_or(LookPath::Absent, |v| LookPath::Found(v.to_vec()));
        c.check(w.digest() == tree.digest() && look_path(&w, &[k.as_bytes().to_vec()]) == want, "witness:typed", || format!("the witness of {k:?} shows {w:?}, expected {want:?} after {}", log.join("; ")));
        c.obs("typed_checked");
    }
    c.nontrivial(log.join(";").as_bytes());
}
/// a map of maps, its inner maps changed in place
fn two_levels(c: &mut Case) {
    let mut t: RbTree<Vec<u8>, Tree> = RbTree::new();
    let mut m: BTreeMap<Vec<u8>, Model> = BTreeMap::new();
    let mut log: Vec<String> = vec![];
    for _ in 0..c.rng.range(1, 25) {
        let k = if !m.is_empty() && c.rng.chance(3, 5) {
            let i = c.rng.below(m.len());
            m.keys().nth(i).unwrap().clone()
        } else {
            hist_key(&mut c.rng, 12)
        };
        let k2 = hist_key(&mut c.rng, 6);
        let v = value(&mut c.rng);
        match c.rng.below(8) {
            0 => {
                log.push(format!("delete {k:?}"));
                m.remove(&k);
                t.delete(&k);
            }
            1 | 2 => {
                log.push(format!("insert {k:?} = {{{k2:?}: {v:?}}}"));
                m.insert(k.clone(), Model::from([(k2.clone(), v.clone())]));
                t.insert(k, Tree::from_iter([(k2, v)]));
            }
            3 | 4 => {
                log.push(format!("delete {k2:?} in {k:?}"));
                if let Some(x) = m.get_mut(&k) {
                    x.remove(&k2);
                }
                t.modify(&k, |x| x.delete(&k2));
            }
            _ => {
                log.push(format!("insert {k2:?} = {v:?} in {k:?}"));
                if let Some(x) = m.get_mut(&k) {
                    x.insert(k2.clone(), v.clone());
                }
                t.modify(&k, |x| x.insert(k2, v));
            }
        }
        let tree = from_real(&t.as_hash_tree());
        c.check(t.root_hash() == tree.digest(), "rbtree:root_hash", || format!("root_hash of a map of maps is not the digest of its tree after {}", log.join("; ")));
        let want = M::Map(m.iter().map(|(k, x)| (k.clone(), M::Map(x.iter().map(|(k, v)| (k.clone(), M::Val(v.clone()))).collect()))).collect());
        match tree_to_map(&tree) {
            Ok(got) => {
                c.check(got == want, "rbtree:content", || format!("a map of maps holds {got:?}, expected {want:?} after {}", log.join("; ")));
            }
            Err(e) => c.viol("rbtree:shape", format!("{e} after {}", log.join("; "))),
        }
        c.obs("inner_maps_checked");
        // a witness built by the caller's own function for the inner map
        if !m.is_empty() {
            let i = c.rng.below(m.len());
            let k = m.keys().nth(i).unwrap().clone();
            let k2 = hist_key(&mut c.rng, 6);
            let w = from_real(&t.nested_witness(&k, |x| x.witness(&k2)));
            let l = look_path(&w, &[k.clone(), k2.clone()]);
            let want = match m[&k].get(&k2) {
                Some(v) => LookPath::Found(v.clone()),
                None => LookPath::Absent,
            };
            c.check(w.digest() == tree.digest() && l == want, "witness:two_levels", || format!("the witness of {k:?}/{k2:?} shows {l:?}, expected {want:?} after {}", log.join("; ")));
        }
    }
    c.nontrivial(log.join(";").as_bytes());
}

// ------------------------------------------------------------------ witnesses

pub const C07: Property = Property {
    id: "C07",
    rule: "a distinct (map, witness request) pair whose witness was judged by the specification's own lookup",
    assumptions: &["SHA-256 digests do not collide"],
    must_observe: &["presence_witness", "absence_witness", "range_witness", "empty_range_witness", "prefix_witness", "keys_witness", "nested_witness_present", "nested_witness_absent", "library_lookup_agrees"],
    workloads: &[
        Workload { name: "witness", f: witness, quick: 120_000, thorough: 1_500_000 },
        Workload { name: "nested_witness", f: nested_witness, quick: 80_000, thorough: 300_000 },
    ],
};

fn visible_labels(t: &T) -> Vec<Vec<u8>> {
    let mut xs = vec![];
    t.flatten(&mut xs);
    xs.iter().filter_map(|x| if let T::Label(l, _) = x { Some(l.clone()) } else { None }).collect()
}
/// labels of this level whose value is shown
fn visible_values(t: &T) -> Vec<Vec<u8>> {
    let mut xs = vec![];
    t.flatten(&mut xs);
    xs.iter()
        .filter_map(|x| match x {
            T::Label(l, s) if !matches!(**s, T::Pruned(_)) => Some(l.clone()),
            _ => None,
        })
        .collect()
}

fn build(c: &mut Case) -> (Tree, Model) {
    let n = *c.rng.pick(&[0usize, 1, 2, 3, 5, 8, 13, 30]);
    let mut t = Tree::new();
    let mut m = Model::new();
    for _ in 0..n {
        let k = key(&mut c.rng);
        let v = value(&mut c.rng);
        t.insert(k.clone(), v.clone());
        m.insert(k, v);
    }
    for _ in 0..c.rng.below(4) {
        if m.is_empty() {
            break;
        }
        let i = c.rng.below(m.len());
        let k = m.keys().nth(i).unwrap().clone();
        t.delete(&k);
        m.remove(&k);
    }
    (t, m)
}

fn basic(c: &mut Case, what: &str, w: &T, full: &T, root: &H) {
    c.check(w.digest() == *root, "witness:digest", || format!("{what}: digest of {w:?} is not the root hash"));
    c.check(is_pruning_of(w, full), "witness:not_a_pruning", || format!("{what}: {w:?} is not a pruning of {full:?}"));
}

fn witness(c: &mut Case) {
    let (t, m) = build(c);
    let full = from_real(&t.as_hash_tree());
    let root = full.digest();
    for _ in 0..4 {
        // --- single key
        let k = if !m.is_empty() && c.rng.bool() {
            let i = c.rng.below(m.len());
            let mut k = m.keys().nth(i).unwrap().clone();
            match c.rng.below(6) {
                0 => k.push(0),
                1 => {
                    k.pop();
                }
                _ => {}
            }
            k
        } else {
            key(&mut c.rng)
        };
        let Some(real) = c.guard("witness", || t.witness(&k)) else { return };
        let w = from_real(&real);
        let what = format!("witness of {k:?} in {m:?}");
        basic(c, &what, &w, &full, &root);
        let look = look_path(&w, &[k.clone()]);
        match m.get(&k) {
            Some(v) => {
                c.obs("presence_witness");
                c.check(look == LookPath::Found(v.clone()), "witness:presence", || format!("{what} proves {look:?}"));
                c.check(visible_labels(&w) == vec![k.clone()], "witness:disclosure", || format!("{what} shows other keys: {w:?}"));
            }
            None => {
                c.obs("absence_witness");
                c.check(look == LookPath::Absent, "witness:absence", || format!("{what} proves {look:?}: {w:?}"));
                let below = m.range(..k.clone()).next_back().map(|x| x.0.clone());
                let above = m.range(k.clone()..).next().map(|x| x.0.clone());
                let allowed: Vec<Vec<u8>> = below.into_iter().chain(above).collect();
                c.check(visible_labels(&w).iter().all(|l| allowed.contains(l)), "witness:disclosure", || format!("{what} shows keys other than the neighbours: {w:?}"));
                c.check(visible_values(&w).is_empty(), "witness:disclosure", || format!("{what} shows values: {w:?}"));
            }
        }
        // the library's own lookup must be able to use its own witness
        let lib = match real.lookup_path([&k]) {
            ic_certification::LookupResult::Found(v) => LookPath::Found(v.to_vec()),
            ic_certification::LookupResult::Absent => LookPath::Absent,
            ic_certification::LookupResult::Unknown => LookPath::Unknown,
            ic_certification::LookupResult::Error => LookPath::Error,
        };
        c.obs("library_lookup_agrees");
        c.check(lib == look, "witness:library_lookup", || format!("{what}: the library's lookup gives {lib:?}, the specification's {look:?}"));
        c.nontrivial(what.as_bytes());

        // --- ranges
        let (mut lo, mut hi) = (key(&mut c.rng), key(&mut c.rng));
        if lo > hi {
            std::mem::swap(&mut lo, &mut hi);
        }
        let inside: Vec<Vec<u8>> = m.range(lo.clone()..=hi.clone()).map(|x| x.0.clone()).collect();
        c.obs(if inside.is_empty() { "empty_range_witness" } else { "range_witness" });
        let below = m.range(..lo.clone()).next_back().map(|x| x.0.clone());
        let above = m.range((std::ops::Bound::Excluded(hi.clone()), std::ops::Bound::Unbounded)).next().map(|x| x.0.clone());
        let outer: Vec<Vec<u8>> = below.into_iter().chain(above).collect();
        let Some(kr) = c.guard("key_range", || from_real(&t.key_range(&lo, &hi))) else { return };
        let Some(vr) = c.guard("value_range", || from_real(&t.value_range(&lo, &hi))) else { return };
        for (name, w, values) in [("key_range", &kr, false), ("value_range", &vr, true)] {
            let what = format!("{name} {lo:?}..={hi:?} of {m:?}");
            basic(c, &what, w, &full, &root);
            let vis = visible_labels(w);
            c.check(inside.iter().all(|k| vis.contains(k)), "witness:range_missing_key", || format!("{what} hides a key of the range: {w:?}"));
            c.check(vis.iter().all(|k| inside.contains(k) || outer.contains(k)), "witness:range_disclosure", || format!("{what} shows keys beyond the neighbours: {w:?}"));
            let vals = visible_values(w);
            if values {
                c.check(vals == inside, "witness:range_values", || format!("{what} shows the values of {vals:?}, expected {inside:?}"));
                for k in &inside {
                    let l = look_path(w, &[k.clone()]);
                    c.check(l == LookPath::Found(m[k].clone()), "witness:range_values", || format!("{what}: {k:?} gives {l:?}"));
                }
            } else {
                c.check(vals.is_empty(), "witness:range_disclosure", || format!("{what} shows values: {w:?}"));
            }
            // nothing between lo and hi can be hidden
            for _ in 0..4 {
                let p = key(&mut c.rng);
                if p >= lo && p <= hi {
                    let l = find_label(w, &p);
                    let good = if m.contains_key(&p) { matches!(l, Look::Found(_)) } else { l == Look::Absent };
                    c.check(good, "witness:range_incomplete", || format!("{what}: {p:?} gives {l:?} in {w:?}"));
                }
            }
            c.nontrivial(what.as_bytes());
        }
        // --- prefix
        let pre: Vec<u8> = {
            let mut k = key(&mut c.rng);
            k.truncate(c.rng.below(3));
            k
        };
        let Some(pw) = c.guard("keys_with_prefix", || from_real(&t.keys_with_prefix(&pre))) else { return };
        c.obs("prefix_witness");
        let what = format!("keys_with_prefix {pre:?} of {m:?}");
        basic(c, &what, &pw, &full, &root);
        let inside: Vec<Vec<u8>> = m.keys().filter(|k| k.starts_with(&pre)).cloned().collect();
        let vis = visible_labels(&pw);
        c.check(inside.iter().all(|k| vis.contains(k)), "witness:prefix_missing_key", || format!("{what} hides a key: {pw:?}"));
        let below = m.range(..pre.clone()).next_back().map(|x| x.0.clone());
        let above = m.keys().find(|k| **k > pre && !k.starts_with(&pre)).cloned();
        c.check(
            vis.iter().all(|k| inside.contains(k) || Some(k) == below.as_ref() || Some(k) == above.as_ref()),
            "witness:prefix_disclosure",
            || format!("{what} shows keys beyond the neighbours: {pw:?}"),
        );
        c.check(visible_values(&pw).is_empty(), "witness:prefix_disclosure", || format!("{what} shows values: {pw:?}"));
        for _ in 0..3 {
            let mut p = pre.clone();
            p.extend(key(&mut c.rng));
            let l = find_label(&pw, &p);
            let good = if m.contains_key(&p) { matches!(l, Look::Found(_)) } else { l == Look::Absent };
            c.check(good, "witness:prefix_incomplete", || format!("{what}: {p:?} gives {l:?} in {pw:?}"));
        }
        c.nontrivial(what.as_bytes());
    }
    // --- all keys
    let Some(kw) = c.guard("keys", || from_real(&t.keys())) else { return };
    c.obs("keys_witness");
    basic(c, "keys", &kw, &full, &root);
    let vis = visible_labels(&kw);
    c.check(vis == m.keys().cloned().collect::<Vec<_>>(), "witness:keys", || format!("keys() of {m:?} shows {vis:?}"));
    c.check(visible_values(&kw).is_empty(), "witness:keys", || "keys() shows values".into());
    c.sample(|| format!("map {m:?}"));
}

type NT = NestedTree<Vec<u8>, Vec<u8>>;

fn nested_build(c: &mut Case) -> (NT, M, Vec<Vec<Vec<u8>>>) {
    let mut t = NT::default();
    let mut m = M::new();
    let n = c.rng.range(0, 10);
    let mut paths: Vec<Vec<Vec<u8>>> = vec![];
    for _ in 0..n {
        let p = npath(&mut c.rng, &paths, 1);
        let v = value(&mut c.rng);
        t.insert(&p, v.clone());
        m.insert(&p, v);
        paths.push(p);
    }
    (t, m, paths)
}
fn npath(r: &mut Rng, paths: &[Vec<Vec<u8>>], min: usize) -> Vec<Vec<u8>> {
    // now and then a path of many segments, and paths next to it
    if let Some(i) = paths.iter().position(|p| p.len() > 5) {
        if r.bool() {
            let mut p = paths[i].clone();
            match r.below(8) {
                0 => p.truncate(r.range(1, p.len())),
                1 => p.push(key(r)),
                2 | 3 => {
                    let n = p.len();
                    p[n - 1] = key(r);
                }
                4 => {
                    let n = r.range(1, p.len());
                    p[n - 1] = key(r);
                }
                _ => {}
            }
            return p;
        }
    } else if r.chance(1, 200) {
        let n = *r.pick(&[6, 10, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 130, 200]);
        let k = r.pick(&[vec![], vec![b'a'], vec![0]]).clone();
        return (0..n).map(|i| if i % 7 == 3 { vec![i as u8] } else { k.clone() }).collect();
    }
    let mut p = probe(r, paths);
    p.truncate(5);
    while p.len() < min {
        p.push(key(r));
    }
    p
}

fn nested_witness(c: &mut Case) {
    let (t, m, paths) = nested_build(c);
    let full = from_real(&t.as_hash_tree());
    let root = t.root_hash();
    for _ in 0..5 {
        let p = npath(&mut c.rng, &paths, 0);
        let Some(real) = c.guard("nested witness", || t.witness(&p)) else { return };
        let w = from_real(&real);
        let what = format!("nested witness of {} in {m:?}", show_path(&p));
        basic(c, &what, &w, &full, &root);
        match m.get(&p) {
            Some(M::Val(v)) => {
                c.obs("nested_witness_present");
                let l = look_path(&w, &p);
                c.check(l == LookPath::Found(v.clone()), "witness:nested_presence", || format!("{what} proves {l:?}"));
                // nothing else is shown on the way down
                let mut cur = &w;
                for s in &p {
                    let vis = visible_labels(cur);
                    if vis != vec![s.clone()] {
                        c.viol("witness:nested_disclosure", format!("{what} shows {vis:?} next to {s:?}"));
                        break;
                    }
                    match find_label(cur, s) {
                        Look::Found(x) => cur = x,
                        _ => break,
                    }
                }
                c.eval();
            }
            Some(sub) => {
                c.obs("nested_witness_subtree");
                let l = look_subtree(&w, &p);
                let ok = matches!(&l, Look::Found(x) if tree_to_map(x) == Ok(sub.clone()));
                c.check(ok, "witness:nested_subtree", || format!("{what} proves {l:?}, expected {sub:?}"));
            }
            None => {
                c.obs("nested_witness_absent");
                let l = look_subtree(&w, &p);
                c.check(l == Look::Absent, "witness:nested_absence", || format!("{what} proves {l:?} in {w:?}"));
            }
        }
        c.nontrivial(what.as_bytes());
    }
    c.sample(|| format!("nested map {m:?}"));
}

// ------------------------------------------------------------------ nested histories

pub const C08: Property = Property {
    id: "C08",
    rule: "a distinct history of nested insert/delete operations, compared with nested maps after every step",
    assumptions: &["SHA-256 digests do not collide"],
    must_observe: &["insert", "insert_over_subtree", "insert_below_leaf", "delete_leaf", "delete_subtree", "delete_absent", "clear", "parents_pruned"],
    workloads: &[Workload { name: "nested_history", f: nested_history, quick: 100_000, thorough: 250_000 }],
};

/// what deleting a path does: the leaf or subtree goes, parents left empty go with it
fn m_delete(m: &mut M, p: &[Vec<u8>]) {
    if p.is_empty() {
        *m = M::new();
        return;
    }
    if let M::Map(x) = m {
        if let Some(ch) = x.get_mut(&p[0]) {
            if p.len() == 1 || matches!(ch, M::Map(_)) {
                m_delete(ch, &p[1..]);
            }
            if matches!(ch, M::Map(y) if y.is_empty()) {
                x.remove(&p[0]);
            }
        }
    }
}

fn nested_history(c: &mut Case) {
    let mut t = NT::default();
    let mut m = M::new();
    let mut log: Vec<String> = vec![];
    let mut paths: Vec<Vec<Vec<u8>>> = vec![];
    let len = c.rng.range(1, 25);
    for _ in 0..len {
        let p = npath(&mut c.rng, &paths, 1);
        match c.rng.below(20) {
            0 => {
                log.push("clear".into());
                c.obs("clear");
                t.clear();
                m = M::new();
            }
            1..=12 => {
                let v = value(&mut c.rng);
                match m.get(&p) {
                    Some(M::Map(_)) => c.obs("insert_over_subtree"),
                    _ => c.obs("insert"),
                }
                if (1..p.len()).any(|i| matches!(m.get(&p[..i]), Some(M::Val(_)))) {
                    c.obs("insert_below_leaf");
                }
                log.push(format!("insert {}={v:?}", show_path(&p)));
                m.insert(&p, v.clone());
                if c.guard("nested insert", || t.insert(&p, v)).is_none() {
                    return;
                }
                paths.push(p.clone());
            }
            _ => {
                log.push(format!("delete {}", show_path(&p)));
                match m.get(&p) {
                    Some(M::Val(_)) => c.obs("delete_leaf"),
                    Some(_) => c.obs("delete_subtree"),
                    None => c.obs("delete_absent"),
                }
                let had = m.get(&p).is_some() && p.len() > 1;
                m_delete(&mut m, &p);
                if had && m.get(&p[..p.len() - 1]).is_none() {
                    c.obs("parents_pruned");
                }
                if c.guard("nested delete", || t.delete(&p)).is_none() {
                    return;
                }
            }
        }
        let trace = log.join("; ");
        let tree = from_real(&t.as_hash_tree());
        c.check(t.root_hash() == tree.digest(), "nested:root_hash", || format!("root_hash is not the digest of the tree after {trace}"));
        match tree_to_map(&tree) {
            Ok(got) => {
                c.check(got == m, "nested:content", || format!("tree holds {got:?}, expected {m:?} after {trace}"));
            }
            Err(e) => c.viol("nested:shape", format!("{e} after {trace}")),
        }
        for _ in 0..3 {
            let q = npath(&mut c.rng, &paths, 0);
            let want = match m.get(&q) {
                Some(M::Val(v)) => Some(v.clone()),
                _ => None,
            };
            let got = t.get(&q).cloned();
            c.check(got == want, "nested:get", || format!("get {} = {got:?}, expected {want:?} after {trace}", show_path(&q)));
            c.check(t.contains_leaf(&q) == want.is_some(), "nested:contains_leaf", || format!("contains_leaf {} wrong after {trace}", show_path(&q)));
            c.check(t.contains_path(&q) == m.get(&q).is_some(), "nested:contains_path", || format!("contains_path {} wrong after {trace}", show_path(&q)));
        }
    }
    c.nontrivial(log.join(";").as_bytes());
    c.sample(|| log.join("; "));
}
