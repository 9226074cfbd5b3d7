//! Shared random generators (trees, keys, paths, HTTP messages, CEL rules).
use crate::rng::Rng;
use crate::spec::*;

/// Short keys over a tiny alphabet so that neighbours, prefixes and collisions are common.
pub fn key(r: &mut Rng) -> Vec<u8> {
    if r.chance(1, 300) {
        let n = if r.chance(1, 20) { 65_536 + r.below(3) } else { *r.pick(&[23, 24, 31, 32, 33, 63, 64, 127, 128, 255, 256, 257]) };
        let b = *r.pick(b"abc");
        let mut v = vec![b; n];
        v[n - 1] = r.u8();
        return v;
    }
    match r.below(12) {
        0 => vec![],
        1 => vec![0],
        2 => vec![0xff],
        3 => vec![0xff, 0xff],
        4 => {
            let n = r.range(1, 40);
            r.bytes(n)
        }
        5 => vec![r.u8()],
        _ => {
            let n = r.range(1, 4);
            (0..n).map(|_| *r.pick(b"abc")).collect()
        }
    }
}
pub fn value(r: &mut Rng) -> Vec<u8> {
    if r.chance(1, 200) {
        let n = if r.chance(1, 10) { *r.pick(&[65_535, 65_536, 65_537, 70_000, 200_000]) } else { *r.pick(&[23, 24, 63, 64, 127, 128, 255, 256, 257, 1024, 4096]) };
        return r.bytes(n);
    }
    match r.below(5) {
        0 => vec![],
        1 => r.bytes(32),
        _ => {
            let n = r.range(1, 6);
            r.bytes(n)
        }
    }
}
/// Random full state as nested maps.
pub fn map(r: &mut Rng, depth: usize, width: usize) -> M {
    let n = r.below(width + 1);
    let mut m = std::collections::BTreeMap::new();
    for _ in 0..n {
        let k = key(r);
        let v = if depth == 0 || r.chance(1, 2) { M::Val(value(r)) } else { map(r, depth - 1, width) };
        m.insert(k, v);
    }
    M::Map(m)
}
/// A well-formed hash tree for nested maps: arbitrary fork shape, `empty` nodes
/// sprinkled in with probability pe/100 (they are legal anywhere in a forest).
pub fn tree_of(r: &mut Rng, m: &M, pe: u32) -> T {
    match m {
        M::Val(v) => leaf(v),
        M::Map(m) => {
            let xs: Vec<T> = m.iter().map(|(k, v)| lab(k, tree_of(r, v, pe))).collect();
            forest(r, &xs, pe)
        }
    }
}
fn forest(r: &mut Rng, xs: &[T], pe: u32) -> T {
    if pe > 0 && r.chance(pe, 100) {
        return if r.bool() { fork(T::Empty, forest(r, xs, pe / 2)) } else { fork(forest(r, xs, pe / 2), T::Empty) };
    }
    match xs.len() {
        0 => T::Empty,
        1 => xs[0].clone(),
        n => {
            let k = r.range(1, n - 1);
            fork(forest(r, &xs[..k], pe), forest(r, &xs[k..], pe))
        }
    }
}
/// Prunes each node independently with probability p/1000.
pub fn prune(r: &mut Rng, t: &T, p: u32) -> T {
    if !matches!(t, T::Pruned(_)) && r.chance(p, 1000) {
        return T::Pruned(t.digest());
    }
    match t {
        T::Fork(a, b) => fork(prune(r, a, p), prune(r, b, p)),
        T::Label(l, s) => lab(l, prune(r, s, p)),
        t => t.clone(),
    }
}
/// A path to probe: an existing one, a neighbour of an existing one, an extension, or random.
pub fn probe(r: &mut Rng, known: &[Vec<Vec<u8>>]) -> Vec<Vec<u8>> {
    let mut p = if known.is_empty() || r.chance(1, 6) {
        (0..r.below(4)).map(|_| key(r)).collect()
    } else {
        r.pick(known).clone()
    };
    match r.below(6) {
        0 => p.push(key(r)),
        1 => {
            p.pop();
        }
        2 if !p.is_empty() => {
            let i = r.below(p.len());
            p[i] = key(r);
        }
        3 if !p.is_empty() => {
            let i = r.below(p.len());
            if r.bool() {
                p[i].push(*r.pick(&[0u8, 1, b'a', 0xff]));
            } else {
                p[i].pop();
            }
        }
        _ => {}
    }
    p
}
pub fn show_path(p: &[Vec<u8>]) -> String {
    let v: Vec<String> = p.iter().map(|x| String::from_utf8_lossy(x).escape_debug().to_string()).collect();
    format!("[{}]", v.join(" / "))
}

/// Corrupts an encoding: bit flips, interesting bytes, insertions, deletions, truncation, splices.
pub fn mutate_bytes(r: &mut Rng, b: &mut Vec<u8>, other: &[u8]) {
    for _ in 0..r.range(1, 4) {
        if b.is_empty() {
            let k = r.range(1, 6);
            b.extend(r.bytes(k));
            continue;
        }
        let i = r.below(b.len());
        match r.below(10) {
            0 => b[i] ^= 1 << r.below(8),
            1 => b[i] = *r.pick(&[0u8, 1, 0x17, 0x18, 0x19, 0x1a, 0x1b, 0x1f, 0x3b, 0x40, 0x5b, 0x80, 0x81, 0x83, 0x9b, 0xa0, 0xa1, 0xbb, 0xd9, 0xf7, 0xfb, 0xff]),
            2 => {
                b.insert(i, r.u8());
            }
            3 => {
                b.remove(i);
            }
            4 => b.truncate(i),
            5 => {
                let n = r.range(1, 9).min(b.len() - i);
                let c = b[i..i + n].to_vec();
                let j = r.below(b.len() + 1);
                b.splice(j..j, c);
            }
            6 => {
                let n = r.range(1, 9).min(b.len() - i);
                b.drain(i..i + n);
            }
            7 if !other.is_empty() => {
                let s = r.below(other.len());
                let n = r.range(1, 24).min(other.len() - s);
                b.splice(i..i, other[s..s + n].to_vec());
            }
            8 => {
                // a length head with a huge count
                let head = *r.pick(&[0x5bu8, 0x7b, 0x9b, 0xbb, 0x9a, 0xba, 0x5a]);
                let mut h = vec![head];
                h.extend(if head & 1 == 1 { vec![*r.pick(&[0u8, 0x7f, 0xff]); 8] } else { vec![*r.pick(&[0u8, 0x7f, 0xff]); 4] });
                b.splice(i..i + 1, h);
            }
            _ => b[i] = b[i].wrapping_add(1),
        }
    }
}

/// A state with many labels in one level, or a long chain of levels, or both.
pub fn large_map(r: &mut Rng) -> M {
    let mut m = M::new();
    let wide = if r.chance(2, 3) { *r.pick(&[17usize, 100, 255, 256, 257, 400]) } else { 2 };
    let deep = if r.bool() { r.range(6, 60) } else { 1 };
    let mut pre: Vec<Vec<u8>> = vec![];
    let at = r.below(deep);
    for i in 0..deep {
        let n = if i == at { wide } else { r.below(3) };
        for j in 0..n {
            let mut p = pre.clone();
            p.push(vec![b'k', (j >> 8) as u8, j as u8]);
            m.insert(&p, value(r));
        }
        pre.push(key(r));
    }
    m.insert(&pre, value(r));
    m
}
