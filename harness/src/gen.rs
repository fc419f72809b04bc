//! Generators shared by the properties.

use std::collections::{BTreeMap, HashSet};

use proptest::{
    collection::vec,
    prelude::*,
    strategy::{BoxedStrategy, Union},
};
use serde::{Deserialize, Serialize};

use crate::refmodel::{keccak, Contents, Entry, Key};

/// A value, described by its length, a byte and a manner of filling it.
#[derive(Clone, Copy, Debug, Deserialize, Eq, Hash, PartialEq, Serialize)]
pub struct Val {
    pub len: u32,
    pub tag: u8,
    #[serde(default, skip_serializing_if = "is_zero")]
    pub fill: u8,
}

fn is_zero(x: &u8) -> bool {
    *x == 0
}

impl Val {
    pub fn bytes(&self) -> Vec<u8> {
        let len = self.len.max(1) as usize;
        let mut out: Vec<u8> = (0..len)
            .map(|i| self.tag.wrapping_add((i as u8).wrapping_mul(37)) ^ ((i >> 8) as u8))
            .collect();
        match self.fill {
            1 => out.fill(self.tag),
            2 => out[..len / 2].fill(0),
            3 => out[len / 2..].fill(0),
            // Reads as an RLP string or list.
            4 | 5 if len <= 56 => out[0] = if self.fill == 4 { 0x80 } else { 0xc0 } + (len - 1) as u8,
            4 | 5 if len <= 257 => {
                out[0] = if self.fill == 4 { 0xb8 } else { 0xf8 };
                out[1] = (len - 2) as u8;
            }
            // A hash, or the start of one.
            6 => {
                let d = digest(self.tag);
                let n = len.min(32);
                out[..n].copy_from_slice(&d[..n]);
            }
            // Alike but for one byte.
            7 => {
                out.fill(0x5a);
                out[len - 1] = self.tag;
            }
            8 => {
                out.fill(0x5a);
                out[len / 2] = self.tag;
            }
            _ => (),
        }
        out
    }
}

/// An entry of a partial trie.
#[derive(Clone, Copy, Debug, Deserialize, Eq, Hash, PartialEq, Serialize)]
pub enum E {
    V(Val),
    H(u8),
}

impl E {
    pub fn entry(&self) -> Entry {
        match self {
            E::V(v) => Entry::Val(v.bytes()),
            E::H(tag) => Entry::Hash(digest(*tag)),
        }
    }
}

pub fn digest(tag: u8) -> [u8; 32] {
    match tag {
        0 => [0; 32],
        1 => [0xff; 32],
        // The hash of an empty trie, and of nothing.
        2 => keccak(&[0x80]),
        3 => keccak(&[]),
        // Not keccak(&[t]), which is the hash of an empty trie for 0x80.
        t @ 4..=191 => keccak(&[t, 1]),
        // Single bits away from the first two of these.
        t => {
            let mut h = keccak(&[4 + (t & 1), 1]);
            h[(t - 192) as usize / 2] ^= 0x10;
            h
        }
    }
}

/// One step of a history.
#[derive(Clone, Debug, Deserialize, Eq, Hash, PartialEq, Serialize)]
pub enum Op {
    Ins(Key, Val),
    /// Insert a hash node; left out where the contents do not allow one.
    InsHash(Key, u8),
    Bulk(Vec<(Key, Val)>),
    Del(Key),
    Get(Key),
    /// Start over with a trie built from the present contents.
    Rebuild,
}

/// Whether an entry of this kind may be put under `k`: values not at or below
/// a hash entry, hashes only where there is nothing at or below either.
pub fn allowed(c: &Contents, k: &Key, is_hash: bool) -> bool {
    let under_hash = (0..=k.0.len())
        .any(|i| matches!(c.get(&Key(k.0[..i].to_vec())), Some(Entry::Hash(_))));
    let occupied = || c.range(k.clone()..).next().is_some_and(|(o, _)| k.is_prefix_of(o));
    !under_hash && !(is_hash && occupied())
}

/// Keys at or below a hash entry.
pub fn below_hash(c: &Contents, k: &Key) -> bool {
    !allowed(c, k, false)
}

/// The entries that can coexist, in order.
pub fn compatible(es: &[(Key, E)]) -> (Vec<(Key, Entry)>, Contents) {
    let mut c = Contents::new();
    let mut out = Vec::new();
    for (k, e) in es {
        let e = e.entry();
        if allowed(&c, k, e.is_hash()) {
            c.insert(k.clone(), e.clone());
            out.push((k.clone(), e));
        }
    }
    (out, c)
}

// ---------------------------------------------------------------- values

fn fill() -> BoxedStrategy<u8> {
    prop_oneof![5 => Just(0u8), 1 => 1..=8u8].boxed()
}

pub fn val() -> BoxedStrategy<Val> {
    let len = prop_oneof![
        30 => Just(1u32),
        15 => 2..=6u32,
        25 => 20..=36u32,
        10 => 7..=60u32,
        8 => 53..=58u32,
        4 => 253..=259u32,
        1 => 60..=1000u32,
        1 => 1000..=4200u32,
    ];
    let tag = prop_oneof![
        3 => any::<u8>(),
        1 => prop::sample::select(vec![0u8, 1, 0x7f, 0x80, 0x81, 0xb7, 0xb8, 0xc0, 0xf8, 0xff]),
    ];
    (len, tag, fill())
        .prop_map(|(len, tag, fill)| Val { len, tag, fill })
        .boxed()
}

/// Also values around the 64 KiB length form.
pub fn val_incl_huge() -> BoxedStrategy<Val> {
    prop_oneof![
        1000 => val(),
        2 => (65_530..=65_540u32, any::<u8>()).prop_map(|(len, tag)| Val { len, tag, fill: 0 }),
        1 => (4_200..=300_000u32, any::<u8>()).prop_map(|(len, tag)| Val { len, tag, fill: 0 }),
    ]
    .boxed()
}

/// Often one of a few, so that values repeat.
fn small_tag() -> BoxedStrategy<u8> {
    prop_oneof![3 => any::<u8>(), 1 => prop::sample::select(vec![0u8, 1, 0x7f, 0x80])].boxed()
}

pub fn small_val() -> BoxedStrategy<Val> {
    prop_oneof![
        40 => Just(1u32),
        20 => 2..=6u32,
        60 => 24..=34u32,
        3 => 35..=300u32,
    ]
    .prop_flat_map(|len| {
        (small_tag(), fill()).prop_map(move |(tag, fill)| Val { len, tag, fill })
    })
    .boxed()
}

// ------------------------------------------------------------------ keys

#[derive(Clone, Debug)]
enum Recipe {
    Fresh(Vec<u8>),
    Extend(u16, Vec<u8>),
    Cut(u16, u8),
    Flip(u16, u8, u8),
    /// The sixteen one-nibble extensions of a key.
    Fan(u16),
    /// Prefixes of a key, this many lengths apart.
    Stairs(u16, u8),
    /// Diverge from a key just before or after a given length.
    Diverge(u16, u8, Vec<u8>),
    /// The keys of a sub-trie once more, below another slot.
    Mirror([u16; 2], u8, u8),
}

#[derive(Clone, Debug)]
struct Profile {
    alphabet: Vec<u8>,
    prefix: Vec<u8>,
    fresh: (usize, usize),
    max_keys: usize,
}

fn nibbles(n: std::ops::RangeInclusive<usize>) -> impl Strategy<Value = Vec<u8>> {
    vec(0..16u8, n)
}

fn alphabet() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        3 => Just(vec![0u8, 1]),
        2 => Just(vec![0u8, 15]),
        2 => Just(vec![0u8, 1, 15]),
        1 => vec(0..16u8, 1..=3),
        1 => Just((0..16).collect::<Vec<u8>>()),
    ]
    .boxed()
}

/// How many keys the larger profiles have.
#[derive(Clone, Copy, Debug, Eq, PartialEq)]
pub enum Size {
    Small,
    Big,
    Huge,
}

fn profile(size: Size) -> BoxedStrategy<Profile> {
    let full: Vec<u8> = (0..16).collect();
    if size == Size::Huge {
        let full2 = full.clone();
        return prop_oneof![
            2 => Just(Profile { alphabet: full, prefix: vec![], fresh: (2, 4), max_keys: 3000 }),
            1 => Just(Profile { alphabet: full2, prefix: vec![], fresh: (64, 64), max_keys: 2000 }),
        ]
        .boxed();
    }
    let full2 = full.clone();
    let full3 = full.clone();
    let size = if size == Size::Big { 400 } else { 60 };
    prop_oneof![
        // dense
        6 => alphabet().prop_map(|alphabet| Profile {
            alphabet, prefix: vec![], fresh: (0, 5), max_keys: 14,
        }),
        // deep
        2 => (alphabet(), nibbles(40..=63)).prop_map(|(alphabet, prefix)| Profile {
            alphabet, prefix, fresh: (0, 6), max_keys: 12,
        }),
        // word: branching around the limb boundaries of the packed form
        2 => (alphabet(), prop::sample::select(vec![14usize, 15, 16, 30, 31, 32, 46, 47, 48, 62, 63]))
            .prop_flat_map(|(alphabet, n)| (Just(alphabet), nibbles(n..=n)))
            .prop_map(|(alphabet, prefix)| Profile { alphabet, prefix, fresh: (0, 3), max_keys: 12 }),
        // wide
        3 => Just(Profile { alphabet: full, prefix: vec![], fresh: (1, 3), max_keys: size }),
        // account
        2 => Just(Profile { alphabet: full2, prefix: vec![], fresh: (64, 64), max_keys: size / 2 }),
        // mixed
        3 => Just(Profile { alphabet: full3, prefix: vec![], fresh: (0, 64), max_keys: 20 }),
        // comb: long keys and many prefixes of them
        1 => vec(0..16u8, 1..=2).prop_map(|alphabet| Profile {
            alphabet, prefix: vec![], fresh: (0, 64), max_keys: 50,
        }),
        // zeros: keys that differ only in the number of leading zeros
        1 => Just(Profile { alphabet: vec![0], prefix: vec![], fresh: (0, 64), max_keys: 10 }),
    ]
    .boxed()
}

fn mirror() -> impl Strategy<Value = ([u16; 2], u8, u8)> {
    (any::<[u16; 2]>(), any::<u8>(), prop_oneof![2 => Just(1u8), 1 => 2..=15u8])
}

/// What is in a sub-trie once more, below another slot of the branch that it
/// is in.
fn mirrored<X: Clone>(
    xs: &[X],
    key: impl Fn(&X) -> &Key,
    (of, up, by): ([u16; 2], u8, u8),
) -> Vec<(Key, X)> {
    if xs.is_empty() {
        return vec![];
    }
    let [a, b] = of.map(|i| &key(&xs[i as usize % xs.len()]).0);
    if a.is_empty() {
        return vec![];
    }
    let common = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let at = common.saturating_sub(1 + up as usize % common.max(1));
    xs.iter()
        .filter(|x| key(x).0.starts_with(&a[..=at]))
        .take(100)
        .map(|x| {
            let mut k = key(x).clone();
            k.0[at] = (k.0[at] + by) % 16;
            (k, x.clone())
        })
        .collect()
}

fn recipe() -> BoxedStrategy<Recipe> {
    prop_oneof![
        8 => nibbles(64..=64).prop_map(Recipe::Fresh),
        4 => (any::<u16>(), nibbles(1..=4)).prop_map(|(i, n)| Recipe::Extend(i, n)),
        3 => (any::<u16>(), 1..=4u8).prop_map(|(i, n)| Recipe::Cut(i, n)),
        1 => (any::<u16>(), 1..=64u8).prop_map(|(i, n)| Recipe::Cut(i, n)),
        3 => (any::<u16>(), any::<u8>(), 1..=15u8).prop_map(|(i, p, d)| Recipe::Flip(i, p, d)),
        1 => any::<u16>().prop_map(Recipe::Fan),
        1 => (any::<u16>(), 0..=12u8).prop_map(|(i, n)| Recipe::Stairs(i, n)),
        2 => (any::<u16>(), any::<u8>(), nibbles(0..=3)).prop_map(|(i, p, n)| Recipe::Diverge(i, p, n)),
        1 => mirror().prop_map(|(of, up, by)| Recipe::Mirror(of, up, by)),
    ]
    .boxed()
}

fn resolve(p: &Profile, rs: &[(Recipe, u8)]) -> Vec<Key> {
    let mut keys: Vec<Key> = Vec::new();
    let mut seen = HashSet::new();
    let map = |ns: &[u8]| -> Vec<u8> {
        ns.iter()
            .map(|n| p.alphabet[*n as usize % p.alphabet.len()])
            .collect()
    };
    let mut push = |keys: &mut Vec<Key>, mut k: Vec<u8>| {
        k.truncate(64);
        if seen.insert(k.clone()) {
            keys.push(Key(k));
        }
    };
    for (r, len) in rs {
        let base = |i: &u16| -> Vec<u8> {
            match keys.is_empty() {
                true => p.prefix.clone(),
                false => keys[*i as usize % keys.len()].0.clone(),
            }
        };
        match r {
            Recipe::Fresh(ns) => {
                let n = p.fresh.0 + *len as usize % (p.fresh.1 - p.fresh.0 + 1);
                let mut k = p.prefix.clone();
                k.extend(map(&ns[..n]));
                push(&mut keys, k);
            }
            Recipe::Extend(i, ns) => {
                let mut k = base(i);
                k.extend(map(ns));
                push(&mut keys, k);
            }
            Recipe::Cut(i, n) => {
                let mut k = base(i);
                k.truncate(k.len().saturating_sub(*n as usize));
                push(&mut keys, k);
            }
            Recipe::Flip(i, pos, d) => {
                let mut k = base(i);
                if !k.is_empty() {
                    let at = *pos as usize % k.len();
                    k[at] = (k[at] + d) % 16;
                }
                push(&mut keys, k);
            }
            Recipe::Fan(i) => {
                let k = base(i);
                if k.len() < 64 {
                    for n in 0..16 {
                        let mut c = k.clone();
                        c.push(n);
                        push(&mut keys, c);
                    }
                }
            }
            Recipe::Stairs(i, step) => {
                let k = base(i);
                // Mostly all of them.
                let step = if *step <= 8 { 1 } else { *step as usize - 7 };
                for n in (0..=k.len()).rev().step_by(step) {
                    push(&mut keys, k[..n].to_vec());
                }
            }
            Recipe::Diverge(i, pos, ns) => {
                let mut k = base(i);
                k.truncate(*pos as usize % (k.len() + 1));
                k.extend(map(ns));
                push(&mut keys, k);
            }
            Recipe::Mirror(of, up, by) => {
                for (k, _) in mirrored(&keys, |k| k, (*of, *up, *by)) {
                    push(&mut keys, k.0);
                }
            }
        }
        if keys.len() >= p.max_keys + 16 {
            break;
        }
    }
    if keys.is_empty() {
        keys.push(Key(p.prefix.clone()));
    }
    keys
}

/// Distinct keys, at least one.
pub fn universe() -> BoxedStrategy<Vec<Key>> {
    universe_of(Size::Small)
}

pub fn universe_of(size: Size) -> BoxedStrategy<Vec<Key>> {
    profile(size)
        .prop_flat_map(move |p| {
            let n = p.max_keys;
            let least = if size == Size::Huge { n / 3 } else { 1 };
            (Just(p), vec((recipe(), any::<u8>()), least..=n))
        })
        .prop_map(|(p, rs)| resolve(&p, &rs))
        .boxed()
}

/// Keys related to stored ones: prefixes, extensions, neighbours.
pub fn probes(keys: &[Key]) -> Vec<Key> {
    let mut out = vec![Key(vec![]), Key(vec![0]), Key(vec![15; 64])];
    for k in keys {
        let k = &k.0;
        out.push(Key(k.clone()));
        if !k.is_empty() {
            out.push(Key(k[..k.len() - 1].to_vec()));
            out.push(Key(k[..k.len() / 2].to_vec()));
            for (at, d) in [(k.len() - 1, 1), (k.len() - 1, 15), (0, 1), (k.len() / 2, 8)] {
                let mut f = k.clone();
                f[at] = (f[at] + d) % 16;
                out.push(Key(f));
            }
            out.push(Key(k[1..].to_vec()));
        }
        if k.len() < 64 {
            for n in [0, 1, 15] {
                let mut f = k.clone();
                f.push(n);
                out.push(Key(f));
            }
            let mut f = vec![0];
            f.extend(k);
            out.push(Key(f));
            let mut f = k.clone();
            f.resize(64, 7);
            out.push(Key(f));
        }
    }
    out.sort();
    out.dedup();
    out
}

/// A key from the universe, or one related to it.
#[derive(Clone, Debug)]
pub struct Pick(u16, u8, u8);

pub fn pick() -> BoxedStrategy<Pick> {
    (any::<u16>(), any::<u8>(), any::<u8>())
        .prop_map(|(a, b, c)| Pick(a, b, c))
        .boxed()
}

impl Pick {
    pub fn exact(&self, u: &[Key]) -> Key {
        u[self.0 as usize % u.len()].clone()
    }

    /// Mostly a universe key, sometimes a relative of one.
    pub fn near(&self, u: &[Key]) -> Key {
        let mut k = self.exact(u).0;
        match self.1 % 16 {
            0 => k.truncate(k.len().saturating_sub(1)),
            1 => k.truncate(self.2 as usize % (k.len() + 1)),
            2 if k.len() < 64 => k.push(self.2 % 16),
            3 => {
                while k.len() < 64 && k.len() % 7 != 6 {
                    k.push(self.2 % 16);
                }
            }
            4 if !k.is_empty() => {
                let at = self.2 as usize % k.len();
                k[at] = (k[at] + 1 + (self.2 >> 4) % 15) % 16;
            }
            _ => (),
        }
        Key(k)
    }
}

// ------------------------------------------------------------- histories

#[derive(Clone, Debug)]
enum RawOp {
    Ins(Pick, Val),
    InsHash(Pick, u8),
    Bulk(Vec<(Pick, Val)>),
    Del(Pick),
    Get(Pick),
    Rebuild,
}

fn raw_op(v: BoxedStrategy<Val>, hashes: bool) -> BoxedStrategy<RawOp> {
    // Not `prop_oneof!` with weight 0: shrinking could still pick such a branch.
    let mut options: Vec<(u32, BoxedStrategy<RawOp>)> = vec![
        (
            10,
            (pick(), v.clone())
                .prop_map(|(p, v)| RawOp::Ins(p, v))
                .boxed(),
        ),
        (7, pick().prop_map(RawOp::Del).boxed()),
        (2, pick().prop_map(RawOp::Get).boxed()),
        (1, Just(RawOp::Rebuild).boxed()),
        (
            1,
            prop_oneof![
                60 => 0..=8usize,
                1 => 9..=100usize,
            ]
            .prop_flat_map(move |n| vec((pick(), v.clone()), n))
            .prop_map(RawOp::Bulk)
            .boxed(),
        ),
    ];
    if hashes {
        options.push((
            3,
            (pick(), any::<u8>())
                .prop_map(|(p, h)| RawOp::InsHash(p, h))
                .boxed(),
        ));
    }
    Union::new_weighted(options).boxed()
}

fn op_of(u: &[Key], o: RawOp) -> Op {
    match o {
        RawOp::Ins(p, v) => Op::Ins(p.exact(u), v),
        RawOp::InsHash(p, h) => Op::InsHash(p.exact(u), h),
        RawOp::Bulk(es) => Op::Bulk(es.into_iter().map(|(p, v)| (p.exact(u), v)).collect()),
        RawOp::Del(p) => Op::Del(p.near(u)),
        RawOp::Get(p) => Op::Get(p.near(u)),
        RawOp::Rebuild => Op::Rebuild,
    }
}

/// A universe and a history over it.
pub fn history(v: BoxedStrategy<Val>, hashes: bool) -> BoxedStrategy<(Vec<Key>, Vec<Op>)> {
    let sized = move |size: Size, n: std::ops::RangeInclusive<usize>| {
        let same = prop_oneof![5 => Just(0usize), 1 => 1..=3usize];
        (universe_of(size), vec(raw_op(v.clone(), hashes), n), same).prop_map(move |(u, ops, same)| {
            let mut ops: Vec<Op> = ops
                .into_iter()
                .enumerate()
                // Starting over takes time in proportion to the size.
                .filter(|(i, o)| {
                    size != Size::Huge || i % 30 == 0 || !matches!(o, RawOp::Rebuild)
                })
                .map(|(_, o)| op_of(&u, o))
                .collect();
            // Sometimes few different values, so that sub-tries repeat.
            let mut vs = vec![];
            for (i, o) in ops.iter_mut().enumerate() {
                if let Op::Ins(_, v) = o {
                    match vs.len() < same {
                        true => vs.push(*v),
                        false if same > 0 => *v = vs[i % same],
                        false => break,
                    }
                }
            }
            (u, ops)
        })
    };
    prop_oneof![
        600 => sized(Size::Small, 1..=14),
        380 => sized(Size::Small, 10..=60),
        19 => sized(Size::Big, 60..=500),
        1 => sized(Size::Huge, 1500..=4000),
    ]
    .boxed()
}

/// A load of entries first, then a history; reaches larger tries than
/// `history` does at the same length.
pub fn loaded_history(
    v: BoxedStrategy<Val>,
    hashes: bool,
    max_ops: usize,
) -> BoxedStrategy<(Vec<Key>, Vec<Op>)> {
    let u = prop_oneof![
        999 => universe_of(Size::Small),
        1 => universe_of(Size::Huge),
    ];
    (
        u,
        any::<u64>(),
        v.clone(),
        vec(raw_op(v, hashes), 0..=max_ops),
    )
        .prop_map(|(u, mask, v, ops)| {
            let mut out: Vec<Op> = u
                .iter()
                .enumerate()
                .filter(|(i, _)| mask >> (i % 64) & 1 == 1)
                .map(|(i, k)| {
                    // Sometimes few different values, so that sub-tries repeat.
                    let tag = match mask >> 61 {
                        0 => i % 2,
                        _ => i,
                    };
                    let v = Val {
                        tag: v.tag.wrapping_add(tag as u8),
                        ..v
                    };
                    Op::Ins(k.clone(), v)
                })
                .collect();
            out.extend(ops.into_iter().map(|o| op_of(&u, o)));
            (u, out)
        })
        .boxed()
}

/// Entries of a trie, with hash entries if asked for; in insertion order.
pub fn entries(v: BoxedStrategy<Val>, hash_weight: u32) -> BoxedStrategy<(Vec<Key>, Vec<(Key, E)>)> {
    let sized = move |size: Size, n: usize| {
        let mut options = vec![(10, v.clone().prop_map(E::V).boxed())];
        if hash_weight > 0 {
            options.push((hash_weight, any::<u8>().prop_map(E::H).boxed()));
        }
        let e = Union::new_weighted(options);
        let same = prop_oneof![5 => Just(0usize), 1 => 1..=3usize];
        let least = if size == Size::Huge { n / 2 } else { 0 };
        let mirror = prop_oneof![
            10 => Just(None),
            1 => mirror().prop_map(Some),
        ];
        (universe_of(size), vec((pick(), e), least..=n), same, mirror).prop_map(|(mut u, mut es, same, mirror)| {
            let mut n = 0;
            // Sometimes few different values, so that sub-tries repeat.
            if same > 0 {
                for i in same..es.len() {
                    es[i].1 = es[i % same].1;
                }
            }
            let mut es: Vec<(Key, E)> = es
                .into_iter()
                .map(|(p, e)| {
                    // Walk through the universe, so that it is used up.
                    n += 1;
                    let k = match p.1 % 4 {
                        0 => p.exact(&u),
                        _ => u[(n - 1) % u.len()].clone(),
                    };
                    (k, e)
                })
                .collect();
            if let Some(m) = mirror {
                let more: Vec<(Key, E)> = mirrored(&es, |e| &e.0, m)
                    .into_iter()
                    .map(|(k, (_, e))| (k, e))
                    .collect();
                for (k, _) in &more {
                    if !u.contains(k) {
                        u.push(k.clone());
                    }
                }
                es.extend(more);
            }
            (u, es)
        })
    };
    prop_oneof![
        500 => sized(Size::Small, 10),
        450 => sized(Size::Small, 40),
        30 => sized(Size::Big, 300),
        1 => sized(Size::Huge, 3000),
    ]
    .boxed()
}

/// Only values, no hash entries.
pub fn value_entries(v: BoxedStrategy<Val>) -> BoxedStrategy<(Vec<Key>, Vec<(Key, Val)>)> {
    entries(v, 0)
        .prop_map(|(u, es)| {
            let es = es
                .into_iter()
                .filter_map(|(k, e)| match e {
                    E::V(v) => Some((k, v)),
                    E::H(_) => None,
                })
                .collect();
            (u, es)
        })
        .boxed()
}

pub fn value_contents(es: &[(Key, Val)]) -> Contents {
    es.iter()
        .map(|(k, v)| (k.clone(), Entry::Val(v.bytes())))
        .collect()
}

/// A collection of keys to ask for: universe keys and relatives, repeats
/// included; sometimes none.
pub fn key_picks(max: usize) -> BoxedStrategy<Vec<Pick>> {
    prop_oneof![
        10 => Just(vec![]),
        80 => vec(pick(), 1..=3.min(max)),
        50 => vec(pick(), 1..=max),
        1 => vec(pick(), 100..=400),
    ]
    .boxed()
}

pub type Map = BTreeMap<Key, Vec<u8>>;
