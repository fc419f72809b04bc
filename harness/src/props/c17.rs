//! Values are stored as the exact bytes of what was inserted.

use eth_trie_utils::trie_ops::ValOrHash;
use ethereum_types::{H256, U128, U256, U512};
use proptest::{collection::vec, prelude::*, strategy::BoxedStrategy};
use serde::{Deserialize, Serialize};

use super::c13::any_key;
use crate::{
    gen,
    lib_ops::*,
    refmodel::{Entry, Key, RefNode},
    runner::{guarded, Obs, Property, Tier, Verdict},
};
use eth_trie_utils::partial_trie::{HashedPartialTrie, StandardTrie};

pub struct C17;

#[derive(Clone, Debug, Deserialize, Hash, Serialize)]
pub struct Case {
    key: Key,
    value: Value,
    /// Other entries of the trie.
    others: Vec<(Key, gen::Val)>,
}

/// Bytes in a vector with spare capacity.
#[derive(Clone, Debug)]
struct Spare(Vec<u8>, u32);

impl From<Spare> for ValOrHash {
    fn from(s: Spare) -> Self {
        let mut v = Vec::with_capacity(s.0.len() + s.1 as usize);
        v.extend(s.0);
        v.into()
    }
}

#[derive(Clone, Debug, Deserialize, Hash, Serialize)]
pub enum Value {
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    /// Little-endian 64-bit words.
    U128([u64; 2]),
    U256([u64; 4]),
    U512([u64; 8]),
    Bytes(Vec<u8>),
    /// With so much spare capacity.
    Spare(Vec<u8>, u32),
    Slice(Vec<u8>),
    Hash([u8; 32]),
}

fn words<const N: usize>() -> BoxedStrategy<[u64; N]> {
    let word = prop_oneof![3 => any::<u64>(), 1 => Just(0u64), 1 => Just(u64::MAX), 1 => 0..=255u64];
    (vec(word, N), 0..=N)
        .prop_map(|(w, used)| std::array::from_fn(|i| if i < used { w[i] } else { 0 }))
        .boxed()
}

/// Random bytes, and lengths and contents that look like numbers, hashes or
/// encodings.
fn bytes() -> BoxedStrategy<Vec<u8>> {
    let len = prop_oneof![
        1 => 0..=70u32,
        1 => prop::sample::select(vec![1u32, 2, 4, 8, 16, 20, 31, 32, 33, 55, 56, 64]),
    ];
    prop_oneof![
        2000 => vec(any::<u8>(), 0..=70),
        1 => (71..=140_000u32, any::<u8>(), 1..=6u8)
            .prop_map(|(len, tag, fill)| gen::Val { len, tag, fill }.bytes()),
        3000 => (len.clone(), any::<u8>(), 1..=6u8)
            .prop_map(|(len, tag, fill)| gen::Val { len, tag, fill }.bytes()),
        1000 => (len, any::<u8>(), any::<u8>()).prop_map(|(len, zeros, x)| {
            let mut v = vec![x; len as usize];
            let z = zeros as usize % (v.len() + 1);
            v[..z].fill(0);
            v
        }),
    ]
    .boxed()
}

impl Property for C17 {
    type Case = Case;
    const ID: &'static str = "C17";
    const QUICK: u64 = 800_000;
    const RULE: &'static str = "a case is a key, a value of one of the accepted types and a few other entries; the conversion is checked by itself and through tries of both types; non-trivial if the value is not zero or empty; distinct by the hash of the case";

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let small = |bits: u32| {
            (any::<u64>(), 0..bits).prop_map(move |(x, s)| (x >> (64 - bits)) >> s)
        };
        let value = prop_oneof![
            any::<u8>().prop_map(Value::U8),
            small(16).prop_map(|x| Value::U16(x as u16)),
            small(32).prop_map(|x| Value::U32(x as u32)),
            small(64).prop_map(Value::U64),
            words().prop_map(Value::U128),
            words().prop_map(Value::U256),
            words().prop_map(Value::U512),
            bytes().prop_map(Value::Bytes),
            (bytes(), prop_oneof![20 => 0..=100u32, 10 => 0..=5000u32, 1 => 0..=200_000u32])
                .prop_map(|(b, n)| Value::Spare(b, n)),
            bytes().prop_map(Value::Slice),
            prop_oneof![2 => any::<[u8; 32]>(), 1 => any::<u8>().prop_map(gen::digest)].prop_map(Value::Hash),
        ];
        (any_key(), value, vec((any_key(), gen::small_val()), 0..=3))
            .prop_map(|(key, value, others)| Case { key, value, others })
            .boxed()
    }

    fn check(case: &Case, obs: &mut Obs) -> Verdict {
        match &case.value {
            Value::U8(x) => go(case, *x, Entry::Val(x.to_be_bytes().to_vec()), obs),
            Value::U16(x) => go(case, *x, Entry::Val(x.to_be_bytes().to_vec()), obs),
            Value::U32(x) => go(case, *x, Entry::Val(x.to_be_bytes().to_vec()), obs),
            Value::U64(x) => go(case, *x, Entry::Val(x.to_be_bytes().to_vec()), obs),
            Value::U128(w) => go(case, U128(*w), Entry::Val(be(w)), obs),
            Value::U256(w) => go(case, U256(*w), Entry::Val(be(w)), obs),
            Value::U512(w) => go(case, U512(*w), Entry::Val(be(w)), obs),
            Value::Bytes(b) => go(case, b.clone(), Entry::Val(b.clone()), obs),
            Value::Spare(b, n) => go(case, Spare(b.clone(), *n), Entry::Val(b.clone()), obs),
            Value::Slice(b) => go(case, &b[..], Entry::Val(b.clone()), obs),
            Value::Hash(h) => go(case, H256(*h), Entry::Hash(*h), obs),
        }
    }
}

fn be(words: &[u64]) -> Vec<u8> {
    words.iter().rev().flat_map(|w| w.to_be_bytes()).collect()
}

fn go<V: Into<ValOrHash> + Clone + std::fmt::Debug>(
    case: &Case,
    v: V,
    want: Entry,
    obs: &mut Obs,
) -> Verdict {
    let conv: ValOrHash = no_panic(|| format!("converting {v:?}"), || v.clone().into())?;
    let got = Entry::from_lib(&conv);
    ensure(got == want, || {
        format!("{:?} converts to {got:02x?}, expected {want:02x?}", case.value)
    })?;

    // Casts.
    let val = guarded(|| conv.clone().expect_val());
    let hash = guarded(|| conv.clone().expect_hash().0);
    let ok = match &want {
        Entry::Val(b) => val.as_ref() == Ok(b) && hash.is_err(),
        Entry::Hash(h) => hash.as_ref() == Ok(h) && val.is_err(),
    };
    ensure(ok, || format!("casting {:?} back gives {val:02x?} and {hash:02x?}", case.value))?;

    // An empty value is no value: out of scope for storing.
    if want != Entry::Val(vec![]) {
        store::<StandardTrie, V>(case, v.clone(), &want)?;
        store::<HashedPartialTrie, V>(case, v, &want)?;
    }
    obs.nontrivial = match &want {
        Entry::Val(b) => b.iter().any(|x| *x != 0),
        Entry::Hash(h) => *h != [0; 32],
    };
    obs.label(match case.value {
        Value::U8(_) => "u8",
        Value::U16(_) => "u16",
        Value::U32(_) => "u32",
        Value::U64(_) => "u64",
        Value::U128(_) => "U128",
        Value::U256(_) => "U256",
        Value::U512(_) => "U512",
        Value::Bytes(_) => "bytes",
        Value::Spare(..) => "bytes with spare capacity",
        Value::Slice(_) => "slice",
        Value::Hash(_) => "hash",
    });
    Ok(())
}

fn store<N: Trie, V: Into<ValOrHash>>(case: &Case, v: V, want: &Entry) -> Verdict {
    let mut es: Vec<(Key, gen::E)> = Vec::new();
    for (k, o) in &case.others {
        // No conflict with the entry itself.
        if *k != case.key && !(want.is_hash() && case.key.is_prefix_of(k)) {
            es.push((k.clone(), gen::E::V(*o)));
        }
    }
    let (list, mut c) = gen::compatible(&es);
    let mut t: N = build(&list);
    no_panic(
        || format!("{}: inserting {:?}", name::<N>(), case.value),
        || t.insert(case.key.nib(), v),
    )?;
    c.insert(case.key.clone(), want.clone());

    let got = get(&t, &case.key)?;
    let want_get = match want {
        Entry::Val(b) => Some(b),
        Entry::Hash(_) => None,
    };
    ensure(got.as_ref() == want_get, || {
        format!("{}: stored {:?}, got {got:02x?}", name::<N>(), case.value)
    })?;
    let its = items(&t, c.len())?;
    let found: Vec<&Entry> = its.iter().filter(|(k, _)| *k == case.key).map(|(_, e)| e).collect();
    ensure(found == [want], || {
        format!("{}: stored {:?}, enumerated {found:02x?}", name::<N>(), case.value)
    })?;
    same_structure(&t, &RefNode::build(&c), &format!("after storing {:?}", case.value))
}
