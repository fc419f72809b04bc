//! An operation stopped half-way leaves a sound trie.

use eth_trie_utils::{
    nibbles::{Nibbles, ToNibbles},
    trie_ops::ValOrHash,
    trie_subsets::{create_trie_subset, create_trie_subsets},
};
use ethereum_types::H256;
use proptest::{collection::vec, prelude::*, strategy::BoxedStrategy};
use serde::{Deserialize, Serialize};

use super::c09::expected;
use crate::{
    both, gen,
    gen::{Op, E},
    lib_ops::*,
    refmodel::{Contents, Entry, Key, RefNode},
    runner::{guarded, Obs, Property, Tier, Verdict},
};

pub struct C28;

#[derive(Clone, Copy, Debug, Deserialize, Eq, Hash, PartialEq, Serialize)]
pub enum What {
    /// The iterator panics.
    Iterator,
    /// The conversion of a key panics.
    Key,
    /// The conversion of a value panics.
    Value,
}

#[derive(Clone, Copy, Debug, Deserialize, Eq, Hash, PartialEq, Serialize)]
pub enum How {
    Extend,
    /// One insert for each entry.
    Inserts,
    Subset,
    Subsets,
}

#[derive(Clone, Debug, Deserialize, Hash, Serialize)]
pub struct Case {
    entries: Vec<(Key, E)>,
    /// Ask for the hash first, and for the encoding of the root.
    hash: bool,
    encode: bool,
    how: How,
    list: Vec<(Key, E)>,
    /// Which position fails, if it is one of the list.
    at: u8,
    what: What,
    more: Vec<Op>,
}

impl Property for C28 {
    type Case = Case;
    const ID: &'static str = "C28";
    const QUICK: u64 = 160_000;
    const RULE: &'static str = "a case is a trie, a list of entries or keys that is given to it in bulk, one by one or as keys of a subset, the place and the way in which the caller's iterator or conversion panics, and a continuation, on both trie types; lists also hold entries that are refused; non-trivial if the operation was stopped and the trie has at least 2 entries; distinct by the hash of the whole case";

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let what = prop_oneof![Just(What::Iterator), Just(What::Key), Just(What::Value)];
        let how = prop_oneof![
            4 => Just(How::Extend),
            2 => Just(How::Inserts),
            1 => Just(How::Subset),
            1 => Just(How::Subsets),
        ];
        let e = prop_oneof![
            4 => gen::small_val().prop_map(E::V),
            1 => any::<u8>().prop_map(E::H),
        ];
        (
            prop_oneof![
                1 => gen::entries(gen::val(), 0),
                2 => gen::entries(gen::val(), 2),
            ],
            (any::<bool>(), any::<bool>()),
            how,
            vec((gen::pick(), any::<bool>(), e), 0..=10),
            0..=12u8,
            what,
            vec((gen::pick(), prop::option::of(gen::small_val())), 0..=4),
        )
            .prop_map(|((keys, entries), (hash, encode), how, list, at, what, more)| Case {
                entries,
                hash,
                encode,
                how,
                list: list
                    .into_iter()
                    .map(|(p, near, e)| match near {
                        true => (p.near(&keys), e),
                        false => (p.exact(&keys), e),
                    })
                    .collect(),
                at,
                what,
                more: more
                    .into_iter()
                    .map(|(p, v)| match v {
                        Some(v) => Op::Ins(p.exact(&keys), v),
                        None => Op::Del(p.near(&keys)),
                    })
                    .collect(),
            })
            .boxed()
    }

    fn check(case: &Case, obs: &mut Obs) -> Verdict {
        both!(stopped, case, obs);
        Ok(())
    }
}

/// A key that cannot always be converted.
struct K(Nibbles, bool);

impl ToNibbles for K {
    fn to_nibbles(self) -> Nibbles {
        assert!(!self.1, "stop at a key");
        self.0
    }
}

/// A value that cannot always be converted.
struct V(Entry, bool);

impl From<V> for ValOrHash {
    fn from(v: V) -> Self {
        assert!(!v.1, "stop at a value");
        match v.0 {
            Entry::Val(v) => ValOrHash::Val(v),
            Entry::Hash(h) => ValOrHash::Hash(H256(h)),
        }
    }
}

fn given(case: &Case) -> impl Iterator<Item = (K, V)> + '_ {
    case.list.iter().enumerate().map(|(i, (k, e))| {
        let here = i == case.at as usize;
        assert!(!here || case.what != What::Iterator, "stop at an entry");
        (
            K(k.nib(), here && case.what == What::Key),
            V(e.entry(), here && case.what == What::Value),
        )
    })
}

fn sound<N: Trie>(t: &N, c: &Contents, what: &str) -> Verdict {
    let want = RefNode::build(c);
    same_structure(t, &want, what)?;
    same_hash(t, &want.hash(), what)?;
    let want_items = want.entries_in_order();
    let got = items(t, want_items.len())?;
    ensure(got == want_items, || {
        format!("{}: {what}: items are {got:02x?}, expected {want_items:02x?}", name::<N>())
    })?;
    same_lookups(t, c, c.keys(), what)
}

fn stopped<N: Trie>(case: &Case, obs: &mut Obs) -> Verdict {
    let (es, base) = gen::compatible(&case.entries);
    let mut t: N = no_panic(|| "base trie".into(), || build(&es))?;
    no_panic(
        || "hash".into(),
        || {
            case.hash.then(|| t.hash());
            case.encode.then(|| t.hash_intern());
        },
    )?;
    let clone = t.clone();

    // What must happen, and what the caller handed over before it did.
    let mut c = base.clone();
    let mut stop = false;
    let mut handed = 0;
    for (i, (k, e)) in case.list.iter().enumerate() {
        stop = match case.how {
            How::Extend | How::Inserts => {
                i == case.at as usize || !gen::allowed(&c, k, e.entry().is_hash())
            }
            How::Subset | How::Subsets => i == case.at as usize && case.what != What::Value,
        };
        if stop {
            break;
        }
        handed = i + 1;
        if matches!(case.how, How::Extend | How::Inserts) {
            c.insert(k.clone(), e.entry());
        }
    }

    let was = match case.how {
        How::Extend => guarded(|| t.extend(given(case))).is_err(),
        How::Inserts => guarded(|| given(case).for_each(|(k, v)| t.insert(k, v))).is_err(),
        How::Subset => guarded(|| create_trie_subset(&t, given(case).map(|(k, _)| k)).is_ok()).is_err(),
        How::Subsets => guarded(|| {
            create_trie_subsets(&t, [given(case).map(|(k, _)| k)].into_iter()).is_ok()
        })
        .is_err(),
    };
    let what = format!("{}: {:?} stopped: {was}", name::<N>(), case.how);
    match case.how {
        // An extraction may be over before it comes to the place.
        How::Subset | How::Subsets => ensure(stop || !was, || format!("{what}, expected {stop}"))?,
        _ => ensure(was == stop, || format!("{what}, expected {stop}"))?,
    }

    // Each key has its old entry or one of those handed over.
    let now = structure::<N>(&t)?.contents();
    if !was {
        ensure(now == c, || format!("{what}: has {now:02x?}, expected {c:02x?}"))?;
    }
    let known = |k: &Key, e: &Entry| {
        base.get(k) == Some(e)
            || case.list[..handed].iter().any(|(k2, e2)| k2 == k && e2.entry() == *e)
    };
    if matches!(case.how, How::Extend | How::Inserts) {
        ensure(now.iter().all(|(k, e)| known(k, e)), || {
            format!("{what}: has {now:02x?}, which nobody gave; before: {base:02x?}")
        })?;
        ensure(base.keys().all(|k| now.contains_key(k)), || {
            format!("{what}: has {now:02x?}, some are lost; before: {base:02x?}")
        })?;
    }
    sound(&t, &now, &what)?;
    sound(&clone, &base, &format!("{what}: clone from before"))?;

    // Neither does the stop leave anything for other tries and extractions.
    let full = RefNode::build(&now);
    let keys: Vec<Key> = case
        .more
        .iter()
        .filter_map(|op| match op {
            Op::Ins(k, _) | Op::Del(k) => Some(k.clone()),
            _ => None,
        })
        .take(2)
        .filter(|k| full.hits_hash(&k.0) != Some(true))
        .collect();
    match subset(&t, &keys)? {
        Ok(sub) => {
            let want = expected(&full, &keys);
            same_structure(&sub, &want, &format!("{what}: subset for {keys:?} afterwards"))?;
        }
        Err(e) => return Err(format!("{what}: subset for {keys:?} afterwards: {e}")),
    }
    let other: N = no_panic(
        || format!("{what}: another trie"),
        || keys.iter().map(|k| (k.nib(), Entry::Val(vec![1]).to_lib())).collect(),
    )?;
    let want: Contents = keys.iter().map(|k| (k.clone(), Entry::Val(vec![1]))).collect();
    sound(&other, &want, &format!("{what}: another trie"))?;

    let mut c = now;
    for op in &case.more {
        if op_allowed(&c, op) {
            apply_lib(&mut t, &c, op)?;
            apply_model(&mut c, op);
        }
    }
    sound(&t, &c, &format!("{what}: after going on"))?;

    obs.nontrivial = was && base.len() >= 2;
    obs.label_if(was, match (case.how, handed == case.at as usize) {
        (How::Subset | How::Subsets, _) => "subset stopped",
        (_, true) => "stopped by the caller",
        (_, false) => "stopped by a refused entry",
    });
    obs.label_if(was && handed > 0, "stopped after some entries");
    Ok(())
}
