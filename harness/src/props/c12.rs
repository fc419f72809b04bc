//! Hashed-out parts are never silently read or changed.

use proptest::{collection::vec, prelude::*, strategy::BoxedStrategy};
use serde::{Deserialize, Serialize};

use crate::{
    both, gen,
    gen::{allowed, digest, Val, E},
    lib_ops::*,
    refmodel::{Entry, Key, RefNode},
    runner::{guarded, Obs, Property, Tier, Verdict},
};

pub struct C12;

#[derive(Clone, Debug, Deserialize, Hash, Serialize)]
pub struct Case {
    entries: Vec<(Key, E)>,
    acts: Vec<(Key, Act)>,
    hash_first: bool,
}

#[derive(Clone, Debug, Deserialize, Hash, Serialize)]
pub enum Act {
    Get,
    Ins(Val),
    InsHash(u8),
    Del,
    Subset,
}

impl Property for C12 {
    type Case = Case;
    const ID: &'static str = "C12";
    const QUICK: u64 = 240_000;
    const RULE: &'static str = "a case is a partial trie and a few operations at keys at, below, beside and above its hash nodes; both trie types; each must be refused exactly when the contents say so, and a refused one must leave the trie as it was; non-trivial if the trie has a hash node and another entry and at least one operation was refused or touched a neighbour of a hash node; distinct by the hash of the whole case";

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let act = prop_oneof![
            2 => Just(Act::Get),
            3 => gen::small_val().prop_map(Act::Ins),
            3 => any::<u8>().prop_map(Act::InsHash),
            3 => Just(Act::Del),
            2 => Just(Act::Subset),
        ];
        (
            gen::entries(gen::small_val(), 8),
            vec((gen::pick(), act), 1..=8),
            any::<bool>(),
        )
            .prop_map(|((keys, entries), acts, hash_first)| Case {
                acts: acts.into_iter().map(|(p, a)| (p.near(&keys), a)).collect(),
                entries,
                hash_first,
            })
            .boxed()
    }

    fn check(case: &Case, obs: &mut Obs) -> Verdict {
        both!(refuse, case, obs);
        Ok(())
    }
}

fn refuse<N: Trie>(case: &Case, obs: &mut Obs) -> Verdict {
    let (list, mut c) = gen::compatible(&case.entries);
    let mut t: N = no_panic(|| "base trie".into(), || build(&list))?;
    if case.hash_first {
        no_panic(|| "hash".into(), || t.hash())?;
    }
    let with_hash = c.len() >= 2 && c.values().any(Entry::is_hash);
    let mut interesting = false;

    for (k, act) in &case.acts {
        let before = RefNode::build(&c);
        let at_hash = !allowed(&c, k, false);
        interesting |= at_hash;
        let what = || format!("{}: {act:?} at {k:?} in {before:?}", name::<N>());
        // Whether it must be refused, and whether it was.
        let (must, was) = match act {
            Act::Get => {
                let got = get(&t, k)?;
                let want = before.get(&k.0).map(|v| v.to_vec());
                ensure(got == want, || {
                    format!("{}: gave {got:02x?}, expected {want:02x?}", what())
                })?;
                obs.label_if(at_hash, "lookup at or below a hash node");
                (false, None)
            }
            Act::Ins(v) => (at_hash, guarded(|| t.insert(k.nib(), v.bytes())).err()),
            Act::InsHash(h) => (
                !allowed(&c, k, true),
                guarded(|| insert(&mut t, k, &Entry::Hash(digest(*h)))).err(),
            ),
            Act::Del => {
                let got = guarded(|| t.delete(k.nib()));
                if let Ok(got) = &got {
                    let want = before.get(&k.0).map(|v| v.to_vec());
                    ensure(at_hash || *got == want, || {
                        format!("{}: gave {got:02x?}, expected {want:02x?}", what())
                    })?;
                }
                (at_hash, got.err())
            }
            Act::Subset => {
                let below = before.hits_hash(&k.0) == Some(true);
                let got = subset(&t, std::slice::from_ref(k))?;
                ensure(got.is_err() == below, || {
                    format!("{}: gave {:?}", what(), got.map(|_| "a subset"))
                })?;
                obs.label_if(below, "subset refused");
                obs.label_if(
                    before.hits_hash(&k.0) == Some(false),
                    "subset of a key that ends at a hash node",
                );
                (false, None)
            }
        };
        ensure(must == was.is_some(), || match &was {
            Some(p) => format!("{}: refused without reason: {p}", what()),
            None => format!("{}: not refused", what()),
        })?;
        interesting |= must;
        if !must {
            match act {
                Act::Ins(v) => {
                    c.insert(k.clone(), Entry::Val(v.bytes()));
                }
                Act::InsHash(h) => {
                    c.insert(k.clone(), Entry::Hash(digest(*h)));
                }
                Act::Del => {
                    c.remove(k);
                }
                _ => (),
            }
        }
        let label = match (act, must) {
            (Act::Ins(_), true) => "insert refused",
            (Act::InsHash(_), true) => "hash insert refused",
            (Act::Del, true) => "delete refused",
            (Act::Ins(_), false) => "insert accepted",
            (Act::InsHash(_), false) => "hash insert accepted",
            (Act::Del, false) => "delete accepted",
            _ => "read",
        };
        obs.label(label);
        let after = RefNode::build(&c);
        same_structure(&t, &after, &what())?;
        same_hash(&t, &after.hash(), &what())?;
    }
    obs.nontrivial = with_hash && interesting;
    Ok(())
}
