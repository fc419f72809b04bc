//! Equal contents mean equal tries, whatever the history.

use proptest::{collection::vec, prelude::*, strategy::BoxedStrategy};
use serde::{Deserialize, Serialize};

use crate::{
    both, gen,
    gen::{allowed, Op, Val, E},
    lib_ops::*,
    refmodel::{Contents, Entry, Key, RefNode},
    runner::{Obs, Property, Tier, Verdict},
};

pub struct C06;

#[derive(Clone, Debug, Deserialize, Hash, Serialize)]
pub struct Case {
    entries: Vec<(Key, E)>,
    /// What the second trie goes through before it is brought to the contents.
    detour: Vec<Op>,
    /// In which order it is brought there.
    order: Vec<u16>,
    /// Build this part of the second trie in one bulk load.
    bulk: bool,
    change: Change,
}

/// A third trie differs from the contents by this.
#[derive(Clone, Debug, Deserialize, Hash, Serialize)]
pub enum Change {
    Remove(u16),
    LastByte(u16),
    FirstByte(u16),
    Longer(u16),
    Shorter(u16),
    /// Change one bit of one byte of a value.
    Byte(u16, u16),
    Add(Key, Val),
    Move(u16, Key),
    /// Replace a large node by its hash.
    Hide(u16),
}

impl Property for C06 {
    type Case = Case;
    const ID: &'static str = "C06";
    const QUICK: u64 = 100_000;
    const RULE: &'static str = "a case is a set of entries, a detour history, an order, and a minimal change; one trie is built from the entries in order, a second runs the detour and is then brought to the same entries in the given order, a third gets the change; both trie types; non-trivial if there are at least 2 entries and the second trie took at least one step the first did not; distinct by the hash of the whole case";

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let change = prop_oneof![
            any::<u16>().prop_map(|i| Ch::Index(0, i)),
            any::<u16>().prop_map(|i| Ch::Index(1, i)),
            any::<u16>().prop_map(|i| Ch::Index(2, i)),
            any::<u16>().prop_map(|i| Ch::Index(3, i)),
            any::<u16>().prop_map(|i| Ch::Index(4, i)),
            (gen::pick(), gen::small_val()).prop_map(|(p, v)| Ch::Add(p, v)),
            (any::<u16>(), gen::pick()).prop_map(|(i, p)| Ch::Move(i, p)),
            any::<u16>().prop_map(|i| Ch::Index(5, i)),
            any::<(u16, u16)>().prop_map(|(i, at)| Ch::Byte(i, at)),
        ];
        (
            prop_oneof![
                3 => gen::entries(gen::small_val(), 2),
                1 => gen::entries(gen::val_incl_huge(), 2),
            ],
            gen::history(gen::small_val(), false),
            any::<bool>(),
            vec(any::<u16>(), 0..=40),
            any::<bool>(),
            change,
        )
            .prop_map(|((u, entries), (v, detour), own, order, bulk, change)| {
                // Mostly let the detour use the same keys.
                let detour = match own {
                    true => detour.into_iter().map(|o| translate(o, &v, &u)).collect(),
                    false => detour,
                };
                let change = match change {
                    Ch::Index(0, i) => Change::Remove(i),
                    Ch::Index(1, i) => Change::LastByte(i),
                    Ch::Index(2, i) => Change::FirstByte(i),
                    Ch::Index(3, i) => Change::Longer(i),
                    Ch::Index(4, i) => Change::Shorter(i),
                    Ch::Index(_, i) => Change::Hide(i),
                    Ch::Byte(i, at) => Change::Byte(i, at),
                    Ch::Add(p, v) => Change::Add(p.near(&u), v),
                    Ch::Move(i, p) => Change::Move(i, p.near(&u)),
                };
                Case {
                    entries,
                    detour,
                    order,
                    bulk,
                    change,
                }
            })
            .boxed()
    }

    fn check(case: &Case, obs: &mut Obs) -> Verdict {
        both!(compare, case, obs);
        Ok(())
    }
}

#[derive(Clone, Debug)]
enum Ch {
    Index(u8, u16),
    Byte(u16, u16),
    Add(gen::Pick, Val),
    Move(u16, gen::Pick),
}

fn translate(o: Op, from: &[Key], to: &[Key]) -> Op {
    let t = |k: Key| match from.iter().position(|f| *f == k) {
        Some(i) => to[i % to.len()].clone(),
        None => k,
    };
    match o {
        Op::Ins(k, v) => Op::Ins(t(k), v),
        Op::InsHash(k, h) => Op::InsHash(t(k), h),
        Op::Bulk(es) => Op::Bulk(es.into_iter().map(|(k, v)| (t(k), v)).collect()),
        Op::Del(k) => Op::Del(t(k)),
        Op::Get(k) => Op::Get(t(k)),
        Op::Rebuild => Op::Rebuild,
    }
}

fn compare<N: Trie>(case: &Case, obs: &mut Obs) -> Verdict {
    let (list, c) = gen::compatible(&case.entries);
    let want = RefNode::build(&c);
    let a: N = no_panic(|| format!("{}: first trie", name::<N>()), || build(&list))?;

    let (mut b, mut now) = run_history::<N>(&case.detour)?;
    let detoured = !now.is_empty() || case.detour.iter().any(|o| matches!(o, Op::Ins(..)));
    // Deletes and inserts that lead from there to the contents.
    let mut todo: Vec<(Key, Option<Entry>)> = now
        .keys()
        .filter(|k| !c.contains_key(k) || c[*k].is_hash())
        .map(|k| (k.clone(), None))
        .collect();
    todo.extend(
        c.iter()
            .filter(|(k, e)| now.get(k) != Some(e))
            .map(|(k, e)| (k.clone(), Some(e.clone()))),
    );
    let mut shuffled: Vec<(u16, (Key, Option<Entry>))> = todo
        .into_iter()
        .enumerate()
        .map(|(i, s)| (case.order.get(i).copied().unwrap_or(i as u16), s))
        .collect();
    shuffled.sort_by_key(|(o, _)| *o);
    let mut todo: Vec<(Key, Option<Entry>)> = shuffled.into_iter().map(|(_, s)| s).collect();
    let mut rounds = 0;
    while !todo.is_empty() && rounds < 100 {
        rounds += 1;
        let mut later = Vec::new();
        let mut load = Vec::new();
        for (k, e) in todo {
            match e {
                None => {
                    no_panic(
                        || format!("{}: delete({k:?})", name::<N>()),
                        || b.delete(k.nib()),
                    )?;
                    now.remove(&k);
                }
                Some(e) if !allowed(&now, &k, e.is_hash()) => later.push((k, Some(e))),
                Some(e) => {
                    match case.bulk {
                        true => load.push((k.nib(), e.to_lib())),
                        false => no_panic(
                            || format!("{}: insert({k:?})", name::<N>()),
                            || insert(&mut b, &k, &e),
                        )?,
                    }
                    now.insert(k, e);
                }
            }
        }
        no_panic(|| format!("{}: extend", name::<N>()), || b.extend(load))?;
        todo = later;
    }
    if now != c {
        eprintln!("harness: the second history does not end in the contents: {case:?}");
        std::process::exit(3);
    }

    for (t, what) in [(&a, "inserted in order"), (&b, "after a detour")] {
        same_structure(t, &want, what)?;
        same_hash(t, &want.hash(), what)?;
        let form = structure::<N>(t)?.canonical_error();
        ensure(form.is_none(), || {
            format!("{}: {what}: {}", name::<N>(), form.unwrap_or_default())
        })?;
    }
    ensure(a == b && b == a, || {
        format!("{}: tries with the same contents differ", name::<N>())
    })?;

    if let Some(other) = changed(&c, &case.change) {
        let t: N = no_panic(
            || format!("{}: third trie", name::<N>()),
            || other.iter().map(|(k, e)| (k.nib(), e.to_lib())).collect(),
        )?;
        ensure(a != t && t != a && b != t, || {
            format!("{}: compares equal after {:?}", name::<N>(), case.change)
        })?;
        // Once more with all hashes computed.
        no_panic(|| "hashes".into(), || (a.hash(), b.hash(), t.hash()))?;
        ensure(a != t && t != a && b != t, || {
            format!("{}: compares equal after {:?} and hashing", name::<N>(), case.change)
        })?;
        // A hash node at the root may stand for the other trie.
        let at_root = c.contains_key(&Key(vec![])) || other.contains_key(&Key(vec![]));
        if !matches!(case.change, Change::Hide(_)) && !at_root {
            ensure(t.hash() != a.hash(), || {
                format!("{}: same hash after {:?}", name::<N>(), case.change)
            })?;
        }
        obs.label("compared with a changed trie");
        obs.label_if(
            matches!(case.change, Change::Hide(_)),
            "compared with a partial trie of the same hash",
        );
    }

    obs.nontrivial = c.len() >= 2 && detoured;
    obs.label_if(c.values().any(Entry::is_hash), "hash entry");
    obs.label_if(super::prefix_related(&c), "one key a proper prefix of another");
    Ok(())
}

fn changed(c: &Contents, change: &Change) -> Option<Contents> {
    let mut out = c.clone();
    let key = |i: &u16| -> Option<Key> {
        match c.is_empty() {
            true => None,
            false => c.keys().nth(*i as usize % c.len()).cloned(),
        }
    };
    match change {
        Change::Remove(i) => {
            out.remove(&key(i)?);
        }
        Change::LastByte(i) => match out.get_mut(&key(i)?)? {
            Entry::Val(v) => *v.last_mut()? ^= 1,
            Entry::Hash(h) => h[31] ^= 1,
        },
        Change::FirstByte(i) => match out.get_mut(&key(i)?)? {
            Entry::Val(v) => *v.first_mut()? ^= 0x80,
            Entry::Hash(h) => h[0] ^= 0x80,
        },
        Change::Byte(i, at) => {
            let bytes: &mut [u8] = match out.get_mut(&key(i)?)? {
                Entry::Val(v) => v,
                Entry::Hash(h) => h,
            };
            let at = *at as usize * bytes.len() >> 16;
            bytes[at] ^= 1 << (at % 8);
        }
        Change::Longer(i) => match out.get_mut(&key(i)?)? {
            Entry::Val(v) => v.push(0),
            Entry::Hash(h) => h.reverse(),
        },
        Change::Shorter(i) => match out.get_mut(&key(i)?)? {
            Entry::Val(v) if v.len() > 1 => {
                v.pop();
            }
            _ => return None,
        },
        Change::Add(k, v) => {
            if !allowed(c, k, false) {
                return None;
            }
            out.insert(k.clone(), Entry::Val(v.bytes()));
        }
        Change::Hide(i) => {
            let full = RefNode::build(c);
            let large: Vec<Vec<u8>> = full
                .nodes()
                .into_iter()
                .filter(|(_, n)| n.is_large() && !matches!(n, RefNode::Hash(_)))
                .map(|(at, _)| at)
                .collect();
            if large.is_empty() {
                return None;
            }
            let at = &large[*i as usize % large.len()];
            out = full.hash_out(&mut Vec::new(), &mut |p, _| p == at.as_slice()).contents();
        }
        Change::Move(i, to) => {
            let from = key(i)?;
            let e = out.remove(&from)?;
            if !allowed(&out, to, e.is_hash()) {
                return None;
            }
            out.insert(to.clone(), e);
        }
    }
    (out != *c).then_some(out)
}
