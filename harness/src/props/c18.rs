//! Serialisation round-trips tries and keys.

use eth_trie_utils::{nibbles::Nibbles, partial_trie::Node};
use proptest::{collection::vec, prelude::*, strategy::BoxedStrategy};
use serde::{de::DeserializeOwned, Deserialize, Serialize};

use crate::{
    both, gen,
    gen::{Op, Pick, Val},
    lib_ops::*,
    refmodel::{Contents, Entry, Key, RefNode},
    runner::{Obs, Property, Tier, Verdict},
};

pub struct C18;

#[derive(Clone, Debug, Deserialize, Hash, Serialize)]
pub struct Case {
    keys: Vec<Key>,
    ops: Vec<Op>,
    /// Ask for the hash at this point of the history, and/or at its end.
    hash_at: Option<u8>,
    hash_last: bool,
    json: bool,
    more: Vec<Op>,
    /// Up to 33 bytes, the most that a sequence of nibbles is made of.
    #[serde(default)]
    bytes: Vec<u8>,
}

impl Property for C18 {
    type Case = Case;
    const ID: &'static str = "C18";
    const QUICK: u64 = 100_000;
    const RULE: &'static str = "a case is a history (with hash entries and hash requests), a format (JSON or bincode) and a continuation, on both trie types; non-trivial if the serialised trie has at least 2 entries; distinct by the hash of the whole case";

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let h = prop_oneof![
            1 => gen::history(gen::val(), true),
            1 => gen::loaded_history(gen::val(), true, 8),
        ];
        let more = vec((gen::pick(), prop::option::of(gen::small_val())), 0..=8);
        (
            h,
            prop::option::of(any::<u8>()),
            any::<bool>(),
            any::<bool>(),
            more,
            prop_oneof![vec(any::<u8>(), 0..=33), vec(any::<u8>(), 33)],
        )
            .prop_map(|((keys, ops), hash_at, hash_last, json, more, bytes)| {
                let more = more
                    .into_iter()
                    .map(|(p, v): (Pick, Option<Val>)| match v {
                        Some(v) => Op::Ins(p.exact(&keys), v),
                        None => Op::Del(p.near(&keys)),
                    })
                    .collect();
                Case {
                    keys,
                    ops,
                    hash_at,
                    hash_last,
                    json,
                    more,
                    bytes,
                }
            })
            .boxed()
    }

    fn check(case: &Case, obs: &mut Obs) -> Verdict {
        both!(round_trip, case, obs);
        Ok(())
    }
}

fn via<T: Serialize + DeserializeOwned>(x: &T, json: bool, what: &str) -> Result<T, String> {
    let fail = |e: String| format!("{what}: {e}");
    let res = no_panic(
        || what.into(),
        || match json {
            true => {
                let text = serde_json::to_string(x).map_err(|e| fail(e.to_string()))?;
                let mut d = serde_json::Deserializer::from_str(&text);
                d.disable_recursion_limit();
                let v = T::deserialize(&mut d).map_err(|e| fail(e.to_string()))?;
                d.end().map_err(|e| fail(e.to_string()))?;
                Ok(v)
            }
            false => {
                let bytes = bincode::serialize(x).map_err(|e| fail(e.to_string()))?;
                bincode::deserialize(&bytes).map_err(|e| fail(e.to_string()))
            }
        },
    )?;
    res
}

fn compare<N: Trie>(t: &N, c: &Contents, keys: &[Key], what: &str) -> Verdict {
    let want = RefNode::build(c);
    same_structure(t, &want, what)?;
    same_hash(t, &want.hash(), what)?;
    let want_items = want.entries_in_order();
    let got = items(t, want_items.len())?;
    ensure(got == want_items, || {
        format!("{}: {what}: items are {got:02x?}, expected {want_items:02x?}", name::<N>())
    })?;
    same_lookups(t, c, keys, what)?;
    same_lookups(t, c, c.keys(), what)
}

fn round_trip<N: Trie>(case: &Case, obs: &mut Obs) -> Verdict {
    let mut t = N::default();
    let mut c = Contents::new();
    let stop = case.hash_at.map(|h| h as usize % (case.ops.len() + 1));
    for (i, op) in case.ops.iter().enumerate() {
        if stop == Some(i) {
            no_panic(|| "hash".into(), || t.hash())?;
        }
        if op_allowed(&c, op) {
            apply_lib(&mut t, &c, op)?;
            apply_model(&mut c, op);
        }
    }
    if case.hash_last {
        no_panic(|| "hash".into(), || t.hash())?;
    }

    let mut back: N = via(&t, case.json, &format!("{}: trie", name::<N>()))?;
    ensure(back == t, || format!("{}: the restored trie differs: {back:?}", name::<N>()))?;
    let node: Node<N> = via(&*t, case.json, &format!("{}: node", name::<N>()))?;
    ensure(node == *t, || format!("{}: the restored node differs: {node:?}", name::<N>()))?;
    for k in case.keys.iter().take(4) {
        let n: Nibbles = via(&k.nib(), case.json, "key")?;
        ensure(n == k.nib(), || format!("key {k:?} was restored as {n:?}"))?;
    }
    let long = [Nibbles::from_bytes_be(&case.bytes).ok(), Nibbles::from_hex_prefix_encoding(&case.bytes).ok()];
    for n in long.into_iter().flatten() {
        let m: Nibbles = via(&n, case.json, "nibbles")?;
        ensure(m == n, || format!("{n:?} was restored as {m:?}"))?;
    }
    // A second generation, before anything else is asked of the restored trie.
    let twice: N = via(&back, case.json, &format!("{}: restored trie", name::<N>()))?;

    let original = c.clone();
    for (i, op) in case.more.iter().enumerate() {
        if op_allowed(&c, op) {
            apply_lib(&mut back, &c, op)?;
            apply_model(&mut c, op);
        }
        if i == 2 {
            compare(&back, &c, &case.keys, "restored trie while going on")?;
        }
    }
    compare(&back, &c, &case.keys, "restored trie after going on")?;
    compare(&t, &original, &case.keys, "original after the restored one went on")?;
    compare(&twice, &original, &case.keys, "restored twice")?;

    // The other way round: the original goes on, the restored one stays.
    let mut c2 = original.clone();
    for op in &case.more {
        if op_allowed(&c2, op) {
            apply_lib(&mut t, &c2, op)?;
            apply_model(&mut c2, op);
        }
    }
    compare(&t, &c2, &case.keys, "original after going on")?;
    compare(&twice, &original, &case.keys, "restored after the original went on")?;

    obs.nontrivial = original.len() >= 2;
    obs.label(if case.json { "JSON" } else { "bincode" });
    obs.label_if(case.hash_last, "hash cached");
    obs.label_if(original.values().any(Entry::is_hash), "hash node");
    Ok(())
}
