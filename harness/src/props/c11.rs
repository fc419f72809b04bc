//! Updating a subset trie gives the same root as updating the full trie.

use proptest::{collection::vec, prelude::*, strategy::BoxedStrategy};
use serde::{Deserialize, Serialize};

use crate::{
    both, gen,
    gen::Val,
    lib_ops::*,
    refmodel::{Key, RefNode},
    runner::{Obs, Property, Tier, Verdict},
};

pub struct C11;

#[derive(Clone, Debug, Deserialize, Hash, Serialize)]
pub struct Case {
    entries: Vec<(Key, Val)>,
    request: Vec<Key>,
    /// Each refers to a requested key.
    ops: Vec<(u16, Act)>,
    /// Compare hashes after every operation, not only at the end.
    hash_each: bool,
}

#[derive(Clone, Debug, Deserialize, Hash, Serialize)]
pub enum Act {
    Ins(Val),
    Del,
    Get,
}

impl Property for C11 {
    type Case = Case;
    const ID: &'static str = "C11";
    const QUICK: u64 = 240_000;
    const RULE: &'static str = "a case is a full trie, a collection of keys and a history over these keys, run in lock-step on the full trie and on the subset extracted for the keys; both trie types; non-trivial if something was hashed out, the root was not, and at least one insert or effective delete was run on both; distinct by the hash of the whole case";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "deletes that would leave a hashed-out node as the sole entry of a branch are recognised on the subset's structure and left out on both sides, as the property excepts them",
    ];

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let act = prop_oneof![
            3 => gen::val().prop_map(Act::Ins),
            4 => Just(Act::Del),
            1 => Just(Act::Get),
        ];
        (
            gen::value_entries(gen::val()),
            prop_oneof![vec(gen::pick(), 1..=4), vec(gen::pick(), 1..=15)],
            vec((any::<u16>(), act), 1..=20),
            any::<bool>(),
        )
            .prop_map(|((keys, entries), picks, ops, hash_each)| Case {
                request: picks.iter().map(|p| p.near(&keys)).collect(),
                entries,
                ops,
                hash_each,
            })
            .boxed()
    }

    fn check(case: &Case, obs: &mut Obs) -> Verdict {
        both!(lock_step, case, obs);
        Ok(())
    }
}

/// Whether deleting `key` would leave a hash node as the only entry of a
/// branch.
fn leaves_lone_hash(t: &RefNode, key: &[u8]) -> bool {
    if t.get(key).is_none() {
        return false;
    }
    let path = t.visit(key);
    let (at, node) = path.last().unwrap();
    // The branch that loses an entry, and the slot it loses (none: its value).
    let (branch, slot) = match node {
        RefNode::Branch(..) => (*node, None),
        _ if path.len() >= 2 => (path[path.len() - 2].1, at.last().copied()),
        _ => return false,
    };
    let RefNode::Branch(children, value) = branch else {
        return false;
    };
    let left: Vec<&RefNode> = children
        .iter()
        .enumerate()
        .filter(|(i, c)| Some(*i as u8) != slot && **c != RefNode::Empty)
        .map(|(_, c)| c)
        .collect();
    let value_left = slot.is_some() && !value.is_empty();
    !value_left && left.len() == 1 && matches!(left[0], RefNode::Hash(_))
}

fn lock_step<N: Trie>(case: &Case, obs: &mut Obs) -> Verdict {
    if case.request.is_empty() {
        return Ok(());
    }
    let c = gen::value_contents(&case.entries);
    let mut full: N = no_panic(
        || "full trie".into(),
        || c.iter().map(|(k, e)| (k.nib(), e.to_lib())).collect(),
    )?;
    let mut sub = subset(&full, &case.request)?
        .map_err(|e| format!("{}: extraction failed: {e}", name::<N>()))?;
    let reduced = structure::<N>(&sub)? != structure::<N>(&full)?;
    let (mut effective, mut collapsed) = (false, false);

    for (i, act) in &case.ops {
        let k = &case.request[*i as usize % case.request.len()];
        match act {
            Act::Ins(v) => {
                effective = true;
                for (t, what) in [(&mut full, "full"), (&mut sub, "subset")] {
                    no_panic(
                        || format!("{}: insert({k:?}) on the {what} trie", name::<N>()),
                        || t.insert(k.nib(), v.bytes()),
                    )?;
                }
            }
            Act::Del => {
                let before = structure::<N>(&sub)?;
                if leaves_lone_hash(&before, &k.0) {
                    obs.label("excepted delete left out");
                    continue;
                }
                let (a, b) = (
                    no_panic(
                        || format!("{}: delete({k:?}) on the full trie", name::<N>()),
                        || full.delete(k.nib()),
                    )?,
                    no_panic(
                        || format!("{}: delete({k:?}) on the subset trie", name::<N>()),
                        || sub.delete(k.nib()),
                    )?,
                );
                ensure(a == b, || {
                    format!(
                        "{}: delete({k:?}) returns {a:02x?} on the full trie, {b:02x?} on the subset",
                        name::<N>()
                    )
                })?;
                effective |= a.is_some();
                collapsed |= a.is_some()
                    && structure::<N>(&sub)?.nodes().len() + 1 < before.nodes().len();
            }
            Act::Get => {
                let (a, b) = (get(&full, k)?, get(&sub, k)?);
                ensure(a == b, || {
                    format!(
                        "{}: get({k:?}) is {a:02x?} on the full trie, {b:02x?} on the subset",
                        name::<N>()
                    )
                })?;
            }
        }
        if case.hash_each {
            same_hash(&sub, &full.hash().0, &format!("subset after {act:?} of {k:?}, against the full trie"))?;
        }
    }
    same_hash(&sub, &full.hash().0, "subset at the end, against the full trie")?;
    for k in &case.request {
        let (a, b) = (get(&full, k)?, get(&sub, k)?);
        ensure(a == b, || {
            format!(
                "{}: at the end get({k:?}) is {a:02x?} on the full trie, {b:02x?} on the subset",
                name::<N>()
            )
        })?;
    }

    obs.nontrivial = reduced && effective;
    obs.label_if(reduced, "something hashed out");
    obs.label_if(reduced && collapsed, "a delete removed a branch of a reduced trie");
    Ok(())
}
