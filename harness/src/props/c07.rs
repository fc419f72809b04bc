//! Hash nodes can stand in for any large sub-trie.

use proptest::{collection::vec, prelude::*, strategy::BoxedStrategy};
use serde::{Deserialize, Serialize};

use crate::{
    both, gen,
    gen::Val,
    lib_ops::*,
    refmodel::{Entry, Key, RefNode},
    runner::{Obs, Property, Tier, Verdict},
};

pub struct C07;

#[derive(Clone, Debug, Deserialize, Hash, Serialize)]
pub struct Case {
    keys: Vec<Key>,
    entries: Vec<(Key, Val)>,
    /// Consulted for each replaceable node, parents first.
    replace: Vec<bool>,
    order: Vec<u16>,
    bulk: bool,
}

impl Property for C07 {
    type Case = Case;
    const ID: &'static str = "C07";
    const QUICK: u64 = 200_000;
    const RULE: &'static str = "a case is a set of entries, a choice of nodes with encodings of at least 32 bytes to replace by hash nodes, and an insertion order; both trie types; non-trivial if at least one node was replaced and at least one entry stays outside; distinct by the hash of the whole case";

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let replace = (1..=5usize).prop_flat_map(|density| {
            vec((0..8u8).prop_map(move |x| (x as usize) < density), 1..=40)
        });
        (
            gen::value_entries(gen::val()),
            replace,
            vec(any::<u16>(), 0..=40),
            any::<bool>(),
        )
            .prop_map(|((keys, entries), replace, order, bulk)| Case {
                keys,
                entries,
                replace,
                order,
                bulk,
            })
            .boxed()
    }

    fn check(case: &Case, obs: &mut Obs) -> Verdict {
        both!(replaced, case, obs);
        Ok(())
    }
}

fn replaced<N: Trie>(case: &Case, obs: &mut Obs) -> Verdict {
    let c = gen::value_contents(&case.entries);
    let full = RefNode::build(&c);
    let mut i = 0;
    let part = full.hash_out(&mut Vec::new(), &mut |at, n| {
        n.is_large() && !case.replace.is_empty() && {
            i += 1;
            match at.is_empty() {
                // The root seldom: nothing is left then.
                true => case.replace.len() <= 2 && case.replace[0],
                false => case.replace[(i - 1) % case.replace.len()],
            }
        }
    });
    let kept = part.contents();

    // Replace the nodes in the library's own trie, as a user would.
    let t: N = part.to_lib();
    let whole: N = c.iter().map(|(k, e)| (k.nib(), e.to_lib())).collect();
    let root = no_panic(|| "hash of the full trie".into(), || whole.hash())?;
    same_hash(&t, &root.0, "after replacing nodes")?;

    let mut all = case.keys.clone();
    all.extend(kept.keys().cloned());
    same_lookups(&t, &kept, &gen::probes(&all), "after replacing nodes")?;
    let want = part.entries_in_order();
    let got = items(&t, want.len())?;
    ensure(got == want, || {
        format!("{}: items are {got:02x?}, expected {want:02x?}", name::<N>())
    })?;

    // The same by inserts.
    let mut es: Vec<(u16, (&Key, &Entry))> = kept
        .iter()
        .enumerate()
        .map(|(i, e)| (case.order.get(i).copied().unwrap_or(i as u16), e))
        .collect();
    es.sort_by_key(|(o, _)| *o);
    let mut u = N::default();
    no_panic(
        || format!("{}: building the partial trie by inserts", name::<N>()),
        || match case.bulk {
            true => u.extend(es.iter().map(|(_, (k, e))| (k.nib(), e.to_lib()))),
            false => es.iter().for_each(|(_, (k, e))| insert(&mut u, k, e)),
        },
    )?;
    same_structure(&u, &part, "built by inserts")?;
    ensure(u == t, || {
        format!("{}: the trie built by inserts differs", name::<N>())
    })?;
    same_hash(&u, &root.0, "built by inserts")?;

    let hashes: Vec<&Key> = kept.iter().filter(|(_, e)| e.is_hash()).map(|(k, _)| k).collect();
    obs.nontrivial = !hashes.is_empty() && hashes.len() < kept.len();
    obs.label_if(hashes.is_empty(), "nothing replaced");
    obs.label_if(matches!(part, RefNode::Hash(_)), "root replaced");
    obs.label_if(hashes.len() >= 3, "3 or more nodes replaced");
    for (at, n) in full.nodes() {
        if hashes.iter().any(|k| k.0 == at) {
            obs.label_if(matches!(n, RefNode::Leaf(..)), "leaf replaced");
            obs.label_if(matches!(n, RefNode::Ext(..)), "extension replaced");
            obs.label_if(matches!(n, RefNode::Branch(..)), "branch replaced");
        }
    }
    obs.label_if(
        part.nodes()
            .iter()
            .any(|(_, n)| matches!(n, RefNode::Ext(_, c) if matches!(**c, RefNode::Hash(_)))),
        "child of an extension replaced",
    );
    Ok(())
}
