//! Tries can be shared between threads.

use std::sync::{Arc, Barrier};

use eth_trie_utils::{
    debug_tools::{
        diff::create_diff_between_tries, query::get_path_from_query, stats::get_trie_stats,
    },
    partial_trie::HashedPartialTrie,
    trie_subsets::{create_trie_subset, create_trie_subsets},
};
use proptest::{collection::vec, prelude::*, strategy::BoxedStrategy};
use serde::{Deserialize, Serialize};

use super::c09::expected;
use crate::{
    both, gen,
    gen::{Op, Val},
    lib_ops::*,
    refmodel::{Contents, Entry, Key, RefNode},
    runner::{Obs, Property, Tier, Verdict},
};

pub struct C24;

#[derive(Clone, Debug, Deserialize, Hash, Serialize)]
pub struct Case {
    start: Vec<(Key, Val)>,
    threads: Vec<Vec<Act>>,
}

#[derive(Clone, Debug, Deserialize, Hash, Serialize)]
pub enum Act {
    /// On the trie that all threads share.
    Hash,
    Get(Key),
    Items,
    Subset(Vec<Key>),
    Batch(Vec<Vec<Key>>),
    Query(Key),
    Stats,
    /// Between two further tries that all threads share.
    Diff,
    /// Make the thread's own trie a clone of the shared one.
    Clone,
    /// On the thread's own trie.
    Do(Op),
    OwnHash,
}

impl Property for C24 {
    type Case = Case;
    const ID: &'static str = "C24";
    const QUICK: u64 = 40_000;
    const RULE: &'static str = "a case is a trie and a list of steps for each of 2 to 4 threads, which start at the same moment: hash requests, lookups, enumerations, subset extractions, path queries, statistics and diffs on the shared trie, and hash requests and mutations of own clones of it; every answer is compared with the model, those of the debugging tools with what one thread alone was told before; both trie types; non-trivial if the trie has at least 2 entries and two threads ask for hashes; distinct by the hash of the whole case";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "the interleaving of the threads is the scheduler's: a case found to fail may need several replays",
    ];

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        gen::value_entries(gen::val())
            .prop_flat_map(|(keys, start)| {
                let u = keys.clone();
                let near = move |p: gen::Pick| p.near(&u);
                let u2 = keys.clone();
                let exact = move |p: gen::Pick| p.exact(&u2);
                let (n1, n2, n3, n4) = (near.clone(), near.clone(), near.clone(), near.clone());
                let act = prop_oneof![
                    5 => Just(Act::Hash),
                    2 => gen::pick().prop_map(move |p| Act::Get(near(p))),
                    1 => Just(Act::Items),
                    1 => gen::key_picks(3)
                        .prop_map(move |ps| Act::Subset(ps.into_iter().map(|p| n1(p)).collect())),
                    1 => vec(gen::key_picks(3), 0..=4).prop_map(move |cs| {
                        Act::Batch(
                            cs.into_iter()
                                .map(|ps| ps.into_iter().map(|p| n3(p)).collect())
                                .collect(),
                        )
                    }),
                    1 => gen::pick().prop_map(move |p| Act::Query(n4(p))),
                    1 => Just(Act::Stats),
                    1 => Just(Act::Diff),
                    2 => Just(Act::Clone),
                    3 => (gen::pick(), gen::val()).prop_map(move |(p, v)| Act::Do(Op::Ins(exact(p), v))),
                    3 => gen::pick().prop_map(move |p| Act::Do(Op::Del(n2(p)))),
                    4 => Just(Act::OwnHash),
                ];
                (Just(start), vec(vec(act, 1..=8), 2..=4))
            })
            .prop_map(|(start, threads)| Case { start, threads })
            .boxed()
    }

    fn check(case: &Case, obs: &mut Obs) -> Verdict {
        both!(shared, case, obs);
        Ok(())
    }
}

fn shared<N: Trie + Send + Sync>(case: &Case, obs: &mut Obs) -> Verdict {
    let c = gen::value_contents(&case.start);
    let root = RefNode::build(&c);
    let t: N = no_panic(
        || "start trie".into(),
        || case.start.iter().map(|(k, v)| (k.nib(), v.bytes().into())).collect(),
    )?;
    let two = no_panic(
        || "tries to compare".into(),
        || [0, 1].map(|n| case.start.iter().skip(n).map(|(k, v)| (k.nib(), v.bytes())).collect()),
    )?;
    // What a single thread is told.
    let told: Vec<Vec<Option<String>>> = case
        .threads
        .iter()
        .map(|acts| acts.iter().map(|a| tell(&t, &two, a)).collect())
        .collect::<Result<_, _>>()?;
    let barrier = Arc::new(Barrier::new(case.threads.len()));
    let results: Vec<Verdict> = std::thread::scope(|s| {
        let handles: Vec<_> = case
            .threads
            .iter()
            .enumerate()
            .map(|(i, acts)| {
                let barrier = barrier.clone();
                let (t, two, c, root, told) = (&t, &two, &c, &root, &told[i]);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        barrier.wait();
                        one(t, two, c, root, acts, told).map_err(|e| format!("thread {i}: {e}"))
                    })
                    .expect("cannot start a thread")
            })
            .collect();
        handles
            .into_iter()
            .map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into())))
            .collect()
    });
    results.into_iter().collect::<Verdict>()?;
    same_structure(&t, &root, "the shared trie at the end")?;
    same_hash(&t, &root.hash(), "the shared trie at the end")?;

    let asking = case
        .threads
        .iter()
        .filter(|acts| acts.iter().any(|a| matches!(a, Act::Hash | Act::OwnHash)))
        .count();
    obs.nontrivial = c.len() >= 2 && asking >= 2;
    obs.label_if(case.threads.len() >= 3, "3 or more threads");
    Ok(())
}

/// The answer of a debugging tool.
fn tell<N: Trie>(t: &N, two: &[HashedPartialTrie; 2], a: &Act) -> Result<Option<String>, String> {
    no_panic(
        || format!("{}: {a:?}", name::<N>()),
        || match a {
            Act::Query(k) => Some(get_path_from_query(&**t, k.nib()).to_string()),
            Act::Stats => Some(get_trie_stats(t).to_string()),
            Act::Diff => Some(format!("{:?}", create_diff_between_tries(&two[0], &two[1]))),
            _ => None,
        },
    )
}

fn one<N: Trie>(
    t: &N,
    two: &[HashedPartialTrie; 2],
    c: &Contents,
    root: &RefNode,
    acts: &[Act],
    told: &[Option<String>],
) -> Verdict {
    let hash = root.hash();
    let mut own = t.clone();
    let mut mine = c.clone();
    for (a, told) in acts.iter().zip(told) {
        match a {
            Act::Query(_) | Act::Stats | Act::Diff => {
                let got = tell(t, two, a)?;
                ensure(got == *told, || {
                    format!("{}: {a:?} tells {got:?} instead of {told:?}", name::<N>())
                })?;
            }
            Act::Batch(cs) => {
                let want = no_panic(
                    || format!("{}: subsets for {cs:?}", name::<N>()),
                    || create_trie_subsets(t, cs.iter().map(|ks| ks.iter().map(|k| k.nib()))),
                )?
                .map_err(|e| e.to_string())?;
                ensure(want.len() == cs.len(), || {
                    format!("{}: {} subsets for {cs:?}", name::<N>(), want.len())
                })?;
                for (s, ks) in want.iter().zip(cs) {
                    same_structure(s, &expected(root, ks), "a subset of a batch")?;
                }
            }
            Act::Hash => same_hash(t, &hash, "the shared trie")?,
            Act::Get(k) => same_lookups(t, c, [k], "the shared trie")?,
            Act::Items => {
                let got = items(t, c.len())?;
                ensure(got == root.entries_in_order(), || {
                    format!("{}: the shared trie lists {got:02x?}", name::<N>())
                })?;
            }
            Act::Subset(ks) => {
                let s = no_panic(
                    || format!("{}: subset for {ks:?}", name::<N>()),
                    || create_trie_subset(t, ks.iter().map(|k| k.nib())).map_err(|e| e.to_string()),
                )??;
                same_hash(&s, &hash, "the subset")?;
                for k in ks {
                    let got = get(&s, k)?;
                    let want = match c.get(k) {
                        Some(Entry::Val(v)) => Some(v),
                        _ => None,
                    };
                    ensure(got.as_ref() == want, || {
                        format!("{}: the subset has {got:02x?} at {k:?}", name::<N>())
                    })?;
                }
            }
            Act::Clone => {
                own = t.clone();
                mine = c.clone();
            }
            Act::Do(op) => {
                apply_lib(&mut own, &mine, op)?;
                apply_model(&mut mine, op);
            }
            Act::OwnHash => {
                let want = RefNode::build(&mine);
                same_hash(&own, &want.hash(), "the thread's own trie")?;
                same_structure(&own, &want, "the thread's own trie")?;
            }
        }
    }
    Ok(())
}
