//! Enumeration lists exactly the stored entries, each once, in order.

use proptest::{collection::vec, prelude::*, strategy::BoxedStrategy};
use serde::{Deserialize, Serialize};

use super::prefix_related;
use crate::{
    both, gen,
    gen::Op,
    lib_ops::*,
    refmodel::{unkey, Contents, Entry, Key, RefNode},
    runner::{Obs, Property, Tier, Verdict},
};

pub struct C05;

#[derive(Clone, Debug, Deserialize, Hash, Serialize)]
pub struct Case {
    ops: Vec<Op>,
    /// How to take the entries from several enumerations that run side by
    /// side.
    #[serde(default)]
    takes: Vec<Take>,
}

/// From the enumeration of this number, in this way.
#[derive(Clone, Copy, Debug, Deserialize, Hash, Serialize)]
pub struct Take(u8, How);

#[derive(Clone, Copy, Debug, Deserialize, Hash, Serialize)]
pub enum How {
    Next,
    Several(u8),
    Nth(u8),
    SizeHint,
    /// Start it again.
    Fresh,
    Rest,
    /// All that are left, counted; then start again.
    Count,
    /// The last of those that are left; then start again.
    Last,
    /// All that are left, with the closure called for each; then start again.
    Each,
}

impl Property for C05 {
    type Case = Case;
    const ID: &'static str = "C05";
    const QUICK: u64 = 200_000;
    const RULE: &'static str = "a case is an operation history, with hash entries where the contents allow them, run on both trie types, and a way of taking the entries from several enumerations that run side by side; non-trivial if at least 3 entries are enumerated; distinct by the hash of the whole case";

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        prop_oneof![
            2 => gen::history(gen::small_val(), false),
            2 => gen::history(gen::small_val(), true),
            2 => gen::loaded_history(gen::small_val(), true, 12),
        ]
        .prop_flat_map(|(_, ops)| (Just(ops), takes()))
        .prop_map(|(ops, takes)| Case { ops, takes })
        .boxed()
    }

    fn check(case: &Case, obs: &mut Obs) -> Verdict {
        both!(enumerate, case, obs);
        Ok(())
    }
}

fn enumerate<N: Trie>(case: &Case, obs: &mut Obs) -> Verdict {
    let (t, c) = run_history::<N>(&case.ops)?;
    // The order is the statement's own, worked out from the contents.
    let want = in_order(&c);
    let got = items(&t, want.len())?;
    ensure(got == want, || {
        format!("{}: items are {got:02x?}, expected {want:02x?}", name::<N>())
    })?;

    let n = want.len() + 20;
    let keys = no_panic(
        || format!("{}: keys", name::<N>()),
        || t.keys().take(n).collect::<Vec<_>>(),
    )?;
    let keys: Vec<Key> = keys.iter().map(unkey).collect::<Result<_, _>>()?;
    ensure(keys.iter().eq(want.iter().map(|(k, _)| k)), || {
        format!("{}: keys are {keys:?}, expected those of {want:02x?}", name::<N>())
    })?;
    let values = no_panic(
        || format!("{}: values", name::<N>()),
        || t.values().take(n).map(|v| Entry::from_lib(&v)).collect::<Vec<_>>(),
    )?;
    ensure(values.iter().eq(want.iter().map(|(_, e)| e)), || {
        format!(
            "{}: values are {values:02x?}, expected those of {want:02x?}",
            name::<N>()
        )
    })?;

    let rebuilt: N = no_panic(
        || format!("{}: building from the items", name::<N>()),
        || t.items().take(n).collect(),
    )?;
    ensure(rebuilt == t, || {
        format!("{}: rebuilt from its items, the trie is {rebuilt:?}", name::<N>())
    })?;

    side_by_side(&t, &want, &case.takes, obs)?;

    obs.nontrivial = want.len() >= 3;
    let r = RefNode::build(&c);
    obs.label_if(want.iter().any(|(_, e)| e.is_hash()), "hash entry");
    obs.label_if(
        r.nodes()
            .iter()
            .any(|(_, n)| matches!(n, RefNode::Ext(_, c) if matches!(**c, RefNode::Hash(_)))),
        "hash below an extension",
    );
    obs.label_if(prefix_related(&c), "value in a branch");
    obs.label_if(want.len() >= 50, "50 or more entries");
    Ok(())
}

fn takes() -> BoxedStrategy<Vec<Take>> {
    let how = prop_oneof![
        6 => Just(How::Next),
        2 => (0..=5u8).prop_map(How::Several),
        2 => (0..=5u8).prop_map(How::Nth),
        1 => Just(How::SizeHint),
        1 => Just(How::Fresh),
        1 => Just(How::Rest),
        1 => Just(How::Count),
        1 => Just(How::Last),
        1 => Just(How::Each),
    ];
    prop_oneof![
        1 => Just(vec![]),
        1 => vec((0..3u8, how).prop_map(|(i, h)| Take(i, h)), 1..=24),
    ]
    .boxed()
}

/// Enumerations do not disturb each other, and one that is over stays so.
fn side_by_side<N: Trie>(t: &N, want: &[(Key, Entry)], takes: &[Take], obs: &mut Obs) -> Verdict {
    let mut its = [t.items(), t.items(), t.items()];
    let mut at = [0; 3];
    for Take(i, how) in takes {
        let i = *i as usize % 3;
        let what = || format!("{}: {takes:?}: {how:?} of enumeration {i}", name::<N>());
        let it = &mut its[i];
        let n = match how {
            How::Next | How::SizeHint | How::Fresh | How::Count | How::Last | How::Each => 1,
            How::Several(n) => *n as usize,
            How::Nth(n) => *n as usize + 1,
            How::Rest => want.len() + 20,
        };
        let left = &want[at[i].min(want.len())..];
        let (got, expect): (Vec<_>, &[(Key, Entry)]) = match how {
            How::Next | How::Several(_) | How::Rest => (
                no_panic(what, || it.by_ref().take(n).collect())?,
                &left[..n.min(left.len())],
            ),
            How::Nth(_) => (
                no_panic(what, || it.nth(n - 1).into_iter().collect())?,
                left.get(n - 1..n).unwrap_or_default(),
            ),
            How::SizeHint => {
                let (lo, hi) = no_panic(what, || it.size_hint())?;
                ensure(lo <= left.len() && hi.map_or(true, |h| h >= left.len()), || {
                    format!("{}: {lo} to {hi:?}, but {} are left", what(), left.len())
                })?;
                continue;
            }
            How::Fresh => {
                *it = t.items();
                at[i] = 0;
                continue;
            }
            How::Count => {
                let old = std::mem::replace(it, t.items());
                at[i] = 0;
                let got = no_panic(what, || old.count())?;
                ensure(got == left.len(), || {
                    format!("{}: {got}, but {} are left", what(), left.len())
                })?;
                continue;
            }
            How::Last => {
                let old = std::mem::replace(it, t.items());
                at[i] = 0;
                (
                    no_panic(what, || old.last().into_iter().collect())?,
                    &left[left.len().saturating_sub(1)..],
                )
            }
            How::Each => {
                let old = std::mem::replace(it, t.items());
                at[i] = 0;
                let mut got = vec![];
                no_panic(what, || old.for_each(|x| got.push(x)))?;
                (got, left)
            }
        };
        if !matches!(how, How::Last | How::Each) {
            at[i] += n;
        }
        let got: Vec<(Key, Entry)> = got
            .iter()
            .map(|(k, v)| Ok((unkey(k)?, Entry::from_lib(v))))
            .collect::<Result<_, String>>()?;
        ensure(got == expect, || {
            format!("{}: {got:02x?}, expected {expect:02x?}", what())
        })?;
        obs.label_if(at[i] > want.len() + 1, "asked after the end");
        obs.label_if(at.iter().filter(|a| **a > 0).count() >= 2, "enumerations side by side");
    }
    Ok(())
}

/// Ascending, but a key comes after those that extend it.
fn in_order(c: &Contents) -> Vec<(Key, Entry)> {
    let mut out: Vec<(Key, Entry)> = c.iter().map(|(k, e)| (k.clone(), e.clone())).collect();
    out.sort_by_key(|(k, _)| {
        let mut digits = k.0.clone();
        digits.push(16);
        digits
    });
    out
}
