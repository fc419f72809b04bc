//! A trie is an exact map from keys to values under any history.

use proptest::{collection::vec, prelude::*, strategy::BoxedStrategy};
use serde::{Deserialize, Serialize};

use super::prefix_related;
use crate::{
    both, gen,
    gen::Op,
    lib_ops::*,
    refmodel::{Contents, Entry, Key},
    runner::{Obs, Property, Tier, Verdict},
};

pub struct C01;

#[derive(Clone, Debug, Deserialize, Hash, Serialize)]
pub struct Case {
    keys: Vec<Key>,
    ops: Vec<Op>,
    /// Steps before which the trie is put aside as it is, or replaced by what
    /// was put aside.
    #[serde(default)]
    back: Vec<(u16, bool)>,
}

impl Property for C01 {
    type Case = Case;
    const ID: &'static str = "C01";
    const QUICK: u64 = 120_000;
    const RULE: &'static str = "a case is a key universe and an operation history over it, run on both trie types in lock-step with a sorted map, with steps back to an earlier state kept as a clone in some cases; non-trivial if at some moment at least 3 entries were stored and the history removed an entry or stored a key that is a proper prefix of another; distinct by the hash of the whole case";

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let ops = prop_oneof![
            3 => gen::history(gen::small_val(), false),
            1 => gen::loaded_history(gen::val(), false, 20),
        ];
        let back = prop_oneof![
            4 => Just(vec![]),
            1 => vec(any::<(u16, bool)>(), 2..=5),
        ];
        (ops, back)
            .prop_map(|((keys, ops), back)| Case { keys, ops, back })
            .boxed()
    }

    fn check(case: &Case, obs: &mut Obs) -> Verdict {
        both!(lock_step, case, obs);
        Ok(())
    }
}

fn lock_step<N: Trie>(case: &Case, obs: &mut Obs) -> Verdict {
    let mut t = N::default();
    let mut c = Contents::new();
    let (mut most, mut removed, mut related) = (0, false, false);

    let mut kept: Option<(N, Contents)> = None;

    for (i, op) in case.ops.iter().enumerate() {
        let here = |(at, _): &&(u16, bool)| *at as usize % case.ops.len() == i;
        for (_, restore) in case.back.iter().filter(here) {
            match (restore, &mut kept) {
                (true, Some((other, d))) => {
                    step_back((&mut t, &c), (other, d))?;
                    t = other.clone();
                    c = d.clone();
                    obs.label("a step back");
                }
                _ => kept = Some((t.clone(), c.clone())),
            }
        }
        if !op_allowed(&c, op) {
            continue;
        }
        let near: Vec<Key> = match op {
            Op::Ins(k, _) | Op::InsHash(k, _) | Op::Del(k) | Op::Get(k) => vec![k.clone()],
            Op::Bulk(es) => es.iter().map(|(k, _)| k.clone()).collect(),
            Op::Rebuild => case.keys.iter().take(400).cloned().collect(),
        };
        match op {
            Op::Del(k) => {
                let before = t.clone();
                let got = no_panic(
                    || format!("{}: delete({k:?})", name::<N>()),
                    || t.delete(k.nib()),
                )?;
                let want = match c.get(k) {
                    Some(Entry::Val(v)) => Some(v.clone()),
                    _ => None,
                };
                ensure(got == want, || {
                    format!(
                        "{}: delete({k:?}) returned {got:02x?}, expected {want:02x?}",
                        name::<N>()
                    )
                })?;
                match want {
                    Some(_) => removed = true,
                    None => {
                        obs.label("delete of an absent key");
                        // Comparing takes time in proportion to the size.
                        let skip = c.len() > 400 && k.0.last().is_some_and(|n| *n != 3);
                        ensure(skip || before == t, || {
                            format!("{}: delete({k:?}) of an absent key changed the trie", name::<N>())
                        })?;
                    }
                }
            }
            _ => apply_lib(&mut t, &c, op)?,
        }
        apply_model(&mut c, op);
        most = most.max(c.len());
        related |= c.len() < 60 && prefix_related(&c);
        same_lookups(&t, &c, &gen::probes(&near), "after a step")?;
    }

    let mut all: Vec<Key> = case.keys.clone();
    all.extend(c.keys().cloned());
    same_lookups(&t, &c, &gen::probes(&all), "at the end")?;

    obs.nontrivial = most >= 3 && (removed || related);
    obs.label_if(removed, "a value was deleted");
    obs.label_if(related, "one key a proper prefix of another");
    obs.label_if(most >= 50, "50 or more entries");
    obs.label_if(c.keys().any(|k| k.0.len() == 64), "64-nibble key");
    obs.label_if(c.contains_key(&Key(vec![])), "empty key");
    Ok(())
}

/// Lookups of keys with different values in the two tries, which change places
/// in between.
fn step_back<N: Trie>((t, c): (&mut N, &Contents), (u, d): (&mut N, &Contents)) -> Verdict {
    let keys = c.keys().chain(d.keys()).filter(|k| c.get(k) != d.get(k));
    for k in keys.take(12) {
        same_lookups(t, c, [k], "before a step back")?;
        std::mem::swap(t, u);
        same_lookups(t, d, [k], "after a step back")?;
        std::mem::swap(t, u);
        same_lookups(t, c, [k], "after a step forth")?;
    }
    Ok(())
}
