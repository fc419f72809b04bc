//! Out-of-range nibble operations are refused.

use eth_trie_utils::nibbles::Nibbles;
use proptest::{prelude::*, strategy::BoxedStrategy};
use serde::{Deserialize, Serialize};

use super::c13::any_key;
use crate::{
    lib_ops::*,
    refmodel::{nib, unnib, Key},
    runner::{guarded, Obs, Property, Tier, Verdict},
};

pub struct C16;

#[derive(Clone, Debug, Deserialize, Hash, Serialize)]
pub struct Case {
    key: Key,
    bad: Bad,
}

/// The numbers say how far out of range the argument is.
#[derive(Clone, Debug, Deserialize, Hash, Serialize)]
pub enum Bad {
    Get(u64),
    PopFrontEmpty,
    PopBackEmpty,
    Next(u64),
    PopFrontN(u64),
    PopBackN(u64),
    Range(u64, u64),
    Split(u64),
    SplitPrefix(u64),
    SplitPostfix(u64),
    PushFrontFull(u8),
    PushBackFull(u8),
    MergeFull(u8),
    PushFrontN(Key),
    MergeN(Key),
    FromNibble(u8),
    PushFrontBig(u8),
    PushBackBig(u8),
    MergeBig(u8),
    FindDiff(Key),
}

impl Property for C16 {
    type Case = Case;
    const ID: &'static str = "C16";
    const QUICK: u64 = 2_000_000;
    const RULE: &'static str = "a case is a nibble sequence and one operation with an argument out of range; run in a build with and in one without overflow checks; all evaluated cases are non-trivial, those whose operation is in range after all (a sequence that is not full or not empty) are not counted; distinct by the hash of the case";

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let far = || {
            prop_oneof![
                4 => 0..=3u64,
                3 => 0..=80u64,
                1 => prop::sample::select(vec![
                    1 << 32, u64::MAX, u64::MAX - 1, u64::MAX / 4, u64::MAX / 4 + 1, 1 << 62, 1 << 61,
                ]),
                1 => any::<u64>(),
            ]
        };
        let bad = prop_oneof![
            far().prop_map(Bad::Get),
            Just(Bad::PopFrontEmpty),
            Just(Bad::PopBackEmpty),
            far().prop_map(Bad::Next),
            far().prop_map(Bad::PopFrontN),
            far().prop_map(Bad::PopBackN),
            (far(), far()).prop_map(|(a, b)| Bad::Range(a, b)),
            far().prop_map(Bad::Split),
            far().prop_map(Bad::SplitPrefix),
            far().prop_map(Bad::SplitPostfix),
            (0..16u8).prop_map(Bad::PushFrontFull),
            (0..16u8).prop_map(Bad::PushBackFull),
            (0..16u8).prop_map(Bad::MergeFull),
            any_key().prop_map(Bad::PushFrontN),
            any_key().prop_map(Bad::MergeN),
            (16..=255u8).prop_map(Bad::FromNibble),
            (16..=255u8).prop_map(Bad::PushFrontBig),
            (16..=255u8).prop_map(Bad::PushBackBig),
            (16..=255u8).prop_map(Bad::MergeBig),
            any_key().prop_map(Bad::FindDiff),
        ];
        (any_key(), bad)
            .prop_map(|(mut key, bad)| {
                // Make the cases that need an empty, full or long sequence so.
                match &bad {
                    Bad::PopFrontEmpty | Bad::PopBackEmpty => key.0.clear(),
                    Bad::PushFrontFull(_) | Bad::PushBackFull(_) | Bad::MergeFull(_) => {
                        key.0.resize(64, 5)
                    }
                    Bad::PushFrontN(o) | Bad::MergeN(o) if !o.0.is_empty() => {
                        let least = 65 - o.0.len();
                        if key.0.len() < least {
                            key.0.resize(least, 3);
                        }
                    }
                    _ => (),
                }
                Case { key, bad }
            })
            .boxed()
    }

    fn check(case: &Case, obs: &mut Obs) -> Verdict {
        let len = case.key.0.len();
        let mut n = nib(&case.key.0);
        // One more than the largest argument in range, and then some.
        let past = |d: &u64| (len as u64 + 1).saturating_add(*d) as usize;
        // Every result is turned into text: if there is one, it is wrong.
        let res: Result<String, String> = match &case.bad {
            Bad::Get(d) => show(|| n.get_nibble(past(d) - 1)),
            Bad::PopFrontEmpty if len == 0 => show(|| n.pop_next_nibble_front()),
            Bad::PopBackEmpty if len == 0 => show(|| n.pop_next_nibble_back()),
            Bad::Next(d) => show(|| n.get_next_nibbles(past(d))),
            Bad::PopFrontN(d) => show(|| n.pop_nibbles_front(past(d))),
            Bad::PopBackN(d) => show(|| n.pop_nibbles_back(past(d))),
            Bad::Range(a, d) => {
                let end = past(d);
                let start = (*a as usize).min(end);
                show(|| n.get_nibble_range(start..end))
            }
            Bad::Split(d) => show(|| n.split_at_idx(past(d))),
            Bad::SplitPrefix(d) => show(|| n.split_at_idx_prefix(past(d))),
            Bad::SplitPostfix(d) => show(|| n.split_at_idx_postfix(past(d))),
            Bad::PushFrontFull(x) if len == 64 => show(|| n.push_nibble_front(x % 16)),
            Bad::PushBackFull(x) if len == 64 => show(|| n.push_nibble_back(x % 16)),
            Bad::MergeFull(x) if len == 64 => show(|| n.merge_nibble(x % 16)),
            Bad::PushFrontN(o) if len + o.0.len() > 64 => show(|| n.push_nibbles_front(&nib(&o.0))),
            Bad::MergeN(o) if len + o.0.len() > 64 => show(|| n.merge_nibbles(&nib(&o.0))),
            Bad::FromNibble(x) if *x > 15 => show(|| Nibbles::from_nibble(*x)),
            Bad::PushFrontBig(x) if *x > 15 && len < 64 => show(|| n.push_nibble_front(*x)),
            Bad::PushBackBig(x) if *x > 15 && len < 64 => show(|| n.push_nibble_back(*x)),
            Bad::MergeBig(x) if *x > 15 && len < 64 => show(|| n.merge_nibble(*x)),
            Bad::FindDiff(o) if o.0.len() != len => show(|| {
                Nibbles::find_nibble_idx_that_differs_between_nibbles_equal_lengths(
                    &n,
                    &nib(&o.0),
                )
            }),
            _ => return Ok(()),
        };
        if let Ok(r) = res {
            return Err(format!(
                "{:?} on {} nibbles {:?} was not refused but gave {r}",
                case.bad, len, case.key
            ));
        }
        let after = unnib(&n).map_err(|e| format!("{case:?}: left malformed: {e}"))?;
        ensure(after == case.key.0, || {
            format!("{case:?}: refused, but the sequence is now {after:x?}")
        })?;
        obs.nontrivial = true;
        obs.label(match case.bad {
            Bad::Get(_) | Bad::Next(_) | Bad::Range(..) => "read",
            Bad::PopFrontEmpty | Bad::PopBackEmpty | Bad::PopFrontN(_) | Bad::PopBackN(_) => "pop",
            Bad::Split(_) | Bad::SplitPrefix(_) | Bad::SplitPostfix(_) => "split",
            Bad::PushFrontFull(_) | Bad::PushBackFull(_) | Bad::MergeFull(_) => "push to full",
            Bad::PushFrontN(_) | Bad::MergeN(_) => "join too long",
            Bad::FindDiff(_) => "compare",
            _ => "big nibble",
        });
        Ok(())
    }
}

fn show<R: std::fmt::Debug>(f: impl FnOnce() -> R) -> Result<String, String> {
    let r = guarded(f)?;
    // Printing a malformed sequence may itself fail.
    Ok(guarded(|| format!("{r:?}")).unwrap_or_else(|_| "an unprintable result".into()))
}
