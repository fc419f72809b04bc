//! Nibble sequences behave as sequences of at most 64 nibbles.

use std::hash::{DefaultHasher, Hash, Hasher};

use eth_trie_utils::nibbles::Nibbles;
use proptest::{collection::vec, prelude::*, strategy::BoxedStrategy};
use serde::{Deserialize, Serialize};

use crate::{
    lib_ops::*,
    refmodel::{nib, unnib, Key},
    runner::{Obs, Property, Tier, Verdict},
};

pub struct C13;

#[derive(Clone, Debug, Deserialize, Hash, Serialize)]
pub struct Case {
    start: Key,
    ops: Vec<Op>,
}

/// Arguments are brought into range by the sequence at hand.
#[derive(Clone, Debug, Deserialize, Hash, Serialize)]
pub enum Op {
    Get(u8),
    PopFront,
    PopBack,
    Next(u8),
    PopFrontN(u8),
    PopBackN(u8),
    PushFront(u8),
    PushBack(u8),
    PushFrontN(Key),
    Range(u8, u8),
    TruncFront(u8),
    TruncBack(u8),
    /// Go on with the first or the second half.
    Split(u8, bool),
    Merge(u8),
    MergeN(Key),
    /// Append and go on with the old sequence.
    MergeAside(Key),
    Reverse,
    /// Comparisons with a sequence that shares this many nibbles.
    Compare(u8, Key),
    /// Comparisons with a sequence that differs at these places only.
    CompareFlipped(Vec<(u8, u8)>),
    Grow(Key),
}

pub fn any_len() -> BoxedStrategy<usize> {
    prop_oneof![
        6 => 0..=64usize,
        2 => 0..=5usize,
        2 => 60..=64usize,
        4 => prop::sample::select(vec![15usize, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64]),
    ]
    .boxed()
}

/// Nibble sequences of 0 to 64 nibbles, with runs of zeros and
/// fifteens.
pub fn any_key() -> BoxedStrategy<Key> {
    any_len()
        .prop_flat_map(|n| {
            let digit = prop_oneof![
                4 => Just(None),
                1 => Just(Some(0u8)),
                1 => Just(Some(15u8)),
            ];
            let from = prop_oneof![2 => Just(0), 1 => 0..=n];
            (vec(0..16u8, n), vec(0..16u8, n), digit, from, 0..=n)
        })
        .prop_map(|(a, b, run, from, at)| {
            let mut a = a;
            if let Some(d) = run {
                a.iter_mut().skip(from).take(at).for_each(|x| *x = d);
            } else if b.iter().map(|x| *x as u32).sum::<u32>() % 7 == 0 {
                a.iter_mut().for_each(|x| *x = 0);
            }
            Key(a)
        })
        .boxed()
}

fn op() -> BoxedStrategy<Op> {
    let short = || vec(0..16u8, 0..=20).prop_map(Key);
    prop_oneof![
        2 => any::<u8>().prop_map(Op::Get),
        2 => Just(Op::PopFront),
        2 => Just(Op::PopBack),
        2 => any::<u8>().prop_map(Op::Next),
        2 => (0..20u8).prop_map(Op::PopFrontN),
        2 => (0..20u8).prop_map(Op::PopBackN),
        2 => (0..16u8).prop_map(Op::PushFront),
        2 => (0..16u8).prop_map(Op::PushBack),
        2 => short().prop_map(Op::PushFrontN),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Op::Range(a, b)),
        2 => (0..80u8).prop_map(Op::TruncFront),
        2 => (0..80u8).prop_map(Op::TruncBack),
        3 => (any::<u8>(), any::<bool>()).prop_map(|(i, b)| Op::Split(i, b)),
        2 => (0..16u8).prop_map(Op::Merge),
        2 => short().prop_map(Op::MergeN),
        1 => any_key().prop_map(Op::MergeAside),
        2 => Just(Op::Reverse),
        4 => (any::<u8>(), short()).prop_map(|(i, k)| Op::Compare(i, k)),
        3 => vec((any::<u8>(), 1..16u8), 0..=3).prop_map(Op::CompareFlipped),
        2 => any_key().prop_map(Op::Grow),
    ]
    .boxed()
}

impl Property for C13 {
    type Case = Case;
    const ID: &'static str = "C13";
    const QUICK: u64 = 2_000_000;
    const RULE: &'static str = "a case is a sequence of 0 to 64 nibbles and a chain of operations with arguments in range, run on the packed sequence and on a list of digits; non-trivial if the sequence has at least 2 nibbles at some moment and at least 2 operations are run; distinct by the hash of the whole case";

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        (any_key(), vec(op(), 1..=12))
            .prop_map(|(start, ops)| Case { start, ops })
            .boxed()
    }

    fn check(case: &Case, obs: &mut Obs) -> Verdict {
        let mut n = nib(&case.start.0);
        let mut l = case.start.0.clone();
        let mut longest = l.len();
        for (i, op) in case.ops.iter().enumerate() {
            let before = l.clone();
            let ctx = || format!("step {i}, {op:?} on {}", Key(before.clone()).digits());
            step(&mut n, &mut l, op, obs).map_err(|e| format!("{}: {e}", ctx()))?;
            same(&n, &l, "sequence after the step").map_err(|e| format!("{}: {e}", ctx()))?;
            longest = longest.max(l.len());
        }
        obs.nontrivial = longest >= 2 && case.ops.len() >= 2;
        obs.label_if(longest == 64, "64 nibbles");
        obs.label_if(longest > 32, "more than 32 nibbles");
        Ok(())
    }
}

fn std_hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn same(n: &Nibbles, l: &[u8], what: &str) -> Verdict {
    let got = unnib(n).map_err(|e| format!("{what}: {e}"))?;
    ensure(got == l, || {
        format!(
            "{what} is {}, expected {}",
            Key(got.clone()).digits(),
            Key(l.to_vec()).digits()
        )
    })?;
    let fresh = nib(l);
    ensure(*n == fresh && std_hash(n) == std_hash(&fresh), || {
        format!("{what} does not equal the same sequence built afresh")
    })?;
    ensure(n.is_empty() == l.is_empty(), || format!("{what}: is_empty is wrong"))?;
    ensure(n.min_bytes() == (l.len() + 1) / 2, || {
        format!("{what}: min_bytes is {}", n.min_bytes())
    })
}

fn step(n: &mut Nibbles, l: &mut Vec<u8>, op: &Op, obs: &mut Obs) -> Verdict {
    let len = l.len();
    let upto = |i: u8| i as usize % (len + 1);
    let fits = |extra: usize| len + extra <= 64;
    match op {
        Op::Get(i) => {
            if len > 0 {
                let i = *i as usize % len;
                let got = no_panic(|| "get_nibble".into(), || n.get_nibble(i))?;
                ensure(got == l[i], || format!("nibble {i} is {got:x}"))?;
            }
        }
        Op::PopFront => {
            if len > 0 {
                let got = no_panic(|| "pop_next_nibble_front".into(), || n.pop_next_nibble_front())?;
                let want = l.remove(0);
                ensure(got == want, || format!("popped {got:x}, expected {want:x}"))?;
            }
        }
        Op::PopBack => {
            if len > 0 {
                let got = no_panic(|| "pop_next_nibble_back".into(), || n.pop_next_nibble_back())?;
                let want = l.pop().unwrap();
                ensure(got == want, || format!("popped {got:x}, expected {want:x}"))?;
            }
        }
        Op::Next(i) => {
            let i = upto(*i);
            let got = no_panic(|| "get_next_nibbles".into(), || n.get_next_nibbles(i))?;
            same(&got, &l[..i], "get_next_nibbles")?;
        }
        Op::PopFrontN(i) => {
            let i = upto(*i);
            let got = no_panic(|| "pop_nibbles_front".into(), || n.pop_nibbles_front(i))?;
            same(&got, &l[..i], "pop_nibbles_front")?;
            l.drain(..i);
        }
        Op::PopBackN(i) => {
            let i = upto(*i);
            let got = no_panic(|| "pop_nibbles_back".into(), || n.pop_nibbles_back(i))?;
            let want: Vec<u8> = l[len - i..].iter().rev().copied().collect();
            same(&got, &want, "pop_nibbles_back")?;
            l.truncate(len - i);
        }
        Op::PushFront(d) => {
            if fits(1) {
                no_panic(|| "push_nibble_front".into(), || n.push_nibble_front(*d))?;
                l.insert(0, *d);
            }
        }
        Op::PushBack(d) => {
            if fits(1) {
                no_panic(|| "push_nibble_back".into(), || n.push_nibble_back(*d))?;
                l.push(*d);
            }
        }
        Op::PushFrontN(k) => {
            let k = &k.0[..k.0.len().min(64 - len)];
            no_panic(|| "push_nibbles_front".into(), || n.push_nibbles_front(&nib(k)))?;
            l.splice(0..0, k.iter().copied());
        }
        Op::Range(a, b) => {
            let (a, b) = (upto(*a), upto(*b));
            let r = a.min(b)..a.max(b);
            let got = no_panic(|| "get_nibble_range".into(), || n.get_nibble_range(r.clone()))?;
            same(&got, &l[r], "get_nibble_range")?;
        }
        Op::TruncFront(i) => {
            let i = *i as usize;
            let want: Vec<u8> = l[i.min(len)..].to_vec();
            let got = no_panic(
                || "truncate_n_nibbles_front".into(),
                || n.truncate_n_nibbles_front(i),
            )?;
            same(&got, &want, "truncate_n_nibbles_front")?;
            same(n, l, "sequence after a non-mutating truncate")?;
            no_panic(
                || "truncate_n_nibbles_front_mut".into(),
                || n.truncate_n_nibbles_front_mut(i),
            )?;
            *l = want;
            obs.label_if(i > len, "truncated by more than the length");
        }
        Op::TruncBack(i) => {
            let i = *i as usize;
            let want: Vec<u8> = l[..len - i.min(len)].to_vec();
            let got = no_panic(
                || "truncate_n_nibbles_back".into(),
                || n.truncate_n_nibbles_back(i),
            )?;
            same(&got, &want, "truncate_n_nibbles_back")?;
            same(n, l, "sequence after a non-mutating truncate")?;
            no_panic(
                || "truncate_n_nibbles_back_mut".into(),
                || n.truncate_n_nibbles_back_mut(i),
            )?;
            *l = want;
            obs.label_if(i > len, "truncated by more than the length");
        }
        Op::Split(i, second) => {
            let i = upto(*i);
            let (pre, post) = no_panic(|| "split_at_idx".into(), || n.split_at_idx(i))?;
            same(&pre, &l[..i], "split_at_idx, first part")?;
            same(&post, &l[i..], "split_at_idx, second part")?;
            let p = no_panic(|| "split_at_idx_prefix".into(), || n.split_at_idx_prefix(i))?;
            same(&p, &l[..i], "split_at_idx_prefix")?;
            let p = no_panic(|| "split_at_idx_postfix".into(), || n.split_at_idx_postfix(i))?;
            same(&p, &l[i..], "split_at_idx_postfix")?;
            match second {
                false => {
                    *n = pre;
                    l.truncate(i);
                }
                true => {
                    *n = post;
                    l.drain(..i);
                }
            }
        }
        Op::Merge(d) => {
            if fits(1) {
                *n = no_panic(|| "merge_nibble".into(), || n.merge_nibble(*d))?;
                l.push(*d);
            }
        }
        Op::MergeN(k) => {
            let k = &k.0[..k.0.len().min(64 - len)];
            *n = no_panic(|| "merge_nibbles".into(), || n.merge_nibbles(&nib(k)))?;
            l.extend(k);
        }
        Op::MergeAside(k) => {
            let k = &k.0[..k.0.len().min(64 - len)];
            let mut want = l.clone();
            want.extend(k);
            let got = no_panic(|| "merge_nibbles".into(), || n.merge_nibbles(&nib(k)))?;
            same(&got, &want, "merge_nibbles")?;
            let mut front = nib(k);
            no_panic(|| "push_nibbles_front".into(), || front.push_nibbles_front(n))?;
            same(&front, &want, "push_nibbles_front")?;
        }
        Op::Reverse => {
            *n = no_panic(|| "reverse".into(), || n.reverse())?;
            l.reverse();
        }
        Op::Compare(keep, k) => {
            let mut o = l[..upto(*keep)].to_vec();
            o.extend(&k.0[..k.0.len().min(64 - o.len())]);
            compare(n, l, &o, obs)?;
        }
        Op::CompareFlipped(flips) => {
            let mut o = l.clone();
            for (at, d) in flips {
                if len > 0 {
                    o[*at as usize % len] ^= d;
                }
            }
            compare(n, l, &o, obs)?;
        }
        Op::Grow(k) => {
            *n = nib(&k.0);
            *l = k.0.clone();
        }
    }
    Ok(())
}

fn compare(n: &Nibbles, l: &[u8], o: &[u8], obs: &mut Obs) -> Verdict {
    let len = l.len();
    let other = nib(o);
    let min = len.min(o.len());
    let differs = (0..min).find(|i| l[*i] != o[*i]).unwrap_or(min);

    let got = no_panic(
        || "nibbles_are_identical_up_to_smallest_count".into(),
        || n.nibbles_are_identical_up_to_smallest_count(&other),
    )?;
    ensure(got == (differs == min), || {
        format!("identical up to the smallest count with {o:x?}: {got}")
    })?;
    let got = no_panic(
        || "find_nibble_idx_that_differs (different lengths)".into(),
        || Nibbles::find_nibble_idx_that_differs_between_nibbles_different_lengths(n, &other),
    )?;
    ensure(got == differs, || {
        format!("first difference with {o:x?} is {got}, expected {differs}")
    })?;
    let (a, b) = (nib(&l[..min]), nib(&o[..min]));
    let got = no_panic(
        || "find_nibble_idx_that_differs (equal lengths)".into(),
        || Nibbles::find_nibble_idx_that_differs_between_nibbles_equal_lengths(&a, &b),
    )?;
    ensure(got == differs, || {
        format!("first difference with {:x?} is {got}, expected {differs}", &o[..min])
    })?;
    ensure((*n == other) == (l == o), || format!("equality with {o:x?} is wrong"))?;
    let order = n.cmp(&other);
    ensure(
        order.is_eq() == (l == o)
            && other.cmp(n) == order.reverse()
            && n.partial_cmp(&other) == Some(order),
        || format!("order with {o:x?} is {order:?}, in contradiction to other comparisons"),
    )?;
    // The same digits with one more zero in front are another sequence.
    if len < 64 {
        let mut z = vec![0];
        z.extend(l.iter());
        ensure(*n != nib(&z), || "equals itself with a leading zero".into())?;
    }
    obs.label_if(differs < min, "compared with a differing sequence");
    Ok(())
}
