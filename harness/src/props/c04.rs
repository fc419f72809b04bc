//! Clones and held sub-tries are isolated snapshots.

use eth_trie_utils::partial_trie::{Node, WrappedNode};
use proptest::{collection::vec, prelude::*, strategy::BoxedStrategy};
use serde::{Deserialize, Serialize};

use crate::{
    both, gen,
    gen::{Op, Val},
    lib_ops::*,
    refmodel::{Contents, Key, RefNode},
    runner::{Obs, Property, Tier, Verdict},
};

pub struct C04;

#[derive(Clone, Debug, Deserialize, Hash, Serialize)]
pub struct Case {
    keys: Vec<Key>,
    start: Vec<(Key, Val)>,
    acts: Vec<Act>,
}

/// The numbers choose among the handles there are.
#[derive(Clone, Debug, Deserialize, Hash, Serialize)]
pub enum Act {
    Do(u8, Op),
    Clone(u8),
    /// Copy of a node below, as a trie of its own.
    Sub(u8, Vec<u8>),
    /// Shared pointer to a node below.
    Hold(u8, Vec<u8>),
    Subset(u8, Vec<Key>),
    Assign(u8, u8),
    Hash(u8),
    Items(u8),
    Drop(u8),
    CheckAll,
}

impl Property for C04 {
    type Case = Case;
    const ID: &'static str = "C04";
    const QUICK: u64 = 60_000;
    const RULE: &'static str = "a case is a start trie and a sequence of clones, sub-trie handles, subset extractions, hash requests and mutations applied to any of the handles; every handle has its own model and all are compared completely at generated points and at the end; both trie types; non-trivial if at least 2 handles existed and a trie was mutated after another handle to it had been made; distinct by the hash of the whole case";

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let h = any::<u8>;
        let route = || vec(any::<u8>(), 0..=4);
        gen::value_entries(gen::small_val())
            .prop_flat_map(move |(keys, start)| {
                let u = keys.clone();
                let near = move |p: gen::Pick| p.near(&u);
                let u2 = keys.clone();
                let exact = move |p: gen::Pick| p.exact(&u2);
                let n1 = near.clone();
                let act = prop_oneof![
                    6 => (h(), gen::pick(), gen::small_val())
                        .prop_map(move |(h, p, v)| Act::Do(h, Op::Ins(exact(p), v))),
                    5 => (h(), gen::pick()).prop_map(move |(h, p)| Act::Do(h, Op::Del(near(p)))),
                    4 => h().prop_map(Act::Clone),
                    1 => (h(), route()).prop_map(|(h, r)| Act::Sub(h, r)),
                    2 => (h(), route()).prop_map(|(h, r)| Act::Hold(h, r)),
                    1 => (h(), gen::key_picks(3)).prop_map(move |(h, ps)| {
                        Act::Subset(h, ps.into_iter().map(|p| n1(p)).collect())
                    }),
                    1 => (h(), h()).prop_map(|(a, b)| Act::Assign(a, b)),
                    3 => h().prop_map(Act::Hash),
                    1 => h().prop_map(Act::Items),
                    1 => h().prop_map(Act::Drop),
                    1 => Just(Act::CheckAll),
                ];
                (Just(keys), Just(start), vec(act, 2..=25))
            })
            .prop_map(|(keys, start, acts)| Case { keys, start, acts })
            .boxed()
    }

    fn check(case: &Case, obs: &mut Obs) -> Verdict {
        both!(handles, case, obs);
        Ok(())
    }
}

enum Handle<N> {
    Own(N),
    Held(WrappedNode<N>),
}

impl<N> Handle<N> {
    fn trie(&self) -> &N {
        match self {
            Handle::Own(t) => t,
            Handle::Held(w) => w,
        }
    }
}

/// Follows a route down; `None` if it leads to an empty node or ends at the
/// root.
fn below<N: Trie>(t: &N, r: &RefNode, route: &[u8]) -> Option<(WrappedNode<N>, RefNode)> {
    let (mut node, mut model): (Option<WrappedNode<N>>, RefNode) = (None, r.clone());
    for step in route {
        let here: &Node<N> = match &node {
            Some(w) => w,
            None => t,
        };
        let next = match (here, &model) {
            (Node::Branch { children, .. }, RefNode::Branch(cs, _)) => {
                let used: Vec<usize> = (0..16).filter(|i| cs[*i] != RefNode::Empty).collect();
                let i = used[*step as usize % used.len()];
                (children[i].clone(), cs[i].clone())
            }
            (Node::Extension { child, .. }, RefNode::Ext(_, c)) => (child.clone(), (**c).clone()),
            _ => break,
        };
        node = Some(next.0);
        model = next.1;
    }
    node.map(|n| (n, model))
}

fn compare<N: Trie>(t: &N, c: &Contents, keys: &[Key], what: &str) -> Verdict {
    let want = RefNode::build(c);
    same_structure(t, &want, what)?;
    same_hash(t, &want.hash(), what)?;
    let want_items = want.entries_in_order();
    let got = items(t, want_items.len())?;
    ensure(got == want_items, || {
        format!("{}: {what}: items are {got:02x?}, expected {want_items:02x?}", name::<N>())
    })?;
    same_lookups(t, c, keys, what)?;
    same_lookups(t, c, c.keys(), what)?;
    let fresh: N = c.iter().map(|(k, e)| (k.nib(), e.to_lib())).collect();
    ensure(*t == fresh, || {
        format!("{}: {what}: not equal to a fresh trie with the same contents", name::<N>())
    })
}

fn handles<N: Trie>(case: &Case, obs: &mut Obs) -> Verdict {
    let start = gen::value_contents(&case.start);
    let first: N = no_panic(
        || "start trie".into(),
        || start.iter().map(|(k, e)| (k.nib(), e.to_lib())).collect(),
    )?;
    let mut hs: Vec<(Handle<N>, Contents)> = vec![(Handle::Own(first), start)];
    let (mut most, mut mutated) = (1, false);
    let mut held = false;

    for (n, act) in case.acts.iter().enumerate() {
        let len = hs.len();
        let at = |h: &u8| *h as usize % len;
        match act {
            Act::Do(h, op) => {
                let (t, c) = &mut hs[at(h)];
                if let (Handle::Own(t), true) = (t, op_allowed(c, op)) {
                    apply_lib(t, c, op)?;
                    apply_model(c, op);
                    mutated |= len >= 2;
                }
            }
            Act::Clone(h) => {
                let (t, c) = &hs[at(h)];
                let copy = (Handle::Own(t.trie().clone()), c.clone());
                hs.push(copy);
            }
            Act::Sub(h, route) | Act::Hold(h, route) => {
                let (t, c) = &hs[at(h)];
                if let Some((w, r)) = below(t.trie(), &RefNode::build(c), route) {
                    held = true;
                    let handle = match act {
                        Act::Sub(..) => Handle::Own(N::clone(&w)),
                        _ => Handle::Held(w),
                    };
                    hs.push((handle, r.contents()));
                }
            }
            Act::Subset(h, keys) => {
                let (t, c) = &hs[at(h)];
                let base = RefNode::build(c);
                if let Ok(Ok(s)) = subset(t.trie(), keys) {
                    let want = super::c09::expected(&base, keys);
                    // What the subset should look like is for another property.
                    if structure::<N>(&s)? == want {
                        hs.push((Handle::Own(s), want.contents()));
                    }
                }
            }
            Act::Assign(a, b) => {
                let (t, c) = &hs[at(b)];
                let copy = (Handle::Own(t.trie().clone()), c.clone());
                hs[at(a)] = copy;
            }
            Act::Hash(h) => {
                let (t, c) = &hs[at(h)];
                same_hash(t.trie(), &RefNode::build(c).hash(), &format!("handle {} at step {n}", at(h)))?;
            }
            Act::Items(h) => {
                let (t, c) = &hs[at(h)];
                items(t.trie(), c.len())?;
            }
            Act::Drop(h) => {
                if len >= 2 {
                    hs.remove(at(h));
                }
            }
            Act::CheckAll => {
                for (i, (t, c)) in hs.iter().enumerate() {
                    compare(t.trie(), c, &case.keys, &format!("handle {i} at step {n}"))?;
                }
            }
        }
        most = most.max(hs.len());
    }
    for (i, (t, c)) in hs.iter().enumerate() {
        compare(t.trie(), c, &case.keys, &format!("handle {i} at the end"))?;
    }

    obs.nontrivial = most >= 2 && mutated;
    obs.label_if(most >= 4, "4 or more handles");
    obs.label_if(held, "sub-trie handle");
    Ok(())
}
