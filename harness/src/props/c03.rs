//! A cached hash is never stale.

use std::{any::Any, sync::Arc};

use eth_trie_utils::{
    debug_tools::diff::create_diff_between_tries,
    partial_trie::{HashedPartialTrie, Node, StandardTrie},
};
use ethereum_types::H256;
use proptest::{collection::vec, prelude::*, strategy::BoxedStrategy};
use serde::{Deserialize, Serialize};

use crate::{
    gen,
    gen::Val,
    lib_ops::*,
    refmodel::{nib, Key, RefNode},
    runner::{guarded, Obs, Property, Tier, Verdict},
};

pub struct C03;

#[derive(Clone, Debug, Deserialize, Hash, Serialize)]
pub struct Case {
    /// The other trie type, which keeps no hashes.
    #[serde(default)]
    plain: bool,
    start: Vec<(Key, Val)>,
    acts: Vec<(u8, Act)>,
}

/// Applied to one of the tries there are.
#[derive(Clone, Debug, Deserialize, Hash, Serialize)]
pub enum Act {
    /// Ask for the hash and compare it.
    Hash,
    /// Ask for the hash of a node below and compare it.
    HashBelow(Vec<u8>),
    /// Ask for the node's encoding.
    Encode,
    Ins(Key, Val),
    Del(Key),
    Bulk(Vec<(Key, Val)>),
    Clone,
    CloneBelow(Vec<u8>),
    Subset(Vec<Key>),
    Json,
    Bincode,
    Diff(u8),
    Edit(Vec<u8>, Edit),
    CopyFrom(u8),
    NodeFrom(u8),
    Swap(u8),
    Drop,
    /// Insert under a key, ask for the hash, clone or access, so many times.
    Many(Key, u8, u32),
}

/// A direct edit of a node through mutable dereferencing.
#[derive(Clone, Debug, Deserialize, Hash, Serialize)]
pub enum Edit {
    /// New value of a leaf or branch.
    Value(Val),
    /// Last nibble of a leaf's key piece.
    LeafKey(u8),
    /// Replace one child of a branch by a leaf.
    Child(u8, Val),
    /// Replace the node by its hash, if large.
    HashOut,
    /// Access without a change.
    Touch,
}

impl Property for C03 {
    type Case = Case;
    const ID: &'static str = "C03";
    const QUICK: u64 = 100_000;
    const RULE: &'static str = "a case is a start trie and a sequence of hash requests, mutations, direct node edits, clones, subset extractions, (de)serialisations and diffs on a set of tries (one case in eight with the type that keeps no hashes); each reported hash is compared with the reference hash of the structure read at that moment, for all tries and all their nodes at the end; non-trivial if some trie was mutated or edited after a hash had been requested and at least 2 hashes were compared before the end; distinct by the hash of the whole case";

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let route = || vec(any::<u8>(), 0..=4);
        gen::value_entries(gen::val())
            .prop_flat_map(move |(keys, start)| {
                let u = keys.clone();
                let near = move |p: gen::Pick| p.near(&u);
                let u2 = keys.clone();
                let exact = move |p: gen::Pick| p.exact(&u2);
                let (exact2, exact3, near2) = (exact.clone(), exact.clone(), near.clone());
                let edit = prop_oneof![
                    4 => gen::val().prop_map(Edit::Value),
                    1 => any::<u8>().prop_map(Edit::LeafKey),
                    2 => (any::<u8>(), gen::val()).prop_map(|(i, v)| Edit::Child(i, v)),
                    1 => Just(Edit::HashOut),
                    1 => Just(Edit::Touch),
                ];
                let act = prop_oneof![
                    8 => Just(Act::Hash),
                    2 => route().prop_map(Act::HashBelow),
                    1 => Just(Act::Encode),
                    6 => (gen::pick(), gen::val()).prop_map(move |(p, v)| Act::Ins(exact(p), v)),
                    6 => gen::pick().prop_map(move |p| Act::Del(near(p))),
                    1 => vec((gen::pick(), gen::val()), 0..=4).prop_map(move |es| {
                        Act::Bulk(es.into_iter().map(|(p, v)| (exact2(p), v)).collect())
                    }),
                    4 => Just(Act::Clone),
                    1 => route().prop_map(Act::CloneBelow),
                    1 => gen::key_picks(3)
                        .prop_map(move |ps| Act::Subset(ps.into_iter().map(|p| near2(p)).collect())),
                    1 => Just(Act::Json),
                    1 => Just(Act::Bincode),
                    1 => any::<u8>().prop_map(Act::Diff),
                    4 => (route(), edit).prop_map(|(r, e)| Act::Edit(r, e)),
                    1 => any::<u8>().prop_map(Act::CopyFrom),
                    1 => any::<u8>().prop_map(Act::NodeFrom),
                    1 => any::<u8>().prop_map(Act::Swap),
                    1 => Just(Act::Drop),
                ];
                let many = (
                    gen::pick(),
                    0..4u8,
                    prop_oneof![
                        600 => prop_oneof![Just(256u32), Just(512), Just(1024)],
                        300 => 1..=600u32,
                        1 => Just(65536),
                    ],
                    0..3u32,
                );
                let act = prop_oneof![
                    150 => act,
                    1 => many.prop_map(move |(p, how, n, less)| Act::Many(exact3(p), how, n - less.min(n))),
                ];
                let which = prop_oneof![2 => Just(0u8), 3 => any::<u8>()];
                (prop_oneof![7 => Just(false), 1 => Just(true)], Just(start), vec((which, act), 2..=25))
            })
            .prop_map(|(plain, start, acts)| Case { plain, start, acts })
            .boxed()
    }

    fn check(case: &Case, obs: &mut Obs) -> Verdict {
        match case.plain {
            true => run::<StandardTrie>(case, obs),
            false => run::<HashedPartialTrie>(case, obs),
        }
    }
}

fn fresh_hash<T: Trie>(t: &T, what: &str) -> Verdict {
    let before = structure::<T>(t)?;
    let want = before.hash();
    same_hash(t, &want, what)?;
    same_structure(t, &before, &format!("{what}: after asking for the hash"))?;
    same_hash(t, &want, &format!("{what}: asked again"))
}

fn all_nodes<T: Trie>(t: &T, what: &str) -> Verdict {
    fresh_hash(t, what)?;
    match &**t {
        Node::Branch { children, .. } => children
            .iter()
            .filter(|c| !matches!(&*****c, Node::Empty))
            .try_for_each(|c| all_nodes::<T>(c, what)),
        Node::Extension { child, .. } => all_nodes::<T>(child, what),
        _ => Ok(()),
    }
}

fn below<'a, T: Trie>(t: &'a T, route: &[u8]) -> &'a T {
    let mut n = t;
    for step in route {
        n = match &**n {
            Node::Branch { children, .. } => {
                let used: Vec<&_> = children
                    .iter()
                    .filter(|c| !matches!(&*****c, Node::Empty))
                    .collect();
                match used.is_empty() {
                    true => break,
                    false => used[*step as usize % used.len()],
                }
            }
            Node::Extension { child, .. } => child,
            _ => break,
        };
    }
    n
}

fn below_mut<'a, T: Trie>(t: &'a mut T, route: &[u8]) -> &'a mut T {
    let Some((step, rest)) = route.split_first() else {
        return t;
    };
    match &**t {
        Node::Branch { .. } | Node::Extension { .. } => (),
        _ => return t,
    }
    match t.deref_mut() {
        Node::Branch { children, .. } => {
            let used: Vec<usize> = (0..16)
                .filter(|i| !matches!(&***children[*i], Node::Empty))
                .collect();
            let i = used[*step as usize % used.len()];
            below_mut(&mut **Arc::make_mut(&mut children[i]), rest)
        }
        Node::Extension { child, .. } => below_mut(&mut **Arc::make_mut(child), rest),
        _ => unreachable!(),
    }
}

fn edit<T: Trie>(t: &mut T, e: &Edit) {
    let (large, hash) = {
        let r = RefNode::of::<T>(&*t).expect("malformed key piece");
        (r.is_large(), r.hash())
    };
    match (t.deref_mut(), e) {
        (Node::Leaf { value, .. } | Node::Branch { value, .. }, Edit::Value(v)) => {
            *value = v.bytes()
        }
        (Node::Leaf { nibbles, .. }, Edit::LeafKey(d)) if !nibbles.is_empty() => {
            nibbles.pop_next_nibble_back();
            nibbles.push_nibble_back(d % 16);
        }
        (Node::Branch { children, .. }, Edit::Child(i, v)) => {
            let used: Vec<usize> = (0..16)
                .filter(|i| !matches!(&***children[*i], Node::Empty))
                .collect();
            children[used[*i as usize % used.len()]] = Arc::new(Box::new(T::new(Node::Leaf {
                nibbles: nib(&[]),
                value: v.bytes(),
            })));
        }
        // Not below an extension's own node: an extension needs a branch or a
        // hash below it, and a hash is one.
        (n, Edit::HashOut) if large => *n = Node::Hash(H256(hash)),
        _ => (),
    }
}

fn run<T: Trie + 'static>(case: &Case, obs: &mut Obs) -> Verdict {
    let start: T = no_panic(
        || "start trie".into(),
        || case.start.iter().map(|(k, v)| (k.nib(), v.bytes().into())).collect(),
    )?;
    let mut ts = vec![start];
    let (mut asked, mut changed_after, mut compared) = (false, false, 0);

    for (n, (h, act)) in case.acts.iter().enumerate() {
        let len = ts.len();
        let h = *h as usize % len;
        let other = |o: &u8| *o as usize % len;
        let what = format!("trie {h} at step {n}");
        let mut mutation = false;
        match act {
            Act::Hash => {
                fresh_hash(&ts[h], &what)?;
                asked = true;
                compared += 1;
            }
            Act::HashBelow(route) => {
                fresh_hash(below(&ts[h], route), &what)?;
                asked = true;
                compared += 1;
            }
            Act::Encode => {
                let got: H256 = (&no_panic(|| what.clone(), || ts[h].hash_intern())?).into();
                ensure(got == ts[h].clone().hash(), || {
                    format!("{what}: the encoded node has the hash {got:x}")
                })?;
                fresh_hash(&ts[h], &what)?;
                asked = true;
            }
            Act::Ins(k, v) => {
                // A refused operation must not disturb anything either.
                let _ = guarded(|| ts[h].insert(k.nib(), v.bytes()));
                mutation = true;
            }
            Act::Many(k, how, n) => {
                let t = &mut ts[h];
                let _ = guarded(|| {
                    for i in 1..=*n {
                        match how {
                            0 => t.insert(k.nib(), i.to_be_bytes().to_vec()),
                            1 => {
                                t.hash();
                            }
                            2 => *t = t.clone(),
                            _ => {
                                let _ = t.deref_mut();
                            }
                        }
                    }
                });
                mutation = true;
            }
            Act::Del(k) => {
                let _ = guarded(|| ts[h].delete(k.nib()));
                mutation = true;
            }
            Act::Bulk(es) => {
                let _ = guarded(|| ts[h].extend(es.iter().map(|(k, v)| (k.nib(), v.bytes()))));
                mutation = true;
            }
            Act::Clone => ts.push(ts[h].clone()),
            Act::CloneBelow(route) => {
                let c = below(&ts[h], route).clone();
                ts.push(c);
            }
            Act::Subset(keys) => {
                if let Ok(Ok(s)) = subset(&ts[h], keys) {
                    ts.push(s);
                }
                asked = true;
            }
            Act::Json => {
                let text = serde_json::to_string(&ts[h]).map_err(|e| e.to_string())?;
                let mut d = serde_json::Deserializer::from_str(&text);
                d.disable_recursion_limit();
                ts.push(T::deserialize(&mut d).map_err(|e| format!("{what}: {e}"))?);
            }
            Act::Bincode => {
                let bytes = bincode::serialize(&ts[h]).map_err(|e| e.to_string())?;
                ts.push(bincode::deserialize(&bytes).map_err(|e| format!("{what}: {e}"))?);
            }
            Act::Diff(o) => {
                let [a, b] = [h, other(o)]
                    .map(|i| (&ts[i] as &dyn Any).downcast_ref::<HashedPartialTrie>());
                if let (Some(a), Some(b)) = (a, b) {
                    let _ = guarded(|| create_diff_between_tries(a, b));
                }
                asked = true;
            }
            Act::Edit(route, e) => {
                edit(below_mut(&mut ts[h], route), e);
                mutation = true;
            }
            Act::CopyFrom(o) => ts[h] = ts[other(o)].clone(),
            Act::NodeFrom(o) => {
                let node: Node<T> = (*ts[other(o)]).clone();
                *ts[h].deref_mut() = node;
                mutation = true;
            }
            Act::Swap(o) => {
                let o = other(o);
                if o != h {
                    let (lo, hi) = (o.min(h), o.max(h));
                    let (a, b) = ts.split_at_mut(hi);
                    std::mem::swap(a[lo].deref_mut(), b[0].deref_mut());
                    mutation = true;
                }
            }
            Act::Drop => {
                if len >= 2 {
                    ts.remove(h);
                }
            }
        }
        changed_after |= mutation && asked;
    }
    for (i, t) in ts.iter().enumerate() {
        all_nodes(t, &format!("trie {i} at the end"))?;
    }

    obs.nontrivial = changed_after && compared >= 2;
    obs.label_if(ts.len() >= 3, "3 or more tries at the end");
    obs.label_if(
        case.acts.iter().any(|(_, a)| matches!(a, Act::Edit(..))),
        "direct edit",
    );
    obs.label_if(
        case.acts.iter().any(|(_, a)| matches!(a, Act::Json | Act::Bincode)),
        "serialised",
    );
    Ok(())
}
