//! Tries put together from nodes are as good as any other.

use std::{collections::HashMap, sync::Arc};

use eth_trie_utils::partial_trie::{Node, WrappedNode};
use ethereum_types::H256;
use proptest::{collection::vec, prelude::*, strategy::BoxedStrategy};
use serde::{Deserialize, Serialize};

use crate::{
    both, gen,
    gen::{Op, E},
    lib_ops::*,
    refmodel::{nib, Contents, Entry, Key, RefNode},
    runner::{Obs, Property, Tier, Verdict},
};

pub struct C27;

/// How a node is made.
#[derive(Clone, Copy, Debug, Deserialize, Eq, Hash, PartialEq, Serialize)]
pub enum Make {
    New,
    From,
    Wrap,
    Assign,
    /// Use an equal sub-trie again, if there is one already.
    Share,
    /// Take it from another trie, built by inserts.
    Graft,
}

#[derive(Clone, Debug, Deserialize, Hash, Serialize)]
pub struct Case {
    keys: Vec<Key>,
    entries: Vec<(Key, E)>,
    /// Consulted for each node, children first; whether it is hashed at once.
    makes: Vec<(Make, bool)>,
    more: Vec<Op>,
    hash_after: u8,
    subset: Vec<Key>,
}

impl Property for C27 {
    type Case = Case;
    const ID: &'static str = "C27";
    const QUICK: u64 = 60_000;
    const RULE: &'static str = "a case is a set of entries (with hash entries), a way to make each node, a continuation and a key collection, on both trie types; non-trivial if the trie has at least 3 nodes that are not empty and the continuation at least one step; distinct by the hash of the whole case";

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let make = prop_oneof![
            1 => Just(Make::New),
            1 => Just(Make::From),
            1 => Just(Make::Wrap),
            1 => Just(Make::Assign),
            4 => Just(Make::Share),
            1 => Just(Make::Graft),
        ];
        let values = prop_oneof![
            2 => gen::small_val(),
            1 => gen::val(),
        ];
        (
            prop_oneof![
                1 => gen::entries(values.clone().boxed(), 0),
                1 => gen::entries(values.boxed(), 2),
            ],
            vec((make, prop::bool::weighted(0.3)), 1..=12),
            vec((gen::pick(), prop::option::of(gen::small_val())), 0..=8),
            any::<u8>(),
            gen::key_picks(6),
            // The whole trie again below several prefixes.
            prop_oneof![
                1 => Just(Vec::new()),
                1 => vec(vec(0..16u8, 1..=3), 1..=4),
            ],
        )
            .prop_map(|((mut keys, mut entries), makes, more, hash_after, subset, below)| {
                if !below.is_empty() && keys.len() < 200 {
                    let again = |k: &Key| {
                        let k = k.clone();
                        below
                            .iter()
                            .map(move |p| Key([&p[..], &k.0].concat()))
                            .filter(|k| k.0.len() <= 64)
                            .collect::<Vec<_>>()
                    };
                    keys = keys.iter().flat_map(&again).collect();
                    entries = entries
                        .iter()
                        .flat_map(|(k, e)| again(k).into_iter().map(|k| (k, e.clone())))
                        .collect();
                    if keys.is_empty() {
                        keys.push(Key(vec![]));
                    }
                }
                Case {
                    more: more
                        .into_iter()
                        .map(|(p, v)| match v {
                            Some(v) => Op::Ins(p.exact(&keys), v),
                            None => Op::Del(p.near(&keys)),
                        })
                        .collect(),
                    subset: subset.iter().map(|p| p.near(&keys)).collect(),
                    keys,
                    entries,
                    makes,
                    hash_after,
                }
            })
            .boxed()
    }

    fn check(case: &Case, obs: &mut Obs) -> Verdict {
        both!(assembled, case, obs);
        Ok(())
    }
}

struct Workshop<'a, N> {
    makes: &'a [(Make, bool)],
    made: usize,
    pieces: HashMap<&'a RefNode, WrappedNode<N>>,
    shared: usize,
}

impl<'a, N: Trie> Workshop<'a, N> {
    fn make(&mut self, r: &'a RefNode) -> WrappedNode<N> {
        let node = match r {
            RefNode::Empty => Node::Empty,
            RefNode::Hash(h) => Node::Hash(H256(*h)),
            RefNode::Branch(cs, v) => {
                let children: Vec<_> = cs.iter().map(|c| self.make(c)).collect();
                Node::Branch {
                    children: children.try_into().unwrap(),
                    value: v.clone(),
                }
            }
            RefNode::Ext(n, c) => Node::Extension {
                nibbles: nib(n),
                child: self.make(c),
            },
            RefNode::Leaf(n, v) => Node::Leaf {
                nibbles: nib(n),
                value: v.clone(),
            },
        };
        let (make, hashed) = match *r {
            RefNode::Empty => (Make::Share, false),
            _ => {
                self.made += 1;
                self.makes[(self.made - 1) % self.makes.len()]
            }
        };
        let out: WrappedNode<N> = match (make, self.pieces.get(r)) {
            (Make::Share, Some(p)) => {
                self.shared += usize::from(*r != RefNode::Empty);
                p.clone()
            }
            (Make::New | Make::Share, _) => Arc::new(Box::new(N::new(node))),
            (Make::From, _) => Arc::new(Box::new(N::from(node))),
            (Make::Wrap, _) => node.into(),
            (Make::Graft, _) if !matches!(r, RefNode::Hash(_)) => {
                let es: Vec<(Key, Entry)> = r.entries_in_order();
                Arc::new(Box::new(build(&es)))
            }
            (Make::Assign | Make::Graft, _) => {
                let mut t = N::default();
                *t = node;
                Arc::new(Box::new(t))
            }
        };
        if hashed {
            out.hash();
        }
        self.pieces.entry(r).or_insert_with(|| out.clone());
        out
    }
}

fn compare<N: Trie>(t: &N, c: &Contents, keys: &[Key], what: &str) -> Verdict {
    let want = RefNode::build(c);
    same_structure(t, &want, what)?;
    same_hash(t, &want.hash(), what)?;
    let want_items = want.entries_in_order();
    let got = items(t, want_items.len())?;
    ensure(got == want_items, || {
        format!("{}: {what}: items are {got:02x?}, expected {want_items:02x?}", name::<N>())
    })?;
    same_lookups(t, c, &gen::probes(&keys[..keys.len().min(40)]), what)?;
    same_lookups(t, c, c.keys(), what)
}

fn assembled<N: Trie>(case: &Case, obs: &mut Obs) -> Verdict {
    let (es, mut c) = gen::compatible(&case.entries);
    let r = RefNode::build(&c);
    if case.makes.is_empty() {
        return Ok(());
    }
    let mut w = Workshop {
        makes: &case.makes,
        made: 0,
        pieces: HashMap::new(),
        shared: 0,
    };
    let root: WrappedNode<N> = no_panic(|| format!("{}: making nodes", name::<N>()), || w.make(&r))?;
    let mut t: N = (**root).clone();
    let u: N = no_panic(|| format!("{}: inserts", name::<N>()), || build(&es))?;

    ensure(t == u && u == t && *t == *u, || {
        format!("{}: differs from the trie built by inserts", name::<N>())
    })?;
    let what = "subset of the assembled trie";
    match (subset(&t, &case.subset)?, subset(&u, &case.subset)?) {
        (Ok(a), Ok(b)) => {
            ensure(a == b, || format!("{}: {what} differs", name::<N>()))?;
            same_hash(&a, &r.hash(), what)?;
        }
        (Err(_), Err(_)) => (),
        (a, b) => return Err(format!("{}: {what}: {:?} and {:?}", name::<N>(), a.err(), b.err())),
    }
    compare(&t, &c, &case.keys, "assembled trie")?;

    let first = c.clone();
    let mut steps = 0;
    for (i, op) in case.more.iter().enumerate() {
        if op_allowed(&c, op) {
            apply_lib(&mut t, &c, op)?;
            apply_model(&mut c, op);
            steps += 1;
            let same = c == first;
            ensure((t == **root) == same && (**root == t) == same, || {
                format!(
                    "{}: after {op:?}: compared with the trie before: {}, {}",
                    name::<N>(),
                    t == **root,
                    **root == t
                )
            })?;
        }
        if i == case.hash_after as usize % 8 {
            same_hash(&t, &RefNode::build(&c).hash(), "while going on")?;
        }
    }
    compare(&t, &c, &case.keys, "assembled trie after going on")?;

    // The pieces are as they were.
    for (r, p) in &w.pieces {
        same_structure::<N>(p, r, "piece after the trie went on")?;
        same_hash::<N>(p, &r.hash(), "piece after the trie went on")?;
    }

    obs.nontrivial = w.made >= 3 && steps >= 1;
    obs.label_if(w.shared > 0, "a sub-trie in several places");
    obs.label_if(r.nodes().iter().any(|(_, n)| matches!(n, RefNode::Hash(_))), "hash node");
    obs.label_if(case.makes.iter().any(|m| m.1), "pieces hashed before");
    obs.label_if(case.makes.iter().any(|m| m.0 == Make::Graft), "part of another trie");
    Ok(())
}
