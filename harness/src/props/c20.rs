//! Path queries report the true lookup path.

use eth_trie_utils::debug_tools::query::{get_path_from_query, DebugQueryParamsBuilder};
use proptest::{collection::vec, prelude::*, strategy::BoxedStrategy};
use serde::{Deserialize, Serialize};

use crate::{
    both, gen,
    gen::{Op, Pick, Val, E},
    lib_ops::*,
    refmodel::{Key, RefNode},
    runner::{Obs, Property, Tier, Verdict},
};

pub struct C20;

#[derive(Clone, Debug, Deserialize, Hash, Serialize)]
pub struct Case {
    entries: Vec<(Key, E)>,
    queries: Vec<(Key, Switches)>,
    /// Put a value under the first key, or take it out, and query again.
    #[serde(default)]
    change: bool,
}

#[derive(Clone, Copy, Debug, Deserialize, Hash, Serialize)]
pub enum Switches {
    /// The key alone as query.
    Default,
    Set {
        keys: bool,
        types: bool,
        extra: bool,
    },
}

impl Property for C20 {
    type Case = Case;
    const ID: &'static str = "C20";
    const QUICK: u64 = 300_000;
    const RULE: &'static str = "a case is a trie (both types, with hash entries in half of the cases) and up to 8 queries, each a key and output switches, the first one again after a change in half of the cases; non-trivial if the trie has at least 2 entries and some query visits at least 2 nodes; distinct by the hash of the whole case";

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let base = prop_oneof![
            1 => gen::entries(gen::val(), 0),
            1 => gen::entries(gen::val(), 2),
        ];
        let sw = prop_oneof![
            1 => Just(Switches::Default),
            4 => any::<[bool; 3]>().prop_map(|[keys, types, extra]| Switches::Set { keys, types, extra }),
        ];
        (base, vec((gen::pick(), any::<bool>(), sw), 1..=8), any::<bool>())
            .prop_map(|((keys, entries), qs, change)| {
                let queries = qs
                    .into_iter()
                    .map(|(p, near, sw): (Pick, bool, Switches)| match near {
                        true => (p.near(&keys), sw),
                        false => (p.exact(&keys), sw),
                    })
                    .collect();
                Case { entries, queries, change }
            })
            .boxed()
    }

    fn check(case: &Case, obs: &mut Obs) -> Verdict {
        both!(query, case, obs);
        Ok(())
    }
}

fn query<N: Trie>(case: &Case, obs: &mut Obs) -> Verdict {
    let (_, mut c) = gen::compatible(&case.entries);
    let root = RefNode::build(&c);
    let mut t: N = root.to_lib();
    for (k, sw) in &case.queries {
        ask(&t, &root, k, *sw)?;

        let path = root.visit(&k.0);
        obs.nontrivial |= c.len() >= 2 && path.len() >= 2;
        let last = path.last().unwrap().1;
        obs.label_if(root.get(&k.0).is_some(), "value found");
        match root.hits_hash(&k.0) {
            Some(true) => obs.label("runs below a hash node"),
            Some(false) => obs.label("ends at a hash node"),
            None => (),
        }
        obs.label_if(matches!(last, RefNode::Ext(..)), "ends within an extension");
        obs.label_if(matches!(last, RefNode::Empty), "ends at an empty slot");
        obs.label_if(
            matches!(last, RefNode::Branch(_, v) if v.is_empty()),
            "ends at a branch without a value",
        );
    }
    if let (true, Some((k, sw))) = (case.change, case.queries.first()) {
        let op = match c.contains_key(k) {
            true => Op::Del(k.clone()),
            false => Op::Ins(k.clone(), Val { len: 3, tag: 7, fill: 0 }),
        };
        if op_allowed(&c, &op) {
            ask(&t, &root, k, *sw)?;
            apply_lib(&mut t, &c, &op)?;
            apply_model(&mut c, &op);
            ask(&t, &RefNode::build(&c), k, *sw)?;
            obs.label("asked again after a change");
        }
    }
    Ok(())
}

fn ask<N: Trie>(t: &N, root: &RefNode, k: &Key, sw: Switches) -> Verdict {
    let text = no_panic(
        || format!("{}: query {k:?}", name::<N>()),
        || match sw {
            Switches::Default => get_path_from_query::<N, _>(t, k.nib()).to_string(),
            Switches::Set { keys, types, extra } => {
                let q = DebugQueryParamsBuilder::default()
                    .print_key_pieces(keys)
                    .print_node_type(types)
                    .print_node_specific_values(extra)
                    .build(k.nib());
                get_path_from_query::<N, _>(t, q).to_string()
            }
        },
    )?;
    compare(root, k, sw, &text).map_err(|e| format!("{}: query {k:?} {sw:?}: {e}\n{text}", name::<N>()))
}

fn compare(root: &RefNode, k: &Key, sw: Switches, text: &str) -> Verdict {
    let (keys, types, extra) = match sw {
        Switches::Default => (true, true, false),
        Switches::Set { keys, types, extra } => (keys, types, extra),
    };
    let line = |label: &str| {
        text.lines()
            .find_map(|l| l.strip_prefix(label))
            .map(|s| s.trim().to_string())
    };
    let want = format!("0x{}", k.digits());
    ensure(line("Queried Key:").as_deref() == Some(&want), || "wrong key".into())?;
    let found = root.get(&k.0).is_some() || root.hits_hash(&k.0) == Some(false);
    ensure(line("Node found:") == Some(found.to_string()), || {
        format!("'Node found' should be {found}")
    })?;

    let body = text.split("Query path:\n").nth(1).ok_or("no path")?;
    let segs: Vec<&str> = body.trim_end().split("\nV\n").collect();
    let path = root.visit(&k.0);
    ensure(segs.len() == path.len(), || {
        format!("{} nodes are listed, expected {}", segs.len(), path.len())
    })?;
    for (i, (seg, (at, node))) in segs.iter().zip(&path).enumerate() {
        let bad = |what: &str| format!("node {i} ({seg}): {what}");
        let open = seg.find('(').ok_or_else(|| bad("no parenthesis"))?;
        let want = if types { node.type_name() } else { "" };
        ensure(&seg[..open] == want, || bad(&format!("type should be '{want}'")))?;
        let inner = seg[open + 1..]
            .strip_suffix(')')
            .ok_or_else(|| bad("no closing parenthesis"))?;

        let (key_part, extra_part) = match inner.find("Extra Seg Info:") {
            Some(p) => (&inner[..p], Some(inner[p + "Extra Seg Info:".len()..].trim())),
            None => (inner, None),
        };
        let key_part = key_part.trim_end_matches([',', ' ']);
        let piece: Vec<String> = match node {
            RefNode::Empty | RefNode::Hash(_) => vec!["".into()],
            RefNode::Leaf(n, _) | RefNode::Ext(n, _) => {
                vec![format!("key: 0x{}", Key(n.clone()).digits())]
            }
            RefNode::Branch(..) => match k.0.get(at.len()) {
                Some(n) => vec![format!("key: 0x{n:x}")],
                // The key ends here.
                None => vec!["".into(), "key: 0x".into()],
            },
        };
        let ok = match keys {
            true => piece.iter().any(|p| p == key_part),
            false => key_part.is_empty(),
        };
        ensure(ok, || bad(&format!("key piece should be {piece:?} (shown: {keys})")))?;

        let want = match node {
            RefNode::Empty | RefNode::Ext(..) => None,
            RefNode::Hash(h) => Some(format!("Hash: {}", hex32(h))),
            RefNode::Leaf(_, v) => Some(format!(
                "Leaf Value: {}",
                v.iter().map(|b| format!("{b:02x}")).collect::<String>()
            )),
            RefNode::Branch(cs, _) => {
                let used: Vec<bool> = cs.iter().map(|c| *c != RefNode::Empty).collect();
                let bits: String = used.iter().rev().map(|u| if *u { '1' } else { '0' }).collect();
                let n = used.iter().filter(|u| **u).count();
                Some(format!("mask: 0b{bits} (Num Children: {n})"))
            }
        };
        let want = want.filter(|_| extra);
        ensure(extra_part == want.as_deref(), || {
            bad(&format!("extra information should be {want:?}"))
        })?;
    }
    Ok(())
}
