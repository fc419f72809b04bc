//! The root hash is the Ethereum MPT root of the contents.

use std::sync::Arc;

use eth_trie::{EthTrie, MemoryDB, Trie as _};
use eth_trie_utils::partial_trie::Node;
use ethereum_types::H256;
use proptest::{prelude::*, strategy::BoxedStrategy};
use serde::{Deserialize, Serialize};

use crate::{
    both, gen,
    gen::Op,
    lib_ops::*,
    refmodel::{Contents, Entry, RefNode},
    runner::{Obs, Property, Tier, Verdict},
};

pub struct C02;

#[derive(Clone, Debug, Deserialize, Hash, Serialize)]
pub struct Case {
    ops: Vec<Op>,
}

impl Property for C02 {
    type Case = Case;
    const ID: &'static str = "C02";
    const QUICK: u64 = 100_000;
    const RULE: &'static str = "a case is an operation history, seldom with hash nodes, run on both trie types; the root hash is compared with the reference root of the contents, each node's hash with the reference hash of its structure, and on whole-byte keys the reference root with the eth_trie crate; non-trivial if the final trie holds at least 3 entries; distinct by the hash of the whole case";

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        prop_oneof![
            4 => gen::history(gen::val(), false).prop_map(|(_, ops)| ops),
            1 => gen::history(gen::val(), true).prop_map(|(_, ops)| ops),
            1 => gen::loaded_history(gen::val(), false, 20).prop_map(|(_, ops)| ops),
            3 => gen::value_entries(gen::val_incl_huge())
                .prop_map(|(_, es)| es.into_iter().map(|(k, v)| Op::Ins(k, v)).collect()),
        ]
        .prop_map(|ops| Case { ops })
        .boxed()
    }

    fn check(case: &Case, obs: &mut Obs) -> Verdict {
        both!(hashes, case, obs);
        Ok(())
    }
}

fn hashes<N: Trie>(case: &Case, obs: &mut Obs) -> Verdict {
    let (t, c) = run_history::<N>(&case.ops)?;
    let want = RefNode::build(&c);
    second_opinion(&c, &want, obs);
    same_hash(&t, &want.hash(), "root")?;
    every_node(&t, &structure::<N>(&t)?)?;

    obs.nontrivial = c.len() >= 3;
    let nodes = want.nodes();
    obs.label_if(c.values().any(|e| e.is_hash()), "hash node");
    obs.label_if(
        nodes.iter().skip(1).any(|(_, n)| !n.is_large()),
        "inlined node",
    );
    obs.label_if(
        nodes
            .iter()
            .any(|(_, n)| !matches!(n, RefNode::Hash(_)) && matches!(n.encode().len(), 31..=33)),
        "encoding of 31 to 33 bytes",
    );
    obs.label_if(
        nodes
            .iter()
            .any(|(_, n)| matches!(n, RefNode::Branch(_, v) if !v.is_empty())),
        "branch value",
    );
    obs.label_if(
        c.values()
            .any(|e| matches!(e, Entry::Val(v) if v.len() >= 56)),
        "long RLP string",
    );
    Ok(())
}

fn every_node<N: Trie>(t: &N, r: &RefNode) -> Verdict {
    same_hash(t, &r.hash(), r.type_name())?;
    // The form in which a parent gets it.
    let encoded: H256 = (&no_panic(|| "encoded node".into(), || t.hash_intern())?).into();
    ensure(encoded.0 == r.hash(), || {
        format!("{}: encoded {} has the hash {encoded:x}", name::<N>(), r.type_name())
    })?;
    match (&**t, r) {
        (Node::Branch { children, .. }, RefNode::Branch(cs, _)) => {
            for (a, b) in children.iter().zip(cs.iter()) {
                every_node::<N>(a, b)?;
            }
        }
        (Node::Extension { child, .. }, RefNode::Ext(_, c)) => every_node::<N>(child, c)?,
        _ => (),
    }
    Ok(())
}

/// The reference must agree with another implementation where that one
/// applies; a disagreement is a fault of the check, not of the library.
fn second_opinion(c: &Contents, want: &RefNode, obs: &mut Obs) {
    if c.is_empty() || c.values().any(|e| e.is_hash()) || c.keys().any(|k| k.0.is_empty() || k.0.len() % 2 == 1) {
        return;
    }
    let mut t = EthTrie::new(Arc::new(MemoryDB::new(true)));
    for (k, e) in c {
        let bytes: Vec<u8> = k.0.chunks(2).map(|p| p[0] << 4 | p[1]).collect();
        if let Entry::Val(v) = e {
            t.insert(&bytes, v).expect("eth_trie insert");
        }
    }
    let root = t.root_hash().expect("eth_trie root");
    if root.0 != want.hash() {
        eprintln!("the reference model and eth_trie disagree on {c:?}");
        std::process::exit(3);
    }
    obs.label("confirmed by eth_trie");
}
