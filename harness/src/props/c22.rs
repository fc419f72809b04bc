//! A reported difference says where it is.

use eth_trie_utils::{
    debug_tools::diff::create_diff_between_tries,
    partial_trie::HashedPartialTrie,
};
use proptest::strategy::BoxedStrategy;

use super::c19;
use crate::{
    lib_ops::*,
    refmodel::{unkey, Key, RefNode},
    runner::{Obs, Property, Tier, Verdict},
};

pub struct C22;

impl Property for C22 {
    type Case = c19::Case;
    const ID: &'static str = "C22";
    const QUICK: u64 = 400_000;
    const RULE: &'static str = "a case is a pair of caching tries, made as for C19; non-trivial if the reported difference is not at the root; distinct by the hash of the whole case";

    fn strategy(tier: Tier) -> BoxedStrategy<c19::Case> {
        c19::C19::strategy(tier)
    }

    fn check(case: &c19::Case, obs: &mut Obs) -> Verdict {
        let (ra, rb) = case.pair();
        let a: HashedPartialTrie = ra.to_lib();
        let b: HashedPartialTrie = rb.to_lib();
        let diff = no_panic(|| "diff".into(), || create_diff_between_tries(&a, &b))?;
        let Some(point) = &diff.latest_diff_res else {
            return Ok(());
        };
        let text = no_panic(|| "printing".into(), || diff.to_string())?;
        let ctx = |e: String| format!("reported: {text}\n{e}");
        let key = unkey(&point.key).map_err(|e| ctx(format!("key: {e}")))?;

        for (root, who) in [(&ra, "A"), (&rb, "B")] {
            let above = above(root, &key)
                .ok_or_else(|| ctx(format!("{who} has no node at the reported key")))?;
            ensure(point.depth == above.len(), || {
                ctx(format!("depth is {}, but {who} has {} nodes above", point.depth, above.len()))
            })?;
            let path = no_panic(|| "printing".into(), || point.path.to_string())?;
            let got: Vec<&str> = match path.is_empty() {
                true => vec![],
                false => path.split(" --> ").collect(),
            };
            ensure(
                got.len() == above.len() && got.iter().zip(&above).all(|(g, w)| w.iter().any(|w| w == g)),
                || ctx(format!("path is {got:?}, but {who} has {above:?} above")),
            )?;
            for part in [format!("depth: {}", above.len()), format!("({path})")] {
                ensure(text.contains(&part), || ctx(format!("the printed form lacks '{part}'")))?;
            }
            obs.nontrivial = !above.is_empty();
            obs.label_if(above.is_empty(), "at the root");
            obs.label_if(above.len() >= 3, "3 or more nodes above");
        }
        Ok(())
    }
}

/// The nodes above the one at `key`, each in the forms it may be printed in.
fn above(root: &RefNode, key: &Key) -> Option<Vec<Vec<String>>> {
    let mut out = Vec::new();
    let (mut n, mut rest) = (root, &key.0[..]);
    while !rest.is_empty() {
        match n {
            RefNode::Branch(cs, _) => {
                let d = rest[0];
                out.push(vec![
                    format!("Branch({d})"),
                    format!("Branch({d:x})"),
                    format!("Branch(0x{d:x})"),
                ]);
                n = &cs[d as usize];
                rest = &rest[1..];
            }
            RefNode::Ext(ns, c) if rest.starts_with(ns) => {
                out.push(vec![format!("Extension(0x{})", Key(ns.clone()).digits())]);
                n = c;
                rest = &rest[ns.len()..];
            }
            _ => return None,
        }
    }
    Some(out)
}
