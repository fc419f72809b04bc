//! A subset trie keeps exactly the nodes it needs.

use std::collections::BTreeSet;

use proptest::strategy::BoxedStrategy;

use super::c08::{base_and_request, Case};
use crate::{
    both, gen,
    lib_ops::*,
    refmodel::{Key, RefNode},
    runner::{Obs, Property, Tier, Verdict},
};

pub struct C09;

impl Property for C09 {
    type Case = Case;
    const ID: &'static str = "C09";
    const QUICK: u64 = 200_000;
    const RULE: &'static str = "a case is a base trie (with hash entries in half of the cases) and a collection of requested keys (rarely repeated up to 65536 times); the extracted structure is compared with the reference trie in which the topmost unvisited nodes with encodings of at least 32 bytes are hash nodes; both trie types; non-trivial if the extraction succeeds, at least one node is hashed out and the root is not; distinct by the hash of the whole case";

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        base_and_request()
    }

    fn check(case: &Case, obs: &mut Obs) -> Verdict {
        both!(extract, case, obs);
        Ok(())
    }
}

/// The subset that the property describes.
pub fn expected(full: &RefNode, request: &[Key]) -> RefNode {
    let visited: BTreeSet<Vec<u8>> = request
        .iter()
        .flat_map(|k| full.visit(&k.0).into_iter().map(|(at, _)| at))
        .collect();
    full.hash_out(&mut Vec::new(), &mut |at, n| {
        n.is_large() && !visited.contains(at)
    })
}

fn extract<N: Trie>(case: &Case, obs: &mut Obs) -> Verdict {
    let (list, c) = gen::compatible(&case.entries);
    let full = RefNode::build(&c);
    if case.request.iter().any(|k| full.hits_hash(&k.0) == Some(true)) {
        obs.label("refused");
        return Ok(());
    }
    let base: N = no_panic(|| "base trie".into(), || build(&list))?;
    if case.hash_first {
        no_panic(|| "hash of the base trie".into(), || base.hash())?;
    }
    let want = expected(&full, &case.request);
    match subset(&base, &case.whole_request())? {
        Ok(sub) => same_structure(&sub, &want, "subset")?,
        Err(e) => return Err(format!("{}: extraction failed: {e}", name::<N>())),
    }

    obs.nontrivial = want != full && !matches!(want, RefNode::Hash(_));
    obs.label_if(want == full, "nothing hashed out");
    obs.label_if(matches!(want, RefNode::Hash(_)), "root hashed out");
    let visited: BTreeSet<Vec<u8>> = case
        .request
        .iter()
        .flat_map(|k| full.visit(&k.0).into_iter().map(|(at, _)| at))
        .collect();
    obs.label_if(
        want.nodes()
            .iter()
            .any(|(at, n)| !visited.contains(at) && !matches!(n, RefNode::Hash(_))),
        "small unvisited node kept",
    );
    obs.label_if(
        want.nodes()
            .iter()
            .any(|(_, n)| matches!(n, RefNode::Ext(_, c) if matches!(**c, RefNode::Hash(_)))),
        "hash below a kept extension",
    );
    Ok(())
}
