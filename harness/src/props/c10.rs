//! Batch subset extraction equals extracting each subset alone.

use eth_trie_utils::trie_subsets::create_trie_subsets;
use proptest::{collection::vec, prelude::*, strategy::BoxedStrategy};
use serde::{Deserialize, Serialize};

use crate::{
    both, gen,
    gen::E,
    lib_ops::*,
    refmodel::{Key, RefNode},
    runner::{Obs, Property, Tier, Verdict},
};

pub struct C10;

#[derive(Clone, Debug, Deserialize, Hash, Serialize)]
pub struct Case {
    entries: Vec<(Key, E)>,
    requests: Vec<Vec<Key>>,
    hash_first: bool,
    /// How the collections are given.
    #[serde(default)]
    form: u8,
    /// Repeat the list of collections this often.
    #[serde(default)]
    repeat: u16,
}

impl Property for C10 {
    type Case = Case;
    const ID: &'static str = "C10";
    const QUICK: u64 = 160_000;
    const RULE: &'static str = "a case is a base trie and a list of 0 to 6 key collections, which one case in 300 repeats 50 to 400 times, given as iterators of known or unknown length or as lists; the batch result is compared with the separate extractions; both trie types; non-trivial if at least 2 collections give different subsets; distinct by the hash of the whole case";

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let base = prop_oneof![
            3 => gen::entries(gen::val(), 0),
            1 => gen::entries(gen::val(), 1),
        ];
        let repeat = prop_oneof![300 => Just(0u16), 1 => 50..=400u16];
        (base, vec(gen::key_picks(6), 0..=6), any::<bool>(), 0..3u8, repeat)
            .prop_map(|((keys, entries), picks, hash_first, form, repeat)| Case {
                requests: picks
                    .iter()
                    .map(|ps| ps.iter().map(|p| p.near(&keys)).collect())
                    .collect(),
                // Long batches on small tries.
                repeat: if entries.len() <= 20 { repeat } else { 0 },
                entries,
                hash_first,
                form,
            })
            .boxed()
    }

    fn check(case: &Case, obs: &mut Obs) -> Verdict {
        both!(batch, case, obs);
        Ok(())
    }
}

fn batch<N: Trie>(case: &Case, obs: &mut Obs) -> Verdict {
    let (list, c) = gen::compatible(&case.entries);
    let full = RefNode::build(&c);
    let base: N = no_panic(|| "base trie".into(), || build(&list))?;
    if case.hash_first {
        no_panic(|| "hash of the base trie".into(), || base.hash())?;
    }

    let times = case.repeat.max(1) as usize;
    let all = no_panic(
        || format!("{}: batch extraction", name::<N>()),
        || {
            let rs = (0..times).flat_map(|_| case.requests.iter());
            match case.form {
                0 => create_trie_subsets(&base, rs.map(|ks| ks.iter().map(|k| k.nib()))),
                1 => create_trie_subsets(
                    &base,
                    rs.map(|ks| ks.iter().map(|k| k.nib()).filter(|_| true)),
                ),
                _ => create_trie_subsets(
                    &base,
                    rs.map(|ks| ks.iter().map(|k| k.nib()).collect::<Vec<_>>())
                        .collect::<Vec<_>>(),
                ),
            }
            .map_err(|e| e.to_string())
        },
    )?;
    same_structure(&base, &full, "base trie after the extraction")?;
    same_hash(&base, &full.hash(), "base trie after the extraction")?;

    let mut alone = Vec::new();
    for ks in &case.requests {
        alone.push(subset(&base, ks)?);
    }
    let all = match all {
        Err(e) => {
            obs.label("refused");
            return ensure(alone.iter().any(Result::is_err), || {
                format!("{}: batch extraction failed, no separate one does: {e}", name::<N>())
            });
        }
        Ok(a) => a,
    };
    ensure(alone.iter().all(Result::is_ok), || {
        format!("{}: batch extraction succeeded, a separate one fails", name::<N>())
    })?;
    let asked = alone.len() * times;
    ensure(all.len() == asked, || {
        format!("{}: {} subsets for {asked} collections", name::<N>(), all.len())
    })?;
    let mut shapes = Vec::new();
    for (i, (a, b)) in all.iter().zip(alone.iter().cycle()).enumerate() {
        let b = b.as_ref().map_err(|e| e.clone())?;
        let want = structure::<N>(b)?;
        same_structure(a, &want, &format!("subset {i} of the batch, against the separate one"))?;
        ensure(a == b, || format!("{}: subset {i} of the batch differs", name::<N>()))?;
        if i < alone.len() {
            shapes.push(want);
        }
    }

    obs.nontrivial = shapes.windows(2).any(|w| w[0] != w[1]);
    obs.label_if(all.len() > 256, "more than 256 collections");
    obs.label_if(shapes.len() >= 3, "3 or more collections");
    obs.label_if(
        case.requests.iter().skip(1).any(Vec::is_empty),
        "empty collection after another",
    );
    Ok(())
}
