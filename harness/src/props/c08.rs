//! A subset trie keeps the root hash and answers for its keys.

use proptest::{prelude::*, strategy::BoxedStrategy};
use serde::{Deserialize, Serialize};

use crate::{
    both, gen,
    gen::E,
    lib_ops::*,
    refmodel::{Key, RefNode},
    runner::{Obs, Property, Tier, Verdict},
};

pub struct C08;

#[derive(Clone, Debug, Deserialize, Hash, Serialize)]
pub struct Case {
    pub keys: Vec<Key>,
    pub entries: Vec<(Key, E)>,
    pub request: Vec<Key>,
    /// Ask for the base trie's hash before.
    pub hash_first: bool,
    /// Request the first key this many more times.
    #[serde(default)]
    pub again: u32,
}

impl Case {
    pub fn whole_request(&self) -> Vec<Key> {
        let again = self.request.first().into_iter().cycle().take(self.again as usize);
        self.request.iter().chain(again).cloned().collect()
    }
}

pub fn base_and_request() -> BoxedStrategy<Case> {
    let base = prop_oneof![
        1 => gen::entries(gen::val(), 0),
        1 => gen::entries(gen::val(), 2),
    ];
    // Up to about a power of two of requests.
    let again = prop_oneof![
        600 => Just(0),
        1 => (prop_oneof![6 => Just(8u32), 3 => 9..=12u32, 1 => Just(16)], 0..=6u32)
            .prop_map(|(n, d)| (1 << n) - 1 - d),
    ];
    (base, gen::key_picks(12), any::<bool>(), again)
        .prop_map(|((keys, entries), picks, hash_first, again)| Case {
            again,
            request: picks.iter().map(|p| p.near(&keys)).collect(),
            keys,
            entries,
            hash_first,
        })
        .boxed()
}

impl Property for C08 {
    type Case = Case;
    const ID: &'static str = "C08";
    const QUICK: u64 = 150_000;
    const RULE: &'static str = "a case is a base trie (with hash entries in half of the cases) and a collection of requested keys, present, absent or prefixes, with repeats (rarely up to 65536); both trie types; non-trivial if the base has at least 3 entries, at least one key is requested and the extraction succeeds with something hashed out; distinct by the hash of the whole case";

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        base_and_request()
    }

    fn check(case: &Case, obs: &mut Obs) -> Verdict {
        both!(extract, case, obs);
        Ok(())
    }
}

fn extract<N: Trie>(case: &Case, obs: &mut Obs) -> Verdict {
    let (list, c) = gen::compatible(&case.entries);
    let full = RefNode::build(&c);
    let base: N = no_panic(|| "base trie".into(), || build(&list))?;
    if case.hash_first {
        no_panic(|| "hash of the base trie".into(), || base.hash())?;
    }

    let res = subset(&base, &case.whole_request())?;
    same_structure(&base, &full, "base trie after the extraction")?;
    same_hash(&base, &full.hash(), "base trie after the extraction")?;

    let fails = case.request.iter().any(|k| full.hits_hash(&k.0) == Some(true));
    let sub = match res {
        Err(e) => {
            obs.label("refused");
            return ensure(fails, || format!("{}: extraction failed: {e}", name::<N>()));
        }
        Ok(s) => s,
    };
    ensure(!fails, || {
        format!("{}: a key runs into a hashed-out part, but the extraction succeeded", name::<N>())
    })?;

    same_hash(&sub, &base.hash().0, "subset")?;
    for k in &case.request {
        let (got, want) = (get(&sub, k)?, get(&base, k)?);
        ensure(got == want, || {
            format!("{}: subset gives {got:02x?} for the requested {k:?}, base {want:02x?}", name::<N>())
        })?;
        let want = full.get(&k.0).map(|v| v.to_vec());
        ensure(got == want, || {
            format!("{}: subset gives {got:02x?} for the requested {k:?}, contents {want:02x?}", name::<N>())
        })?;
        if full.hits_hash(&k.0).is_some() {
            continue;
        }
        let mut w = sub.clone();
        no_panic(
            || format!("{}: inserting the requested {k:?} into the subset", name::<N>()),
            || w.insert(k.nib(), vec![1, 2, 3]),
        )?;
        let mut w = sub.clone();
        no_panic(
            || format!("{}: deleting the requested {k:?} from the subset", name::<N>()),
            || w.delete(k.nib()),
        )?;
    }
    let mut others = case.keys.clone();
    others.extend(case.request.iter().cloned());
    for k in gen::probes(&others) {
        let got = get(&sub, &k)?;
        let want = full.get(&k.0).map(|v| v.to_vec());
        ensure(got.is_none() || got == want, || {
            format!("{}: subset gives {got:02x?} for {k:?}, base {want:02x?}", name::<N>())
        })?;
    }
    let mut again = case.request.clone();
    again.reverse();
    again.extend(case.request.iter().cloned());
    let other = subset(&base, &again)?;
    ensure(other.as_ref().is_ok_and(|o| *o == sub), || {
        format!("{}: a different order and repeats of the keys give another subset", name::<N>())
    })?;

    let s = structure::<N>(&sub)?;
    let hashes = s.contents().values().filter(|e| e.is_hash()).count();
    let before = c.values().filter(|e| e.is_hash()).count();
    obs.nontrivial = c.len() >= 3 && !case.request.is_empty() && s != full;
    obs.label_if(s != full, "something hashed out");
    obs.label_if(before > 0 && hashes > 0, "base with hash nodes");
    obs.label_if(
        case.request.iter().any(|k| full.get(&k.0).is_none()),
        "absent key requested",
    );
    obs.label_if(
        case.request.iter().any(|k| {
            !c.contains_key(k) && c.range(k.clone()..).next().is_some_and(|(o, _)| k.is_prefix_of(o))
        }),
        "absent prefix of a stored key requested",
    );
    obs.label_if(
        case.request.iter().any(|k| full.hits_hash(&k.0) == Some(false)),
        "key ending at a hash node requested",
    );
    Ok(())
}
