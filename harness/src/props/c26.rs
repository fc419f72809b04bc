//! A failure of the writer is passed on when printing.

use std::fmt::{self, Write};

use eth_trie_utils::{
    debug_tools::{
        diff::create_diff_between_tries,
        query::{get_path_from_query, DebugQueryParamsBuilder},
        stats::{get_trie_stats, get_trie_stats_with_name},
    },
    nibbles::Nibbles,
    partial_trie::HashedPartialTrie,
    trie_subsets::create_trie_subset,
};
use proptest::{prelude::*, strategy::BoxedStrategy};
use serde::{Deserialize, Serialize};

use super::c19;
use crate::{
    gen,
    lib_ops::*,
    refmodel::Key,
    runner::{Obs, Property, Tier, Verdict},
};

pub struct C26;

#[derive(Clone, Debug, Deserialize, Hash, Serialize)]
pub struct Case {
    pair: c19::Case,
    key: Key,
    switches: (bool, bool, bool),
    named: bool,
    fail: Fail,
}

#[derive(Clone, Copy, Debug, Deserialize, Hash, Serialize)]
pub enum Fail {
    /// This write alone fails (counted round the number of writes).
    Once(u16),
    /// All from this one on fail.
    From(u16),
    /// There is room for so many bytes only.
    Full(u16),
}

impl Property for C26 {
    type Case = Case;
    const ID: &'static str = "C26";
    const QUICK: u64 = 160_000;
    const RULE: &'static str = "a case is a pair of tries, made as for C19, a key, output switches and a way for the writer to fail; the diff and its parts, a path query, the statistics and their comparison, the key and errors are printed into a writer that fails that way; non-trivial if some text was written in at least 3 pieces of which one failed; distinct by the hash of the whole case";

    fn strategy(tier: Tier) -> BoxedStrategy<Case> {
        let fail = prop_oneof![
            4 => any::<u16>().prop_map(Fail::Once),
            1 => any::<u16>().prop_map(Fail::From),
            1 => any::<u16>().prop_map(Fail::Full),
        ];
        let key = (gen::universe(), gen::pick());
        (c19::C19::strategy(tier), key, any::<(bool, bool, bool)>(), any::<bool>(), fail)
            .prop_map(|(pair, (u, p), switches, named, fail)| {
                // Mostly a key of the first trie.
                let keys = pair.keys();
                let key = match keys.is_empty() {
                    true => p.near(&u),
                    false => p.near(&keys),
                };
                Case { pair, key, switches, named, fail }
            })
            .boxed()
    }

    fn check(case: &Case, obs: &mut Obs) -> Verdict {
        let (ra, rb) = case.pair.pair();
        let a: HashedPartialTrie = ra.to_lib();
        let b: HashedPartialTrie = rb.to_lib();
        let fail = case.fail;

        let diff = no_panic(|| "diff".into(), || create_diff_between_tries(&a, &b))?;
        print("diff", fail, obs, |w| write!(w, "{diff}"))?;
        if let Some(p) = &diff.latest_diff_res {
            print("point of difference", fail, obs, |w| write!(w, "{p}"))?;
            print("path", fail, obs, |w| write!(w, "{}", p.path))?;
            print("node of A", fail, obs, |w| write!(w, "{}", p.a_info))?;
            print("node of B", fail, obs, |w| write!(w, "{}", p.b_info))?;
        }
        let (keys, types, extra) = case.switches;
        let q = no_panic(
            || "query".into(),
            || {
                let q = DebugQueryParamsBuilder::default()
                    .print_key_pieces(keys)
                    .print_node_type(types)
                    .print_node_specific_values(extra)
                    .build(case.key.nib());
                get_path_from_query::<HashedPartialTrie, _>(&a, q)
            },
        )?;
        print("query", fail, obs, |w| write!(w, "{q}"))?;
        let (sa, sb) = no_panic(
            || "statistics".into(),
            || match case.named {
                true => (
                    get_trie_stats_with_name(&a, "first".into()),
                    get_trie_stats_with_name(&b, "second".into()),
                ),
                false => (get_trie_stats(&a), get_trie_stats(&b)),
            },
        )?;
        print("statistics", fail, obs, |w| write!(w, "{sa}"))?;
        let cmp = no_panic(|| "comparison".into(), || sa.compare(&sb))?;
        print("comparison", fail, obs, |w| write!(w, "{cmp}"))?;

        let k = case.key.nib();
        print("key", fail, obs, |w| write!(w, "{k}"))?;
        print("key {:?}", fail, obs, |w| write!(w, "{k:?}"))?;
        print("key {:x}", fail, obs, |w| write!(w, "{k:x}"))?;
        print("key {:X}", fail, obs, |w| write!(w, "{k:X}"))?;

        if let Err(e) = no_panic(|| "subset".into(), || create_trie_subset(&a, [k]))? {
            print("error of a subset", fail, obs, |w| write!(w, "{e}"))?;
            obs.label("error of a subset");
        }
        if let Err(e) = Nibbles::from_bytes_be(&[1; 33]) {
            print("error of from_bytes_be", fail, obs, |w| write!(w, "{e}"))?;
        }
        if let Err(e) = Nibbles::from_hex_prefix_encoding(&[0xff]) {
            print("error of from_hex_prefix_encoding", fail, obs, |w| write!(w, "{e}"))?;
        }
        Ok(())
    }
}

#[derive(Default)]
struct Writer {
    text: String,
    calls: usize,
    fail: Option<Fail>,
    failed: bool,
}

impl Write for Writer {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let now = match self.fail {
            None => false,
            Some(Fail::Once(n)) => self.calls == n as usize,
            Some(Fail::From(n)) => self.calls >= n as usize,
            Some(Fail::Full(n)) => self.text.len() + s.len() > n as usize,
        };
        self.calls += 1;
        if now {
            self.failed = true;
            return Err(fmt::Error);
        }
        self.text.push_str(s);
        Ok(())
    }
}

fn print(
    what: &str,
    fail: Fail,
    obs: &mut Obs,
    f: impl Fn(&mut Writer) -> fmt::Result,
) -> Verdict {
    let mut whole = Writer::default();
    let r = no_panic(|| what.into(), || f(&mut whole))?;
    ensure(r.is_ok(), || format!("{what}: printing gives an error, although the writer does not"))?;
    // Empty text may be written in no call at all.
    let fail = match fail {
        Fail::Once(n) => Fail::Once(n % whole.calls.max(1) as u16),
        Fail::From(n) => Fail::From(n % whole.calls.max(1) as u16),
        Fail::Full(n) => Fail::Full(n % (whole.text.len() as u16).saturating_add(1).max(1)),
    };
    let mut w = Writer { fail: Some(fail), ..Writer::default() };
    let r = no_panic(|| format!("{what}: {fail:?}"), || f(&mut w))?;
    ensure(r.is_err() == w.failed, || match w.failed {
        true => format!("{what}: {fail:?}: the writer's failure is lost; written: {:?}", w.text),
        false => format!("{what}: {fail:?}: an error, although the writer gave none"),
    })?;
    ensure(w.failed || w.text == whole.text, || {
        format!("{what}: printed twice, the text is {:?} and {:?}", whole.text, w.text)
    })?;
    obs.nontrivial |= w.failed && whole.calls >= 3;
    obs.label_if(w.failed && w.calls > 1, "failure after the first write");
    obs.label_if(!w.failed, "no failure");
    Ok(())
}
