//! Errors name what was refused.

use eth_trie_utils::{
    nibbles::{BytesToNibblesError, FromHexPrefixError, Nibbles},
    trie_subsets::{create_trie_subset, create_trie_subsets, SubsetTrieError},
};
use proptest::{collection::vec, prelude::*, strategy::BoxedStrategy};
use serde::{Deserialize, Serialize};

use crate::{
    both, gen,
    gen::E,
    lib_ops::*,
    refmodel::{unkey, Key, RefNode},
    runner::{Obs, Property, Tier, Verdict},
};

pub struct C23;

#[derive(Clone, Debug, Deserialize, Hash, Serialize)]
pub enum Case {
    /// Byte string as a key, little-endian or not.
    Bytes(Vec<u8>, bool),
    HexPrefix(Vec<u8>),
    Subset {
        entries: Vec<(Key, E)>,
        requests: Vec<Vec<Key>>,
    },
}

impl Property for C23 {
    type Case = Case;
    const ID: &'static str = "C23";
    const QUICK: u64 = 400_000;
    const RULE: &'static str = "a case is a byte string (mostly 0 to 70 bytes, sometimes far more) read as a key or as a hex-prefix encoding, or a partial trie of either type and 1 to 3 collections of keys to extract; non-trivial if it is refused; distinct by the hash of the case";

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let bytes = || {
            prop_oneof![
                1000 => (33..=40usize).prop_flat_map(|n| vec(any::<u8>(), n)),
                500 => (0..=70usize).prop_flat_map(|n| vec(any::<u8>(), n)),
                40 => (71..=2000u32, any::<u8>())
                    .prop_map(|(len, tag)| gen::Val { len, tag, fill: 1 }.bytes()),
                1 => (2001..=140_000u32, any::<u8>())
                    .prop_map(|(len, tag)| gen::Val { len, tag, fill: 1 }.bytes()),
            ]
        };
        let subset = (gen::entries(gen::val(), 6), vec(gen::key_picks(5), 1..=3)).prop_map(
            |((keys, entries), picks)| Case::Subset {
                entries,
                requests: picks
                    .iter()
                    .map(|ps| ps.iter().map(|p| p.near(&keys)).collect())
                    .collect(),
            },
        );
        prop_oneof![
            1 => (bytes(), any::<bool>()).prop_map(|(b, le)| Case::Bytes(b, le)),
            2 => bytes().prop_map(Case::HexPrefix),
            1 => vec(any::<u8>(), 1..=33).prop_map(Case::HexPrefix),
            5 => subset,
        ]
        .boxed()
    }

    fn check(case: &Case, obs: &mut Obs) -> Verdict {
        match case {
            Case::Bytes(b, le) => bytes(b, *le, obs),
            Case::HexPrefix(b) => hex_prefix(b, obs),
            Case::Subset { entries, requests } => {
                both!(subsets, entries, requests, obs);
                Ok(())
            }
        }
    }
}

/// The message has this as a word of its own.
fn mentions(text: &str, word: &str) -> bool {
    text.split(|c: char| !c.is_ascii_alphanumeric()).any(|w| w == word)
}

fn bytes(b: &[u8], le: bool, obs: &mut Obs) -> Verdict {
    let r = no_panic(
        || "reading bytes as a key".into(),
        || match le {
            false => Nibbles::from_bytes_be(b),
            true => Nibbles::from_bytes_le(b),
        },
    )?;
    let Err(e) = r else { return Ok(()) };
    obs.nontrivial = true;
    obs.label("byte string");
    let text = no_panic(|| "printing".into(), || e.to_string())?;
    let ok = match (&e, b.len()) {
        (BytesToNibblesError::ZeroSizedKey, 0) => true,
        (BytesToNibblesError::TooManyBytes(n), l) => *n == l && mentions(&text, &l.to_string()),
        _ => false,
    };
    ensure(ok, || format!("{} bytes are refused with: {e:?}, {text}", b.len()))
}

fn hex_prefix(b: &[u8], obs: &mut Obs) -> Verdict {
    let r = no_panic(
        || "decoding a hex-prefix encoding".into(),
        || Nibbles::from_hex_prefix_encoding(b),
    )?;
    let Err(e) = r else { return Ok(()) };
    obs.nontrivial = true;
    obs.label("hex-prefix encoding");
    let text = no_panic(|| "printing".into(), || e.to_string())?;
    let hex: String = b.iter().map(|x| format!("{x:02x}")).collect();
    let ok = match &e {
        FromHexPrefixError::Empty => b.is_empty(),
        FromHexPrefixError::InvalidFlags(f) => {
            !b.is_empty() && *f == b[0] >> 4 && text.contains(&format!("{f:b}"))
        }
        FromHexPrefixError::TooLong(shown, n) => {
            let len = b.len().to_string();
            b.len() > 33
                && *n == b.len()
                && *shown == hex
                && text.contains(&format!("length: {len}"))
                && text.contains(&format!("bytes: {hex}"))
        }
    };
    ensure(ok, || format!("{} bytes {hex} are refused with: {e:?}, {text}", b.len()))
}

fn subsets<N: Trie>(entries: &[(Key, E)], requests: &[Vec<Key>], obs: &mut Obs) -> Verdict {
    let (list, c) = gen::compatible(entries);
    let root = RefNode::build(&c);
    let base: N = no_panic(|| "base trie".into(), || build(&list))?;

    let mut first = None;
    for ks in requests {
        let bad = ks.iter().find(|k| root.hits_hash(&k.0) == Some(true));
        let r = no_panic(
            || "subset extraction".into(),
            || create_trie_subset(&base, ks.iter().map(|k| k.nib())),
        )?;
        match (r, bad) {
            (Err(e), Some(k)) => names::<N>(&e, k)?,
            (Ok(_), None) => (),
            // Which extractions are refused is another property.
            _ => return Ok(()),
        }
        first = first.or(bad);
    }
    let r = no_panic(
        || "batch extraction".into(),
        || create_trie_subsets(&base, requests.iter().map(|ks| ks.iter().map(|k| k.nib()))),
    )?;
    if let (Err(e), Some(k)) = (&r, first) {
        names::<N>(e, k)?;
    }
    obs.nontrivial = first.is_some();
    obs.label_if(first.is_some(), "subset");
    Ok(())
}

fn names<N>(e: &SubsetTrieError, k: &Key) -> Verdict {
    let SubsetTrieError::UnexpectedKey(got, _) = e;
    let text: String = e.to_string();
    let shown: String = text.chars().take(200).collect();
    let got = unkey(got).map_err(|e| format!("malformed key in the error: {e}"))?;
    ensure(got == *k, || {
        format!("{}: the key {k:?} is refused, the error names {got:?}: {shown}", name::<N>())
    })?;
    ensure(text.contains(&format!("0x{}", k.digits())), || {
        format!("{}: the key {k:?} is missing in the message: {shown}", name::<N>())
    })
}
