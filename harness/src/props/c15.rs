//! Hex-prefix encoding is the yellow-paper encoding and decodes back.

use eth_trie_utils::nibbles::Nibbles;
use proptest::{collection::vec, prelude::*, strategy::BoxedStrategy};
use serde::{Deserialize, Serialize};

use super::c13::any_key;
use crate::{
    lib_ops::*,
    refmodel::{hex_prefix, nib, unnib, Key},
    runner::{Obs, Property, Tier, Verdict},
};

pub struct C15;

#[derive(Clone, Debug, Deserialize, Hash, Serialize)]
pub enum Case {
    Encode(Key, bool),
    Decode(Vec<u8>),
}

impl Property for C15 {
    type Case = Case;
    const ID: &'static str = "C15";
    const QUICK: u64 = 5_000_000;
    const RULE: &'static str = "a case is a nibble sequence with a leaf flag, encoded and decoded back, or a byte string of 0 to 40 bytes (half of them with a valid flag nibble) that is decoded; non-trivial if the sequence or the byte string is not empty; distinct by the hash of the case";

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let bytes = (
            prop_oneof![3 => 0..=40usize, 1 => 30..=36usize, 1 => 0..=3usize],
            any::<bool>(),
        )
            .prop_flat_map(|(n, valid)| (vec(any::<u8>(), n), Just(valid)))
            .prop_map(|(mut b, valid)| {
                if let (Some(f), true) = (b.first_mut(), valid) {
                    *f &= 0x3f;
                }
                b
            });
        prop_oneof![
            1 => (any_key(), any::<bool>()).prop_map(|(k, l)| Case::Encode(k, l)),
            1 => bytes.prop_map(Case::Decode),
        ]
        .boxed()
    }

    fn check(case: &Case, obs: &mut Obs) -> Verdict {
        match case {
            Case::Encode(k, leaf) => encode(k, *leaf, obs),
            Case::Decode(b) => decode(b, obs),
        }
    }
}

fn encode(k: &Key, leaf: bool, obs: &mut Obs) -> Verdict {
    let n = nib(&k.0);
    let got = no_panic(
        || format!("to_hex_prefix_encoding({leaf}) of {k:?}"),
        || n.to_hex_prefix_encoding(leaf),
    )?;
    let want = hex_prefix(&k.0, leaf);
    ensure(got[..] == want[..], || {
        format!(
            "to_hex_prefix_encoding({leaf}) of {k:?} is {:02x?}, expected {want:02x?}",
            &got[..]
        )
    })?;
    let back = no_panic(
        || format!("decoding {want:02x?}"),
        || Nibbles::from_hex_prefix_encoding(&want),
    )?
    .map_err(|e| format!("decoding {want:02x?}: {e}"))?;
    let mut expect = k.0.clone();
    if leaf {
        expect.extend([1, 0]);
    }
    let back = unnib(&back).map_err(|e| format!("decoding {want:02x?}: {e}"))?;
    ensure(back == expect, || {
        format!("decoding {want:02x?} gives {back:x?}, expected {expect:x?}")
    })?;
    obs.nontrivial = !k.0.is_empty();
    obs.label_if(leaf, "leaf flag");
    obs.label_if(k.0.len() >= 63, "63 or 64 nibbles");
    Ok(())
}

fn decode(b: &[u8], obs: &mut Obs) -> Verdict {
    let got = no_panic(
        || format!("decoding {b:02x?}"),
        || Nibbles::from_hex_prefix_encoding(b),
    )?;
    let ok = !b.is_empty() && b.len() <= 33 && b[0] >> 4 <= 3;
    ensure(got.is_ok() == ok, || {
        format!("decoding {b:02x?} gives {got:?}, expected {}", if ok { "success" } else { "an error" })
    })?;
    if let Ok(n) = got {
        // What the bytes say, with the terminator for leaves.
        let mut want: Vec<u8> = b.iter().flat_map(|x| [x >> 4, x & 15]).collect();
        want.drain(..if b[0] >> 4 & 1 == 1 { 1 } else { 2 });
        if b[0] >> 4 & 2 == 2 {
            want.extend([1, 0]);
        }
        let got = unnib(&n).map_err(|e| format!("decoding {b:02x?}: {e}"))?;
        ensure(got == want, || {
            format!("decoding {b:02x?} gives {got:x?}, expected {want:x?}")
        })?;
    }
    obs.nontrivial = !b.is_empty();
    obs.label(if ok { "decoded" } else { "rejected" });
    obs.label_if(b.len() == 33 && ok, "33 bytes decoded");
    Ok(())
}
