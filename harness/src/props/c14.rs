//! Key conversions are exact and reversible.

use std::str::FromStr;

use eth_trie_utils::nibbles::{Nibbles, ToNibbles};
use ethereum_types::{H256, U128, U256, U512};
use proptest::{collection::vec, prelude::*, strategy::BoxedStrategy};
use serde::{Deserialize, Serialize};

use super::c13::any_key;
use crate::{
    lib_ops::*,
    refmodel::{nib, unnib, Key},
    runner::{Obs, Property, Tier, Verdict},
};

pub struct C14;

#[derive(Clone, Debug, Deserialize, Hash, Serialize)]
pub enum Case {
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    /// Little-endian 64-bit words.
    U128([u64; 2]),
    U256([u64; 4]),
    U512([u64; 8]),
    Bytes(Vec<u8>),
    Hash([u8; 32]),
    Text(String),
    /// Digits, with prefix and upper case or not.
    Digits(Key, bool, bool),
    Nibbles(Key),
}

/// Integers of every bit length, and special ones.
fn int(bits: u32) -> BoxedStrategy<u64> {
    prop_oneof![
        4 => (any::<u64>(), 0..=bits).prop_map(|(x, n)| match n {
            0 => 0,
            n => x >> (64 - n),
        }),
        2 => (0..bits, 0..3u64).prop_map(move |(n, d)| {
            let max = u64::MAX >> (64 - bits);
            (1u64 << n).wrapping_add(d).wrapping_sub(1) & max
        }),
    ]
    .boxed()
}

fn words<const N: usize>() -> BoxedStrategy<[u64; N]> {
    (vec(int(64), N), 0..=N, any::<bool>())
        .prop_map(|(w, used, dense)| {
            let mut out = [0; N];
            for i in 0..used {
                out[i] = w[i];
            }
            // Keep the lower words when the top one is sparse.
            if dense && used > 1 {
                out[0] = u64::MAX;
            }
            out
        })
        .boxed()
}

impl Property for C14 {
    type Case = Case;
    const ID: &'static str = "C14";
    const QUICK: u64 = 4_000_000;
    const RULE: &'static str = "a case is one integer of a supported width, byte string of 0 to 40 bytes, 256-bit hash, digit string, arbitrary string, or nibble sequence; non-trivial if it is not zero or empty; distinct by the hash of the case";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "byte strings of exactly 33 bytes and digit strings of more than 64 digits are only checked not to panic: the documentation and the code disagree on the limit",
    ];

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let byte = || prop_oneof![3 => any::<u8>(), 1 => Just(0u8)];
        prop_oneof![
            1 => any::<u8>().prop_map(Case::U8),
            2 => int(16).prop_map(|x| Case::U16(x as u16)),
            2 => int(32).prop_map(|x| Case::U32(x as u32)),
            3 => int(64).prop_map(Case::U64),
            3 => words().prop_map(Case::U128),
            3 => words().prop_map(Case::U256),
            3 => words().prop_map(Case::U512),
            4 => vec(byte(), 0..=40).prop_map(Case::Bytes),
            1 => vec(byte(), 30..=35).prop_map(Case::Bytes),
            // All zeros but for one byte.
            1 => (30..=33usize, 0..=33usize, any::<u8>(), any::<bool>()).prop_map(|(n, at, b, hash)| {
                let mut v = vec![0; n];
                v[at % n] = b;
                match v.clone().try_into() {
                    Ok(h) if hash => Case::Hash(h),
                    _ => Case::Bytes(v),
                }
            }),
            3 => (vec(byte(), 32), 0..=32usize).prop_map(|(v, z)| {
                let mut h: [u8; 32] = v.try_into().unwrap();
                h[..z / 4 * 4].fill(0);
                Case::Hash(h)
            }),
            2 => "\\PC{0,12}".prop_map(Case::Text),
            2 => "(0x|0X|0|x)?[0-9a-fA-FgG +_-]{0,70}".prop_map(Case::Text),
            4 => (any_key(), any::<bool>(), any::<bool>()).prop_map(|(k, p, u)| Case::Digits(k, p, u)),
            4 => any_key().prop_map(Case::Nibbles),
        ]
        .boxed()
    }

    fn check(case: &Case, obs: &mut Obs) -> Verdict {
        match case {
            Case::U8(x) => int_case(*x, &x.to_be_bytes(), obs),
            Case::U16(x) => int_case(*x, &x.to_be_bytes(), obs),
            Case::U32(x) => int_case(*x, &x.to_be_bytes(), obs),
            Case::U64(x) => int_case(*x, &x.to_be_bytes(), obs),
            Case::U128(w) => int_case(U128(*w), &be(w), obs),
            Case::U256(w) => int_case(U256(*w), &be(w), obs),
            Case::U512(w) => {
                let all = digits_of(&be(w));
                let want = all.len() - all.iter().take_while(|d| **d == 0).count();
                let got = Nibbles::get_num_nibbles_in_key(&U512(*w));
                ensure(got == want, || {
                    format!("get_num_nibbles_in_key of {:x} is {got}, expected {want}", U512(*w))
                })?;
                int_case(U512(*w), &be(w), obs)
            }
            Case::Bytes(b) => bytes_case(b, obs),
            Case::Hash(h) => hash_case(h, obs),
            Case::Text(s) => text_case(s, obs),
            Case::Digits(k, prefix, upper) => {
                let mut s = String::new();
                if *prefix {
                    s.push_str("0x");
                }
                s.push_str(&match upper {
                    true => k.digits().to_uppercase(),
                    false => k.digits(),
                });
                text_case(&s, obs)
            }
            Case::Nibbles(k) => nibbles_case(k, obs),
        }
    }
}

fn be(words: &[u64]) -> Vec<u8> {
    words.iter().rev().flat_map(|w| w.to_be_bytes()).collect()
}

fn digits_of(bytes: &[u8]) -> Vec<u8> {
    bytes.iter().flat_map(|b| [b >> 4, b & 15]).collect()
}

fn is(n: &Nibbles, want: &[u8], what: &str) -> Verdict {
    let got = unnib(n).map_err(|e| format!("{what}: {e}"))?;
    ensure(got == want, || {
        format!(
            "{what}: got {}, expected {}",
            Key(got.clone()).digits(),
            Key(want.to_vec()).digits()
        )
    })
}

fn int_case<T: ToNibbles + Copy + std::fmt::Debug>(x: T, be: &[u8], obs: &mut Obs) -> Verdict {
    let all = digits_of(be);
    let zeros = all.iter().take_while(|d| **d == 0).count();
    let want = &all[zeros..];
    let ty = std::any::type_name::<T>();

    let n = no_panic(|| format!("{ty} {x:?}"), || Nibbles::from(x))?;
    is(&n, want, &format!("Nibbles::from({ty} {x:?})"))?;
    let n = no_panic(|| format!("{ty} {x:?}"), || x.to_nibbles())?;
    is(&n, want, &format!("to_nibbles of {ty} {x:?}"))?;
    let mut padded = want.to_vec();
    if padded.len() % 2 == 1 {
        padded.insert(0, 0);
    }
    let n = no_panic(|| format!("{ty} {x:?} padded"), || x.to_nibbles_byte_padded())?;
    is(&n, &padded, &format!("to_nibbles_byte_padded of {ty} {x:?}"))?;

    obs.nontrivial = !want.is_empty();
    obs.label("integer");
    obs.label_if(want.len() % 2 == 1, "odd number of digits");
    Ok(())
}

fn bytes_case(b: &[u8], obs: &mut Obs) -> Verdict {
    let rev: Vec<u8> = b.iter().rev().copied().collect();
    for (got, bytes, what) in [
        (
            no_panic(|| "from_bytes_be".into(), || Nibbles::from_bytes_be(b))?,
            b,
            "from_bytes_be",
        ),
        (
            no_panic(|| "from_bytes_le".into(), || Nibbles::from_bytes_le(b))?,
            &rev,
            "from_bytes_le",
        ),
    ] {
        match (got, b.len()) {
            (Err(_), 0 | 34..) => (),
            (Ok(n), 0 | 34..) => return Err(format!("{what} of {} bytes gave {n:?}", b.len())),
            (Ok(n), 1..=32) => {
                is(&n, &digits_of(bytes), &format!("{what} of {b:02x?}"))?;
                let back = no_panic(|| "bytes_be".into(), || n.bytes_be())?;
                ensure(back == bytes, || {
                    format!("{what} of {b:02x?}: bytes_be gave {back:02x?}")
                })?;
            }
            (Err(e), 1..=32) => return Err(format!("{what} of {b:02x?} failed: {e}")),
            (_, 33) => (),
        }
    }
    obs.nontrivial = !b.is_empty();
    obs.label("bytes");
    obs.label_if(b.len() > 33, "too many bytes");
    Ok(())
}

fn hash_case(h: &[u8; 32], obs: &mut Obs) -> Verdict {
    let mut rev = *h;
    rev.reverse();
    let n = no_panic(|| "from_h256_be".into(), || Nibbles::from_h256_be(H256(*h)))?;
    is(&n, &digits_of(h), "from_h256_be")?;
    let n = no_panic(|| "from_h256_le".into(), || Nibbles::from_h256_le(H256(*h)))?;
    is(&n, &digits_of(&rev), "from_h256_le")?;
    obs.nontrivial = *h != [0; 32];
    obs.label("hash");
    Ok(())
}

fn text_case(s: &str, obs: &mut Obs) -> Verdict {
    let got = no_panic(|| format!("parsing {s:?}"), || Nibbles::from_str(s))?;
    let body = s.strip_prefix("0x").unwrap_or(s);
    let hex = body.chars().all(|c| c.is_ascii_hexdigit());
    match got {
        Err(e) => {
            obs.label("string rejected");
            ensure(!hex || body.len() > 64 || s.is_empty(), || {
                format!("parsing {s:?} failed: {e}")
            })?;
        }
        Ok(n) => {
            ensure(hex, || format!("{s:?} is not hex, but was parsed as {n:?}"))?;
            if body.len() <= 64 {
                let want: Vec<u8> = body
                    .chars()
                    .map(|c| c.to_digit(16).unwrap() as u8)
                    .collect();
                is(&n, &want, &format!("parsing {s:?}"))?;
            }
            obs.label("string parsed");
            obs.label_if(body.starts_with('0'), "leading zero digit");
        }
    }
    obs.nontrivial = !body.is_empty();
    Ok(())
}

fn nibbles_case(k: &Key, obs: &mut Obs) -> Verdict {
    let n = nib(&k.0);
    let lower = format!("0x{}", k.digits());
    let upper = format!("0x{}", k.digits().to_uppercase());
    for (got, want, what) in [
        (no_panic(|| "Display".into(), || format!("{n}"))?, &lower, "Display"),
        (no_panic(|| "LowerHex".into(), || format!("{n:x}"))?, &lower, "LowerHex"),
        (no_panic(|| "UpperHex".into(), || format!("{n:X}"))?, &upper, "UpperHex"),
    ] {
        ensure(got == *want, || format!("{what} of {k:?} is {got}, expected {want}"))?;
        let back = no_panic(|| format!("parsing {got:?}"), || Nibbles::from_str(&got))?
            .map_err(|e| format!("{what} of {k:?}: {got:?} cannot be parsed: {e}"))?;
        ensure(back == n, || format!("{what} of {k:?} parses as {back:?}"))?;
    }

    let mut padded = k.0.clone();
    if padded.len() % 2 == 1 {
        padded.insert(0, 0);
    }
    let want: Vec<u8> = padded.chunks(2).map(|p| p[0] << 4 | p[1]).collect();
    let got = no_panic(|| "bytes_be".into(), || n.bytes_be())?;
    ensure(got == want, || {
        format!("bytes_be of {k:?} is {got:02x?}, expected {want:02x?}")
    })?;

    let mut full = vec![0; 32 - want.len()];
    full.extend(&want);
    let got = no_panic(|| "try_into_u256".into(), || n.try_into_u256())?
        .map_err(|e| format!("try_into_u256 of {k:?}: {e}"))?;
    let mut bytes = [0; 32];
    got.to_big_endian(&mut bytes);
    ensure(bytes[..] == full[..], || {
        format!("try_into_u256 of {k:?} is {got:x}")
    })?;
    ensure(
        Nibbles::get_num_nibbles_in_key(&n.packed) == k.0.len() - k.0.iter().take_while(|d| **d == 0).count(),
        || format!("get_num_nibbles_in_key of {k:?}"),
    )?;
    obs.nontrivial = !k.0.is_empty();
    obs.label("nibble sequence");
    obs.label_if(k.0.first() == Some(&0), "leading zero nibble");
    Ok(())
}
