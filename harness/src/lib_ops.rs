//! Small helpers around the library's public interface.

use eth_trie_utils::{
    nibbles::Nibbles,
    partial_trie::{Node, PartialTrie},
    trie_ops::ValOrHash,
    trie_subsets::create_trie_subset,
};
use ethereum_types::H256;
use serde::{de::DeserializeOwned, Serialize};

use crate::{
    gen::{allowed, below_hash, Op},
    refmodel::{unkey, Contents, Entry, Key, RefNode},
    runner::{guarded, Verdict},
};

/// What both trie types offer.
pub trait Trie:
    PartialTrie
    + From<Node<Self>>
    + FromIterator<(Nibbles, ValOrHash)>
    + Serialize
    + DeserializeOwned
{
}

impl<T> Trie for T where
    T: PartialTrie
        + From<Node<T>>
        + FromIterator<(Nibbles, ValOrHash)>
        + Serialize
        + DeserializeOwned
{
}

/// Runs a generic check for both trie types.
#[macro_export]
macro_rules! both {
    ($f:ident, $($arg:expr),*) => {{
        $f::<eth_trie_utils::partial_trie::StandardTrie>($($arg),*)?;
        $f::<eth_trie_utils::partial_trie::HashedPartialTrie>($($arg),*)?;
    }};
}

pub fn name<N>() -> &'static str {
    let n = std::any::type_name::<N>();
    n.rsplit("::").next().unwrap_or(n)
}

pub fn ensure(c: bool, msg: impl FnOnce() -> String) -> Verdict {
    match c {
        true => Ok(()),
        false => Err(msg()),
    }
}

/// Calls library code that must not panic.
pub fn no_panic<R>(what: impl FnOnce() -> String, f: impl FnOnce() -> R) -> Result<R, String> {
    guarded(f).map_err(|p| format!("{}: unexpected panic: {p}", what()))
}

pub fn insert<N: PartialTrie>(t: &mut N, k: &Key, e: &Entry) {
    match e {
        Entry::Val(v) => t.insert(k.nib(), v.clone()),
        Entry::Hash(h) => t.insert(k.nib(), H256(*h)),
    }
}

pub fn build<N: PartialTrie>(es: &[(Key, Entry)]) -> N {
    let mut t = N::default();
    for (k, e) in es {
        insert(&mut t, k, e);
    }
    t
}

pub fn get<N: PartialTrie>(t: &N, k: &Key) -> Result<Option<Vec<u8>>, String> {
    no_panic(
        || format!("{}: get({k:?})", name::<N>()),
        || t.get(k.nib()).map(|v| v.to_vec()),
    )
}

/// The enumeration, cut off soon after `expect` entries.
pub fn items<N: PartialTrie>(t: &N, expect: usize) -> Result<Vec<(Key, Entry)>, String> {
    let raw = no_panic(
        || format!("{}: items", name::<N>()),
        || t.items().take(expect + 20).collect::<Vec<_>>(),
    )?;
    raw.iter()
        .map(|(k, v)| Ok((unkey(k)?, Entry::from_lib(v))))
        .collect()
}

pub fn structure<N: PartialTrie>(t: &Node<N>) -> Result<RefNode, String> {
    RefNode::of(t).map_err(|e| format!("{}: malformed key piece: {e}", name::<N>()))
}

pub fn same_structure<N: PartialTrie>(t: &N, want: &RefNode, what: &str) -> Verdict {
    let got = structure::<N>(t)?;
    ensure(got == *want, || {
        format!(
            "{}: {what}: structure is\n  {got:?}\nexpected\n  {want:?}",
            name::<N>()
        )
    })
}

pub fn hex32(h: &[u8; 32]) -> String {
    h.iter().map(|b| format!("{b:02x}")).collect()
}

pub fn same_hash<N: PartialTrie>(t: &N, want: &[u8; 32], what: &str) -> Verdict {
    let got = no_panic(|| format!("{}: {what}: hash", name::<N>()), || t.hash())?;
    ensure(got.0 == *want, || {
        format!(
            "{}: {what}: hash is {}, expected {}",
            name::<N>(),
            hex32(&got.0),
            hex32(want)
        )
    })
}

/// Every lookup agrees with the contents.
pub fn same_lookups<'a, N: PartialTrie>(
    t: &N,
    c: &Contents,
    keys: impl IntoIterator<Item = &'a Key>,
    what: &str,
) -> Verdict {
    for k in keys {
        let got = get(t, k)?;
        let want = match c.get(k) {
            Some(Entry::Val(v)) => Some(v),
            _ => None,
        };
        ensure(got.as_ref() == want, || {
            format!(
                "{}: {what}: get({k:?}) is {got:02x?}, expected {want:02x?}",
                name::<N>()
            )
        })?;
    }
    Ok(())
}

/// Whether a history's step is one the contents allow (it does not touch a
/// hashed-out part and does not put a hash over something).
pub fn op_allowed(c: &Contents, op: &Op) -> bool {
    match op {
        Op::Ins(k, _) | Op::Del(k) => !below_hash(c, k),
        Op::InsHash(k, _) => allowed(c, k, true),
        Op::Bulk(es) => es.iter().all(|(k, _)| !below_hash(c, k)),
        Op::Get(_) | Op::Rebuild => true,
    }
}

/// Applies a step to the model.
pub fn apply_model(c: &mut Contents, op: &Op) {
    match op {
        Op::Ins(k, v) => {
            c.insert(k.clone(), Entry::Val(v.bytes()));
        }
        Op::InsHash(k, h) => {
            c.insert(k.clone(), Entry::Hash(crate::gen::digest(*h)));
        }
        Op::Bulk(es) => {
            for (k, v) in es {
                c.insert(k.clone(), Entry::Val(v.bytes()));
            }
        }
        Op::Del(k) => {
            c.remove(k);
        }
        Op::Get(_) | Op::Rebuild => (),
    }
}

/// Applies a step to a library trie, ignoring what it returns.
pub fn apply_lib<N: Trie>(t: &mut N, c_before: &Contents, op: &Op) -> Verdict {
    no_panic(
        || format!("{}: {op:?}", name::<N>()),
        || match op {
            Op::Ins(k, v) => t.insert(k.nib(), v.bytes()),
            Op::InsHash(k, h) => t.insert(k.nib(), H256(crate::gen::digest(*h))),
            // With a known length, at most a known length and an unknown one;
            // out of a source that uses tries itself.
            Op::Bulk(es) => match es.len() % 4 {
                1 if es.len() % 8 == 5 => t.extend(es.iter().enumerate().map(|(i, (k, v))| {
                    if i < 8 {
                        use_another::<N>(k, v.bytes());
                    }
                    (k.nib(), v.bytes())
                })),
                0 => t.extend(es.iter().map(|(k, v)| (k.nib(), v.bytes())).filter(|_| true)),
                1 => t.extend(es.iter().map(|(k, v)| (k.nib(), v.bytes()))),
                2 => {
                    let mut es = es.iter();
                    t.extend(std::iter::from_fn(|| es.next().map(|(k, v)| (k.nib(), v.bytes()))))
                }
                _ => t.extend(es.iter().map(|(k, v)| (k.nib(), v.bytes())).collect::<Vec<_>>()),
            },
            Op::Del(k) => {
                t.delete(k.nib());
            }
            Op::Get(k) => {
                t.get(k.nib());
            }
            Op::Rebuild => {
                *t = c_before.iter().map(|(k, e)| (k.nib(), e.to_lib())).collect();
            }
        },
    )
}

/// Every operation on a trie of its own.
fn use_another<N: Trie>(k: &Key, v: Vec<u8>) {
    let other = Key(vec![3, 1]);
    let mut t: N = [k, &other]
        .into_iter()
        .map(|k| (k.nib(), Entry::Val(v.clone()).to_lib()))
        .collect();
    t.extend([(k.nib(), v.clone()), (Key(vec![3]).nib(), v)]);
    t.hash();
    let sub = create_trie_subset(&t, [k.nib()]);
    let same = sub.is_ok_and(|s| s.get(k.nib()) == t.get(k.nib()) && s.hash() == t.hash());
    assert!(same, "another trie's subset is wrong");
    let n = t.items().count();
    let gone = t.delete(k.nib());
    assert!(gone.is_some() && t.items().count() == n - 1, "another trie's delete is wrong");
}

/// Runs the allowed steps of a history on a fresh trie and on the model.
pub fn run_history<N: Trie>(ops: &[Op]) -> Result<(N, Contents), String> {
    let mut t = N::default();
    let mut c = Contents::new();
    for op in ops {
        if op_allowed(&c, op) {
            apply_lib(&mut t, &c, op)?;
            apply_model(&mut c, op);
        }
    }
    Ok((t, c))
}

/// Subset extraction; the inner `Err` is the library's error.
pub fn subset<N: PartialTrie>(t: &N, keys: &[Key]) -> Result<Result<N, String>, String> {
    no_panic(
        || format!("{}: subset for {keys:?}", name::<N>()),
        || {
            let ks = keys.iter().map(|k| k.nib());
            // With and without a known length.
            match keys.len() % 3 {
                0 if keys.len() % 2 == 1 => create_trie_subset(
                    t,
                    // Out of a source that takes subsets itself.
                    ks.enumerate().map(|(i, k)| {
                        if i < 4 {
                            let _ = create_trie_subset(t, [k]);
                        }
                        k
                    }),
                ),
                0 => create_trie_subset(t, ks.filter(|_| true)),
                1 => create_trie_subset(t, ks),
                _ => create_trie_subset(t, ks.collect::<Vec<_>>()),
            }
            .map_err(|e| e.to_string())
        },
    )
}
