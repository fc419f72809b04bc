//! Trie diffs report a real difference exactly when there is one.

use eth_trie_utils::{debug_tools::diff::create_diff_between_tries, partial_trie::{HashedPartialTrie, PartialTrie}};
use proptest::{collection::vec, prelude::*, strategy::BoxedStrategy};
use serde::{Deserialize, Serialize};

use crate::{
    gen,
    gen::{Pick, Val, E},
    lib_ops::*,
    refmodel::{Contents, Entry, Key, RefNode},
    runner::{Obs, Property, Tier, Verdict},
};

pub struct C19;

#[derive(Clone, Debug, Deserialize, Hash, Serialize)]
pub struct Case {
    a: Vec<(Key, E)>,
    b: Other,
    /// Which nodes of 32 bytes or more to replace by hash nodes on each side,
    /// parents first.
    hash_a: Vec<bool>,
    hash_b: Vec<bool>,
    swap: bool,
    hash_first: bool,
    /// This many more entries in both, each with another value.
    #[serde(default)]
    wide: u16,
}

#[derive(Clone, Debug, Deserialize, Hash, Serialize)]
pub enum Other {
    /// The same entries with these put in or taken out.
    Edited(Vec<(Key, Option<Val>)>),
    /// The same keys, values exchanged at these positions.
    Values(Vec<(u8, Val)>),
    /// The same but for single bits of hash nodes.
    Hashes(Vec<(u8, u8)>),
    Unrelated(Vec<(Key, E)>),
}

impl Case {
    /// Keys of the first trie, before hashing out.
    pub fn keys(&self) -> Vec<Key> {
        self.a.iter().map(|(k, _)| k.clone()).collect()
    }

    /// The two tries.
    pub fn pair(&self) -> (RefNode, RefNode) {
        let (_, mut ca) = gen::compatible(&self.a);
        let more = (0..u32::from(self.wide)).map(|i| {
            Key((0..6).map(|s| (i.wrapping_mul(0x9e37_79b1) >> (28 - 4 * s)) as u8 & 0xf).collect())
        });
        let more: Vec<Key> = more.filter(|k| gen::allowed(&ca, k, false)).collect();
        let [va, vb] = [[1, 7], [2, 7]].map(|v| Entry::Val(v.to_vec()));
        ca.extend(more.iter().map(|k| (k.clone(), va.clone())));
        let mut cb = other(&ca, &self.b);
        for k in &more {
            if let Some(e) = cb.get_mut(k).filter(|e| **e == va) {
                *e = vb.clone();
            }
        }
        let ra = mask(&RefNode::build(&ca), &self.hash_a);
        let mut rb = mask(&RefNode::build(&cb), &self.hash_b);
        if let Other::Hashes(bits) = &self.b {
            let mut c = ra.contents();
            let mut hashes: Vec<_> = c
                .values_mut()
                .filter_map(|e| match e {
                    Entry::Hash(h) => Some(h),
                    Entry::Val(_) => None,
                })
                .collect();
            let n = hashes.len().max(1);
            for (i, bit) in bits {
                if let Some(h) = hashes.get_mut(*i as usize % n) {
                    h[*bit as usize / 8] ^= 1 << (bit % 8);
                }
            }
            rb = RefNode::build(&c);
        }
        match self.swap {
            false => (ra, rb),
            true => (rb, ra),
        }
    }
}

impl Property for C19 {
    type Case = Case;
    const ID: &'static str = "C19";
    const QUICK: u64 = 350_000;
    const RULE: &'static str = "a case is a pair of caching tries: equal, equal but for a few entries or values, or unrelated, rarely with thousands of differences, with hash entries and with nodes replaced by their hashes; non-trivial if both tries have at least 2 entries and their root hashes differ; distinct by the hash of the whole case";

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let base = prop_oneof![
            2 => gen::entries(gen::val(), 0),
            1 => gen::entries(gen::val(), 2),
        ];
        let mask = || {
            prop_oneof![
                2 => Just(vec![]),
                1 => vec(prop::bool::weighted(0.2), 1..=12),
            ]
        };
        let edits = vec((gen::pick(), prop::option::of(gen::val()), any::<bool>()), 0..=3);
        let values = vec((any::<u8>(), gen::val()), 1..=3);
        let bits = vec(any::<(u8, u8)>(), 1..=2);
        let other = prop_oneof![
            8 => edits.prop_map(|e| (Some(e), None, None)),
            6 => values.prop_map(|v| (None, Some(Other::Values(v)), None)),
            1 => bits.prop_map(|b| (None, Some(Other::Hashes(b)), None)),
            2 => gen::entries(gen::val(), 1).prop_map(|(_, e)| (None, None, Some(e))),
        ];
        let wide = prop_oneof![
            4000 => Just(0u16),
            1 => 300..=8000u16,
        ];
        (base, other, mask(), mask(), any::<bool>(), any::<bool>(), wide)
            .prop_map(|((keys, a), (e, v, u), hash_a, hash_b, swap, hash_first, wide)| {
                let b = match (e, v, u) {
                    (Some(e), _, _) => Other::Edited(
                        e.into_iter()
                            .map(|(p, v, near): (Pick, Option<Val>, bool)| match near {
                                true => (p.near(&keys), v),
                                false => (p.exact(&keys), v),
                            })
                            .collect(),
                    ),
                    (_, Some(o), _) => o,
                    (_, _, u) => Other::Unrelated(u.unwrap_or_default()),
                };
                Case {
                    a,
                    b,
                    hash_a,
                    hash_b,
                    swap,
                    hash_first,
                    wide,
                }
            })
            .boxed()
    }

    fn check(case: &Case, obs: &mut Obs) -> Verdict {
        let (ra, rb) = case.pair();
        let a: HashedPartialTrie = ra.to_lib();
        let b: HashedPartialTrie = rb.to_lib();
        if case.hash_first {
            no_panic(|| "hash".into(), || (a.hash(), b.hash()))?;
        }

        let diff = no_panic(|| "diff".into(), || create_diff_between_tries(&a, &b))?;
        let mut structural = Vec::new();
        let mut all = Vec::new();
        walk(&ra, &rb, &mut Vec::new(), &mut structural, &mut all);
        let differ = ra.hash() != rb.hash();
        obs.nontrivial = differ && ra.contents().len() >= 2 && rb.contents().len() >= 2;
        obs.label_if(!differ, "equal root hashes");
        obs.label_if(!differ && ra != rb, "equal root hashes, other structure");
        obs.label_if(!structural.is_empty(), "structural difference");
        obs.label_if(structural.len() >= 2, "several structural differences");
        obs.label_if(structural.is_empty() && differ, "only values differ");
        obs.label_if(all.len() > 1, "difference below the root");

        let text = no_panic(|| "printing".into(), || diff.to_string())?;
        let point = match (&diff.latest_diff_res, differ) {
            (None, false) => return Ok(()),
            (None, true) => return Err("a difference exists, but none is reported".into()),
            (Some(_), false) => return Err(format!("root hashes agree, but reported: {text}")),
            (Some(p), true) => p,
        };
        let ctx = |e: String| format!("reported: {text}\n{e}");

        let key = crate::refmodel::unkey(&point.key).map_err(|e| ctx(format!("key: {e}")))?;
        let kind = match structural.is_empty() {
            false => &structural,
            true => &all,
        };
        let longest = kind.iter().map(|(k, _, _)| k.len()).max().unwrap();
        let found = kind.iter().find(|(k, _, _)| *k == key.0);
        let at = || {
            let ks: Vec<String> = kind.iter().map(|(k, _, _)| Key(k.clone()).digits()).collect();
            format!(
                "{} differences exist at {ks:?}",
                if structural.is_empty() { "value" } else { "structural" }
            )
        };
        let (_, na, nb) = found.ok_or_else(|| ctx(at()))?;
        ensure(key.0.len() == longest, || {
            ctx(format!("not the longest key; {}", at()))
        })?;
        side(&key, na, &point.a_info.to_string(), "A").map_err(ctx)?;
        side(&key, nb, &point.b_info.to_string(), "B").map_err(ctx)?;
        for part in [
            format!("Key: 0x{}", key.digits()),
            point.a_info.to_string(),
            point.b_info.to_string(),
        ] {
            ensure(text.contains(&part), || ctx(format!("the printed form lacks '{part}'")))?;
        }
        let (pa, pb) = (text.find(&point.a_info.to_string()), text.rfind(&point.b_info.to_string()));
        ensure(pa < pb, || ctx("B is printed before A".into()))
    }
}

fn other(ca: &Contents, b: &Other) -> Contents {
    match b {
        Other::Edited(es) => {
            let mut c = ca.clone();
            for (k, v) in es {
                match v {
                    Some(v) if gen::allowed(&c, k, false) => {
                        c.insert(k.clone(), Entry::Val(v.bytes()));
                    }
                    Some(_) => (),
                    None => {
                        c.remove(k);
                    }
                }
            }
            c
        }
        Other::Values(vs) => {
            let mut c = ca.clone();
            let keys: Vec<Key> = c.keys().cloned().collect();
            for (i, v) in vs {
                if !keys.is_empty() {
                    let e = c.get_mut(&keys[*i as usize % keys.len()]).unwrap();
                    *e = match e {
                        Entry::Val(_) => Entry::Val(v.bytes()),
                        Entry::Hash(_) => Entry::Hash(gen::digest(*i)),
                    };
                }
            }
            c
        }
        Other::Hashes(_) => ca.clone(),
        Other::Unrelated(es) => gen::compatible(es).1,
    }
}

fn mask(n: &RefNode, which: &[bool]) -> RefNode {
    let mut i = 0;
    n.hash_out(&mut Vec::new(), &mut |_, n| {
        !which.is_empty() && n.is_large() && {
            i += 1;
            which[(i - 1) % which.len()]
        }
    })
}

type Pair<'a> = (Vec<u8>, &'a RefNode, &'a RefNode);

/// All pairs of differing nodes along the common paths.
fn walk<'a>(
    a: &'a RefNode,
    b: &'a RefNode,
    at: &mut Vec<u8>,
    structural: &mut Vec<Pair<'a>>,
    all: &mut Vec<Pair<'a>>,
) {
    // Inlined nodes have no hash of their own, but equal hashes are equal
    // encodings for them as well.
    if a == b || a.hash() == b.hash() {
        return;
    }
    all.push((at.clone(), a, b));
    match (a, b) {
        (RefNode::Branch(ca, _), RefNode::Branch(cb, _)) => {
            for i in 0..16 {
                at.push(i as u8);
                walk(&ca[i], &cb[i], at, structural, all);
                at.pop();
            }
        }
        (RefNode::Ext(na, ca), RefNode::Ext(nb, cb)) if na == nb => {
            at.extend(na);
            walk(ca, cb, at, structural, all);
            at.truncate(at.len() - na.len());
        }
        (RefNode::Leaf(na, _), RefNode::Leaf(nb, _)) if na == nb => (),
        (RefNode::Hash(_), RefNode::Hash(_)) => (),
        _ => structural.push((at.clone(), a, b)),
    }
}

/// `(key: 0x12 Value: 0x34, Node type: Leaf Trie hash: 56..)`
fn side(at: &Key, n: &RefNode, text: &str, who: &str) -> Verdict {
    let mut key = at.0.clone();
    let value = match n {
        RefNode::Leaf(ns, v) => {
            key.extend(ns);
            Some(v)
        }
        RefNode::Ext(ns, _) => {
            key.extend(ns);
            None
        }
        RefNode::Branch(_, v) if !v.is_empty() => Some(v),
        _ => None,
    };
    let word = |label: &str| {
        let rest = &text[text.find(label)? + label.len()..];
        let end = rest.find([' ', ',', ')']).unwrap_or(rest.len());
        Some(&rest[..end])
    };
    let hex = |v: &[u8]| v.iter().map(|b| format!("{b:02x}")).collect::<String>();
    let want_key = format!("0x{}", Key(key).digits());
    ensure(word("key: ") == Some(&want_key), || {
        format!("{who}: the node's key is {want_key}")
    })?;
    let got = word("Value: ");
    let ok = match value {
        Some(v) => got == Some(&format!("0x{}", hex(v))),
        // A branch without a value may be shown with an empty one.
        None => got == Some("N/A") || (got == Some("0x") && matches!(n, RefNode::Branch(..))),
    };
    ensure(ok, || format!("{who}: the node's value is {:02x?}", value))?;
    ensure(word("Node type: ") == Some(n.type_name()), || {
        format!("{who}: the node is of type {}", n.type_name())
    })?;
    ensure(word("Trie hash: ") == Some(&hex(&n.hash())), || {
        format!("{who}: the node's hash is {}", hex(&n.hash()))
    })
}
