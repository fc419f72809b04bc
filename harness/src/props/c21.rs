//! Trie statistics count the nodes that are there.

use eth_trie_utils::debug_tools::stats::{get_trie_stats, get_trie_stats_with_name};
use proptest::{collection::vec, prelude::*, strategy::BoxedStrategy};
use serde::{Deserialize, Serialize};

use crate::{
    both, gen,
    gen::E,
    lib_ops::*,
    refmodel::{Entry, Key, RefNode},
    runner::{Obs, Property, Tier, Verdict},
};

pub struct C21;

#[derive(Clone, Debug, Deserialize, Hash, Serialize)]
pub struct Case {
    a: Vec<(Key, E)>,
    b: Vec<(Key, E)>,
    /// Which nodes of 32 bytes or more to replace by hash nodes, parents
    /// first.
    hash_a: Vec<bool>,
    /// A name for the first trie, printed with its statistics.
    title: Option<String>,
    /// Many more entries for the second trie, far below its root: how many
    /// branches down, and how many entries there.
    #[serde(default)]
    wide: Option<(u8, u32)>,
}

impl Property for C21 {
    type Case = Case;
    const ID: &'static str = "C21";
    const QUICK: u64 = 250_000;
    const RULE: &'static str = "a case is a pair of tries (both types, with hash entries and nodes replaced by hashes, rarely with thousands and up to 70000 entries far below the root); the statistics of both and their comparison, printed, are read back; non-trivial if one of them has at least 4 nodes that are not empty; distinct by the hash of the whole case";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "averages over no nodes and ratios to zero are not compared",
        "printed averages may be off by the rounding of 32-bit floats",
    ];

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let base = || {
            prop_oneof![
                1 => gen::entries(gen::val(), 0),
                2 => gen::entries(gen::val(), 2),
            ]
        };
        let mask = prop_oneof![
            2 => Just(vec![]),
            1 => vec(prop::bool::weighted(0.2), 1..=12),
        ];
        let wide = prop_oneof![
            2000 => Just(None),
            1 => (0..=60u8, 0..=4096u32).prop_map(Some),
        ];
        let wide = prop_oneof![
            15000 => wide,
            1 => (0..=40u8, 20_000..=70_000u32).prop_map(Some),
        ];
        let title = prop_oneof![
            3 => Just(None),
            2 => "[a-zA-Z0-9 _(){}%:/.-]{0,40}".prop_map(Some),
            1 => "[ -~äß字é]{0,12}".prop_map(Some),
            1 => "[a-z]{200,400}".prop_map(Some),
        ];
        (base(), base(), mask, title, wide)
            .prop_map(|((_, a), (_, b), hash_a, title, wide)| Case {
                a,
                b,
                hash_a,
                title,
                wide,
            })
            .boxed()
    }

    fn check(case: &Case, obs: &mut Obs) -> Verdict {
        both!(stats, case, obs);
        Ok(())
    }
}

#[derive(Debug, Default)]
struct Counts {
    empty: u64,
    hash: u64,
    branch: u64,
    ext: u64,
    leaf: u64,
    lowest: u64,
    leaf_sum: u64,
    hash_sum: u64,
}

impl Counts {
    fn of(n: &RefNode) -> Self {
        let mut c = Counts::default();
        c.add(n, 0);
        c
    }

    fn add(&mut self, n: &RefNode, depth: u64) {
        match n {
            RefNode::Empty => self.empty += 1,
            RefNode::Hash(_) => {
                self.hash += 1;
                self.hash_sum += depth;
                self.lowest = self.lowest.max(depth);
            }
            RefNode::Leaf(..) => {
                self.leaf += 1;
                self.leaf_sum += depth;
                self.lowest = self.lowest.max(depth);
            }
            RefNode::Ext(_, c) => {
                self.ext += 1;
                self.add(c, depth + 1);
            }
            RefNode::Branch(cs, _) => {
                self.branch += 1;
                cs.iter().for_each(|c| self.add(c, depth + 1));
            }
        }
    }

    fn non_empty(&self) -> u64 {
        self.hash + self.branch + self.ext + self.leaf
    }

    fn avg_leaf(&self) -> Option<f64> {
        (self.leaf > 0).then(|| self.leaf_sum as f64 / self.leaf as f64)
    }

    fn avg_hash(&self) -> Option<f64> {
        (self.hash > 0).then(|| self.hash_sum as f64 / self.hash as f64)
    }
}

fn stats<N: Trie>(case: &Case, obs: &mut Obs) -> Verdict {
    let mut i = 0;
    let (_, ca) = gen::compatible(&case.a);
    let (_, cb) = gen::compatible(&case.b);
    let ra = RefNode::build(&ca).hash_out(&mut Vec::new(), &mut |_, n| {
        !case.hash_a.is_empty() && n.is_large() && {
            i += 1;
            case.hash_a[(i - 1) % case.hash_a.len()]
        }
    });
    let mut cb = cb;
    if let Some((down, n)) = case.wide {
        cb.clear();
        let path = vec![3u8; down as usize];
        for i in 0..path.len() {
            let mut k = path[..i].to_vec();
            k.push(5);
            cb.insert(Key(k), Entry::Val(vec![1]));
        }
        for i in 0..n {
            let mut k = path.clone();
            match case.wide {
                Some((_, 0..=4096)) => k.extend([2, 1, 0].map(|s| (i >> (4 * s)) as u8 & 0xf)),
                // Spread out, with many empty slots.
                _ => k.extend((0..6).map(|s| (i.wrapping_mul(0x9e37_79b1) >> (28 - 4 * s)) as u8 & 0xf)),
            }
            cb.insert(Key(k), Entry::Val(vec![2]));
        }
    }
    let rb = RefNode::build(&cb);
    let (a, b): (N, N) = (ra.to_lib(), rb.to_lib());
    let (na, nb) = (Counts::of(&ra), Counts::of(&rb));

    let sa = no_panic(
        || "stats".into(),
        || match &case.title {
            Some(t) => get_trie_stats_with_name(&a, t.clone()),
            None => get_trie_stats(&a),
        },
    )?;
    let sb = no_panic(|| "stats".into(), || get_trie_stats(&b))?;
    let text = no_panic(|| "printing".into(), || sa.to_string())?;
    let ctx = |e: String| format!("{}: {e}\n{text}\nexpected {na:?}", name::<N>());
    single(&text, &na, case.title.as_deref()).map_err(ctx)?;
    let text = no_panic(|| "printing".into(), || sb.to_string())?;
    let ctx = |e: String| format!("{}: {e}\n{text}\nexpected {nb:?}", name::<N>());
    single(&text, &nb, None).map_err(ctx)?;

    for (x, y, nx, ny) in [(&sa, &sb, &na, &nb), (&sb, &sa, &nb, &na), (&sa, &sa, &na, &na)] {
        let text = no_panic(|| "comparison".into(), || x.compare(y).to_string())?;
        comparison(&text, nx, ny)
            .map_err(|e| format!("{}: {e}\n{text}\nexpected {nx:?} and {ny:?}", name::<N>()))?;
    }
    obs.nontrivial = na.non_empty() >= 4 || nb.non_empty() >= 4;
    obs.label_if(na.hash > 0, "hash nodes");
    obs.label_if(na.ext > 0, "extensions");
    obs.label_if(na.lowest >= 4, "depth of 4 or more");
    Ok(())
}

/// The figure after a label at the start of a line.
fn figure<'a>(text: &'a str, label: &str) -> Result<&'a str, String> {
    let mut hits = text.lines().filter_map(|l| {
        let l = l.trim();
        // "Node comparison: Total nodes: 1 / 1 (100.000%)"
        let l = l.strip_prefix("Node comparison:").unwrap_or(l);
        let l = l.strip_prefix("Depth comparison:").unwrap_or(l);
        l.trim().strip_prefix(label)?.strip_prefix(':')
    });
    let first = hits.next().ok_or_else(|| format!("'{label}' is missing"))?;
    Ok(first.trim())
}

fn whole(s: &str, want: u64, label: &str) -> Verdict {
    ensure(s == want.to_string(), || {
        format!("'{label}' is {s}, expected {want}")
    })
}

fn close(s: &str, want: f64, label: &str) -> Verdict {
    let ok = s
        .parse::<f64>()
        .is_ok_and(|x| (x - want).abs() <= 0.0011 + want.abs() * 1e-5);
    ensure(ok, || format!("'{label}' is {s}, expected {want}"))
}

/// Printed with two decimals.
fn share(s: &str, want: f64, label: &str) -> Verdict {
    let ok = s.parse::<f64>().is_ok_and(|x| (x - want).abs() <= 0.011);
    ensure(ok, || format!("the share of '{label}' is {s}, expected {want}"))
}

fn single(text: &str, n: &Counts, title: Option<&str>) -> Verdict {
    for (label, want) in [
        ("Empty", n.empty),
        ("Hash", n.hash),
        ("Branch", n.branch),
        ("Extension", n.ext),
        ("Leaf", n.leaf),
        ("Lowest depth", n.lowest),
    ] {
        let f = figure(text, label)?;
        whole(f.split(' ').next().unwrap_or(""), want, label)?;
        if label != "Lowest depth" {
            let p = f.split_once(" (").and_then(|(_, p)| p.strip_suffix("%)"));
            let p = p.ok_or_else(|| format!("'{label}' has no share: {f}"))?;
            let all = (n.empty + n.non_empty()) as f64;
            share(p, want as f64 / all * 100.0, label)?;
        }
    }
    for (label, want) in [
        ("Average leaf depth", n.avg_leaf()),
        ("Average hash depth", n.avg_hash()),
    ] {
        let f = figure(text, label)?;
        if let Some(want) = want {
            close(f, want, label)?;
        }
    }
    ensure(text.contains(title.unwrap_or("")), || "the name is missing".into())
}

fn comparison(text: &str, a: &Counts, b: &Counts) -> Verdict {
    let parts = |label: &str| -> Result<(String, String, String), String> {
        let f = figure(text, label)?;
        let bad = || format!("'{label}' has an unexpected form: {f}");
        let (x, rest) = f.split_once(" / ").ok_or_else(bad)?;
        let (y, p) = rest.split_once(" (").ok_or_else(bad)?;
        let p = p.strip_suffix("%)").ok_or_else(bad)?;
        Ok((x.trim().into(), y.trim().into(), p.trim().into()))
    };
    for (label, x, y) in [
        ("Total nodes", a.empty + a.non_empty(), b.empty + b.non_empty()),
        ("Non-empty", a.non_empty(), b.non_empty()),
        ("Total empty", a.empty, b.empty),
        ("Total hash", a.hash, b.hash),
        ("Total branch", a.branch, b.branch),
        ("Total extension", a.ext, b.ext),
        ("Total leaf", a.leaf, b.leaf),
        ("Lowest depth", a.lowest, b.lowest),
    ] {
        let (fx, fy, p) = parts(label)?;
        whole(&fx, x, label)?;
        whole(&fy, y, label)?;
        if y > 0 {
            close(&p, x as f64 / y as f64 * 100.0, &format!("{label}, ratio"))?;
        }
    }
    for (label, x, y) in [
        ("Avg leaf depth", a.avg_leaf(), b.avg_leaf()),
        ("Avg hash depth", a.avg_hash(), b.avg_hash()),
    ] {
        let (fx, fy, p) = parts(label)?;
        if let Some(x) = x {
            close(&fx, x, label)?;
        }
        if let Some(y) = y {
            close(&fy, y, label)?;
        }
        if let (Some(x), Some(y)) = (x, y) {
            if y > 0.0 {
                close(&p, x / y * 100.0, &format!("{label}, ratio"))?;
            }
        }
    }
    Ok(())
}
