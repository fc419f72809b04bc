//! Logging changes nothing.

use std::{
    cell::Cell,
    fmt::Write,
    sync::{Condvar, Mutex, Once},
};

use eth_trie_utils::{
    debug_tools::{diff::create_diff_between_tries, query::get_path_from_query, stats::get_trie_stats},
    nibbles::Nibbles,
    partial_trie::{HashedPartialTrie, Node},
    trie_ops::ValOrHash,
};
use log::{LevelFilter, Log, Metadata, Record};
use proptest::{collection::vec, prelude::*, strategy::BoxedStrategy};
use serde::{Deserialize, Serialize};

use crate::{
    both, gen,
    gen::{Op, Pick, E},
    lib_ops::*,
    refmodel::{Contents, Key, RefNode},
    runner::{guarded, Obs, Property, Tier, Verdict},
};

pub struct C25;

#[derive(Clone, Debug, Deserialize, Hash, Serialize)]
pub struct Case {
    entries: Vec<(Key, E)>,
    /// Also ones that are refused.
    ops: Vec<Op>,
    queries: Vec<Key>,
    hash_first: bool,
    /// 1 (errors only) to 5 (everything).
    level: u8,
    /// Whether the level is also set for the whole process.
    #[serde(default)]
    exact: bool,
}

impl Property for C25 {
    type Case = Case;
    const ID: &'static str = "C25";
    const QUICK: u64 = 16_000;
    const RULE: &'static str = "a case is a trie, with hash entries in half of the cases, a list of operations on it, some of them refused, a few keys to query and a log level; everything is done once with logging off and once with a logger installed that formats every record, and all outcomes are compared; both trie types; non-trivial if the trie has at least 2 entries, there are at least 2 operations and at least one record was logged; distinct by the hash of the whole case";

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let base = prop_oneof![
            1 => gen::entries(gen::small_val(), 0),
            1 => gen::entries(gen::small_val(), 6),
            1 => gen::entries(gen::val(), 2),
        ];
        let op = prop_oneof![
            4 => (gen::pick(), gen::val()).prop_map(|(p, v)| (p, Some(E::V(v)), false)),
            1 => (gen::pick(), any::<u8>()).prop_map(|(p, h)| (p, Some(E::H(h)), false)),
            4 => gen::pick().prop_map(|p| (p, None, false)),
            2 => gen::pick().prop_map(|p| (p, None, true)),
        ];
        let level = prop_oneof![3 => Just(5u8), 2 => 1..=4u8];
        (base, vec(op, 0..=14), vec(gen::pick(), 0..=3), any::<bool>(), level, any::<bool>())
            .prop_map(|((keys, entries), ops, queries, hash_first, level, exact)| Case {
                exact,
                entries,
                ops: ops
                    .into_iter()
                    .map(|(p, e, get): (Pick, Option<E>, bool)| match (e, get) {
                        (Some(E::V(v)), _) => Op::Ins(p.near(&keys), v),
                        (Some(E::H(h)), _) => Op::InsHash(p.near(&keys), h),
                        (None, false) => Op::Del(p.near(&keys)),
                        (None, true) => Op::Get(p.near(&keys)),
                    })
                    .collect(),
                queries: queries.into_iter().map(|p| p.near(&keys)).collect(),
                hash_first,
                level,
            })
            .boxed()
    }

    fn check(case: &Case, obs: &mut Obs) -> Verdict {
        install();
        both!(logged, case, obs);
        Ok(())
    }
}

/// The log level is one for the whole process: it is only changed while no
/// thread is using the library, and threads that want the same go together.
static MODE: Mutex<(LevelFilter, usize)> = Mutex::new((LevelFilter::Off, 0));
static FREE: Condvar = Condvar::new();
static INSTALL: Once = Once::new();
static SINK: Sink = Sink;

thread_local! {
    static RECORDS: Cell<u64> = const { Cell::new(0) };
    /// What this thread wants to have of it.
    static WANTED: Cell<LevelFilter> = const { Cell::new(LevelFilter::Off) };
}

fn with_level<R>(level: LevelFilter, wanted: LevelFilter, f: impl FnOnce() -> R) -> R {
    let lock = || MODE.lock().unwrap_or_else(|e| e.into_inner());
    let mut m = lock();
    while m.1 > 0 && m.0 != level {
        m = FREE.wait(m).unwrap_or_else(|e| e.into_inner());
    }
    m.0 = level;
    m.1 += 1;
    log::set_max_level(level);
    drop(m);
    WANTED.with(|w| w.set(wanted));
    // Panics are caught inside.
    let r = f();
    lock().1 -= 1;
    FREE.notify_all();
    r
}

struct Sink;

impl Log for Sink {
    fn enabled(&self, m: &Metadata) -> bool {
        m.level() <= WANTED.with(Cell::get)
    }

    fn log(&self, r: &Record) {
        if self.enabled(r.metadata()) {
            let mut text = String::new();
            write!(text, "{} {} {}", r.level(), r.target(), r.args()).expect("formatting failed");
            RECORDS.with(|n| n.set(n.get() + u64::from(!text.is_empty())));
        }
    }

    fn flush(&self) {}
}

fn install() {
    INSTALL.call_once(|| {
        log::set_logger(&SINK).expect("a logger is installed already");
        log::set_max_level(LevelFilter::Off);
    });
}

fn logged<N: Trie>(case: &Case, obs: &mut Obs) -> Verdict {
    let level = [
        LevelFilter::Error,
        LevelFilter::Warn,
        LevelFilter::Info,
        LevelFilter::Debug,
        LevelFilter::Trace,
    ][(case.level as usize).clamp(1, 5) - 1];

    let off = with_level(LevelFilter::Off, LevelFilter::Off, || guarded(|| outcomes::<N>(case)));
    let off = off.map_err(|p| format!("{}: unexpected panic: {p}", name::<N>()))?;
    let before = RECORDS.with(Cell::get);
    let most = if case.exact { level } else { LevelFilter::Trace };
    let on = with_level(most, level, || guarded(|| outcomes::<N>(case)));
    let records = RECORDS.with(Cell::get) - before;

    let on = on.map_err(|p| format!("{}: with logging: unexpected panic: {p}", name::<N>()))?;
    if let Some(((what, op, a), (_, _, b))) = off.iter().zip(&on).find(|(a, b)| a != b) {
        return Err(format!(
            "{}: {what} {op:?}: outcome is\n  {a:?}\nwithout logging, but\n  {b:?}\nwith level {level}",
            name::<N>()
        ));
    }
    ensure(off.len() == on.len(), || {
        format!("{}: {} outcomes without logging, {} with", name::<N>(), off.len(), on.len())
    })?;

    let (_, c) = gen::compatible(&case.entries);
    obs.nontrivial |= c.len() >= 2 && case.ops.len() >= 2 && records > 0;
    obs.label_if(records > 0, "records logged");
    obs.label_if(records >= 100, "100 or more records logged");
    obs.label_if(off.iter().any(|(_, _, o)| *o == Outcome::Refused), "an operation was refused");
    obs.label_if(case.level < 5, "a level that leaves out some records");
    Ok(())
}

#[derive(Debug, Eq, PartialEq)]
enum Outcome {
    Text(String),
    Value(Option<Vec<u8>>),
    Items(Vec<(Nibbles, ValOrHash)>),
    Trie(RefNode),
    Refused,
}

fn outcomes<N: Trie>(case: &Case) -> Vec<(&'static str, Option<&Op>, Outcome)> {
    let mut out = Vec::new();
    let mut put = |what, op, r: Result<Outcome, String>| {
        // What a refusal says is not compared.
        out.push((what, op, r.unwrap_or(Outcome::Refused)));
    };
    let show = |t: &N| match RefNode::of::<N>(t) {
        Ok(n) => Outcome::Trie(n),
        Err(_) => Outcome::Text(format!("{t:?}")),
    };

    let (list, c) = gen::compatible(&case.entries);
    let mut t = N::default();
    put("building", None, guarded(|| t = build(&list)).map(|_| show(&t)));
    let collected: Result<N, String> =
        guarded(|| c.iter().map(|(k, e)| (k.nib(), e.to_lib())).collect());
    put("collecting", None, collected.map(|t| show(&t)));
    if case.hash_first {
        put("hash", None, guarded(|| t.hash()).map(text));
    }
    for op in &case.ops {
        let r = match op {
            Op::Del(k) => guarded(|| t.delete(k.nib())).map(Outcome::Value),
            Op::Get(k) => guarded(|| t.get(k.nib()).map(|v| v.to_vec())).map(Outcome::Value),
            op => apply_lib(&mut t, &Contents::new(), op).map(text),
        };
        put("step", Some(op), r);
        put("trie after step", Some(op), Ok(show(&t)));
    }
    put("hash", None, guarded(|| t.hash()).map(text));
    put("comparison", None, guarded(|| build::<N>(&list) == t).map(text));
    let cap = list.len() + case.ops.len() + 20;
    put(
        "items",
        None,
        guarded(|| t.items().take(cap).collect::<Vec<_>>()).map(Outcome::Items),
    );
    let keys: Vec<Key> = case.queries.clone();
    put(
        "subset",
        None,
        subset(&t, &keys).map(|s| s.map_or_else(Outcome::Text, |s| show(&s))),
    );
    for k in &keys {
        put(
            "query",
            None,
            guarded(|| get_path_from_query::<N, _>(&t, k.nib()).to_string()).map(Outcome::Text),
        );
    }
    put("statistics", None, guarded(|| get_trie_stats(&t).to_string()).map(Outcome::Text));
    // The same change on a caching trie, compared with the start.
    let node = |t: &N| -> Result<HashedPartialTrie, String> {
        let n: &Node<N> = t;
        guarded(|| RefNode::of(n).map(|r| r.to_lib()))?
    };
    if let (Ok(a), Ok(b)) = (guarded(|| build::<N>(&list)).and_then(|a| node(&a)), node(&t)) {
        put("diff", None, guarded(|| create_diff_between_tries(&a, &b).to_string()).map(Outcome::Text));
    }
    out
}

fn text(x: impl std::fmt::Debug) -> Outcome {
    Outcome::Text(format!("{x:02x?}"))
}
