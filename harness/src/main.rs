//! `trie-checks PROPERTY --root DIR [--replay FILE] [--second-build NAME]`
//!
//! Environment: VERIF_SEED, VERIF_TIER (quick or thorough), VERIF_CASES
//! (overrides the number of generated cases, for experiments).

use std::{env, path::PathBuf, process::exit};

use trie_checks::{
    props::*,
    runner::{run, Opts, Tier},
};

fn usage() -> ! {
    eprintln!("usage: trie-checks PROPERTY --root DIR [--replay FILE] [--second-build NAME]");
    exit(2)
}

fn number(name: &str) -> Option<u64> {
    let v = env::var(name).ok().filter(|v| !v.is_empty())?;
    match v.trim().parse() {
        Ok(n) => Some(n),
        Err(_) => {
            eprintln!("{name} is not a number: {v}");
            exit(2)
        }
    }
}

fn main() {
    let mut args = env::args().skip(1);
    let id = args.next().unwrap_or_else(|| usage());
    let (mut root, mut replay, mut second_build) = (None, None, None);
    while let Some(a) = args.next() {
        let v = args.next().unwrap_or_else(|| usage());
        match a.as_str() {
            "--root" => root = Some(PathBuf::from(v)),
            "--replay" => replay = Some(PathBuf::from(v)),
            "--second-build" => second_build = Some(v),
            _ => usage(),
        }
    }
    let opts = Opts {
        tier: match env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        },
        seed: number("VERIF_SEED").unwrap_or(1),
        root: root.unwrap_or_else(|| usage()),
        replay,
        second_build,
        cases: number("VERIF_CASES"),
    };

    macro_rules! dispatch {
        ($($module:ident $property:ident),* $(,)?) => {
            match id.as_str() {
                $(stringify!($property) => run::<$module::$property>(opts),)*
                _ => usage(),
            }
        };
    }
    dispatch!(
        c01 C01, c02 C02, c03 C03, c04 C04, c05 C05, c06 C06, c07 C07, c08 C08, c09 C09,
        c10 C10, c11 C11, c12 C12, c13 C13, c14 C14, c15 C15, c16 C16, c17 C17, c18 C18,
        c19 C19, c20 C20, c21 C21, c22 C22, c23 C23, c24 C24, c25 C25, c26 C26, c27 C27, c28 C28,
    )
}
