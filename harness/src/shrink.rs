//! Second stage of shrinking, on the written form of a case: takes out list
//! elements and characters and lowers numbers as long as the case still reads
//! and still fails. proptest's own shrinking is weak across dependent parts
//! (keys that operations refer to); this one is not.

use std::{ops::Range, sync::Mutex, time::Instant};

use serde_json::Value;

use crate::runner::{eval, Obs, Property};

#[derive(Clone, Debug)]
enum Step {
    Index(usize),
    Field(String),
}

fn at<'a>(v: &'a mut Value, path: &[Step]) -> Option<&'a mut Value> {
    path.iter().try_fold(v, |v, s| match s {
        Step::Index(i) => v.get_mut(*i),
        Step::Field(f) => v.get_mut(f),
    })
}

fn paths(v: &Value, here: &mut Vec<Step>, out: &mut Vec<Vec<Step>>) {
    out.push(here.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                here.push(Step::Index(i));
                paths(x, here, out);
                here.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                here.push(Step::Field(k.clone()));
                paths(x, here, out);
                here.pop();
            }
        }
        _ => (),
    }
}

/// Ranges to leave out of a list of this length, the longest first.
fn cuts(len: usize) -> impl Iterator<Item = Range<usize>> {
    std::iter::successors(Some(len), |s| Some(s / 2))
        .take_while(|s| *s > 0)
        .flat_map(move |s| (0..len).step_by(s).rev().map(move |i| i..(i + s).min(len)))
}

fn without<T: Clone>(a: &[T], r: Range<usize>) -> impl Iterator<Item = T> + '_ {
    a[..r.start].iter().chain(&a[r.end..]).cloned()
}

/// Smaller forms of one part, the boldest first. Made one at a time, since
/// there are very many of a large part.
fn smaller(v: &Value) -> Box<dyn Iterator<Item = Value> + '_> {
    match v {
        Value::Array(a) => Box::new(cuts(a.len()).map(|r| without(a, r).collect())),
        Value::String(s) => {
            let cs: Vec<char> = s.chars().collect();
            Box::new(
                cuts(cs.len()).map(move |r| Value::String(without(&cs, r).collect())),
            )
        }
        Value::Number(n) => {
            let n = n.as_u64().unwrap_or(0);
            let less = [0, 1, n / 2, n.saturating_sub(1)];
            Box::new(less.into_iter().filter(move |m| *m < n).map(Value::from))
        }
        Value::Bool(true) => Box::new(std::iter::once(Value::Bool(false))),
        _ => Box::new(std::iter::empty()),
    }
}

pub fn by_parts<P: Property>(best: &Mutex<Option<(P::Case, String)>>, end: Instant) {
    let Some(mut current) = best
        .lock()
        .unwrap()
        .as_ref()
        .and_then(|(c, _)| serde_json::to_value(c).ok())
    else {
        return;
    };
    let mut progress = true;
    while progress {
        progress = false;
        let mut all = Vec::new();
        paths(&current, &mut Vec::new(), &mut all);
        for path in all {
            // The part may be gone by now, or may allow several steps.
            'part: while let Some(part) = at(&mut current, &path).cloned() {
                for cand in smaller(&part) {
                    if Instant::now() > end {
                        return;
                    }
                    let mut next = current.clone();
                    *at(&mut next, &path).unwrap() = cand;
                    let Ok(case) = serde_json::from_value::<P::Case>(next.clone()) else {
                        continue;
                    };
                    if let Err(error) = eval::<P>(&case, &mut Obs::default()) {
                        *best.lock().unwrap() = Some((case, error));
                        current = next;
                        progress = true;
                        continue 'part;
                    }
                }
                break;
            }
        }
    }
}
