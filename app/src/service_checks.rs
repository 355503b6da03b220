//! U01: the background service which processes traces for the user interface

use crate::display_checks::{multi, single};
use clang_time_trace::{ActivityTrace, ActivityTraceId, ClangTrace, ParsedActivityArgument};
use crofiler::verif::{display_activity_desc, metadata, ActivityDescError, ActivityInfo, DisplayConfig, ProcessingThread};
use proptest::{collection::vec, prelude::*, sample::select};
use serde::{Deserialize, Serialize};
use std::{path::PathBuf, str::FromStr, sync::mpsc};
use vcommon::{ensure, ensure_eq, fail, no_panic, sub, Case, CaseResult, Env, Prop};
use vgen::{
    cpp::Noise,
    trace::{self, Shape, Trace},
};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// Load some trace, or a broken one; wait for the result, or ask the next thing at once
    Load(u8, bool),
    /// The same, from a file which is overwritten by each of these
    Overwrite(u8),
    Trace(u16),
    Roots,
    All,
    /// Callees of an activity: some proportion of the list
    Direct(u16),
    Callees(u16),
    Describe(Vec<u16>, u16),
    DescribeAll(u16),
    One(u16, u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    traces: Vec<Trace>,
    ops: Vec<Op>,
}
fn cols() -> BoxedStrategy<u16> {
    prop_oneof![3 => select(vec![1u16, 20, 40, 80]), 2 => 1u16..120, 1 => select(vec![2000u16, 65535])].boxed()
}
fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        2 => (any::<u8>(), any::<bool>()).prop_map(|(a, b)| Op::Load(a, b)),
        1 => any::<u8>().prop_map(Op::Overwrite),
        1 => cols().prop_map(Op::Trace),
        1 => Just(Op::Roots),
        1 => Just(Op::All),
        1 => any::<u16>().prop_map(Op::Direct),
        1 => any::<u16>().prop_map(Op::Callees),
        4 => (vec(any::<u16>(), 0..6), cols()).prop_map(|(a, b)| Op::Describe(a, b)),
        2 => cols().prop_map(Op::DescribeAll),
        3 => (any::<u16>(), cols()).prop_map(|(a, b)| Op::One(a, b)),
    ]
    .boxed()
}
fn history(size: u32, rich: bool, len: usize) -> BoxedStrategy<History> {
    let t = trace::trace(Shape { depth: 4, size, width: 3, roots: 3, rich }).prop_map(|mut t| {
        // Single-line forms exclude line feeds, so does the process name
        let fix = |s: &mut String| *s = s.replace(['\n', '\r'], "_");
        fix(&mut t.process);
        for a in &mut t.acts {
            fix(&mut a.name);
            a.detail.as_mut().map(fix);
        }
        t
    });
    // Other traces of the same shape, whose activities are the same in another order, have the same identifiers
    (vec((t, any::<u64>()), 1..4), vec(op(), 1..len))
        .prop_map(|(ts, ops)| {
            let mut traces = vec![];
            for (t, n) in ts {
                if n % 2 == 0 && t.acts.len() > 1 {
                    let mut n = Noise::new(n | 1);
                    let mut other = t.clone();
                    for i in (1..other.acts.len()).rev() {
                        let j = n.next(i as u64 + 1) as usize;
                        let (a, b) = (other.acts[i].clone(), other.acts[j].clone());
                        (other.acts[i].name, other.acts[i].detail) = (b.name, b.detail);
                        (other.acts[j].name, other.acts[j].detail) = (a.name, a.detail);
                    }
                    traces.push(other);
                }
                traces.push(t);
            }
            History { traces, ops }
        })
        .boxed()
}
/// What a fresh computation gives
pub fn describe(t: &mut ClangTrace, id: ActivityTraceId, config: DisplayConfig) -> Result<(String, bool), String> {
    let raw = t.activity_trace(id).activity().raw_argument().clone();
    let detail = raw.detail();
    let parsed = match raw.parse(t) {
        Ok(p) => p,
        Err(_) => match detail {
            Some(d) => ParsedActivityArgument::String(d),
            None => ParsedActivityArgument::Nothing,
        },
    };
    let a = t.activity_trace(id);
    let mut v = vec![];
    let arg = parsed.resolve(t);
    let outcome = display_activity_desc(&mut v, a.activity().id(), &arg, config);
    match outcome {
        Ok(wrap) => Ok((String::from_utf8(v).map_err(|_| "not UTF-8")?, wrap)),
        Err(ActivityDescError::NotEnoughCols(_)) => Ok(("…".into(), false)),
        Err(e) => Err(e.to_string()),
    }
}
fn compare<'a>(what: &str, got: &[ActivityInfo], expected: impl Iterator<Item = ActivityTrace<'a>>) -> CaseResult {
    let expected: Vec<_> = expected.collect();
    ensure_eq!(got.len(), expected.len(), "number of {what}");
    for (g, e) in got.iter().zip(&expected) {
        let name = e.activity().name();
        ensure!(g.id == e.id(), "{what}: {:?} instead of {:?}", g.id, e.id());
        ensure_eq!(g.duration, e.duration(), "{what}: duration of {name:?}");
        ensure_eq!(g.self_duration, e.self_duration(), "{what}: self-duration of {name:?}");
        ensure_eq!(g.has_children, e.direct_children().next().is_some(), "{what}: having callees, for {name:?}");
    }
    Ok(())
}
fn check_history(env: &Env, h: &History, case: &mut Case) -> CaseResult {
    let dir = env.scratch.join(format!("u{:?}", std::thread::current().id()).replace(['(', ')'], "-"));
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let mut files: Vec<(PathBuf, Option<String>)> = vec![];
    for (i, t) in h.traces.iter().enumerate() {
        let f = dir.join(format!("{i}.json"));
        let text = t.text();
        std::fs::write(&f, &text).map_err(|e| e.to_string())?;
        files.push((f, Some(text)));
    }
    let bad = dir.join("bad.json");
    std::fs::write(&bad, "{\"traceEvents\": [").map_err(|e| e.to_string())?;
    files.push((bad, None));
    files.push((dir.join("missing.json"), None));
    let before = vcommon::OTHER_PANICS.lock().map(|p| p.len()).unwrap_or(0);
    let r = no_panic(|| run_history(h, &files, case));
    let _ = std::fs::remove_dir_all(&dir);
    match r {
        Ok(r) => r,
        Err(e) => {
            let other = vcommon::OTHER_PANICS.lock().map(|p| p[before.min(p.len())..].join("; ")).unwrap_or_default();
            fail!("{e} ({other})")
        }
    }
}
fn run_history(h: &History, files: &[(PathBuf, Option<String>)], case: &mut Case) -> CaseResult {
    let mut service = ProcessingThread::start();
    let mut current: Option<ClangTrace> = None;
    let mut loads = 0;
    let at = |n: usize, x: u16| (n * x as usize) >> 16;
    let ops = std::iter::once(Op::Load(0, true)).chain(h.ops.iter().cloned());
    let mut steps = 0;
    for op in ops {
        // Nothing else can be asked without a trace
        let op = if current.is_none() { if let Op::Load(..) | Op::Overwrite(_) = op { op } else { Op::Load(loads as u8, true) } } else { op };
        steps += 1;
        match op {
            Op::Load(k, _) | Op::Overwrite(k) => {
                let (file, text) = &files[k as usize % files.len()];
                let mut file = file;
                let wait = !matches!(op, Op::Load(_, false));
                let same = file.with_file_name("same.json");
                if let Op::Overwrite(_) = op {
                    match text {
                        Some(text) => std::fs::write(&same, text).map_err(|e| e.to_string())?,
                        None => std::fs::copy(&files[files.len() - 2].0, &same).map(|_| ()).map_err(|e| e.to_string())?,
                    }
                    file = &same;
                }
                let (tx, rx) = mpsc::channel();
                service.start_load_trace(file, move |r| {
                    let _ = tx.send(r.map_err(|e| e.to_string()));
                });
                current = match text {
                    Some(text) => Some(ClangTrace::from_str(text).map_err(|e| format!("harness: {e}"))?),
                    None => None,
                };
                // The next requests must wait for the loading in any case
                if wait || current.is_none() {
                    let r = rx.recv().map_err(|_| "the service does not report the result of loading a trace")?;
                    ensure!(r.is_ok() == current.is_some(), "loading {file:?} gives {r:?}");
                }
                loads += 1;
                case.label_if(current.is_none(), "load failure");
            }
            Op::Trace(c) => {
                let t = current.as_ref().ok_or("unreachable")?;
                ensure_eq!(service.describe_trace(c), metadata(t, c), "metadata in {c} columns");
            }
            Op::Roots => compare("root activities", &service.get_root_activities(), current.as_ref().ok_or("unreachable")?.root_activities())?,
            Op::All => compare("activities", &service.get_all_activities(), current.as_ref().ok_or("unreachable")?.all_activities())?,
            Op::Direct(x) | Op::Callees(x) => {
                let t = current.as_ref().ok_or("unreachable")?;
                let ids: Vec<_> = t.all_activities().map(|a| a.id()).collect();
                let Some(&id) = ids.get(at(ids.len(), x)) else { continue };
                if let Op::Direct(_) = op {
                    compare("direct callees", &service.get_direct_children(id), t.activity_trace(id).direct_children())?;
                } else {
                    compare("callees", &service.get_all_children(id), t.activity_trace(id).all_children())?;
                }
            }
            Op::Describe(..) | Op::DescribeAll(_) => {
                let t = current.as_mut().ok_or("unreachable")?;
                let ids: Vec<_> = t.all_activities().map(|a| a.id()).collect();
                let (list, c) = match op {
                    Op::Describe(l, c) => (l.iter().filter_map(|x| ids.get(at(ids.len(), *x)).copied()).collect(), c),
                    Op::DescribeAll(c) => (ids, c),
                    _ => unreachable!(),
                };
                let got = service.describe_activities(list.clone().into(), c);
                ensure_eq!(got.len(), list.len(), "number of descriptions");
                for (g, id) in got.iter().zip(list) {
                    ensure_eq!(g.to_string(), describe(t, id, single(c))?.0, "description in {c} columns");
                    case.evals += 1;
                }
            }
            Op::One(x, c) => {
                let t = current.as_mut().ok_or("unreachable")?;
                let ids: Vec<_> = t.all_activities().map(|a| a.id()).collect();
                let Some(&id) = ids.get(at(ids.len(), x)) else { continue };
                ensure_eq!(service.describe_activity(id, c), describe(t, id, multi(c, 0, 0))?, "full description");
            }
        }
        case.evals += 1;
    }
    case.label_if(loads > 1, "several loads");
    case.nontrivial(loads > 1 && steps > 4);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "U01",
        assumptions: vec![
            "nothing but loading is asked while no trace is loaded, as in the user interface",
            "the expected answers are computed by this process on its own copy of the trace; T01-T04, D01-D05 say what they should be",
        ],
        subs: vec![
            Box::new(sub("short", "at least two loads and five requests", (48_000, 800_000), |_| history(8, true, 12), check_history).hang(60).shrink(2000)),
            Box::new(sub("long", "at least two loads and five requests", (6_000, 100_000), |_| history(40, false, 60), check_history).hang(60).shrink(2000)),
        ],
    }]
}
