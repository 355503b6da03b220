//! T01-T04: clang time-traces

use clang_time_trace::{
    ActivityArgument, ActivityArgumentError, ActivityArgumentType as AT, ActivityId, ActivityTrace, ClangTrace, ClangTraceLoadError,
    ParsedActivityArgument, Symbol,
};
use cpparser::EntityParser;
use proptest::{collection::vec, prelude::*, sample::select};
use serde::{Deserialize, Serialize};
use std::{collections::HashMap, str::FromStr};
use vcommon::{enumerated, ensure, ensure_eq, fail, no_panic, sub, Case, CaseResult, Env, Prop};
use vgen::{
    cpp,
    trace::{self, us, Act, Kind, Shape, Trace, J},
};

fn load(text: &str) -> Result<ClangTrace, String> {
    no_panic(|| ClangTrace::from_str(text).map_err(|e| format!("{e}").chars().take(300).collect::<String>()))?
}
fn key(t: &ActivityTrace) -> (String, Option<String>, u64, u64) {
    (t.activity().name().into(), t.activity().raw_argument().detail().map(|d| d.to_string()), t.start().to_bits(), t.duration().to_bits())
}

// ---------------------------------------------------------------------- T01

fn verify_contents(m: &Trace, t: &ClangTrace) -> CaseResult {
    ensure_eq!(t.process_name(), m.process.as_str(), "process name");
    ensure_eq!(t.thread_name(), m.thread.as_deref(), "thread name");
    ensure_eq!(t.beginning_of_time(), m.begin.map(|b| b as f64), "beginning of time");
    ensure_eq!(t.pid(), (m.pid > 1).then_some(m.pid), "pid");
    ensure_eq!(t.global_stats().len(), m.stats.len(), "number of global statistics");
    for s in &m.stats {
        let Some(g) = t.global_stats().get(s.name.as_str()) else { fail!("no global statistic {:?}", s.name) };
        ensure_eq!(g.total_duration(), us(s.total), "total duration of {:?}", s.name);
        ensure_eq!(g.count() as u64, s.count, "count of {:?}", s.name);
        let avg = us(s.total) / s.count as f64;
        ensure!((g.average_duration() - avg).abs() <= avg.abs() * 1e-12, "average of {:?}: {} instead of {avg}", s.name, g.average_duration());
    }
    let mut seen: Vec<_> = t.all_activities().map(|a| key(&a)).collect();
    let mut expected: Vec<_> =
        m.acts.iter().map(|a| (a.name.clone(), a.detail.clone(), us(a.start).to_bits(), us(a.dur).to_bits())).collect();
    seen.sort();
    expected.sort();
    ensure_eq!(seen, expected, "activities");
    for a in t.all_activities() {
        ensure_eq!(a.end(), a.start() + a.duration(), "end of an activity");
        let name = a.activity().name();
        ensure_eq!(matches!(a.activity().id(), ActivityId::UnknownActivity(_)), trace::kind_of(name).is_none(), "being a known activity, for {name:?}");
    }
    Ok(())
}
fn check_load(env: &Env, m: &Trace, from_file: bool, case: &mut Case) -> CaseResult {
    let text = m.text();
    case.label_if(m.begin.is_some(), "start time");
    case.label_if(m.thread.is_some(), "thread name");
    case.label_if(!m.stats.is_empty(), "statistics");
    case.label_if(m.shuffle != 0, "metadata among activities");
    case.label_if(m.acts.is_empty(), "no activities");
    case.nontrivial(m.acts.len() + m.stats.len() >= 3);
    let t = if from_file {
        let file = env.scratch.join(format!("t{:?}.json", std::thread::current().id()).replace(['(', ')'], "-"));
        std::fs::write(&file, &text).map_err(|e| e.to_string())?;
        let r = no_panic(|| ClangTrace::from_file(&file).map_err(|e| format!("{e}").chars().take(300).collect::<String>()));
        let _ = std::fs::remove_file(&file);
        r?.map_err(|e| format!("well-formed trace file is rejected: {e}"))?
    } else {
        load(&text).map_err(|e| format!("well-formed trace is rejected: {e}"))?
    };
    verify_contents(m, &t)
}

// ---------------------------------------------------------------------- T02

/// Name the activities apart
fn numbered(m: &Trace) -> Trace {
    let mut m = m.clone();
    for (i, a) in m.acts.iter_mut().enumerate() {
        a.name = "RunPass".into();
        a.detail = Some(format!("{i}"));
    }
    m
}
fn number(a: &ActivityTrace) -> Result<usize, String> {
    a.activity().raw_argument().detail().and_then(|d| d.parse().ok()).ok_or_else(|| "activity without its number".to_string())
}
fn numbers<'a>(it: impl Iterator<Item = ActivityTrace<'a>>) -> Result<Vec<usize>, String> {
    let mut v = it.map(|a| number(&a)).collect::<Result<Vec<_>, _>>()?;
    v.sort();
    Ok(v)
}
fn verify_tree(m: &Trace, t: &ClangTrace, case: &mut Case) -> CaseResult {
    let n = m.acts.len();
    let parents = m.parents();
    let mut children: Vec<Vec<usize>> = vec![vec![]; n];
    let mut descendants: Vec<Vec<usize>> = vec![vec![]; n];
    let mut roots = vec![];
    for i in 0..n {
        match parents[i] {
            Some(p) => children[p].push(i),
            None => roots.push(i),
        }
    }
    // Quadratic for chains, but enough here
    for i in 0..n {
        let mut d = vec![];
        for &c in &children[i] {
            d.push(c);
            d.extend(descendants[c].iter().copied());
        }
        d.sort();
        descendants[i] = d;
    }
    case.label_if(children.iter().any(|c| c.len() > 1), "several children");
    case.label_if(roots.len() > 1, "several roots");
    case.label_if(m.acts.iter().any(|a| a.dur == 0), "zero duration");
    ensure_eq!(numbers(t.all_activities())?, (0..n).collect::<Vec<_>>(), "all activities");
    ensure_eq!(numbers(t.root_activities())?, roots, "root activities");
    let mut ids = std::collections::HashSet::new();
    for a in t.all_activities() {
        let i = number(&a)?;
        case.evals += 1;
        ensure!(ids.insert(a.id()), "identifier {:?} is used twice", a.id());
        let again = t.activity_trace(a.id());
        ensure_eq!(number(&again)?, i, "activity found by the identifier of activity {i}");
        ensure_eq!(a.start(), us(m.acts[i].start), "start of activity {i}");
        ensure_eq!(a.duration(), us(m.acts[i].dur), "duration of activity {i}");
        ensure_eq!(a.parent().map(|p| number(&p)).transpose()?, parents[i], "parent of activity {i}");
        ensure_eq!(numbers(a.direct_children())?, children[i], "direct children of activity {i}");
        ensure_eq!(numbers(a.all_children())?, descendants[i], "all children of activity {i}");
        for c in a.direct_children() {
            ensure_eq!(c.parent().map(|p| p.id()), Some(a.id()), "identifier of the parent of a child");
            ensure_eq!(number(&t.activity_trace(c.id()))?, number(&c)?, "activity found by the identifier of a child");
        }
        let own: i64 = m.acts[i].dur - children[i].iter().map(|&c| m.acts[c].dur).sum::<i64>();
        ensure_eq!(a.self_duration(), us(own), "self-duration of activity {i}");
        let sum: f64 = a.all_children().map(|c| c.self_duration()).sum::<f64>() + a.self_duration();
        ensure!((sum - a.duration()).abs() <= 1e-6 * (1.0 + a.duration()), "self-durations below activity {i} add up to {sum} instead of {}", a.duration());
    }
    Ok(())
}
fn check_tree(m: &Trace, case: &mut Case) -> CaseResult {
    let m = numbered(m);
    case.nontrivial(m.acts.len() >= 4);
    let t = load(&m.text()).map_err(|e| format!("properly nested trace is rejected: {e}"))?;
    verify_tree(&m, &t, case)
}
/// Any list of intervals: loaded as the tree it is, or rejected
fn check_intervals(iv: &[(i64, i64)], case: &mut Case) -> CaseResult {
    // Mostly by quarters of microseconds
    let unit = if iv.iter().map(|(s, d)| s + d).sum::<i64>() % 4 == 3 { 1000 } else { 250 };
    let acts: Vec<Act> = iv.iter().map(|&(s, d)| Act { name: String::new(), detail: None, start: 5000 + s * unit, dur: d * unit }).collect();
    let m = numbered(&Trace::with_acts(acts));
    let a = &m.acts;
    let unordered = a.windows(2).any(|w| w[1].end() < w[0].end());
    let overlap = (0..a.len()).any(|j| (0..j).any(|i| a[i].start < a[j].start && a[j].start < a[i].end()));
    case.nontrivial(a.len() >= 2);
    case.label(match (unordered, overlap) {
        (true, _) => "badly ordered",
        (_, true) => "overlapping",
        _ => "properly nested",
    });
    match (unordered || overlap, load(&m.text())) {
        (true, Ok(_)) => fail!("activities which are badly ordered ({unordered}) or overlapping ({overlap}) are accepted: {iv:?}"),
        (true, Err(e)) if e.starts_with("panic") => Err(e),
        (true, Err(_)) => Ok(()),
        (false, Err(e)) => fail!("properly nested activities {iv:?} are rejected: {e}"),
        (false, Ok(t)) => verify_tree(&m, &t, case),
    }
}
/// Chains and stars
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Big {
    n: u16,
    /// Every how many activities a chain is closed
    chain: u16,
    zero: u8,
}
fn check_big(b: &Big, case: &mut Case) -> CaseResult {
    let (n, chain) = (b.n as i64, b.chain.max(1) as i64);
    let mut acts = vec![];
    let mut t = 2000;
    let mut i = 0;
    let start0 = t;
    while i < n {
        let len = chain.min(n - i);
        // Innermost first
        let base = t;
        for k in 0..len {
            let inner = len - 1 - k;
            let (s, e) = if b.zero % 3 == 0 { (base, base + 1000 * (k + 1)) } else { (base + 1000 * inner, base + 1000 * (len + k + 1)) };
            acts.push(Act { name: String::new(), detail: None, start: s, dur: if b.zero % 3 == 1 && len == 1 { 0 } else { e - s } });
        }
        t = acts.last().unwrap().end() + 1000 * (b.zero as i64 % 2);
        i += len;
    }
    if b.zero % 5 != 0 {
        acts.push(Act { name: String::new(), detail: None, start: start0, dur: t - start0 });
    }
    let m = numbered(&Trace::with_acts(acts));
    case.nontrivial(m.acts.len() >= 100);
    let t = load(&m.text()).map_err(|e| format!("properly nested trace is rejected: {e}"))?;
    verify_tree(&m, &t, case)
}

// ---------------------------------------------------------------------- T03

/// What to break in a well-formed trace
const FAULTS: &[&str] = &[
    "truncated", "trailing garbage", "no events", "events null", "events object", "array format", "no process name", "two process names",
    "two equal process names", "two thread names", "phase B", "phase E", "phase unknown", "phase missing", "metadata process_labels",
    "metadata process_sort_index", "metadata thread_sort_index", "metadata unknown", "metadata without name", "other pid in activity",
    "other pid in statistic", "other pid in process name", "other pid in thread name", "ts string", "ts null", "ts missing", "ts object", "dur string", "dur null",
    "dur missing", "name missing", "name number", "pid missing", "pid string", "pid fraction", "pid huge", "tid missing", "tid other",
    "tid 0", "tid 0 in process name", "negative pid with tid 0",
    "tid string", "overlap", "order", "stat no count", "stat no average", "stat extra", "stat negative count", "stat fractional count",
    "stat string count", "stat string average", "stat no total", "stat twice", "stat thread 0", "stat no arguments", "stat late", "stat name missing", "stat cat",
    "activity early", "activity cat", "activity tts", "activity tdur", "activity sf", "activity stack", "activity esf", "activity estack",
    "process name cat missing", "process name cat", "process name ts", "process name ts missing", "process name tts", "process name extra",
    "process name number", "process name missing", "process name tid", "process name no arguments", "thread name cat missing", "thread name cat",
    "thread name ts", "thread name ts missing", "thread name tts", "thread name extra", "thread name number", "thread name missing",
    "thread name tid", "unit ns", "unit bogus", "stack frames", "samples", "system events", "power", "controller", "start time string",
    "start time null", "start time object", "start time bool", "argument missing", "arguments empty", "argument superfluous", "argument extra",
    "argument number", "argument null", "argument misnamed", "arguments array",
];
/// Applies the fault, or returns None where it does not make sense
fn inject(m: &Trace, fault: &str, pick: u64, spelling: u64) -> Option<String> {
    let mut doc = m.json();
    let n_acts = m.acts.len();
    let act = |k: u64| -> usize { (k % n_acts.max(1) as u64) as usize };
    // Positions of the kinds of events in the document
    let (mut acts, mut stats, mut proc, mut thread) = (vec![], vec![], 0, None);
    let J::Arr(events) = doc.get_mut("traceEvents").unwrap() else { unreachable!() };
    for (i, e) in events.iter().enumerate() {
        let name = match e.get("name") {
            Some(J::Str(s)) => s.clone(),
            _ => String::new(),
        };
        if e.get("ph") == Some(&J::s("M")) {
            if name == "process_name" {
                proc = i;
            } else {
                thread = Some(i);
            }
        } else if matches!(e.get("ts"), Some(J::Num(x)) if x.parse::<f64>().unwrap() == 0.0) {
            stats.push(i);
        } else {
            acts.push(i);
        }
    }
    let some_act = |k: u64| (!acts.is_empty()).then(|| acts[(k % acts.len() as u64) as usize]);
    let some_stat = |k: u64| (!stats.is_empty()).then(|| stats[(k % stats.len() as u64) as usize]);
    let insert = |events: &mut Vec<J>, e: J| {
        let at = (pick / 7) as usize % (events.len() + 1);
        events.insert(at, e);
    };
    let other_pid = m.pid.wrapping_add(1 + (pick % 1000) as i32).max(2);
    let other_pid = if other_pid == m.pid { 3 } else { other_pid };
    let _ = act;
    match fault {
        "truncated" => {
            let t = doc.text(spelling);
            let t = t.trim_end();
            let mut at = pick as usize % t.len();
            while !t.is_char_boundary(at) {
                at -= 1;
            }
            return Some(t[..at].into());
        }
        "trailing garbage" => return Some(format!("{}{}", doc.text(spelling), ["}", "x", "{}", ",", "]", "\0"][pick as usize % 6])),
        "no events" => doc.remove("traceEvents"),
        "events null" => doc.set("traceEvents", J::Raw("null".into())),
        "events object" => doc.set("traceEvents", J::obj(vec![])),
        "array format" => return Some(doc.get("traceEvents").unwrap().text(spelling)),
        "no process name" => {
            events.remove(proc);
        }
        "two process names" => {
            let tid = m.tid;
            insert(events, m.name_json("process_name", &format!("{}x", m.process), tid));
        }
        "two equal process names" => {
            let e = events[proc].clone();
            insert(events, e);
        }
        "two thread names" => {
            if m.pid == 1 {
                return None;
            }
            if thread.is_none() {
                insert(events, m.name_json("thread_name", "x", m.tid));
            }
            let name = if pick % 2 == 0 { "x".to_string() } else { m.thread.clone().unwrap_or_default() };
            insert(events, m.name_json("thread_name", &name, m.tid));
        }
        "phase B" => events[some_act(pick)?].set("ph", J::s("B")),
        "phase E" => events[some_act(pick)?].set("ph", J::s("E")),
        "phase unknown" => {
            let i = pick as usize % events.len();
            events[i].set("ph", J::s(["i", "C", "b", "n", "e", "s", "x", "", "XX", "m", "P"][pick as usize % 11]))
        }
        "phase missing" => {
            let i = pick as usize % events.len();
            events[i].remove("ph")
        }
        "metadata process_labels" => {
            let mut e = m.name_json("process_labels", "x", m.tid);
            e.set("args", J::obj(vec![("labels", J::s("x"))]));
            insert(events, e)
        }
        "metadata process_sort_index" | "metadata thread_sort_index" => {
            let mut e = m.name_json(fault.strip_prefix("metadata ").unwrap(), "x", m.tid);
            e.set("args", J::obj(vec![("sort_order", J::n(pick % 5))]));
            insert(events, e)
        }
        "metadata unknown" => {
            let e = m.name_json(["clock", "process_uptime", "", "Process_name", "name"][pick as usize % 5], "x", m.tid);
            insert(events, e)
        }
        "metadata without name" => {
            let mut e = m.name_json("process_name", "x", m.tid);
            e.remove("name");
            insert(events, e)
        }
        "other pid in activity" => {
            let e = &mut events[some_act(pick)?];
            e.set("pid", J::n(other_pid));
            e.set("tid", J::n(other_pid));
        }
        "other pid in statistic" => events[some_stat(pick)?].set("pid", J::n(other_pid)),
        "other pid in process name" => {
            if acts.is_empty() && stats.is_empty() && thread.is_none() {
                return None;
            }
            events[proc].set("pid", J::n(other_pid));
            events[proc].set("tid", J::n(other_pid));
        }
        "other pid in thread name" => {
            let e = &mut events[thread?];
            e.set("pid", J::n(other_pid));
            e.set("tid", J::n(other_pid));
        }
        "ts string" | "ts null" | "ts missing" | "ts object" | "dur string" | "dur null" | "dur missing" | "pid missing" | "pid string" | "pid fraction"
        | "pid huge" | "tid missing" | "tid string" => {
            let (field, what) = fault.split_once(' ').unwrap();
            let candidates: Vec<usize> = acts.iter().chain(&stats).copied().collect();
            if candidates.is_empty() {
                return None;
            }
            let e = &mut events[candidates[pick as usize % candidates.len()]];
            match what {
                "string" => e.set(field, J::s(["1", "", "12.5", "x"][pick as usize % 4])),
                "null" => e.set(field, J::Raw("null".into())),
                "object" => e.set(field, J::obj(vec![])),
                "fraction" => e.set(field, J::Num(format!("{}.5", m.pid))),
                "huge" => e.set(field, J::Num("4294967296000".into())),
                _ => e.remove(field),
            }
        }
        "name missing" => events[some_act(pick)?].remove("name"),
        "name number" => events[some_act(pick)?].set("name", J::n(5)),
        "tid other" => events[some_act(pick)?].set("tid", J::n(if m.tid == 7 { 8 } else { 7 })),
        // Thread 0 is for process 1 only
        "tid 0" => {
            if m.pid == 1 {
                return None;
            }
            events[some_act(pick)?].set("tid", J::n(0))
        }
        "tid 0 in process name" => {
            if m.pid == 1 {
                return None;
            }
            events[proc].set("tid", J::n(0))
        }
        "negative pid with tid 0" => {
            for i in acts.iter().copied().chain([proc]) {
                events[i].set("pid", J::n(-1 - (pick % 100) as i32));
                events[i].set("tid", J::n(0));
            }
            for i in stats.iter().copied() {
                events[i].set("pid", J::n(-1 - (pick % 100) as i32));
            }
            if let Some(i) = thread {
                events.remove(i);
            }
        }
        "overlap" => {
            // Ends after an activity, but starts in its midst
            let k = (0..n_acts).map(|k| (k + pick as usize) % n_acts).find(|&k| m.acts[k].dur >= 500)?;
            let a = &m.acts[k];
            let start = a.start + 250 * (1 + (pick % (a.dur / 250 - 1) as u64) as i64);
            let last = m.acts.last().unwrap().end();
            let e = Act { name: "Frontend".into(), detail: None, start, dur: last - start };
            let at = *acts.last().unwrap();
            // (when it only touches the end, it is inside)
            if e.end() == a.end() && e.start >= a.start {
                let e = Act { dur: e.dur + 1000, ..e };
                let e = m.act_json(&e, &mut None);
                events.insert(at + 1, e);
            } else {
                let e = m.act_json(&e, &mut None);
                events.insert(at + 1, e);
            }
        }
        "order" => {
            if n_acts < 2 {
                return None;
            }
            let k = (0..n_acts - 1).map(|k| (k + pick as usize) % (n_acts - 1)).find(|&k| m.acts[k].end() < m.acts[k + 1].end())?;
            events.swap(acts[k], acts[k + 1]);
        }
        "stat no count" => events[some_stat(pick)?].get_mut("args")?.remove("count"),
        "stat no average" => events[some_stat(pick)?].get_mut("args")?.remove("avg ms"),
        "stat extra" => events[some_stat(pick)?].get_mut("args")?.set(["detail", "min ms", "", "Count"][pick as usize % 4], J::n(1)),
        "stat negative count" => events[some_stat(pick)?].get_mut("args")?.set("count", J::n(-1)),
        "stat fractional count" => events[some_stat(pick)?].get_mut("args")?.set("count", J::Num("1.5".into())),
        "stat string count" => events[some_stat(pick)?].get_mut("args")?.set("count", J::s("1")),
        "stat string average" => events[some_stat(pick)?].get_mut("args")?.set("avg ms", J::s("1")),
        "stat no total" => events[some_stat(pick)?].set("name", J::s(["Frontend", "total Frontend", "TotalFrontend", "", " Total x"][pick as usize % 5])),
        "stat twice" => {
            let e = events[some_stat(pick)?].clone();
            insert(events, e)
        }
        "stat thread 0" => events[some_stat(pick)?].set("tid", J::n(0)),
        "stat no arguments" => events[some_stat(pick)?].remove("args"),
        "stat late" => events[some_stat(pick)?].set("ts", J::Num("0.5".into())),
        "stat name missing" => events[some_stat(pick)?].remove("name"),
        "stat cat" => events[some_stat(pick)?].set("cat", J::s("x")),
        "activity early" => events[some_act(pick)?].set("ts", J::Num("0.5".into())),
        "activity cat" => events[some_act(pick)?].set("cat", J::s(["x", "", "a,b"][pick as usize % 3])),
        "activity tts" => events[some_act(pick)?].set("tts", J::n(3)),
        "activity tdur" => events[some_act(pick)?].set("tdur", J::n(3)),
        "activity sf" => events[some_act(pick)?].set("sf", J::n(3)),
        "activity stack" => events[some_act(pick)?].set("stack", J::Arr(vec![J::s("0x1")])),
        "activity esf" => events[some_act(pick)?].set("esf", J::s("3")),
        "activity estack" => events[some_act(pick)?].set("estack", J::Arr(vec![])),
        f if f.starts_with("process name ") || f.starts_with("thread name ") => {
            let (i, what) = match f.strip_prefix("process name ") {
                Some(w) => (proc, w),
                None => (thread?, f.strip_prefix("thread name ").unwrap()),
            };
            let e = &mut events[i];
            match what {
                "cat missing" => e.remove("cat"),
                "cat" => e.set("cat", J::s("x")),
                "ts" => e.set("ts", J::Num(["1", "0.5", "-1"][pick as usize % 3].into())),
                "ts missing" => e.remove("ts"),
                "tts" => e.set("tts", J::n(0)),
                "extra" => e.get_mut("args")?.set("x", J::n(1)),
                "number" => e.get_mut("args")?.set("name", J::n(1)),
                "missing" => e.get_mut("args")?.remove("name"),
                "tid" => e.set("tid", J::n(if m.pid == 77 { 78 } else { 77 })),
                "no arguments" => e.remove("args"),
                _ => unreachable!("{what}"),
            }
        }
        "unit ns" => doc.set("displayTimeUnit", J::s("ns")),
        "unit bogus" => doc.set("displayTimeUnit", J::s("h")),
        "stack frames" => doc.set("stackFrames", J::obj(vec![])),
        "samples" => doc.set("samples", J::Arr(vec![])),
        "system events" => doc.set("systemTraceEvents", J::s("")),
        "power" => doc.set("powerTraceAsString", J::s("x")),
        "controller" => doc.set("controllerTraceDataKey", J::s("traceEvents")),
        "start time string" => doc.set("beginningOfTime", J::s("123")),
        "start time null" => doc.set("beginningOfTime", J::Raw("null".into())),
        "start time object" => doc.set("beginningOfTime", J::obj(vec![])),
        "start time bool" => doc.set("beginningOfTime", J::Raw("true".into())),
        f if f.starts_with("argument") => {
            let what = f.split_once(' ').unwrap().1;
            let needed = |k: Kind| !matches!(k, Kind::Nothing | Kind::SymbolOpt | Kind::LoopOpt);
            let ok = |a: &Act| match what {
                "missing" | "empty" => trace::kind_of(&a.name).is_some_and(needed),
                "superfluous" => trace::kind_of(&a.name) == Some(Kind::Nothing),
                "extra" | "number" | "null" | "misnamed" => a.detail.is_some(),
                _ => true,
            };
            let k = (0..n_acts).map(|k| (k + pick as usize) % n_acts).find(|&k| ok(&m.acts[k]))?;
            let e = &mut events[acts[k]];
            match what {
                "missing" => e.remove("args"),
                "empty" => e.set("args", J::obj(vec![])),
                "superfluous" => e.set("args", J::obj(vec![(["detail", "x"][pick as usize % 2], J::s("x"))])),
                "extra" => e.get_mut("args")?.set(["x", "detail2", ""][pick as usize % 3], J::n(1)),
                "number" => e.set("args", J::obj(vec![("detail", J::n(3))])),
                "null" => e.set("args", J::obj(vec![("detail", J::Raw("null".into()))])),
                "misnamed" => e.set("args", J::obj(vec![("details", J::s("x"))])),
                "array" => e.set("args", J::Arr(vec![J::s("x")])),
                _ => unreachable!("{what}"),
            }
        }
        other => unreachable!("{other}"),
    }
    Some(doc.text(spelling))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Faulty {
    trace: Trace,
    fault: u16,
    pick: u64,
}
fn check_fault(f: &Faulty, case: &mut Case) -> CaseResult {
    let fault = FAULTS[f.fault as usize % FAULTS.len()];
    let Some(text) = inject(&f.trace, fault, f.pick, f.trace.spelling) else {
        case.label("not applicable");
        return Ok(());
    };
    case.label(fault);
    case.nontrivial(f.trace.acts.len() + f.trace.stats.len() >= 2);
    match no_panic(|| ClangTrace::from_str(&text).map(|_| ()).map_err(|e| format!("{e} {e:?}"))) {
        Err(p) => Err(p),
        Ok(Ok(())) => fail!("trace with fault {fault:?} is accepted: {text}"),
        Ok(Err(_)) => Ok(()),
    }
}
/// Arbitrary and damaged texts
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Doc {
    Damaged(Trace, Vec<(u32, u8, String)>),
    Json(String),
    Raw(String),
}
fn json_soup() -> BoxedStrategy<J> {
    let leaf = prop_oneof![
        3 => select(vec!["0", "1", "-1", "2", "100", "1e400", "-0.0", "1e-400", "4294967296", "18446744073709551615", "18446744073709551616", "0.5", "1.0"]).prop_map(|s| J::Num(s.into())),
        2 => trace::text_strategy().prop_map(J::Str),
        2 => select(vec!["X", "M", "B", "E", "process_name", "thread_name", "Total Frontend", "Frontend", "Source", "ParseClass", "detail", "", "ms", "ns"]).prop_map(|s| J::Str(s.into())),
        1 => select(vec!["null", "true", "false"]).prop_map(|s| J::Raw(s.into())),
    ];
    let keys = select(vec![
        "traceEvents", "beginningOfTime", "ph", "ts", "dur", "pid", "tid", "name", "args", "cat", "detail", "count", "avg ms", "sf", "stack", "esf", "estack",
        "tts", "tdur", "stackFrames", "samples", "displayTimeUnit", "category", "parent", "labels", "sort_order", "",
    ]);
    leaf.prop_recursive(5, 40, 8, move |j| {
        prop_oneof![
            1 => vec(j.clone(), 0..5).prop_map(J::Arr),
            2 => vec((keys.clone(), j.clone()), 0..8).prop_map(|v| J::obj(v)),
            2 => (vec(j, 0..8), prop::bool::weighted(0.8)).prop_map(|(v, b)| event_like(v, b)),
        ]
    })
    .boxed()
}
/// Object with the fields of an event
fn event_like(v: Vec<J>, good: bool) -> J {
    let mut it = v.into_iter();
    let mut next = || it.next().unwrap_or(J::n(2));
    let e = if good {
        J::obj(vec![("ph", J::s("X")), ("ts", next()), ("dur", next()), ("pid", J::n(1)), ("tid", J::n(0)), ("name", J::s("Source")), ("args", next())])
    } else {
        J::obj(vec![("ph", next()), ("ts", next()), ("dur", next()), ("pid", next()), ("tid", next()), ("name", next()), ("args", next()), ("cat", next())])
    };
    J::obj(vec![("traceEvents", J::Arr(vec![e]))])
}
fn check_text(d: &Doc, case: &mut Case) -> CaseResult {
    let text = match d {
        Doc::Damaged(m, edits) => {
            let mut cs: Vec<char> = m.text().chars().collect();
            for (at, del, ins) in edits {
                let at = *at as usize % (cs.len() + 1);
                let end = (at + *del as usize).min(cs.len());
                cs.splice(at..end, ins.chars());
            }
            cs.into_iter().collect()
        }
        Doc::Json(j) => j.clone(),
        Doc::Raw(s) => s.clone(),
    };
    let r = no_panic(|| {
        ClangTrace::from_str(&text)
            .map(|t| {
                // What was accepted can be looked at
                let n = t.all_activities().count();
                let roots = t.root_activities().count();
                let ids: usize = t.all_activities().map(|a| a.direct_children().count()).sum();
                assert_eq!(n, ids + roots, "activities are neither roots nor children");
            })
            .map_err(|e| {
                let _ = format!("{e} {e:?}");
            })
    })?;
    case.label(if r.is_ok() { "accepted" } else { "rejected" });
    case.nontrivial(text.len() >= 10);
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum BadFile {
    Missing(String),
    Directory,
    NotUtf8(Trace, u32),
    Empty,
    Truncated(Trace, u32),
}
fn check_bad_file(env: &Env, b: &BadFile, case: &mut Case) -> CaseResult {
    let dir = env.scratch.join(format!("f{:?}", std::thread::current().id()).replace(['(', ')'], "-"));
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let path = dir.join("t.json");
    case.nontrivial(true);
    let io = match b {
        BadFile::Missing(s) => {
            case.label("missing");
            let p = dir.join(s);
            ensure!(matches!(no_panic(|| ClangTrace::from_file(&p))?, Err(ClangTraceLoadError::Io(_))), "missing trace file {s:?} is not reported as such");
            return Ok(());
        }
        BadFile::Directory => {
            ensure!(matches!(no_panic(|| ClangTrace::from_file(&dir))?, Err(ClangTraceLoadError::Io(_))), "a directory is not rejected as unreadable");
            return Ok(());
        }
        BadFile::NotUtf8(m, at) => {
            let mut bytes = m.text().into_bytes();
            let at = *at as usize % bytes.len();
            bytes.insert(at, 0xFF);
            std::fs::write(&path, bytes).map_err(|e| e.to_string())?;
            None
        }
        BadFile::Empty => {
            std::fs::write(&path, "").map_err(|e| e.to_string())?;
            Some(false)
        }
        BadFile::Truncated(m, at) => {
            let bytes = m.text().trim_end().to_string().into_bytes();
            let at = *at as usize % bytes.len();
            std::fs::write(&path, &bytes[..at]).map_err(|e| e.to_string())?;
            None
        }
    };
    let r = no_panic(|| ClangTrace::from_file(&path).map(|_| ()));
    let _ = std::fs::remove_file(&path);
    match (r?, io) {
        (Ok(()), _) => fail!("damaged trace file is accepted"),
        (Err(ClangTraceLoadError::Io(e)), Some(false)) => fail!("readable file is reported as unreadable ({e})"),
        (Err(_), _) => Ok(()),
    }
}

// ---------------------------------------------------------------------- T04

fn show(t: &ClangTrace, p: &ParsedActivityArgument) -> (String, String) {
    match p.resolve(t) {
        ActivityArgument::Nothing => ("nothing".into(), String::new()),
        ActivityArgument::String(s) => ("string".into(), s.into()),
        ActivityArgument::FilePath(p) => ("path".into(), p.to_boxed_path().to_string_lossy().into_owned()),
        ActivityArgument::CppEntity(e) => ("entity".into(), e.to_string()),
        ActivityArgument::Symbol(Symbol::Parsed(e)) => ("symbol".into(), e.to_string()),
        ActivityArgument::Symbol(Symbol::Demangled(s)) => ("demangled".into(), s.into()),
        ActivityArgument::Symbol(Symbol::MaybeMangled(s)) => ("verbatim".into(), s.into()),
        ActivityArgument::UnnamedLoop => ("loop".into(), String::new()),
        ActivityArgument::Module => ("module".into(), String::new()),
    }
}
/// An argument, with what it should parse to where that is known
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Arg {
    Absent,
    Text(String),
    Path(String),
    Relative(String),
    Module,
    Loop,
    NotLoop(String),
    Entity(cpp::Ty, u64),
    Mangled(trace::Mangled),
    /// Symbol, whether in parentheses
    Unmangled(String, bool),
    /// Special symbol: prefix after _Z, text in front
    Special(u8, trace::Mangled),
    Main(u8),
    /// Anything else
    Wild(String),
}
const SPECIAL: &[(&str, &str)] = &[("TI", "typeinfo for "), ("TS", "typeinfo name for "), ("GV", "guard variable for ")];
impl Arg {
    fn detail(&self) -> Option<String> {
        Some(match self {
            Arg::Absent => return None,
            Arg::Text(s) | Arg::Path(s) | Arg::Relative(s) | Arg::NotLoop(s) | Arg::Wild(s) => s.clone(),
            Arg::Module => "[module]".into(),
            Arg::Loop => "<unnamed loop>".into(),
            Arg::Entity(t, n) => t.spelled(*n),
            Arg::Mangled(m) => m.symbol(),
            Arg::Unmangled(s, p) => if *p { format!("({s})") } else { s.clone() },
            Arg::Special(k, m) => {
                let m = trace::Mangled { params: None, parens: false, mac: false, parts: special_parts(m) };
                format!("_Z{}{}", SPECIAL[*k as usize % SPECIAL.len()].0, &m.symbol()[2..])
            }
            Arg::Main(k) => ["main", "(main)", "__clang_call_terminate", "(__clang_call_terminate)"][*k as usize % 4].into(),
        })
    }
    /// Kind and text, or the kind of error
    fn expected(&self) -> Option<Result<(String, String), &'static str>> {
        let ok = |k: &str, s: String| Some(Ok((k.to_string(), s)));
        match self {
            Arg::Absent => ok("nothing", String::new()),
            Arg::Text(s) => ok("string", s.clone()),
            Arg::Path(s) => ok("path", format!("/{}", trace::normalise(s).join("/"))),
            Arg::Relative(_) => Some(Err("path")),
            Arg::Module => ok("module", String::new()),
            Arg::Loop => ok("loop", String::new()),
            Arg::NotLoop(_) => Some(Err("loop")),
            Arg::Entity(t, _) => ok("entity", t.canonical()),
            Arg::Mangled(m) => ok("symbol", m.canonical()),
            Arg::Unmangled(s, _) => ok("verbatim", s.clone()),
            Arg::Special(k, m) => {
                let m = trace::Mangled { params: None, parens: false, mac: false, parts: special_parts(m) };
                ok("demangled", format!("{}{}", SPECIAL[*k as usize % SPECIAL.len()].1, m.canonical()))
            }
            Arg::Main(k) => ok("symbol", if *k % 4 < 2 { "main".into() } else { "__clang_call_terminate".into() }),
            Arg::Wild(_) => None,
        }
    }
}
/// Plain scopes, whose demangled spelling is also ours
fn special_parts(m: &trace::Mangled) -> Vec<trace::MPart> {
    m.parts.iter().map(|p| trace::MPart { name: p.name.clone(), args: None }).collect()
}
fn valid_arg(k: Kind) -> BoxedStrategy<Arg> {
    let sym = prop_oneof![
        6 => trace::mangled().prop_map(Arg::Mangled),
        3 => (trace::unmangled_symbol(), any::<bool>()).prop_map(|(s, p)| Arg::Unmangled(s, p)),
        2 => odd_symbol(),
        2 => dangling_symbol(),
        1 => (any::<u8>(), trace::mangled()).prop_map(|(k, m)| Arg::Special(k, m)),
        1 => any::<u8>().prop_map(Arg::Main),
    ]
    .boxed();
    match k {
        Kind::Nothing => Just(Arg::Absent).boxed(),
        Kind::Str => prop_oneof![select(trace::PASSES).prop_map(|s| Arg::Text(s.into())), trace::text_strategy().prop_map(Arg::Text)].boxed(),
        Kind::Path => prop_oneof![4 => trace::path().prop_map(Arg::Path), 1 => Just(Arg::Module), 1 => relative()].boxed(),
        Kind::Entity => (cpp::entity(2, 2), any::<u64>()).prop_map(|(t, n)| Arg::Entity(t, n)).boxed(),
        Kind::Symbol => sym,
        Kind::SymbolOpt => prop_oneof![1 => Just(Arg::Absent), 3 => sym].boxed(),
        Kind::Loop => prop_oneof![4 => Just(Arg::Loop), 1 => not_loop()].boxed(),
        Kind::LoopOpt => prop_oneof![3 => Just(Arg::Loop), 2 => Just(Arg::Absent), 1 => not_loop()].boxed(),
    }
}
/// Symbols that are not mangled, with parentheses of their own
fn odd_symbol() -> BoxedStrategy<Arg> {
    let part = select(vec!["(", ")", "()", "(int)", "f", "main", "-[Foo bar:]", "+[A b]", "operator()", " ", "[module]", "<unnamed loop>", "/a/b", "é", "Z1fv", "$_0", "."]);
    (vec(part, 0..5), any::<bool>())
        .prop_map(|(v, p)| (v.concat(), p))
        .prop_filter("main, or in parentheses", |(s, p)| !["main", "__clang_call_terminate"].contains(&&**s) && (*p || !(s.starts_with('(') && s.ends_with(')'))))
        .prop_map(|(s, p)| Arg::Unmangled(s, p))
        .boxed()
}
/// Symbols which read as mangled ones, but use template parameters that do not exist
fn dangling_symbol() -> BoxedStrategy<Arg> {
    ("[a-z][a-z0-9_]{0,20}", vec(select(vec!["i", "Pc", "1A", "Lb1E"]), 1..4), 0usize..3, select(vec!["", "i", "Pd"]), select(vec!["", "P", "RK"]), any::<bool>())
        .prop_map(|(name, args, more, before, around, p)| (format!("_Z{}{name}I{}Ev{before}{around}T{}_", name.len(), args.concat(), args.len() + more - 1), p))
        .prop_map(|(s, p)| Arg::Unmangled(s, p))
        .boxed()
}
fn relative() -> BoxedStrategy<Arg> {
    prop_oneof![
        trace::path().prop_map(|p| p.trim_start_matches('/').to_string()),
        select(vec!["", "[Module]", "[module] ", "<stdin>", "a", "./a", "../x", " /a", "a[module]", "[module]a", "[module]/", "[module]/[module]", "([module])", "(/a)", "[module][module]"]).prop_map(|s| s.to_string()),
    ]
    .prop_filter("module", |s| s != "[module]" && !s.starts_with('/'))
    .prop_map(Arg::Relative)
    .boxed()
}
fn not_loop() -> BoxedStrategy<Arg> {
    prop_oneof![
        select(vec!["", "unnamed loop", "<unnamed loop> ", "<Unnamed loop>", "for", "<unnamed>", "my <unnamed loop>", "<unnamed loop>x", "%1<unnamed loop>", "unnamed loop>", "<unnamed loop", "(<unnamed loop>)"]).prop_map(|s| s.to_string()),
        trace::text_strategy(),
    ]
    .prop_filter("loop", |s| s != "<unnamed loop>")
    .prop_map(Arg::NotLoop)
    .boxed()
}
fn wild() -> BoxedStrategy<Arg> {
    let chars = select(vec![
        'a', 'N', 'E', 'I', 'S', '_', 'Z', 'P', 'K', 'R', 'i', 'v', 'T', '0', '1', '3', 'L', 'J', 'D', 'p', 'c', 'F', 'X', '(', ')', '<', '>', '.', 'é', ' ',
    ]);
    prop_oneof![
        2 => trace::text_strategy(),
        2 => vec(chars.clone(), 0..24).prop_map(|v| format!("_Z{}", v.into_iter().collect::<String>())),
        2 => (trace::mangled(), any::<u16>(), chars, 0u8..3).prop_map(|(m, at, c, op)| {
            let mut cs: Vec<char> = m.symbol().chars().collect();
            let at = at as usize % cs.len();
            match op {
                0 => { cs.remove(at); }
                1 => cs.insert(at, c),
                _ => cs[at] = c,
            }
            cs.into_iter().collect()
        }),
        1 => select(vec!["", "(", ")", "()", "_Z", "(_Z)", "/", "//", "_GLOBAL_", "___Z1fv", "[module", "<unnamed loop", "é", "_Z1fDnDv", "_ZUlvE_", "_Z1fIiEvT0_", "_Z1fT_"]).prop_map(|s| s.to_string()),
        1 => (cpp::entity(2, 2), any::<u64>()).prop_map(|(t, n)| t.spelled(n)),
        1 => trace::path(),
        1 => (select(vec!["P", "K", "R", "N1a", "1aI", "PK", "F"]), 1usize..60, select(vec!["i", "iE", "1a", "v", "E", "PiE"])).prop_map(|(a, n, z)| format!("_Z1f{}{z}", a.repeat(n))),
    ]
    .prop_map(Arg::Wild)
    .boxed()
}
fn arg_type(k: Kind) -> AT {
    match k {
        Kind::Nothing => AT::Nothing,
        Kind::Str => AT::String,
        Kind::Path => AT::FilePathOrModule,
        Kind::Entity => AT::CppEntity,
        Kind::Symbol => AT::Symbol,
        Kind::SymbolOpt => AT::SymbolOpt,
        Kind::Loop => AT::UnnamedLoop,
        Kind::LoopOpt => AT::UnnamedLoopOpt,
    }
}
fn known_with(arg: impl Fn(Kind) -> BoxedStrategy<Arg> + Clone + 'static) -> BoxedStrategy<(String, Arg)> {
    select(trace::ACTIVITIES).prop_flat_map(move |(n, k)| arg(k).prop_map(move |a| (n.to_string(), a))).boxed()
}
fn wild_for(k: Kind) -> BoxedStrategy<Arg> {
    match k {
        Kind::Nothing => Just(Arg::Absent).boxed(),
        _ => wild(),
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Args {
    acts: Vec<(String, Arg)>,
    /// Which arguments are parsed, in order
    order: Vec<u8>,
    spelling: u64,
}
/// Trace with these activities in succession
fn trace_of(acts: &[(String, Option<String>)], spelling: u64) -> Trace {
    let acts = acts
        .iter()
        .enumerate()
        .map(|(i, (n, d))| Act { name: n.clone(), detail: d.clone(), start: 2000 + 1000 * i as i64, dur: 1000 })
        .collect();
    Trace { spelling, ..Trace::with_acts(acts) }
}
type Outcome = Result<(String, String), String>;
fn parse_one(t: &mut ClangTrace, id: usize) -> Result<Outcome, String> {
    let raw = t.activity_trace(id).activity().raw_argument().clone();
    let r = no_panic(|| raw.parse(t))?;
    Ok(match r {
        Ok(p) => {
            let s = show(t, &p);
            ensure!(matches!((&*s.0, &p), ("nothing", ParsedActivityArgument::Nothing) | ("string", ParsedActivityArgument::String(_)) | ("path", ParsedActivityArgument::FilePath(_))
                | ("entity", ParsedActivityArgument::CppEntity(_)) | ("symbol" | "demangled" | "verbatim", ParsedActivityArgument::Symbol(_))
                | ("loop", ParsedActivityArgument::UnnamedLoop) | ("module", ParsedActivityArgument::Module)), "resolved kind {} of {p:?}", s.0);
            Ok(s)
        }
        Err(e) => {
            let _ = e.to_string();
            Err(match e {
                ActivityArgumentError::BadFilePath(_) => "path".into(),
                ActivityArgumentError::BadCppEntity(_) => "entity".into(),
                ActivityArgumentError::UnexpectedLoopName(_) => "loop".into(),
            })
        }
    })
}
fn check_args(a: &Args, case: &mut Case) -> CaseResult {
    if a.acts.is_empty() {
        return Ok(());
    }
    let details: Vec<(String, Option<String>)> = a.acts.iter().map(|(n, d)| (n.clone(), d.detail())).collect();
    let m = trace_of(&details, a.spelling);
    let mut t = load(&m.text()).map_err(|e| format!("trace is rejected: {e}"))?;
    let ids: HashMap<u64, usize> = t.all_activities().map(|x| (x.start().to_bits(), x.id())).collect();
    let mut first: HashMap<usize, Outcome> = HashMap::new();
    case.nontrivial(a.order.len() >= 2);
    for (step, o) in a.order.iter().enumerate() {
        let i = *o as usize % a.acts.len();
        let (name, arg) = &a.acts[i];
        let id = *ids.get(&us(m.acts[i].start).to_bits()).ok_or("activity has been lost")?;
        let kind = trace::kind_of(name).ok_or("unknown activity")?;
        {
            let tr = t.activity_trace(id);
            let raw = tr.activity().raw_argument();
            ensure_eq!(raw.arg_type(), arg_type(kind), "kind of argument of {name:?}");
            ensure_eq!(raw.detail().map(|d| d.to_string()), details[i].1, "raw argument of {name:?}");
        }
        let got = parse_one(&mut t, id).map_err(|e| format!("{name:?} with {:?}: {e}", details[i].1))?;
        case.evals += 1;
        if let Some(e) = arg.expected() {
            case.label(match &e {
                Ok((k, _)) => k.clone(),
                Err(k) => format!("bad {k}"),
            });
            ensure_eq!(got, e.map_err(|k| k.to_string()), "argument {:?} of {name:?} at step {step}", details[i].1);
        } else {
            case.label(format!("wild {}", if got.is_ok() { "accepted" } else { "rejected" }));
            let s = details[i].1.as_deref().unwrap_or("");
            let ok = |k: &str, s: &str| Some(Ok((k.to_string(), s.to_string())));
            let expected = match kind {
                // Entities are those of the entity parser
                Kind::Entity => {
                    let mut p = EntityParser::new();
                    match p.parse_entity(s) {
                        Ok(k) => ok("entity", &p.entity(k).to_string()),
                        Err(_) => Some(Err("entity".to_string())),
                    }
                }
                Kind::Str => ok("string", s),
                Kind::Path if s == "[module]" => ok("module", ""),
                Kind::Path if s.starts_with('/') => ok("path", &format!("/{}", trace::normalise(s).join("/"))),
                Kind::Path => Some(Err("path".to_string())),
                Kind::Loop | Kind::LoopOpt if s == "<unnamed loop>" => ok("loop", ""),
                Kind::Loop | Kind::LoopOpt => Some(Err("loop".to_string())),
                Kind::Symbol | Kind::SymbolOpt => {
                    let s = s.strip_prefix('(').and_then(|s| s.strip_suffix(')')).unwrap_or(s);
                    if s.starts_with('_') {
                        None
                    } else if s == "main" {
                        ok("symbol", s)
                    } else {
                        ok("verbatim", s)
                    }
                }
                Kind::Nothing => None,
            };
            if let Some(e) = expected {
                ensure_eq!(got, e, "argument {:?} of {name:?} at step {step}", details[i].1);
            }
        }
        match first.get(&i) {
            Some(f) => ensure_eq!(got, *f, "argument {:?} of {name:?} parsed again at step {step}", details[i].1),
            None => {
                // As in a trace with only this activity
                let mut alone = load(&trace_of(&details[i..=i], 0).text()).map_err(|e| format!("trace is rejected: {e}"))?;
                let id = alone.all_activities().next().ok_or("activity has been lost")?.id();
                let fresh = parse_one(&mut alone, id)?;
                ensure_eq!(got, fresh, "argument {:?} of {name:?} compared to parsing it alone", details[i].1);
                first.insert(i, got);
            }
        }
    }
    Ok(())
}
/// Presence and shape of arguments
fn check_presence(name: &str, pick: u64, case: &mut Case) -> CaseResult {
    let kind = trace::kind_of(name).ok_or("unknown activity")?;
    let m = Trace::with_acts(vec![]);
    let value = match kind {
        Kind::Nothing => "x",
        Kind::Str => "Machine InstCombiner",
        Kind::Path => "/a/b",
        Kind::Entity => "a::b",
        Kind::Symbol | Kind::SymbolOpt => "_ZN1a1bEv",
        Kind::Loop | Kind::LoopOpt => "<unnamed loop>",
    };
    let detail = || ("detail", J::s(value));
    let some = [
        ("absent", None),
        ("null", Some(J::Raw("null".into()))),
        ("empty", Some(J::obj(vec![]))),
        ("good", Some(J::obj(vec![detail()]))),
        ("extra after", Some(J::obj(vec![detail(), ("x", J::n(pick))]))),
        ("extra before", Some(J::obj(vec![("count", J::n(pick)), detail()]))),
        ("number", Some(J::obj(vec![("detail", J::n(1))]))),
        ("array", Some(J::obj(vec![("detail", J::Arr(vec![J::s(value)]))]))),
        ("null detail", Some(J::obj(vec![("detail", J::Raw("null".into()))]))),
        ("misnamed", Some(J::obj(vec![("Detail", J::s(value))]))),
    ];
    for (what, args) in some {
        let mut e = m.act_json(&Act { name: name.into(), detail: None, start: 5000, dur: 1000 }, &mut None);
        if let Some(a) = args {
            e.set("args", a);
        }
        let doc = J::obj(vec![("traceEvents", J::Arr(vec![e, m.name_json("process_name", "clang", m.tid)]))]);
        let ok = match what {
            "absent" | "null" | "empty" => matches!(kind, Kind::Nothing | Kind::SymbolOpt | Kind::LoopOpt),
            "good" => kind != Kind::Nothing,
            _ => false,
        };
        case.evals += 1;
        let r = no_panic(|| ClangTrace::from_str(&doc.text(0)))?;
        match (&r, ok) {
            (Ok(_), false) => fail!("{what} argument of {name:?} is accepted"),
            (Err(e), true) => fail!("{what} argument of {name:?} is rejected: {e}"),
            (Err(e), false) => ensure!(format!("{e} {e:?}").contains(name) || name.contains('<'), "error about {what} argument of {name:?} does not mention it: {e}"),
            _ => {}
        }
        if let Ok(t) = r {
            let a = t.all_activities().next().ok_or("activity has been lost")?;
            ensure_eq!(a.activity().name(), name, "name of the activity");
            ensure!(!matches!(a.activity().id(), ActivityId::UnknownActivity(_)), "{name:?} is taken as unknown");
            ensure_eq!(a.activity().raw_argument().arg_type(), arg_type(kind), "kind of argument of {name:?}");
            ensure_eq!(a.activity().raw_argument().detail().map(|d| d.to_string()), (what == "good").then(|| value.to_string()), "raw argument of {name:?}");
        }
    }
    case.nontrivial(true);
    Ok(())
}
/// Activities that the program does not know
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Unknown {
    name: String,
    arg: Arg,
}
fn check_unknown(u: &Unknown, case: &mut Case) -> CaseResult {
    if trace::kind_of(&u.name).is_some() {
        return Ok(());
    }
    let detail = u.arg.detail();
    case.nontrivial(detail.is_some());
    let mut t = load(&trace_of(&[(u.name.clone(), detail.clone())], 0).text()).map_err(|e| format!("unknown activity {:?} with {detail:?}: {e}", u.name))?;
    let id = {
        let a = t.all_activities().next().ok_or("activity has been lost")?;
        ensure_eq!(a.activity().name(), u.name.as_str(), "name of unknown activity");
        ensure_eq!(a.activity().raw_argument().detail().map(|d| d.to_string()), detail, "argument of unknown activity");
        a.id()
    };
    let got = parse_one(&mut t, id)?;
    if let (Some(e), false) = (u.arg.expected(), matches!(u.arg, Arg::Relative(_) | Arg::NotLoop(_))) {
        case.label(e.as_ref().map_or("error".to_string(), |e| e.0.clone()));
        ensure_eq!(got, e.map_err(|k| k.to_string()), "inferred argument {detail:?}");
    }
    Ok(())
}
/// Arguments whose kind is clear
fn clear_arg() -> BoxedStrategy<Arg> {
    prop_oneof![
        1 => Just(Arg::Absent),
        2 => select(trace::PASSES).prop_map(|s| Arg::Text(s.into())),
        2 => trace::path().prop_map(Arg::Path),
        1 => Just(Arg::Module),
        1 => Just(Arg::Loop),
        2 => // (those of macOS are not recognised without their activity)
        trace::mangled().prop_map(|m| Arg::Mangled(trace::Mangled { mac: false, ..m })),
        1 => any::<u8>().prop_map(Arg::Main),
        1 => (0u32..99).prop_map(|n| Arg::Unmangled(format!("__cxx_global_var_init.{n}"), false)),
        2 => (cpp::entity(1, 2), any::<u64>()).prop_map(|(t, n)| Arg::Entity(t, n)).prop_filter("looks like something else", |a| {
            let s = a.detail().unwrap();
            !s.starts_with(char::is_uppercase) && !s.starts_with('/') && !s.trim_start_matches('(').starts_with("_Z") && !matches!(s.trim_start_matches('('), "main")
                && !s.trim_start_matches('(').starts_with("__c") && !s.trim_start_matches('(').starts_with("_G")
        }),
        2 => wild(),
    ]
    .boxed()
}

pub fn props() -> Vec<Prop> {
    let rich = Shape { depth: 3, size: 12, width: 4, roots: 3, rich: true };
    let plain = Shape { depth: 6, size: 60, width: 8, roots: 4, rich: false };
    vec![
        Prop {
            id: "T01",
            assumptions: vec![
                "times are multiples of a quarter of microsecond (clang only writes whole ones), activities start after the first microsecond",
                "statistics carry the truncated average that clang writes",
            ],
            subs: vec![
                Box::new(sub("text", "at least 3 activities or statistics", (120_000, 2_000_000), move |_| trace::trace(rich), |env, m, case| check_load(env, m, false, case))),
                Box::new(sub("large", "at least 3 activities or statistics", (90_000, 1_500_000), move |_| trace::trace(plain), |env, m, case| check_load(env, m, false, case))),
                Box::new(sub("file", "at least 3 activities or statistics", (30_000, 300_000), move |_| trace::trace(plain), |env, m, case| check_load(env, m, true, case))),
            ],
        },
        Prop {
            id: "T02",
            assumptions: vec!["times are multiples of a quarter of microsecond, so that additions are exact"],
            subs: vec![
                Box::new(enumerated(
                    "all-small",
                    "every list of up to 4 intervals between 0 and 3 (in chunks by the first one)",
                    |_| (0usize..11).collect(),
                    |_, first: &usize, case| {
                        let all: Vec<(i64, i64)> = (0..4).flat_map(|s| (0..4 - s).map(move |d| (s, d))).collect();
                        case.nontrivial(true);
                        if *first == 10 {
                            return check_intervals(&[], case);
                        }
                        let mut list = vec![*first];
                        // Odometer over lists of length 1 to 4 which start with `first`
                        loop {
                            let iv: Vec<(i64, i64)> = list.iter().map(|&i| all[i]).collect();
                            let mut c = Case::default();
                            check_intervals(&iv, &mut c)?;
                            case.evals += c.evals.max(1);
                            if list.len() < 4 {
                                list.push(0);
                                continue;
                            }
                            while list.len() > 1 {
                                let last = list.last_mut().unwrap();
                                *last += 1;
                                if *last < all.len() {
                                    break;
                                }
                                list.pop();
                            }
                            if list.len() == 1 {
                                break;
                            }
                        }
                        Ok(())
                    },
                )),
                Box::new(sub("intervals", "at least 2 intervals", (750_000, 8_000_000), |_| vec((0i64..12, 0i64..8), 0..9), |_, v: &Vec<(i64, i64)>, case| {
                    // Mostly by end time
                    let mut v = v.clone();
                    let shuffled = v.iter().map(|x| x.0 + 3 * x.1).sum::<i64>() % 5 == 0;
                    if !shuffled {
                        v.sort_by_key(|&(s, d)| (s + d, -s));
                    }
                    check_intervals(&v, case)
                })),
                Box::new(sub("forest", "at least 4 activities", (300_000, 3_000_000), move |_| trace::trace(plain), |_, m, case| check_tree(m, case))),
                Box::new(sub("deep-wide", "at least 100 activities", (500, 3_000), |_| (0u16..1500, prop_oneof![1u16..4, 1u16..2000], any::<u8>()).prop_map(|(n, chain, zero)| Big { n, chain, zero }), |_, b, case| check_big(b, case))),
            ],
        },
        Prop {
            id: "T03",
            assumptions: vec!["texts are up to some thousands of characters"],
            subs: vec![
                Box::new(sub(
                    "faults",
                    "an applicable fault in a trace of at least 2 activities or statistics",
                    (300_000, 6_000_000),
                    |_| {
                        let shape = Shape { depth: 2, size: 6, width: 3, roots: 3, rich: false };
                        (trace::trace(shape), any::<u16>(), any::<u64>()).prop_map(|(trace, fault, pick)| Faulty { trace, fault, pick })
                    },
                    |_, f, case| check_fault(f, case),
                )),
                Box::new(
                    sub(
                        "texts",
                        "at least 10 characters of damaged, arbitrary JSON or raw text",
                        (300_000, 6_000_000),
                        |_| {
                            let shape = Shape { depth: 2, size: 6, width: 3, roots: 2, rich: true };
                            let edit = (any::<u32>(), 0u8..4, prop_oneof![2 => Just(String::new()), 2 => "[0-9a-z\"{}\\[\\]:,.\\\\eE-]{0,3}", 1 => trace::text_strategy()]);
                            prop_oneof![
                                3 => (trace::trace(shape), vec(edit, 1..3)).prop_map(|(t, e)| Doc::Damaged(t, e)),
                                3 => (json_soup(), any::<u64>()).prop_map(|(j, s)| Doc::Json(j.text(s))),
                                1 => trace::text_strategy().prop_map(Doc::Raw),
                                1 => (1usize..3000, select(vec!["[", "{\"a\":", "{\"traceEvents\":[", "[[{\"args\":"])).prop_map(|(n, s)| Doc::Raw(s.repeat(n))),
                                1 => select(vec!["{\"traceEvents\":[]}", "{\"traceEvents\":[],\"beginningOfTime\":1}", "{}", "[]", "null", ""]).prop_map(|s| Doc::Raw(s.into())),
                            ]
                        },
                        |_, d, case| check_text(d, case),
                    )
                    .crashy()
                    .hang(60),
                ),
                Box::new(sub(
                    "files",
                    "a file which cannot be read or is damaged",
                    (10_000, 100_000),
                    |_| {
                        let shape = Shape { depth: 2, size: 6, width: 3, roots: 2, rich: false };
                        prop_oneof![
                            1 => "[a-z]{1,8}(/[a-z]{1,4})?".prop_map(BadFile::Missing),
                            1 => Just(BadFile::Directory),
                            2 => (trace::trace(shape), any::<u32>()).prop_map(|(t, n)| BadFile::NotUtf8(t, n)),
                            1 => Just(BadFile::Empty),
                            2 => (trace::trace(shape), any::<u32>()).prop_map(|(t, n)| BadFile::Truncated(t, n)),
                        ]
                    },
                    check_bad_file,
                )),
            ],
        },
        Prop {
            id: "T04",
            assumptions: vec!["interner capacities are not exhausted", "mangled names of the generator do not use substitutions"],
            subs: vec![
                Box::new(enumerated(
                    "presence",
                    "every known activity with every shape of arguments",
                    |_| trace::ACTIVITIES.iter().map(|a| a.0.to_string()).collect(),
                    |_, n: &String, case| check_presence(n, 3, case),
                )),
                Box::new(sub(
                    "valid",
                    "at least 2 arguments parsed in one trace",
                    (120_000, 2_000_000),
                    |_| (vec(known_with(valid_arg), 1..8), vec(any::<u8>(), 1..16), any::<u64>()).prop_map(|(acts, order, spelling)| Args { acts, order, spelling }),
                    |_, a, case| check_args(a, case),
                )),
                Box::new(
                    sub(
                        "wild",
                        "at least 2 arguments parsed in one trace",
                        (120_000, 2_000_000),
                        |_| (vec(known_with(wild_for), 1..6), vec(any::<u8>(), 1..10), any::<u64>()).prop_map(|(acts, order, spelling)| Args { acts, order, spelling }),
                        |_, a, case| check_args(a, case),
                    )
                    .crashy()
                    .hang(60),
                ),
                Box::new(
                    sub(
                        "unknown",
                        "an unknown activity with an argument",
                        (180_000, 2_000_000),
                        |_| (prop_oneof![trace::text_strategy(), "[A-Z][a-zA-Z]{2,12}Pass", select(vec!["", "source", "Source ", "UnknownActivity", "Total Source"]).prop_map(|s| s.to_string())], clear_arg()).prop_map(|(name, arg)| Unknown { name, arg }),
                        |_, u, case| check_unknown(u, case),
                    )
                    .crashy()
                    .hang(60),
                ),
            ],
        },
    ]
}
