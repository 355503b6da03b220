//! S01-S03: the text report, as printed by the program

use proptest::{collection::vec, prelude::*, sample::select};
use serde::{Deserialize, Serialize};
use std::{
    collections::HashMap,
    path::PathBuf,
    process::{Command, Output, Stdio},
};
use unicode_width::UnicodeWidthStr;
use vcommon::{ensure, ensure_eq, fail, sub, Case, CaseResult, Env, Prop};
use vgen::{
    report::parse_duration,
    trace::{self, us, Act, Trace},
};

// ------------------------------------------------------------------ running

fn scratch_file(env: &Env, what: &str) -> PathBuf {
    env.scratch.join(format!("{what}{:?}.json", std::thread::current().id()).replace(['(', ')'], "-"))
}
struct Ran {
    status: Option<i32>,
    stdout: String,
    stderr: String,
}
fn run(env: &Env, args: &[&std::ffi::OsStr]) -> Result<Ran, String> {
    let Output { status, stdout, stderr } = Command::new(env.bins.join("crofiler"))
        .args(args)
        .env("RUST_BACKTRACE", "0")
        .env_remove("RUST_LOG")
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .output()
        .map_err(|e| format!("cannot run crofiler: {e}"))?;
    Ok(Ran {
        status: status.code(),
        stdout: String::from_utf8(stdout).map_err(|_| "standard output is not UTF-8")?,
        stderr: String::from_utf8_lossy(&stderr).to_string(),
    })
}
/// Run the report on a well-formed trace
fn report(env: &Env, text: &str, options: &[String]) -> Result<String, String> {
    let file = scratch_file(env, "s");
    std::fs::write(&file, text).map_err(|e| e.to_string())?;
    let mut args: Vec<&std::ffi::OsStr> = vec!["--ui".as_ref(), "stdio".as_ref(), file.as_os_str()];
    args.extend(options.iter().map(|o| o.as_ref() as &std::ffi::OsStr));
    let out = run(env, &args)?;
    let _ = std::fs::remove_file(&file);
    if out.status != Some(0) {
        let e: String = out.stderr.chars().take(400).collect();
        return Err(format!("the report ends with status {:?}: {e}", out.status));
    }
    Ok(out.stdout)
}

/// Sections of a report
struct Report {
    types: Vec<String>,
    hottest: Vec<String>,
    tree: Vec<String>,
}
fn sections(text: &str) -> Result<Report, String> {
    let lines: Vec<&str> = text.split('\n').collect();
    let find = |what: &str| lines.iter().position(|l| *l == what).ok_or_else(|| format!("no section {what:?}"));
    let t = find("Self-duration breakdown by activity type:")?;
    let h = find("Hottest activities by self-duration:")?;
    let p = find("Hierarchical profile:")?;
    if !(t < h && h < p) {
        return Err("sections are not in order".into());
    }
    let part = |a: usize, b: usize| lines[a + 1..b].iter().filter(|l| !l.is_empty()).map(|l| l.to_string()).collect::<Vec<_>>();
    Ok(Report { types: part(t, h), hottest: part(h, p), tree: part(p, lines.len()) })
}
/// `- text [duration, share%]`, without the dash
struct Line<'a> {
    text: &'a str,
    duration: &'a str,
    share: f64,
}
fn line(l: &str) -> Result<Line<'_>, String> {
    let bad = || format!("unexpected line {l:?}");
    let (text, info) = l.rsplit_once(" [").ok_or_else(bad)?;
    let info = info.strip_suffix("%]").ok_or_else(bad)?;
    let (duration, share) = info.rsplit_once(", ").ok_or_else(bad)?;
    let (_, decimals) = share.split_once('.').ok_or_else(bad)?;
    if decimals.len() != 2 {
        return Err(bad());
    }
    Ok(Line { text, duration, share: share.parse().map_err(|_| bad())? })
}
fn check_numbers(l: &Line, dur: f64, total: f64, what: &str) -> CaseResult {
    let shown = parse_duration(l.duration)?;
    ensure!(shown.is(dur), "{what} {:?}: duration is shown as {:?} while it is {dur}µs", l.text, l.duration);
    let share = dur / total * 100.0;
    ensure!((l.share - share).abs() <= 0.005 + 1e-6, "{what} {:?}: share is shown as {}% while it is {share}%", l.text, l.share);
    Ok(())
}
/// Rest of `- ... and N <what> below T% ...`
fn left_out(l: &str, what: &str, threshold: f32) -> Result<usize, String> {
    let bad = || format!("unexpected line {l:?}");
    let rest = l.strip_prefix("- ... and ").ok_or_else(bad)?;
    let (n, rest) = rest.split_once(' ').ok_or_else(bad)?;
    let rest = rest.strip_prefix(what).and_then(|r| r.strip_prefix(" below ")).ok_or_else(bad)?;
    check_threshold(rest.strip_suffix("% ...").ok_or_else(bad)?, threshold)?;
    n.parse().map_err(|_| bad())
}
fn check_threshold(shown: &str, threshold: f32) -> CaseResult {
    let x: f64 = shown.parse().map_err(|_| format!("threshold is shown as {shown:?}"))?;
    ensure!((x - threshold as f64).abs() <= 0.005 + 1e-5, "threshold is shown as {shown}% while it is {threshold}%");
    Ok(())
}
/// Does an activity reach the threshold? Either way is right if it is too close.
#[derive(PartialEq)]
enum Reach {
    Yes,
    No,
    Either,
}
fn reaches(dur: f64, total: f64, threshold: f32) -> Reach {
    let share = dur / total;
    let t = threshold as f64 / 100.0;
    if threshold <= 0.0 {
        Reach::Yes
    } else if exactly(dur, total, threshold) {
        Reach::Yes
    } else if (share - t).abs() <= 1e-12 + t * 1e-9 {
        Reach::Either
    } else if share > t {
        Reach::Yes
    } else {
        Reach::No
    }
}

/// Is the share reached exactly, in a way which no rounding can hide? (every way to compute it says so)
fn exactly(dur: f64, total: f64, threshold: f32) -> bool {
    let t = threshold as f64 / 100.0;
    let exact = |x: f64| (x * 1024.0).fract() == 0.0 && x.abs() < 2f64.powi(40);
    // (a power of two divides without a rest)
    let power = total > 0.0 && total.log2().fract() == 0.0;
    power && exact(dur) && dur == total * t && dur / total == t && dur * 100.0 == total * threshold as f64
}

// ------------------------------------------------------------------- inputs

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Profile {
    trace: Trace,
    self_threshold: String,
    tree_threshold: String,
    /// How the options are spelled
    spelling: u8,
}
const NAMES: &[(&str, &str)] = &[
    ("Source", "/n#"),
    ("Source", "/include/n#"),
    ("ParseClass", "n#"),
    ("ParseTemplate", "T<n#>"),
    ("InstantiateClass", "a::n#"),
    ("InstantiateFunction", "n#(int)"),
    ("OptFunction", "n#_"),
    ("CodeGen Function", "a::n#"),
    ("RunPass", "pass n#"),
    ("RunLoopPass", "<unnamed loop> n#"),
    ("Not a clang activity", "n#"),
    ("Another n#", ""),
    ("Debug (n#)", ""),
    // Names which are nearly the same
    ("Zap", "n#"),
    ("Zap ", "n#"),
    (" Zap", "n#"),
    ("zap", "n#"),
    ("ZAP", "n#"),
    ("Zap  ", "n#"),
    ("Zap\u{a0}", "n#"),
    ("Zap - x", "n#"),
    ("Zap [", "n#"),
    ("Zäp", "n#"),
    ("Za\u{308}p", "n#"),
    ("ParseClass ", "n#"),
    ("Total Source", "n#"),
    ("Source", "n# [x]"),
    ("Unknown", "n#"),
];
fn apart(name: &str, detail: &str, i: usize) -> (String, Option<String>) {
    let f = |s: &str| s.replace('#', &i.to_string());
    (f(name), (!detail.is_empty()).then(|| f(detail)))
}
/// Trace with a single root, all of whose activities have different descriptions
fn rooted(depth: u32, size: u32, width: u32) -> BoxedStrategy<Trace> {
    let forest = select(vec![250i64, 1000]).prop_flat_map(move |u| vec(trace::node(depth, size, width, u), 0..6));
    (forest, 2i64..1000, vec(select(NAMES), 1..16), any::<u64>(), (0i64..5000, prop_oneof![4 => 1i64..3_000_000, 1 => 1i64..4_000_000_000_000]))
        .prop_map(|(forest, t0, names, pick, (before, after))| {
            let mut sp = vec![];
            let mut t = t0 * 1000;
            let after = after * 250;
            trace::spans(&[trace::Node { before, after, children: forest }.aligned()], &mut t, &mut sp);
            let mut n = vgen::cpp::Noise::new(pick | 1);
            let last = sp.len() - 1;
            let acts = sp
                .into_iter()
                .enumerate()
                .map(|(i, (start, dur))| {
                    let (name, detail) = if i == last {
                        ("ExecuteCompiler".to_string(), None)
                    } else {
                        let (a, b) = names[n.next(names.len() as u64) as usize];
                        apart(a, b, i)
                    };
                    Act { name, detail, start, dur }
                })
                .collect();
            Trace::with_acts(acts)
        })
        .prop_filter("one root", |t| t.parents().iter().filter(|p| p.is_none()).count() == 1 && t.acts.iter().all(|a| a.start > 1000))
        .boxed()
}
trait Aligned {
    fn aligned(self) -> Self;
}
impl Aligned for trace::Node {
    fn aligned(mut self) -> Self {
        self.before = self.before / 250 * 250;
        self
    }
}
fn threshold() -> BoxedStrategy<String> {
    prop_oneof![
        3 => Just("0".to_string()),
        3 => select(vec!["0.5", "1", "2.5", "5", "10", "20", "25", "33.3", "50", "100", "0.01", "0.004", "99.99", "101", "12.345"]).prop_map(|s| s.to_string()),
        2 => (0u32..10_000).prop_map(|x| format!("{}.{:02}", x / 100, x % 100)),
        1 => (0u32..100_000).prop_map(|x| format!("0.{x:05}")),
    ]
    .boxed()
}
fn profile(depth: u32, size: u32, width: u32) -> BoxedStrategy<Profile> {
    (rooted(depth, size, width), threshold(), threshold(), any::<u8>(), prop::option::weighted(0.3, any::<(u16, u16)>()))
        .prop_map(|(trace, self_threshold, tree_threshold, spelling, exact)| {
            let mut p = Profile { trace, self_threshold, tree_threshold, spelling };
            if let Some((own, dur)) = exact {
                p.exact_thresholds(own as usize, dur as usize);
            }
            p
        })
        .boxed()
}
impl Profile {
    /// Ask for exactly the share of time of some activities, where it is one that can be written down
    fn exact_thresholds(&mut self, own: usize, dur: usize) {
        let n = self.trace.acts.len();
        let Some(root) = self.trace.parents().iter().position(|p| p.is_none()) else { return };
        let d = us(self.trace.acts[root].dur);
        if d < 1.0 || d > 1e9 {
            return;
        }
        let total = 2f64.powi(d.log2().ceil() as i32);
        let mut trace = self.trace.clone();
        while us(trace.acts[root].dur) < total {
            let missing = total - us(trace.acts[root].dur);
            trace.acts[root].dur += (missing * 1000.0) as i64;
            if us(trace.acts[root].dur) != total && missing * 1000.0 < 1.0 {
                return;
            }
        }
        let Ok(m) = model(&trace) else { return };
        let text = |d: f64| {
            let t = 100.0 * d / total;
            let text = format!("{t}");
            (d > 0.0 && exactly(d, total, text.parse().unwrap_or(-1.0))).then_some(text)
        };
        self.trace = trace;
        if let Some(t) = text(m.own[own % n]) {
            self.self_threshold = t;
        }
        if let Some(t) = text(m.dur[dur % n]) {
            self.tree_threshold = t;
        }
    }
}
impl Profile {
    fn options(&self) -> Vec<String> {
        let (s, i) = (&self.self_threshold, &self.tree_threshold);
        let mut v = match self.spelling % 3 {
            0 => vec!["-s".into(), s.clone(), "-i".into(), i.clone()],
            1 => vec![format!("--self-threshold={s}"), format!("--hierarchical-threshold={i}")],
            _ => vec![format!("-s{s}"), format!("-i{i}")],
        };
        // Defaults
        if s == "0.5" && self.spelling & 4 != 0 && i == "0.5" {
            v.clear();
        }
        v.extend(["-c".to_string(), "2000".to_string()]);
        v
    }
    fn thresholds(&self) -> (f32, f32) {
        (self.self_threshold.parse().unwrap(), self.tree_threshold.parse().unwrap())
    }
}
/// Descriptions and durations, in µs, as they should be
struct Model {
    desc: Vec<String>,
    dur: Vec<f64>,
    own: Vec<f64>,
    total: f64,
    parents: Vec<Option<usize>>,
    index: HashMap<String, usize>,
}
fn model(t: &Trace) -> Result<Model, String> {
    let n = t.acts.len();
    let parents = t.parents();
    let mut own: Vec<i64> = t.acts.iter().map(|a| a.dur).collect();
    for i in 0..n {
        if let Some(p) = parents[i] {
            own[p] -= t.acts[i].dur;
        }
    }
    let desc: Vec<String> = t
        .acts
        .iter()
        .map(|a| match &a.detail {
            Some(d) => format!("{}({d})", a.name),
            None => a.name.clone(),
        })
        .collect();
    let index: HashMap<String, usize> = desc.iter().enumerate().map(|(i, d)| (d.clone(), i)).collect();
    if index.len() != n {
        return Err("harness: activities are not told apart".into());
    }
    let total = (0..n).filter(|&i| parents[i].is_none()).map(|i| us(t.acts[i].dur)).sum();
    Ok(Model { desc, dur: t.acts.iter().map(|a| us(a.dur)).collect(), own: own.into_iter().map(us).collect(), total, parents, index })
}
fn labels(p: &Profile, case: &mut Case) {
    let n = p.trace.acts.len();
    case.label(match n {
        0..=1 => "1 activity",
        2..=5 => "2-5 activities",
        6..=20 => "6-20 activities",
        _ => "more than 20 activities",
    });
    case.nontrivial(n >= 4);
}

// ---------------------------------------------------------------------- S01

fn check_flat(env: &Env, p: &Profile, case: &mut Case) -> CaseResult {
    labels(p, case);
    let m = model(&p.trace)?;
    let text = report(env, &p.trace.text(), &p.options())?;
    let r = sections(&text)?;
    let (threshold, _) = p.thresholds();

    // By type
    let mut types: HashMap<&str, f64> = HashMap::new();
    for (a, own) in p.trace.acts.iter().zip(&m.own) {
        *types.entry(&a.name).or_default() += own;
    }
    let mut previous = f64::INFINITY;
    let mut shown: HashMap<&str, ()> = HashMap::new();
    let mut omitted = None;
    let mut sum = 0.0;
    for (i, l) in r.types.iter().enumerate() {
        if l.starts_with("- ... and ") {
            ensure!(i + 1 == r.types.len(), "{l:?} is not the last line");
            omitted = Some(left_out(l, "other activity types", threshold)?);
            continue;
        }
        let l = line(l.strip_prefix("- ").ok_or_else(|| format!("unexpected line {l:?}"))?)?;
        let Some(&own) = types.get(l.text) else { fail!("there is no activity type {:?}", l.text) };
        let Some((name, _)) = types.get_key_value(l.text) else { fail!("unreachable") };
        ensure!(shown.insert(name, ()).is_none(), "activity type {name:?} is listed twice");
        check_numbers(&l, own, m.total, "type")?;
        ensure!(own <= previous, "activity type {name:?} comes after a shorter one");
        ensure!(reaches(own, m.total, threshold) != Reach::No, "activity type {name:?} does not reach {threshold}%");
        previous = own;
        sum += l.share;
        case.evals += 1;
    }
    for (name, own) in &types {
        if reaches(*own, m.total, threshold) == Reach::Yes {
            ensure!(shown.contains_key(name), "activity type {name:?} ({own}µs of {}µs) is not listed", m.total);
        }
    }
    ensure_eq!(omitted.unwrap_or(0), types.len() - shown.len(), "number of activity types left out");
    ensure!(omitted != Some(0), "no activity type is left out, but this is not what is said");
    if threshold <= 0.0 {
        ensure!((sum - 100.0).abs() <= 0.0051 * types.len() as f64, "shares of activity types add up to {sum}%");
    }
    case.label_if(omitted.is_some(), "types left out");

    // By activity
    let mut previous = f64::INFINITY;
    let mut shown = vec![false; m.desc.len()];
    let mut omitted = None;
    for (i, l) in r.hottest.iter().enumerate() {
        if l.starts_with("- ... and ") {
            ensure!(i + 1 == r.hottest.len(), "{l:?} is not the last line");
            omitted = Some(left_out(l, "other activities", threshold)?);
            continue;
        }
        let l = line(l.strip_prefix("- ").ok_or_else(|| format!("unexpected line {l:?}"))?)?;
        let Some(&k) = m.index.get(l.text) else { fail!("there is no activity {:?}", l.text) };
        ensure!(!std::mem::replace(&mut shown[k], true), "activity {:?} is listed twice", l.text);
        let own = m.own[k];
        check_numbers(&l, own, m.total, "activity")?;
        ensure!(own <= previous, "activity {:?} comes after a shorter one", l.text);
        ensure!(reaches(own, m.total, threshold) != Reach::No, "activity {:?} does not reach {threshold}%", l.text);
        previous = own;
        case.evals += 1;
    }
    for (k, shown) in shown.iter().enumerate() {
        if reaches(m.own[k], m.total, threshold) == Reach::Yes {
            ensure!(*shown, "activity {:?} ({}µs of {}µs) is not listed", m.desc[k], m.own[k], m.total);
        }
    }
    let n = shown.iter().filter(|s| **s).count();
    ensure_eq!(omitted.unwrap_or(0), shown.len() - n, "number of activities left out");
    ensure!(omitted != Some(0), "no activity is left out, but this is not what is said");
    case.label_if(omitted.is_some(), "activities left out");
    case.label_if(n == 0, "no activity listed");
    Ok(())
}

// ---------------------------------------------------------------------- S02

/// Line of a tree: depth, whether it is the last of its siblings, contents
struct Twig {
    depth: usize,
    last: bool,
    /// Bars before the branch, by depth
    bars: Vec<bool>,
    text: String,
}
fn twig(l: &str) -> Result<Twig, String> {
    let mut rest = l;
    let mut bars = vec![];
    loop {
        if let Some(r) = rest.strip_prefix("├─") {
            return Ok(Twig { depth: bars.len() + 1, last: false, bars, text: r.into() });
        } else if let Some(r) = rest.strip_prefix("└─") {
            return Ok(Twig { depth: bars.len() + 1, last: true, bars, text: r.into() });
        } else if let Some(r) = rest.strip_prefix("│ ") {
            bars.push(true);
            rest = r;
        } else if let Some(r) = rest.strip_prefix("  ") {
            bars.push(false);
            rest = r;
        } else {
            ensure_twig(bars.is_empty(), l)?;
            return Ok(Twig { depth: 0, last: true, bars, text: rest.into() });
        }
    }
}
fn ensure_twig(ok: bool, l: &str) -> CaseResult {
    ensure!(ok, "{l:?} is not a line of a tree");
    Ok(())
}
/// Read a tree: for each line, the line that it hangs from, and its text
fn tree(lines: &[String]) -> Result<Vec<(Option<usize>, String)>, String> {
    let twigs = lines.iter().map(|l| twig(l)).collect::<Result<Vec<_>, _>>()?;
    let mut out: Vec<(Option<usize>, String)> = vec![];
    let mut path: Vec<usize> = vec![];
    for (i, t) in twigs.iter().enumerate() {
        if (i == 0) != (t.depth == 0) || t.depth > path.len() {
            return Err(format!("{:?} hangs from nothing", lines[i]));
        }
        path.truncate(t.depth);
        // What is drawn before the branch tells whether ancestors have more siblings
        for (d, bar) in t.bars.iter().enumerate() {
            if *bar == twigs[path[d + 1]].last {
                return Err(format!("broken branches at {:?}", lines[i]));
            }
        }
        // Is there another sibling?
        let more = twigs[i + 1..].iter().take_while(|u| u.depth >= t.depth).any(|u| u.depth == t.depth);
        if t.depth > 0 && more == t.last {
            return Err(format!("wrong kind of branch at {:?}", lines[i]));
        }
        out.push((path.last().copied(), t.text.clone()));
        path.push(i);
    }
    Ok(out)
}
fn check_tree(env: &Env, p: &Profile, case: &mut Case) -> CaseResult {
    labels(p, case);
    let m = model(&p.trace)?;
    let text = report(env, &p.trace.text(), &p.options())?;
    let r = sections(&text)?;
    let (_, threshold) = p.thresholds();
    let t = tree(&r.tree)?;
    ensure!(!t.is_empty(), "no hierarchical profile");

    // Each line stands for an activity, or for those left out
    let mut activity: Vec<Option<usize>> = vec![];
    let mut omitted: HashMap<usize, usize> = HashMap::new();
    for (i, (up, text)) in t.iter().enumerate() {
        let under = match up {
            Some(u) => match activity[*u] {
                Some(u) => Some(u),
                None => fail!("{text:?} hangs from a line which is not an activity"),
            },
            None => None,
        };
        if let Some(rest) = text.strip_prefix('…') {
            let bad = || format!("unexpected line {text:?}");
            let (n, rest) = rest.split_once(" callee(s) below ").ok_or_else(bad)?;
            check_threshold(rest.strip_suffix("%…").ok_or_else(bad)?, threshold)?;
            let under = under.ok_or_else(bad)?;
            let last = !t[i + 1..].iter().any(|(u, _)| u == up);
            ensure!(last, "{text:?} is not at the end of its siblings");
            ensure!(omitted.insert(under, n.parse().map_err(|_| bad())?).is_none(), "two lines such as {text:?} at the same place");
            activity.push(None);
            continue;
        }
        let l = line(text)?;
        let Some(&k) = m.index.get(l.text) else { fail!("there is no activity {:?}", l.text) };
        ensure!(!activity.contains(&Some(k)), "activity {:?} is shown twice", l.text);
        ensure_eq!(under, m.parents[k], "activity from which {:?} hangs", l.text);
        check_numbers(&l, m.dur[k], m.total, "activity")?;
        activity.push(Some(k));
        case.evals += 1;
    }
    // Selection and order
    let mut shown = vec![false; m.desc.len()];
    for k in activity.iter().flatten() {
        shown[*k] = true;
    }
    let mut previous: HashMap<usize, f64> = HashMap::new();
    for k in activity.iter().flatten().copied() {
        if let Some(up) = m.parents[k] {
            ensure!(reaches(m.dur[k], m.total, threshold) != Reach::No, "activity {:?} does not reach {threshold}%", m.desc[k]);
            if let Some(p) = previous.insert(up, m.dur[k]) {
                ensure!(m.dur[k] <= p, "activity {:?} comes after a shorter one", m.desc[k]);
            }
        }
    }
    for k in 0..m.desc.len() {
        if m.parents[k].is_none_or(|u| shown[u]) && (m.parents[k].is_none() || reaches(m.dur[k], m.total, threshold) == Reach::Yes) {
            ensure!(shown[k], "activity {:?} ({}µs of {}µs) is not shown", m.desc[k], m.dur[k], m.total);
        }
        if shown[k] {
            let missing = (0..m.desc.len()).filter(|&c| m.parents[c] == Some(k) && !shown[c]).count();
            ensure_eq!(omitted.get(&k).copied(), (missing > 0).then_some(missing), "number of callees of {:?} which are left out", m.desc[k]);
        }
    }
    case.label_if(!omitted.is_empty(), "callees left out");
    case.label_if(t.iter().any(|(u, _)| u.is_some_and(|u| t[u].0.is_some_and(|u| t[u].0.is_some()))), "at least 4 levels");
    Ok(())
}

// ---------------------------------------------------------------------- S03

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Narrow {
    trace: Trace,
    cols: u16,
    threshold: String,
}
fn narrow() -> BoxedStrategy<Narrow> {
    let act = prop_oneof![3 => trace::activity(), 1 => trace::plain_activity(), 1 => ("[A-Za-z日][A-Za-z日é ]{0,40}", prop::option::of("[ -~é日👨]{1,60}"))];
    (rooted(4, 16, 4), vec(act, 1..16), any::<u64>(), prop_oneof![2 => 1u16..12, 4 => 8u16..100, 1 => 100u16..300], prop_oneof![3 => Just("0".to_string()), 1 => threshold()])
        .prop_map(|(mut trace, acts, pick, cols, threshold)| {
            let mut n = vgen::cpp::Noise::new(pick | 1);
            let last = trace.acts.len() - 1;
            for (i, a) in trace.acts.iter_mut().enumerate() {
                if i != last || n.next(4) == 0 {
                    (a.name, a.detail) = acts[n.next(acts.len() as u64) as usize].clone();
                    // Not for display on one line
                    for s in [Some(&mut a.name), a.detail.as_mut()].into_iter().flatten() {
                        *s = s.replace(|c: char| c.is_control() || c == '\u{2028}', "_");
                    }
                }
            }
            Narrow { trace, cols, threshold }
        })
        .boxed()
}
/// Trailer of a line, as in ` [1.00s, 2.00%]`
fn trailer(l: &str) -> &str {
    &l[l.rfind(" [").unwrap_or(l.len())..]
}
fn check_narrow(env: &Env, c: &Narrow, case: &mut Case) -> CaseResult {
    let text = c.trace.text();
    let options = |cols: u16| vec!["-s".to_string(), c.threshold.clone(), "-i".to_string(), c.threshold.clone(), "-c".to_string(), cols.to_string()];
    let full = report(env, &text, &options(u16::MAX))?;
    let out = report(env, &text, &options(c.cols))?;
    let again = report(env, &text, &options(c.cols))?;
    ensure!(out == again, "two runs on the same input print different reports");
    let full = sections(&full)?;
    let r = sections(&out)?;
    let cols = c.cols as usize;
    let mut cut = 0;
    ensure_eq!(r.types, full.types, "breakdown by types, which does not depend on the width");
    // Flat profile: the same activities, abbreviated
    ensure_eq!(r.hottest.len(), full.hottest.len(), "number of hottest activities");
    for (l, f) in r.hottest.iter().zip(&full.hottest) {
        if f.starts_with("- ... and ") && trailer(f).is_empty() {
            ensure_eq!(l, f, "number of activities left out");
            continue;
        }
        ensure!(l.width() <= cols.max(3), "line {l:?} takes {} columns out of {cols}", l.width());
        cut += check_abbreviation(l, f, cols)?;
        case.evals += 1;
    }
    // Tree: no line is wider than requested; as long as there is space, the same activities
    let t = tree(&r.tree)?;
    let ft = tree(&full.tree)?;
    for l in &r.tree {
        ensure!(l.width() <= cols, "line {l:?} takes {} columns out of {cols}", l.width());
    }
    let depth = |t: &[(Option<usize>, String)]| {
        let mut d: Vec<usize> = vec![];
        for (up, _) in t {
            d.push(up.map_or(0, |u| d[u] + 1));
        }
        d
    };
    let (d, fd) = (depth(&t), depth(&ft));
    let expected: Vec<usize> = (0..ft.len()).filter(|&i| 2 * fd[i] < cols).collect();
    ensure_eq!(t.len(), expected.len(), "number of lines of the hierarchical profile in {cols} columns");
    for (i, &k) in expected.iter().enumerate() {
        ensure_eq!(d[i], fd[k], "depth of line {:?}, in {cols} columns", r.tree[i]);
        if ft[k].1.starts_with('…') {
            let l = if full.tree[k].width() <= cols { full.tree[k].as_str() } else { "…" };
            ensure!(r.tree[i].ends_with(l), "{:?} is abbreviated to {:?} in {cols} columns", full.tree[k], r.tree[i]);
        } else {
            cut += check_abbreviation(&t[i].1, &ft[k].1, cols - 2 * d[i])?;
        }
        case.evals += 1;
    }
    case.label_if(cut > 0, "abbreviated");
    case.label_if(expected.len() < ft.len(), "no space for deep levels");
    case.nontrivial(c.trace.acts.len() >= 3 && cut > 0);
    Ok(())
}
/// What is displayed in full if possible, with or without numbers otherwise
fn check_abbreviation(l: &str, full: &str, cols: usize) -> Result<usize, String> {
    if full.width() <= cols {
        ensure_line(l == full, || format!("{full:?} fits in {cols} columns, but it is displayed as {l:?}"))?;
        return Ok(0);
    }
    let description = &full[..full.len() - trailer(full).len()];
    let numbers = l.ends_with(trailer(full));
    if !numbers && description.width() <= cols {
        ensure_line(l == description, || format!("{description:?} fits in {cols} columns, but it is displayed as {l:?}"))?;
    }
    ensure_line(l.contains('…') || l == description, || format!("{full:?} is displayed as {l:?} without an ellipsis in {cols} columns"))?;
    Ok(1)
}
fn ensure_line(ok: bool, what: impl FnOnce() -> String) -> CaseResult {
    if ok {
        Ok(())
    } else {
        Err(what())
    }
}

/// Report printed in a terminal of some width, 0 when it is unknown
#[derive(Clone, Debug, Serialize, Deserialize)]
struct InTerminal {
    report: Narrow,
    width: u16,
}
/// What the program prints in a terminal
fn terminal_report(env: &Env, text: &str, options: &[String], width: u16) -> Result<String, String> {
    use std::os::fd::{FromRawFd, OwnedFd};
    let file = scratch_file(env, "s");
    std::fs::write(&file, text).map_err(|e| e.to_string())?;
    let (mut master, mut slave) = (0, 0);
    let size = libc::winsize { ws_row: if width == 0 { 0 } else { 40 }, ws_col: width, ws_xpixel: 0, ws_ypixel: 0 };
    // SAFETY: plain calls with valid arguments
    let (mut master, slave) = unsafe {
        if libc::openpty(&mut master, &mut slave, std::ptr::null_mut(), std::ptr::null(), &size) != 0 {
            return Err(format!("harness: cannot open a terminal: {}", std::io::Error::last_os_error()));
        }
        for fd in [master, slave] {
            libc::fcntl(fd, libc::F_SETFD, libc::FD_CLOEXEC);
        }
        // Shows the bytes as they are
        let mut t: libc::termios = std::mem::zeroed();
        libc::tcgetattr(slave, &mut t);
        libc::cfmakeraw(&mut t);
        libc::tcsetattr(slave, libc::TCSANOW, &t);
        (std::fs::File::from_raw_fd(master), OwnedFd::from_raw_fd(slave))
    };
    // This side of the terminal stays open, since the system may lose what was written right before it is closed
    let keep = std::fs::File::from(slave.try_clone().map_err(|e| e.to_string())?);
    let mut child = Command::new(env.bins.join("crofiler"))
        .args(["--ui", "stdio"])
        .arg(&file)
        .args(options)
        .env("RUST_BACKTRACE", "0")
        .env_remove("RUST_LOG")
        .stdin(Stdio::null())
        .stdout(slave)
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| format!("harness: cannot run crofiler: {e}"))?;
    const END: &[u8] = b"\0(end of report)\0";
    let reader = std::thread::spawn(move || {
        let (mut out, mut part) = (vec![], [0; 65536]);
        while !out.ends_with(END) {
            match std::io::Read::read(&mut master, &mut part) {
                Ok(0) => break,
                Ok(n) => out.extend_from_slice(&part[..n]),
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(_) => break,
            }
        }
        out
    });
    let status = child.wait().map_err(|e| e.to_string())?;
    std::io::Write::write_all(&mut &keep, END).map_err(|e| e.to_string())?;
    let mut out = reader.join().map_err(|_| "harness: cannot read the terminal")?;
    drop(keep);
    ensure!(out.ends_with(END), "harness: cannot read the terminal to its end");
    out.truncate(out.len() - END.len());
    let _ = std::fs::remove_file(&file);
    ensure!(status.success(), "in a terminal of {width} columns, the report ends with {status}");
    String::from_utf8(out).map_err(|_| "output is not UTF-8".into())
}
fn check_terminal(env: &Env, c: &InTerminal, case: &mut Case) -> CaseResult {
    let text = c.report.trace.text();
    let options = |cols: u16| vec!["-s".to_string(), c.report.threshold.clone(), "-i".to_string(), c.report.threshold.clone(), "-c".to_string(), cols.to_string()];
    let seen = terminal_report(env, &text, &options(c.report.cols), c.width)?;
    let cols = if c.width == 0 { c.report.cols } else { c.width.min(c.report.cols) };
    let expected = report(env, &text, &options(cols))?;
    case.label(match c.width {
        0 => "width unknown",
        w if w < c.report.cols => "narrower than requested",
        _ => "wide enough",
    });
    case.nontrivial(c.report.trace.acts.len() >= 3 && expected.contains('…'));
    if seen != expected {
        let (a, b) = seen.lines().zip(expected.lines()).find(|(a, b)| a != b).unwrap_or(("(end)", "(end)"));
        fail!("{} columns requested in a terminal of {}: {a:?} is displayed where {cols} columns call for {b:?}", c.report.cols, c.width);
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Broken {
    Missing,
    Directory,
    NoInput,
    Raw(Vec<u8>),
    /// Valid trace, cut after some proportion of its bytes
    Cut(Trace, u16),
    /// Byte replaced within the structure
    Structure(Trace, u16),
    /// Without some of its top-level fields or mandatory metadata
    Lacking(Trace, u8),
    /// Fine, but to be shown in no column
    NoColumns(Trace),
}
fn broken() -> BoxedStrategy<Broken> {
    prop_oneof![
        1 => Just(Broken::Missing),
        1 => Just(Broken::Directory),
        1 => Just(Broken::NoInput),
        3 => vec(any::<u8>(), 0..20).prop_map(Broken::Raw),
        4 => (rooted(3, 8, 3), any::<u16>()).prop_map(|(t, n)| Broken::Cut(t, n)),
        4 => (rooted(3, 8, 3), any::<u16>()).prop_map(|(t, n)| Broken::Structure(t, n)),
        4 => (rooted(3, 8, 3), any::<u8>()).prop_map(|(t, n)| Broken::Lacking(t, n)),
        1 => rooted(3, 8, 3).prop_map(Broken::NoColumns),
    ]
    .boxed()
}
fn check_broken(env: &Env, b: &Broken, case: &mut Case) -> CaseResult {
    let file = scratch_file(env, "b");
    let _ = std::fs::remove_file(&file);
    let _ = std::fs::remove_dir(&file);
    let at = |len: usize, n: u16| (len as u64 * n as u64 / 65536) as usize;
    let bytes = match b {
        Broken::Missing | Broken::NoInput | Broken::Directory => None,
        Broken::Raw(v) => Some(v.clone()),
        Broken::Cut(t, n) => {
            let text = t.text();
            let text = text.trim_end();
            Some(text.as_bytes()[..at(text.len(), *n)].to_vec())
        }
        Broken::Structure(t, n) => {
            let mut text = t.text().into_bytes();
            // Brackets which are not within texts
            let (mut quoted, mut escaped) = (false, false);
            let mut places = vec![];
            for (i, b) in text.iter().enumerate() {
                match b {
                    _ if escaped => escaped = false,
                    b'\\' => escaped = quoted,
                    b'"' => quoted = !quoted,
                    b'{' | b'}' | b'[' | b']' if !quoted => places.push(i),
                    _ => {}
                }
            }
            text[places[at(places.len(), *n)]] = b'!';
            Some(text)
        }
        Broken::NoColumns(t) => Some(t.text().into_bytes()),
        Broken::Lacking(t, n) => {
            let mut j = t.json();
            match n % 3 {
                0 => j.remove("traceEvents"),
                1 => j.set("traceEvents", trace::J::s("nothing")),
                _ => {
                    let Some(trace::J::Arr(v)) = j.get_mut("traceEvents") else { fail!("harness: no events") };
                    v.retain(|e| !matches!(e.get("name"), Some(trace::J::Str(s)) if s == "process_name"));
                }
            }
            Some(j.text(0).into_bytes())
        }
    };
    case.label(match b {
        Broken::Missing => "missing",
        Broken::Directory => "directory",
        Broken::NoInput => "no input",
        Broken::Raw(_) => "raw bytes",
        Broken::Cut(..) => "truncated",
        Broken::Structure(..) => "broken structure",
        Broken::Lacking(..) => "lacking data",
        Broken::NoColumns(_) => "no columns",
    });
    case.nontrivial(!matches!(b, Broken::Raw(v) if v.is_empty()));
    if let Some(bytes) = bytes {
        std::fs::write(&file, bytes).map_err(|e| e.to_string())?;
    }
    if let Broken::Directory = b {
        std::fs::create_dir(&file).map_err(|e| e.to_string())?;
    }
    let mut args: Vec<&std::ffi::OsStr> = vec!["--ui=stdio".as_ref()];
    if !matches!(b, Broken::NoInput) {
        args.push(file.as_os_str());
    }
    if matches!(b, Broken::NoColumns(_)) {
        args.extend(["-c".as_ref(), "0".as_ref()] as [&std::ffi::OsStr; 2]);
    }
    let out = run(env, &args)?;
    let _ = std::fs::remove_file(&file);
    let _ = std::fs::remove_dir(&file);
    ensure!(out.status.is_some_and(|s| s != 0), "the program ends with status {:?} on a bad input", out.status);
    ensure!(!out.stderr.contains("panicked"), "the program panics on a bad input: {}", out.stderr.chars().take(300).collect::<String>());
    ensure!(out.stdout.trim().is_empty(), "a report is printed for a bad input: {:?}", out.stdout.chars().take(200).collect::<String>());
    let message = out.stderr.replace("Processing input data...", "");
    ensure!(!message.trim().is_empty(), "no error message on a bad input");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    const A: &[&str] = &[
        "traces with one root of positive duration, as produced by clang: the report is not defined for others",
        "durations are multiples of a quarter of a microsecond; shares which are equal to the threshold up to rounding may go either way",
    ];
    vec![
        Prop {
            id: "S01",
            assumptions: A.to_vec(),
            subs: vec![
                Box::new(sub("small", "at least 4 activities", (30_000, 300_000), |_| profile(3, 10, 3), check_flat).hang(60).shrink(600)),
                Box::new(sub("large", "at least 4 activities", (12_500, 120_000), |_| profile(6, 80, 6), check_flat).hang(60).shrink(600)),
            ],
        },
        Prop {
            id: "S02",
            assumptions: A.to_vec(),
            subs: vec![
                Box::new(sub("small", "at least 4 activities", (30_000, 300_000), |_| profile(4, 10, 3), check_tree).hang(60).shrink(600)),
                Box::new(sub("large", "at least 4 activities", (12_500, 120_000), |_| profile(8, 80, 6), check_tree).hang(60).shrink(600)),
            ],
        },
        Prop {
            id: "S03",
            assumptions: vec!["one root of positive duration", "no control characters in the texts of the trace", "widths as given by the unicode-width crate"],
            subs: vec![
                Box::new(sub("width", "at least 3 activities, one of which is abbreviated", (12_000, 160_000), |_| narrow(), check_narrow).hang(60).shrink(600)),
                Box::new(
                    sub(
                        "terminal",
                        "at least 3 activities, one of which is abbreviated",
                        (8_000, 100_000),
                        |_| {
                            (narrow(), prop_oneof![1 => Just(0u16), 2 => 1u16..12, 4 => 8u16..100, 2 => 100u16..300])
                                .prop_map(|(report, width)| InTerminal { report, width })
                        },
                        check_terminal,
                    )
                    .hang(60)
                    .shrink(600),
                ),
                Box::new(sub("broken", "a bad input which is not empty", (6_000, 80_000), |_| broken(), check_broken).hang(60).shrink(600)),
            ],
        },
    ]
}
