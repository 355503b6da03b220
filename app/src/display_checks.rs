//! D01-D05: how things are displayed

use clang_time_trace::{ActivityArgument, ClangTrace, CustomDisplay, Symbol};
use crofiler::verif::{display_activity_desc, display_duration, display_path, display_string, metadata, ActivityDescError, DisplayConfig};
use proptest::{collection::vec, prelude::*, sample::select};
use serde::{Deserialize, Serialize};
use std::str::FromStr;
use unicode_segmentation::UnicodeSegmentation;
use unicode_width::UnicodeWidthStr;
use vcommon::{ensure, ensure_eq, enumerated, fail, no_panic, sub, Case, CaseResult, Prop};
use vgen::{
    report::parse_duration,
    trace::{self, Act, Kind, Trace},
};

pub fn single(cols: u16) -> DisplayConfig {
    DisplayConfig::SingleLine { max_cols: cols }
}
pub fn multi(cols: u16, header: u16, trailer: u16) -> DisplayConfig {
    DisplayConfig::MultiLine { tot_cols: cols, header_cols: header, trailer_cols: trailer }
}
fn utf8(v: Vec<u8>) -> Result<String, String> {
    String::from_utf8(v).map_err(|_| "the output is not UTF-8".to_string())
}

// ---------------------------------------------------------------------- D01

/// Longest beginning of a text which fits, without splitting user-perceived characters
fn beginning(s: &str, cols: usize) -> (&str, usize) {
    let (mut end, mut used) = (0, 0);
    for g in s.graphemes(true) {
        if used + g.width() > cols {
            break;
        }
        used += g.width();
        end += g.len();
    }
    (&s[..end], used)
}
fn ending(s: &str, cols: usize) -> &str {
    let (mut start, mut used) = (s.len(), 0);
    for g in s.graphemes(true).rev() {
        if used + g.width() > cols {
            break;
        }
        used += g.width();
        start -= g.len();
    }
    &s[start..]
}
/// Shortened form of a text: as much of both ends as fits around an ellipsis
fn shortened(s: &str, cols: usize) -> String {
    if s.width() <= cols {
        return s.into();
    }
    let (head, used) = beginning(s, (cols - 1) / 2);
    format!("{head}…{}", ending(s, cols - 1 - used))
}
fn check_string(&(ref s, cols, h): &(String, u16, u16), case: &mut Case) -> CaseResult {
    let show = |config| {
        no_panic(|| {
            let mut v = vec![];
            display_string(&mut v, s, config).map_err(|e| e.to_string())?;
            utf8(v)
        })?
    };
    ensure_eq!(show(multi(cols, h, h / 2))?, *s, "multi-line form");
    let fits = s.width() <= cols as usize;
    let out = show(single(cols))?;
    ensure!(out.width() <= cols as usize, "{s:?} is displayed as {out:?}, in {} columns out of {cols}", out.width());
    if fits {
        ensure_eq!(out, *s, "text which fits in {cols} columns");
    } else {
        // The text may contain ellipses of its own: compare with the expected form
        ensure_eq!(out, shortened(s, cols as usize), "{s:?} in {cols} columns");
    }
    case.label_if(fits, "fits");
    case.label_if(!s.is_ascii(), "not ASCII");
    case.label_if(s.chars().count() > s.graphemes(true).count(), "characters made of several code points");
    case.nontrivial(!fits);
    Ok(())
}
fn text(max: usize) -> BoxedStrategy<String> {
    let piece = prop_oneof![
        6 => "[ -~]{1,8}",
        2 => select(vec!["日", "本語", "한", "é", "e\u{301}", "a\u{300}\u{301}\u{302}", "👨‍👩‍👧", "🇫🇷", "👍🏽", "☺\u{fe0f}", "☺", "\u{200b}", "\u{200d}", "\u{301}", "각", "ﻻ", "لا", "क्षि", "…", "ｱ", "Ａ", "\u{ad}", "\t", "\u{1}", "\u{7f}", "͏", "ᄀᄀᄀ", "1\u{fe0f}\u{20e3}", "\u{2028}"]).prop_map(|s| s.to_string()),
        1 => vec(any::<char>(), 1..4).prop_map(|v| v.into_iter().filter(|c| *c != '\n' && *c != '\r').collect()),
    ];
    vec(piece, 0..max).prop_map(|v| v.concat()).boxed()
}

// ---------------------------------------------------------------------- D02

/// Single-line form of an absolute path, whose components are given
pub fn check_short_path(comps: &[String], cols: usize, out: &str, case: &mut Case) -> CaseResult {
    let mut parts = vec!["/".to_string()];
    parts.extend_from_slice(comps);
    check_short_parts(&parts, cols, out, case)
}
/// Single-line form of a path, whose components are given (the root may be the first one)
pub fn check_short_parts(parts: &[String], cols: usize, out: &str, case: &mut Case) -> CaseResult {
    let root = |i: usize| i == 0 && parts[0] == "/";
    let full = match root(0) {
        true => format!("/{}", parts[1..].join("/")),
        false => parts.join("/"),
    };
    ensure!(out.width() <= cols, "{full:?} is displayed as {out:?}, in {} columns out of {cols}", out.width());
    if full.width() <= cols {
        ensure_eq!(out, full, "path which fits in {cols} columns");
        case.label("fits");
        return Ok(());
    }
    let n = parts.len();
    let name = &parts[n - 1];
    ensure!(n > 1 || !root(0), "the root is displayed as {out:?} in {cols} columns");
    let short_name = format!("…/{name}");
    if short_name.width() > cols {
        // No space for the file name
        let expected = if cols >= 17 {
            let (head, used) = beginning(name, (cols - 3) / 2);
            let rest = &name[head.len()..];
            format!("…/{head}…{}", ending(rest, cols - 3 - used))
        } else {
            "…".to_string()
        };
        ensure_eq!(out, expected, "{full:?} in {cols} columns, where its file name does not fit");
        case.label(if cols >= 17 { "shortened name" } else { "ellipsis" });
        return Ok(());
    }
    // Some components at both ends
    case.label("some components");
    for back in 1..=n {
        for front in 0..=n - back {
            let head: String = (0..front).map(|i| if root(i) { "/".into() } else { format!("{}/", parts[i]) }).collect();
            let tail: String = parts[n - back..].iter().map(|c| format!("/{c}")).collect();
            if out != format!("{head}…{tail}") {
                continue;
            }
            let left = n - back - front;
            ensure!(left >= 1, "{full:?} is displayed as {out:?} although nothing is left out");
            // No other one fits
            if left >= 2 {
                let next = if root(front) { 1 } else { parts[front].width() + 1 };
                let previous = parts[n - back - 1].width() + 1;
                let spare = cols - out.width();
                ensure!(next > spare && previous > spare, "{full:?} is displayed as {out:?} in {cols} columns, where more components fit");
            }
            return Ok(());
        }
    }
    fail!("{full:?} is displayed as {out:?} in {cols} columns: not made from its components")
}
fn trace_of(acts: Vec<(String, Option<String>)>) -> Result<ClangTrace, String> {
    let acts = acts.into_iter().enumerate().map(|(i, (name, detail))| Act { name, detail, start: 10_000 + 1000 * i as i64, dur: 1000 }).collect();
    let text = Trace::with_acts(acts).text();
    no_panic(|| ClangTrace::from_str(&text).map_err(|e| e.to_string()))?
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Paths {
    comps: Vec<String>,
    cols: Vec<u16>,
}
fn check_path(p: &Paths, case: &mut Case) -> CaseResult {
    let full = format!("/{}", p.comps.join("/"));
    let mut t = trace_of(vec![("Source".into(), Some(full.clone()))])?;
    let raw = t.all_activities().next().ok_or("no activity")?.activity().raw_argument().clone();
    let parsed = no_panic(|| raw.parse(&mut t).map_err(|e| e.to_string()))??;
    let ActivityArgument::FilePath(path) = parsed.resolve(&t) else { fail!("harness: {full:?} is not a path") };
    let show = |config| no_panic(|| display_path(&path, config).to_string());
    ensure_eq!(show(multi(80, 0, 0))?, full, "multi-line form");
    let all: Vec<u16> = if p.cols.is_empty() { (1..=full.width() as u16 + 2).collect() } else { p.cols.clone() };
    let mut before = case.labels.len();
    for cols in all {
        let out = show(single(cols))?;
        check_short_path(&p.comps, cols as usize, &out, case)?;
        case.evals += 1;
        if case.labels.len() > before + 8 {
            case.labels.dedup();
            before = case.labels.len();
        }
    }
    case.labels.sort();
    case.labels.dedup();
    case.nontrivial(p.comps.len() >= 3);
    Ok(())
}
fn component() -> BoxedStrategy<String> {
    prop_oneof![
        6 => "[a-zA-Z0-9_.+-]{1,10}",
        2 => "[a-zA-Z0-9_.+-]{10,40}",
        1 => "[a-z]",
        1 => "[a-z éü日👨(){}, …]{1,20}",
        1 => text(6),
    ]
    .prop_map(|s: String| s.replace(['/', '\0'], "_"))
    .prop_filter("meaningful", |s| !matches!(s.as_str(), "" | "." | "..") && s.width() > 0)
    .boxed()
}

// ---------------------------------------------------------------------- D03

const US: f64 = 1.0;
const MS: f64 = 1e3;
const S: f64 = 1e6;
const MIN: f64 = 60e6;
const H: f64 = 3600e6;
const D: f64 = 86400e6;
fn shift(mut x: f64, ulps: i8) -> f64 {
    for _ in 0..ulps.unsigned_abs() {
        x = if ulps < 0 { x.next_down() } else { x.next_up() };
    }
    x.max(0.0)
}
fn duration() -> BoxedStrategy<f64> {
    let unit = select(vec![US, MS, 10.0 * MS, 5.0 * MS, S, 5.0, 10.0, MIN, H, D]);
    let small = prop_oneof![3 => -3i8..=3, 1 => Just(0i8)];
    prop_oneof![
        // Around multiples of units, give or take fractions of what is displayed
        6 => (unit, prop_oneof![4 => 0u32..130, 1 => 0u32..100_000], select(vec![0.0, 1.0, -1.0, 0.005 * S, -0.005 * S, 0.01 * S, -0.01 * S, 5.0, -5.0, 4.0, -4.0, 0.5, -0.5, S, -S, 0.995 * S, 59.995 * S, 59.0 * MIN + 59.995 * S]), small.clone())
            .prop_map(|(u, n, off, ulps)| shift((u * n as f64 + off).max(0.0), ulps)),
        // Sums of every unit
        3 => ((0u32..4, 0u32..24, 0u32..60, 0u32..60, 0u32..1000), small.clone()).prop_map(|((d, h, m, s, ms), ulps)| shift(d as f64 * D + h as f64 * H + m as f64 * MIN + s as f64 * S + ms as f64 * MS, ulps)),
        // Of any magnitude
        3 => (0u32..40, 0u64..(1 << 52)).prop_map(|(e, m)| m as f64 / (1u64 << 52) as f64 * 2f64.powi(e as i32 + 9)),
        2 => (0u64..4_000_000_000_000, 0u32..4).prop_map(|(x, d)| x as f64 / 10f64.powi(d as i32)),
    ]
    .boxed()
}
fn shown(d: f64) -> Result<String, String> {
    no_panic(|| {
        let mut v = vec![];
        display_duration(&mut v, d).map_err(|e| e.to_string())?;
        utf8(v)
    })?
}
fn check_duration(a: f64, case: &mut Case) -> CaseResult {
    let text = shown(a)?;
    let s = parse_duration(&text).map_err(|e| format!("{a}µs: {e}"))?;
    ensure!(s.is(a), "{a}µs is displayed as {text:?}");
    // Unit, either way close to a limit
    let unit = |u: f64| if text.ends_with("µs") { u < MS * (1.0 + 1e-9) } else if text.ends_with("ms") { (MS * (1.0 - 1e-9)..S).contains(&u) } else if text.ends_with('s') { (S - 5.1..MIN).contains(&u) } else if text.contains("d ") { u >= D - 0.0051 * S } else if text.matches(':').count() == 2 { (H - 0.0051 * S..D).contains(&u) } else { (MIN - 0.0051 * S..H).contains(&u) };
    ensure!(unit(a), "{a}µs is displayed as {text:?}, in the wrong unit");
    case.label(if text.ends_with("µs") {
        "µs"
    } else if text.ends_with("ms") {
        "ms"
    } else if text.ends_with('s') {
        "s"
    } else if text.contains('d') {
        "days"
    } else if text.matches(':').count() == 2 {
        "hours"
    } else {
        "minutes"
    });
    Ok(())
}
fn check_durations(&(a, b): &(f64, f64), case: &mut Case) -> CaseResult {
    let (a, b) = (a.min(b), a.max(b));
    check_duration(a, case)?;
    check_duration(b, case)?;
    let (ta, tb) = (shown(a)?, shown(b)?);
    let (sa, sb) = (parse_duration(&ta)?, parse_duration(&tb)?);
    ensure!(sa.value <= sb.value * (1.0 + 1e-12) + 1e-9, "{a}µs is displayed as {ta:?}, and {b}µs, which is longer, as {tb:?}");
    case.evals += 2;
    case.nontrivial(a > 0.0 && b > a);
    Ok(())
}

// ---------------------------------------------------------------------- D04

fn check_desc(acts: &[(String, Option<String>)], cols: &[u16], case: &mut Case) -> CaseResult {
    let mut t = trace_of(acts.to_vec())?;
    let ids: Vec<_> = t.all_activities().map(|a| (a.start().to_bits(), a.id())).collect();
    for (i, (name, detail)) in acts.iter().enumerate() {
        let at = trace::us(10_000 + 1000 * i as i64).to_bits();
        let Some(&(_, id)) = ids.iter().find(|(s, _)| *s == at) else { fail!("harness: activity {i} is not there") };
        let raw = t.activity_trace(id).activity().raw_argument().clone();
        let parsed = match no_panic(|| raw.parse(&mut t).map_err(|e| e.to_string()))? {
            Ok(p) => p,
            Err(_) => continue,
        };
        let arg = parsed.resolve(&t);
        let at = t.activity_trace(id);
        let activity = at.activity();
        let show = |config| {
            no_panic(|| {
                let mut v = vec![];
                match display_activity_desc(&mut v, activity.id(), &arg, config) {
                    Ok(wrap) => utf8(v).map(|s| Some((s, wrap))),
                    Err(ActivityDescError::NotEnoughCols(_)) => {
                        ensure_empty(&v)?;
                        Ok(None)
                    }
                    Err(e) => Err(e.to_string()),
                }
            })?
        };
        let has_arg = !matches!(arg, ActivityArgument::Nothing);
        ensure_eq!(has_arg, detail.is_some(), "having an argument, for {name:?}");
        // In full
        let full_arg = match &arg {
            ActivityArgument::Nothing => String::new(),
            ActivityArgument::UnnamedLoop => "<unnamed loop>".into(),
            ActivityArgument::Module => "[module]".into(),
            ActivityArgument::String(s) | ActivityArgument::Symbol(Symbol::Demangled(s)) | ActivityArgument::Symbol(Symbol::MaybeMangled(s)) => s.to_string(),
            ActivityArgument::FilePath(p) => p.to_boxed_path().display().to_string(),
            ActivityArgument::CppEntity(e) | ActivityArgument::Symbol(Symbol::Parsed(e)) => e.display(&Default::default()).to_string(),
        };
        case.label(kind_label(&arg));
        let full = if has_arg { format!("{name}({full_arg})") } else { name.clone() };
        for &c in cols {
            let Some((out, _)) = show(multi(c, c % 7, c % 5))? else { fail!("no multi-line form of {full:?}") };
            ensure_eq!(out, full, "multi-line form");
            // Budgets around the interesting ones
            for c in [c, (name.width() as u16).saturating_add(c % 8).saturating_sub(2), (full.width() as u16).saturating_add(c % 4).saturating_sub(2)] {
                case.evals += 1;
                let enough = c as usize >= name.width() + if has_arg { 2 + full_arg.width().min(1) } else { 0 };
                let out = show(single(c))?;
                let Some((out, wrap)) = out else {
                    ensure!(!enough, "no single-line form of {full:?} in {c} columns");
                    continue;
                };
                ensure!(enough, "{full:?} is displayed as {out:?} in {c} columns");
                ensure!(!wrap, "{full:?} in {c} columns should be wrapped");
                ensure!(out.width() <= c as usize, "{full:?} is displayed as {out:?}, in {} columns out of {c}", out.width());
                if full.width() <= c as usize {
                    ensure_eq!(out, full, "description which fits in {c} columns");
                    continue;
                }
                ensure!(has_arg, "{full:?} is displayed as {out:?} in {c} columns");
                let Some(short) = out.strip_prefix(name.as_str()).and_then(|o| o.strip_prefix('(')).and_then(|o| o.strip_suffix(')')) else {
                    fail!("{full:?} is displayed as {out:?} in {c} columns")
                };
                let left = c as usize - name.width() - 2;
                match &arg {
                    ActivityArgument::FilePath(_) => {
                        let comps: Vec<String> = full_arg.split('/').filter(|c| !c.is_empty()).map(|c| c.to_string()).collect();
                        let mut sub = Case::default();
                        check_short_path(&comps, left, short, &mut sub)?
                    }
                    ActivityArgument::CppEntity(e) | ActivityArgument::Symbol(Symbol::Parsed(e)) => ensure_eq!(short, e.bounded_display(left as u16), "argument of {full:?} in {c} columns"),
                    _ => ensure_eq!(short, shortened(&full_arg, left), "argument of {full:?} in {c} columns"),
                }
                case.label("shortened");
                case.nontrivial(true);
            }
        }
    }
    Ok(())
}
fn ensure_empty(v: &[u8]) -> Result<(), String> {
    if v.is_empty() {
        Ok(())
    } else {
        Err(format!("{:?} is written before reporting a lack of space", String::from_utf8_lossy(v)))
    }
}
fn kind_label(a: &ActivityArgument) -> &'static str {
    match a {
        ActivityArgument::Nothing => "nothing",
        ActivityArgument::UnnamedLoop => "unnamed loop",
        ActivityArgument::Module => "module",
        ActivityArgument::String(_) => "text",
        ActivityArgument::FilePath(_) => "path",
        ActivityArgument::CppEntity(_) => "entity",
        ActivityArgument::Symbol(Symbol::Parsed(_)) => "parsed symbol",
        ActivityArgument::Symbol(_) => "symbol",
    }
}
fn one_line(s: &str) -> String {
    s.replace(['\n', '\r'], "_")
}
fn activity() -> BoxedStrategy<(String, Option<String>)> {
    prop_oneof![
        6 => trace::activity(),
        2 => (select(trace::ACTIVITIES.iter().filter(|a| a.1 == Kind::Path).map(|a| a.0).collect::<Vec<_>>()), vec(component(), 0..7)).prop_map(|(n, c)| (n.to_string(), Some(format!("/{}", c.join("/"))))),
        // Activities that crofiler does not know, whose arguments can be anything
        2 => (prop_oneof!["[A-Za-z日é ]{1,20}", text(6)], prop_oneof![Just(None), trace::detail(Kind::Str), trace::detail(Kind::Path), trace::detail(Kind::Entity), text(10).prop_map(Some)])
            .prop_filter("known", |(n, _)| trace::kind_of(n).is_none()),
        2 => (select(trace::ACTIVITIES.iter().filter(|a| a.1 == Kind::Str).map(|a| a.0).collect::<Vec<_>>()), text(10).prop_filter("empty", |s| !s.is_empty())).prop_map(|(n, t)| (n.to_string(), Some(t))),
    ]
    .prop_map(|(n, d)| (one_line(&n), d.map(|d| one_line(&d))))
    .boxed()
}

// ---------------------------------------------------------------------- D05

/// RFC 3339 form of a time in whole µs, from scratch
fn rfc3339(us: i128) -> Option<String> {
    let (s, f) = (us.div_euclid(1_000_000), us.rem_euclid(1_000_000));
    let (mut day, sec) = (s.div_euclid(86400), s.rem_euclid(86400));
    if !(-800_000..3_000_000).contains(&day) {
        return None;
    }
    let leap = |y: i128| y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let mut y = 1970;
    while day < 0 {
        y -= 1;
        day += if leap(y) { 366 } else { 365 };
    }
    while day >= if leap(y) { 366 } else { 365 } {
        day -= if leap(y) { 366 } else { 365 };
        y += 1;
    }
    if !(0..=9999).contains(&y) {
        return None;
    }
    let mut m = 0;
    let len = |m: usize| [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m];
    while day >= len(m) {
        day -= len(m);
        m += 1;
    }
    let frac = if f == 0 { String::new() } else { format!(".{f:06}").trim_end_matches('0').to_string() };
    Some(format!("{y:04}-{:02}-{:02}T{:02}:{:02}:{:02}{frac}Z", m + 1, day + 1, sec / 3600, sec / 60 % 60, sec % 60))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Meta {
    trace: Trace,
    cols: Vec<u16>,
}
fn check_metadata(c: &Meta, case: &mut Case) -> CaseResult {
    let m = &c.trace;
    let text = m.text();
    let t = no_panic(|| ClangTrace::from_str(&text).map_err(|e| e.to_string().chars().take(300).collect::<String>()))??;
    let head = format!("Data from {}", m.process);
    let mut items = vec![];
    if m.pid > 1 {
        items.push(Some(format!("pid {}", m.pid)));
    }
    if let Some(th) = &m.thread {
        items.push(Some(format!("thread {th:?}")));
    }
    if let Some(b) = m.begin {
        // (start times beyond 2^53 are read approximately)
        let Some(bot) = t.beginning_of_time() else { fail!("no start time") };
        ensure!((bot - b as f64).abs() <= (b as f64).abs() * 1e-14, "start time is {bot} instead of {b}");
        let date = rfc3339(bot as i128);
        case.label_if(date.is_none(), "not a date");
        items.push(date.map(|d| format!("recorded {d}")));
    }
    let long = 40 + head.width() + items.iter().flatten().map(|i| i.width()).sum::<usize>();
    for &cols in &c.cols {
        let cols = 1 + cols % (long as u16);
        let out = no_panic(|| metadata(&t, cols))?;
        case.evals += 1;
        for l in out.split('\n') {
            ensure!(l.width() <= cols as usize, "line {l:?} of metadata takes {} columns out of {cols}", l.width());
        }
        // One column is set aside for punctuation
        let max = cols as usize - 1;
        if head.width() > max {
            ensure_eq!(out, "…", "metadata in {cols} columns, where {head:?} does not fit");
            case.label("nothing fits");
            continue;
        }
        // Items in order, on the same line if they fit
        let Some(mut rest) = out.strip_prefix(&head) else { fail!("metadata {out:?} does not start with {head:?}") };
        let mut width = head.width();
        for item in &items {
            let Some(r) = rest.strip_prefix(',') else { fail!("comma expected at {rest:?} in {out:?}") };
            let (newline, r) = match (r.strip_prefix('\n'), r.strip_prefix(' ')) {
                (Some(r), _) => (true, r),
                (_, Some(r)) => (false, r),
                _ => fail!("separator expected at {r:?} in {out:?}"),
            };
            let shown = match item {
                Some(i) if i.width() <= max => i.clone(),
                Some(_) => "…".to_string(),
                // Whatever is displayed for a start time which is not a date
                None => match r.strip_prefix('…') {
                    Some(_) => "…".to_string(),
                    None => {
                        ensure!(r.starts_with("recorded "), "start time expected at {r:?} in {out:?}");
                        r.strip_suffix('.').unwrap_or(r).to_string()
                    }
                },
            };
            let fits = width + 2 + shown.width() <= max;
            ensure_eq!(newline, !fits, "line feed before {shown:?}, in {cols} columns, in {out:?}");
            width = if newline { shown.width() } else { width + 2 + shown.width() };
            let Some(r) = r.strip_prefix(&shown) else { fail!("{shown:?} expected at {r:?} in {out:?}, {cols} columns") };
            rest = r;
            case.label_if(shown == "…", "item which does not fit");
            case.label_if(newline, "several lines");
        }
        ensure_eq!(rest, ".", "end of metadata {out:?}");
    }
    case.nontrivial(items.len() >= 2);
    Ok(())
}
fn meta() -> BoxedStrategy<Meta> {
    let begin = prop_oneof![
        2 => (1_600_000_000i64..1_900_000_000, 0i64..1_000_000).prop_map(|(s, u)| s * 1_000_000 + u),
        // Around days and years, of any time
        2 => (-750_000i64..3_000_000, select(vec![0i64, 1, -1, 43_200, 86_399]), select(vec![0i64, 1, 10, 500_000, 999_999])).prop_map(|(d, s, u)| (d * 86400 + s) * 1_000_000 + u),
        1 => any::<i64>(),
        1 => Just(0),
    ]
    // Exact as floating point
    .prop_map(|b: i64| b as f64 as i64);
    let name = prop_oneof![4 => "[a-z0-9.+-]{1,20}", 1 => text(6)];
    (trace::trace(Shape { depth: 1, size: 2, width: 2, roots: 1, rich: false }), name.clone(), prop::option::of(name), prop::option::weighted(0.8, begin), vec(any::<u16>(), 1..8))
        .prop_map(|(mut trace, p, t, begin, cols)| {
            trace.process = one_line(&p);
            trace.thread = if trace.pid > 1 { t } else { None };
            trace.begin = begin;
            Meta { trace, cols }
        })
        .boxed()
}
use trace::Shape;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "D01",
            assumptions: vec!["no line feeds in single-line form, as documented", "widths as given by the unicode-width crate, user-perceived characters by the unicode-segmentation crate"],
            subs: vec![
                Box::new(sub("short", "a text which does not fit", (4_000_000, 40_000_000), |_| (text(4), 1u16..24, 0u16..30), |_, v, c| check_string(v, c))),
                Box::new(sub("long", "a text which does not fit", (1_500_000, 15_000_000), |_| (text(30), 1u16..160, 0u16..300), |_, v, c| check_string(v, c))),
            ],
        },
        Prop {
            id: "D02",
            assumptions: vec!["absolute paths as clang writes them, without `.` and `..`; components of at least one column", "widths as given by the unicode-width crate"],
            subs: vec![
                Box::new(sub("every", "at least 3 components, at every budget", (300_000, 2_000_000), |_| vec(component(), 0..6).prop_map(|comps| Paths { comps, cols: vec![] }), |_, v, c| check_path(v, c))),
                Box::new(sub("long", "at least 3 components", (300_000, 2_000_000), |_| (vec(component(), 0..16), vec(prop_oneof![3 => 1u16..60, 1 => 1u16..300], 1..20)).prop_map(|(comps, cols)| Paths { comps, cols }), |_, v, c| check_path(v, c))),
                Box::new(enumerated("names", "paths of one to three components of every small size", |_| {
                    let mut v = vec![];
                    for a in 0..6usize {
                        for b in 0..6usize {
                            for c in [1usize, 2, 3, 12, 13, 14, 15, 16, 17, 18, 19, 20] {
                                let comps: Vec<String> = [a, b, c].iter().zip("abc".chars()).filter(|(n, _)| **n > 0).map(|(n, x)| x.to_string().repeat(*n)).collect();
                                v.push(Paths { comps, cols: vec![] });
                            }
                        }
                    }
                    v
                }, |_, v, c| check_path(v, c))),
            ],
        },
        Prop {
            id: "D03",
            assumptions: vec!["finite and non-negative durations of up to some 10,000 years"],
            subs: vec![
                Box::new(sub("pairs", "two different positive durations", (10_000_000, 150_000_000), |_| (duration(), duration()), |_, v, c| check_durations(v, c))),
                Box::new(sub("neighbours", "two different positive durations", (5_000_000, 80_000_000), |_| (duration(), prop_oneof![(1i8..20).prop_map(|u| (u, 0.0)), (0f64..20_000.0).prop_map(|x| (0, x))]).prop_map(|(a, (u, x))| (a, shift(a, u) + x)), |_, v, c| check_durations(v, c))),
                Box::new(enumerated("grid", "every limit between units, with every nearby value", |_| (0..=26u32).collect(), |_, v: &u32, case| {
                    let at = match *v {
                        0..=3 => [0.0, MS, S, 10.0 * S][*v as usize],
                        4..=9 => MIN * [1.0, 2.0, 10.0, 59.0, 60.0, 61.0][*v as usize - 4],
                        10..=15 => H * [2.0, 10.0, 23.0, 24.0, 25.0, 47.0][*v as usize - 10],
                        n => D * (n - 14) as f64,
                    };
                    for i in -30_000..30_000i32 {
                        // By tenths of µs, then µs, then ms
                        for step in [0.1, 1.0, 1000.0] {
                            let x = at + i as f64 * step;
                            if x >= 0.0 {
                                check_duration(x, &mut Case::default())?;
                                case.evals += 1;
                            }
                        }
                    }
                    case.nontrivial(true);
                    Ok(())
                })),
            ],
        },
        Prop {
            id: "D04",
            assumptions: vec!["arguments which can be parsed, without line feeds", "shortened forms as specified by P04, D01 and D02"],
            subs: vec![
                Box::new(sub("random", "an argument was shortened", (480_000, 2_000_000), |_| (vec(activity(), 1..5), vec(prop_oneof![4 => 0u16..60, 1 => 0u16..250], 1..8)), |_, (a, cols), c| check_desc(a, cols, c))),
                Box::new(enumerated("names", "every activity which may have an argument, at every budget", |_| trace::ACTIVITIES.iter().map(|a| a.0.to_string()).collect(), |_, n: &String, case| {
                    let details: Vec<Option<&str>> = match trace::kind_of(n).unwrap() {
                        Kind::Nothing => vec![None],
                        Kind::Str => vec![Some("x"), Some("Some Very Long Pass Name")],
                        Kind::Path => vec![Some("[module]"), Some("/usr/include/c++/12/bits/stl_vector.h")],
                        Kind::Entity => vec![Some("A"), Some("std::vector<int, std::allocator<int>>::push_back(int const &)")],
                        Kind::Symbol => vec![Some("_Z1fi"), Some("main"), Some("__cxx_global_var_init.1")],
                        Kind::SymbolOpt => vec![None, Some("_ZN1a1b1fEv")],
                        Kind::Loop => vec![Some("<unnamed loop>")],
                        Kind::LoopOpt => vec![None, Some("<unnamed loop>")],
                    };
                    let acts: Vec<_> = details.into_iter().map(|d| (n.clone(), d.map(|d| d.to_string()))).collect();
                    check_desc(&acts, &(0..120).collect::<Vec<_>>(), case)
                })),
            ],
        },
        Prop {
            id: "D05",
            assumptions: vec!["no line feeds in process names", "start times in whole microseconds, exact as floating point"],
            subs: vec![Box::new(sub("random", "at least two items besides the process name", (720_000, 3_000_000), |_| meta(), |_, v, c| check_metadata(v, c)))],
        },
    ]
}
