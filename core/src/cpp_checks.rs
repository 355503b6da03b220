//! P01-P05: the C++ entity parser

use cpparser::{
    display::{CustomDisplay, DisplayState},
    EntityKey, EntityParser,
};
use proptest::{collection::vec, prelude::*, sample::select};
use serde::{Deserialize, Serialize};
use unicode_width::UnicodeWidthStr;
use vcommon::{enumerated, ensure, ensure_eq, fail, no_panic, sub, Case, CaseResult, Env, Prop};
use vgen::cpp::{self, Ty};

fn level(p: &EntityParser, k: EntityKey, depth: usize) -> String {
    p.entity(k).display(&DisplayState::new(depth)).to_string()
}
fn full(p: &EntityParser, k: EntityKey) -> String {
    p.entity(k).to_string()
}

/// Bracket nesting of a text, capped on the way
fn max_nesting(s: &str) -> usize {
    let (mut d, mut m) = (0usize, 0);
    for c in s.chars() {
        match c {
            '(' | '<' | '[' | '{' => {
                d += 1;
                m = m.max(d);
            }
            ')' | '>' | ']' | '}' => d = d.saturating_sub(1),
            _ => {}
        }
    }
    m
}

fn counters(p: &EntityParser) -> Vec<(&'static str, Option<usize>)> {
    vec![
        ("num_types", Some(p.num_types())),
        ("num_values", Some(p.num_values())),
        ("num_identifiers", Some(p.num_identifiers())),
        ("num_scopes", Some(p.num_scopes())),
        ("max_scope_sequence_len", p.max_scope_sequence_len()),
        ("num_template_parameters", Some(p.num_template_parameters())),
        ("max_template_parameter_set_len", p.max_template_parameter_set_len()),
        ("num_function_parameters", Some(p.num_function_parameters())),
        ("max_function_parameters_len", p.max_function_parameters_len()),
        ("num_function_arguments", Some(p.num_function_arguments())),
        ("max_function_arguments_len", p.max_function_arguments_len()),
        ("num_decl_operators", Some(p.num_decl_operators())),
        ("max_declarator_len", p.max_declarator_len()),
        ("num_after_value", Some(p.num_after_value())),
        ("max_value_trailer_len", p.max_value_trailer_len()),
        ("num_path_components", Some(p.num_path_components())),
        ("num_unique_path_components", Some(p.num_unique_path_components())),
        ("max_path_len", p.max_path_len()),
    ]
}

// ---------------------------------------------------------------------- P01

const TOKENS: &[&str] = &[
    "a", "b", "T", "foo", "std", "::", "<", ">", "<>", "(", ")", "[", "]", "{", "}", ",", " ", "  ", "*", "&", "&&", "const", "volatile", "int",
    "unsigned", "long", "char", "double", "_Complex", "__int128", "operator", "operator()", "operator new", "new", "delete", "delete[]", "co_await",
    "sizeof(", "declval(", "decltype(", "noexcept", "->", ".", "...", "+", "-", "++", "--", "!", "~", "^", "%", "/", "|", "||", "=", "==", "<=", ">=",
    "<=>", "<<", ">>", "?", ":", "'a'", "'\\n'", "'\\x41'", "'", "\"\"", "\\", "0", "1", "-1", "42u", "18446744073709551615", "99999999999999999999999", "1_x",
    "typename ", "struct ", "auto:1", "__attribute__((", "))", "__vector(", "(lambda at /a/b.cpp:1:2)", "(lambda at ", "/x/../y:3:4)", "(anonymous namespace)",
    "(anonymous class at ", "(unnamed struct)", "{lambda(", ")#1}", "#", "{unnamed type#1}", "<unknown>", "<, void>", "[abi:cxx11]", "[abi:", "restrict", "/", "\t", "\n",
    "é", "日本", "\u{200d}", "$", "@", "\0", "\u{7f}", "%%", "^^", "//", "~~", "!!", ",,", "**", "rel/path.h:1:2)", "u8'", "'é'", "1é",
];

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mutation {
    Delete(u16, u8),
    Duplicate(u16, u8),
    Insert(u16, String),
    Truncate(u16),
    Swap(u16, u16),
    Replace(u16, char),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Text {
    Valid(Ty, u64),
    Mutated(Ty, u64, Vec<Mutation>),
    Soup(Vec<String>),
    Raw(String),
}
fn text_of(t: &Text) -> String {
    match t {
        Text::Valid(t, n) => t.spelled(*n),
        Text::Mutated(t, n, m) => {
            let mut cs: Vec<char> = t.spelled(*n).chars().collect();
            for m in m {
                let n = cs.len();
                let at = |p: u16| if n == 0 { 0 } else { p as usize % n };
                match m {
                    Mutation::Delete(p, k) => {
                        let a = at(*p);
                        cs.drain(a..(a + *k as usize).min(n));
                    }
                    Mutation::Duplicate(p, k) => {
                        let a = at(*p);
                        let part: Vec<char> = cs[a..(a + *k as usize).min(n)].to_vec();
                        cs.splice(a..a, part);
                    }
                    Mutation::Insert(p, s) => {
                        let a = at(*p);
                        cs.splice(a..a, s.chars());
                    }
                    Mutation::Truncate(p) => cs.truncate(at(*p)),
                    Mutation::Swap(p, q) => {
                        if n > 0 {
                            cs.swap(at(*p), at(*q));
                        }
                    }
                    Mutation::Replace(p, c) => {
                        if n > 0 {
                            let a = at(*p);
                            cs[a] = *c;
                        }
                    }
                }
            }
            cs.into_iter().collect()
        }
        Text::Soup(v) => v.concat(),
        Text::Raw(s) => s.clone(),
    }
}
fn text(depth: usize) -> BoxedStrategy<Text> {
    let token = select(TOKENS).prop_map(|s| s.to_string()).boxed();
    let mutation = prop_oneof![
        2 => (any::<u16>(), 1u8..6).prop_map(|(a, b)| Mutation::Delete(a, b)),
        1 => (any::<u16>(), 1u8..12).prop_map(|(a, b)| Mutation::Duplicate(a, b)),
        3 => (any::<u16>(), token.clone()).prop_map(|(a, b)| Mutation::Insert(a, b)),
        1 => any::<u16>().prop_map(Mutation::Truncate),
        1 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Mutation::Swap(a, b)),
        1 => (any::<u16>(), any::<char>()).prop_map(|(a, b)| Mutation::Replace(a, b)),
    ];
    prop_oneof![
        3 => (cpp::entity(depth, 2), any::<u64>()).prop_map(|(t, n)| Text::Valid(t, n)),
        4 => (cpp::entity(depth, 2), any::<u64>(), vec(mutation, 1..4)).prop_map(|(t, n, m)| Text::Mutated(t, n, m)),
        3 => vec(token, 0..16).prop_map(Text::Soup),
        1 => prop_oneof![".{0,24}", "[ -~]{0,24}", "[()<>\\[\\]{}:*&a ,]{0,20}"].prop_map(Text::Raw),
    ]
    .boxed()
}

fn check_crash(_: &Env, v: &Vec<Text>, case: &mut Case) -> CaseResult {
    let mut p = EntityParser::new();
    let mut seen: Vec<(String, EntityKey, String)> = vec![];
    let (mut rejected, mut accepted) = (0, 0);
    for t in v {
        let s = text_of(t);
        if max_nesting(&s) > 9 || s.len() > 4000 {
            case.label("skipped: nested too deep");
            continue;
        }
        case.evals += 1;
        case.label_if(!s.is_ascii(), "non-ascii");
        match no_panic(|| p.parse_entity(&s).map_err(|_| ())) {
            Err(m) => fail!("parsing {s:?} panics: {m}"),
            Ok(Ok(k)) => {
                accepted += 1;
                let text = match no_panic(|| full(&p, k)) {
                    Err(m) => fail!("displaying {s:?} panics: {m}"),
                    Ok(t) => t,
                };
                seen.push((s, k, text));
            }
            Ok(Err(())) => rejected += 1,
        }
    }
    case.label_if(rejected > 0, "rejected");
    case.label_if(accepted > 0, "accepted");
    case.nontrivial(rejected > 0 || accepted > 0);
    // Rejected inputs and later parses leave no trace in what others display
    for (s, k, text) in &seen {
        ensure_eq!(full(&p, *k), *text, "display of {s:?} after later parses");
        let mut fresh = EntityParser::new();
        let fk = match fresh.parse_entity(s) {
            Ok(k) => k,
            Err(e) => fail!("{s:?} parses on a used parser, but not on a fresh one: {e:?}"),
        };
        ensure_eq!(*text, full(&fresh, fk), "display of {s:?} on a used parser versus a fresh one");
        match p.parse_entity(s) {
            Ok(k2) => ensure!(k2 == *k, "parsing {s:?} again gives another key"),
            Err(e) => fail!("{s:?} is rejected the second time: {e:?}"),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------- P02

fn check_roundtrip(_: &Env, (t, noise): &(Ty, u64), case: &mut Case) -> CaseResult {
    let canonical = t.canonical();
    let spelled = t.spelled(*noise);
    labels(case, &canonical);
    case.label_if(spelled != canonical, "other spelling");
    let mut p = EntityParser::new();
    let k = match p.parse_entity(&spelled) {
        Ok(k) => k,
        Err(e) => fail!("{spelled:?} is rejected: {e:?}"),
    };
    let shown = full(&p, k);
    ensure_eq!(shown, canonical, "display of {spelled:?}");
    match p.parse_entity(&shown) {
        Ok(k2) => ensure!(k2 == k, "parsing the display of {spelled:?}, that is {shown:?}, gives another entity: {:?}", full(&p, k2)),
        Err(e) => fail!("the display {shown:?} of {spelled:?} is rejected: {e:?}"),
    }
    Ok(())
}
fn labels(case: &mut Case, canonical: &str) {
    let n = canonical.len();
    case.label(match n {
        0..=9 => "length <10",
        10..=39 => "length 10-39",
        40..=99 => "length 40-99",
        100..=299 => "length 100-299",
        _ => "length 300+",
    });
    for (pat, l) in [
        ("operator", "operator"), ("(lambda", "clang lambda"), ("{lambda", "libiberty lambda"), ("decltype(", "decltype"), ("new", "new"), ("sizeof(", "sizeof"),
        ("::*", "member pointer"), ("__vector(", "vector"), ("__attribute__", "attribute"), ("noexcept", "noexcept"), ("->", "arrow"), ("...", "ellipsis"),
        ("[abi:", "abi"), (", void>", "void template"), ("?", "ternary"), ("'", "char literal"), ("<", "template"), ("(", "parentheses"),
    ] {
        case.label_if(canonical.contains(pat), l);
    }
    case.nontrivial(n >= 10);
}

/// Long sequences, up to what the interners are dimensioned for
fn long_entity(kind: u8, n: usize, seed: u64) -> String {
    let mut noise = cpp::Noise::new(seed);
    let mut word = || ["a", "b", "T1", "std"][noise.next(4) as usize];
    let words = |n: usize, sep: &str, word: &mut dyn FnMut() -> &'static str| (0..n).map(|_| word()).collect::<Vec<_>>().join(sep);
    match kind % 7 {
        0 => format!("f({})", words(n % 251, ", ", &mut word)),
        1 => format!("A<{}>", words(n % 1001, ", ", &mut word)),
        2 => format!("a{}", (0..n % 251).map(|_| if word() == "a" { "*" } else { "* const" }).collect::<String>()),
        3 => format!("{}", words(n % 250 + 1, "::", &mut word)),
        4 => format!("A<g({}, 1)>", words(n % 60 + 1, ", ", &mut word)),
        5 => format!("A<x{}>", (0..n % 61).map(|_| if word() == "a" { ".m" } else { "[1]" }).collect::<String>()),
        _ => format!("(lambda at /{}:1:2)", words(n % 250 + 1, "/", &mut word)),
    }
}
fn check_long(_: &Env, v: &Vec<(u8, u16, u64)>, case: &mut Case) -> CaseResult {
    let mut p = EntityParser::new();
    let mut seen: Vec<(String, EntityKey)> = vec![];
    for (kind, n, seed) in v {
        let s = long_entity(*kind, *n as usize, *seed);
        case.evals += 1;
        case.nontrivial(s.len() >= 100);
        let k = match p.parse_entity(&s) {
            Ok(k) => k,
            Err(e) => fail!("{s:?} is rejected: {e:?}"),
        };
        ensure_eq!(full(&p, k), s, "display");
        for (other, ok) in &seen {
            ensure!((*other == s) == (*ok == k), "keys of {other:?} and {s:?}: equal = {}", *ok == k);
        }
        seen.push((s, k));
    }
    for (s, k) in &seen {
        ensure_eq!(full(&p, *k), *s, "display after parsing other long entities");
    }
    Ok(())
}

// ---------------------------------------------------------------------- P03

#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    pool: Vec<Ty>,
    /// (pool index, spelling), or an input that gets rejected
    steps: Vec<(u8, u64)>,
    junk: Vec<Vec<String>>,
}
fn check_keys(_: &Env, h: &History, case: &mut Case) -> CaseResult {
    if h.pool.is_empty() {
        return Ok(());
    }
    let mut p = EntityParser::new();
    let mut known: Vec<(String, EntityKey)> = vec![];
    let mut repeats = 0;
    for (i, (n, noise)) in h.steps.iter().enumerate() {
        if i % 4 == 3 && !h.junk.is_empty() {
            let s = h.junk[i % h.junk.len()].concat();
            if max_nesting(&s) <= 6 {
                let _ = p.parse_entity(&s);
            }
        }
        let t = &h.pool[*n as usize % h.pool.len()];
        let canonical = t.canonical();
        let s = t.spelled(*noise);
        case.evals += 1;
        let k = match p.parse_entity(&s) {
            Ok(k) => k,
            Err(e) => fail!("{s:?} is rejected: {e:?}"),
        };
        ensure_eq!(full(&p, k), canonical, "display of {s:?} in this history");
        // The very same text brings nothing new
        let before = counters(&p);
        ensure!(p.parse_entity(&s) == Ok(k), "parsing {s:?} again gives another key");
        for ((name, a), (_, b)) in before.iter().zip(counters(&p)) {
            ensure!(*a == b, "{name} goes from {a:?} to {b:?} when {s:?} is parsed again");
        }
        for (other, ok) in &known {
            ensure!((*ok == k) == (*other == canonical), "keys of {other:?} and {canonical:?} (from {s:?}): equal = {}", *ok == k);
        }
        if known.iter().any(|(o, _)| *o == canonical) {
            repeats += 1;
        } else {
            known.push((canonical, k));
        }
    }
    case.label_if(repeats > 0, "repeated entity");
    case.label_if(known.len() >= 5, "5+ distinct entities");
    case.nontrivial(known.len() >= 2);
    for (canonical, k) in &known {
        ensure_eq!(full(&p, *k), *canonical, "display at the end of the history");
        ensure!(p.entity(*k) == p.entity(*k), "a view differs from itself");
    }
    Ok(())
}
fn history() -> BoxedStrategy<History> {
    // Related entities: pieces of one another and small variations
    let pool = vec(cpp::entity(2, 2), 1..6).prop_flat_map(|base| {
        let n = base.len();
        (Just(base), vec((0..n, 0..n, 0u8..16, any::<u16>(), 0usize..12), 0..8)).prop_map(|(base, ops)| {
            let mut pool = base.clone();
            for (i, j, op, leaf, how) in ops {
                let (a, b) = (base[i].clone(), base[j].clone());
                let mut t = a;
                match op {
                    0 => t.cv ^= 1,
                    1 => t.decl.push(cpp::Decl::Ptr { cv: 0, restrict: false }),
                    2 => t.decl.truncate(t.decl.len() / 2),
                    3 => t.decl.extend(b.decl),
                    4 => t = wrap("W", vec![cpp::Arg::T(t), cpp::Arg::T(b)]),
                    5 => t = wrap("W", vec![cpp::Arg::T(t)]),
                    6 => t = wrap("V", vec![cpp::Arg::T(b), cpp::Arg::T(t)]),
                    8 if leaf % 4 == 0 => {
                        // Long lists
                        let args = (0..3 + leaf as usize / 4 % 70).map(|k| cpp::Arg::T(if k == i { t.clone() } else { b.clone() })).collect();
                        t = wrap("L", args)
                    }
                    8.. => match cpp::tweak(&t, leaf as usize, how) {
                        Some(tweaked) => t = tweaked,
                        None => continue,
                    },
                    _ => t.decl.insert(0, cpp::Decl::Func(cpp::Sig { abi: None, params: vec![b], variadic: i % 2 == 0, cv: 0, refs: 0, noexcept: None, ret: None })),
                }
                pool.push(cpp::sanitize(t));
            }
            pool
        })
    });
    (pool, vec((any::<u8>(), prop_oneof![1 => Just(0u64), 2 => any::<u64>()]), 1..14), vec(vec(select(TOKENS).prop_map(|s| s.to_string()), 1..8), 0..4))
        .prop_map(|(pool, steps, junk)| History { pool, steps, junk })
        .boxed()
}
fn wrap(name: &str, args: Vec<cpp::Arg>) -> Ty {
    Ty {
        attr: vec![],
        cv: 0,
        base: cpp::Base::Id(cpp::Id { rooted: false, scopes: vec![], last: cpp::Unq::Named { dtor: false, name: name.into(), tpl: Some(cpp::Tpl::List(args)) } }),
        decl: vec![],
    }
}

// ---------------------------------------------------------------------- P04

/// Is `short` obtained from `full` by replacing parts with ellipses?
pub fn elides(short: &str, full: &str) -> bool {
    let parts: Vec<&str> = short.split('…').collect();
    if parts.len() == 1 {
        return short == full;
    }
    let (first, last) = (parts[0], parts[parts.len() - 1]);
    if full.len() < first.len() + last.len() || !full.starts_with(first) || !full.ends_with(last) {
        return false;
    }
    let mut rest = &full[first.len()..full.len() - last.len()];
    for part in &parts[1..parts.len() - 1] {
        // Each ellipsis stands for something
        let Some(skip) = rest.chars().next().map(|c| c.len_utf8()) else { return false };
        match rest[skip..].find(part) {
            Some(i) => rest = &rest[skip + i + part.len()..],
            None => return false,
        }
    }
    !rest.is_empty()
}
fn brackets(s: &str) -> Option<Vec<(char, i32)>> {
    let mut n = vec![('(', 0), ('[', 0), ('{', 0)];
    for c in s.chars() {
        match c {
            '(' => n[0].1 += 1,
            ')' => n[0].1 -= 1,
            '[' => n[1].1 += 1,
            ']' => n[1].1 -= 1,
            '{' => n[2].1 += 1,
            '}' => n[2].1 -= 1,
            '\'' => return None,
            _ => {}
        }
        if n.iter().any(|x| x.1 < 0) {
            return None;
        }
    }
    Some(n)
}
fn check_bounded(_: &Env, (t, extra): &(Ty, u16), case: &mut Case) -> CaseResult {
    let mut p = EntityParser::new();
    let s = t.canonical();
    let Ok(k) = p.parse_entity(&s) else { fail!("{s:?} is rejected") };
    let all = full(&p, k);
    labels(case, &all);
    let depth = p.entity(k).recursion_depth();
    let levels: Vec<String> = (0..=depth).map(|d| level(&p, k, d)).collect();
    ensure_eq!(levels[depth], all, "display of {s:?} at its advertised depth {depth}");
    for more in [depth + 1, depth + 2, depth + 17, usize::MAX] {
        ensure_eq!(level(&p, k, more), all, "display of {s:?} at depth {more}, beyond its advertised depth {depth}");
    }
    if depth > 0 {
        ensure!(levels[depth - 1] != all, "{s:?} is fully displayed at depth {}, but advertises depth {depth}", depth - 1);
    }
    // (file names may contain anything)
    let odd_path = all.match_indices(" at /").any(|(i, _)| all[i..].split(':').next().is_some_and(|p| p.contains(['(', ')', '[', ']', '{', '}'])));
    let balanced = !odd_path && brackets(&all).is_some_and(|b| b.iter().all(|x| x.1 == 0));
    for (d, l) in levels.iter().enumerate() {
        ensure!(elides(l, &all), "display {l:?} at depth {d} is not a shortened form of {all:?}");
        if balanced {
            ensure!(brackets(l).is_some_and(|b| b.iter().all(|x| x.1 == 0)), "display {l:?} of {all:?} at depth {d} splits brackets");
        }
    }
    case.label(format!("depth {}", depth.min(9)));
    let view = p.entity(k);
    let widths: Vec<usize> = levels.iter().map(|l| l.width()).collect();
    let mut budgets: Vec<u16> = vec![1, 2, 3, *extra, all.width() as u16, u16::MAX];
    for w in &widths {
        budgets.extend([*w as u16, (*w as u16).saturating_sub(1), *w as u16 + 1]);
    }
    if all.len() < 60 {
        budgets.extend(1..all.len() as u16 + 2);
    }
    budgets.sort();
    budgets.dedup();
    for b in budgets {
        if b == 0 {
            continue;
        }
        case.evals += 1;
        let got = view.bounded_display(b);
        ensure!(got.width() <= b as usize, "{got:?}, shown for {b} columns, is wider than that");
        let expected: &str = match widths.iter().position(|w| *w > b as usize) {
            Some(0) => "…",
            Some(i) => &levels[i - 1],
            None => &all,
        };
        // (levels of detail normally get wider and wider)
        let deepest = widths.iter().rposition(|w| *w <= b as usize).map(|i| &levels[i]);
        ensure!(got == *expected || Some(&got) == deepest, "display of {s:?} in {b} columns: got {got:?}, expected {expected:?}");
    }
    Ok(())
}

// ---------------------------------------------------------------------- P05

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Simpp {
    text: Text,
    cols: u16,
    stdin: bool,
    newline: u8,
    /// How often the text is repeated, as an argument of a template
    #[serde(default)]
    copies: u8,
}
fn check_simpp(env: &Env, c: &Simpp, case: &mut Case) -> CaseResult {
    use std::{
        io::Write,
        process::{Command, Stdio},
    };
    let s: String = text_of(&c.text).replace('\0', "0");
    let s = if max_nesting(&s) > 8 { "a".to_string() } else { s };
    // Wide names
    let s = if c.copies > 0 && max_nesting(&s) <= 2 && s.len() <= 60 && no_panic(|| EntityParser::new().parse_entity(&s).is_ok()) == Ok(true) { format!("W<{}>", vec![&s[..]; c.copies as usize].join(", ")) } else { s };
    // A leading dash is a matter of the command line, not of the entity
    let mut cmd = Command::new(env.bins.join("simpp"));
    let form = c.newline % 3;
    match form {
        0 => cmd.arg("-c").arg(c.cols.to_string()),
        1 => cmd.arg(format!("--cols={}", c.cols)),
        _ => cmd.arg(format!("-c{}", c.cols)),
    };
    let line_end = if c.stdin { ["", "\n", "\r\n"][c.newline as usize % 3] } else { "" };
    if !c.stdin {
        cmd.arg("--").arg(&s);
    }
    let mut child = cmd.env("RUST_BACKTRACE", "0").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().map_err(|e| format!("cannot run simpp: {e}"))?;
    {
        let mut i = child.stdin.take().unwrap();
        if c.stdin {
            let _ = i.write_all(format!("{s}{line_end}").as_bytes());
        }
    }
    let out = child.wait_with_output().map_err(|e| e.to_string())?;
    let stdout = String::from_utf8_lossy(&out.stdout).to_string();
    let mut p = EntityParser::new();
    // (line feeds at the end of standard input are part of the line terminator)
    let s = if c.stdin { s.trim_end_matches(['\r', '\n']).to_string() } else { s };
    let expected = match no_panic(|| p.parse_entity(&s).map_err(|_| ())) {
        Ok(Ok(k)) => Some(p.entity(k).bounded_display(c.cols)),
        _ => None,
    };
    case.label(if expected.is_some() { "entity" } else { "not an entity" });
    case.label(if c.stdin { "stdin" } else { "argument" });
    case.nontrivial(s.len() >= 3);
    match expected {
        Some(e) => {
            ensure!(out.status.success(), "simpp fails on {s:?} ({:?}): {}", out.status, String::from_utf8_lossy(&out.stderr));
            ensure_eq!(stdout, format!("{e}\n"), "output for {s:?} in {} columns", c.cols);
        }
        None => {
            ensure!(!out.status.success(), "simpp accepts {s:?}, which is no entity, and prints {stdout:?}");
            ensure!(stdout.is_empty(), "simpp rejects {s:?}, but prints {stdout:?}");
        }
    }
    Ok(())
}

fn corpus(prop: &'static str) -> Vec<(String, String)> {
    let _ = prop;
    [
        ("f(...)", "f(...)"),
        ("f(int, ...)", "f(int, ...)"),
        ("::foo", "::foo"),
        ("A<newton + 1>", "A<newton + 1>"),
        ("A<- -x>", "A<- -x>"),
        ("A<x-- - b>", "A<x-- - b>"),
        ("A<x++ + b>", "A<x++ + b>"),
        ("A<'\\x01'>", "A<'\\x01'>"),
        ("A<1us>", "A<1us>"),
        ("decltype(co_await x)", "decltype(co_await x)"),
        ("decltype(delete[] x)", "decltype(delete[] x)"),
        ("<unknown>", "<unknown>"),
        ("std::vector<int, std::allocator<int> >::operator[](unsigned long) const", "std::vector<int, std::allocator<int>>::operator[](unsigned long) const"),
        ("void (*)(int, char const*)", "void (*)(int, char const*)"),
        ("A<(B)0, true>", "A<(B)0, true>"),
        ("foo<&A::operator()>", "foo<&A::operator()>"),
        ("(anonymous namespace)::f(int)::(lambda at /a/./b/../c.cpp:12:34)", "(anonymous namespace)::f(int)::(lambda at /a/c.cpp:12:34)"),
        ("{lambda(auto:1&&)#2}::operator()(int) const", "{lambda(auto:1&&)#2}::operator()(int) const"),
        ("operator\"\"_x(char)", "operator\"\" _x(char)"),
        ("int (A::*)(int) const &&", "int ( A::*)(int) const &&"),
        ("unsigned long int const volatile * __restrict__ const &", "unsigned long const volatile* const restrict&"),
        ("foo()::bar", "foo()::bar"),
        ("A<sizeof...(T)>", ""),
    ]
    .iter()
    .filter(|x| !x.1.is_empty())
    .map(|(a, b)| (a.to_string(), b.to_string()))
    .collect()
}

pub fn props() -> Vec<Prop> {
    let ty_noise = |d: usize, w: usize| (cpp::entity(d, w), any::<u64>());
    vec![
        Prop {
            id: "P01",
            assumptions: vec![
                "texts are bounded: bracket nesting up to 9, up to 4000 characters (the parser backtracks exponentially in the nesting of calls and signatures)",
                "debug assertions are on, as in the repository's default build",
            ],
            subs: vec![
                Box::new(
                    sub("history", "a list of texts (valid, mutated, token soup, raw) of which at least one was parsed", (150_000, 2_500_000), |_| vec(text(2), 1..6), check_crash)
                        .crashy()
                        .hang(60),
                ),
                Box::new(sub("single", "one text, parsed or rejected", (500_000, 8_000_000), |_| vec(text(1), 1..2), check_crash).crashy().hang(60)),
            ],
        },
        Prop {
            id: "P02",
            assumptions: vec!["the generator stays clear of texts that C++ leaves ambiguous without symbol knowledge"],
            subs: vec![
                Box::new(enumerated("corpus", "hand-picked constructs", |_| corpus("P02"), |_, (a, b): &(String, String), case| {
                    case.nontrivial(true);
                    let mut p = EntityParser::new();
                    let k = p.parse_entity(a).map_err(|e| format!("{a:?} is rejected: {e:?}"))?;
                    ensure_eq!(full(&p, k), *b, "display of {a:?}");
                    let k2 = p.parse_entity(b).map_err(|e| format!("{b:?} is rejected: {e:?}"))?;
                    ensure!(k == k2, "{a:?} and {b:?} are different entities");
                    Ok(())
                })),
                Box::new(sub("small", "canonical text of at least 10 characters", (1_500_000, 20_000_000), move |_| ty_noise(1, 3), check_roundtrip)),
                Box::new(sub("medium", "canonical text of at least 10 characters", (1_500_000, 20_000_000), move |_| ty_noise(2, 2), check_roundtrip)),
                Box::new(sub("large", "canonical text of at least 10 characters", (360_000, 6_000_000), move |_| ty_noise(3, 3), check_roundtrip)),
                Box::new(sub("deep", "canonical text of at least 10 characters, nested 8 to 40 times", (16_000, 600_000), move |_| (cpp::deep(40), any::<u64>()), check_roundtrip)),
                Box::new(sub("long", "an entity of at least 100 characters", (12_000, 200_000), |_| vec((any::<u8>(), any::<u16>(), any::<u64>()), 1..5), check_long)),
            ],
        },
        Prop {
            id: "P03",
            assumptions: vec!["interner capacities are not exhausted"],
            subs: vec![Box::new(sub("history", "at least two distinct entities in the history", (480_000, 6_000_000), |_| history(), check_keys))],
        },
        Prop {
            id: "P04",
            assumptions: vec!["widths as given by the unicode-width crate"],
            subs: vec![
                Box::new(sub("small", "entity of at least 10 characters, at every budget", (640_000, 8_000_000), |_| (cpp::entity(1, 3), 1u16..80), check_bounded)),
                Box::new(sub("large", "entity of at least 10 characters, at the budgets around each level of detail", (640_000, 8_000_000), |_| (cpp::entity(3, 2), 1u16..300), check_bounded)),
                Box::new(sub("deep", "entity nested 8 to 30 times, at the budgets around each level of detail", (4_000, 80_000), |_| (cpp::deep(30), 1u16..900), check_bounded)),
            ],
        },
        Prop {
            id: "P05",
            assumptions: vec!["the expected display is the one which the library computes in this process"],
            subs: vec![Box::new(sub(
                "simpp",
                "an input of at least 3 characters",
                (40_000, 200_000),
                |_| {
                    (text(2), prop_oneof![3 => 1u16..60, 1 => 1u16..400, 1 => any::<u16>().prop_map(|x| x.max(1))], any::<bool>(), 0u8..3, prop_oneof![30 => Just(0u8), 1 => 1u8..6, 1 => 6u8..200])
                        .prop_map(|(text, cols, stdin, newline, copies)| Simpp { text, cols, stdin, newline, copies })
                },
                check_simpp,
            )
            .hang(60))],
        },
    ]
}
