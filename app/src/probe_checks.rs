//! C01: which compilers are accepted

use crate::{ops::Op, site::*, tui::*};
use proptest::{collection::vec, prelude::*, sample::select};
use serde::{Deserialize, Serialize};
use vcommon::{ensure, sub, Case, CaseResult, Env, Prop};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Probe {
    Missing,
    NotExecutable,
    Directory,
    BadInterpreter,
    Runs { out: Vec<u8>, err: String, sleep: u64, end: End },
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum End {
    Exit(i32),
    Signal(i32),
}

fn word() -> BoxedStrategy<String> {
    prop_oneof![
        3 => "[A-Za-z0-9 .:~+()/-]{0,20}",
        1 => select(vec!["Ubuntu ", "Debian ", "Apple ", "AMD ", "Homebrew ", "(Fedora) ", "clang ", "version ", "14.0 ", "gcc version 13.2 ", "é "]).prop_map(|s| s.to_string()),
        1 => Just(String::new()),
    ]
    .prop_filter("the version must come once", |s| !s.contains("clang version"))
    .boxed()
}
fn number() -> BoxedStrategy<String> {
    prop_oneof![
        4 => select(vec![7u64, 8, 9, 10, 11]).prop_map(|n| n.to_string()),
        4 => (0u64..30).prop_map(|n| n.to_string()),
        1 => (0u64..10_000).prop_map(|n| n.to_string()),
        1 => (0u64..20).prop_map(|n| format!("{n:03}")),
        1 => any::<u64>().prop_map(|n| n.to_string()),
    ]
    .boxed()
}
fn line() -> BoxedStrategy<String> {
    prop_oneof![
        8 => (word(), number(), 0u32..20, word()).prop_map(|(a, major, minor, b)| {
            // What follows must not add digits to the minor version, but may be anything
            format!("{a}clang version {major}.{minor}{b}")
        }),
        2 => (word(), select(vec!["gcc version 9.1", "clang 14.0.0", "Clang Version 14.0.0", "clang-version 14.0", "clang version fourteen", "clang version: 12.0", "clang  version 12.0", "clang version v12.0", "clangversion 12.0", "clang version -9.0", "clang version .9", "clang version"]), word())
            .prop_map(|(a, v, b)| format!("{a}{v} {b}")),
        1 => "[ -~éλ]{0,60}",
        1 => Just(String::new()),
    ]
    .boxed()
}
fn probe() -> BoxedStrategy<Probe> {
    let text = prop_oneof![
        10 => (line(), select(vec!["\n", "\n", "\r\n", ""]), vec(line(), 0..4)).prop_map(|(first, end, more)| {
            let mut s = first;
            if end.is_empty() {
                return s.into_bytes();
            }
            for l in more {
                s += end;
                s += &l;
            }
            s += end;
            s.into_bytes()
        }),
        1 => Just(vec![]),
        1 => (line(), vec(any::<u8>(), 1..8), any::<bool>()).prop_map(|(l, mut b, first)| {
            b.push(0xff);
            let l = format!("{l}\n").into_bytes();
            if first { b.into_iter().chain(l).collect() } else { l.into_iter().chain(b).collect() }
        }),
        1 => (line(), 1000usize..30_000).prop_map(|(l, n)| format!("{l}\n{}", "Some more text\n".repeat(n)).into_bytes()),
    ];
    let end = prop_oneof![
        8 => Just(End::Exit(0)),
        2 => (1i32..256).prop_map(End::Exit),
        1 => select(vec![1, 9, 15]).prop_map(End::Signal),
    ];
    prop_oneof![
        1 => Just(Probe::Missing),
        1 => Just(Probe::NotExecutable),
        1 => Just(Probe::Directory),
        1 => Just(Probe::BadInterpreter),
        24 => (text, prop_oneof![4 => Just(String::new()), 1 => "[a-z ]{1,40}", 1 => (20_000usize..150_000).prop_map(|n| "x".repeat(n))], select(vec![0u64, 0, 0, 5, 60]), end)
            .prop_map(|(out, err, sleep, end)| Probe::Runs { out, err, sleep, end }),
    ]
    .boxed()
}
/// What the first line advertises
enum Line {
    Version(String),
    Nothing,
}
fn advertised(line: &str) -> Line {
    for (i, m) in line.match_indices("clang version ") {
        let rest = &line[i + m.len()..];
        let digits: String = rest.chars().take_while(|c| c.is_ascii_digit()).collect();
        let after = &rest[digits.len()..];
        if !digits.is_empty() && after.strip_prefix('.').is_some_and(|a| a.starts_with(|c: char| c.is_ascii_digit())) {
            return Line::Version(digits);
        }
    }
    Line::Nothing
}
/// Is this the number of a version which can exist?
fn check_probe(env: &Env, p: &Probe, case: &mut Case) -> CaseResult {
    let site = Site::new(env, &[])?;
    let program = site.path("bin/clang++");
    let src = site.path("src/a.cpp");
    site.write("src/a.cpp", "int main() {}\n")?;
    let db = vec![db_entry(&site.root, &["cc".into(), "-o".into(), "a.o".into(), "src/a.cpp".into()], &src, None)];
    site.write("compile_commands.json", serde_json::to_string(&db).unwrap_or_default())?;
    site.write("cmakeperf.csv", "file,max_rss,time\nsrc/a.cpp,1000000,\n")?;
    let e = |r: std::io::Result<()>| r.map_err(|e| format!("harness: {e}"));
    // Reports which are right in this situation; none if the compiler is fine
    let mut expected: Vec<String> = vec![];
    match p {
        Probe::Missing => expected.push("could not find clang++".into()),
        Probe::NotExecutable => {
            site.write("bin/clang++", "#!/bin/sh\necho clang version 14.0.0\n")?;
            expected = vec!["clang++ test run failed with an I/O error".into()];
        }
        Probe::Directory => {
            e(std::fs::create_dir(&program))?;
            expected = vec!["clang++ test run failed with an I/O error".into(), "could not find clang++".into()];
        }
        Probe::BadInterpreter => {
            site.write("bin/clang++", "#!/nonexistent/interpreter\n")?;
            e(std::fs::set_permissions(&program, std::os::unix::fs::PermissionsExt::from_mode(0o755)))?;
            expected = vec!["clang++ test run failed with an I/O error".into(), "could not find clang++".into()];
        }
        Probe::Runs { out, err, sleep, end } => {
            site.install("clang++")?;
            let end_op = match end {
                End::Exit(n) => Op::Exit(*n),
                End::Signal(n) => Op::Signal(*n),
            };
            site.plan("clang++", "version", &[Op::Err(err.clone()), Op::Bytes(out.clone()), Op::Sleep(*sleep), end_op])?;
            let text = std::str::from_utf8(out);
            match (end, text) {
                (End::Exit(n), _) if *n != 0 => expected.push(format!("clang++ test run returned failing status (exit status: {n})")),
                (End::Signal(n), _) => expected.push(format!("clang++ test run returned failing status (signal: {n} ")),
                (_, Err(_)) => expected.push("clang++ test run returned non-UTF-8 bytes".into()),
                (_, Ok("")) => expected.push("clang++ --version returned empty output".into()),
                (_, Ok(s)) => {
                    let first = s.split('\n').next().unwrap_or("");
                    let first = if s.contains('\n') { first.strip_suffix('\r').unwrap_or(first) } else { first };
                    let unexpected = format!("clang++ --version returned unexpected output starting with {first:?}");
                    match advertised(first) {
                        Line::Nothing => expected.push(unexpected),
                        Line::Version(digits) => match digits.parse::<u64>() {
                            Ok(n) if n >= 9 => {}
                            Ok(n) => expected.push(format!("clang++ is too old (need at least v9 for time-trace, got v{n})")),
                            Err(_) => expected.push(unexpected),
                        },
                    }
                }
            }
        }
    }
    case.label(match (p, expected.first()) {
        (_, None) => "accepted".to_string(),
        (_, Some(e)) => e.chars().take(34).collect(),
    });
    case.nontrivial = true;
    let mut tui = site.start(200, 30, &["--build-profile", "cmakeperf.csv"])?;
    if expected.is_empty() {
        at_table(&mut tui, "after finding a suitable compiler")?;
        return crate::tui_checks::quit(&mut tui, "q");
    }
    let squeezed: Vec<String> = expected.iter().map(|e| squeeze(e)).collect();
    tui.wait(|s| {
        let t = s.squeezed();
        ensure!(has_dialog(s) && t.contains("Didnotfindaclangversionsuitableforbuildprofiling") && squeezed.iter().any(|e| t.contains(e)), "the program does not tell {:?}", expected);
        Ok(())
    })?;
    tui.send_and_see(ENTER);
    tui.end_well()?;
    let runs = site.ran("clang++", "");
    ensure!(runs.iter().all(|r| r.args == ["--version"]), "the compiler is run with other arguments: {runs:?}");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C01",
        assumptions: vec![
            "the version is on the first line, as `clang version X.Y`; texts which tell a major version without a minor one, or several versions, are not generated",
            "the reports are read from the dialog of the full-build mode",
        ],
        subs: vec![Box::new(sub("probes", "every case", (600, 20_000), move |_| probe(), check_probe).hang(120).shrink(60))],
    }]
}
