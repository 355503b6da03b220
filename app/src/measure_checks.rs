//! U03: measuring the trace of a compilation unit, whatever happens meanwhile

use crate::{ops::Op, site::*, tui::*, tui_checks::quit};
use proptest::{collection::vec, prelude::*, sample::select};
use serde::{Deserialize, Serialize};
use std::time::{Duration, Instant};
use vcommon::{ensure, ensure_eq, sub, Case, CaseResult, Env, Prop};
use vgen::trace::{Act, Stat, Trace};

/// State of the trace file before a measurement
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Before {
    /// As the former measurement left it
    Same,
    Absent,
    Trace,
    Text,
    Empty,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Step {
    /// Write some more of a trace
    Part,
    /// Write all of a trace
    Whole,
    /// Write something which is not a trace
    Garbage,
    /// Remove what was written
    Remove,
    Out(u32),
    Err(u32),
    /// Write something which is not text
    Binary(bool),
    /// Read from the standard input
    Read,
    Gate,
    Sleep(u8),
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum End {
    Exit(u8),
    Signal(u8),
}
/// What the user does meanwhile
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum User {
    Wait,
    /// Open a dialog at some gate and close it
    Hesitate(u8),
    /// Look at the help, or at the question about quitting, until the end
    Wonder(u8, bool),
    AbortAt(u8),
    QuitAt(u8),
    /// Abort or quit after some time, in milliseconds
    AbortAfter(u8),
    QuitAfter(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Attempt {
    before: Before,
    outdated: bool,
    steps: Vec<Step>,
    end: End,
    user: User,
    stubborn: bool,
    /// The compiler disappears before the measurement
    gone: bool,
    /// There is a directory where the former trace would be kept
    #[serde(default)]
    stuck: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Story {
    attempts: Vec<Attempt>,
    granularity: Option<u32>,
    /// Whether the output is named by the database
    explicit: bool,
    /// Index of the output
    #[serde(default)]
    output: u8,
    /// The compiler is to be run from the directory of its output
    #[serde(default)]
    there: bool,
    /// Delays of calls of the program (call, milliseconds before, after)
    #[serde(default)]
    delays: Vec<(u8, u8, u8)>,
}

fn flood() -> BoxedStrategy<u32> {
    prop_oneof![4 => 1u32..200, 1 => 60_000u32..70_000, 1 => 70_000u32..400_000].boxed()
}
fn step() -> BoxedStrategy<Step> {
    prop_oneof![
        3 => Just(Step::Part),
        4 => Just(Step::Whole),
        1 => Just(Step::Garbage),
        1 => Just(Step::Remove),
        1 => flood().prop_map(Step::Out),
        2 => flood().prop_map(Step::Err),
        1 => any::<bool>().prop_map(Step::Binary),
        1 => Just(Step::Read),
        5 => Just(Step::Gate),
        1 => (1u8..30).prop_map(Step::Sleep),
    ]
    .boxed()
}
fn attempt() -> BoxedStrategy<Attempt> {
    let before = prop_oneof![3 => Just(Before::Same), 2 => Just(Before::Absent), 5 => Just(Before::Trace), 1 => Just(Before::Text), 1 => Just(Before::Empty)];
    let end = prop_oneof![5 => Just(End::Exit(0)), 3 => (1u8..255).prop_map(End::Exit), 1 => select(vec![9u8, 15, 6, 11]).prop_map(End::Signal)];
    let user = prop_oneof![
        8 => Just(User::Wait),
        1 => any::<u8>().prop_map(User::Hesitate),
        1 => any::<(u8, bool)>().prop_map(|(g, q)| User::Wonder(g, q)),
        6 => any::<u8>().prop_map(User::AbortAt),
        3 => any::<u8>().prop_map(User::QuitAt),
        1 => (0u8..60).prop_map(User::AbortAfter),
        1 => (0u8..60).prop_map(User::QuitAfter),
    ];
    (before, any::<bool>(), vec(step(), 0..6), end, user, prop::bool::weighted(0.2), (prop::bool::weighted(0.04), prop::bool::weighted(0.04)))
        .prop_map(|(before, outdated, mut steps, end, user, stubborn, (gone, stuck))| {
            if matches!(user, User::AbortAt(_) | User::QuitAt(_) | User::Hesitate(_) | User::Wonder(..)) && !steps.contains(&Step::Gate) {
                steps.insert(steps.len() / 2, Step::Gate);
            }
            Attempt { before, outdated, steps, end, user, stubborn, gone, stuck }
        })
        .boxed()
}
fn story(len: usize) -> BoxedStrategy<Story> {
    let ms = || prop_oneof![1 => Just(0u8), 2 => 1u8..120];
    let delays = prop_oneof![1 => Just(vec![]), 1 => vec((0u8..2, ms(), ms()), 1..3)];
    (vec(attempt(), 1..len + 1), proptest::option::weighted(0.3, prop_oneof![1 => Just(0u32), 3 => 0u32..1000, 1 => any::<u32>()]), any::<bool>(), prop_oneof![Just(0u8), any::<u8>()], delays, any::<bool>())
        .prop_map(|(attempts, granularity, explicit, output, delays, there)| Story { attempts, granularity, explicit, output, there, delays })
        .boxed()
}
/// A trace with a name in it
fn trace_text(n: usize) -> String {
    let act = |name: &str, detail: Option<String>, start, dur| Act { name: name.into(), detail, start, dur };
    let dur = 100_000 + n as i64 * 1000;
    let t = Trace {
        pid: 4000,
        tid: 4000,
        process: "clang-14".into(),
        thread: Some("clang".into()),
        begin: Some(1),
        stats: vec![Stat { name: "ExecuteCompiler".into(), total: 9_000_000, count: 1 }, Stat { name: "Source".into(), total: dur, count: 1 }],
        acts: vec![act("Source", Some(format!("/marker/{n}.h")), 1_000_000, dur), act("ExecuteCompiler", None, 2000, 9_000_000)],
        shuffle: 0,
        spelling: 0,
    };
    t.text()
}
/// Outputs of the compiler, traces and backups
const OUTPUTS: [[&str; 3]; 6] = [
    ["out/a.cpp.o", "out/a.cpp.json", "out/a.cpp.bak"],
    ["out/a.obj", "out/a.json", "out/a.bak"],
    ["out/a", "out/a.json", "out/a.bak"],
    ["out/v1.2/a", "out/v1.2/a.json", "out/v1.2/a.bak"],
    ["out/a.json.o", "out/a.json.json", "out/a.json.bak"],
    ["out/a b.o.o", "out/a b.o.json", "out/a b.o.bak"],
];
fn output(s: &Story) -> [&'static str; 3] {
    OUTPUTS[s.output as usize % OUTPUTS.len()]
}

struct Scene<'a> {
    site: &'a Site,
    tui: Tui,
    /// What the trace file should be
    content: Option<String>,
    number: usize,
    trace: &'static str,
    backup: &'static str,
}
impl Scene<'_> {
    fn check_files(&mut self, expected: &[Option<String>], what: &str) -> CaseResult {
        let start = Instant::now();
        loop {
            let content = self.site.read(self.trace);
            let dir = self.site.path(self.trace);
            let mut names: Vec<String> = std::fs::read_dir(dir.parent().unwrap_or(&dir)).map_err(|e| e.to_string())?.flatten().map(|e| e.file_name().to_string_lossy().to_string()).collect();
            names.sort();
            let should: Vec<String> = content.iter().flat_map(|_| dir.file_name().map(|f| f.to_string_lossy().to_string())).collect();
            let wrong = if !expected.contains(&content) {
                let short = |s: &Option<String>| s.as_ref().map(|s| s.chars().take(60).collect::<String>());
                format!("{what}, the trace is {:?} instead of {:?}", short(&content), expected.iter().map(short).collect::<Vec<_>>())
            } else if names != should {
                format!("{what}, there are {names:?} instead of {should:?}")
            } else {
                self.content = content;
                return Ok(());
            };
            if start.elapsed() > Duration::from_secs(4) {
                return Err(wrong);
            }
            self.tui.pump(Duration::from_millis(5));
        }
    }
    fn dismiss(&mut self) -> CaseResult {
        for i in 0..4 {
            // Keys that come right after an escape key would be read along with it
            std::thread::sleep(Duration::from_millis(if self.number % 2 == 0 { 30 } else { 0 }));
            self.tui.send_and_see(if (self.number + i) % 2 == 0 { ESC } else { ENTER });
            std::thread::sleep(Duration::from_millis(if self.number % 2 == 0 { 30 } else { 0 }));
            if at_table(&mut self.tui, "after closing a dialog").is_ok() {
                return Ok(());
            }
        }
        at_table(&mut self.tui, "after closing the dialogs")
    }
    /// Open a dialog and leave it with the escape key
    fn help(&mut self) -> CaseResult {
        self.tui.send_and_see("h");
        dialog(&mut self.tui, "Available commands", "after asking for help")?;
        self.tui.send_and_see(ESC);
        at_table(&mut self.tui, "after leaving the help with the escape key")?;
        // Keys that come right after an escape key would be read along with it
        std::thread::sleep(Duration::from_millis(30));
        Ok(())
    }
    /// Returns whether the program goes on
    fn attempt(&mut self, a: &Attempt, s: &Story, case: &mut Case) -> Result<bool, String> {
        let site = self.site;
        let clang = site.path("bin/clang++");
        site.forget_runs();
        self.number += 1;
        let file = site.path(self.trace);
        let e = |r: std::io::Result<()>| r.map_err(|e| format!("harness: {e}"));
        match a.before {
            Before::Same => {}
            Before::Absent => drop(std::fs::remove_file(&file)),
            Before::Trace => e(std::fs::write(&file, trace_text(900 + self.number)))?,
            Before::Text => e(std::fs::write(&file, "{ not a trace"))?,
            Before::Empty => e(std::fs::write(&file, ""))?,
        }
        let old = site.read(self.trace);
        self.content = old.clone();
        if old.is_some() {
            set_mtime(&file, ago(if a.outdated { 20_000.0 } else { 800.0 }))?;
        }
        // Plan of the compiler
        let new = trace_text(self.number);
        let mut ops = vec![];
        if a.stubborn {
            ops.push(Op::Stubborn);
        }
        let mut written: Option<String> = None;
        let mut gates = vec![];
        let (mut out, mut err) = (String::new(), String::new());
        for step in &a.steps {
            match step {
                Step::Part => {
                    let text: String = new.chars().take(40).collect();
                    ops.push(Op::Write { path: file.clone(), text: text.clone(), append: false });
                    written = Some(text);
                }
                Step::Whole => {
                    ops.push(Op::Write { path: file.clone(), text: new.clone(), append: false });
                    written = Some(new.clone());
                }
                Step::Garbage => {
                    ops.push(Op::Write { path: file.clone(), text: "[1, 2".into(), append: false });
                    written = Some("[1, 2".into());
                }
                Step::Remove => {
                    ops.push(Op::Remove(file.clone()));
                    written = None;
                }
                Step::Out(n) | Step::Err(n) => {
                    let is_err = matches!(step, Step::Err(_));
                    let text = if is_err { "bad " } else { "hm " };
                    ops.push(Op::Flood { err: is_err, text: text.into(), times: *n as usize / 4 + 1 });
                    if is_err { &mut err } else { &mut out }.push_str(text);
                }
                Step::Binary(is_err) => {
                    let bytes = b"z\xff\xfe\xc3".to_vec();
                    ops.push(if *is_err { Op::ErrBytes(bytes) } else { Op::Bytes(bytes) });
                    if *is_err { &mut err } else { &mut out }.push('z');
                }
                Step::Read => ops.push(Op::Read),
                Step::Gate => {
                    let name = format!("{}-{}", self.number, gates.len());
                    ops.push(Op::Gate(name.clone()));
                    gates.push(name);
                }
                Step::Sleep(ms) => ops.push(Op::Sleep(*ms as u64)),
            }
        }
        match a.end {
            End::Exit(n) => ops.push(Op::Exit(n as i32)),
            End::Signal(n) => ops.push(Op::Signal(n as i32)),
        }
        site.plan("clang++", "a.cpp", &ops)?;
        if a.gone {
            e(std::fs::remove_file(&clang))?;
        }
        let success = a.end == End::Exit(0);
        let exists = written.is_some();
        case.label(match (success, exists) {
            (true, true) => "success",
            (true, false) => "success without a trace",
            (false, _) => "failure",
        });
        case.label_if(old.is_some(), "old trace");

        // Ask for the measurement
        self.tui.send_and_see(ENTER);
        if old.is_some() {
            dialog(&mut self.tui, if a.outdated { "it is not up to date" } else { "from 13min ago. Do you consider it up to date?" }, "before measuring a trace")?;
            self.tui.send_and_see(RIGHT);
        } else {
            dialog(&mut self.tui, "has not been profiled yet", "before measuring the first trace")?;
        }
        ensure!(site.ran("clang++", "a.cpp").is_empty(), "the compiler runs before the user asked for it");
        self.check_files(&[old.clone()], "before measuring")?;
        let stuck = a.stuck && old.is_some();
        if stuck {
            e(std::fs::create_dir_all(site.path(self.backup).join("inside")))?;
        }
        self.tui.send_and_see(ENTER);
        if stuck {
            case.label("no backup");
            dialog(&mut self.tui, "Failed to back up previous build trace", "when the former trace cannot be kept")?;
            e(std::fs::remove_dir_all(site.path(self.backup)))?;
            self.check_files(&[old], "after failing to keep the former trace")?;
            ensure!(site.ran("clang++", "a.cpp").is_empty(), "the compiler ran although the former trace could not be kept");
            if a.gone {
                site.install("clang++")?;
            }
            self.dismiss()?;
            return Ok(true);
        }
        if a.gone {
            case.label("no compiler");
            dialog(&mut self.tui, "Failed to start clang", "when clang has gone")?;
            self.check_files(&[old], "after failing to start clang")?;
            site.install("clang++")?;
            self.dismiss()?;
            return Ok(true);
        }

        // Meanwhile
        let gate = |g: u8| g as usize % gates.len().max(1);
        let mut passed = 0;
        let stop_at = match a.user {
            User::AbortAt(g) | User::QuitAt(g) | User::Hesitate(g) | User::Wonder(g, _) => Some(gate(g)),
            _ => None,
        };
        if let Some(g) = stop_at.filter(|_| !gates.is_empty()) {
            for name in &gates[..g] {
                site.at_gate(&mut self.tui, name)?;
                site.open_gate(name)?;
            }
            passed = g;
            site.at_gate(&mut self.tui, &gates[g])?;
            dialog(&mut self.tui, "Measuring time trace, please minimize system activity...", "while measuring")?;
            match a.user {
                User::AbortAt(_) => {
                    case.label("abort");
                    self.tui.send_and_see(ENTER);
                    at_table(&mut self.tui, "after aborting")?;
                    self.check_files(&[old], "after aborting")?;
                    site.wait_all_gone(&mut self.tui)?;
                    self.help()?;
                    return Ok(true);
                }
                User::QuitAt(_) => {
                    case.label("quit");
                    quit(&mut self.tui, if g % 2 == 0 { "q" } else { "\x03" })?;
                    self.check_files(&[old], "after quitting")?;
                    site.wait_all_gone(&mut self.tui)?;
                    return Ok(false);
                }
                User::Hesitate(_) => {
                    case.label("hesitation");
                    if g % 2 == 0 {
                        // The only way out is the button
                        self.tui.send_and_see(ESC);
                        std::thread::sleep(Duration::from_millis(60));
                        dialog(&mut self.tui, "Measuring time trace, please minimize system activity...", "after an escape key while measuring")?;
                    }
                    self.tui.send_and_see("q");
                    dialog(&mut self.tui, "Ready to quit?", "while measuring")?;
                    self.tui.send_and_see(&format!("{RIGHT}{ENTER}"));
                    self.tui.wait(|s| if s.has("Ready to quit?") || !s.has("Measuring time trace") { Err("the measurement is not shown after not quitting".into()) } else { Ok(()) })?;
                }
                User::Wonder(_, q) => {
                    case.label("dialog on top");
                    self.tui.send_and_see(if q { "q" } else { "h" });
                    dialog(&mut self.tui, if q { "Ready to quit?" } else { "Available commands" }, "while measuring")?;
                }
                _ => {}
            }
        }
        for name in &gates[passed..] {
            if !matches!(a.user, User::AbortAfter(_) | User::QuitAfter(_)) {
                site.at_gate(&mut self.tui, name)?;
            }
            site.open_gate(name)?;
        }
        if let User::AbortAfter(ms) | User::QuitAfter(ms) = a.user {
            // Anything may have happened by then, so end here
            case.label("race");
            self.tui.pump(Duration::from_millis(1));
            std::thread::sleep(Duration::from_millis(ms as u64));
            if let User::AbortAfter(_) = a.user {
                self.tui.send_and_see(ENTER);
            }
            self.tui.send_and_see("q");
            // The measurement may end just now and close the dialog
            let start = Instant::now();
            while self.tui.ended().is_none() && start.elapsed() < self.tui.patience() {
                if self.tui.screen.has("Ready to quit?") {
                    self.tui.send_and_see(ENTER);
                } else {
                    self.tui.send_and_see("q");
                }
                for _ in 0..10 {
                    self.tui.pump(Duration::from_millis(10));
                    if self.tui.ended().is_some() {
                        break;
                    }
                }
            }
            self.tui.end_well()?;
            let mut fine = vec![old];
            if success && exists {
                fine.push(written);
            }
            self.check_files(&fine, "after aborting or quitting at some time")?;
            site.wait_all_gone(&mut self.tui)?;
            return Ok(false);
        }

        // The end
        match (success, written) {
            (true, Some(text)) if text == new => {
                let mark = format!("/marker/{}.h", self.number);
                self.tui.wait(|s| if s.has("┤Selected activity├") && s.has("ExecuteCompiler") && !has_dialog(s) { Ok(()) } else { Err("the new trace is not shown".into()) })?;
                self.check_files(&[Some(text)], "after a successful measurement")?;
                self.tui.send_and_see(ENTER);
                self.tui.wait(|s| if s.has(&mark) { Ok(()) } else { Err(format!("the trace which is shown is not the new one, as it lacks {mark}")) })?;
                self.tui.send_and_see(ESC);
                self.tui.wait(|s| if s.has("ExecuteCompiler") && !s.has(&mark) && s.has("┤Selected activity├") { Ok(()) } else { Err("going back has no effect".into()) })?;
                // Keys that come right after an escape key would be read along with it
                std::thread::sleep(Duration::from_millis(30));
                self.tui.send_and_see(ESC);
                at_table(&mut self.tui, "after leaving the trace")?;
                std::thread::sleep(Duration::from_millis(30));
            }
            (true, Some(text)) => {
                dialog(&mut self.tui, "Failed to process input", "after measuring something which is not a trace")?;
                self.check_files(&[Some(text)], "after a successful compilation")?;
                self.dismiss()?;
            }
            (true, None) => {
                self.tui.wait(|s| if has_dialog(s) && s.has("<Ok>") && !s.has("Measuring") && !s.has("Available commands") { Ok(()) } else { Err("the lack of a new trace is not reported".into()) })?;
                self.check_files(&[old], "after a compilation that gave no trace")?;
                self.dismiss()?;
            }
            (false, _) => {
                let status = match a.end {
                    End::Exit(n) => format!("exit status: {n}"),
                    End::Signal(n) => format!("signal: {n}"),
                };
                dialog(&mut self.tui, &format!("clang time-trace run failed ({status}"), "after a failed compilation")?;
                let short = a.steps.iter().all(|s| !matches!(s, Step::Out(n) | Step::Err(n) if *n > 200));
                if short {
                    for (name, text) in [("stdout", &out), ("stderr", &err)] {
                        let says = format!("the following {name} output:");
                        if text.is_empty() {
                            ensure!(!self.tui.screen.squeezed().contains(&squeeze(&says)), "there is no {name} output to report");
                        } else {
                            dialog(&mut self.tui, &format!("{says}---{}", if text.starts_with('z') { "z" } else { text.split([' ', 'z']).next().unwrap_or("") }), "after a failed compilation")?;
                        }
                    }
                }
                self.check_files(&[old], "after a failed compilation")?;
                self.dismiss()?;
            }
        }
        let runs = site.ran("clang++", "a.cpp");
        ensure_eq!(runs.len(), 1, "number of compilations");
        let mut args = vec!["-ftime-trace".to_string()];
        args.extend(s.granularity.map(|g| format!("-ftime-trace-granularity={g}")));
        args.extend(words(s)[1..].to_vec());
        ensure_eq!(runs[0].args, args, "arguments of the compiler");
        ensure_eq!(runs[0].cwd, directory(site, s), "directory of the compilation");
        site.wait_all_gone(&mut self.tui)?;
        Ok(true)
    }
}
fn directory(site: &Site, s: &Story) -> std::path::PathBuf {
    if s.there { site.path("out") } else { site.root.clone() }
}
fn words(s: &Story) -> Vec<String> {
    let object = output(s)[0];
    let (object, src) = if s.there { (&object["out/".len()..], "../src/a.cpp") } else { (object, "src/a.cpp") };
    ["cc", "-DX=a b\"c", "-o", object, "-c", src].map(|s| s.to_string()).to_vec()
}
fn check_story(env: &Env, s: &Story, case: &mut Case) -> CaseResult {
    let site = Site::new(env, &["clang++"])?;
    site.good_clang()?;
    let [object, trace, backup] = output(s);
    let out = site.path(object);
    std::fs::create_dir_all(out.parent().unwrap_or(&out)).map_err(|e| e.to_string())?;
    let src = site.path("src/a.cpp");
    site.write("src/a.cpp", "int main() {}\n")?;
    let db = vec![db_entry(&directory(&site, s), &words(s), &src, s.explicit.then_some(&out))];
    site.write("compile_commands.json", serde_json::to_string(&db).unwrap_or_default())?;
    for f in ["src/a.cpp", "compile_commands.json"] {
        set_mtime(site.path(f), ago(10_000.0))?;
    }
    site.write("cmakeperf.csv", "file,max_rss,time\nsrc/a.cpp,1000000,\n")?;
    let granularity = s.granularity.map(|g| g.to_string());
    let mut args = vec!["--build-profile", "cmakeperf.csv"];
    if let Some(g) = &granularity {
        args.extend(["-g", g]);
    }
    case.label_if(!s.delays.is_empty(), "delays");
    let mut rules = String::new();
    for (call, before, after) in &s.delays {
        for end in [".bak", ".json"] {
            rules += &format!("{}:{end}:{before}:{after};", ["rename", "unlink"][*call as usize % 2]);
        }
    }
    let mut tui = site.start_delayed(100, 30, &args, &rules)?;
    at_table(&mut tui, "at first")?;
    let mut scene = Scene { site: &site, tui, content: None, number: 0, trace, backup };
    for (i, a) in s.attempts.iter().enumerate() {
        case.evals += 1;
        if !scene.attempt(a, s, case).map_err(|e| format!("attempt {i}: {e}"))? {
            return Ok(());
        }
    }
    quit(&mut scene.tui, "q")
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "U03",
        assumptions: vec![
            "stand-in compilers write the trace where clang would; they have no children of their own",
            "there is no backup file before the measurement; the program is not killed",
        ],
        subs: vec![
            Box::new(sub("one measurement", "every case", (300, 12_000), move |_| story(1), |env, s, case| {
                case.nontrivial = true;
                check_story(env, s, case)
            }).hang(120).shrink(60)),
            Box::new(sub("sessions", "at least two measurements", (100, 5_000), move |_| story(5), |env, s, case| {
                case.nontrivial = s.attempts.len() >= 2;
                check_story(env, s, case)
            }).hang(200).shrink(60)),
        ],
    }]
}
