//! U04: measuring the profile of a build, whatever happens meanwhile

use crate::{ops::Op, site::*, tui::*};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use std::time::{Duration, Instant};
use vcommon::{ensure, ensure_eq, sub, Case, CaseResult, Env, Prop};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Before {
    Same,
    Absent,
    Profile,
    Text,
    Empty,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Age {
    /// A source file is newer
    Outdated,
    Minutes(u8),
    Days(u8),
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
struct Job {
    gate: bool,
    sleep: u8,
    flood: u32,
    hold: bool,
    stubborn: bool,
    /// Exit status
    status: u8,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum User {
    Wait,
    Hesitate,
    /// Abort or quit while some job is known to run
    Abort,
    Quit,
    AbortAfter(u8),
    QuitAfter(u8),
    /// Press the key at once, before the measurement has started
    AbortEarly,
    Refuse,
    QuitAtPrompt,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Attempt {
    before: Before,
    age: Age,
    jobs: Vec<Job>,
    user: User,
    /// Give the path of the profile
    named: bool,
    /// Which path it is
    #[serde(default)]
    name: u8,
    /// There is a directory where the former profile would be kept
    #[serde(default)]
    stuck: bool,
    #[serde(default)]
    delays: Vec<Delay>,
}
/// A delay of some calls of the program (call, milliseconds before, after)
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
struct Delay(u8, u8, u8);
fn delay() -> BoxedStrategy<Delay> {
    let ms = || prop_oneof![1 => Just(0u8), 2 => 1u8..250];
    (0u8..3, ms(), ms()).prop_map(|(c, b, a)| Delay(c, b, a)).boxed()
}
fn delay_rules(delays: &[Delay]) -> String {
    let mut rules = String::new();
    for d in delays {
        let (call, ends): (_, &[&str]) = match d.0 {
            0 => ("open", &["perf.csv"]),
            1 => ("rename", &[".bak"]),
            _ => ("unlink", &[".bak", "perf.csv"]),
        };
        for end in ends {
            rules += &format!("{call}:{end}:{}:{};", d.1, d.2);
        }
    }
    rules
}
fn job() -> BoxedStrategy<Job> {
    (
        prop::bool::weighted(0.35),
        prop_oneof![3 => Just(0u8), 2 => 0u8..60],
        prop_oneof![6 => Just(0u32), 1 => 1u32..500, 1 => 66_000u32..200_000],
        prop::bool::weighted(0.1),
        prop::bool::weighted(0.06),
        prop_oneof![24 => Just(0u8), 1 => 1u8..255],
    )
        .prop_map(|(gate, sleep, flood, hold, stubborn, status)| Job { gate, sleep, flood, hold, stubborn, status })
        .boxed()
}
fn attempt() -> BoxedStrategy<Attempt> {
    let user = prop_oneof![
        6 => Just(User::Wait),
        1 => Just(User::Hesitate),
        5 => Just(User::Abort),
        2 => Just(User::Quit),
        2 => (0u8..150).prop_map(User::AbortAfter),
        1 => (0u8..150).prop_map(User::QuitAfter),
        2 => Just(User::AbortEarly),
        1 => Just(User::Refuse),
        1 => Just(User::QuitAtPrompt),
    ];
    let before = prop_oneof![3 => Just(Before::Same), 2 => Just(Before::Absent), 5 => Just(Before::Profile), 1 => Just(Before::Text), 1 => Just(Before::Empty)];
    let age = prop_oneof![2 => Just(Age::Outdated), 2 => (1u8..250).prop_map(Age::Minutes), 1 => (1u8..9).prop_map(Age::Days)];
    let delays = prop_oneof![2 => Just(vec![]), 3 => vec(delay(), 1..4)];
    let name = prop_oneof![2 => Just(0u8), 1 => any::<u8>()];
    (before, age, vec(job(), 1..9), user, (prop::bool::weighted(0.3), name, prop::bool::weighted(0.06)), any::<prop::sample::Index>(), delays)
        .prop_map(|(before, mut age, mut jobs, user, (named, name, stuck), one, delays)| {
            if matches!(user, User::Abort | User::Quit | User::Hesitate) {
                let one = one.index(jobs.len());
                jobs[one].gate = true;
            }
            if named {
                // Recent profiles which are named are not questioned
                age = Age::Outdated;
            }
            Attempt { before, age, jobs, user, named, name, stuck, delays }
        })
        .boxed()
}

/// Names of profiles which are not the default
const NAMES: [&str; 5] = ["my perf.csv", "perf.bak", "perf", "perf.old.txt", "-perf.csv"];

struct Place<'a> {
    site: &'a Site,
    number: usize,
}
impl Place<'_> {
    fn check_files(&self, tui: &mut Tui, name: &str, fine: &dyn Fn(&Option<String>) -> CaseResult, what: &str) -> CaseResult {
        let start = Instant::now();
        loop {
            let content = self.site.read(name);
            let mut names: Vec<String> = std::fs::read_dir(&self.site.root).map_err(|e| e.to_string())?.flatten().map(|e| e.file_name().to_string_lossy().to_string()).collect();
            names.retain(|n| n.contains("perf") || n.ends_with(".bak"));
            let should: Vec<String> = content.iter().map(|_| name.to_string()).collect();
            let wrong = match fine(&content) {
                Ok(()) if names == should => return Ok(()),
                Ok(()) => format!("{what}, there are {names:?} instead of {should:?}"),
                Err(e) => format!("{what}, {e}"),
            };
            if start.elapsed() > Duration::from_secs(3) {
                return Err(wrong);
            }
            tui.pump(Duration::from_millis(5));
        }
    }
    fn attempt(&mut self, a: &Attempt, case: &mut Case) -> CaseResult {
        let site = self.site;
        self.number += 1;
        let n = self.number;
        let e = |r: std::io::Result<()>| r.map_err(|e| format!("harness: {e}"));
        site.forget_runs();
        // Database
        let mut db = vec![];
        let mut names = vec![];
        for (i, j) in a.jobs.iter().enumerate() {
            let name = format!("u{n}-{i}.cpp");
            site.write(format!("src/{name}"), "int x;\n")?;
            set_mtime(site.path("src").join(&name), ago(2_000_000.0))?;
            db.push(db_entry(&site.root, &[site.path("bin/cc").to_string_lossy().to_string(), "-o".into(), format!("{name}.o"), "-c".into(), format!("src/{name}")], &site.path("src").join(&name), None));
            let mut ops = vec![];
            if j.stubborn {
                ops.push(Op::Stubborn);
            }
            ops.push(Op::Sleep(j.sleep as u64));
            if j.sleep % 2 == 0 {
                ops.push(Op::Read);
            }
            if j.hold {
                ops.push(Op::Hold(20_000_000));
            }
            if j.flood > 0 {
                ops.push(Op::Flood { err: i % 2 == 0, text: "warning ".into(), times: j.flood as usize / 8 + 1 });
            }
            if j.gate {
                ops.push(Op::Gate(format!("{n}-{i}")));
            }
            ops.push(Op::Exit(j.status as i32));
            site.plan("cc", &name, &ops)?;
            names.push(name);
        }
        site.write("compile_commands.json", serde_json::to_string(&db).unwrap_or_default())?;
        set_mtime(site.path("compile_commands.json"), ago(2_000_000.0))?;
        // Former profile
        let profile = if a.named { NAMES[a.name as usize % NAMES.len()] } else { "cmakeperf.csv" };
        let file = site.path(profile);
        for other in NAMES.iter().chain(&["cmakeperf.csv"]).filter(|n| **n != profile) {
            let _ = std::fs::remove_file(site.path(other));
        }
        match a.before {
            Before::Same => {}
            Before::Absent => drop(std::fs::remove_file(&file)),
            Before::Profile => e(std::fs::write(&file, format!("file,max_rss,time\nsrc/old{n}.cpp,{}000000,\n", 100 + n)))?,
            Before::Text => e(std::fs::write(&file, "not, a\nprofile"))?,
            Before::Empty => e(std::fs::write(&file, ""))?,
        }
        let old = site.read(profile);
        let question = match (old.is_some(), a.age) {
            (false, _) => "It looks like this build has not been profiled yet. Ready to do so?".to_string(),
            (true, Age::Outdated) => {
                set_mtime(&file, ago(2_000_100.0))?;
                "There is an existing build profile, but it is not up to date with respect to current source code. Use it anyway?".into()
            }
            (true, age) => {
                let (secs, text) = match age {
                    Age::Minutes(m) if m >= 60 => (m as f64 * 60.0, format!("{}h", m / 60)),
                    Age::Minutes(m) => (m as f64 * 60.0, format!("{m}min")),
                    Age::Days(1) => (86400.0, "1 day".to_string()),
                    Age::Days(d) => (d as f64 * 86400.0, format!("{d} days")),
                    Age::Outdated => (0.0, String::new()),
                };
                set_mtime(&file, ago(secs + 15.0))?;
                format!("There is an existing build profile from {text} ago. Do you consider it up to date?")
            }
        };
        let kept = |c: &Option<String>| {
            ensure!(*c == old, "the profile is {:?} instead of {:?}", c.as_ref().map(|s| s.chars().take(80).collect::<String>()), old.as_ref().map(|s| s.chars().take(80).collect::<String>()));
            Ok(())
        };
        // New one
        let fails = a.jobs.iter().any(|j| j.status != 0);
        let mut sources: Vec<String> = names.iter().map(|n| format!("src/{n}")).collect();
        sources.sort();
        let complete = |c: &Option<String>| -> CaseResult {
            let c = c.as_ref().ok_or("there is no profile")?;
            let mut lines = c.lines();
            ensure_eq!(lines.next().unwrap_or(""), "file,max_rss,time", "header of the profile");
            let mut files = vec![];
            for l in lines {
                let f: Vec<&str> = l.split(',').collect();
                ensure!(f.len() == 3 && f[1].parse::<u64>().is_ok() && f[2].is_empty(), "the profile has a line {l:?}");
                files.push(f[0].trim_start_matches("./").to_string());
            }
            files.sort();
            ensure_eq!(files, sources, "files of the profile");
            Ok(())
        };

        let option = format!("--build-profile={profile}");
        let options: &[&str] = &[&option];
        let mut tui = site.start_delayed(150, 30, if a.named { options } else { &[] }, &delay_rules(&a.delays))?;
        case.label_if(!a.delays.is_empty(), "delays");
        dialog(&mut tui, &question, "at first")?;
        let exists = old.is_some();
        // What is in the way under any name that the former profile may get
        let stuck = a.stuck && exists && !matches!(a.user, User::Refuse | User::QuitAtPrompt);
        let mut obstacles = vec![file.with_extension("bak"), site.path(&format!("{profile}.bak"))];
        obstacles.dedup();
        obstacles.retain(|o| *o != file);
        if stuck {
            for o in &obstacles {
                e(std::fs::create_dir_all(o.join("inside")))?;
            }
        }
        let measure = if exists { format!("{RIGHT}{ENTER}") } else { ENTER.to_string() };
        match a.user {
            User::Refuse => {
                case.label("refusal");
                tui.send_and_see(&if exists { ENTER.to_string() } else { format!("{RIGHT}{ENTER}") });
                match a.before {
                    _ if !exists => tui.end_well()?,
                    _ => {
                        let valid = old.as_ref().is_some_and(|s| s.starts_with("file,max_rss,time\n"));
                        if valid {
                            at_table(&mut tui, "after reusing the profile")?;
                            crate::tui_checks::quit(&mut tui, "q")?;
                        } else {
                            // Either an error or an empty table
                            tui.wait(|s| if is_table(s) || (has_dialog(s) && s.has("<Quit>")) { Ok(()) } else { Err("neither a profile nor an error is shown".into()) })?;
                            if has_dialog(&tui.screen) {
                                tui.send_and_see(ENTER);
                                tui.end_well()?;
                            } else {
                                crate::tui_checks::quit(&mut tui, "q")?;
                            }
                        }
                    }
                }
                ensure!(site.ran("cc", "").is_empty(), "jobs have run although the user did not want to");
                return self.check_files(&mut tui, profile, &kept, "after refusing to measure");
            }
            User::QuitAtPrompt => {
                case.label("refusal");
                crate::tui_checks::quit(&mut tui, "q")?;
                ensure!(site.ran("cc", "").is_empty(), "jobs have run although the user did not want to");
                return self.check_files(&mut tui, profile, &kept, "after quitting instead of measuring");
            }
            _ if stuck => {
                case.label("no backup");
                tui.send_and_see(&measure);
                dialog(&mut tui, "Failed to back up previous build profile", "when the former profile cannot be kept")?;
                for o in &obstacles {
                    e(std::fs::remove_dir_all(o))?;
                }
                tui.send_and_see(ENTER);
                tui.end_well()?;
                ensure!(site.ran("cc", "").is_empty(), "jobs have run although the former profile could not be kept");
                return self.check_files(&mut tui, profile, &kept, "after failing to keep the former profile");
            }
            User::AbortEarly => tui.send_and_see(&format!("{measure}{ENTER}")),
            _ => tui.send_and_see(&measure),
        }
        case.label_if(exists, "former profile");

        let gates: Vec<String> = (0..a.jobs.len()).filter(|i| a.jobs[*i].gate).map(|i| format!("{n}-{i}")).collect();
        let message = "Profiling the build, please minimize system activity...";
        match a.user {
            User::Abort | User::Quit | User::Hesitate if !fails => {
                // Some job is running
                let start = Instant::now();
                while !gates.iter().any(|g| site.is_at_gate(g)) {
                    ensure!(start.elapsed() < tui.patience(), "no job gets to its gate; the screen is\n{}", tui.screen.dump());
                    tui.pump(Duration::from_millis(3));
                }
                dialog(&mut tui, message, "while measuring")?;
                match a.user {
                    User::Abort => {
                        case.label("abort");
                        tui.send_and_see(ENTER);
                        tui.end_well()?;
                        self.check_files(&mut tui, profile, &kept, "after aborting")?;
                        return site.wait_all_gone(&mut tui);
                    }
                    User::Quit => {
                        case.label("quit");
                        crate::tui_checks::quit(&mut tui, "\x03")?;
                        self.check_files(&mut tui, profile, &kept, "after quitting")?;
                        return site.wait_all_gone(&mut tui);
                    }
                    _ => {
                        case.label("hesitation");
                        if n % 2 == 0 || a.named {
                            // The only way out is the button
                            tui.send_and_see(ESC);
                            std::thread::sleep(Duration::from_millis(60));
                            dialog(&mut tui, message, "after an escape key while measuring")?;
                        }
                        tui.send_and_see("q");
                        dialog(&mut tui, "Ready to quit?", "while measuring")?;
                        tui.send_and_see(&format!("{RIGHT}{ENTER}"));
                        tui.wait(|s| if s.has("Ready to quit?") || !s.has("Profiling the build") { Err("the measurement is not shown after not quitting".into()) } else { Ok(()) })?;
                    }
                }
            }
            _ => {}
        }
        for g in &gates {
            site.open_gate(g)?;
        }
        let either = |c: &Option<String>| kept(c).or_else(|e| if fails { Err(e.clone()) } else { complete(c).map_err(|f| format!("{e}, and {f}")) });
        match a.user {
            User::AbortAfter(ms) | User::QuitAfter(ms) => {
                case.label("race");
                std::thread::sleep(Duration::from_millis(ms as u64));
                if matches!(a.user, User::AbortAfter(_)) {
                    tui.send_and_see(ENTER);
                    tui.pump(Duration::from_millis(20));
                }
                let start = Instant::now();
                while tui.ended().is_none() && start.elapsed() < tui.patience() {
                    // Errors have a button to quit
                    let key = if tui.screen.has("Ready to quit?") || tui.screen.has("<Quit>") { ENTER } else { "q" };
                    tui.send_and_see(key);
                    for _ in 0..10 {
                        tui.pump(Duration::from_millis(10));
                        if tui.ended().is_some() {
                            break;
                        }
                    }
                }
                tui.end_well()?;
                self.check_files(&mut tui, profile, &either, "after aborting or quitting at some time")?;
                return site.wait_all_gone(&mut tui);
            }
            User::AbortEarly => {
                case.label("early abort");
                // The key may have been lost
                let start = Instant::now();
                while tui.ended().is_none() && start.elapsed() < tui.patience() {
                    for _ in 0..30 {
                        tui.pump(Duration::from_millis(10));
                        if tui.ended().is_some() {
                            break;
                        }
                    }
                    if tui.screen.has("Profiling the build") || tui.screen.has("<Quit>") || tui.screen.has("Ready to quit?") {
                        tui.send_and_see(ENTER);
                    } else {
                        // Including a question about a unit, if the key got to the table
                        tui.send_and_see("q");
                    }
                }
                tui.end_well()?;
                self.check_files(&mut tui, profile, &either, "after aborting early")?;
                return site.wait_all_gone(&mut tui);
            }
            _ => {}
        }
        if fails {
            case.label("failure");
            dialog(&mut tui, "Failed to collect build profile:", "after the failure of a job")?;
            self.check_files(&mut tui, profile, &kept, "after the failure of a job")?;
            tui.send_and_see(ENTER);
            tui.end_well()?;
            self.check_files(&mut tui, profile, &kept, "after the failure of a job and the end of the program")?;
            return site.wait_all_gone(&mut tui);
        }
        case.label("success");
        at_table(&mut tui, "after a successful measurement")?;
        self.check_files(&mut tui, profile, &complete, "after a successful measurement")?;
        tui.wait(|s| {
            for f in &sources {
                ensure!((2..s.height).any(|y| s.row(y).trim_end().ends_with(&format!(" {f}"))), "{f} is not in the table");
            }
            Ok(())
        })?;
        tui.send_and_see("h");
        dialog(&mut tui, "Available commands", "after asking for help")?;
        tui.send_and_see(ESC);
        at_table(&mut tui, "after leaving the help with the escape key")?;
        site.wait_all_gone(&mut tui)?;
        std::thread::sleep(Duration::from_millis(30));
        ensure_eq!(site.ran("cc", "").len(), a.jobs.len(), "number of jobs that have run");
        crate::tui_checks::quit(&mut tui, "q")?;
        self.check_files(&mut tui, profile, &complete, "after a successful measurement and the end of the program")
    }
}
fn check_attempts(env: &Env, attempts: &[Attempt], case: &mut Case) -> CaseResult {
    let site = Site::new(env, &["clang++", "cc"])?;
    site.good_clang()?;
    let mut place = Place { site: &site, number: 0 };
    for (i, a) in attempts.iter().enumerate() {
        case.evals += 1;
        place.attempt(a, case).map_err(|e| format!("attempt {i}: {e}"))?;
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "U04",
        assumptions: vec![
            "stand-in compilation jobs without children; there is no backup file at first, and the program is not killed",
            "memory is not scarce",
        ],
        subs: vec![
            Box::new(sub("one measurement", "every case", (160, 8_000), move |_| vec(attempt(), 1..2), |env, s: &Vec<Attempt>, case| {
                case.nontrivial = true;
                check_attempts(env, s, case)
            }).hang(120).shrink(40)),
            Box::new(sub("histories", "at least two measurements", (64, 3_000), move |_| vec(attempt(), 2..5), |env, s: &Vec<Attempt>, case| {
                case.nontrivial = s.len() >= 2;
                check_attempts(env, s, case)
            }).hang(200).shrink(40)),
        ],
    }]
}
