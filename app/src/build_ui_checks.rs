//! U05: the table of compilation units, and the way from there to traces

use crate::{
    display_checks::check_short_parts,
    ops::Op,
    site::*,
    tui::*,
    tui_checks::{self, distinct_trace, matches, quit, scratch, tame, Model, Profile, Sorting, HIGHLIGHTS},
};
use proptest::{collection::vec, prelude::*, sample::select};
use serde::{Deserialize, Serialize};
use std::{
    io::Write,
    os::unix::fs::OpenOptionsExt,
    path::{Path, PathBuf},
    time::{Duration, Instant, SystemTime},
};
use vcommon::{ensure, ensure_eq, fail, sub, Case, CaseResult, Env, Prop};
use vgen::trace::{text_strategy, Trace};

// -------------------------------------------------------------------- model

/// Compilation unit, as the profile tells it
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Unit {
    path: String,
    memory: u64,
    time: Option<Secs>,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Secs {
    Tenths(u32),
    Nan,
    Infinity,
    Negative(u8),
}
impl Secs {
    fn text(self) -> String {
        match self {
            Secs::Tenths(n) => format!("{}.{}", n / 10, n % 10),
            Secs::Nan => "NaN".into(),
            Secs::Infinity => "inf".into(),
            Secs::Negative(n) => format!("-{n}.5"),
        }
    }
    /// Valid times are sorted
    fn rank(t: Option<Secs>) -> (u8, u32) {
        match t {
            None => (0, 0),
            Some(Secs::Tenths(n)) => (1, n),
            Some(_) => (2, 0),
        }
    }
}
fn csv_text(units: &[Unit], short: bool) -> String {
    let mut s = if short { "file,max_rss\n" } else { "file,max_rss,time\n" }.to_string();
    for u in units {
        s += &format!("\"{}\",{}", u.path.replace('"', "\"\""), u.memory);
        if !short {
            s += &format!(",{}", u.time.map(|t| t.text()).unwrap_or_default());
        }
        s.push('\n');
    }
    s
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Key {
    Memory,
    Time,
    Path,
}
struct Table {
    units: Vec<Unit>,
    width: usize,
    has_time: bool,
    key: Key,
    down: Vec<bool>,
    /// Columns that have been sorted in their other direction
    turned: [bool; 3],
    selected: Vec<usize>,
    position: usize,
    room: usize,
}
struct Seen {
    down: bool,
    selected: Vec<usize>,
    position: usize,
}
impl Table {
    fn new(units: &[Unit], width: usize, height: usize) -> Table {
        Table {
            units: units.to_vec(),
            width,
            has_time: units.iter().any(|u| u.time.is_some()),
            key: Key::Memory,
            down: vec![true],
            turned: [false; 3],
            selected: (0..units.len()).collect(),
            position: 0,
            room: height - 3,
        }
    }
    fn columns(&self) -> Vec<(Key, usize, usize, &'static str)> {
        let w = self.width - 2;
        if self.has_time {
            vec![(Key::Memory, 0, 10, "Memory"), (Key::Time, 13, 21, "Time"), (Key::Path, 24, w, "Source file")]
        } else {
            vec![(Key::Memory, 0, 10, "Memory"), (Key::Path, 13, w, "Source file")]
        }
    }
    fn fits(&self, cell: &str, unit: usize, key: Key, room: usize) -> bool {
        let u = &self.units[unit];
        // Whatever does not fit is cut
        let number = |end: &str, decimals: usize, value: f64| {
            let exact = format!("{value:.decimals$}{end}");
            if exact.len() > room {
                // Six digits, of which the last one can be rounded
                let digits = |s: &str| s.chars().filter(|c| c.is_ascii_digit()).take(6).collect::<String>().parse::<i64>().unwrap_or(-10);
                let (a, b) = (digits(cell), digits(&exact));
                return cell.chars().count() >= 5 && ((a - b).abs() <= 1 || (a.max(b), a.min(b)) == (999_999, 100_000));
            }
            let Some(x) = cell.strip_suffix(end) else { return false };
            let Some((_, d)) = x.split_once('.') else { return false };
            d.len() == decimals && x.parse::<f64>().is_ok_and(|x| (x - value).abs() <= 0.5 * 0.1f64.powi(decimals as i32) + value * 1e-6 + 1e-9)
        };
        match key {
            Key::Memory => number(" GB", 2, u.memory as f64 / 1e9),
            Key::Time => match u.time {
                // There must be nothing that looks like a time
                None => !cell.contains(|c: char| c.is_ascii_digit()),
                Some(Secs::Tenths(n)) => number("s", 1, n as f64 / 10.0),
                Some(Secs::Negative(n)) => cell == format!("-{n}.5s"),
                Some(Secs::Nan) => cell.to_lowercase().contains("nan"),
                Some(Secs::Infinity) => cell.to_lowercase().contains("inf"),
            },
            Key::Path => {
                let parts: Vec<String> = Path::new(&u.path).components().map(|c| c.as_os_str().to_string_lossy().to_string()).collect();
                check_short_parts(&parts, room, cell, &mut Case::default()).is_ok()
            }
        }
    }
    fn check(&self, s: &Screen, same: bool, position: Option<usize>, hidden: bool) -> Result<Seen, String> {
        ensure!(s.unknown.is_empty(), "unexpected output {:?}", s.unknown);
        ensure!(!has_dialog(s), "there is a dialog");
        let footer = s.row(s.height - 1);
        ensure!(footer.trim() == "Press H for help.", "the last line is {footer:?}");
        let columns = self.columns();
        let mut down = None;
        for (k, from, to, name) in &columns {
            let header = s.text(0, *from..*to);
            let (title, mark) = header.split_once('[').unwrap_or((&header, ""));
            let title = title.trim_end();
            let cut = *k == Key::Path && to - from < 20;
            ensure!(title == *name || (cut && name.starts_with(title)), "the header of a column is {header:?} instead of {name:?}");
            match mark.chars().next() {
                Some('v') | Some('^') if *k == self.key => down = Some(mark.starts_with('v')),
                Some(' ') if *k != self.key => {}
                None if cut => {}
                _ => fail!("the header {header:?} does not tell that rows are sorted by {:?}", self.key),
            }
        }
        ensure!(s.row(1).starts_with("───"), "no line under the headers");
        let n = self.units.len();
        let visible = n.min(self.room);
        let mut lit = vec![];
        let mut rows = vec![];
        for y in 2..2 + self.room {
            let cells: Vec<String> = columns.iter().map(|(_, a, b, _)| s.text(y, *a..*b).trim_end().to_string()).collect();
            if y - 2 >= visible {
                ensure!(cells.iter().all(|c| c.is_empty()), "unexpected row {cells:?} after the {visible} expected ones");
                continue;
            }
            if HIGHLIGHTS.contains(&s.style(y, 0).bg) {
                lit.push(y - 2);
            }
            rows.push(cells);
        }
        if n == 0 {
            return Ok(Seen { down: true, selected: vec![], position: 0 });
        }
        let hidden = hidden && lit.is_empty() && n > visible;
        ensure!(lit.len() == 1 || hidden, "{} rows are highlighted, in a table of {n}", lit.len());
        let fit: Vec<Vec<bool>> = rows
            .iter()
            .map(|r| (0..n).map(|u| r.iter().zip(&columns).all(|(c, (k, a, b, _))| self.fits(c, u, *k, b - a))).collect())
            .collect();
        for r in 0..rows.len() {
            ensure!(fit[r].contains(&true), "no compilation unit is shown as {:?}; they are {:?}", rows[r], &self.units[..n.min(10)]);
        }
        let mut directions = self.down.clone();
        if let Some(d) = down {
            ensure!(directions.contains(&d), "rows are sorted in the wrong direction, by {:?}", self.key);
            directions = vec![d];
        }
        let compare = |a: usize, b: usize| {
            let (a, b) = (&self.units[a], &self.units[b]);
            match self.key {
                Key::Memory => a.memory.cmp(&b.memory),
                Key::Time => Secs::rank(a.time).cmp(&Secs::rank(b.time)),
                Key::Path => Path::new(&a.path).cmp(Path::new(&b.path)),
            }
        };
        let mut wrong = String::new();
        for d in directions {
            let mut order: Vec<usize> = (0..n).collect();
            order.sort_by(|a, b| if d { compare(*b, *a) } else { compare(*a, *b) });
            // Ranges of equal units
            let mut group = vec![(0, 0); n];
            let mut from = 0;
            for i in 1..=n {
                if i == n || compare(order[i - 1], order[i]).is_ne() {
                    group[from..i].fill((from, i));
                    from = i;
                }
            }
            for top in 0..=n - visible {
                let mut r = 0;
                let ok = loop {
                    if r >= visible {
                        break true;
                    }
                    let (a, b) = group[top + r];
                    let k = (b - top).min(visible) - r;
                    if !matches(k, b - a, &|row, unit| fit[r + row][order[a + unit]]) {
                        wrong = format!("row {r} ({:?}) is not where sorting by {:?} puts it", rows[r], self.key);
                        break false;
                    }
                    r += k;
                };
                if !ok {
                    continue;
                }
                if hidden {
                    return Ok(Seen { down: d, selected: vec![], position: 0 });
                }
                let at = top + lit[0];
                if position.is_some_and(|p| p != at) {
                    wrong = format!("row {at} is selected instead of row {position:?}");
                    continue;
                }
                let (a, b) = group[at];
                let mut selected: Vec<usize> = (a..b).map(|p| order[p]).filter(|u| fit[lit[0]][*u]).collect();
                if same {
                    selected.retain(|u| self.selected.contains(u));
                    if selected.is_empty() {
                        wrong = "another compilation unit is selected".into();
                        continue;
                    }
                }
                return Ok(Seen { down: d, selected, position: at });
            }
        }
        Err(wrong)
    }
    fn expect(&mut self, tui: &mut Tui, what: &str, same: bool, position: Option<usize>, hidden: bool) -> CaseResult {
        let seen = tui.wait(|s| self.check(s, same, position, hidden)).map_err(|e| format!("{what}: {e}"))?;
        if !self.units.is_empty() {
            self.down = vec![seen.down];
        }
        self.position = seen.position;
        self.selected = seen.selected;
        if hidden && self.selected.is_empty() && !self.units.is_empty() {
            tui.send_and_see(HOME);
            return self.expect(tui, "after going to the first row", false, Some(0), false);
        }
        Ok(())
    }
    fn go(&mut self, tui: &mut Tui, m: Move) -> CaseResult {
        let (n, p) = (self.units.len(), self.position);
        if n == 0 {
            return Ok(());
        }
        let (keys, to) = match m {
            Move::Up(k) => (UP.repeat((k as usize).min(p)), p.saturating_sub(k as usize)),
            Move::Down(k) => {
                let to = (p + k as usize).min(n - 1);
                (DOWN.repeat(to - p), to)
            }
            Move::PageUp => (PAGE_UP.into(), p.saturating_sub(10)),
            Move::PageDown => (PAGE_DOWN.into(), (p + 10).min(n - 1)),
            Move::Home => (HOME.into(), 0),
            Move::End => (END.into(), n - 1),
        };
        if to == p {
            return Ok(());
        }
        tui.send_and_see(&keys);
        self.expect(tui, &format!("after {m:?}"), false, Some(to), false)
    }
    fn column(&self, k: Key) -> usize {
        self.columns().iter().position(|c| c.0 == k).unwrap_or(0)
    }
    fn sort(&mut self, tui: &mut Tui, k: u8, times: u8) -> CaseResult {
        let all = self.columns();
        let to = k as usize % all.len();
        let k = all[to].0;
        let from = self.column(self.key);
        let walk = if to >= from { RIGHT.repeat(to - from) } else { LEFT.repeat(from - to) };
        self.down = if k == self.key {
            vec![!self.down[0]]
        } else {
            let default = k != Key::Path;
            if self.turned[k as usize] {
                vec![default, !default]
            } else {
                vec![default]
            }
        };
        self.key = k;
        let mut enters = 1;
        if self.down.len() == 1 && times % 2 == 0 {
            self.down[0] = !self.down[0];
            enters = 2;
        }
        tui.send_and_see(&format!("{RIGHT}{walk}{}{UP}", ENTER.repeat(enters)));
        if self.units.len() > self.room {
            // The selected row may be out of sight
            tui.send_and_see(HOME);
            self.expect(tui, "after sorting and going to the first row", false, Some(0), false)?;
        } else {
            self.expect(tui, "after sorting", true, None, false)?;
        }
        self.turned[k as usize] |= self.down[0] != (k != Key::Path);
        Ok(())
    }
    fn again(&mut self, tui: &mut Tui, what: &str) -> CaseResult {
        let p = (!self.units.is_empty()).then_some(self.position);
        self.expect(tui, what, p.is_some(), p, false)
    }
    fn step(&mut self, tui: &mut Tui, a: &Act, case: &mut Case) -> CaseResult {
        case.evals += 1;
        match a {
            Act::Move(m) => self.go(tui, *m)?,
            Act::Sort(k, times) => {
                case.label("sort");
                if !self.units.is_empty() {
                    self.sort(tui, *k, *times)?
                }
            }
            Act::Headers(n) => {
                if self.units.is_empty() {
                    return Ok(());
                }
                tui.send_and_see(&format!("{RIGHT}{}{UP}{}", if n % 2 == 0 { LEFT.repeat(*n as usize) } else { RIGHT.repeat(*n as usize) }, tui_checks::back_in_sight(self.position, self.units.len())));
                self.again(tui, "after walking through the headers")?;
            }
            Act::Help => {
                tui.send_and_see(["h", "hh", "hq"][self.position % 3]);
                tui.wait_for("Memory is the top")?;
                tui.send_and_see(ENTER);
                self.again(tui, "after closing the help")?;
            }
            Act::DoNotQuit => {
                tui.send_and_see(["q", "qq", "qh"][self.position % 3]);
                tui.wait_for("Ready to quit?")?;
                tui.send_and_see(&format!("{RIGHT}{ENTER}"));
                self.again(tui, "after not quitting")?;
            }
            Act::Nothing(k) => {
                // Keys that only make sense in traces
                tui.send_and_see(["u", "b", "f", ESC][*k as usize % 4]);
                if k % 4 == 3 {
                    // Keys that come right after an escape key would be read along with it
                    std::thread::sleep(Duration::from_millis(60));
                }
                self.step(tui, &Act::Help, case)?;
            }
            Act::Enter => {
                tui.send_and_see(ENTER);
                if self.units.is_empty() {
                    return self.step(tui, &Act::Help, case);
                }
                case.label("vanished file");
                let text = if self.width >= 60 { "Failed to resolve relative path" } else { "Failed" };
                dialog(tui, text, "after choosing a file that does not exist")?;
                tui.send_and_see(ENTER);
                self.again(tui, "after an error message")?;
            }
        }
        Ok(())
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Move {
    Up(u8),
    Down(u8),
    PageUp,
    PageDown,
    Home,
    End,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Act {
    Move(Move),
    Sort(u8, u8),
    Headers(u8),
    Help,
    DoNotQuit,
    Nothing(u8),
    /// Choose the selected file, which does not exist
    Enter,
}
fn table_act() -> BoxedStrategy<Act> {
    prop_oneof![
        5 => prop_oneof![
            3 => (1u8..5).prop_map(Move::Down),
            1 => (1u8..5).prop_map(Move::Up),
            1 => select(vec![Move::PageUp, Move::PageDown, Move::Home, Move::End]),
        ].prop_map(Act::Move),
        6 => (0u8..3, 1u8..3).prop_map(|(a, b)| Act::Sort(a, b)),
        1 => (1u8..4).prop_map(Act::Headers),
        1 => Just(Act::Help),
        1 => Just(Act::DoNotQuit),
        1 => any::<u8>().prop_map(Act::Nothing),
        1 => Just(Act::Enter),
    ]
    .boxed()
}

// -------------------------------------------------------------------- table

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Session {
    units: Vec<Unit>,
    /// No column for times
    short: bool,
    width: u16,
    height: u16,
    acts: Vec<Act>,
}
fn memory() -> BoxedStrategy<u64> {
    prop_oneof![6 => 0u64..9_000_000_000, 2 => (0u64..5).prop_map(|n| n * 1_000_000_000), 1 => (0u64..20).prop_map(|n| n * 4_999_999), 1 => 0u64..9_000_000_000_000, 1 => any::<u64>()].boxed()
}
fn secs() -> BoxedStrategy<Secs> {
    prop_oneof![20 => (0u32..2000).prop_map(Secs::Tenths), 3 => (0u32..999_999).prop_map(Secs::Tenths), 1 => (0u8..9).prop_map(Secs::Negative), 1 => Just(Secs::Nan), 1 => Just(Secs::Infinity)].boxed()
}
fn rel_path() -> BoxedStrategy<String> {
    let part = prop_oneof![6 => "[a-z_.]{0,3}[a-zA-Z0-9_]{1,9}".boxed(), 2 => text_strategy(), 1 => Just("..".to_string()).boxed()];
    (vec(part, 1..7), 0u8..8, "[a-z_A-Z]{1,12}(\\.cpp|\\.cc|\\.C)")
        .prop_map(|(mut comps, start, name)| {
            for c in &mut comps {
                tame(c);
                *c = c.replace('/', "_");
            }
            // No file must be there
            match start {
                0 => comps.insert(0, "/nowhere".into()),
                1 => comps.insert(0, ".".into()),
                _ => {}
            }
            comps.push(format!("{name}~none"));
            comps.join("/")
        })
        .boxed()
}
fn session() -> BoxedStrategy<Session> {
    let times = prop_oneof![3 => Just(0.9999), 1 => Just(0.6)];
    (0u8..3, times)
        .prop_flat_map(|(kind, p)| {
            let time = if kind > 0 { proptest::option::weighted(p, secs()).boxed() } else { Just(None).boxed() };
            let paths = prop_oneof![4 => rel_path(), 1 => select(vec!["a/b.cpp", "a.cpp", "a-b.cpp", "a/a.cpp", "/none/a.cpp"]).prop_map(|s| s.to_string())];
            let unit = (paths, memory(), time).prop_map(|(path, memory, time)| Unit { path, memory, time });
            let units = prop_oneof![1 => vec(unit.clone(), 0..2), 6 => vec(unit.clone(), 2..20), 2 => vec(unit, 20..70)];
            let width = prop_oneof![2 => 60u16..140, 1 => 30u16..60, 1 => 140u16..230];
            let height = prop_oneof![1 => 8u16..16, 1 => 16u16..60];
            (units, any::<bool>(), width, height, vec(table_act(), 1..16))
        })
        .prop_map(|(units, short, width, height, acts)| Session { short: short && units.iter().all(|u| u.time.is_none()), units, width, height: height.max(15), acts })
        .boxed()
}
fn check_session(env: &Env, s: &Session, case: &mut Case) -> CaseResult {
    let site = Site::new(env, &["clang++"])?;
    site.good_clang()?;
    site.write("compile_commands.json", "[]")?;
    site.write("my.csv", csv_text(&s.units, s.short))?;
    // Named profiles which are newer than what they are about are not questioned, however old
    set_mtime(site.path("compile_commands.json"), ago(4_000_000.0))?;
    set_mtime(site.path("my.csv"), ago([0.0, 100.0, 100_000.0][s.width as usize % 3]))?;
    let mut tui = site.start(s.width as usize, s.height as usize, &["--build-profile", "my.csv"])?;
    let mut table = Table::new(&s.units, s.width as usize, s.height as usize);
    let some = !s.units.is_empty();
    case.label_if(table.has_time, "times");
    case.label_if(table.has_time && s.units.iter().any(|u| u.time.is_none()), "some times");
    table.expect(&mut tui, "at first", false, some.then_some(0), false)?;
    for a in &s.acts {
        table.step(&mut tui, a, case)?;
    }
    case.nontrivial = s.units.len() >= 2 && s.acts.len() >= 3;
    quit(&mut tui, if s.acts.len() % 2 == 0 { "q" } else { "\x03" })
}

// ------------------------------------------------------------------- traces

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Kind {
    /// The source file does not exist
    Vanished,
    /// The source file is not in the database
    Stranger,
    /// The command names no output
    NoOutput,
    /// The place of the output cannot be looked at
    BadOutput,
    Good,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Output {
    /// Told by the database, as an absolute path
    Absolute,
    /// Told by the database, relative to the build directory
    Relative,
    /// Told by the command
    Option,
    /// Told by the command, with an unusual path
    Odd,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
struct Source {
    kind: Kind,
    output: Output,
    /// How the profile spells the path
    spelling: u8,
    /// Compiled from a subdirectory
    sub: bool,
    memory: u32,
    tenths: Option<u16>,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Age {
    /// A trace written just now, or by a former measurement
    Now,
    /// The source file is newer
    OlderThanSource,
    /// The database is newer
    OlderThanDatabase,
    Minutes(u16),
    Future,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Content {
    /// Whatever is left there
    Same,
    Absent,
    Trace(u8),
    Text,
    /// A trace that takes long to load
    Slow(u8),
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Reply {
    Measure,
    Reuse,
    Escape,
    /// Escape after some hesitation
    Hesitate,
}
/// What is done while a trace loads slowly
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Meanwhile {
    Wait,
    /// Open a dialog and leave it
    Wonder,
    Hesitate,
    Abort,
    /// Abort and quit
    Quit,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Table(Act),
    Open { unit: u8, age: Age, content: Content, reply: Reply, new: u8, meanwhile: Meanwhile, acts: Vec<tui_checks::Act> },
    /// Let the loads which were aborted end
    Release,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Visit {
    sources: Vec<Source>,
    traces: Vec<Trace>,
    width: u16,
    granularity: Option<u16>,
    steps: Vec<Step>,
}
fn source() -> BoxedStrategy<Source> {
    let kind = prop_oneof![12 => Just(Kind::Good), 1 => Just(Kind::Vanished), 1 => Just(Kind::Stranger), 1 => Just(Kind::NoOutput), 1 => Just(Kind::BadOutput)];
    let output = select(vec![Output::Absolute, Output::Relative, Output::Option, Output::Option, Output::Odd]);
    (kind, output, 0u8..6, any::<bool>(), 0u32..2_000_000_000, proptest::option::weighted(0.5, 0u16..2000))
        .prop_map(|(kind, output, spelling, sub, memory, tenths)| Source { kind, output, spelling, sub, memory, tenths })
        .boxed()
}
fn step() -> BoxedStrategy<Step> {
    let age = prop_oneof![
        3 => Just(Age::Now),
        2 => Just(Age::OlderThanSource),
        1 => Just(Age::OlderThanDatabase),
        4 => prop_oneof![2 => 1u16..60, 1 => 60u16..1440, 1 => 1440u16..10_000].prop_map(Age::Minutes),
        1 => Just(Age::Future),
    ];
    let content = prop_oneof![3 => Just(Content::Same), 2 => Just(Content::Absent), 5 => any::<u8>().prop_map(Content::Trace), 1 => Just(Content::Text), 4 => any::<u8>().prop_map(Content::Slow)];
    let reply = prop_oneof![4 => Just(Reply::Measure), 5 => Just(Reply::Reuse), 1 => Just(Reply::Escape), 1 => Just(Reply::Hesitate)];
    let meanwhile = prop_oneof![2 => Just(Meanwhile::Wait), 1 => Just(Meanwhile::Wonder), 1 => Just(Meanwhile::Hesitate), 5 => Just(Meanwhile::Abort), 1 => Just(Meanwhile::Quit)];
    let open = (any::<u8>(), age, content, reply, any::<u8>(), meanwhile, vec(tui_checks::act(), 0..4))
        .prop_map(|(unit, age, content, reply, new, meanwhile, acts)| Step::Open { unit, age, content, reply, new, meanwhile, acts });
    let act = table_act().prop_map(|a| Step::Table(if matches!(a, Act::Enter) { Act::Help } else { a }));
    prop_oneof![8 => open, 2 => act, 2 => Just(Step::Release)].boxed()
}
fn visit(len: usize) -> BoxedStrategy<Visit> {
    (vec(source(), 1..6), vec(distinct_trace(), 1..4), 80u16..140, proptest::option::of(any::<u16>()), vec(step(), 1..len))
        .prop_map(|(sources, mut traces, width, granularity, steps)| {
            traces.retain(|t| !t.acts.is_empty());
            Visit { sources, traces, width, granularity, steps }
        })
        .prop_filter("no trace", |v| !v.traces.is_empty())
        .boxed()
}
/// A compilation unit that exists
struct Place {
    name: String,
    rel: String,
    trace: PathBuf,
    dir: PathBuf,
    args: Vec<String>,
}
fn place(site: &Site, i: usize, s: &Source) -> Result<(Place, Option<serde_json::Value>), String> {
    let name = format!("u{i}.{}", ["cpp", "cc", "cxx", "C"][(i + s.spelling as usize) % 4]);
    let linked = s.spelling == 4;
    let rel = match s.spelling {
        0 | 1 => format!("src/{name}"),
        2 => format!("./src/{name}"),
        3 => format!("src/../src/{name}"),
        4 => format!("link/{name}"),
        _ => site.path("src").join(&name).to_string_lossy().to_string(),
    };
    site.write(format!("src/{name}"), "int x;\n")?;
    let dir = if s.sub { site.path("sub") } else { site.root.clone() };
    let out = dir.join("out");
    let mut args = vec![format!("-DN=\"{i} $x\"")];
    let (object, told) = match s.output {
        Output::Absolute => (site.path("out").join(format!("{name}.o")), Some(site.path("out").join(format!("{name}.o")))),
        Output::Relative => (site.path("out").join(format!("{name}.o")), Some(PathBuf::from(format!("out/{name}.o")))),
        Output::Option => (out.join(format!("{name}.o")), None),
        Output::Odd => (out.join(format!("{name}.x.o")), None),
    };
    match (s.kind, s.output) {
        (Kind::NoOutput, _) => {}
        (Kind::BadOutput, _) => args.extend(["-o".into(), format!("{}/compile_commands.json/u{i}.o", site.root.display())]),
        (_, Output::Odd) => args.extend(["-o".into(), format!("./out/../out/{name}.x.o")]),
        _ => args.extend(["-o".into(), format!("out/{name}.o")]),
    }
    args.extend(["-c".into(), site.path("src").join(&name).to_string_lossy().to_string()]);
    let file = if linked { site.path("link").join(&name) } else { site.path("src").join(&name) };
    let mut words = vec!["/usr/bin/c++".to_string()];
    words.extend(args.clone());
    let told = if matches!(s.kind, Kind::NoOutput | Kind::BadOutput) { None } else { told };
    let entry = db_entry(&dir, &words, &file, told.as_deref());
    Ok((Place { name, rel, trace: object.with_extension("json"), dir, args }, (s.kind != Kind::Stranger).then_some(entry)))
}
fn mkfifo(path: &Path) -> CaseResult {
    let name = std::ffi::CString::new(path.to_string_lossy().as_bytes()).map_err(|e| e.to_string())?;
    // SAFETY: valid argument
    ensure!(unsafe { libc::mkfifo(name.as_ptr(), 0o600) } == 0, "harness: cannot make a pipe");
    Ok(())
}
/// Trace file that is a pipe, once somebody reads it
fn pipe_writer(tui: &mut Tui, path: &Path) -> Result<std::fs::File, String> {
    let start = Instant::now();
    loop {
        match std::fs::File::options().write(true).custom_flags(libc::O_NONBLOCK).open(path) {
            Ok(f) => {
                // SAFETY: plain system call
                unsafe { libc::fcntl(std::os::fd::AsRawFd::as_raw_fd(&f), libc::F_SETFL, 0) };
                return Ok(f);
            }
            Err(e) => {
                if start.elapsed() > tui.patience() {
                    tui.hurry();
                    return Err(format!("the program does not read the trace ({e}); the screen is\n{}", tui.screen.dump()));
                }
                tui.pump(Duration::from_millis(3));
            }
        }
    }
}
fn age_text(mins: u64) -> String {
    match mins {
        0..=59 => format!("{mins}min"),
        60..=1439 => format!("{}h", mins / 60),
        1440..=2879 => "1 day".into(),
        _ => format!("{} days", mins / 1440),
    }
}
struct Tour<'a> {
    v: &'a Visit,
    site: &'a Site,
    places: Vec<Place>,
    table: Table,
    sorting: Sorting,
    /// Aborted loads
    pending: Vec<(std::fs::File, String)>,
}
impl Tour<'_> {
    fn release(&mut self) {
        for (mut f, text) in self.pending.drain(..) {
            // The program may be gone
            let _ = f.write_all(text.as_bytes());
        }
    }
    /// Returns whether the program goes on
    fn open(&mut self, tui: &mut Tui, step: &Step, case: &mut Case) -> Result<bool, String> {
        let Step::Open { unit, age, content, reply, new, meanwhile, acts } = step else { return Ok(true) };
        let i = *unit as usize % self.places.len();
        let (p, source) = (&self.places[i], &self.v.sources[i]);
        let text_of = |n: u8| self.v.traces[n as usize % self.v.traces.len()].text();
        let trace_of = |n: u8| &self.v.traces[n as usize % self.v.traces.len()];
        let site = self.site;
        site.forget_runs();
        let e = |r: std::io::Result<()>| r.map_err(|e| format!("harness: {e}"));
        // State of the trace
        let exists = std::fs::symlink_metadata(&p.trace).is_ok();
        if *content != Content::Same && exists {
            e(std::fs::remove_file(&p.trace))?;
        }
        match content {
            Content::Same if exists && p.trace.metadata().is_ok_and(|m| !m.is_file()) => e(std::fs::remove_file(&p.trace))?,
            Content::Same | Content::Absent => {}
            Content::Trace(n) => e(std::fs::write(&p.trace, text_of(*n)))?,
            Content::Text => e(std::fs::write(&p.trace, "{\"traceEvents\": 3"))?,
            Content::Slow(_) => mkfifo(&p.trace)?,
        }
        let exists = std::fs::symlink_metadata(&p.trace).is_ok();
        if exists {
            set_mtime(
                &p.trace,
                match age {
                    Age::Now => ago(0.0),
                    Age::OlderThanSource => ago(3_000_000.0),
                    Age::OlderThanDatabase => ago(5_000_000.0),
                    Age::Minutes(m) => ago(*m as f64 * 60.0 + 10.0),
                    Age::Future => ago(-5000.0),
                },
            )?;
        }
        if source.kind != Kind::Vanished {
            set_mtime(site.path("src").join(&p.name), ago(if *age == Age::OlderThanSource { 2_000_000.0 } else { 6_000_000.0 }))?;
        }
        let mtime = p.trace.metadata().and_then(|m| m.modified()).ok();
        // Choose the unit
        let row = {
            let rel: String = Path::new(&p.rel).components().collect::<PathBuf>().to_string_lossy().to_string();
            let (_, from, to, _) = self.table.columns().into_iter().find(|c| c.0 == Key::Path).ok_or("no column")?;
            (2..tui.screen.height - 1).find(|y| tui.screen.text(*y, from..to).trim_end() == rel).ok_or_else(|| format!("harness: {rel} is not visible\n{}", tui.screen.dump()))? - 2
        };
        let here = self.table.position;
        if row >= here {
            self.table.go(tui, Move::Down((row - here) as u8))?;
        } else {
            self.table.go(tui, Move::Up((here - row) as u8))?;
        }
        let before = SystemTime::now();
        tui.send_and_see(ENTER);
        let failure = match source.kind {
            Kind::Vanished => Some(format!("Failed to resolve relative path {}", p.rel)),
            Kind::Stranger => Some(format!("No compilation database entry for source file {}", p.rel)),
            Kind::NoOutput => Some("Failed to extract output file from compilation command".to_string()),
            Kind::BadOutput => Some("Failed to check build profile freshness".to_string()),
            Kind::Good => None,
        };
        if let Some(f) = failure {
            case.label("unit that cannot be opened");
            dialog(tui, &f, "after choosing a unit that cannot be opened")?;
            tui.send_and_see(ENTER);
            self.table.again(tui, "after an error message")?;
            ensure!(site.ran("clang++", "").is_empty(), "a compiler runs although nobody asked for it");
            return Ok(true);
        }
        // Prompt
        let question = match (exists, age) {
            (false, _) => Some("It looks like this build has not been profiled yet. Ready to do so?"),
            (true, Age::OlderThanSource | Age::OlderThanDatabase) => Some("There is an existing build profile, but it is not up to date with respect to current source code. Use it anyway?"),
            (true, Age::Now) => None,
            (true, Age::Minutes(_)) => Some("ago. Do you consider it up to date?"),
            (true, Age::Future) => Some("There is an existing build profile. Do you consider it up to date?"),
        };
        let mut measured = false;
        if let Some(q) = question {
            dialog(tui, q, "after choosing a unit")?;
            if let (true, Age::Minutes(_), Some(mtime)) = (exists, age, mtime) {
                let mins = |t: SystemTime| t.duration_since(mtime).map(|d| d.as_secs() / 60).unwrap_or(0);
                let texts: Vec<String> = (mins(before)..=mins(SystemTime::now())).map(|m| squeeze(&format!("There is an existing build profile from {} ago.", age_text(m)))).collect();
                let shown = tui.screen.squeezed();
                ensure!(texts.iter().any(|t| shown.contains(t)), "the screen does not tell {texts:?}:\n{}", tui.screen.dump());
            }
            ensure!(site.ran("clang++", p.name.as_str()).is_empty(), "the compiler runs before the user asked for it");
            case.label("question");
            if matches!(reply, Reply::Hesitate) {
                tui.send_and_see("q");
                dialog(tui, "Ready to quit?", "at the question")?;
                tui.send_and_see(&format!("{RIGHT}{ENTER}"));
                tui.wait(|s| if s.has("Ready to quit?") || !s.has("build") { Err("the question is not shown any more".into()) } else { Ok(()) })?;
            }
            let keys = match (reply, exists) {
                (Reply::Escape | Reply::Hesitate, _) => {
                    tui.send_and_see(ESC);
                    self.table.again(tui, "after escaping from the question")?;
                    std::thread::sleep(Duration::from_millis(30));
                    ensure!(site.ran("clang++", "").is_empty(), "a compiler runs although nobody asked for it");
                    return Ok(true);
                }
                (Reply::Measure, false) | (Reply::Reuse, true) => ENTER.to_string(),
                _ => format!("{RIGHT}{ENTER}"),
            };
            if matches!(reply, Reply::Measure) {
                measured = true;
                site.plan("clang++", &p.name, &[Op::Write { path: p.trace.clone(), text: text_of(*new), append: false }, Op::Exit(0)])?;
            }
            tui.send_and_see(&keys);
            if !measured && !exists {
                self.table.again(tui, "after refusing to measure")?;
                ensure!(site.ran("clang++", "").is_empty(), "a compiler runs although nobody asked for it");
                return Ok(true);
            }
        }
        // Load
        let shown = if measured {
            Some(*new)
        } else {
            match content {
                Content::Trace(n) => Some(*n),
                Content::Slow(n) => {
                    case.label("slow load");
                    let mut f = pipe_writer(tui, &p.trace)?;
                    dialog(tui, "Processing time trace...", "while loading")?;
                    match meanwhile {
                        Meanwhile::Wait => {}
                        Meanwhile::Wonder => {
                            tui.send_and_see("q");
                            dialog(tui, "Ready to quit?", "while loading")?;
                        }
                        Meanwhile::Hesitate => {
                            // The only way out is the button
                            tui.send_and_see(ESC);
                            std::thread::sleep(Duration::from_millis(60));
                            dialog(tui, "Processing time trace...", "after an escape key while loading")?;
                            tui.send_and_see("q");
                            dialog(tui, "Ready to quit?", "while loading")?;
                            tui.send_and_see(&format!("{RIGHT}{ENTER}"));
                            dialog(tui, "Processing time trace...", "after not quitting while loading")?;
                            tui.wait(|s| if s.has("Ready to quit?") { Err("the question about quitting remains".into()) } else { Ok(()) })?;
                        }
                        Meanwhile::Abort => {
                            case.label("aborted load");
                            tui.send_and_see(ENTER);
                            self.table.again(tui, "after aborting a load")?;
                            let text = text_of(*n);
                            // The end of the load may be an error
                            self.pending.push((f, if new % 3 == 0 { text[..text.len() / 2].to_string() } else { text }));
                            return Ok(true);
                        }
                        Meanwhile::Quit => {
                            quit(tui, "q")?;
                            return Ok(false);
                        }
                    }
                    f.write_all(text_of(*n).as_bytes()).map_err(|e| format!("harness: {e}"))?;
                    drop(f);
                    Some(*n)
                }
                Content::Text => None,
                Content::Same | Content::Absent => {
                    let text = site.read(&p.trace).unwrap_or_default();
                    (0..self.v.traces.len() as u8).find(|n| text_of(*n) == text)
                }
            }
        };
        let Some(shown) = shown else {
            dialog(tui, "Failed to process input", "after loading something which is not a trace")?;
            tui.send_and_see(ENTER);
            return self.table.again(tui, "after an error message").map(|()| true);
        };
        case.label(if measured { "measured trace" } else { "former trace" });
        let trace = trace_of(shown);
        let model = Model::new(trace, &trace.text(), self.v.width as usize)?;
        let mut profile = Profile::new(tui, model).sorted(self.sorting.clone());
        profile.expect("after loading a trace", false, Some(0))?;
        for a in acts {
            profile.step(a, case)?;
        }
        profile.leave()?;
        self.sorting = profile.sorting();
        self.table.again(tui, "after leaving a trace")?;
        std::thread::sleep(Duration::from_millis(30));
        let runs = site.ran("clang++", "");
        if measured {
            ensure_eq!(runs.len(), 1, "number of compilations");
            let mut args = vec!["-ftime-trace".to_string()];
            args.extend(self.v.granularity.map(|g| format!("-ftime-trace-granularity={g}")));
            args.extend(p.args.clone());
            ensure_eq!(runs[0].args, args, "arguments of the compiler");
            ensure_eq!(runs[0].cwd, p.dir, "directory of the compilation");
        } else {
            ensure!(runs.is_empty(), "a compiler runs although nobody asked for it");
        }
        Ok(true)
    }
}
fn check_visit(env: &Env, v: &Visit, case: &mut Case) -> CaseResult {
    let site = Site::new(env, &["clang++"])?;
    site.good_clang()?;
    for d in ["out", "sub", "sub/out"] {
        std::fs::create_dir(site.path(d)).map_err(|e| e.to_string())?;
    }
    std::os::unix::fs::symlink("src", site.path("link")).map_err(|e| e.to_string())?;
    let (mut places, mut db, mut units) = (vec![], vec![], vec![]);
    for (i, s) in v.sources.iter().enumerate() {
        let (p, entry) = place(&site, i, s)?;
        units.push(Unit { path: p.rel.clone(), memory: s.memory as u64, time: s.tenths.map(|t| Secs::Tenths(t as u32)) });
        places.push(p);
        db.extend(entry);
    }
    site.write("compile_commands.json", serde_json::to_string(&db).unwrap_or_default())?;
    set_mtime(site.path("compile_commands.json"), ago(4_000_000.0))?;
    site.write("my.csv", csv_text(&units, false))?;
    let granularity = v.granularity.map(|g| g.to_string());
    let mut args = vec!["--build-profile", "my.csv"];
    if let Some(g) = &granularity {
        args.extend(["--granularity", g]);
    }
    let height = 50;
    let mut tui = site.start(v.width as usize, height, &args)?;
    let table = Table::new(&units, v.width as usize, height);
    let mut tour = Tour { v, site: &site, places, table, sorting: Sorting::default(), pending: vec![] };
    tour.table.expect(&mut tui, "at first", false, Some(0), false)?;
    for (p, s) in tour.places.iter().zip(&v.sources) {
        if s.kind == Kind::Vanished {
            let _ = std::fs::remove_file(site.path("src").join(&p.name));
        }
    }
    let mut opened = 0;
    for s in &v.steps {
        case.evals += 1;
        match s {
            Step::Table(a) => tour.table.step(&mut tui, a, case)?,
            Step::Release => {
                tour.release();
                for _ in 0..6 {
                    tui.pump(Duration::from_millis(10));
                }
                tour.table.again(&mut tui, "after the end of a load that was aborted")?;
            }
            Step::Open { .. } => {
                opened += 1;
                if !tour.open(&mut tui, s, case)? {
                    tour.release();
                    case.nontrivial = opened >= 2;
                    return Ok(());
                }
            }
        }
    }
    case.nontrivial = opened >= 2;
    quit(&mut tui, "q")?;
    tour.release();
    Ok(())
}

// ------------------------------------------------------------------ loading

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Load {
    trace: Trace,
    garbage: bool,
    meanwhile: Meanwhile,
    /// Parts in which the trace comes
    parts: u8,
    width: u16,
}
/// A single trace, that takes long to load
fn check_load(env: &Env, l: &Load, case: &mut Case) -> CaseResult {
    let file = scratch(env, "f").with_extension("json");
    let _ = std::fs::remove_file(&file);
    mkfifo(&file)?;
    let mut command = std::process::Command::new(env.bins.join("crofiler"));
    command.args(["--ui", "tui"]).arg(&file);
    let mut tui = Tui::start(command, l.width as usize, 50, scratch(env, "e"))?;
    let r = load(&mut tui, &file, l, case);
    let _ = std::fs::remove_file(&file);
    r
}
fn load(tui: &mut Tui, file: &Path, l: &Load, case: &mut Case) -> CaseResult {
    let mut f = pipe_writer(tui, file)?;
    let text = if l.garbage { "[1, 2, 3".to_string() } else { l.trace.text() };
    let bytes = text.as_bytes();
    let half = bytes.len() * l.parts as usize / 256;
    let e = |r: std::io::Result<()>| r.map_err(|e| format!("harness: {e}"));
    e(f.write_all(&bytes[..half]))?;
    dialog(tui, "Processing time trace...", "while loading")?;
    case.nontrivial = l.meanwhile != Meanwhile::Wait;
    match l.meanwhile {
        Meanwhile::Wait => {}
        Meanwhile::Wonder => {
            tui.send_and_see("q");
            dialog(tui, "Ready to quit?", "while loading")?;
        }
        Meanwhile::Hesitate => {
            tui.send_and_see(ESC);
            std::thread::sleep(Duration::from_millis(60));
            dialog(tui, "Processing time trace...", "after an escape key while loading")?;
            tui.send_and_see("q");
            dialog(tui, "Ready to quit?", "while loading")?;
            tui.send_and_see(&format!("{RIGHT}{ENTER}"));
            tui.wait(|s| if s.has("Ready to quit?") || !s.has("Processing") { Err("the question about quitting remains".into()) } else { Ok(()) })?;
        }
        Meanwhile::Abort => {
            case.label("abort");
            tui.send_and_see(ENTER);
            return tui.end_well();
        }
        Meanwhile::Quit => {
            case.label("quit");
            return quit(tui, "\x03");
        }
    }
    e(f.write_all(&bytes[half..]))?;
    drop(f);
    if l.garbage {
        case.label("garbage");
        dialog(tui, "Failed to process input", "after loading something which is not a trace")?;
        if l.parts % 2 == 0 {
            tui.send_and_see(ENTER);
        }
        return quit(tui, "q");
    }
    case.label("trace");
    let model = Model::new(&l.trace, &text, l.width as usize)?;
    let mut p = Profile::new(tui, model);
    p.expect("after loading", false, Some(0))?;
    quit(tui, "q")
}

// --------------------------------------------------------------- small ones

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Narrow {
    units: Vec<Unit>,
    width: u16,
    height: u16,
    keys: Vec<String>,
}
/// Whatever its size, a terminal does not make the program crash
fn check_narrow(env: &Env, s: &Narrow, case: &mut Case) -> CaseResult {
    let site = Site::new(env, &["clang++"])?;
    site.good_clang()?;
    site.write("compile_commands.json", "[]")?;
    site.write("my.csv", csv_text(&s.units, false))?;
    let mut tui = site.start(s.width as usize, s.height as usize, &["--build-profile", "my.csv"])?;
    let blank = tui.screen.dump();
    tui.wait(|s| if s.dump() == blank { Err("nothing is shown".into()) } else { Ok(()) })?;
    for k in &s.keys {
        tui.send_and_see(k);
        tui.pump(Duration::from_millis(15));
        case.evals += 1;
    }
    case.nontrivial = s.width < 30 && !s.keys.is_empty();
    let start = Instant::now();
    loop {
        for k in ["q", ENTER] {
            tui.send_and_see(k);
            for _ in 0..10 {
                tui.pump(Duration::from_millis(10));
                if tui.ended().is_some() {
                    return tui.end_well();
                }
            }
        }
        ensure!(start.elapsed() < PATIENCE * 2, "the program does not end");
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "U05",
        assumptions: vec![
            "the terminal keeps its size; paths are free of control characters and of characters without width",
            "stand-in compilers; slow loads are pipes which are fed late",
        ],
        subs: vec![
            Box::new(sub("table", "at least two units and three actions", (240, 10_000), move |_| session(), check_session).hang(120).shrink(40)),
            Box::new(sub("traces", "at least two units are opened", (200, 8_000), move |_| visit(7), check_visit).hang(200).shrink(40)),
            Box::new(sub("slow load", "something happens during the load", (60, 2_000), move |_| {
                let meanwhile = select(vec![Meanwhile::Wait, Meanwhile::Wonder, Meanwhile::Hesitate, Meanwhile::Abort, Meanwhile::Quit]);
                (distinct_trace(), prop::bool::weighted(0.2), meanwhile, any::<u8>(), 60u16..140)
                    .prop_filter("no activity", |l| !l.0.acts.is_empty())
                    .prop_map(|(trace, garbage, meanwhile, parts, width)| Load { trace, garbage, meanwhile, parts, width })
                    .boxed()
            }, check_load).hang(120).shrink(40)),
            Box::new(sub("tiny screen", "less than 30 columns and at least one key", (64, 2_000), move |_| {
                let keys = vec(select(vec!["u", "f", "b", "h", "q", ENTER, UP, DOWN, LEFT, RIGHT, PAGE_DOWN, END, "\t"]).prop_map(|s| s.to_string()), 0..8);
                let unit = (rel_path(), memory(), proptest::option::of(secs())).prop_map(|(path, memory, time)| Unit { path, memory, time });
                (vec(unit, 0..8), prop_oneof![3 => 1u16..32, 1 => 32u16..80], prop_oneof![1 => 1u16..12, 1 => 12u16..30], keys)
                    .prop_map(|(units, width, height, keys)| Narrow { units, width, height, keys })
                    .boxed()
            }, check_narrow).hang(120).shrink(40)),
        ],
    }]
}
