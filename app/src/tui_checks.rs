//! U02: the interactive profile of a trace

use crate::{
    display_checks::{multi, single},
    service_checks::describe,
    tui::*,
};
use clang_time_trace::{ActivityTraceId, ClangTrace};
use crofiler::verif::metadata;
use proptest::{collection::vec, prelude::*, sample::select};
use serde::{Deserialize, Serialize};
use std::{collections::HashMap, process::Command, str::FromStr};
use vcommon::{ensure, fail, sub, Case, CaseResult, Env, Prop};
use vgen::{
    cpp::Noise,
    report::parse_duration,
    trace::{self, us, Shape, Trace},
};

// ------------------------------------------------------------------- inputs

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Move {
    Up(u8),
    Down(u8),
    PageUp,
    PageDown,
    Home,
    End,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    Move(Move),
    /// Go to some row which has callees, if there is one, and zoom on it
    ZoomInto(u16),
    /// Press Enter wherever we are
    Enter,
    Back,
    Unit,
    Flat,
    /// Sort by a column, several times in a row
    Sort(u8, u8),
    /// Walk through the headers without choosing
    Headers(u8),
    Backtrace(u8),
    Help,
    DoNotQuit,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Session {
    trace: Trace,
    width: u16,
    height: u16,
    acts: Vec<Act>,
}
pub fn act() -> BoxedStrategy<Act> {
    prop_oneof![
        5 => prop_oneof![
            3 => (1u8..5).prop_map(Move::Down),
            1 => (1u8..5).prop_map(Move::Up),
            1 => select(vec![Move::PageUp, Move::PageDown, Move::Home, Move::End]),
        ].prop_map(Act::Move),
        6 => any::<u16>().prop_map(Act::ZoomInto),
        1 => Just(Act::Enter),
        3 => Just(Act::Back),
        4 => Just(Act::Unit),
        3 => Just(Act::Flat),
        5 => (0u8..3, 1u8..3).prop_map(|(a, b)| Act::Sort(a, b)),
        1 => (1u8..4).prop_map(Act::Headers),
        2 => any::<u8>().prop_map(Act::Backtrace),
        1 => Just(Act::Help),
        1 => Just(Act::DoNotQuit),
    ]
    .boxed()
}
/// Leaving the headers can scroll the selected row of a table out of sight: move away from it and back
pub fn back_in_sight(position: usize, rows: usize) -> String {
    if position + 1 < rows {
        format!("{DOWN}{UP}")
    } else if rows > 1 {
        format!("{UP}{DOWN}")
    } else {
        String::new()
    }
}
/// Text that terminals show in an unambiguous way
pub fn tame(s: &mut String) {
    *s = s.chars().map(|c| if c.is_control() || unicode_width::UnicodeWidthChar::width(c).unwrap_or(0) == 0 || c > '\u{ffff}' || "\u{2028}\u{2029}".contains(c) { '_' } else { c }).collect();
}
fn tamed(mut t: Trace) -> Trace {
    tame(&mut t.process);
    if let Some(t) = &mut t.thread {
        tame(t)
    }
    for a in &mut t.acts {
        tame(&mut a.name);
        if let Some(d) = &mut a.detail {
            tame(d)
        }
    }
    t
}
#[derive(Clone, Copy, PartialEq)]
enum Style {
    /// All activities have different descriptions
    Distinct,
    Plain,
    Rich,
}
/// Small traces whose activities have different descriptions
pub fn distinct_trace() -> BoxedStrategy<Trace> {
    session(Style::Distinct, 14, Just(80u16).boxed(), Just(50u16).boxed(), 2).prop_map(|s| s.trace).boxed()
}
fn session(style: Style, size: u32, width: BoxedStrategy<u16>, height: BoxedStrategy<u16>, len: usize) -> BoxedStrategy<Session> {
    let shape = Shape { depth: 5, size, width: 5, roots: 4, rich: style == Style::Rich };
    (trace::trace(shape), any::<u64>(), width, height, vec(act(), 1..len))
        .prop_map(move |(trace, seed, width, height, acts)| {
            let mut trace = tamed(trace);
            if style == Style::Distinct {
                let mut n = Noise::new(seed | 1);
                for (i, a) in trace.acts.iter_mut().enumerate() {
                    let (name, detail) = match n.next(20) {
                        0 => ("InstantiateClass", format!("n{i}::{}<{}char>", "Name".repeat(1 + n.next(30) as usize), "int, ".repeat(n.next(40) as usize))),
                        1 => ("Source", format!("/d{i}/{}x.h", "directory/".repeat(1 + n.next(20) as usize))),
                        2 => ("Whatever", format!("W{i} {}end", "some text ".repeat(1 + n.next(40) as usize))),
                        3 => ("Whatever", format!("W{i} {}end", "text".repeat(1 + n.next(80) as usize))),
                        x => match x % 5 {
                        0 => ("ParseClass", format!("C{i}")),
                        1 => ("InstantiateFunction", format!("a::f<{i}>")),
                        2 => ("Source", format!("/a/h{i}.h")),
                        3 => ("RunPass", format!("Pass number {i}")),
                        _ => ("ParseTemplate", format!("ns::T{i}<int, char>")),
                        },
                    };
                    (a.name, a.detail) = (name.into(), Some(detail));
                }
            }
            Session { trace, width, height, acts }
        })
        .boxed()
}

// -------------------------------------------------------------------- model

#[derive(Clone, Copy, Debug, PartialEq)]
enum Unit {
    Total,
    Parent,
    Time,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd)]
enum Key {
    Total,
    Own,
    Text,
}
const KEYS: [Key; 3] = [Key::Total, Key::Own, Key::Text];
/// Descending, as shown by the header
type Down = bool;

/// What is known of the activities of a trace
pub struct Model {
    width: usize,
    pub trace: Trace,
    parsed: ClangTrace,
    own: Vec<f64>,
    children: Vec<Vec<usize>>,
    roots: Vec<usize>,
    ids: HashMap<(String, Option<String>), ActivityTraceId>,
    one_line: HashMap<(usize, u16), String>,
    several_lines: HashMap<usize, (String, bool)>,
}
impl Model {
    pub fn new(trace: &Trace, text: &str, width: usize) -> Result<Model, String> {
        let parsed = ClangTrace::from_str(text).map_err(|e| format!("the trace does not load: {e}"))?;
        let n = trace.acts.len();
        let parents = trace.parents();
        let mut children = vec![vec![]; n];
        let mut roots = vec![];
        let mut own: Vec<f64> = trace.acts.iter().map(|a| us(a.dur)).collect();
        for i in 0..n {
            match parents[i] {
                Some(p) => {
                    children[p].push(i);
                    own[p] -= us(trace.acts[i].dur);
                }
                None => roots.push(i),
            }
        }
        let ids = parsed
            .all_activities()
            .map(|a| ((a.activity().name().to_string(), a.activity().raw_argument().detail().map(|d| d.to_string())), a.id()))
            .collect();
        Ok(Model { width, trace: trace.clone(), parsed, own, children, roots, ids, one_line: HashMap::new(), several_lines: HashMap::new() })
    }
    fn dur(&self, i: usize) -> f64 {
        us(self.trace.acts[i].dur)
    }
    fn total(&self) -> f64 {
        self.roots.iter().map(|i| self.dur(*i)).sum()
    }
    fn below(&self, list: &[usize]) -> Vec<usize> {
        let mut out = vec![];
        let mut todo = list.to_vec();
        while let Some(i) = todo.pop() {
            out.push(i);
            todo.extend(&self.children[i]);
        }
        out
    }
    fn id(&self, i: usize) -> Result<ActivityTraceId, String> {
        let a = &self.trace.acts[i];
        self.ids.get(&(a.name.clone(), a.detail.clone())).copied().ok_or_else(|| format!("no activity {:?} {:?}", a.name, a.detail))
    }
    fn one_line(&mut self, i: usize, cols: u16) -> Result<String, String> {
        if let Some(s) = self.one_line.get(&(i, cols)) {
            return Ok(s.clone());
        }
        let id = self.id(i)?;
        let (s, _) = describe(&mut self.parsed, id, single(cols))?;
        self.one_line.insert((i, cols), s.clone());
        Ok(s)
    }
    fn several_lines(&mut self, i: usize) -> Result<(String, bool), String> {
        if let Some(s) = self.several_lines.get(&i) {
            return Ok(s.clone());
        }
        let id = self.id(i)?;
        let s = describe(&mut self.parsed, id, multi(self.width as u16, 0, 0))?;
        self.several_lines.insert(i, s.clone());
        Ok(s)
    }
    fn footer(&self) -> Vec<String> {
        let text = metadata(&self.parsed, self.width as u16);
        let help = "Press H for help.";
        let mut lines: Vec<String> = text.lines().map(|l| l.to_string()).collect();
        let last = lines.last().cloned().unwrap_or_default();
        if unicode_width::UnicodeWidthStr::width(&last[..]) + 1 + help.len() <= self.width {
            let n = lines.len();
            lines[n - 1] = format!("{last} {help}");
        } else {
            lines.push(help.into());
        }
        lines
    }
}

#[derive(Clone, Debug)]
struct Layer {
    name: String,
    /// What shares of the parent are relative to
    whole: f64,
    flat: bool,
    /// Activities of the hierarchical profile
    direct: Vec<usize>,
    /// Activities that may be the selected one
    selected: Vec<usize>,
    /// Position of the selected one
    position: usize,
    /// Sorted while it was not the one on top
    sorted: bool,
}
impl Layer {
    fn items(&self, m: &Model) -> Vec<usize> {
        if self.flat {
            m.below(&self.direct)
        } else {
            self.direct.clone()
        }
    }
}
/// What the screen should show of a layer
struct Expected<'a> {
    layer: &'a Layer,
    unit: Unit,
    key: Key,
    /// Allowed directions
    down: &'a [Down],
    selected: Option<&'a [usize]>,
    position: Option<usize>,
    /// Whether the selected row may be out of sight
    hidden: bool,
}
/// What was learnt from the screen
struct Seen {
    down: Down,
    selected: Vec<usize>,
    position: usize,
    visible: usize,
}

pub const HIGHLIGHTS: [u16; 2] = [2, 5];
fn fits(cell: &str, dur: f64, whole: Option<f64>) -> bool {
    match whole {
        // Shares of nothing mean nothing
        Some(w) if w <= 0.0 => cell.strip_suffix('%').map_or(cell == "-", |c| c.parse::<f64>().is_ok_and(|x| x.is_finite())),
        Some(w) => {
            let Some(x) = cell.strip_suffix('%') else { return false };
            let Some((_, d)) = x.split_once('.') else { return false };
            d.len() == 2 && x.parse::<f64>().is_ok_and(|x| (x - dur / w * 100.0).abs() <= 0.005 + 1e-6)
        }
        None => parse_duration(cell).is_ok_and(|s| s.is(dur)),
    }
}
/// Is there a way to give every row one of the activities?
pub fn matches(rows: usize, acts: usize, fits: &dyn Fn(usize, usize) -> bool) -> bool {
    fn place(r: usize, acts: usize, fits: &dyn Fn(usize, usize) -> bool, seen: &mut [bool], owner: &mut [Option<usize>]) -> bool {
        for a in 0..acts {
            if !seen[a] && fits(r, a) {
                seen[a] = true;
                if owner[a].is_none_or(|o| place(o, acts, fits, seen, owner)) {
                    owner[a] = Some(r);
                    return true;
                }
            }
        }
        false
    }
    let mut owner = vec![None; acts];
    (0..rows).all(|r| place(r, acts, fits, &mut vec![false; acts], &mut owner))
}
/// Does a pane show the beginning of some text?
fn pane_shows(pane: &[String], text: &str, wrap: bool, width: usize) -> bool {
    // There may be a scroll bar on the right, and another one at the bottom
    let bar = |s: &str| s.ends_with(['▒', '|', '▓', '█', '┃']);
    let scrolled = !pane.is_empty() && pane.iter().all(|p| bar(p));
    let mut pane: Vec<&str> = pane.iter().map(|p| p.trim_end()).map(|p| if scrolled { p.trim_end_matches(['▒', '|', '▓', '█', '┃']).trim_end() } else { p }).collect();
    if pane.last().is_some_and(|l| !l.is_empty() && l.chars().all(|c| "▒-▓█━".contains(c))) {
        pane.pop();
    }
    if wrap {
        let shown = squeeze(&pane.concat());
        let text = squeeze(text);
        // What cannot be shown leaves no room
        let full = pane.iter().all(|p| !p.is_empty());
        !shown.is_empty() && text.starts_with(&shown) && (shown.len() == text.len() || (full && shown.len() >= 8.min(text.len())))
    } else {
        // A scroll bar may hide the end of lines
        let mut lines = text.lines();
        pane.iter().all(|p| {
            let l = lines.next().unwrap_or("").trim_end();
            *p == l || (unicode_width::UnicodeWidthStr::width(l) + 3 > width && l.starts_with(p) && unicode_width::UnicodeWidthStr::width(*p) + 4 > width)
        })
    }
}

impl Model {
    fn check(&mut self, s: &Screen, e: &Expected) -> Result<Seen, String> {
        let (w, h) = (self.width, s.height);
        ensure!(s.unknown.is_empty(), "unexpected output {:?}", s.unknown);
        // Headers
        let flat = e.layer.flat;
        let columns: Vec<(Key, usize, usize, &str)> = {
            let total = match e.unit {
                Unit::Total => "%Total",
                Unit::Parent => "%Parent",
                Unit::Time => "Time",
            };
            let own = match e.unit {
                Unit::Total => "Self%Tot",
                Unit::Parent => "Self%Par",
                Unit::Time => "SelfTime",
            };
            if flat {
                vec![(Key::Own, 0, 11, own), (Key::Text, 14, w - 2, "Activity")]
            } else {
                vec![(Key::Total, 0, 11, total), (Key::Own, 14, 25, "Self"), (Key::Text, 28, w - 2, "Activity")]
            }
        };
        let key = if flat && e.key == Key::Total { Key::Own } else { e.key };
        let mut down = None;
        for (k, from, to, name) in &columns {
            let header = s.text(0, *from..*to);
            let (title, mark) = header.split_once('[').unwrap_or((&header, ""));
            // On narrow screens the last header is cut
            let title = title.trim_end();
            ensure!(title == *name || (*k == Key::Text && w < 48 && name.starts_with(title)), "the header of a column is {header:?} instead of {name:?}");
            match mark.chars().next() {
                Some('v') | Some('^') if *k == key => down = Some(mark.starts_with('v')),
                Some(' ') if *k != key => {}
                None if *k == Key::Text && w < 48 => {}
                _ => fail!("the header {header:?} does not tell that rows are sorted by {key:?}"),
            }
        }
        // Parts of the screen
        let sep = (0..h).find(|y| s.row(*y).starts_with("─┤Selected activity├")).ok_or("no pane for the selected activity")?;
        let footer = self.footer();
        ensure!(sep + footer.len() < h, "no room for the selected activity");
        for (i, l) in footer.iter().enumerate() {
            let shown = s.row(h - footer.len() + i);
            ensure!(shown.trim() == l.trim(), "the footer has {:?} instead of {:?}", shown.trim(), l.trim());
        }
        let pane: Vec<String> = (sep + 1..h - footer.len()).map(|y| s.row(y)).collect();
        ensure!(sep >= 3 && s.row(1).starts_with("───"), "no table");
        let room = sep - 2;
        // Rows
        let items = e.layer.items(self);
        let visible = items.len().min(room);
        let whole = match e.unit {
            Unit::Total => Some(self.total()),
            Unit::Parent => Some(e.layer.whole),
            Unit::Time => None,
        };
        let cols = if flat { w as u16 - 16 } else { (w as u16).saturating_sub(31) };
        let mut texts = vec![];
        for i in &items {
            let t = self.one_line(*i, cols)?;
            texts.push(if flat {
                t
            } else if self.children[*i].is_empty() {
                format!(" {t}")
            } else {
                format!("+{t}")
            });
        }
        let durs: Vec<(f64, f64)> = items.iter().map(|i| (self.dur(*i), self.own[*i])).collect();
        let mut lit = vec![];
        let mut rows = vec![];
        for y in 2..2 + room {
            let cells: Vec<String> = columns.iter().map(|(_, a, b, _)| s.text(y, *a..*b).trim_end().to_string()).collect();
            if y - 2 >= visible {
                ensure!(cells.iter().all(|c| c.is_empty()), "unexpected row {cells:?} after the {visible} expected ones");
                continue;
            }
            if HIGHLIGHTS.contains(&s.style(y, 0).bg) {
                lit.push(y - 2);
            }
            rows.push(cells);
        }
        let hidden = e.hidden && lit.is_empty() && items.len() > visible;
        ensure!(lit.len() == 1 || hidden, "{} rows are highlighted, in a table of {}", lit.len(), items.len());
        let fit = |r: usize, i: usize| {
            rows[r].iter().zip(&columns).all(|(c, (k, ..))| match k {
                Key::Total => fits(c, durs[i].0, whole),
                Key::Own => fits(c, durs[i].1, whole),
                Key::Text => c == texts[i].trim_end(),
            })
        };
        for r in 0..rows.len() {
            ensure!((0..items.len()).any(|i| fit(r, i)), "no activity of this profile is shown as {:?} (they are {:?})", rows[r], texts.iter().zip(&durs).take(12).collect::<Vec<_>>());
        }
        // Order
        let mut directions = e.down.to_vec();
        if let Some(d) = down {
            ensure!(directions.contains(&d), "rows are sorted in the wrong direction, by {key:?}");
            directions = vec![d];
        }
        let compare = |a: usize, b: usize| match key {
            Key::Total => durs[a].0.total_cmp(&durs[b].0),
            Key::Own => durs[a].1.total_cmp(&durs[b].1),
            Key::Text => texts[a].cmp(&texts[b]),
        };
        let multi: Vec<(String, bool)> = items.iter().map(|i| self.several_lines(*i)).collect::<Result<_, _>>()?;
        let mut wrong = String::new();
        for d in directions {
            let mut order: Vec<usize> = (0..items.len()).collect();
            order.sort_by(|a, b| if d { compare(*b, *a) } else { compare(*a, *b) });
            // Ranges of equal activities
            let mut group = vec![(0, 0); order.len()];
            let mut from = 0;
            for i in 1..=order.len() {
                if i == order.len() || compare(order[i - 1], order[i]).is_ne() {
                    group[from..i].fill((from, i));
                    from = i;
                }
            }
            for top in 0..=items.len() - visible {
                let mut r = 0;
                let ok = loop {
                    if r >= visible {
                        break true;
                    }
                    let (a, b) = group[top + r];
                    let n = (b - top).min(visible) - r;
                    if !matches(n, b - a, &|row, act| fit(r + row, order[a + act])) {
                        wrong = format!("row {r} ({:?}) is not where sorting by {key:?} puts it", rows[r]);
                        break false;
                    }
                    r += n;
                };
                if !ok {
                    continue;
                }
                if hidden {
                    return Ok(Seen { down: d, selected: vec![], position: 0, visible: room });
                }
                let position = top + lit[0];
                if e.position.is_some_and(|p| p != position) {
                    wrong = format!("row {position} is selected instead of row {:?}", e.position);
                    continue;
                }
                let (a, b) = group[position];
                let mut selected: Vec<usize> = (a..b).filter(|p| fit(lit[0], order[*p])).map(|p| items[order[p]]).collect();
                if let Some(before) = e.selected {
                    selected.retain(|i| before.contains(i));
                    if selected.is_empty() {
                        wrong = "another activity is selected".into();
                        continue;
                    }
                }
                selected.retain(|i| items.iter().position(|x| x == i).is_some_and(|p| pane_shows(&pane, &multi[p].0, multi[p].1, w)));
                if selected.is_empty() {
                    wrong = format!("{pane:?} is not the description of the selected activity {:?}", rows[lit[0]]);
                    continue;
                }
                return Ok(Seen { down: d, selected, position, visible: room });
            }
        }
        Err(wrong)
    }
}

// ----------------------------------------------------------------- sessions

/// Interactive profile of a trace, along with what it should be
pub struct Profile<'a> {
    tui: &'a mut Tui,
    model: Model,
    layers: Vec<Layer>,
    unit: Unit,
    key: Key,
    /// Directions that sorting by `key` may have
    down: Vec<Down>,
    /// Direction in which the current profile is sorted
    shown: Down,
    /// Columns that have been sorted in their other direction
    turned: [bool; 3],
    /// Rows that fit on the screen
    room: usize,
    /// There is nothing below the profile
    pub alone: bool,
}
/// How activities are sorted, which outlives the profile of a trace
#[derive(Clone, Debug)]
pub struct Sorting {
    key: Key,
    down: Vec<Down>,
    turned: [bool; 3],
}
impl Default for Sorting {
    fn default() -> Self {
        Sorting { key: Key::Total, down: vec![true], turned: [false; 3] }
    }
}
impl<'a> Profile<'a> {
    pub fn sorted(self, s: Sorting) -> Self {
        Profile { key: s.key, down: s.down, turned: s.turned, ..self }
    }
    pub fn sorting(&self) -> Sorting {
        Sorting { key: self.key, down: self.down.clone(), turned: self.turned }
    }
    /// Press the escape key until the profile is left
    pub fn leave(&mut self) -> CaseResult {
        loop {
            let p = self.top().position;
            self.help(p)?;
            if self.layers.len() == 1 {
                self.tui.send_and_see(ESC);
                return Ok(());
            }
            self.back()?;
        }
    }
    fn back(&mut self) -> CaseResult {
        let left = self.layers.pop();
        self.tui.send_and_see(ESC);
        self.expect("after going back", true, None)?;
        let here = self.layers.clone();
        self.layers.extend(left);
        if self.shows() {
            std::thread::sleep(std::time::Duration::from_millis(300));
        }
        self.layers = here;
        Ok(())
    }
    pub fn new(tui: &'a mut Tui, model: Model) -> Self {
        let root = Layer { name: "<profile root>".into(), whole: model.total(), flat: false, direct: model.roots.clone(), selected: model.roots.clone(), position: 0, sorted: false };
        Profile { tui, model, layers: vec![root], unit: Unit::Total, key: Key::Total, down: vec![true], shown: true, turned: [false; 3], room: 0, alone: false }
    }
    /// Wait for the expected screen. Known: the selected activity stays the same, the position is known.
    pub fn expect(&mut self, what: &str, same: bool, position: Option<usize>) -> CaseResult {
        let Profile { tui, model, layers, unit, key, down, turned, .. } = self;
        let layer = layers.last().ok_or("no layer")?;
        let mut down = down.clone();
        let substitute = layer.flat && *key == Key::Total;
        if substitute {
            // Either the direction of the total time, or one in which self time was sorted
            down.push(true);
            if turned[1] {
                down.push(false);
            }
        }
        let e = Expected { layer, unit: *unit, key: *key, down: &down, selected: same.then_some(&layer.selected), position, hidden: layer.sorted };
        let seen = tui.wait(|s| model.check(s, &e)).map_err(|e| format!("{what}: {e}"))?;
        self.shown = seen.down;
        if substitute {
            self.turned[Key::Own as usize] |= !seen.down;
        }
        self.room = seen.visible;
        if !substitute {
            self.down = vec![seen.down];
        }
        let layer = self.layers.last_mut().ok_or("no layer")?;
        layer.selected = seen.selected;
        layer.position = seen.position;
        if std::mem::take(&mut layer.sorted) && layer.selected.is_empty() {
            self.tui.send_and_see(HOME);
            return self.expect("after going to the first row", false, Some(0));
        }
        Ok(())
    }
    fn top(&self) -> &Layer {
        &self.layers[self.layers.len() - 1]
    }
    /// Does the screen show the current profile right now?
    fn shows(&mut self) -> bool {
        let Profile { tui, model, layers, unit, key, .. } = self;
        layers.last().is_some_and(|layer| model.check(&tui.screen, &Expected { layer, unit: *unit, key: *key, down: &[true, false], selected: None, position: None, hidden: true }).is_ok())
    }
    fn help(&mut self, p: usize) -> CaseResult {
        // A dialog does not come on top of another one
        self.tui.send_and_see(["h", "hh", "hq", "hb"][p % 4]);
        self.tui.wait(|s| if s.squeezed().contains("Thefirstcolumn") || s.squeezed().contains("Availablecommands") { Ok(()) } else { Err("no help is shown".into()) })?;
        self.tui.send_and_see(ESC);
        self.expect("after closing the help", true, Some(p))
    }
    fn go(&mut self, m: Move) -> CaseResult {
        let n = self.top().items(&self.model).len();
        let p = self.top().position;
        let (keys, to) = match m {
            Move::Up(k) => (UP.repeat((k as usize).min(p)), p.saturating_sub(k as usize)),
            Move::Down(k) => {
                let to = (p + k as usize).min(n - 1);
                (DOWN.repeat(to - p), to)
            }
            Move::PageUp => (PAGE_UP.into(), p.saturating_sub(10)),
            Move::PageDown => (PAGE_DOWN.into(), (p + 10).min(n - 1)),
            Move::Home => (HOME.into(), 0),
            Move::End => (END.into(), n - 1),
        };
        if to == p {
            return Ok(());
        }
        self.tui.send_and_see(&keys);
        self.expect(&format!("after {m:?}"), false, Some(to))
    }
    /// Activity that may be zoomed on, if any
    fn zoomable(&self) -> Option<usize> {
        match &self.top().selected[..] {
            [i] if !self.top().flat && !self.model.children[*i].is_empty() => Some(*i),
            _ => None,
        }
    }
    fn enter(&mut self) -> CaseResult {
        let cols = (self.model.width as u16).saturating_sub(31);
        if self.top().selected.len() > 1 && !self.top().flat {
            return Ok(()); // Which one is selected cannot be told
        }
        let zoom = self.zoomable();
        self.tui.send_and_see(ENTER);
        if let Some(i) = zoom {
            let name = self.model.one_line(i, cols)?;
            let direct = self.model.children[i].clone();
            self.layers.push(Layer { name, whole: self.model.dur(i), flat: false, selected: direct.clone(), direct, position: 0, sorted: false });
            self.expect("after zooming", false, Some(0))
        } else {
            let p = self.top().position;
            self.expect("after pressing Enter on something without callees", true, Some(p))
        }
    }
    fn column(&self, k: Key) -> usize {
        match (self.top().flat, k) {
            (false, Key::Total) | (true, Key::Total | Key::Own) => 0,
            (false, Key::Own) | (true, Key::Text) => 1,
            (false, Key::Text) => 2,
        }
    }
    fn walk(&mut self, from: usize, to: usize) -> String {
        // The first key only enters the headers
        format!("{RIGHT}{}", if to >= from { RIGHT.repeat(to - from) } else { LEFT.repeat(from - to) })
    }
    pub fn step(&mut self, a: &Act, case: &mut Case) -> CaseResult {
        let p = self.top().position;
        match a {
            Act::Move(m) => self.go(*m)?,
            Act::ZoomInto(n) => {
                let layer = self.top();
                if layer.flat {
                    return Ok(());
                }
                let len = layer.items(&self.model).len();
                // Look for a row with callees, starting anywhere
                let mut at = *n as usize % len;
                for _ in 0..len.min(6) {
                    let p = self.top().position;
                    if at > p {
                        self.go(Move::Down((at - p).min(255) as u8))?;
                    } else if at < p {
                        self.go(Move::Up((p - at).min(255) as u8))?;
                    }
                    if self.zoomable().is_some() {
                        case.label("zoom");
                        return self.enter();
                    }
                    at = (self.top().position + 1) % len;
                }
            }
            Act::Enter => self.enter()?,
            Act::Back => {
                if self.layers.len() > 1 {
                    // A lone escape key must not be read along with other keys
                    self.help(p)?;
                    self.back()?;
                } else if self.alone {
                    case.label("escape key at the root");
                    self.tui.send_and_see(ESC);
                    std::thread::sleep(std::time::Duration::from_millis(60));
                    self.expect("after an escape key at the root", true, Some(p))?;
                }
            }
            Act::Unit => {
                self.unit = match self.unit {
                    Unit::Total => Unit::Parent,
                    Unit::Parent => Unit::Time,
                    Unit::Time => Unit::Total,
                };
                self.tui.send_and_see("u");
                self.expect("after changing units", true, Some(p))?;
            }
            Act::Flat => {
                let layer = self.layers.last_mut().ok_or("no layer")?;
                layer.flat = !layer.flat;
                case.label_if(layer.flat, "flat");
                layer.selected = layer.items(&self.model);
                self.tui.send_and_see("f");
                self.expect("after switching between flat and hierarchical", false, Some(0))?;
            }
            Act::Sort(k, times) => {
                let k = KEYS[*k as usize % 3];
                let k = if self.top().flat && k == Key::Total { Key::Own } else { k };
                let current = if self.top().flat && self.key == Key::Total { Key::Own } else { self.key };
                case.label("sort");
                let n = self.layers.len();
                self.layers[..n - 1].iter_mut().for_each(|l| l.sorted = true);
                let keys = self.walk(self.column(current), self.column(k));
                let first = if k == current {
                    vec![!self.shown]
                } else {
                    let default = k != Key::Text;
                    if self.turned[k as usize] {
                        // Tables that were made after that start from either
                        vec![default, !default]
                    } else {
                        vec![default]
                    }
                };
                self.key = k;
                self.down = first;
                if self.down.len() == 1 {
                    // All in one go
                    if times % 2 == 0 {
                        self.down[0] = !self.down[0];
                    }
                    self.tui.send_and_see(&format!("{keys}{}{UP}", ENTER.repeat(*times as usize)));
                } else {
                    self.tui.send_and_see(&format!("{keys}{ENTER}{UP}"));
                }
                if self.top().items(&self.model).len() > self.room {
                    // The selected row may be out of sight
                    self.tui.send_and_see(HOME);
                    self.expect("after sorting and going to the first row", false, Some(0))?;
                } else {
                    self.expect("after sorting", true, None)?;
                }
                self.turned[k as usize] |= self.down[0] != (k != Key::Text);
            }
            Act::Headers(n) => {
                self.tui.send_and_see(&format!("{RIGHT}{}{UP}{}", if n % 2 == 0 { LEFT.repeat(*n as usize) } else { RIGHT.repeat(*n as usize) }, back_in_sight(p, self.top().items(&self.model).len())));
                self.expect("after walking through the headers", true, Some(p))?;
            }
            Act::Backtrace(k) => {
                self.tui.send_and_see(["b", "bb", "bh", "b\x03"][p % 4]);
                self.tui.wait_for("Backtrace")?;
                let n = self.layers.len();
                let names: Vec<String> = self.layers.iter().rev().map(|l| l.name.clone()).collect();
                let room = self.model.width.min(40) - 16;
                let height = self.tui.screen.height;
                self.tui.wait(|s| {
                    let (y, _) = s.find("Backtrace").ok_or("no backtrace")?;
                    if n + 8 <= height {
                        for (i, name) in names.iter().enumerate() {
                            let name: String = name.chars().take(room / 2).collect();
                            ensure!((y + 1 + i..y + 3 + i).any(|y| s.row(y).contains(name.trim_end())), "the backtrace does not show {name:?} as line {i}");
                        }
                    }
                    Ok(())
                })?;
                let k = *k as usize % (n + 1);
                if k == n {
                    self.tui.send_and_see(ESC);
                } else {
                    case.label("backtrace");
                    self.tui.send_and_see(&format!("{}{ENTER}", DOWN.repeat(k)));
                    self.layers.truncate(n - k);
                }
                self.expect("after the backtrace", true, None)?;
            }
            Act::Help => {
                self.help(p)?;
            }
            Act::DoNotQuit => {
                self.tui.send_and_see(["q", "qq", "q\x03", "qh"][p % 4]);
                self.tui.wait_for("Ready to quit?")?;
                self.tui.send_and_see(&format!("{RIGHT}{ENTER}"));
                self.expect("after not quitting", true, Some(p))?;
            }
        }
        Ok(())
    }
}
/// Quit the program
pub fn quit(tui: &mut Tui, key: &str) -> CaseResult {
    tui.send_and_see(key);
    tui.wait_for("Ready to quit?")?;
    tui.send_and_see(ENTER);
    tui.end_well()
}
pub fn scratch(env: &Env, what: &str) -> std::path::PathBuf {
    env.scratch.join(format!("{what}{:?}", std::thread::current().id()).replace(['(', ')'], "-"))
}

fn check_session(env: &Env, s: &Session, case: &mut Case) -> CaseResult {
    let text = s.trace.text();
    let file = scratch(env, "t").with_extension("json");
    std::fs::write(&file, &text).map_err(|e| e.to_string())?;
    let mut command = Command::new(env.bins.join("crofiler"));
    command.args(["--ui", "tui"]).arg(&file);
    let r = run_session(env, command, &text, s, case);
    let _ = std::fs::remove_file(&file);
    r
}
fn run_session(env: &Env, command: Command, text: &str, s: &Session, case: &mut Case) -> CaseResult {
    let model = Model::new(&s.trace, text, s.width as usize)?;
    let mut tui = Tui::start(command, s.width as usize, s.height as usize, scratch(env, "e"))?;
    if s.trace.acts.is_empty() {
        // Nothing to show: the program must say so in some way, not crash
        tui.wait_for("Press H for help.")?;
        return quit(&mut tui, "q");
    }
    case.label_if(s.trace.acts.iter().all(|a| a.dur == 0), "no duration");
    let mut p = Profile::new(&mut tui, model);
    p.alone = true;
    p.expect("at first", false, Some(0))?;
    for a in &s.acts {
        p.step(a, case)?;
        case.evals += 1;
    }
    case.nontrivial = s.acts.len() >= 3 && s.trace.acts.len() >= 3;
    quit(&mut tui, if s.acts.len() % 2 == 0 { "q" } else { "\x03" })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Narrow {
    trace: Trace,
    width: u16,
    height: u16,
    keys: Vec<String>,
}
/// Whatever its size, a terminal does not make the program crash
fn check_narrow(env: &Env, s: &Narrow, case: &mut Case) -> CaseResult {
    let file = scratch(env, "t").with_extension("json");
    std::fs::write(&file, s.trace.text()).map_err(|e| e.to_string())?;
    let mut command = Command::new(env.bins.join("crofiler"));
    command.args(["--ui", "tui"]).arg(&file);
    let mut tui = Tui::start(command, s.width as usize, s.height as usize, scratch(env, "e"))?;
    let blank = tui.screen.dump();
    tui.wait(|s| if s.dump() == blank { Err("nothing is shown".into()) } else { Ok(()) })?;
    for k in &s.keys {
        tui.send_and_see(k);
        tui.pump(std::time::Duration::from_millis(15));
        case.evals += 1;
    }
    case.nontrivial = s.width < 31 && !s.keys.is_empty();
    // Dialogs cannot be recognised on such screens
    let start = std::time::Instant::now();
    loop {
        for k in ["q", ENTER] {
            tui.send_and_see(k);
            for _ in 0..10 {
                tui.pump(std::time::Duration::from_millis(10));
                if tui.ended().is_some() {
                    let _ = std::fs::remove_file(&file);
                    return tui.end_well();
                }
            }
        }
        ensure!(start.elapsed() < PATIENCE * 2, "the program does not end");
    }
}

pub fn props() -> Vec<Prop> {
    let tall = || select(vec![50u16, 60, 80]).boxed();
    let wide = || prop_oneof![(70u16..140), select(vec![80u16, 100, 200])].boxed();
    vec![Prop {
        id: "U02",
        assumptions: vec![
            "the text of descriptions and of the footer is computed by the library's own display functions on another copy of the trace; D04 and D05 say what it should be",
            "the terminal keeps its size; texts are free of control characters and of characters without width",
        ],
        subs: vec![
            Box::new(sub("distinct", "at least three actions on at least three activities", (320, 12_000), move |_| session(Style::Distinct, 48, wide(), tall(), 14), check_session).hang(120).shrink(40)),
            Box::new(sub("rich", "at least three actions on at least three activities", (120, 5_000), move |_| session(Style::Rich, 16, wide(), tall(), 12), check_session).hang(120).shrink(40)),
            Box::new(sub("small screen", "at least three actions on at least three activities", (200, 8_000), move |_| {
                prop_oneof![
                    session(Style::Distinct, 40, (60u16..100).boxed(), (14u16..24).boxed(), 12),
                    session(Style::Plain, 16, (32u16..60).boxed(), (14u16..24).boxed(), 12),
                ].boxed()
            }, check_session).hang(120).shrink(40)),
            Box::new(sub("tiny screen", "less than 31 columns and at least one key", (64, 2_000), move |_| {
                let keys = vec(select(vec!["u", "f", "b", "h", ENTER, UP, DOWN, LEFT, RIGHT, PAGE_DOWN, END, "\t"]).prop_map(|s| s.to_string()), 0..8);
                (trace::trace(Shape { depth: 3, size: 12, width: 3, roots: 3, rich: true }).prop_map(tamed), prop_oneof![3 => 1u16..32, 1 => 32u16..80], prop_oneof![1 => 1u16..12, 1 => 12u16..30], keys)
                    .prop_map(|(trace, width, height, keys)| Narrow { trace, width, height, keys })
                    .boxed()
            }, check_narrow).hang(120).shrink(40)),
        ],
    }]
}
