//! B01 (compilation databases), B02 (freshness), B03 (stored profiles), B04 and B05 (measuring a full build)

use cmakeperf::{
    commands::{CompilationDatabase, DatabaseEntry, DatabaseLoadError, ProductFreshness},
    measure::{MeasureError, Measurement, PollClock},
    output::{self, ProfileLoadError, UnitProfile},
};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use std::{
    collections::{BTreeMap, BTreeSet},
    fs,
    num::NonZeroUsize,
    os::unix::ffi::OsStrExt,
    panic::AssertUnwindSafe,
    path::{Path, PathBuf},
    sync::{
        atomic::{AtomicU64, AtomicUsize, Ordering},
        mpsc, Arc, Mutex,
    },
    time::{Duration, Instant, SystemTime},
};
use vcommon::{ensure, ensure_eq, fail, no_panic, sub, Case, CaseResult, Env, Prop};

/// Held by cases which depend on the working directory
static CWD: Mutex<()> = Mutex::new(());
static COUNTER: AtomicU64 = AtomicU64::new(0);

pub fn unique(env: &Env) -> PathBuf {
    let dir = env.scratch.join(format!("c{}", COUNTER.fetch_add(1, Ordering::Relaxed)));
    fs::create_dir_all(&dir).unwrap();
    dir.canonicalize().unwrap()
}
/// Scratch directory of a case, removed at its end
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(env: &Env) -> Self {
        Self(unique(env))
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

pub fn props() -> Vec<Prop> {
    vec![b01(), b02(), b03(), b04(), b05()]
}

// ---------------------------------------------------------------------------------------------------------------- B01

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Entry {
    dir: String,
    file: String,
    /// Arguments, with how each is quoted
    args: Vec<(String, Vec<u8>)>,
    seps: Vec<u8>,
    output: Option<String>,
    key_order: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Db {
    entries: Vec<Entry>,
    pretty: bool,
    ascii: bool,
}

fn word() -> impl Strategy<Value = String> {
    prop_oneof![
        3 => "[a-zA-Z0-9_./+=:,@%-]{0,12}",
        2 => "[ -~]{0,10}",
        1 => "[\\PC\n\t\"'\\\\$`#&|<>;*? é変]{0,8}",
        1 => prop::sample::select(vec!["-c", "-o", "-I", "-DX=\"a b\"", "-DY='q'", "", "--", "-oX", "#x", "a#b", "~", "$(x)", "\\", "-o "]).prop_map(str::to_string),
    ]
}
fn pathish() -> impl Strategy<Value = String> {
    prop_oneof![
        4 => "(/[a-zA-Z0-9_.+-]{1,8}){1,4}",
        1 => "(/[ -~é変]{1,6}){1,3}",
        1 => "[a-z]{1,4}(/[a-z.]{1,5}){0,3}",
        1 => prop::sample::select(vec!["/", ".", "..", "a/../b", "/a/./b", "a/", "//x"]).prop_map(str::to_string),
    ]
}
fn entry() -> impl Strategy<Value = Entry> {
    let out = prop_oneof![3 => Just(None), 1 => pathish().prop_map(Some)];
    let args = (
        vec((word(), vec(any::<u8>(), 1..4)), 0..10),
        prop_oneof![1 => Just(None), 2 => (any::<prop::sample::Index>(), pathish(), vec(any::<u8>(), 1..4)).prop_map(Some)],
    )
        .prop_map(|(mut a, o)| {
            if let Some((i, p, q)) = o {
                let i = i.index(a.len() + 1);
                a.insert(i, (p, q));
                a.insert(i, ("-o".into(), vec![0]));
            }
            a
        });
    (pathish(), pathish(), args, vec(any::<u8>(), 1..4), out, any::<u8>()).prop_map(|(dir, file, args, seps, output, key_order)| Entry { dir, file, args, seps, output, key_order })
}
fn db() -> impl Strategy<Value = Db> {
    (vec(entry(), 0..12), any::<bool>(), any::<bool>()).prop_map(|(mut entries, pretty, ascii)| {
        let mut seen = BTreeSet::new();
        entries.retain(|e| seen.insert(Path::new(&e.file).to_owned()));
        Db { entries, pretty, ascii }
    })
}

/// Quote a word for a POSIX shell, each of its pieces in its own style
fn quote(w: &str, style: &[u8]) -> String {
    if w.is_empty() {
        return if style[0] & 1 == 0 { "''".into() } else { "\"\"".into() };
    }
    let safe = |c: char| c.is_ascii_alphanumeric() || "_./+=:,@%-".contains(c) || !c.is_ascii() && !c.is_whitespace();
    let chars: Vec<char> = w.chars().collect();
    let piece = chars.len().div_ceil(style.len());
    let mut out = String::new();
    for (cs, st) in chars.chunks(piece).zip(style.iter()) {
        match st % 4 {
            // Bare whenever possible
            0 | 1 => {
                for &c in cs {
                    match c {
                        _ if safe(c) => out.push(c),
                        '\n' => out.push_str("'\n'"),
                        _ => {
                            out.push('\\');
                            out.push(c);
                        }
                    }
                }
            }
            2 => {
                out.push('"');
                for &c in cs {
                    if "\"\\$`".contains(c) {
                        out.push('\\');
                    }
                    out.push(c);
                }
                out.push('"');
            }
            _ => {
                out.push('\'');
                for &c in cs {
                    if c == '\'' {
                        out.push_str("'\\''");
                    } else {
                        out.push(c);
                    }
                }
                out.push('\'');
            }
        }
    }
    out
}

fn command(e: &Entry) -> String {
    let sep = |i: usize| [" ", "  ", "\t", " \t ", "\n"][(e.seps[i % e.seps.len()] % 5) as usize];
    let mut out = String::new();
    if e.seps[0] & 64 != 0 {
        out.push(' ');
    }
    for (i, (w, style)) in e.args.iter().enumerate() {
        if i > 0 {
            out.push_str(sep(i));
        }
        out.push_str(&quote(w, style));
    }
    if e.seps[0] & 128 != 0 {
        out.push(' ');
    }
    out
}

fn json_string(s: &str, ascii: bool) -> String {
    let mut out = serde_json::to_string(s).unwrap();
    if ascii {
        let mut esc = String::new();
        for c in out.chars() {
            if c.is_ascii() {
                esc.push(c);
            } else {
                let mut b = [0; 2];
                for u in c.encode_utf16(&mut b) {
                    esc.push_str(&format!("\\u{u:04x}"));
                }
            }
        }
        out = esc;
    }
    out
}

fn render(db: &Db) -> String {
    let (nl, ind) = if db.pretty { ("\n", "  ") } else { ("", "") };
    let items: Vec<String> = db
        .entries
        .iter()
        .map(|e| {
            let mut fields = vec![("directory", e.dir.clone()), ("command", command(e)), ("file", e.file.clone())];
            if let Some(o) = &e.output {
                fields.push(("output", o.clone()));
            }
            let n = fields.len();
            fields.rotate_left(e.key_order as usize % n);
            if e.key_order & 64 != 0 {
                fields.reverse();
            }
            let fields: Vec<String> = fields.iter().map(|(k, v)| format!("{ind}\"{k}\":{}", json_string(v, db.ascii)).replacen(':', if db.pretty { ": " } else { ":" }, 1)).collect();
            format!("{{{nl}{}{nl}}}", fields.join(&format!(",{nl}")))
        })
        .collect();
    format!("[{nl}{}{nl}]", items.join(&format!(",{nl}")))
}

/// Where the entry's output goes, computed from its parts
fn expected_output(e: &Entry) -> Option<PathBuf> {
    if let Some(o) = &e.output {
        return Some(o.into());
    }
    let pos = e.args.iter().skip(1).position(|(a, _)| a == "-o")? + 1;
    let target = &e.args.get(pos + 1)?.0;
    let name = Path::new(target).file_name()?.to_owned();
    let mut dir = PathBuf::from(&e.dir);
    if let Some(parent) = Path::new(target).parent() {
        dir = dir.join(parent);
    }
    Some(dir.canonicalize().unwrap_or(dir).join(name))
}

fn check_db(loaded: &CompilationDatabase, db: &Db, case: &mut Case) -> CaseResult {
    ensure_eq!(loaded.entries().count(), db.entries.len(), "number of entries");
    for e in &db.entries {
        let Some(got) = loaded.entry(Path::new(&e.file)) else { fail!("no entry for {:?}", e.file) };
        ensure_eq!(got.input(), Path::new(&e.file), "input file");
        ensure_eq!(got.current_dir(), Path::new(&e.dir), "directory of {:?}", e.file);
        let cmd = command(e);
        ensure_eq!(got.raw_command(), &cmd[..], "command of {:?}", e.file);
        ensure_eq!(got.program().map(|p| p.as_ref().to_string()), e.args.first().map(|a| a.0.clone()), "program of {cmd:?}");
        let args: Vec<String> = got.args().map(|a| a.as_ref().to_string()).collect();
        let expected: Vec<String> = e.args.iter().skip(1).map(|a| a.0.clone()).collect();
        ensure_eq!(args, expected, "arguments of {cmd:?}");
        ensure_eq!(got.output(), expected_output(e), "output of {cmd:?} in {:?}", e.dir);
        // (an entry is found by the path that it was given, not by other spellings or parts of it)
        let listed = |p: &str| db.entries.iter().any(|e| Path::new(&e.file) == Path::new(p));
        for part in e.file.char_indices().map(|(i, _)| i).skip(1).flat_map(|i| [&e.file[i..], &e.file[..i]]).chain([&*format!("/x/{}", e.file), &*format!("{}.x", e.file)]) {
            if !listed(part) {
                ensure!(loaded.entry(Path::new(part)).is_none(), "looking up {part:?} finds an entry, of {:?}", loaded.entry(Path::new(part)).map(|e| e.input().to_owned()));
            }
        }
        case.label_if(e.output.is_none() && got.output().is_some(), "output-from-arguments");
        case.label_if(e.output.is_some(), "explicit-output");
        case.label_if(e.args.is_empty(), "empty-command");
        case.evals += 1;
    }
    let inputs: BTreeSet<&Path> = loaded.entries().map(DatabaseEntry::input).collect();
    ensure_eq!(inputs.len(), db.entries.len(), "distinct entries");
    ensure!(loaded.entry(Path::new("/no/such file")).is_none(), "found an entry for a file that has none");
    Ok(())
}

/// Is this text a compilation database?
fn is_database(text: &[u8]) -> Option<bool> {
    let Ok(text) = std::str::from_utf8(text) else { return Some(false) };
    let Ok(v) = serde_json::from_str::<serde_json::Value>(text) else { return Some(false) };
    let Some(items) = v.as_array() else { return Some(false) };
    for i in items {
        // (structs may also be given as lists of their fields)
        if i.is_array() {
            return None;
        }
        let Some(o) = i.as_object() else { return Some(false) };
        let text = |k: &str| o.get(k).is_some_and(|v| v.is_string());
        if !(text("directory") && text("command") && text("file")) {
            return Some(false);
        }
        if !(o.get("output").is_none_or(|v| v.is_string() || v.is_null()) && o.keys().all(|k| ["directory", "command", "file", "output"].contains(&&k[..]))) {
            return Some(false);
        }
    }
    Some(true)
}

fn b01() -> Prop {
    Prop {
        id: "B01",
        assumptions: vec!["entries have distinct input files (of several commands for a file, one is kept)", "the output option is written -o FILE in two words, as CMake does"],
        subs: vec![
            Box::new(sub(
                "entries",
                "databases of 0-12 entries with random directories, files, quoted argument lists, separators, key orders and JSON layouts, parsed and compared field by field with what they were made from; non-trivial: at least two entries with three arguments or more",
                (48_000, 400_000),
                |_| db(),
                |_, db, case| {
                    case.nontrivial(db.entries.iter().filter(|e| e.args.len() >= 3).count() >= 2);
                    let text = render(db);
                    let loaded: CompilationDatabase = match no_panic(|| text.parse())? {
                        Ok(d) => d,
                        Err(e) => fail!("rejected: {e}: {text}"),
                    };
                    check_db(&loaded, db, case)?;
                    let single: Vec<DatabaseEntry> = db
                        .entries
                        .iter()
                        .map(|e| render(&Db { entries: vec![e.clone()], ..db.clone() }).trim().trim_start_matches('[').trim_end_matches(']').parse().map_err(|e| format!("{e}")))
                        .collect::<Result<_, _>>()?;
                    ensure!(CompilationDatabase::from_entries(single.clone()) == loaded, "databases made entry by entry differ");
                    let mut pushed = CompilationDatabase::new();
                    for s in single.into_iter().rev() {
                        pushed.push(s);
                    }
                    ensure!(pushed == loaded, "pushed databases differ");
                    Ok(())
                },
            )),
            Box::new(sub(
                "files",
                "databases loaded from the working directory, with outputs in real directories reached through links and .., there already or not, as files or links; absent, unreadable, damaged and non-UTF-8 files are reported as such; non-trivial: all (each case covers several)",
                (2_400, 12_000),
                |_| (db(), any::<u16>(), any::<u8>()),
                |env, (db, cut, how), case| {
                    let scratch = Scratch::new(env);
                    let base = &scratch.0;
                    for d in ["build/CMakeFiles/x.dir", "other"] {
                        fs::create_dir_all(base.join(d)).unwrap();
                    }
                    let _ = std::os::unix::fs::symlink(base.join("other"), base.join("build/link"));
                    // Some products are there already, some of them as links (which are not to be followed)
                    fs::write(base.join("other/real.o"), "").unwrap();
                    for (k, dir) in ["build", "other", "build/CMakeFiles/x.dir"].into_iter().enumerate() {
                        for (l, name) in ["a.o", "b.o", "c.o", "d.o", "e.o"].into_iter().enumerate() {
                            let path = base.join(dir).join(name);
                            match (*cut as usize / 6 + k * 2 + l) % 4 {
                                0 => fs::write(path, "").unwrap(),
                                1 => std::os::unix::fs::symlink(base.join("other/real.o"), path).unwrap(),
                                2 => std::os::unix::fs::symlink("nowhere", path).unwrap(),
                                _ => {}
                            }
                        }
                    }
                    let mut db = db.clone();
                    for (i, e) in db.entries.iter_mut().enumerate() {
                        if i % 3 != 2 {
                            e.dir = base.join(["build", "build/CMakeFiles/..", "build/link", "build/none"][(*how as usize + i) % 4]).display().to_string();
                            let target = ["CMakeFiles/x.dir/a.o", "link/../b.o", "c.o", "./d.o", "../other/e.o", "none/f.o"][(*cut as usize + i) % 6];
                            let at = 1.min(e.args.len());
                            if at == 0 {
                                e.args.push(("c++".into(), vec![0]));
                            }
                            e.args.insert(1, (target.into(), vec![0]));
                            e.args.insert(1, ("-o".into(), vec![0]));
                        }
                    }
                    let text = render(&db);
                    case.nontrivial(true);
                    let _cwd = CWD.lock().unwrap_or_else(|e| e.into_inner());
                    std::env::set_current_dir(base).unwrap();
                    ensure_eq!(CompilationDatabase::location(), Path::new("compile_commands.json"), "location");
                    ensure!(matches!(no_panic(CompilationDatabase::load)?, Err(DatabaseLoadError::FileNotFound)), "missing database");
                    fs::write("compile_commands.json", &text).unwrap();
                    match no_panic(CompilationDatabase::load)? {
                        Ok(l) => check_db(&l, &db, case)?,
                        Err(e) => fail!("rejected: {e}"),
                    }
                    // Damage
                    let mut bytes = text.into_bytes();
                    let at = *cut as usize % bytes.len();
                    match how % 4 {
                        0 => bytes.truncate(at),
                        1 => bytes[at] = 0xff,
                        2 => bytes.extend(b"x"),
                        _ => bytes.insert(at, b"]},\"x0"[*how as usize / 4 % 6]),
                    }
                    fs::write("compile_commands.json", &bytes).unwrap();
                    let got = no_panic(CompilationDatabase::load)?;
                    match is_database(&bytes) {
                        Some(valid) => ensure_eq!(got.is_ok(), valid, "acceptance of {:?}", String::from_utf8_lossy(&bytes)),
                        None => {}
                    }
                    ensure!(!matches!(got, Err(DatabaseLoadError::FileNotFound)), "damaged database taken for a missing one");
                    fs::remove_file("compile_commands.json").unwrap();
                    fs::create_dir("compile_commands.json").unwrap();
                    ensure!(matches!(no_panic(CompilationDatabase::load)?, Err(DatabaseLoadError::IoError(_))), "unreadable database");
                    Ok(())
                },
            )),
            Box::new(sub(
                "damaged",
                "JSON values next to a database (missing, extra, mistyped, repeated members; other top-level shapes), random JSON-like text and commands with unbalanced quotes: accepted exactly when they are databases, never a panic; non-trivial: rejected although valid JSON",
                (120_000, 800_000),
                |_| (db(), vec((any::<u16>(), any::<u8>()), 0..4), prop_oneof![3 => Just(None), 1 => "[\\[\\]{}\",:a-z0-9 ]{0,40}".prop_map(Some), 1 => word().prop_map(Some)]),
                |_, (db, edits, text), case| {
                    let mut v: serde_json::Value = serde_json::from_str(&render(db)).unwrap();
                    for (at, how) in edits {
                        if let Some(items) = v.as_array_mut() {
                            let n = items.len();
                            if n == 0 {
                                continue;
                            }
                            if how % 16 == 15 {
                                items[*at as usize % n] = serde_json::json!(null);
                            }
                            if how % 16 == 14 {
                                let x = items[0].clone();
                                v = x;
                                continue;
                            }
                            let Some(o) = items[*at as usize % n].as_object_mut() else { continue };
                            let key = ["directory", "command", "file", "output"][*at as usize % 4];
                            match how % 8 {
                                0 => drop(o.remove(key)),
                                1 => drop(o.insert(key.into(), serde_json::json!(1))),
                                2 => drop(o.insert(key.into(), serde_json::json!(null))),
                                3 => drop(o.insert("arguments".into(), serde_json::json!(["c++"]))),
                                4 => drop(o.insert(key.into(), serde_json::json!(["x"]))),
                                5 => drop(o.insert("command".into(), serde_json::json!("c++ 'a"))),
                                6 => drop(o.insert("command".into(), serde_json::json!("c++ \"a\\"))),
                                _ => drop(o.insert(key.to_uppercase(), serde_json::json!("x"))),
                            }
                        }
                    }
                    let doc = text.clone().unwrap_or_else(|| v.to_string());
                    let got = no_panic(|| doc.parse::<CompilationDatabase>())?;
                    if let Some(valid) = is_database(doc.as_bytes()) {
                        ensure_eq!(got.is_ok(), valid, "acceptance of {doc}");
                    }
                    case.nontrivial(got.is_err() && serde_json::from_str::<serde_json::Value>(&doc).is_ok());
                    case.label_if(got.is_ok(), "accepted");
                    if let Ok(d) = got {
                        for e in d.entries() {
                            no_panic(|| (e.program().is_some(), e.args().count(), e.output()))?;
                        }
                    }
                    Ok(())
                },
            )),
        ],
    }
}

// ---------------------------------------------------------------------------------------------------------------- B02

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fresh {
    /// Modification times relative to a common point, in nanoseconds; None when missing
    product: Option<i64>,
    db: Option<i64>,
    inputs: Vec<Option<i64>>,
    /// The common point, in seconds from now
    base: i32,
    link: bool,
    /// Whether the product and the database are behind links
    #[serde(default)]
    links: (bool, bool),
}

fn rel_time() -> impl Strategy<Value = i64> {
    prop_oneof![4 => -3i64..4, 2 => (-5i64..6).prop_map(|x| x * 1_000_000_000), 1 => (-1_000_000i64..1_000_000).prop_map(|x| x * 1_000_003), 1 => -1_000_000_000i64..1_000_000_000]
}
fn maybe(p: u32) -> impl Strategy<Value = Option<i64>> {
    prop_oneof![1 => Just(None), p => rel_time().prop_map(Some)]
}

fn touch(path: &Path, base: SystemTime, rel: Option<i64>) {
    let _ = fs::remove_file(path);
    let Some(rel) = rel else { return };
    let f = fs::File::create(path).unwrap();
    let t = if rel >= 0 { base + Duration::from_nanos(rel as u64) } else { base - Duration::from_nanos(rel.unsigned_abs()) };
    f.set_modified(t).unwrap();
    assert_eq!(path.metadata().unwrap().modified().unwrap(), t, "the scratch file system must keep nanoseconds");
}

fn fresh_case(dir: &Path, f: &Fresh, case: &mut Case) -> CaseResult {
    std::env::set_current_dir(dir).unwrap();
    let base = if f.base >= 0 { SystemTime::now() + Duration::from_secs(f.base as u64) } else { SystemTime::now() - Duration::from_secs(f.base.unsigned_abs() as u64) };
    let product = dir.join("product");
    // (links are from now, whatever they lead to)
    let behind = |link: bool, path: &Path, to: &str, t: Option<i64>| {
        if link {
            let _ = fs::remove_file(path);
            std::os::unix::fs::symlink(to, path).unwrap();
            touch(&dir.join(to), base, t);
        } else {
            touch(path, base, t);
        }
    };
    behind(f.links.0, &product, "real product", f.product);
    behind(f.links.1, Path::new("compile_commands.json"), "real database", f.db);
    let mut entries = vec![];
    for (i, t) in f.inputs.iter().enumerate() {
        let input = dir.join(format!("in{i}.cpp"));
        touch(&input, base, *t);
        let listed = if f.link && i % 2 == 0 {
            let l = dir.join(format!("ln{i}.cpp"));
            let _ = fs::remove_file(&l);
            std::os::unix::fs::symlink(&input, &l).unwrap();
            l
        } else {
            input
        };
        entries.push(DatabaseEntry::new(dir, "c++ -c x.cpp -o x.o", listed, None));
    }
    let database = CompilationDatabase::from_entries(entries.clone());
    let verdict = |deps: &[Option<i64>], got: std::io::Result<ProductFreshness>, before: SystemTime, what: &str| -> CaseResult {
        let after = SystemTime::now();
        let Some(p) = f.product else {
            ensure!(matches!(got, Ok(ProductFreshness::Nonexistent)), "{what}: a missing product is {got:?}");
            return Ok(());
        };
        let mtime = product.metadata().unwrap().modified().unwrap();
        let missing = f.db.is_none() || deps.iter().any(|d| d.is_none());
        let older = f.db.is_some_and(|d| p < d) || deps.iter().flatten().any(|&d| p < d);
        match got {
            Err(e) => ensure!(missing, "{what}: {e} although every file exists"),
            Ok(ProductFreshness::Nonexistent) => fail!("{what}: an existing product is taken for a missing one"),
            Ok(ProductFreshness::Outdated) => ensure!(older, "{what}: outdated, but nothing is newer: {f:?}"),
            Ok(ProductFreshness::MaybeOutdated(age)) => {
                ensure!(!missing, "{what}: looks fresh although something is missing: {f:?}");
                ensure!(!older, "{what}: looks fresh although something is newer: {f:?}");
                match age {
                    Some(age) => {
                        ensure!(mtime <= after, "{what}: age {age:?} of a product from the future");
                        let (lo, hi) = (before.duration_since(mtime).unwrap_or_default(), after.duration_since(mtime).unwrap_or_default());
                        ensure!(lo <= age && age <= hi, "{what}: age {age:?}, expected {lo:?} to {hi:?}");
                    }
                    None => ensure!(mtime > before, "{what}: no age for a product of the past"),
                }
            }
        }
        Ok(())
    };
    let before = SystemTime::now();
    let got = no_panic(|| database.profile_freshness(&product))?;
    if let Ok(g) = &got {
        ensure_eq!(g.exists(), f.product.is_some(), "exists()");
        case.label(match g {
            ProductFreshness::Nonexistent => "nonexistent",
            ProductFreshness::Outdated => "outdated",
            ProductFreshness::MaybeOutdated(Some(_)) => "maybe-outdated",
            ProductFreshness::MaybeOutdated(None) => "from-the-future",
        });
    } else {
        case.label("error");
    }
    verdict(&f.inputs, got, before, "profile")?;
    for (e, t) in entries.iter().zip(&f.inputs) {
        let before = SystemTime::now();
        let got = no_panic(|| e.derived_freshness(&product))?;
        verdict(&[*t], got, before, "trace")?;
        case.evals += 1;
    }
    case.nontrivial(f.product.is_some() && f.db.is_some() && f.inputs.iter().flatten().count() >= 2);
    Ok(())
}

fn b02() -> Prop {
    Prop {
        id: "B02",
        assumptions: vec!["the scratch file system keeps modification times to the nanosecond"],
        subs: vec![Box::new(sub(
            "mtimes",
            "products, databases and 0-6 inputs (any of them may be behind links or missing) with modification times which coincide, or differ by nanoseconds to days, in the past and in the future; verdicts and ages against the definition; non-trivial: everything but some inputs exists, and two inputs or more do",
            (36_000, 100_000),
            |_| {
                (maybe(9), maybe(15), vec(maybe(15), 0..6), prop_oneof![4 => -100_000i32..-3000, 1 => Just(-3), 1 => 3000i32..100_000], any::<bool>(), (prop::bool::weighted(0.2), prop::bool::weighted(0.1)))
                    .prop_map(|(product, db, inputs, base, link, links)| Fresh { product, db, inputs, base, link, links })
            },
            |env, f, case| {
                let scratch = Scratch::new(env);
                let _cwd = CWD.lock().unwrap_or_else(|e| e.into_inner());
                fresh_case(&scratch.0, f, case)
            },
        ))],
    }
}

// ---------------------------------------------------------------------------------------------------------------- B03

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Row {
    path: String,
    rss: u64,
    /// Text of the time cell
    time: Option<String>,
}

fn time_cell() -> impl Strategy<Value = Option<String>> {
    prop_oneof![
        2 => Just(None),
        6 => (0u32..100_000, 0u32..1000).prop_map(|(s, ms)| Some(format!("{s}.{ms:03}"))),
        2 => any::<u32>().prop_map(|b| Some(f32::from_bits(b & 0x7fff_ffff)).filter(|f| !f.is_nan()).map(|f| format!("{f}"))),
        1 => prop::sample::select(vec!["NaN", "inf", "-inf", "-1.5", "1e30", "3e38", "0", "-0.0", "1e-9", "18446744073709550000", "1.8e19", "2e19"]).prop_map(|s| Some(s.to_string())),
    ]
}
fn rows() -> impl Strategy<Value = Vec<Row>> {
    let path = prop_oneof![3 => "(\\.\\./)?[a-zA-Z0-9_./-]{1,20}", 2 => "[ -~]{0,12}", 1 => "[\\PC\"',\n\r\t;#é変 ]{0,10}"];
    vec((path, any::<u64>(), 0u8..64, time_cell()).prop_map(|(path, r, sh, time)| Row { path, rss: r >> sh, time }), 0..20)
}

fn csv_cell(s: &str, always: bool) -> String {
    // A lone empty cell and anything special is quoted; so is a carriage return, which would end a record
    if always || s.is_empty() || s.contains(['"', ',', '\n', '\r', '#']) {
        format!("\"{}\"", s.replace('"', "\"\""))
    } else {
        s.to_string()
    }
}

fn check_unit(u: &UnitProfile, r: &Row) -> CaseResult {
    ensure_eq!(u.rel_path().as_os_str().as_bytes(), r.path.as_bytes(), "path");
    ensure_eq!(u.max_rss_bytes(), r.rss, "peak memory of {:?}", r.path);
    let time = no_panic(|| u.wall_time())?;
    match (&r.time, time) {
        (None, None) => {}
        (Some(t), Some(got)) => {
            let exact: f32 = t.parse().unwrap();
            // Durations end just before 2^64 seconds; a time of that very length may go either way
            if exact == 18446744073709551616.0 {
                return Ok(());
            }
            let valid = exact.is_finite() && exact >= 0.0 && exact < 18446744073709551616.0;
            match got {
                Ok(d) => {
                    ensure!(valid, "time {t} of {:?} is taken for {d:?}", r.path);
                    let expected = exact as f64;
                    ensure!((d.as_secs_f64() - expected).abs() <= 1.0e-9 + 1.2e-7 * expected.min(1.0) + expected * 1e-15, "time {t} of {:?} is taken for {d:?}", r.path);
                }
                Err(f) => {
                    ensure!(!valid, "time {t} of {:?} is taken for invalid", r.path);
                    ensure!(f.to_bits() == exact.to_bits() || f.is_nan() && exact.is_nan(), "invalid time {t} is reported as {f}");
                }
            }
        }
        (e, g) => fail!("time of {:?}: got {g:?}, expected {e:?}", r.path),
    }
    Ok(())
}

fn b03() -> Prop {
    Prop {
        id: "B03",
        assumptions: vec!["a time of exactly 2^64 seconds may be taken for valid or invalid"],
        subs: vec![
            Box::new(sub(
                "tables",
                "tables of 0-20 units with hostile paths, sizes over 64 bits, valid and invalid times, either line ending, optional quotes, extra and permuted columns, with and without a time column; written to a file and loaded; non-trivial: two rows or more of which one path needs quoting or one time is invalid",
                (60_000, 200_000),
                |_| (rows(), any::<bool>(), any::<bool>(), any::<bool>(), 0u8..6, any::<bool>()),
                |env, (rows, crlf, quote, last_newline, order, timed), case| {
                    let scratch = Scratch::new(env);
                    let path = scratch.0.join("p.csv");
                    let eol = if *crlf { "\r\n" } else { "\n" };
                    let mut cols = vec!["file", "max_rss"];
                    if *timed {
                        cols.push("time");
                    }
                    if order % 3 == 1 {
                        cols.reverse();
                    } else if order % 3 == 2 {
                        cols.insert(1, "extra");
                    }
                    let mut text = cols.join(",");
                    for r in rows {
                        text.push_str(eol);
                        let cells: Vec<String> = cols
                            .iter()
                            .map(|c| match *c {
                                "file" => csv_cell(&r.path, *quote),
                                "max_rss" => r.rss.to_string(),
                                "time" => r.time.clone().unwrap_or_default(),
                                _ => "x y".into(),
                            })
                            .collect();
                        text.push_str(&cells.join(","));
                    }
                    if *last_newline {
                        text.push_str(eol);
                    }
                    fs::write(&path, &text).unwrap();
                    let loaded = match no_panic(|| output::load(&path))? {
                        Ok(p) => p,
                        Err(e) => fail!("rejected: {e}: {text:?}"),
                    };
                    ensure_eq!(loaded.len(), rows.len(), "number of units of {text:?}");
                    for (u, r) in loaded.iter().zip(rows) {
                        let mut r = r.clone();
                        if !timed {
                            r.time = None;
                        }
                        check_unit(u, &r)?;
                        case.evals += 1;
                    }
                    case.nontrivial(rows.len() >= 2 && rows.iter().any(|r| r.path.contains(['"', ',', '\n', '\r']) || r.time.as_ref().is_some_and(|t| t.parse::<f32>().unwrap() < 0.0 || !t.parse::<f32>().unwrap().is_finite())));
                    case.label_if(*timed, "timed");
                    Ok(())
                },
            )),
            Box::new(sub(
                "written",
                "profiles of units made with the constructor, written as the measurement does and loaded again; non-trivial: two units or more",
                (60_000, 200_000),
                |_| vec(("[ -~é変\n\r\"]{0,12}", any::<u64>(), prop_oneof![Just(None), any::<(u32, u32)>().prop_map(Some)]), 0..12),
                |env, units, case| {
                    let scratch = Scratch::new(env);
                    let path = scratch.0.join("p.csv");
                    let time = |t: &Option<(u32, u32)>| t.map(|(s, n)| Duration::new(s as u64, n % 1_000_000_000));
                    let mut w = csv::Writer::from_path(&path).unwrap();
                    for (p, r, t) in units {
                        if let Err(e) = w.serialize(UnitProfile::new(PathBuf::from(p), *r, time(t))) {
                            fail!("cannot write {p:?}: {e}");
                        }
                    }
                    w.flush().unwrap();
                    drop(w);
                    let loaded = match no_panic(|| output::load(&path))? {
                        Ok(p) => p,
                        Err(e) => fail!("rejected: {e}"),
                    };
                    ensure_eq!(loaded.len(), units.len(), "number of units");
                    for (u, (p, r, t)) in loaded.iter().zip(units) {
                        ensure_eq!(u.rel_path(), Path::new(p), "path");
                        ensure_eq!(u.max_rss_bytes(), *r, "peak memory");
                        match (time(t), u.wall_time()) {
                            (None, None) => {}
                            (Some(a), Some(Ok(b))) => ensure!((a.as_secs_f64() - b.as_secs_f64()).abs() <= 1e-9 + a.as_secs_f64() * 1.2e-7, "time {a:?} is read back as {b:?}"),
                            (a, b) => fail!("time {a:?} is read back as {b:?}"),
                        }
                        case.evals += 1;
                    }
                    case.nontrivial(units.len() >= 2);
                    Ok(())
                },
            )),
            Box::new(sub(
                "damaged",
                "tables with a damaged header, cell or row, bytes that are not UTF-8, and files that cannot be read: rejected as malformed; absent files: reported as absent; non-trivial: a damaged row after a good one",
                (60_000, 200_000),
                |_| (rows(), 0u8..12, any::<u16>()),
                |env, (rows, how, at), case| {
                    let scratch = Scratch::new(env);
                    let path = scratch.0.join("p.csv");
                    match no_panic(|| output::load(&path))? {
                        Err(ProfileLoadError::FileNotFound) => {}
                        other => fail!("absent file: {other:?}"),
                    }
                    let mut rows = rows.clone();
                    if rows.is_empty() {
                        rows.push(Row { path: "a.cpp".into(), rss: 1, time: None });
                    }
                    let n = rows.len();
                    let at = *at as usize % n;
                    let mut header = "file,max_rss,time".to_string();
                    let mut lines: Vec<Vec<u8>> = rows.iter().map(|r| format!("{},{},{}", csv_cell(&r.path, true), r.rss, r.time.clone().unwrap_or_default()).into_bytes()).collect();
                    match how {
                        0 => header = "file,max_rs,time".into(),
                        1 => header = "path,max_rss,time".into(),
                        2 => lines[at] = b"x".to_vec(),
                        3 => lines[at] = b"x,-1,".to_vec(),
                        4 => lines[at] = b"x,1.5,".to_vec(),
                        5 => lines[at] = b"x,99999999999999999999999,1".to_vec(),
                        6 => lines[at] = b"x,1,soon".to_vec(),
                        7 => lines[at] = b"x,1,2,3".to_vec(),
                        8 => lines[at] = b"\xff\xfe,1,2".to_vec(),
                        9 => lines[at] = b"x,,1".to_vec(),
                        10 => lines[at] = b"x,1".to_vec(),
                        _ => {}
                    }
                    if *how == 11 {
                        fs::create_dir(&path).unwrap();
                    } else {
                        let mut text = header.into_bytes();
                        for l in lines {
                            text.push(b'\n');
                            text.extend(l);
                        }
                        fs::write(&path, text).unwrap();
                    }
                    match no_panic(|| output::load(&path))? {
                        Err(ProfileLoadError::ParseError(_)) => {}
                        other => fail!("damage {how}: {other:?}"),
                    }
                    case.label(format!("damage-{how}"));
                    case.nontrivial(*how >= 2 && at > 0);
                    Ok(())
                },
            )),
        ],
    }
}

// ------------------------------------------------------------------------------------------------------ B04 and B05

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Job {
    /// What the job does, in the syntax of vh-job
    ops: Vec<String>,
    /// Awkward argument it must receive unchanged
    arg: String,
    /// Where the input is, relative to the case's directory (or absolute)
    file: String,
    /// How the job is broken, if it is
    broken: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Build {
    jobs: Vec<Job>,
    concurrency: Option<u8>,
    measure_time: bool,
    /// Cancel: after some starts, after some progress, after some milliseconds
    cancel: Option<(u8, u16)>,
    /// Where the profile goes: a file, or somewhere it cannot go
    target: u8,
}

fn job_exe() -> PathBuf {
    std::env::current_exe().unwrap().with_file_name("vh-job")
}

struct Running {
    dir: PathBuf,
    tag: String,
    csv: PathBuf,
    steps: Arc<AtomicUsize>,
    done: mpsc::Receiver<Result<(), MeasureError>>,
    dones: Arc<AtomicUsize>,
    started: Instant,
    measurement: Option<Measurement>,
}

impl Running {
    fn log(&self) -> Vec<String> {
        fs::read_to_string(self.dir.join("log")).unwrap_or_default().lines().map(str::to_string).collect()
    }
    fn starts(&self) -> usize {
        self.log().iter().filter(|l| l.starts_with("S ")).count()
    }
    /// Processes of this case (which log their identifiers) that are still there
    fn alive(&self) -> Vec<String> {
        let mut out = vec![];
        for line in self.log() {
            let pid = line.split(' ').nth(2).unwrap_or("");
            if line.starts_with(['S', 'C']) && pid.parse::<u32>().is_ok() {
                let cmd = fs::read(format!("/proc/{pid}/cmdline")).unwrap_or_default();
                if cmd.split(|&b| b == 0).any(|a| a.starts_with(self.tag.as_bytes())) {
                    out.push(format!("{pid}: {}", String::from_utf8_lossy(&cmd).replace('\0', " ")));
                }
            }
        }
        out
    }
    fn kill_leftovers(&self) {
        for p in self.alive() {
            let _ = std::process::Command::new("kill").args(["-9", p.split(':').next().unwrap()]).status();
        }
    }
    /// Wait until none of its processes is left
    fn gone(&self, limit: Duration) -> CaseResult {
        let t0 = Instant::now();
        let mut quiet = false;
        loop {
            let alive = self.alive();
            if alive.is_empty() {
                // Leave time to log for processes which just started
                if quiet {
                    return Ok(());
                }
                quiet = true;
                std::thread::sleep(Duration::from_millis(60));
                continue;
            }
            quiet = false;
            if t0.elapsed() > limit {
                let msg = format!("{} process(es) still run {limit:?} later: {}; log {:?}", alive.len(), alive[0], self.log());
                self.kill_leftovers();
                return Err(msg);
            }
            std::thread::sleep(Duration::from_millis(10));
        }
    }
    fn wait_until(&self, limit: Duration, mut cond: impl FnMut(&Self) -> bool) -> bool {
        let t0 = Instant::now();
        while !cond(self) {
            if t0.elapsed() > limit {
                return false;
            }
            std::thread::sleep(Duration::from_millis(3));
        }
        true
    }
}
impl Drop for Running {
    fn drop(&mut self) {
        // (jobs of a cancelled or failed measurement are dealt with before)
        self.measurement.take();
        self.kill_leftovers();
        let _ = fs::remove_dir_all(&self.dir);
    }
}

fn input_of(dir: &Path, i: usize, j: &Job) -> PathBuf {
    // One input per job
    dir.join(format!("{}{i}.cpp", j.file))
}

/// Path of `to` relative to `from`, both absolute and without . or ..
fn relative(to: &Path, from: &Path) -> PathBuf {
    let (t, f): (Vec<_>, Vec<_>) = (to.components().collect(), from.components().collect());
    let common = t.iter().zip(&f).take_while(|(a, b)| a == b).count();
    let mut out = PathBuf::new();
    for _ in common..f.len() {
        out.push("..");
    }
    for c in &t[common..] {
        out.push(c);
    }
    out
}

fn start(env: &Env, b: &Build) -> Running {
    start_polling(env, b, 50)
}
fn start_polling(env: &Env, b: &Build, interval: u64) -> Running {
    PollClock::set_polling_interval(Duration::from_millis(interval));
    let dir = unique(env);
    let tag = format!("vhtag-{}-{}-", std::process::id(), dir.file_name().unwrap().to_string_lossy());
    fs::create_dir_all(dir.join("work dir")).unwrap();
    std::os::unix::fs::symlink(job_exe(), dir.join("a compiler")).unwrap();
    let entries = b.jobs.iter().enumerate().map(|(i, j)| {
        let hex: String = j.arg.bytes().map(|b| format!("{b:02x}")).collect();
        let exe = match j.broken {
            1 => dir.join("no such compiler").display().to_string(),
            2 => dir.display().to_string(),
            _ => dir.join("a compiler").display().to_string(),
        };
        let mut words = vec![exe, "../log".into(), i.to_string(), tag.clone()];
        words.extend(j.ops.iter().cloned());
        words.extend(["arg".into(), hex, j.arg.clone()]);
        match j.broken {
            4 => words.push("exit:1".into()),
            5 => words.push("exit:77".into()),
            6 => words.push("abort".into()),
            7 => words.extend(["err:300".to_string(), "exit:2".into()]),
            _ => {}
        }
        let command = if j.broken == 3 { String::new() } else { words.iter().map(|w| quote(w, &[3])).collect::<Vec<_>>().join(" ") };
        let work = if j.broken == 8 { dir.join("no such dir") } else { dir.join("work dir") };
        DatabaseEntry::new(work, command, input_of(&dir, i, j), None)
    });
    let db = CompilationDatabase::from_entries(entries);
    let csv = match b.target {
        1 => dir.join("none/p.csv"),
        2 => dir.join("work dir"),
        3 => "/dev/full".into(),
        _ => dir.join("p.csv"),
    };
    let steps = Arc::new(AtomicUsize::new(0));
    let dones = Arc::new(AtomicUsize::new(0));
    let (send, done) = mpsc::channel();
    let started = Instant::now();
    let measurement = {
        let (steps, dones) = (AssertUnwindSafe(steps.clone()), dones.clone());
        Measurement::start(
            csv.clone(),
            &db,
            b.measure_time,
            NonZeroUsize::new(WORKERS.load(Ordering::SeqCst)).or(b.concurrency.and_then(|c| NonZeroUsize::new(c as usize))),
            move || {
                let steps = &steps;
                steps.fetch_add(1, Ordering::SeqCst);
            },
            move |r| {
                dones.fetch_add(1, Ordering::SeqCst);
                let _ = send.send(r);
            },
        )
    };
    Running { dir, tag, csv, steps, done, dones, started, measurement: Some(measurement) }
}

/// Largest number of jobs running at the same time according to the log
fn overlap(log: &[String]) -> usize {
    let (mut cur, mut max) = (0usize, 0);
    for l in log {
        match l.as_bytes()[0] {
            b'S' => {
                cur += 1;
                max = max.max(cur);
            }
            b'E' => cur = cur.saturating_sub(1),
            _ => {}
        }
    }
    max
}

const MB: u64 = 1_000_000;
/// How long what a job leaves behind lasts, in milliseconds
const LINGER: u64 = 6000;

/// A measurement which must succeed. `rerun`: jobs may be killed for lack of memory, then run again
fn success(env: &Env, b: &Build, limit: Duration, rerun: bool, case: &mut Case) -> CaseResult {
    let mut run = start(env, b);
    let result = match run.done.recv_timeout(limit) {
        Ok(r) => r,
        Err(_) => {
            let msg = format!("not done after {limit:?}, log {:?}", run.log().iter().rev().take(10).collect::<Vec<_>>());
            run.kill_leftovers();
            return Err(msg);
        }
    };
    let total = run.started.elapsed();
    if let Err(e) = result {
        let msg = format!("failed with {e:?} ({e}), log {:?}", run.log().iter().rev().take(10).collect::<Vec<_>>());
        drop(run);
        return Err(msg);
    }
    run.measurement.take();
    run.gone(Duration::from_secs(15))?;
    ensure_eq!(run.dones.load(Ordering::SeqCst), 1, "completion notifications");
    ensure_eq!(run.steps.load(Ordering::SeqCst), b.jobs.len(), "progress notifications");
    let log = run.log();
    RERUNS.store(0, Ordering::SeqCst);
    for (i, _) in b.jobs.iter().enumerate() {
        let ends = log.iter().filter(|l| **l == format!("E {i}")).count();
        let starts = log.iter().filter(|l| l.starts_with(&format!("S {i} "))).count();
        if rerun {
            ensure!(ends >= 1, "job {i} never ran to its end");
            RERUNS.fetch_add(starts - 1, Ordering::SeqCst);
        } else {
            ensure_eq!(starts, 1, "starts of job {i}");
            ensure_eq!(ends, 1, "ends of job {i}");
        }
    }
    if let (Some(c), false) = (b.concurrency, rerun) {
        let max = overlap(&log);
        ensure!(max <= c as usize, "{max} jobs at the same time instead of {c}: {log:?}");
        case.label_if(max == c as usize && c > 1, "full-parallelism");
    }
    // Rows
    let profile = output::load(&run.csv).map_err(|e| format!("cannot load the profile: {e}"))?;
    let own = fs::read_to_string("/proc/self/status").unwrap().lines().find_map(|l| l.strip_prefix("VmHWM:")).and_then(|l| l.trim().trim_end_matches("kB").trim().parse::<u64>().ok()).unwrap() * 1024;
    let cwd = std::env::current_dir().unwrap();
    let mut rows: BTreeMap<PathBuf, &UnitProfile> = BTreeMap::new();
    for u in &profile {
        ensure!(rows.insert(u.rel_path().to_owned(), u).is_none(), "two rows for {:?}", u.rel_path());
    }
    ensure_eq!(rows.len(), b.jobs.len(), "number of rows");
    for (i, j) in b.jobs.iter().enumerate() {
        let rel = relative(&input_of(&run.dir, i, j), &cwd);
        let Some(u) = rows.get(&rel) else { fail!("no row for {rel:?} among {:?}", rows.keys()) };
        let num = |s: &str| s.parse::<u64>().unwrap();
        let sleep: u64 = j.ops.iter().filter_map(|o| o.strip_prefix("sleep:")).map(num).sum();
        match u.wall_time() {
            None => ensure!(!b.measure_time, "no time for {rel:?}"),
            Some(Err(f)) => fail!("time of {rel:?} is {f}"),
            Some(Ok(t)) => {
                ensure!(b.measure_time, "unexpected time for {rel:?}");
                let lingers = j.ops.iter().any(|o| o.starts_with("linger:"));
                ensure!(!lingers || t <= Duration::from_millis(sleep + LINGER - 2000), "job {i} took {t:?}, but it sleeps {sleep} ms and leaves behind something that lasts {LINGER} ms");
                ensure!(t >= Duration::from_millis(sleep).mul_f64(0.999) && t <= total.mul_f64(1.001) + Duration::from_millis(1), "job {i} took {t:?}, but it sleeps {sleep} ms and everything took {total:?}");
            }
        }
        let (hog, processes) = j.ops.iter().map(|o| memory_of(o)).max().unwrap_or((0, 0));
        let rss = u.max_rss_bytes();
        // (between its fork and its exec, a job is as big as this process; shorter ones may go unseen)
        ensure!(rss <= (hog + 30 + 10 * processes) * MB + own, "job {i} used {rss} bytes, expected at most {hog} MB and a little ({own})");
        if hog > 0 && !rerun {
            ensure!(rss >= hog * MB * 9 / 10, "job {i} used {rss} bytes, expected {hog} MB");
            case.label("memory-hog");
        }
    }
    Ok(())
}

/// Megabytes that an operation uses at once, and processes that it takes
fn memory_of(op: &str) -> (u64, u64) {
    let Some((op, val)) = op.split_once(':') else { return (0, 0) };
    let v: Vec<u64> = val.split('x').map_while(|n| n.parse().ok()).collect();
    match (op, &v[..]) {
        ("hog", [mb, _]) => (*mb, 0),
        ("hogchild", [mb, _]) => (*mb, 1),
        ("hogmany", [n, mb, _]) => (n * mb, *n),
        ("hogdeep", [n, mb, _]) => (*mb, *n),
        _ => (0, 0),
    }
}
fn quiet_op() -> impl Strategy<Value = String> {
    prop_oneof![
        3 => (0u32..25).prop_map(|ms| format!("sleep:{ms}")),
        1 => Just("stdin".to_string()),
        2 => (prop::sample::select(vec!["out", "err", "bin"]), prop_oneof![4 => 1u32..200, 2 => 65_000u32..66_000, 2 => 100_000u32..1_500_000]).prop_map(|(w, n)| format!("{w}:{n}")),
    ]
}
fn quiet_job() -> impl Strategy<Value = Job> {
    let file = prop_oneof![3 => "[a-z]{1,5}", 1 => "[a-z]{1,3}/[a-z é変,\"'-]{1,6}", 1 => Just("/usr/include/x".to_string()), 1 => Just("work dir/u".to_string())];
    let arg = prop_oneof!["[ -~]{0,12}", "[\\PC\n\"'\\\\$*? ]{0,6}"];
    (vec(quiet_op(), 0..4), arg, file).prop_map(|(ops, arg, file)| Job { ops, arg, file, broken: 0 })
}
fn build(jobs: impl Strategy<Value = Vec<Job>>) -> impl Strategy<Value = Build> {
    (jobs, prop_oneof![1 => Just(None), 6 => (1u8..7).prop_map(Some)], any::<bool>()).prop_map(|(jobs, concurrency, measure_time)| Build { jobs, concurrency, measure_time, cancel: None, target: 0 })
}

fn b04() -> Prop {
    Prop {
        id: "B04",
        assumptions: vec!["jobs are stand-ins for compilers which log their starts and ends, check their arguments and working directory, print, sleep and use memory as told", "a job may be taken for as big as the harness for an instant", "the machine lets a job which sleeps be observed at least once in 0.7 s"],
        subs: vec![
            Box::new(sub(
                "builds",
                "builds of 0-14 jobs which sleep a little, read standard input and print up to megabytes of text or binary data, on 1-6 workers or the default, with or without times; jobs may need to meet as many others as there are workers; non-trivial: more jobs than workers, two workers or more",
                (360, 4_000),
                |_| (build(vec(quiet_job(), 0..14)), any::<bool>()),
                |env, (b, meet), case| {
                    let mut b = b.clone();
                    let n = b.jobs.len();
                    if let Some(c) = b.concurrency {
                        case.nontrivial(c >= 2 && n > c as usize);
                        if *meet {
                            for j in &mut b.jobs {
                                j.ops.push(format!("meet:{}", (c as usize).min(n)));
                            }
                            case.label("meet");
                        }
                    }
                    case.label_if(b.jobs.iter().any(|j| j.ops.iter().any(|o| o.split_once(':').is_some_and(|(w, n)| ["out", "err", "bin"].contains(&w) && n.parse::<u32>().unwrap() > 65_536))), "much-output");
                    success(env, &b, Duration::from_secs(40), false, case)
                },
            ).shrink(60).hang(120)),
            Box::new(sub(
                "memory",
                "builds in which some jobs use 60-300 MB for 0.7 s, themselves, in a child process, in 2-4 of them at the same time or in a descendant of up to the sixth generation, after up to 200 quick jobs; the recorded peaks are those; non-trivial: all",
                (24, 160),
                |_| (vec((60u32..300, 0u8..10), 1..3), prop_oneof![Just(0usize), 100usize..200], 1u8..4, any::<bool>()),
                |env, (hogs, quick, c, measure_time), case| {
                    let mut jobs = vec![Job { file: "q".into(), ..Job::default() }; *quick];
                    for (mb, how) in hogs {
                        // Quick jobs come first
                        let mut ops = if *quick > 0 { vec![format!("meet:{}", quick + 1)] } else { vec![] };
                        ops.push(match how {
                            0 | 1 => format!("hog:{mb}x700"),
                            2 | 3 => format!("hogchild:{mb}x700"),
                            4..=6 => format!("hogmany:{}x{mb}x700", how - 2),
                            _ => format!("hogdeep:{}x{mb}x700", 2 * (how - 6)),
                        });
                        case.label(["itself", "child", "several children", "distant descendant"][if *how < 4 { *how as usize / 2 } else if *how < 7 { 2 } else { 3 }]);
                        jobs.push(Job { ops, file: "h".into(), ..Job::default() });
                    }
                    let b = Build { jobs, concurrency: Some(c + hogs.len() as u8), measure_time: *measure_time, cancel: None, target: 0 };
                    case.nontrivial(true);
                    case.label_if(*quick > 0, "after-quick-jobs");
                    success(env, &b, Duration::from_secs(60), false, case)
                },
            ).shards(4).shrink(6).hang(120)),
            Box::new(sub(
                "left-behind",
                "builds of 1-3 jobs, some of which end while something they have started keeps their output open for 6 s: the recorded time is that of the job; non-trivial: all",
                (8, 80),
                |_| (vec((0u16..300, 0u32..5000, any::<bool>()), 1..4), any::<u8>()),
                |env, (jobs, at), case| {
                    let at = *at as usize % jobs.len();
                    let jobs = jobs.iter().enumerate().map(|(i, (ms, out, linger))| {
                        let mut ops = vec![format!("sleep:{ms}"), format!("out:{out}")];
                        if *linger || i == at {
                            ops.push(format!("linger:{LINGER}"));
                        }
                        Job { ops, file: "l".into(), ..Job::default() }
                    });
                    let b = Build { jobs: jobs.collect(), concurrency: Some(3), measure_time: true, cancel: None, target: 0 };
                    case.nontrivial(true);
                    success(env, &b, Duration::from_secs(60), false, case)
                },
            ).shards(8).shrink(3).hang(120)),
            Box::new(sub(
                "scarce-memory",
                "builds with so many workers that the reserve asked for each exceeds the memory which is available, so that some workers are stopped and their jobs given to others: every job still gets its row; non-trivial: some job was started again, or there are fewer jobs than workers",
                (12, 60),
                |_| (70u16..300, 20u16..300, prop_oneof![1 => Just(None), 1 => (2u64..20).prop_map(Some), 2 => (1u64..3).prop_map(Some)]),
                |env, &(extra, ms, few), case| {
                    let avail = fs::read_to_string("/proc/meminfo").unwrap().lines().find_map(|l| l.strip_prefix("MemAvailable:")).and_then(|l| l.trim().trim_end_matches("kB").trim().parse::<u64>().ok()).unwrap() * 1024;
                    let workers = avail / (100 * MB) + extra as u64;
                    if workers > 1500 {
                        case.label("too-much-memory");
                        return Ok(());
                    }
                    let jobs: Vec<Job> = (0..few.unwrap_or(workers + 30)).map(|i| Job { ops: vec![format!("sleep:{}", 150 + ms as u64 * (i % 3))], file: "j".into(), ..Job::default() }).collect();
                    let b = ManyBuild { jobs, workers: workers as usize };
                    scarce(env, &b, case)
                },
            ).shards(1).shrink(1).hang(200)),
        ],
    }
}

struct ManyBuild {
    jobs: Vec<Job>,
    workers: usize,
}
fn scarce(env: &Env, m: &ManyBuild, case: &mut Case) -> CaseResult {
    let b = Build { jobs: m.jobs.clone(), concurrency: None, measure_time: false, cancel: None, target: 0 };
    WORKERS.store(m.workers, Ordering::SeqCst);
    let res = success(env, &b, Duration::from_secs(60), true, case);
    WORKERS.store(0, Ordering::SeqCst);
    case.nontrivial(RERUNS.load(Ordering::SeqCst) > 0 || m.jobs.len() < m.workers);
    case.label_if(RERUNS.load(Ordering::SeqCst) > 0, "jobs-started-again");
    res
}
static WORKERS: AtomicUsize = AtomicUsize::new(0);
static RERUNS: AtomicUsize = AtomicUsize::new(0);

/// Job that lasts for a minute, and may ignore requests to end
fn long_job(deaf: bool) -> Job {
    let mut ops = vec!["sleep:60000".to_string()];
    if deaf {
        ops.push("deaf".into());
    }
    Job { ops, file: "long".into(), ..Job::default() }
}

fn b05() -> Prop {
    Prop {
        id: "B05",
        assumptions: vec!["a cancelled measurement is given 8 s, and its processes 5 s more, to go away"],
        subs: vec![
            Box::new(sub(
                "failures",
                "builds of 1-10 jobs of which at least one has no program, a missing or unusable program or directory, a failing status or a fatal signal, while others may sleep for a minute on workers of their own, or whose profile cannot be written: the measurement ends soon, with an error, and leaves no process; non-trivial: a failing job among others",
                (300, 3_000),
                |_| (build(vec(quiet_job(), 1..10)), vec((any::<u16>(), 1u8..9), 1..3), 0usize..3, prop_oneof![4 => Just(0u8), 1 => 1u8..4], prop::bool::weighted(0.2)),
                |env, (b, broken, long, target, deaf), case| {
                    let mut b = b.clone();
                    b.target = *target;
                    let mut kinds = BTreeSet::new();
                    if *target == 0 {
                        for (at, how) in broken {
                            let n = b.jobs.len();
                            b.jobs[*at as usize % n].broken = *how;
                        }
                        for j in &b.jobs {
                            match j.broken {
                                0 => {}
                                1 | 2 | 8 => drop(kinds.insert("SpawnFailed")),
                                3 => drop(kinds.insert("NoProgram")),
                                _ => drop(kinds.insert("JobFailed")),
                            }
                        }
                        case.nontrivial(b.jobs.len() > kinds.len());
                        for _ in 0..*long {
                            b.jobs.push(long_job(*deaf));
                        }
                        case.label_if(*deaf && *long > 0, "deaf");
                        b.concurrency = Some(b.concurrency.unwrap_or(2).max(*long as u8 + 1));
                        case.label_if(*long > 0, "others-busy");
                    } else {
                        case.label(["", "no-directory", "directory", "full-disk"][*target as usize]);
                    }
                    let mut run = start(env, &b);
                    let result = run.done.recv_timeout(Duration::from_secs(20));
                    let Ok(result) = result else {
                        let msg = format!("no result after 20 s; log {:?}", run.log());
                        run.kill_leftovers();
                        return Err(msg);
                    };
                    run.measurement.take();
                    ensure_eq!(run.dones.load(Ordering::SeqCst), 1, "completion notifications");
                    match result {
                        Ok(()) => fail!("success is reported"),
                        Err(MeasureError::Job(e)) if *target == 0 => {
                            let e = format!("{e:?}");
                            let kind = e.split('(').next().unwrap();
                            ensure!(kinds.contains(kind), "{e} is reported, expected one of {kinds:?}");
                            case.label(kind);
                        }
                        Err(MeasureError::Csv(_) | MeasureError::Io(_)) if *target != 0 => {}
                        Err(e) => fail!("{e:?} is reported"),
                    }
                    ensure!(run.steps.load(Ordering::SeqCst) <= b.jobs.len() - kinds.len().min(1), "progress notifications");
                    run.gone(Duration::from_secs(5))
                },
            ).shrink(30).hang(120)),
            Box::new(sub(
                "cancellation",
                "builds of quick jobs and of jobs which sleep for a minute, some with up to three levels of descendants, cancelled at once, after some starts, after some progress or after 0-300 ms: the cancellation is reported and no process is left; non-trivial: cancelled while jobs were running",
                (300, 3_000),
                |_| (build(vec(quiet_job(), 0..8)), 1usize..5, vec(0u8..4, 5), 0u8..4, any::<u16>(), prop::bool::weighted(0.2)),
                |env, (b, long, forks, how, at, deaf), case| {
                    let mut b = b.clone();
                    let workers = b.concurrency.unwrap_or(3) as usize;
                    b.concurrency = Some(workers as u8);
                    for i in 0..*long {
                        let mut ops = vec!["sleep:60000".to_string()];
                        // Descendants only when the moment is one at which they all exist
                        if *how == 0 && forks[i % forks.len()] > 0 {
                            ops.push(format!("fork:{}", forks[i % forks.len()]));
                            case.label("descendants");
                        } else if *deaf {
                            ops.push("deaf".into());
                            case.label("deaf");
                        }
                        b.jobs.push(Job { ops, file: "long".into(), ..Job::default() });
                    }
                    let mut run = start(env, &b);
                    match how {
                        // Once only long jobs run, on all workers or all of them
                        0 => {
                            let want = (*long).min(workers);
                            let ok = run.wait_until(Duration::from_secs(30), |r| {
                                let log = r.log();
                                log.iter().filter(|l| l.starts_with("S ") && l.split(' ').nth(1).unwrap().parse::<usize>().unwrap() >= b.jobs.len() - long).count() >= want
                            });
                            if !ok {
                                let msg = format!("only {:?} after 30 s", run.log());
                                run.kill_leftovers();
                                return Err(msg);
                            }
                        }
                        1 => {
                            let want = *at as usize % workers.min(b.jobs.len()) + 1;
                            run.wait_until(Duration::from_secs(10), |r| r.starts() >= want);
                        }
                        2 => std::thread::sleep(Duration::from_micros(*at as u64 * 5)),
                        _ => {}
                    }
                    let running = run.alive().len();
                    case.nontrivial(running > 0);
                    let t0 = Instant::now();
                    run.measurement.take();
                    let took = t0.elapsed();
                    if took > Duration::from_secs(8) {
                        run.kill_leftovers();
                        fail!("cancellation took {took:?}");
                    }
                    ensure_eq!(run.dones.load(Ordering::SeqCst), 1, "completion notifications");
                    match run.done.try_recv() {
                        Ok(Err(MeasureError::Killed)) => {}
                        other => fail!("{other:?} is reported"),
                    }
                    run.gone(Duration::from_secs(5))
                },
            ).shrink(30).hang(120)),
            Box::new(sub(
                "cancellation-amid-many",
                "builds of 1500-3000 quick jobs, cancelled early: the cancellation takes effect soon, and the remaining jobs are not run; non-trivial: some jobs were done by then",
                (48, 400),
                |_| (1500usize..3000, 1u8..5, 0usize..40, any::<bool>()),
                |env, &(jobs, workers, after, measure_time), case| {
                    let b = Build { jobs: vec![Job { file: "q".into(), ..Job::default() }; jobs], concurrency: Some(workers), measure_time, cancel: None, target: 0 };
                    let mut run = start(env, &b);
                    if !run.wait_until(Duration::from_secs(30), |r| r.steps.load(Ordering::SeqCst) >= after) {
                        run.kill_leftovers();
                        fail!("less than {after} quick jobs are done after 30 s");
                    }
                    case.nontrivial(after > 0);
                    let before = run.steps.load(Ordering::SeqCst);
                    let t0 = Instant::now();
                    run.measurement.take();
                    let took = t0.elapsed();
                    ensure!(took <= Duration::from_secs(4), "cancellation took {took:?}");
                    ensure!(matches!(run.done.try_recv(), Ok(Err(MeasureError::Killed))), "the cancellation is not reported");
                    run.gone(Duration::from_secs(5))?;
                    let starts = run.starts();
                    ensure!(starts <= before + 300, "{starts} jobs out of {jobs} were run, although the measurement was cancelled after {before} of them");
                    Ok(())
                },
            ).shards(2).shrink(6).hang(120)),
            Box::new(sub(
                "late-descendants",
                "a job which starts up to three levels of descendants while a measurement which looks at its jobs every half second is being cancelled: the descendants go away like the job; non-trivial: they existed more than 0.3 s before the job was gone",
                (32, 300),
                |_| (1u64..4, 0u64..500, 0u64..400, any::<bool>()),
                |env, &(depth, wait, after, measure_time), case| {
                    let b = Build { jobs: vec![Job { ops: vec![format!("latefork:{depth}"), "sleep:60000".into()], file: "late".into(), ..Job::default() }], concurrency: Some(1), measure_time, cancel: None, target: 0 };
                    let mut run = start_polling(env, &b, 500);
                    if !run.wait_until(Duration::from_secs(20), |r| r.starts() == 1) {
                        run.kill_leftovers();
                        fail!("the job has not started after 20 s");
                    }
                    std::thread::sleep(Duration::from_millis(600 + wait));
                    let measurement = run.measurement.take();
                    let cancel = std::thread::spawn(move || {
                        drop(measurement);
                        Instant::now()
                    });
                    std::thread::sleep(Duration::from_millis(after));
                    fs::write(run.dir.join("go"), "").unwrap();
                    let there = run.wait_until(Duration::from_secs(2), |r| r.log().iter().filter(|l| l.starts_with("C ")).count() as u64 == depth);
                    let since = Instant::now();
                    let Ok(until) = cancel.join() else { fail!("the cancellation panics") };
                    ensure!(matches!(run.done.try_recv(), Ok(Err(MeasureError::Killed))), "the cancellation is not reported");
                    if !there || until.saturating_duration_since(since) < Duration::from_millis(300) {
                        // (the job may have been looked at before it started them)
                        case.label("too-late");
                        run.kill_leftovers();
                        return Ok(());
                    }
                    case.nontrivial(true);
                    run.gone(Duration::from_secs(5))
                },
            ).shrink(3).hang(120)),
            Box::new(sub(
                "full-disk",
                "builds of 12-30 quick jobs whose rows do not fit in a buffer, and whose profile goes to a full disk, while another job sleeps for a minute: the measurement ends soon, with an error, and leaves no process; non-trivial: all",
                (24, 200),
                |_| (12usize..30, 1u8..4, any::<bool>()),
                |env, &(quick, workers, deaf), case| {
                    // Deep directory names, which need not exist
                    let file = format!("{}/x", vec!["d".repeat(200); 6].join("/"));
                    let mut jobs = vec![Job { file, ..Job::default() }; quick];
                    jobs.push(long_job(deaf));
                    let b = Build { jobs, concurrency: Some(workers + 1), measure_time: false, cancel: None, target: 3 };
                    case.nontrivial(true);
                    let mut run = start(env, &b);
                    let Ok(result) = run.done.recv_timeout(Duration::from_secs(20)) else {
                        run.kill_leftovers();
                        fail!("no result after 20 s");
                    };
                    run.measurement.take();
                    ensure!(matches!(result, Err(MeasureError::Csv(_) | MeasureError::Io(_))), "{result:?} is reported");
                    run.gone(Duration::from_secs(5))
                },
            ).shards(2).shrink(6).hang(120)),
            Box::new(sub(
                "cancellation-after-many",
                "builds in which hundreds of quick jobs are followed by some which sleep for a minute, cancelled during these: the cancellation takes effect soon and no process is left; non-trivial: all",
                (12, 80),
                |_| (200usize..350, 1u8..4, 1u8..3, any::<bool>()),
                |env, &(quick, long, extra, measure_time), case| {
                    let mut jobs = vec![Job { file: "q".into(), ..Job::default() }; quick];
                    for _ in 0..long {
                        jobs.push(Job { ops: vec!["sleep:60000".into()], file: "long".into(), ..Job::default() });
                    }
                    let b = Build { jobs, concurrency: Some(long + extra), measure_time, cancel: None, target: 0 };
                    let mut run = start(env, &b);
                    case.nontrivial(true);
                    if !run.wait_until(Duration::from_secs(60), |r| r.steps.load(Ordering::SeqCst) == quick && r.starts() == quick + long as usize) {
                        let msg = format!("{} of {quick} quick jobs are done after 60 s", run.steps.load(Ordering::SeqCst));
                        run.kill_leftovers();
                        return Err(msg);
                    }
                    let t0 = Instant::now();
                    run.measurement.take();
                    let took = t0.elapsed();
                    if took > Duration::from_secs(4) {
                        run.kill_leftovers();
                        fail!("cancellation took {took:?}");
                    }
                    ensure!(matches!(run.done.try_recv(), Ok(Err(MeasureError::Killed))), "the cancellation is not reported");
                    run.gone(Duration::from_secs(5))
                },
            ).shards(2).shrink(3).hang(200)),
        ],
    }
}
