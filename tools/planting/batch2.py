exec(open("/tmp/plant/mk.py").read())
H=open("/verif/tools/planting/tuihelp.py").read()
bug("S03-terminator-bytes","S03","a report whose width leaves less room for the line on hidden callees than it has bytes, but enough for its columns",
 "the number of hidden callees and the threshold are replaced by an ellipsis though there is room for them",
 [("src/ui/stdio.rs","        if terminator.width() > child_cols.into() {","        if terminator.len() > child_cols.into() {")],
 demo_py=H+'''
events = [x("Frontend", 100 + i, 1, None) for i in range(3)] + [x("Source", 1000, 900000, "/a/b")] + [x("ExecuteCompiler", 2, 1000000)]
open(work + "/t.json", "w").write(trace(events))
for cols in range(1, 60):
    out = subprocess.run([crofiler, "--ui", "stdio", "-c", str(cols), work + "/t.json"], capture_output=True, text=True).stdout
    line = "…3 callee(s) below 0.50%…"
    check((line in out) == (cols >= 2 + len(line)), cols, out)
''')
bug("U02-parent-norm","U02","the percentages relative to the parent are shown before zooming into a callee",
 "percentages of the callee's profile are relative to the former parent",
 [("src/ui/tui/trace/display.rs","""            duration_display
        {
            *norm = parent_percent_norm;
        }
""","""            duration_display
        {
            if kind == ProfileKind::Flat {
                *norm = parent_percent_norm;
            }
        }
""")],
 demo_py=H+'''
open(work + "/t.json", "w").write(trace([x("RunPass", 210, 50, "foo"), x("OptFunction", 200, 100, "foo"), x("Frontend", 100, 400), x("ExecuteCompiler", 2, 1000)]))
t = Tui([crofiler, "--ui", "tui", work + "/t.json"], work)
t.wait("ExecuteCompiler")
t.send("u"); t.wait("%Parent")
t.send(ENTER); t.wait("Frontend"); t.send(ENTER); t.wait(lambda s: "foo" in s)
s = t.text()
check("25.00%" in s, s)
''')
bug("U02-sort-skips-root","U02","sorting in the profile of a callee and then going back to the first profile",
 "the first profile keeps its former order",
 [("src/ui/tui/trace/display.rs","            .take(num_past_views)\n","            .skip(1)\n            .take(num_past_views.saturating_sub(1))\n")],
 demo_py=H+'''
ev = [x("Frontend", 100, 400), x("Backend", 600, 100), x("RunPass", 110, 5, "foo"), x("OptFunction", 120, 50, "foo"), x("ExecuteCompiler", 2, 1000)]
open(work + "/t.json", "w").write(trace([x("RunPass", 110, 5, "foo"), x("OptFunction", 120, 50, "foo"), x("Frontend", 100, 400), x("Backend", 600, 100), x("ExecuteCompiler", 2, 1000)]))
t = Tui([crofiler, "--ui", "tui", work + "/t.json"], work)
t.wait("ExecuteCompiler"); t.send(ENTER); t.wait("Backend")
t.send(ENTER); t.wait("OptFunction")
t.send(RIGHT + LEFT + ENTER); t.wait("[^]")
t.send(ESC); t.wait("Backend")
t.send(ESC); t.wait(lambda s: "ExecuteCompiler" in s and "Backend" not in s); s = t.text()
check("[^]" in s, s)
''')
bug("U05-second-trace","U05","two traces shown one after the other in a session",
 "percentages of the second trace are relative to the duration of the first one",
 [("src/ui/tui/trace/load.rs","                            state.display_config.reset_duration_display();\n","")],
 demo_py=H+'''
os.mkdir(work + "/bin"); open(work + "/bin/clang++", "w").write("#!/bin/sh\\necho 'clang version 15.0.7'\\n"); os.chmod(work + "/bin/clang++", 0o755)
db = []
for n, d in (("a", 1000), ("b", 3000)):
    open(f"{work}/{n}.cpp", "w").write("")
    db.append({"directory": work, "command": f"clang++ -o {n}.o -c {n}.cpp", "file": f"{work}/{n}.cpp"})
open(work + "/compile_commands.json", "w").write(json.dumps(db))
'''+'''
open(work + "/cmakeperf.csv", "w").write("file,max_rss,time\\n\\"a.cpp\\",2000000000,\\n\\"b.cpp\\",1000000000,\\n")
for n, d in (("a", 1000), ("b", 3000)):
    open(f"{work}/{n}.json", "w").write(trace([x("Frontend", 100, 500), x("ExecuteCompiler", 2, d)]))
t = Tui([crofiler], work, env={"PATH": work + "/bin:" + os.environ["PATH"]})
t.wait("b.cpp"); t.send(ENTER); t.wait("ExecuteCompiler"); t.wait("100.00%")
t.send(ESC); t.wait("b.cpp"); t.send(DOWN + ENTER); s = t.wait(lambda s: "ExecuteCompiler" in s and "b.cpp" not in s)
check("100.00%" in s, s)
''')
bug("U03-partial-output","U03","an aborted compilation which has begun to write its trace, where there was none before",
 "the incomplete trace stays and is later taken for a good one",
 [("src/ui/tui/trace/measure.rs","""            .or_else(|_| std::fs::remove_file(&self.output))
        {
            Ok(()) => None,
            Err(e) if e.kind() == io::ErrorKind::NotFound => None,
            Err(other) => Some(format!("Failed to clean up after clang: {other}")),""","""        {
            Ok(()) => None,
            Err(e) if e.kind() == io::ErrorKind::NotFound => None,
            Err(other) => Some(format!("Failed to clean up after clang: {other}")),""")],
 demo_py=H+'''
os.mkdir(work + "/bin"); open(work + "/bin/clang++", "w").write("#!/bin/sh\\nif [ x$1 = x--version ]; then echo 'clang version 15.0.7'; exit; fi\\necho partial > a.json\\ntouch started\\nexec sleep 100\\n"); os.chmod(work + "/bin/clang++", 0o755)
open(f"{work}/a.cpp", "w").write("")
open(work + "/compile_commands.json", "w").write(json.dumps([{"directory": work, "command": "clang++ -o a.o -c a.cpp", "file": f"{work}/a.cpp"}]))
open(work + "/cmakeperf.csv", "w").write("file,max_rss,time\\n\\"a.cpp\\",2000000000,\\n")
t = Tui([crofiler], work, env={"PATH": work + "/bin:" + os.environ["PATH"]})
t.wait("a.cpp"); t.send(ENTER); t.wait(lambda s: "Measur" in s or "<Yes>" in s or "<No>" in s)
if "minimize" not in t.text(): t.send(ENTER)
t.wait("minimize")
for _ in range(100):
    if os.path.exists(work + "/started"): break
    t.pump()
t.send(ENTER); t.wait(lambda s: "minimize" not in s)
for _ in range(10): t.pump(0.1)
check(not os.path.exists(work + "/a.json"), os.listdir(work))
''')
bug("U04-abort-is-success","U04","a measurement aborted by the user while a former profile exists",
 "the former profile is deleted and an incomplete one is left in its place",
 [("src/ui/tui/build/measure.rs","                if result.is_ok() {\n","                if !matches!(result, Err(MeasureError::Job(_))) {\n")],
 demo_py=H+'''
os.mkdir(work + "/bin"); open(work + "/bin/clang++", "w").write("#!/bin/sh\\nif [ x$1 = x--version ]; then echo 'clang version 15.0.7'; exit; fi\\ntouch started\\nexec sleep 100\\n"); os.chmod(work + "/bin/clang++", 0o755)
open(f"{work}/a.cpp", "w").write("")
open(work + "/compile_commands.json", "w").write(json.dumps([{"directory": work, "command": f"{work}/bin/clang++ -o a.o -c a.cpp", "file": f"{work}/a.cpp"}]))
old = "file,max_rss,time\\n\\"a.cpp\\",2000000000,\\n"
open(work + "/cmakeperf.csv", "w").write(old); os.utime(work + "/cmakeperf.csv", (1, 1))
t = Tui([crofiler], work, env={"PATH": work + "/bin:" + os.environ["PATH"]})
t.wait("<Measure>"); t.send(RIGHT + ENTER); t.wait("minimize")
for _ in range(200):
    if os.path.exists(work + "/started"): break
    t.pump()
t.send(ENTER); t.ended(20)
check(os.path.exists(work + "/cmakeperf.csv") and open(work + "/cmakeperf.csv").read() == old, os.listdir(work), open(work + "/cmakeperf.csv").read())
''')
MEASURE='''use cmakeperf::{commands::{CompilationDatabase, DatabaseEntry}, measure::Measurement};
use std::{path::PathBuf, sync::mpsc};
#[allow(unused)]
fn measure(jobs: &[(&str, &str)]) -> (bool, String, PathBuf) {
    let dir = std::env::current_dir().unwrap();
    let out = dir.join("profile.csv");
    let db = CompilationDatabase::from_entries(jobs.iter().map(|(f, c)| DatabaseEntry::new(dir.clone(), *c, dir.join(f), None)));
    let (s, r) = mpsc::channel();
    let m = Measurement::start(&*out, &db, false, None, || {}, move |x: Result<(), _>| { s.send(x.is_ok()).unwrap() });
    let ok = r.recv().unwrap();
    drop(m);
    (ok, std::fs::read_to_string(&out).unwrap_or_default(), out)
}
'''
bug("B05-killed-by-signal","B05","a job that is killed by a signal",
 "the measurement succeeds though a job failed",
 [("cmakeperf/src/measure/worker.rs","    if !exit_status.success() {","    if exit_status.code().unwrap_or(0) != 0 {")],
 demo_rs=MEASURE+'''
fn main() {
    assert!(measure(&[("a.cpp", "sh -c 'exit 0'")]).0);
    assert!(!measure(&[("a.cpp", "sh -c 'exit 3'")]).0);
    assert!(!measure(&[("a.cpp", "sh -c 'kill -9 $$'")]).0);
}
''', deps=["cmakeperf"])
bug("B04-last-memory","B04","a job which frees most of its memory before its end",
 "the memory recorded is the last one observed instead of the peak",
 [("cmakeperf/src/measure/worker.rs","                max_rss_bytes = max_rss_bytes.max(tree.memory(&system));","                max_rss_bytes = tree.memory(&system);")],
 demo_rs=MEASURE+'''
fn main() {
    let (ok, csv, _) = measure(&[("a.cpp", "python3 -c 'import time; x = bytearray(300000000); time.sleep(2); del x; time.sleep(2)'")]);
    assert!(ok);
    let bytes: u64 = csv.lines().nth(1).unwrap().split(',').nth(1).unwrap().parse().unwrap();
    assert!(bytes > 280_000_000, "{csv}");
}
''', deps=["cmakeperf"])
bug("B02-link-time","B02","an input which is a symbolic link to a file that was modified after the product",
 "the outdated product is said to be fresh",
 [("cmakeperf/src/commands.rs","            if product_mtime < input.metadata()?.modified()? {","            if product_mtime < input.symlink_metadata()?.modified()? {")],
 demo_rs='''use cmakeperf::commands::*;
use std::{fs::File, time::{SystemTime, Duration}};
fn main() {
    let dir = std::env::current_dir().unwrap();
    std::fs::write("compile_commands.json", "[]").unwrap();
    std::fs::write("target.cpp", "").unwrap();
    std::os::unix::fs::symlink("target.cpp", "a.cpp").unwrap();
    std::fs::write("p.csv", "").unwrap();
    let old = SystemTime::now() - Duration::from_secs(1000);
    File::options().write(true).open("compile_commands.json").unwrap().set_modified(old).unwrap();
    File::options().write(true).open("target.cpp").unwrap().set_modified(SystemTime::now() + Duration::from_secs(1000)).unwrap();
    let db = CompilationDatabase::from_entries([DatabaseEntry::new(dir.clone(), "x", dir.join("a.cpp"), None)]);
    assert_eq!(db.profile_freshness("p.csv".as_ref()).unwrap(), ProductFreshness::Outdated);
}
''', deps=["cmakeperf"])
bug("U05-object-freshness","U05","a unit whose object file is newer than its source while its trace is older (or the other way round)",
 "the state of the object file is taken for that of the trace: an outdated trace is shown without a question",
 [("src/ui/tui/trace/measure.rs","    output.set_extension(\"json\");\n\n","\n"),
  ("src/ui/tui/trace/measure.rs","    let create_prompt = CreatePrompt::from_freshness(freshness, false);\n","    let create_prompt = CreatePrompt::from_freshness(freshness, false);\n    output.set_extension(\"json\");\n")],
 demo_py=H+'''
os.mkdir(work + "/bin"); open(work + "/bin/clang++", "w").write("#!/bin/sh\\necho 'clang version 15.0.7'\\n"); os.chmod(work + "/bin/clang++", 0o755)
open(f"{work}/a.cpp", "w").write(""); open(f"{work}/a.o", "w").write("")
open(work + "/compile_commands.json", "w").write(json.dumps([{"directory": work, "command": "clang++ -o a.o -c a.cpp", "file": f"{work}/a.cpp"}]))
open(work + "/cmakeperf.csv", "w").write("file,max_rss,time\\n\\"a.cpp\\",2000000000,\\n")
open(f"{work}/a.json", "w").write(trace([x("ExecuteCompiler", 2, 1000)])); os.utime(f"{work}/a.json", (1, 1))
t = Tui([crofiler], work, env={"PATH": work + "/bin:" + os.environ["PATH"]})
open(f"{work}/a.o", "w").write("")
t.wait("a.cpp"); t.send(ENTER); s = t.wait(lambda s: "<Measure>" in s or "Abort" not in s and "ExecuteCompiler" in s)
check("ExecuteCompiler" not in s, s)
''')
bug("T04-demangling-leftovers","T04","two mangled symbols parsed one after the other",
 "the second symbol is described as the concatenation of both",
 [("clang-time-trace/src/stats/activity/argument.rs","                demangling_buf.clear();\n","                if demangling_buf.ends_with(')') {\n                    demangling_buf.clear();\n                }\n")],
 demo_rs=open("/verif/tools/planting/batch1.py").read().split("TR='''")[1].split("'''")[0].replace('\\\\','\\')+'''
use std::str::FromStr;
fn main() {
    let mut t = clang_time_trace::ClangTrace::from_str(&trace(&format!("{},{},{}", x("OptFunction", 2, 5, "_ZTV3foo"), x("OptFunction", 10, 5, "_Z3barv"), x("ExecuteCompiler", 2, 50, "")))).unwrap();
    let mut shown = vec![];
    for i in 0..2 {
        let id = t.all_activities().nth(i).unwrap().id();
        let raw = t.activity_trace(id).activity().raw_argument().clone();
        let parsed = raw.parse(&mut t).unwrap();
        shown.push(match parsed.resolve(&t) { clang_time_trace::ActivityArgument::Symbol(s) => match s { clang_time_trace::Symbol::Parsed(p) => clang_time_trace::CustomDisplay::bounded_display(&p, 200), clang_time_trace::Symbol::Demangled(d) | clang_time_trace::Symbol::MaybeMangled(d) => d.to_string() }, _ => panic!() });
    }
    let s = shown.join(" ");
    println!("{s}");
    assert!(!s.contains("}bar"), "{s}");
}
''', deps=["clang-time-trace"])
