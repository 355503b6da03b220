exec(open("/tmp/plant/mk.py").read())
H=open("/verif/tools/planting/tuihelp.py").read()
TR='''fn trace(events: &str) -> String {
    format!("{{\\"traceEvents\\":[{events},{{\\"ph\\":\\"M\\",\\"pid\\":1,\\"tid\\":0,\\"ts\\":0,\\"cat\\":\\"\\",\\"name\\":\\"process_name\\",\\"args\\":{{\\"name\\":\\"clang\\"}}}}]}}")
}
fn x(name: &str, ts: f64, dur: f64, detail: &str) -> String {
    let args = if detail.is_empty() { String::new() } else { format!(",\\"args\\":{{\\"detail\\":\\"{detail}\\"}}") };
    format!("{{\\"ph\\":\\"X\\",\\"pid\\":1,\\"tid\\":0,\\"ts\\":{ts},\\"dur\\":{dur},\\"name\\":\\"{name}\\"{args}}}")
}
use std::str::FromStr;
use clang_time_trace::ClangTrace;
'''
COMPDB='''
os.mkdir(work + "/bin")
def compiler(body): open(work + "/bin/clang++", "w").write("#!/bin/sh\\nif [ x$1 = x--version ]; then echo 'clang version 15.0.7'; exit; fi\\n" + body); os.chmod(work + "/bin/clang++", 0o755)
def unit(name, directory=None, command=None):
    open(f"{work}/{name}.cpp", "w").write("")
    return {"directory": directory or work, "command": command or f"clang++ -o {name}.o -c {work}/{name}.cpp", "file": f"{work}/{name}.cpp"}
def database(*units): open(work + "/compile_commands.json", "w").write(json.dumps(units))
env = {"PATH": work + "/bin:" + os.environ["PATH"]}
'''
bug("U01-narrower-again","U01","a wide request for descriptions, then a narrower one for the same activities",
 "the descriptions are those of the wider request",
 [("src/ui/tui/processing.rs","if max_cols != last_max_cols {","if max_cols > last_max_cols {")],
 demo_rs=TR+'''
use crofiler::verif::ProcessingThread;
fn main() {
    let a = std::env::current_dir().unwrap().join("a.json");
    std::fs::write(&a, trace(&x("RunPass", 2.0, 10.0, "abcdefghijklmnop"))).unwrap();
    let mut t = ProcessingThread::start();
    let (s, r) = std::sync::mpsc::channel();
    t.start_load_trace(&a, move |x| s.send(x.is_ok()).unwrap());
    assert!(r.recv().unwrap());
    assert_eq!(&*t.describe_activities(vec![0].into(), 40)[0], "RunPass(abcdefghijklmnop)");
    assert_eq!(t.describe_activities(vec![0].into(), 20)[0].chars().count(), 20);
}
''', deps=['crofiler = { path = "lib" }', "clang-time-trace"])
bug("U02-flat-total-order","U02","sorting by total duration in increasing order, then opening the flat view",
 "the flat view is sorted by self-duration in the order of another column",
 [("src/ui/tui/trace/display.rs","    let mut sort_config = display_config.sort_config;\n","    let mut sort_config = display_config.sort_config;\n    let order = sort_config.order[sort_config.key as usize];\n"),
  ("src/ui/tui/trace/display.rs","        sort_config.order[sort_config.key as usize],\n    );\n","        order,\n    );\n")],
 demo_py=H+'''
open(work + "/t.json", "w").write(trace([x("Frontend", 100, 400), x("Backend", 600, 100), x("ExecuteCompiler", 2, 1000)]))
t = Tui([crofiler, "--ui", "tui", work + "/t.json"], work)
t.wait("ExecuteCompiler"); t.send(ENTER); t.wait("Backend")
t.send(LEFT); t.send(LEFT); t.send(LEFT); t.send(ENTER)
s = t.wait(lambda s: "Backend" in s and s.index("Backend") < s.index("Frontend"))
t.send(ESC); t.wait(lambda s: "Backend" not in s)
t.send("f"); s = t.wait(lambda s: "Self%Tot" in s and "Backend" in s)
check(s.index("ExecuteCompiler") < s.index("Frontend") < s.index("Backend"), s)
''')
bug("U02-sort-last-only","U02","sorting in a table which is two levels or more below another one",
 "the tables further up keep their old order",
 [("src/ui/tui/trace/display.rs","            .take(num_past_views)\n","            .take(num_past_views)\n            .skip(num_past_views.saturating_sub(1))\n")],
 demo_py=H+'''
open(work + "/t.json", "w").write(trace([x("RunPass", 130, 10, "foo"), x("OptFunction", 120, 50, "foo"), x("Frontend", 100, 400), x("Backend", 600, 100), x("ExecuteCompiler", 2, 1000)]))
t = Tui([crofiler, "--ui", "tui", work + "/t.json"], work)
t.wait("ExecuteCompiler"); t.send(ENTER); t.wait("Backend")
t.send(ENTER); t.wait("OptFunction")
t.send(ENTER); t.wait("RunPass")
t.send(LEFT); t.send(LEFT); t.send(LEFT); t.send(ENTER); t.wait(lambda s: True)
t.send(ESC); t.wait("OptFunction")
t.send(ESC); s = t.wait("Backend")
check(s.index("Backend") < s.index("Frontend"), s)
''')
bug("U02-backtrace-root","U02","going back to the root with the backtrace, then zooming again and sorting",
 "the program crashes",
 [("src/ui/tui/init.rs","state.profile_stack.truncate(idx + 1)","state.profile_stack.truncate((*idx).max(1) + 1)")],
 demo_py=H+'''
open(work + "/t.json", "w").write(trace([x("OptFunction", 120, 50, "foo"), x("Frontend", 100, 400), x("Backend", 600, 100), x("ExecuteCompiler", 2, 1000)]))
t = Tui([crofiler, "--ui", "tui", work + "/t.json"], work)
t.wait("ExecuteCompiler"); t.send(ENTER); t.wait("Backend"); t.send(ENTER); t.wait("OptFunction")
t.send("b"); t.wait("Backtrace"); t.send(DOWN); t.send(DOWN); t.send(ENTER)
t.wait(lambda s: "Backtrace" in s or "Backend" not in s); t.send(ESC) if "Backtrace" in t.text() else None
t.wait(lambda s: "Backtrace" not in s and "Backend" not in s and "OptFunction" not in s)
t.send("b"); s = t.wait("Backtrace")
check(not re.search("[|│] *ExecuteCompiler *[|│]", s), s)
''')
bug("U03-directory","U03","a compilation command recorded for another directory than the current one",
 "the compiler runs in the current directory",
 [("src/ui/tui/trace/measure.rs","command.current_dir(entry.current_dir()).arg(\"-ftime-trace\");","command.arg(\"-ftime-trace\");")],
 demo_py=H+COMPDB+'''
os.mkdir(work + "/sub")
compiler("pwd > " + work + "/where\\nexit 1\\n")
database(unit("a", work + "/sub"))
open(work + "/cmakeperf.csv", "w").write("file,max_rss,time\\n\\"a.cpp\\",2000000000,\\n")
t = Tui([crofiler], work, env=env)
t.wait("a.cpp"); t.send(ENTER); t.wait("<Yes>"); t.send(ENTER); t.wait("failed")
check(open(work + "/where").read().strip() == work + "/sub", open(work + "/where").read())
''')
bug("U04-backup-failure","U04","an older profile which cannot be set aside, and an aborted measurement",
 "the older profile is lost",
 [("src/ui/tui/build/measure.rs","""            Err(other) => {
                super::error(
                    cursive,
                    format!("Failed to back up previous build profile: {other}"),
                );
                return None;
            }
""","""            Err(other) => log::warn!("Failed to back up previous build profile: {other}"),
""")],
 demo_py=H+COMPDB+'''
compiler("exit 0\\n")
open(work + "/bin/slow", "w").write("#!/bin/sh\\ntouch started\\nexec sleep 100\\n"); os.chmod(work + "/bin/slow", 0o755)
database(unit("a", command=f"slow -o a.o -c {work}/a.cpp"))
os.makedirs(work + "/cmakeperf.bak/x")
old = "file,max_rss,time\\n\\"a.cpp\\",2000000000,\\n"
open(work + "/cmakeperf.csv", "w").write(old); os.utime(work + "/cmakeperf.csv", (1, 1))
t = Tui([crofiler], work, env=env)
t.wait("<Measure>"); t.send(RIGHT); t.send(ENTER)
s = t.wait(lambda s: "minimize" in s or "back up" in s)
if "minimize" in s:
    for _ in range(100):
        if os.path.exists(work + "/started"): break
        t.pump()
    t.send(ENTER); t.wait(lambda s: "minimize" not in s)
    for _ in range(10): t.pump(0.1)
check(os.path.exists(work + "/cmakeperf.csv") and open(work + "/cmakeperf.csv").read() == old, os.listdir(work))
''')
bug("U05-path-order","U05","units in directories of which one is named like another plus something which sorts before the slash",
 "units are not sorted by their path",
 [("src/ui/tui/build/display.rs","self.rel_path().cmp(other.rel_path())","self.rel_path().as_os_str().cmp(other.rel_path().as_os_str())")],
 demo_py=H+COMPDB+'''
compiler("exit 0\\n"); database(unit("a"))
open(work + "/cmakeperf.csv", "w").write("file,max_rss,time\\n\\"a/x.cpp\\",1000000000,\\n\\"a-b/x.cpp\\",2000000000,\\n")
t = Tui([crofiler], work, env=env)
s = t.wait("a-b/x.cpp"); t.send(RIGHT); t.pump(0.3); t.send(ENTER)
s = t.wait(lambda s: "a/x.cpp" in s and "a-b/x.cpp" in s and s.index("a/x.cpp") < s.index("a-b/x.cpp"), 5)
check(s.index("a/x.cpp") < s.index("a-b/x.cpp"), s)
''')
bug("U05-rounded-age","U05","a trace which is between twelve hours and a day old",
 "it is said to be a day old",
 [("src/ui/tui/create.rs","let age_days = age_hours / 24;","let age_days = (age_hours + 12) / 24;")],
 demo_py=H+COMPDB+'''
compiler("exit 0\\n"); database(unit("a"))
for f in ("a.cpp", "compile_commands.json"): os.utime(work + "/" + f, (1, 1))
old = time.time() - 13.5 * 3600
open(work + "/cmakeperf.csv", "w").write("file,max_rss,time\\n\\"a.cpp\\",2000000000,\\n")
os.utime(work + "/cmakeperf.csv", (old, old))
t = Tui([crofiler], work, env=env)
s = t.wait("<Measure>")
check("13h" in s, s)
''')
bug("S03-one-column","S03","so few columns that only one of them is left for some activities",
 "the hierarchical profile leaves them out",
 [("src/ui/stdio.rs","    if child_cols == 0 {","    if child_cols <= 1 {")],
 demo_py=H+'''
open(work + "/t.json", "w").write(trace([x("OptFunction", 120, 50, "foo"), x("Frontend", 100, 400), x("Backend", 600, 100), x("ExecuteCompiler", 2, 1000)]))
o = subprocess.run([crofiler, "--ui", "stdio", "-c", "3", work + "/t.json"], capture_output=True, text=True).stdout
o = o[o.index("Hierarchical"):]
check(o.count("├") + o.count("└") == 2, o)
''')
bug("D05-far-date","D05","a start of time more than two centuries ahead",
 "another date is shown",
 [("src/ui/display/metadata.rs","((bot / MICROSECOND) as i128).saturating_mul(1000)","i128::from(((bot / MICROSECOND) as i64).wrapping_mul(1000))")],
 demo_py=H+'''
j = json.loads(trace([x("ExecuteCompiler", 2, 1000)])); j["beginningOfTime"] = 32503680000000000
open(work + "/t.json", "w").write(json.dumps(j))
o = subprocess.run([crofiler, "--ui", "stdio", work + "/t.json"], capture_output=True, text=True).stdout
check("3000-01-01" in o, o)
''')
bug("D03-day-carry","D03","a duration which rounds to a whole number of days",
 "a minute or hour is shown as 60 or 24",
 [("src/ui/display/duration.rs","        if remainder >= 23.0 * HOUR + 59.0 * MINUTE + 59.995 * SECOND {","        if remainder > 23.0 * HOUR + 59.0 * MINUTE + 59.999 * SECOND {")],
 demo_rs='''use crofiler::verif::display_duration;
fn main() {
    let mut v = vec![];
    display_duration(&mut v, (2.0 * 86400.0 - 0.004) * 1e6).unwrap();
    assert_eq!(std::str::from_utf8(&v).unwrap(), "2d 00:00:00.00");
}
''', deps=['crofiler = { path = "lib" }'])
bug("T01-early-start","T01","a start of time before the epoch",
 "the start of time is lost",
 [("clang-time-trace/src/lib.rs","                Some(f64_value)\n","                Some(f64_value).filter(|time| time.is_sign_positive())\n")],
 demo_rs=TR+'''
fn main() {
    let text = trace(&x("ExecuteCompiler", 2.0, 10.0, "")).replacen('{', "{\\"beginningOfTime\\":-5,", 1);
    assert_eq!(ClangTrace::from_str(&text).unwrap().beginning_of_time(), Some(-5.0));
}
''', deps=["clang-time-trace"])
bug("T02-tiny-overlap","T02","activities which overlap by less than half a microsecond",
 "the trace is accepted",
 [("clang-time-trace/src/tree.rs","                if candidate.stat.end() <= start {","                if candidate.stat.end() <= start + 0.5 {")],
 demo_rs=TR+'''
fn main() {
    let text = trace(&format!("{},{}", x("Frontend", 2.0, 10.25, ""), x("Backend", 12.0, 10.0, "")));
    assert!(ClangTrace::from_str(&text).is_err());
}
''', deps=["clang-time-trace"])
bug("T03-negative-count","T03","a global statistic with a negative count",
 "the trace is accepted",
 [("clang-time-trace/src/stats/global.rs","if let Some(c) = v.as_u64() {","if let Some(c) = v.as_u64().or(v.as_i64().map(i64::unsigned_abs)) {")],
 demo_rs=TR+'''
fn main() {
    let total = |count: i32| format!("{{\\"ph\\":\\"X\\",\\"pid\\":1,\\"tid\\":1,\\"ts\\":0,\\"dur\\":5,\\"name\\":\\"Total Frontend\\",\\"args\\":{{\\"count\\":{count},\\"avg ms\\":5}}}}");
    let load = |count| ClangTrace::from_str(&trace(&format!("{},{}", x("Frontend", 2.0, 10.0, ""), total(count))));
    assert!(load(2).is_ok());
    assert!(load(-2).is_err());
}
''', deps=["clang-time-trace"])
bug("T03-global-pid","T03","a global statistic of another process than the activities",
 "a trace mixing two processes is accepted",
 [("clang-time-trace/src/lib.rs","""                    merge_pid(&mut clang_pid, duration_event.pid)?;
                    let (name, stat)""","""                    clang_pid.get_or_insert(duration_event.pid);
                    let (name, stat)""")],
 demo_rs=TR+'''
fn main() {
    let total = |pid: i32| format!("{{\\"ph\\":\\"X\\",\\"pid\\":{pid},\\"tid\\":1,\\"ts\\":0,\\"dur\\":5,\\"name\\":\\"Total Frontend\\",\\"args\\":{{\\"count\\":1,\\"avg ms\\":5}}}}");
    let load = |pid| ClangTrace::from_str(&trace(&format!("{},{}", x("Frontend", 2.0, 10.0, ""), total(pid))));
    assert!(load(1).is_ok());
    assert!(load(2).is_err());
}
''', deps=["clang-time-trace"])
bug("T04-one-kind","T04","one kind of activity out of a hundred, without its argument",
 "the missing argument is accepted",
 [("clang-time-trace/src/stats/activity/mod.rs",'"BDCEPass" => (BDCEPass, Symbol)','"BDCEPass" => (BDCEPass, SymbolOpt)')],
 demo_rs=TR+'''
fn main() {
    assert!(ClangTrace::from_str(&trace(&x("BDCEPass", 2.0, 10.0, "foo"))).is_ok());
    assert!(ClangTrace::from_str(&trace(&x("BDCEPass", 2.0, 10.0, ""))).is_err());
}
''', deps=["clang-time-trace"])
