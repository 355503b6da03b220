exec(open("/tmp/plant/mk.py").read())
H=open("/verif/tools/planting/tuihelp.py").read()
COMPDB='''
os.mkdir(work + "/bin")
def compiler(body): open(work + "/bin/clang++", "w").write("#!/bin/sh\\nif [ x$1 = x--version ]; then echo 'clang version 15.0.7'; exit; fi\\n" + body); os.chmod(work + "/bin/clang++", 0o755)
def unit(name, directory=None, command=None):
    open(f"{work}/{name}.cpp", "w").write("")
    return {"directory": directory or work, "command": command or f"clang++ -o {name}.o -c {work}/{name}.cpp", "file": f"{work}/{name}.cpp"}
def database(*units): open(work + "/compile_commands.json", "w").write(json.dumps(units))
env = {"PATH": work + "/bin:" + os.environ["PATH"]}
'''
bug("B05-late-descendants","B05","a job which has started other processes since it was last looked at, when the measurement is cancelled",
 "these processes go on",
 [("cmakeperf/src/measure/worker.rs","    tree.refresh(&system);\n    tree.kill(&system);","    tree.kill(&system);")],
 demo_rs='''use cmakeperf::{commands::{CompilationDatabase, DatabaseEntry}, measure::{Measurement, PollClock}};
use std::time::Duration;
fn main() {
    PollClock::set_polling_interval(Duration::from_millis(1500));
    let dir = std::env::current_dir().unwrap();
    let pidfile = dir.join("pid");
    let command = format!("sh -c 'sleep 3.7; sleep 60 >/dev/null 2>&1 & echo $! > {}; wait'", pidfile.display());
    let db = CompilationDatabase::from_entries([DatabaseEntry::new(dir.clone(), command, dir.join("a.cpp"), None)]);
    let m = Measurement::start(dir.join("p.csv"), &db, false, None, || {}, |_| {});
    std::thread::sleep(Duration::from_millis(2000));
    drop(m);
    if !pidfile.exists() { return; }
    let pid = std::fs::read_to_string(&pidfile).unwrap().trim().to_string();
    std::thread::sleep(Duration::from_millis(300));
    let stat = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let alive = !stat.is_empty() && !stat.contains(") Z");
    if alive { std::process::Command::new("kill").arg(&pid).status().unwrap(); }
    assert!(!alive);
}
''', deps=["cmakeperf"])
bug("B01-empty-argument","B01","a command with an empty argument, in quotes",
 "the argument is lost",
 [("cmakeperf/src/commands.rs","        Shlex::new(self.raw_command())\n","        Shlex::new(self.raw_command()).filter(|arg| !arg.is_empty())\n")],
 demo_rs='''use cmakeperf::commands::*;
fn main() {
    let e = DatabaseEntry::new(std::path::Path::new("/d"), "cc '' -c a", std::path::Path::new("/d/a"), None);
    assert_eq!(e.args().count(), 3);
}
''', deps=["cmakeperf"])
bug("B03-milliseconds","B03","a time of less than a millisecond, or with more digits",
 "the time is cut",
 [("cmakeperf/src/output.rs","Duration::from_nanos((secs_f32.fract() * 1_000_000_000.0) as u64)","Duration::from_millis((secs_f32.fract() * 1_000.0) as u64)")],
 demo_rs='''fn main() {
    std::fs::write("p.csv", "file,max_rss,time\\na.cpp,1,0.00048828125\\n").unwrap();
    let p = cmakeperf::output::load("p.csv").unwrap();
    assert_eq!(p[0].wall_time(), Some(Ok(std::time::Duration::from_nanos(488281))));
}
''', deps=["cmakeperf"])
bug("U02-multi-root-share","U02","a trace with several activities at its root",
 "shares of the total are relative to the first of them",
 [("src/ui/tui/trace/load.rs","                                    .map(|activity| activity.duration)\n","                                    .map(|activity| activity.duration)\n                                    .take(1)\n")],
 demo_py=H+'''
open(work + "/t.json", "w").write(trace([x("Frontend", 100, 300), x("Backend", 600, 100)]))
t = Tui([crofiler, "--ui", "tui", work + "/t.json"], work)
s = t.wait("Frontend")
check("75.00%" in s and "25.00%" in s, s)
''')
bug("U02-second-trace-share","U02","another trace opened after the first one, from the table of units",
 "shares are relative to the duration of the first trace",
 [("src/ui/tui/trace/load.rs","                            state.display_config.reset_duration_display();\n","")],
 demo_py=H+COMPDB+'''
compiler("exit 0\\n"); u = [unit("a"), unit("b")]
for i in u: os.utime(i["file"], (1, 1))
database(*u); os.utime(work + "/compile_commands.json", (1, 1))
open(work + "/a.json", "w").write(trace([x("ExecuteCompiler", 2, 1000)]))
open(work + "/b.json", "w").write(trace([x("ExecuteCompiler", 2, 2000)]))
open(work + "/cmakeperf.csv", "w").write("file,max_rss,time\\n\\"a.cpp\\",2000000000,\\n\\"b.cpp\\",1000000000,\\n")
t = Tui([crofiler], work, env=env)
t.wait("b.cpp"); t.send(ENTER); s = t.wait(lambda s: s.count("ExecuteCompiler") >= 2); check("100.00%" in s, s)
t.send(ESC); t.wait("b.cpp"); t.send(DOWN); t.pump(0.3); t.send(ENTER); s = t.wait(lambda s: s.count("ExecuteCompiler") >= 2)
check("100.00%" in s, s)
''')
