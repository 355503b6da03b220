exec(open("/tmp/plant/mk.py").read())
H=open("/verif/tools/planting/tuihelp.py").read()
bug("B02-coarse-time","B02","an input which has changed less than a millisecond after the product",
 "the product is not said to be outdated",
 [("cmakeperf/src/commands.rs","            if product_mtime < input.metadata()?.modified()? {\n","            let granularity = Duration::from_millis(1);\n            if product_mtime + granularity <= input.metadata()?.modified()? {\n")],
 demo_rs='''use cmakeperf::commands::*;
use std::{fs::File, time::{SystemTime, Duration}};
fn main() {
    let dir = std::env::current_dir().unwrap();
    let old = SystemTime::now() - Duration::from_secs(1000);
    for (f, t) in [("compile_commands.json", old), ("p.csv", old), ("a.cpp", old + Duration::from_micros(500))] {
        std::fs::write(f, "").unwrap();
        File::options().write(true).open(f).unwrap().set_modified(t).unwrap();
    }
    let db = CompilationDatabase::from_entries([DatabaseEntry::new(dir.clone(), "x", dir.join("a.cpp"), None)]);
    assert_eq!(db.profile_freshness("p.csv".as_ref()).unwrap(), ProductFreshness::Outdated);
}
''', deps=["cmakeperf"])
bug("C01-second-line","C01","a compiler whose version is not on the first line of its output",
 "it is accepted",
 [("src/clang.rs","version_regex.captures(version_line)","version_regex.captures(&stdout)")],
 demo_py=H+'''
os.mkdir(work + "/bin"); open(work + "/bin/clang++", "w").write("#!/bin/sh\\necho foo; echo 'clang version 15.0.7'\\n"); os.chmod(work + "/bin/clang++", 0o755)
open(f"{work}/a.cpp", "w").write("")
open(work + "/compile_commands.json", "w").write(json.dumps([{"directory": work, "command": "clang++ -o a.o -c a.cpp", "file": f"{work}/a.cpp"}]))
open(work + "/cmakeperf.csv", "w").write("file,max_rss,time\\n\\"a.cpp\\",2000000000,\\n")
t = Tui([crofiler], work, env={"PATH": work + "/bin:" + os.environ["PATH"]})
s = t.wait(lambda s: "a.cpp" in s or "unexpected" in s)
check("unexpected" in s, s)
''')
bug("U02-unit-selection","U02","switching to another unit while another row than the first one is selected",
 "the selected activity is not the one which is described below",
 [("src/ui/tui/trace/display.rs","            table.remove_column(0);\n","            table.remove_column(0);\n            table.set_selected_row(0);\n")],
 demo_py=H+'''
open(work + "/t.json", "w").write(trace([x("OptFunction", 120, 50, "foo"), x("Frontend", 100, 400), x("Backend", 600, 100), x("ExecuteCompiler", 2, 1000)]))
t = Tui([crofiler, "--ui", "tui", work + "/t.json"], work)
t.wait("ExecuteCompiler"); t.send(ENTER); t.wait("Backend")
t.send(DOWN); t.wait(lambda s: s.count("Backend") == 2)
t.send("u"); t.wait("%Parent"); t.send(UP)
t.wait(lambda s: s.count("Frontend") == 2)
''')
bug("U02-flat-again","U02","the flat view, opened again after it was left with the same key",
 "it only has the activities of the hierarchical view",
 [("src/ui/tui/trace/display.rs","            Box::new(|_state| old_activity_infos),","            Box::new(move |state: &mut State| match kind {\n                ProfileKind::Flat => old_activity_infos,\n                ProfileKind::Hierarchical if state.profile_stack.is_empty() => {\n                    state.processing_thread.get_root_activities()\n                }\n                ProfileKind::Hierarchical => old_activity_infos,\n            }),")],
 demo_py=H+'''
open(work + "/t.json", "w").write(trace([x("OptFunction", 120, 50, "foo"), x("Frontend", 100, 400), x("Backend", 600, 100), x("ExecuteCompiler", 2, 1000)]))
t = Tui([crofiler, "--ui", "tui", work + "/t.json"], work)
t.wait("ExecuteCompiler"); t.send("f"); t.wait("Backend")
t.send("f"); t.wait(lambda s: "Backend" not in s)
t.send("f"); t.wait("Self%Tot"); t.pump(0.3); s = t.text()
check("Backend" in s, s)
''')
bug("U05-rounded-memory","U05","two units whose memory usage is the same on the screen, but not in the profile",
 "their order is not that of their memory usage",
 [("src/ui/tui/build/display.rs","ProfileColumn::MaxRSS => self.max_rss_bytes().cmp(&other.max_rss_bytes()),","ProfileColumn::MaxRSS => {\n                (self.max_rss_bytes() / 10_000_000).cmp(&(other.max_rss_bytes() / 10_000_000))\n            }")],
 demo_py=H+'''
os.mkdir(work + "/bin")
def compiler(body): open(work + "/bin/clang++", "w").write("#!/bin/sh\\nif [ x$1 = x--version ]; then echo 'clang version 15.0.7'; exit; fi\\n" + body); os.chmod(work + "/bin/clang++", 0o755)
env = {"PATH": work + "/bin:" + os.environ["PATH"]}
compiler("exit 0\\n")
names = [f"{c}.cpp" for c in "abcdefgh"]
open(work + "/compile_commands.json", "w").write(json.dumps([{"directory": work, "command": f"clang++ -o {n}.o -c {work}/{n}", "file": f"{work}/{n}"} for n in names]))
for n in names: open(f"{work}/{n}", "w").write("")
open(work + "/cmakeperf.csv", "w").write("file,max_rss,time\\n" + "".join(f"\\"{n}\\",{1000000000 + 100 * ((i * 5 + 2) % 8)},\\n" for i, n in enumerate(names)))
t = Tui([crofiler], work, env=env)
s = t.wait(lambda s: all(n in s for n in names))
order = sorted(names, key=s.index)
want = sorted(names, key=lambda n: -((names.index(n) * 5 + 2) % 8))
check(order == want, s)
''')
