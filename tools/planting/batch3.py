exec(open("/tmp/plant/mk.py").read())
H=open("/verif/tools/planting/tuihelp.py").read()
TR=open("/verif/tools/planting/batch1.py").read().split("TR='''")[1].split("'''")[0].replace('\\\\','\\')
bug("A01-rehash-suffix","A01","more sequences than the table had room for, then one of the former ones again",
 "a sequence interned again gets another key",
 [("asylum/src/sequence.rs","                .hash_one(&self.concatenated[key.into_impl_key()])","                .hash_one(&self.concatenated[key.into_impl_key().start..])")],
 demo_rs='''use asylum::sequence::*;
fn main() {
    let mut i = SequenceInterner::<u32, SequenceKey<asylum::lasso::Spur, 8>>::new();
    let k: Vec<_> = (0..100).map(|x| i.intern(&[x, x + 1])).collect();
    for (x, k) in k.iter().enumerate() {
        assert_eq!(i.intern(&[x as u32, x as u32 + 1]), *k);
    }
}
''', deps=["asylum"])
bug("A02-climb-twice","A02","a path which climbs above its root twice in a row",
 "the root of the path is lost: `/a/../../b` becomes `b`",
 [("asylum/src/path.rs","""                    if sequence.len() > 1 {
                        sequence.pop();""","""                    if normal_components > 0 {
                        sequence.pop();"""),
  ("asylum/src/path.rs","""        for component in path.components() {
            use std::path::Component::*;
            match component {""","""        let mut normal_components = 0;
        for component in path.components() {
            use std::path::Component::*;
            if matches!(component, Normal(_)) {
                normal_components += 1;
            }
            match component {""")],
 demo_rs='''fn main() {
    let mut i = asylum::path::PathInterner::<asylum::lasso::Spur>::new();
    let k = i.intern("/a/../../b").unwrap();
    assert_eq!(i.get(k).to_string(), "/b");
}
''', deps=["asylum"])
bug("P02-greater-in-index","P02","`>` within an array index within template arguments",
 "a valid entity is rejected",
 [("cpparser/src/subparsers/values/mod.rs","        let value_like_index = |s| self.parse_value_like_imut(s, false, true);","        let value_like_index = |s| self.parse_value_like_imut(s, false, allow_greater);")],
 demo_rs='''use cpparser::display::CustomDisplay;
fn main() {
    let mut p = cpparser::EntityParser::new();
    let k = p.parse_entity("A<1 + x[a > b]>").unwrap();
    assert_eq!(p.entity(k).bounded_display(100), "A<1 + x[a > b]>");
}
''', deps=["cpparser"])
bug("P05-first-line","P05","an entity on standard input which is wrapped over several lines",
 "the entity is taken to end with the first line",
 [("simpp/src/main.rs","                    .read_to_string(&mut stdin)","                    .read_line(&mut stdin)"),
  ("simpp/src/main.rs","use std::io::{IsTerminal, Read};","use std::io::IsTerminal;")],
 demo_py='''import subprocess, sys, os
repo = sys.argv[1]
subprocess.check_call(["cargo", "build", "-q", "--offline", "-p", "simpp"], cwd=repo)
r = subprocess.run([repo + "/target/debug/simpp", "-c", "50"], input="A<int,\\nbool>\\n", capture_output=True, text=True)
print(r)
sys.exit(0 if r.stdout == "A<int, bool>\\n" else 1)
''')
bug("T03-same-name-twice","T03","a trace which names its process twice, in the same way",
 "duplicated metadata is accepted",
 [("clang-time-trace/src/lib.rs","""                        if let Some(process_name) = process_name {
                            return""","""                        if let Some(process_name) = process_name.filter(|old| *old != name) {
                            return""")],
 demo_rs=TR+'''
use std::str::FromStr;
fn main() {
    let extra = |n: &str| format!("{{\\"ph\\":\\"M\\",\\"pid\\":1,\\"tid\\":0,\\"ts\\":0,\\"cat\\":\\"\\",\\"name\\":\\"process_name\\",\\"args\\":{{\\"name\\":\\"{n}\\"}}}}");
    assert!(clang_time_trace::ClangTrace::from_str(&trace(&x("Frontend", 2, 5, ""))).is_ok());
    for n in ["clang", "gcc"] {
        assert!(clang_time_trace::ClangTrace::from_str(&trace(&format!("{},{}", x("Frontend", 2, 5, ""), extra(n)))).is_err(), "{n}");
    }
}
''', deps=["clang-time-trace"])
bug("D04-wide-name","D04","an unknown activity whose name is not ASCII, with an argument which is a little too long",
 "the argument is abbreviated more than necessary, or though it fits",
 [("src/ui/display/activity.rs","max_cols.saturating_sub((activity_name.width() + 2 * paren_width) as u16);","max_cols.saturating_sub((activity_name.len() + 2 * paren_width) as u16);")],
 demo_py=H+'''
open(work + "/t.json", "w").write(trace([x("\\u65e5\\u672c\\u00e9", 100, 500000, "abcdefghijklmnop"), x("ExecuteCompiler", 2, 1000000)]))
line = "\\u65e5\\u672c\\u00e9(abcdefghijklmnop) [500.00ms, 50.00%]"
for cols in range(30, 60):
    out = subprocess.run([crofiler, "--ui", "stdio", "-c", str(cols), work + "/t.json"], capture_output=True, text=True).stdout
    check((("- " + line) in out) == (cols >= len(line) + 2 + 2), cols, out)
''')
bug("D05-wide-thread","D05","a thread name which is not ASCII, and just enough columns for the start time after it",
 "the summary goes on in another line though there is room",
 [("src/ui/display/metadata.rs","        last_line_width += extra.width();","        last_line_width += extra.len();")],
 demo_py=H+'''
for name in ("clangABCDEFGH", "\\u00e9\\u00e9\\u00e9\\u00e9\\u00e9\\u00e9\\u00e9\\u00e9\\u00e9\\u00e9\\u00e9\\u00e9\\u00e9"):
    e = [x("ExecuteCompiler", 2, 1000000)]
    e[0]["tid"] = 1
    e.append({"ph": "M", "cat": "", "pid": 1, "tid": 1, "ts": 0, "name": "thread_name", "args": {"name": name}})
    t = json.loads(trace(e)); t["beginningOfTime"] = 1000000000
    open(work + "/t.json", "w").write(json.dumps(t))
    out = subprocess.run([crofiler, "--ui", "stdio", "-c", "200", work + "/t.json"], capture_output=True, text=True).stdout
    one = [l for l in out.split("\\n") if "Data from" in l][0]
    out = subprocess.run([crofiler, "--ui", "stdio", "-c", str(len(one) + 2), work + "/t.json"], capture_output=True, text=True).stdout
    check(one in out.split("\\n"), one, out)
''')
bug("C01-failing-version","C01","a compiler which advertises a good version and exits with an error",
 "the compiler is accepted",
 [("src/clang.rs","    if !clang_version_output.status.success() {","    if !clang_version_output.status.success() && clang_version_output.stdout.is_empty() {")],
 demo_py=H+'''
os.mkdir(work + "/bin"); open(work + "/bin/clang++", "w").write("#!/bin/sh\\necho 'clang version 15.0.7'; exit 3\\n"); os.chmod(work + "/bin/clang++", 0o755)
open(f"{work}/a.cpp", "w").write("")
open(work + "/compile_commands.json", "w").write(json.dumps([{"directory": work, "command": "clang++ -o a.o -c a.cpp", "file": f"{work}/a.cpp"}]))
open(work + "/cmakeperf.csv", "w").write("file,max_rss,time\\n\\"a.cpp\\",2000000000,\\n")
t = Tui([crofiler], work, env={"PATH": work + "/bin:" + os.environ["PATH"]})
s = t.wait(lambda s: "a.cpp" in s or "status" in s)
check("status" in s, s)
''')
bug("S01-zero-share","S01","a threshold of zero and an activity which took no time of its own",
 "the activity is missing from the list, and said to be below 0%",
 [("src/trace.rs","        .filter(|a| duration(a) >= threshold)","        .filter(|a| duration(a) > threshold)")],
 demo_py=H+'''
open(work + "/t.json", "w").write(trace([x("Source", 100, 1000, "/a"), x("Frontend", 100, 1000), x("ExecuteCompiler", 2, 5000)]))
out = subprocess.run([crofiler, "--ui", "stdio", "-c", "80", "-s", "0", "-i", "0", work + "/t.json"], capture_output=True, text=True).stdout
check(out.count("Frontend [0") == 2 and "other" not in out, out)
''')
bug("B03-trimmed","B03","a unit whose path starts or ends with white space",
 "the path is loaded without it",
 [("cmakeperf/src/output.rs","    let reader = match csv::Reader::from_path(path.as_ref()) {","    let reader = match csv::ReaderBuilder::new()\n        .trim(csv::Trim::All)\n        .from_path(path.as_ref())\n    {")],
 demo_rs='''fn main() {
    std::fs::write("p.csv", "file,max_rss,time\\na b.cpp,1,\\n\\" c.cpp\\",2,1.5\\n").unwrap();
    let p = cmakeperf::output::load("p.csv").unwrap();
    assert_eq!(p[1].rel_path(), std::path::Path::new(" c.cpp"));
}
''', deps=["cmakeperf"])
bug("B01-output-link","B01","an output which is a symbolic link",
 "the output location is the target of the link",
 [("cmakeperf/src/commands.rs","""        result.push(file_name);

""","""        result.push(file_name);
        if let Ok(canonicalized) = result.canonicalize() {
            result = canonicalized;
        }

""")],
 demo_rs='''fn main() {
    let dir = std::env::current_dir().unwrap().canonicalize().unwrap();
    std::fs::write("elsewhere.o", "").unwrap();
    std::os::unix::fs::symlink("elsewhere.o", "a.o").unwrap();
    let e = cmakeperf::commands::DatabaseEntry::new(dir.clone(), "c++ -o a.o -c a.cpp", dir.join("a.cpp"), None);
    assert_eq!(e.output(), Some(dir.join("a.o")));
}
''', deps=["cmakeperf"])
