exec(open("/tmp/plant/mk.py").read())
H=open("/verif/tools/planting/tuihelp.py").read()
TR='''fn trace(events: &str) -> String {
    format!("{{\\"traceEvents\\":[{events},{{\\"ph\\":\\"M\\",\\"pid\\":1,\\"tid\\":0,\\"ts\\":0,\\"cat\\":\\"\\",\\"name\\":\\"process_name\\",\\"args\\":{{\\"name\\":\\"clang\\"}}}}]}}")
}
fn x(name: &str, ts: u32, dur: u32, detail: &str) -> String {
    let args = if detail.is_empty() { String::new() } else { format!(",\\"args\\":{{\\"detail\\":\\"{detail}\\"}}") };
    format!("{{\\"ph\\":\\"X\\",\\"pid\\":1,\\"tid\\":0,\\"ts\\":{ts},\\"dur\\":{dur},\\"name\\":\\"{name}\\"{args}}}")
}
'''
bug("U01-same-path","U01","a trace whose file has changed since it was loaded, loaded again",
 "descriptions of the previous trace are shown for the activities of the new one",
 [("src/ui/tui/processing.rs","    let mut last_max_cols = 0;\n","    let mut last_max_cols = 0;\n    let mut last_path = None;\n"),
  ("src/ui/tui/processing.rs","                parsed_arg_cache.clear();\n                description_cache.clear();\n                trace =","                if last_path.as_ref() != Some(&path) {\n                    parsed_arg_cache.clear();\n                    description_cache.clear();\n                    last_path = Some(path.clone());\n                }\n                trace =")],
 demo_rs=TR+'''
use crofiler::verif::ProcessingThread;
fn load(t: &mut ProcessingThread, f: &std::path::Path) {
    let (s, r) = std::sync::mpsc::channel();
    t.start_load_trace(f, move |x| s.send(x.is_ok()).unwrap());
    assert!(r.recv().unwrap());
}
fn main() {
    let a = std::env::current_dir().unwrap().join("a.json");
    std::fs::write(&a, trace(&x("ExecuteCompiler", 2, 10, ""))).unwrap();
    let mut t = ProcessingThread::start();
    load(&mut t, &a);
    assert_eq!(&*t.describe_activities(vec![0].into(), 40)[0], "ExecuteCompiler");
    std::fs::write(&a, trace(&x("Frontend", 2, 10, ""))).unwrap();
    load(&mut t, &a);
    assert_eq!(&*t.describe_activities(vec![0].into(), 40)[0], "Frontend");
}
''', deps=['crofiler = { path = "lib" }', "clang-time-trace"])
ARG=TR+'''
use clang_time_trace::*;
fn arg(t: &mut ClangTrace, i: usize) -> String {
    let id = t.all_activities().nth(i).unwrap().id();
    let p = t.activity_trace(id).activity().raw_argument().clone().parse(t).unwrap();
    let x = match p.resolve(t) {
        ActivityArgument::Symbol(Symbol::Parsed(e)) => format!("P {e}"),
        ActivityArgument::Symbol(Symbol::Demangled(e)) => format!("D {e}"),
        ActivityArgument::Symbol(Symbol::MaybeMangled(e)) => format!("M {e}"),
        _ => String::new(),
    };
    x
}
'''
bug("T04-demangle-leftover","T04","a mangled name whose demangling fails half-way, then another mangled name",
 "the second name begins with what was demangled of the first",
 [("clang-time-trace/src/stats/activity/argument.rs","                demangling_buf.clear();\n",""),
  ("clang-time-trace/src/stats/activity/argument.rs","parse_demangled(demangling_buf.clone().into()),","parse_demangled(std::mem::take(demangling_buf).into()),")],
 demo_rs=ARG+'''
fn main() {
    let e = format!("{},{}", x("OptFunction", 10, 5, "_Z1gIiEvT0_"), x("OptFunction", 20, 5, "_Z1fv"));
    let mut t: ClangTrace = trace(&e).parse().unwrap();
    assert_eq!(arg(&mut t, 0), "M _Z1gIiEvT0_");
    assert_eq!(arg(&mut t, 1), "P f()");
}
''', deps=["clang-time-trace"])
bug("T04-all-parentheses","T04","a symbol which is in parentheses, and begins or ends with another one",
 "the other ones are removed too",
 [("clang-time-trace/src/stats/activity/argument.rs","symbol = Rc::from(&symbol[1..symbol.len() - 1]);","symbol = Rc::from(symbol.trim_start_matches('(').trim_end_matches(')'));")],
 demo_rs=ARG+'''
fn main() {
    let mut t: ClangTrace = trace(&x("OptFunction", 10, 5, "(foo(bar))")).parse().unwrap();
    assert_eq!(arg(&mut t, 0), "M foo(bar)");
}
''', deps=["clang-time-trace"])
bug("B03-default-memory","B03","a stored profile without any column for the memory",
 "it is accepted, with a memory usage of 0",
 [("cmakeperf/src/output.rs","    /// Maximum observed RSS memory usage during compilation, in bytes\n    max_rss","    /// Maximum observed RSS memory usage during compilation, in bytes\n    #[serde(default)]\n    max_rss")],
 demo_rs='''fn main() {
    std::fs::write("p.csv", "file,time\\n/a.cpp,1.0\\n").unwrap();
    assert!(cmakeperf::output::load("p.csv").is_err());
}
''', deps=["cmakeperf"])
bug("D04-zero-width","D04","an argument without any width, made of characters which have none",
 "the activity is not shown in a width which it fits in",
 [("src/ui/display/activity.rs","2 * paren_width + s.width().min(1),","2 * paren_width + s.chars().count().min(1),")],
 demo_rs=TR+'''
use crofiler::verif::*;
use clang_time_trace::*;
fn main() {
    let mut t: ClangTrace = trace(&x("RunPass", 10, 5, "\\u{301}")).parse().unwrap();
    let id = t.all_activities().next().unwrap().id();
    let p = t.activity_trace(id).activity().raw_argument().clone().parse(&mut t).unwrap();
    let a = p.resolve(&t);
    let mut o = vec![];
    display_activity_desc(&mut o, t.activity_trace(id).activity().id(), &a, DisplayConfig::SingleLine { max_cols: 9 }).unwrap();
    assert_eq!(String::from_utf8(o).unwrap(), "RunPass(\\u{301})");
}
''', deps=['crofiler = { path = "lib" }', "clang-time-trace"])
bug("T03-null-beginning","T03","a trace whose beginningOfTime is null",
 "it is accepted as one without any",
 [("clang-time-trace/src/lib.rs",'''let Some(value) = profile_ctf.extra.get("beginningOfTime") {''','''let Some(value) = (profile_ctf.extra.get("beginningOfTime")).filter(|v| !v.is_null()) {''')],
 demo_rs=TR+'''
fn main() {
    let s = trace(&x("Frontend", 10, 5, ""));
    let s = format!("{},\\"beginningOfTime\\":null}}", &s[..s.len() - 1]);
    assert!(s.parse::<clang_time_trace::ClangTrace>().is_err());
}
''', deps=["clang-time-trace"])
