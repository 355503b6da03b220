exec(open("/tmp/plant/mk.py").read())
TR='''fn trace(events: &str) -> String {
    format!("{{\\"traceEvents\\":[{events},{{\\"ph\\":\\"M\\",\\"pid\\":1,\\"tid\\":0,\\"ts\\":0,\\"cat\\":\\"\\",\\"name\\":\\"process_name\\",\\"args\\":{{\\"name\\":\\"clang\\"}}}}]}}")
}
fn x(name: &str, ts: u32, dur: u32, detail: &str) -> String {
    let args = if detail.is_empty() { String::new() } else { format!(",\\"args\\":{{\\"detail\\":\\"{detail}\\"}}") };
    format!("{{\\"ph\\":\\"X\\",\\"pid\\":1,\\"tid\\":0,\\"ts\\":{ts},\\"dur\\":{dur},\\"name\\":\\"{name}\\"{args}}}")
}
'''
bug("U01-stale-descriptions","U01","two traces loaded one after the other, described in the same width",
 "descriptions of the previous trace are shown for the activities of the new one",
 [("src/ui/tui/processing.rs","                parsed_arg_cache.clear();\n                description_cache.clear();\n","                parsed_arg_cache.clear();\n")],
 demo_rs=TR+'''
use crofiler::verif::ProcessingThread;
fn load(t: &mut ProcessingThread, f: &std::path::Path) {
    let (s, r) = std::sync::mpsc::channel();
    t.start_load_trace(f, move |x| s.send(x.is_ok()).unwrap());
    assert!(r.recv().unwrap());
}
fn main() {
    let dir = std::env::current_dir().unwrap();
    let (a, b) = (dir.join("a.json"), dir.join("b.json"));
    std::fs::write(&a, trace(&x("ExecuteCompiler", 2, 10, ""))).unwrap();
    std::fs::write(&b, trace(&x("Frontend", 2, 10, ""))).unwrap();
    let mut t = ProcessingThread::start();
    load(&mut t, &a);
    assert_eq!(&*t.describe_activities(vec![0].into(), 40)[0], "ExecuteCompiler");
    load(&mut t, &b);
    assert_eq!(&*t.describe_activities(vec![0].into(), 40)[0], "Frontend");
}
''', deps=['crofiler = { path = "lib" }'])
bug("T02-zero-length-child","T02","an activity of no duration which starts exactly when its parent does",
 "it is taken for a sibling of its parent instead of a child",
 [("clang-time-trace/src/tree.rs","            if candidate.stat.start() < start {\n","            if candidate.stat.start() < start || candidate.stat.end() <= start {\n")],
 demo_rs=TR+'''
use std::str::FromStr;
fn main() {
    let t = clang_time_trace::ClangTrace::from_str(&trace(&format!("{},{}", x("Frontend", 2, 0, ""), x("ExecuteCompiler", 2, 10, "")))).unwrap();
    assert_eq!(t.root_activities().count(), 1);
}
''', deps=["clang-time-trace"])
bug("T03-thread-pid","T03","a trace whose thread name comes from another process",
 "a trace mixing two processes is accepted",
 [("clang-time-trace/src/lib.rs","                        if let Some(pid) = pid {\n                            merge_pid(&mut clang_pid, *pid)?;\n                        }\n","                        if let (None, Some(pid)) = (clang_pid, pid) {\n                            merge_pid(&mut clang_pid, *pid)?;\n                        }\n")],
 demo_rs=TR+'''
use std::str::FromStr;
fn main() {
    let tn = |pid: u32| format!("{{\\"ph\\":\\"M\\",\\"cat\\":\\"\\",\\"pid\\":{pid},\\"tid\\":{pid},\\"ts\\":0,\\"name\\":\\"thread_name\\",\\"args\\":{{\\"name\\":\\"main\\"}}}}");
    let load = |pid| clang_time_trace::ClangTrace::from_str(&trace(&format!("{},{}", x("Frontend", 2, 5, ""), tn(pid))));
    assert!(load(1).is_ok());
    let r = load(2);
    assert!(r.is_err(), "accepted");
    println!("{:?}", r.err());
}
''', deps=["clang-time-trace"])
bug("D01-trailer-bytes","D01","a text with characters whose width differs from their number of code points, e.g. emoji or combining marks, in its second half",
 "shortened texts are wider or narrower than the columns given",
 [("src/ui/display/mod.rs","        let new_trailer_cols = trailer_cols + grapheme.width();","        let new_trailer_cols = trailer_cols + grapheme.chars().count();")],
 demo_rs='''use crofiler::verif::{display_string, DisplayConfig};
fn main() {
    let mut v = vec![];
    display_string(&mut v, "abcdefghijklmnop\\u{5909}\\u{6570}\\u{578b}\\u{5909}\\u{6570}\\u{578b}", DisplayConfig::SingleLine { max_cols: 12 }).unwrap();
    let s = String::from_utf8(v).unwrap();
    assert!(unicode_width::UnicodeWidthStr::width(&s[..]) <= 12, "{s}");
}
''', deps=['crofiler = { path = "lib" }','unicode-width = "0.1"'])
bug("D02-wide-components","D02","a path with a component of wide characters next to the limit",
 "the shortened path is wider than the columns given",
 [("src/ui/display/path.rs","            let width_with_separator = candidate.width() + (need_separator as usize);","            let width_with_separator = candidate.chars().count() + (need_separator as usize);")],
 demo_rs='''use crofiler::verif::{display_path, DisplayConfig};
fn main() {
    let events = "{\\"ph\\":\\"X\\",\\"pid\\":1,\\"tid\\":0,\\"ts\\":2,\\"dur\\":5,\\"name\\":\\"Source\\",\\"args\\":{\\"detail\\":\\"/aa/\\u{5909}\\u{6570}\\u{578b}/cccc/d\\"}}";
    let text = format!("{{\\"traceEvents\\":[{events},{{\\"ph\\":\\"M\\",\\"pid\\":1,\\"tid\\":0,\\"ts\\":0,\\"cat\\":\\"\\",\\"name\\":\\"process_name\\",\\"args\\":{{\\"name\\":\\"clang\\"}}}}]}}");
    let mut t: clang_time_trace::ClangTrace = text.parse().unwrap();
    let raw = t.activity_trace(0).activity().raw_argument().clone();
    let parsed = raw.parse(&mut t).unwrap();
    let arg = parsed.resolve(&t);
    let clang_time_trace::ActivityArgument::FilePath(p) = arg else { panic!() };
    for max_cols in 1..24 {
        let s = display_path(&p, DisplayConfig::SingleLine { max_cols });
        assert!(unicode_width::UnicodeWidthStr::width(&s[..]) <= max_cols as usize, "{max_cols}: {s}");
    }
}
''', deps=['crofiler = { path = "lib" }',"clang-time-trace",'unicode-width = "0.1"'])
