exec(open("/tmp/plant/mk.py").read())
H=open("/verif/tools/planting/tuihelp.py").read()
PARSE='''use cpparser::{EntityParser, display::CustomDisplay};
'''
bug("P03-abandoned-sequence","P03","a list of things whose parsing is abandoned midway, then another one",
 "the second list starts with the elements of the first one",
 [("cpparser/src/interning/recursion.rs","""            if let Some(mut sequence) = inner.storage.pop() {
                sequence.clear();
                sequence""","""            if let Some(sequence) = inner.storage.pop() {
                sequence"""),
  ("cpparser/src/interning/recursion.rs","""    pub fn intern(self) -> Key {
        self.interner
            .0
            .borrow_mut()
            .interner
            .intern(&self.sequence[..])
    }""","""    pub fn intern(mut self) -> Key {
        let key = self
            .interner
            .0
            .borrow_mut()
            .interner
            .intern(&self.sequence[..]);
        self.sequence.clear();
        key
    }""")],
 demo_rs='''use cpparser::EntityParser;
fn main() {
    let mut p = EntityParser::new();
    let _ = p.parse_entity("A<int, double, (");
    let _ = p.parse_entity("f(int, char, (");
    for s in ["B<char>", "g(unsigned int)", "a::b::c"] {
        let k = p.parse_entity(s).unwrap();
        assert_eq!(p.entity(k).to_string(), s);
    }
}
''', deps=["cpparser"])
bug("P04-noexcept-depth","P04","a function whose deepest part is the condition of its noexcept",
 "the bounded display elides although there is room",
 [("cpparser/src/subparsers/functions.rs","            .max(self.noexcept().recursion_depth())\n","")],
 demo_rs='''use cpparser::{EntityParser, display::CustomDisplay};
fn main() {
    let mut p = EntityParser::new();
    let s = "A<void (int) noexcept(B<C<D>>::value)>";
    let k = p.parse_entity(s).unwrap();
    assert_eq!(p.entity(k).bounded_display(200), p.entity(k).to_string());
}
''', deps=["cpparser"])
bug("P04-new-type-depth","P04","a new expression whose type is deeper than its arguments",
 "the bounded display elides although there is room",
 [("cpparser/src/subparsers/operators/usage.rs","            .max(self.ty().recursion_depth())\n","")],
 demo_rs='''use cpparser::{EntityParser, display::CustomDisplay};
fn main() {
    let mut p = EntityParser::new();
    let s = "A<(new B<C<D<E>>>(1))>";
    let k = p.parse_entity(s).unwrap();
    assert_eq!(p.entity(k).bounded_display(200), p.entity(k).to_string());
}
''', deps=["cpparser"])
bug("P01-unit-number","P01","a lambda whose number does not fit 16 bits",
 "the parser panics",
 [("cpparser/src/subparsers/anonymous.rs","            .map(|(signature, id)| LibibertyLambda { signature, id })","            .map(|(signature, id)| LibibertyLambda {\n                signature,\n                id: u32::from(u16::try_from(id).expect(\"Too many lambdas\")),\n            })")],
 demo_rs='''use cpparser::EntityParser;
fn main() {
    let mut p = EntityParser::new();
    let s = "f()::{lambda(int)#70000}::operator()(int) const";
    if let Ok(k) = p.parse_entity(s) { assert_eq!(p.entity(k).to_string(), s); };
}
''', deps=["cpparser"])
bug("P02-location-column","P02","a location whose column is larger than its line",
 "lines and columns get mixed up",
 [("cpparser/src/subparsers/anonymous.rs","            .map(|(file, location)| SourceLocation { file, location })","            .map(|(file, (line, col))| SourceLocation {\n                file,\n                location: (line, col.min(u32::from(u16::MAX))),\n            })")],
 demo_rs='''use cpparser::EntityParser;
fn main() {
    let mut p = EntityParser::new();
    let s = "(lambda at /a/b.cpp:12:1234567)";
    let k = p.parse_entity(s).unwrap();
    assert_eq!(p.entity(k).to_string(), s);
}
''', deps=["cpparser"])
bug("T01-total-total","T01","an unknown global statistic whose name starts with the prefix twice",
 "the name loses both prefixes",
 [("clang-time-trace/src/stats/global.rs",'''                let name = if let Some(stripped) = name.strip_prefix("Total ") {
                    stripped
                } else {
                    return Err(GlobalStatParseError::NoTotalPrefix(name));
                };''','''                if !name.starts_with("Total ") {
                    return Err(GlobalStatParseError::NoTotalPrefix(name));
                }
                let name = name.trim_start_matches("Total ");''')],
 demo_rs='''use std::str::FromStr;
fn main() {
    let t = r#"{"traceEvents":[{"pid":1,"tid":0,"ph":"X","ts":2,"dur":10,"name":"ExecuteCompiler"},
{"pid":1,"tid":1,"ph":"X","ts":0,"dur":5,"name":"Total Total Time","args":{"count":2,"avg ms":1}},
{"cat":"","pid":1,"tid":0,"ts":0,"ph":"M","name":"process_name","args":{"name":"clang"}}],"beginningOfTime":1}"#;
    let t = clang_time_trace::ClangTrace::from_str(t).unwrap();
    assert!(t.global_stats().contains_key("Total Time"));
}
''', deps=["clang-time-trace"])
bug("T01-wide-count","T01","a global statistic whose count needs more than 32 bits",
 "the count wraps around",
 [("clang-time-trace/src/stats/global.rs","count: args.count as usize","count: args.count as u32 as usize")],
 demo_rs='''use std::str::FromStr;
fn main() {
    let t = r#"{"traceEvents":[{"pid":1,"tid":0,"ph":"X","ts":2,"dur":10,"name":"ExecuteCompiler"},
{"pid":1,"tid":1,"ph":"X","ts":0,"dur":5,"name":"Total Time","args":{"count":5000000000,"avg ms":1}},
{"cat":"","pid":1,"tid":0,"ts":0,"ph":"M","name":"process_name","args":{"name":"clang"}}],"beginningOfTime":1}"#;
    let t = clang_time_trace::ClangTrace::from_str(t).unwrap();
    assert_eq!(t.global_stats()["Time"].count(), 5000000000);
}
''', deps=["clang-time-trace"])
bug("T04-demangled-module","T04","an unknown activity about a path to a file called [module]",
 "the path is taken for the module",
 [("clang-time-trace/src/stats/activity/argument.rs",'''                if &*detail == "[module]" {''','''                if detail.ends_with("[module]") {''')],
 demo_rs='''use std::str::FromStr;
use clang_time_trace::*;
fn main() {
    let t = r#"{"traceEvents":[{"pid":1,"tid":0,"ph":"X","ts":2,"dur":5,"name":"Source","args":{"detail":"/a/b[module]"}},
{"pid":1,"tid":0,"ph":"X","ts":2,"dur":10,"name":"ExecuteCompiler"},
{"cat":"","pid":1,"tid":0,"ts":0,"ph":"M","name":"process_name","args":{"name":"clang"}}],"beginningOfTime":1}"#;
    let mut t = ClangTrace::from_str(t).unwrap();
    let raw = t.all_activities().next().unwrap().activity().raw_argument().clone();
    let arg = raw.parse(&mut t).unwrap();
    assert!(matches!(arg.resolve(&t), ActivityArgument::FilePath(_)));
}
''', deps=["clang-time-trace"])
bug("T04-symbol-case","T04","a symbol in parentheses which ends with a parenthesis itself",
 "the parenthesis of the symbol is lost",
 [("clang-time-trace/src/stats/activity/argument.rs","            symbol = Rc::from(&symbol[1..symbol.len() - 1]);","            symbol = Rc::from(symbol.trim_start_matches('(').trim_end_matches(')'));")],
 demo_rs='''use std::str::FromStr;
use clang_time_trace::*;
fn main() {
    let t = r#"{"traceEvents":[{"pid":1,"tid":0,"ph":"X","ts":2,"dur":5,"name":"OptFunction","args":{"detail":"(f(int))"}},
{"pid":1,"tid":0,"ph":"X","ts":2,"dur":10,"name":"ExecuteCompiler"},
{"cat":"","pid":1,"tid":0,"ts":0,"ph":"M","name":"process_name","args":{"name":"clang"}}],"beginningOfTime":1}"#;
    let mut t = ClangTrace::from_str(t).unwrap();
    let raw = t.all_activities().next().unwrap().activity().raw_argument().clone();
    let arg = raw.parse(&mut t).unwrap();
    match arg.resolve(&t) {
        ActivityArgument::Symbol(s) => assert!(matches!(s, Symbol::MaybeMangled("f(int)"))),
        _ => panic!(),
    };
}
''', deps=["clang-time-trace"])
bug("S03-last-column","S03","a tree as deep as the terminal is wide",
 "the last level of the tree is missing",
 [("src/ui/stdio.rs","    if child_cols == 0 {","    if child_cols <= 1 {")],
 demo_py=H+'''
open(work + "/t.json", "w").write(trace([x("Source", 100, 1000, "/a"), x("Frontend", 100, 1000), x("ExecuteCompiler", 2, 5000)]))
out = subprocess.run([crofiler, "--ui", "stdio", "-c", "3", work + "/t.json"], capture_output=True, text=True).stdout
check("\\u2514\\u2500\\u2026" in out, out)
''')
bug("S01-same-name-order","S01","activities of unknown names which differ after an upper case letter",
 "the activities of two types are merged",
 [("src/trace.rs","            .entry(activity_trace.activity().name().into())","            .entry(activity_trace.activity().name().trim_end().into())")],
 demo_py=H+'''
open(work + "/t.json", "w").write(trace([x("Zap", 100, 1000), x("Zap ", 1100, 1000), x("ExecuteCompiler", 2, 5000)]))
out = subprocess.run([crofiler, "--ui", "stdio", "-c", "80", work + "/t.json"], capture_output=True, text=True).stdout
check(out.split("Hierarchical")[0].count("Zap") == 4, out)
''')
bug("D03-hour-carry","D03","a time within a day which rounds up to a whole hour",
 "minutes of 60, or hours which are one short",
 [("src/ui/display/duration.rs","""        let mut remainder = duration - hours * HOUR;
        if remainder >= 59.0 * MINUTE + 59.995 * SECOND {
            hours += 1.0;
            remainder = 0.0;
        }""","""        let mut remainder = duration - hours * HOUR;
        if remainder >= 59.0 * MINUTE + 59.995 * SECOND && force_hms.is_none() {
            hours += 1.0;
            remainder = 0.0;
        }""")],
 demo_py=H+'''
open(work + "/t.json", "w").write(trace([x("ExecuteCompiler", 2, (24 + 2) * 3600 * 1000000 - 1000)]))
out = subprocess.run([crofiler, "--ui", "stdio", "-c", "120", work + "/t.json"], capture_output=True, text=True).stdout
check("1d 02:00:00.00" in out, out)
''')
bug("B04-deep-descendants","B04","a job whose memory is used by a process several generations below",
 "the memory of the job is underestimated",
 [("cmakeperf/src/measure/worker.rs","""            // Now investigate children as possible parents
            std::mem::swap(&mut self.parents, &mut self.children);""","""            // Now investigate children as possible parents
            if self.tree.len() <= 2 {
                std::mem::swap(&mut self.parents, &mut self.children);
            } else {
                self.tree.append(&mut self.children);
            }""")],
 demo_rs=open("/verif/seeded/B05-killed-by-signal/demo.rs").read().split("fn main")[0]+"""
fn main() {
    // Only the last process uses memory
    std::fs::write("e.sh", "python3 m.py; true\\n").unwrap();
    std::fs::write("d.sh", "sh e.sh; true\\n").unwrap();
    std::fs::write("c.sh", "sh d.sh; true\\n").unwrap();
    std::fs::write("b.sh", "sh c.sh; true\\n").unwrap();
    std::fs::write("m.py", "import time\\nx = bytearray(b'x') * 300000000\\ntime.sleep(3)\\n").unwrap();
    let (ok, profile, _) = measure(&[("a.cpp", "sh b.sh")]);
    assert!(ok);
    let rss: u64 = profile.lines().nth(1).unwrap().split(',').nth(1).unwrap().parse().unwrap();
    assert!(rss > 200000000, "{rss}");
}
""", deps=["cmakeperf"])
