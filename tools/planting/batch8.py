exec(open("/tmp/plant/mk.py").read())
H=open("/verif/tools/planting/tuihelp.py").read()
bug("P01-surrogate","P01","an escaped character which is not one, as half of a surrogate pair",
 "the parser panics",
 [("cpparser/src/subparsers/values/literals.rs","                .map_res(|u| char::from_u32(u).ok_or(())),","                .map(|u| char::from_u32(u).unwrap_or_else(|| unreachable!())),")],
 demo_rs='''fn main() {
    assert!(cpparser::EntityParser::new().parse_entity("A<'\\\\ud800'>").is_err());
}
''', deps=["cpparser"])
bug("S02-zero-duration","S02","a callee without any duration, below the threshold",
 "it is not counted among those left out",
 [("src/ui/stdio.rs","    let num_children = root.direct_children().count();","""    let num_children = root
        .direct_children()
        .filter(|child| child.duration() > 0.0 || threshold == 0.0)
        .count();""")],
 demo_py=H+'''
open(work + "/t.json", "w").write(trace([x("Frontend", 100, 400), x("Backend", 600, 100), x("OptFunction", 800, 0, "foo"), x("ExecuteCompiler", 2, 1000)]))
o = subprocess.run([crofiler, "--ui", "stdio", "-i", "5", work + "/t.json"], capture_output=True, text=True).stdout
o = o[o.index("Hierarchical"):]
check("1 callee(s)" in o, o)
''')
bug("S02-whole-child","S02","a callee which lasts exactly as long as its caller",
 "it is missing from the hierarchical profile, and not counted among those left out",
 [("src/ui/stdio.rs","    let num_children = root.direct_children().count();","    let whole = root.duration();\n    let num_children = (root.direct_children()).filter(|c| c.duration() < whole || whole == 0.0).count();"),
  ("src/ui/stdio.rs","        root.direct_children(),\n        |a| a.duration() * duration_norm,","        (root.direct_children()).filter(|c| c.duration() < whole || whole == 0.0),\n        |a| a.duration() * duration_norm,")],
 demo_py=H+'''
open(work + "/t.json", "w").write(trace([x("Frontend", 100, 400), x("ExecuteCompiler", 100, 400)]))
o = subprocess.run([crofiler, "--ui", "stdio", work + "/t.json"], capture_output=True, text=True).stdout
o = o[o.index("Hierarchical"):]
check("Frontend" in o, o)
''')
bug("P05-wide","P05","a very wide terminal, and a name which does not fit in 500 columns",
 "parts of the name are left out",
 [("simpp/src/main.rs","bounded_display(args.max_cols)","bounded_display(args.max_cols.min(500))")],
 demo_py='''
import subprocess, sys
repo = sys.argv[1]
subprocess.run(["cargo", "build", "-q", "--offline", "-p", "simpp"], cwd=repo, check=True)
name = "A<" + ", ".join(f"B{i}" for i in range(150)) + ">"
o = subprocess.run([repo + "/target/debug/simpp", "-c", "2000", name], capture_output=True, text=True).stdout
sys.exit(o.strip() != name)
''')
bug("D01-wide-header","D01","a wide character at the place where the beginning is cut",
 "a column is left unused",
 [("src/ui/display/mod.rs","let max_trailer_cols = max_cols - 1 - header_cols;","let max_trailer_cols = max_cols - 1 - max_header_cols;")],
 demo_rs='''use crofiler::verif::*;
fn main() {
    let mut o = vec![];
    display_string(&mut o, "\\u{4e00}abcdefgh", DisplayConfig::SingleLine { max_cols: 4 }).unwrap();
    assert_eq!(String::from_utf8(o).unwrap(), "…fgh");
}
''', deps=['crofiler = { path = "lib" }'])
bug("A01-pop-empty","A01","taking back more items than were added, when others have been interned before",
 "an item of another sequence is lost",
 [("asylum/src/sequence.rs","if self.interner.concatenated.len() > self.initial_concatenated_len {\n            self.interner.concatenated.pop()","if self.interner.concatenated.len() > self.initial_concatenated_len.min(8) {\n            self.interner.concatenated.pop()")],
 demo_rs='''use asylum::sequence::*;
fn main() {
    let mut i = SequenceInterner::<u8>::new();
    i.intern(b"0123456789");
    assert_eq!(i.entry().pop(), None);
}
''', deps=["asylum"])
bug("P03-abandoned-entry","P03","names whose first interpretation is given up half-way",
 "what was read before gets into other entities",
 [("cpparser/src/interning/recursion.rs","            if let Some(mut sequence) = inner.storage.pop() {\n                sequence.clear();\n                sequence\n","            if let Some(mut sequence) = inner.storage.pop() {\n                sequence.truncate(if sequence.len() > 24 { 1 } else { 0 });\n                sequence\n")],
 demo_rs='''fn main() {
    let mut p = cpparser::EntityParser::new();
    let args = vec!["B"; 30].join(", ");
    let _ = p.parse_entity(&format!("A<{args}>"));
    let k = p.parse_entity("C<D>").unwrap();
    assert_eq!(p.entity(k).to_string(), "C<D>");
}
''', deps=["cpparser"])
