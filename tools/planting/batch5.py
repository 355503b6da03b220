exec(open("/tmp/plant/mk.py").read())
ROUND='''use cpparser::{EntityParser, display::CustomDisplay};
fn main() {
    for s in [%s] {
        let mut p = EntityParser::new();
        let k = p.parse_entity(s).unwrap();
        let full = p.entity(k).to_string();
        assert_eq!(full, s);
        assert_eq!(p.entity(k).bounded_display(1000), full);
    }
}
'''
bug("P02-late-cv","P02","a restricted pointer whose cv-qualifiers come after `__restrict`",
 "the qualifiers after it are lost",
 [("cpparser/src/subparsers/types/declarators.rs",".map(|(cv1, restrict, cv2)| (cv1 | cv2, restrict))",".map(|(cv1, restrict, cv2)| (if restrict { cv1 } else { cv1 | cv2 }, restrict))")],
 demo_rs='''use cpparser::EntityParser;
fn main() {
    let mut p = EntityParser::new();
    let k = p.parse_entity("f(char * __restrict const)").unwrap();
    assert_eq!(p.entity(k).to_string(), "f(char* const restrict)");
}
''', deps=["cpparser"])
bug("P04-member-pointer-depth","P04","a pointer to a member of the deepest part of an entity",
 "the bounded display elides although there is room",
 [("cpparser/src/subparsers/types/declarators.rs","            Self::Pointer { path, .. } => path.recursion_depth(),\n","            Self::Pointer { .. } => 0,\n")],
 demo_rs=ROUND%'"f(int A<B<C<D>>>::*)", "f(int A::*)"', deps=["cpparser"])
bug("P04-void-parameters-depth","P04","clang's `<, void>` as the deepest part of an entity",
 "the bounded display elides although there is room",
 [("cpparser/src/subparsers/templates.rs","""            list.recursion_depth()
        } else {
            1
        }""","""            list.recursion_depth()
        } else {
            0
        }""")],
 demo_rs=ROUND%'"A<B<, void>>", "A<, void>"', deps=["cpparser"])
bug("P02-far-character","P02","a character literal with a code beyond the first plane",
 "the character literal is changed",
 [("cpparser/src/subparsers/values/literals.rs","write!(f, \"'\\\\u{code:04x}'\")","write!(f, \"'\\\\u{:04x}'\", code as u16)")],
 demo_rs='''use cpparser::EntityParser;
fn main() {
    let mut p = EntityParser::new();
    let k = p.parse_entity("A<'\\\\U000e0001'>").unwrap();
    let once = p.entity(k).to_string();
    let k2 = p.parse_entity(&once).unwrap();
    assert!(k == k2, "{once}");
}
''', deps=["cpparser"])
bug("P03-custom-suffix","P03","literals which only differ in their user-defined suffix, for characters",
 "two different entities are the same",
 [("cpparser/src/subparsers/values/literals.rs","""            .map(|(value, custom_suffix)| Literal {
                value,
                custom_suffix,
            })""","""            .map(|(value, custom_suffix)| Literal {
                value,
                custom_suffix: custom_suffix.filter(|_| !matches!(value, LiteralValue::U64(_))),
            })""")],
 demo_rs='''use cpparser::EntityParser;
fn main() {
    let mut p = EntityParser::new();
    let a = p.parse_entity("A<18446744073709551615_km>").unwrap();
    let b = p.parse_entity("A<18446744073709551615_mi>").unwrap();
    assert!(a != b);
}
''', deps=["cpparser"])
bug("A01-pop-into-previous","A01","more pops than pushes in a sequence under construction",
 "items of the previous sequence are removed",
 [("asylum/src/sequence.rs","        if self.interner.concatenated.len() > self.initial_concatenated_len {\n            self.interner.concatenated.pop()","        if self.interner.concatenated.len() >= self.initial_concatenated_len.max(1) {\n            self.interner.concatenated.pop()")],
 demo_rs='''use asylum::sequence::{SequenceInterner, SequenceKey};
use asylum::lasso::Spur;
fn main() {
    let mut i = SequenceInterner::<u8, SequenceKey<Spur, 8>>::new();
    let k = i.intern(&[1, 2, 3]);
    let mut e = i.entry();
    e.pop();
    drop(e);
    assert_eq!(i.get(k), &[1, 2, 3]);
}
''', deps=["asylum"])
bug("A02-relative-remembered","A02","a relative path, then a look at the number of paths",
 "a rejected path is interned all the same",
 [("asylum/src/path.rs","""        // Make sure the path is absolute
        if path.is_relative() {
            return Err(PathError::RelativePath(
                path.to_path_buf().into_boxed_path(),
            ));
        }
""",""),
  ("asylum/src/path.rs","""        // Intern the sequence that makes up the path
        Ok(sequence.intern())
""","""        // Intern the sequence that makes up the path
        let key = sequence.intern();

        // Make sure the path is absolute
        if path.is_relative() {
            return Err(PathError::RelativePath(
                path.to_path_buf().into_boxed_path(),
            ));
        }
        Ok(key)
""")],
 demo_rs='''use asylum::path::PathInterner;
use asylum::lasso::Spur;
fn main() {
    let mut i = PathInterner::<Spur>::new();
    assert!(i.intern("a/b").is_err());
    assert_eq!(i.len(), 0);
}
''', deps=["asylum"])
bug("B01-lookup-suffix","B01","looking up a path which is only the end of the path of an entry",
 "an entry with another file is found",
 [("cmakeperf/src/commands.rs","        self.0.get(input_path)\n","        self.0\n            .get(input_path)\n            .or_else(|| self.entries().find(|entry| entry.input().ends_with(input_path)))\n")],
 demo_rs='''use cmakeperf::commands::CompilationDatabase;
use std::path::Path;
fn main() {
    let db: CompilationDatabase = r#"[{"directory":"/d","command":"c++ -c /d/a/b.cpp","file":"/d/a/b.cpp"}]"#.parse().unwrap();
    assert!(db.entry(Path::new("a/b.cpp")).is_none());
    assert!(db.entry(Path::new("/d/a/b.cpp")).is_some());
}
''', deps=["cmakeperf"])
bug("B02-missing-input","B02","a profile whose input files are partly missing",
 "a check that cannot be made says that the product is fresh",
 [("cmakeperf/src/commands.rs","            if product_mtime < input.metadata()?.modified()? {\n","            let Ok(metadata) = input.metadata() else {\n                continue;\n            };\n            if product_mtime < metadata.modified()? {\n")],
 demo_rs='''use cmakeperf::commands::{CompilationDatabase, ProductFreshness};
use std::path::Path;
fn main() {
    let dir = std::env::temp_dir().join(format!("b02demo{}", std::process::id()));
    std::fs::create_dir(&dir).unwrap();
    std::env::set_current_dir(&dir).unwrap();
    let file = dir.join("gone.cpp");
    let text = format!("[{{\\"directory\\":{dir:?},\\"command\\":\\"c++ -c gone.cpp\\",\\"file\\":{file:?}}}]");
    std::fs::write("compile_commands.json", &text).unwrap();
    std::fs::write("p.csv", "").unwrap();
    let db: CompilationDatabase = text.parse().unwrap();
    let r = db.profile_freshness(Path::new("p.csv"));
    std::env::set_current_dir("/").unwrap();
    std::fs::remove_dir_all(&dir).unwrap();
    assert!(!matches!(r, Ok(ProductFreshness::MaybeOutdated(_))), "{r:?}");
}
''', deps=["cmakeperf"])
bug("B02-future-age","B02","a product from the future",
 "it has an age",
 [("cmakeperf/src/commands.rs","            product_mtime.elapsed().ok(),\n","            Some(product_mtime.elapsed().unwrap_or_else(|e| e.duration())),\n")],
 demo_rs='''use cmakeperf::commands::{CompilationDatabase, ProductFreshness};
use std::path::Path;
fn main() {
    let dir = std::env::temp_dir().join(format!("b02demo{}", std::process::id()));
    std::fs::create_dir(&dir).unwrap();
    std::env::set_current_dir(&dir).unwrap();
    std::fs::write("compile_commands.json", "[]").unwrap();
    std::fs::write("p.csv", "").unwrap();
    let f = std::fs::File::options().write(true).open("p.csv").unwrap();
    f.set_modified(std::time::SystemTime::now() + std::time::Duration::from_secs(5000)).unwrap();
    let db: CompilationDatabase = "[]".parse().unwrap();
    let r = db.profile_freshness(Path::new("p.csv")).unwrap();
    std::env::set_current_dir("/").unwrap();
    std::fs::remove_dir_all(&dir).unwrap();
    assert_eq!(r, ProductFreshness::MaybeOutdated(None));
}
''', deps=["cmakeperf"])
bug("B03-short-rows","B03","a row with fewer fields than the header",
 "a damaged table is accepted",
 [("cmakeperf/src/output.rs","    let reader = match csv::Reader::from_path(path.as_ref()) {","    let reader = match csv::ReaderBuilder::new()\n        .flexible(true)\n        .from_path(path.as_ref())\n    {")],
 demo_rs='''fn main() {
    let f = std::env::temp_dir().join(format!("b03demo{}.csv", std::process::id()));
    std::fs::write(&f, "file,max_rss,time\\na.cpp,12,1.5\\nb.cpp,1\\n").unwrap();
    let r = cmakeperf::output::load(&f);
    std::fs::remove_file(&f).unwrap();
    assert!(r.is_err());
}
''', deps=["cmakeperf"])
MEAS='''use cmakeperf::{commands::{CompilationDatabase, DatabaseEntry}, measure::Measurement};
use std::{path::PathBuf, sync::mpsc, time::Duration};
'''
MEASDEMO=MEAS+'''fn main() {
    let dir = std::env::temp_dir().join(format!("b04demo{}", std::process::id()));
    std::fs::create_dir_all(dir.join("build")).unwrap();
    std::fs::create_dir_all(dir.join("src")).unwrap();
    std::env::set_current_dir(dir.join("build")).unwrap();
    let command = %s;
    let db = CompilationDatabase::from_entries([DatabaseEntry::new(dir.join("build"), command, dir.join("src/a.cpp"), None::<PathBuf>)]);
    let (s, r) = mpsc::channel();
    let m = Measurement::start(PathBuf::from("%s"), &db, true, None, || {}, move |x| s.send(x.is_ok()).unwrap());
    let ok = r.recv_timeout(Duration::from_secs(20));
    drop(m);
    let profile = cmakeperf::output::load("p.csv");
    std::env::set_current_dir("/").unwrap();
    std::fs::remove_dir_all(&dir).unwrap();
    %s
}
'''
bug("B04-file-outside","B04","a source file outside of the working directory",
 "its path is not relative to the working directory",
 [("cmakeperf/src/measure/worker.rs",".and_then(|workdir| pathdiff::diff_paths(job.input(), workdir))",".and_then(|workdir| Some(job.input().strip_prefix(workdir).ok()?.to_owned()))")],
 demo_rs=MEASDEMO%('"true"','p.csv','assert_eq!(ok, Ok(true)); assert_eq!(profile.unwrap()[0].rel_path(), std::path::Path::new("../src/a.cpp"));'), deps=["cmakeperf"])
bug("B04-last-memory","B04","a job which uses less memory at its end than before",
 "the memory recorded is the last seen, not the peak",
 [("cmakeperf/src/measure/worker.rs","max_rss_bytes = max_rss_bytes.max(tree.memory(&system));","max_rss_bytes = tree.memory(&system).max(1);")],
 demo_rs=MEASDEMO%('"python3 -c \'import time; x=bytearray(300000000); time.sleep(1); del x; time.sleep(2)\'"','p.csv','assert_eq!(ok, Ok(true)); assert!(profile.unwrap()[0].max_rss_bytes() > 250000000);'), deps=["cmakeperf"])
bug("B05-unflushed","B05","a profile which cannot be written, as on a full device",
 "the measurement reports success",
 [("cmakeperf/src/measure/main.rs","            writer.flush()?;\n            Ok(())","            if let Err(e) = writer.flush() {\n                log::error!(\"Failed to finish the profile: {e}\");\n            }\n            Ok(())")],
 demo_rs=MEASDEMO%('"true"','/dev/full','drop(profile); assert_eq!(ok, Ok(false));'), deps=["cmakeperf"])
H=open("/verif/tools/planting/tuihelp.py").read()
bug("C01-wide-version","C01","a major version of at least 256",
 "a supported version is rejected",
 [("src/clang.rs","major_version.as_str().parse::<usize>()","major_version.as_str().parse::<u8>().map(usize::from)")],
 demo_py=H+'''
os.mkdir(work + "/bin"); open(work + "/bin/clang++", "w").write("#!/bin/sh\\necho 'clang version 300.0.7'\\n"); os.chmod(work + "/bin/clang++", 0o755)
open(f"{work}/a.cpp", "w").write("")
open(work + "/compile_commands.json", "w").write(json.dumps([{"directory": work, "command": "clang++ -o a.o -c a.cpp", "file": f"{work}/a.cpp"}]))
open(work + "/cmakeperf.csv", "w").write("file,max_rss,time\\n\\"a.cpp\\",2000000000,\\n")
t = Tui([crofiler], work, env={"PATH": work + "/bin:" + os.environ["PATH"]})
s = t.wait(lambda s: "a.cpp" in s or "unexpected" in s)
check("unexpected" not in s, s)
''')
bug("S01-exact-share","S01","an activity whose share of time is exactly the requested one",
 "it is left out",
 [("src/trace.rs","        .filter(|a| duration(a) >= threshold)","        .filter(|a| duration(a) > threshold || threshold == 0.0)")],
 demo_py='''import json, os, subprocess, sys, tempfile
repo = sys.argv[1]
E = lambda name, ts, dur, **a: {"pid": 1, "tid": 1, "ph": "X", "ts": ts, "dur": dur, "name": name, **({"args": a} if a else {})}
ev = [E("Frontend", 1000, 500), E("ExecuteCompiler", 1000, 1000),
      {"pid": 1, "tid": 1, "ph": "M", "ts": 0, "cat": "", "name": "process_name", "args": {"name": "clang"}}]
f = tempfile.NamedTemporaryFile("w", suffix=".json", delete=False)
json.dump({"traceEvents": ev, "beginningOfTime": 1}, f); f.close()
p = subprocess.run([repo + "/target/debug/crofiler", "--ui=stdio", "-s", "50", "-i", "50", "-c", "200", f.name], capture_output=True, text=True)
os.remove(f.name)
sys.exit(p.returncode or p.stdout.count("Frontend") != 3)
''')
