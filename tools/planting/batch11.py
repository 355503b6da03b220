exec(open("/tmp/plant/mk.py").read())
M='''use cmakeperf::{commands::{CompilationDatabase, DatabaseEntry}, measure::Measurement};
use std::{path::PathBuf, sync::mpsc, time::Duration};
#[allow(unused)]
fn measure(time: bool, jobs: &[(&str, &str)]) -> (Option<bool>, String, PathBuf) {
    let dir = std::env::current_dir().unwrap();
    let out = dir.join("profile.csv");
    let db = CompilationDatabase::from_entries(jobs.iter().map(|(f, c)| DatabaseEntry::new(dir.clone(), *c, dir.join(f), None)));
    let (s, r) = mpsc::channel();
    let m = Measurement::start(&*out, &db, time, None, || {}, move |x: Result<(), _>| { s.send(x.is_ok()).unwrap() });
    let ok = r.recv_timeout(Duration::from_secs(30)).ok();
    drop(m);
    (ok, std::fs::read_to_string(&out).unwrap_or_default(), out)
}
'''
W="cmakeperf/src/measure/worker.rs"
bug("B04-time-of-output","B04","a job which leaves something in the background that keeps its output open",
 "its wall-clock time is that of what it has left",
 [(W,"    let wall_time = start.map(|start| start.elapsed());\n\n",""),
  (W,"    report_process(output, exit_status)?;\n","    report_process(output, exit_status)?;\n    let wall_time = start.map(|start| start.elapsed());\n")],
 demo_rs=M+'''
fn main() {
    let (ok, _, out) = measure(true, &[("a.cpp", "sh -c 'sleep 3 & exit 0'")]);
    assert_eq!(ok, Some(true));
    let t = cmakeperf::output::load(out).unwrap()[0].wall_time().unwrap().unwrap();
    assert!(t < Duration::from_secs(2), "{t:?}");
}
''', deps=["cmakeperf"])
bug("B04-output-bytes","B04","a job which prints bytes that are not UTF-8",
 "the measurement fails",
 [(W,"            String::from_utf8_lossy(&buf).into_owned()","            String::from_utf8(buf).expect(\"Jobs should print text\")")],
 demo_rs=M+'''
fn main() {
    let (ok, _, _) = measure(false, &[("a.cpp", "printf '\\\\377'")]);
    assert_eq!(ok, Some(true));
}
''', deps=["cmakeperf"])
bug("B05-deaf-job","B05","cancelling while a job ignores the polite signal",
 "the job is waited for",
 [(W,"    if let Err(e) = process.kill().and_then(|()| process.wait()) {","    if let Err(e) = process.wait() {")],
 demo_rs=M+'''
fn main() {
    let dir = std::env::current_dir().unwrap();
    let db = CompilationDatabase::from_entries([DatabaseEntry::new(dir.clone(), "python3 -c 'import signal, time; signal.signal(15, signal.SIG_IGN); open(\\"ready\\", \\"w\\"); time.sleep(20)'", dir.join("a.cpp"), None)]);
    let m = Measurement::start(dir.join("p.csv"), &db, false, None, || {}, |_| {});
    while !dir.join("ready").exists() { std::thread::sleep(Duration::from_millis(50)); }
    let t = std::time::Instant::now();
    drop(m);
    assert!(t.elapsed() < Duration::from_secs(10), "{:?}", t.elapsed());
}
''', deps=["cmakeperf"])
