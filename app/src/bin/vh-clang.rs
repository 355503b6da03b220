//! Stand-in for compilers: does what the file $VH_PLAN/<program>-<source file>
//! tells, after writing down how it was called
use std::{
    io::{Read, Write},
    path::{Path, PathBuf},
    time::{Duration, Instant},
};

#[path = "../ops.rs"]
mod ops;
use ops::Op;

fn main() {
    let plan = PathBuf::from(std::env::var_os("VH_PLAN").expect("no plan"));
    let args: Vec<String> = std::env::args_os().map(|a| a.to_string_lossy().to_string()).collect();
    let program = Path::new(&args[0]).file_name().map(|f| f.to_string_lossy().to_string()).unwrap_or_default();
    let version = args.get(1).is_some_and(|a| a == "--version");
    let what = match args.last() {
        _ if version => "version".to_string(),
        Some(l) => Path::new(l).file_name().map(|f| f.to_string_lossy().to_string()).unwrap_or_default(),
        None => String::new(),
    };
    let cwd = std::env::current_dir().unwrap_or_default();
    let pid = std::process::id();
    let log = serde_json::json!({ "program": program, "args": args[1..], "cwd": cwd, "pid": pid });
    let temporary = plan.join(format!("tmp-{pid}"));
    std::fs::write(&temporary, log.to_string()).expect("log");
    std::fs::rename(&temporary, plan.join(format!("ran-{program}-{what}-{pid}"))).expect("log");
    let Ok(text) = std::fs::read_to_string(plan.join(format!("{program}-{what}"))) else { std::process::exit(77) };
    let ops: Vec<Op> = serde_json::from_str(&text).expect("plan");
    let mut held = vec![];
    for op in ops {
        match op {
            Op::Write { path, text, append } => {
                let mut f = std::fs::File::options().create(true).write(true).truncate(!append).append(append).open(path).expect("write");
                f.write_all(text.as_bytes()).expect("write");
            }
            Op::Remove(p) => drop(std::fs::remove_file(p)),
            Op::Sleep(ms) => std::thread::sleep(Duration::from_millis(ms)),
            Op::Gate(name) => {
                std::fs::write(plan.join(format!("at-{name}")), "").expect("gate");
                let start = Instant::now();
                while !plan.join(format!("go-{name}")).exists() {
                    if start.elapsed() > Duration::from_secs(100) {
                        std::process::exit(78);
                    }
                    std::thread::sleep(Duration::from_millis(3));
                }
            }
            Op::Out(s) => {
                print!("{s}");
                let _ = std::io::stdout().flush();
            }
            Op::Err(s) => eprint!("{s}"),
            Op::Bytes(b) => {
                let _ = std::io::stdout().write_all(&b);
                let _ = std::io::stdout().flush();
            }
            Op::ErrBytes(b) => drop(std::io::stderr().write_all(&b)),
            Op::Read => {
                let mut all = vec![];
                if std::io::stdin().read_to_end(&mut all).is_err() || !all.is_empty() {
                    std::process::exit(79);
                }
            }
            Op::Flood { err, text, times } => {
                let all = text.repeat(times);
                let done = if err {
                    std::io::stderr().write_all(all.as_bytes())
                } else {
                    std::io::stdout().write_all(all.as_bytes()).and_then(|()| std::io::stdout().flush())
                };
                if done.is_err() {
                    // Nobody reads that
                    std::process::exit(80);
                }
            }
            Op::Stubborn => unsafe {
                libc::signal(libc::SIGTERM, libc::SIG_IGN);
                libc::signal(libc::SIGHUP, libc::SIG_IGN);
                libc::signal(libc::SIGINT, libc::SIG_IGN);
            },
            Op::Exit(code) => std::process::exit(code),
            Op::Signal(n) => unsafe {
                libc::signal(n, libc::SIG_DFL);
                libc::raise(n);
            },
            Op::Hold(n) => held.push(vec![1u8; n]),
        }
    }
    drop(held);
}
