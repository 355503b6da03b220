//! Stand-in for a compiler: logs its start and end, and does what its arguments say in between
//! vh-job LOG ID TAG op...
use std::{
    fs::{self, OpenOptions},
    io::{Read, Write},
    process::{exit, Command, Stdio},
    time::{Duration, Instant},
};

fn log(path: &str, line: &str) {
    match OpenOptions::new().append(true).create(true).open(path) {
        Ok(mut f) => {
            let _ = f.write_all(line.as_bytes());
        }
        Err(_) => exit(7),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (path, id, tag) = (&args[1], &args[2], &args[3]);
    let ops = &args[4..];
    let num = |s: &str| s.parse::<u64>().unwrap_or_else(|_| exit(8));
    let mut children = vec![];
    if ops.iter().any(|o| o == "deaf") {
        // SAFETY: plain call
        unsafe { libc::signal(libc::SIGTERM, libc::SIG_IGN) };
    }
    if id == "child" {
        log(path, &format!("C {tag} {}\n", std::process::id()));
    } else {
        // Descendants come first, so that they all exist once the start is logged
        for op in ops {
            if let Some(depth) = op.strip_prefix("fork:") {
                let depth = num(depth);
                let mut cmd = Command::new(std::env::current_exe().unwrap());
                cmd.args([path, "child", &format!("{tag}.{id}")]).arg("sleep:60000").stdin(Stdio::null());
                if depth > 1 {
                    cmd.arg(format!("grandchild:{}", depth - 1));
                }
                children.push(cmd.spawn().unwrap());
                let mine = format!("C {tag}.{id} ");
                let t0 = Instant::now();
                while fs::read_to_string(path).unwrap_or_default().lines().filter(|l| l.starts_with(&mine)).count() < depth as usize && t0.elapsed() < Duration::from_secs(20) {
                    std::thread::sleep(Duration::from_millis(3));
                }
            }
        }
        log(path, &format!("S {id} {}\n", std::process::id()));
    }
    for op in ops {
        if let Some(depth) = op.strip_prefix("grandchild:") {
            let mut cmd = Command::new(std::env::current_exe().unwrap());
            cmd.args([path, "child", tag]).arg("sleep:60000").stdin(Stdio::null());
            if num(depth) > 1 {
                cmd.arg(format!("grandchild:{}", num(depth) - 1));
            }
            children.push(cmd.spawn().unwrap());
        }
    }
    let mut i = 0;
    while i < ops.len() {
        let (op, val) = ops[i].split_once(':').unwrap_or((&ops[i], ""));
        match op {
            "out" | "err" | "bin" => {
                let n = num(val) as usize;
                let data: Vec<u8> = if op == "bin" { (0..n).map(|i| (i * 7 + 128) as u8).collect() } else { "warning: x\n".bytes().cycle().take(n).collect() };
                let _ = if op == "err" { std::io::stderr().write_all(&data) } else { std::io::stdout().write_all(&data).and_then(|()| std::io::stdout().flush()) };
            }
            "sleep" => std::thread::sleep(Duration::from_millis(num(val))),
            "hog" => {
                let (mb, ms) = val.split_once('x').unwrap_or_else(|| exit(8));
                let mut v = vec![0u8; num(mb) as usize * 1_000_000];
                for b in v.iter_mut().step_by(4096) {
                    *b = 1;
                }
                std::thread::sleep(Duration::from_millis(num(ms)));
                std::hint::black_box(&v);
            }
            "stdin" => {
                let mut v = vec![];
                let _ = std::io::stdin().read_to_end(&mut v);
                if !v.is_empty() {
                    exit(5);
                }
            }
            // The next argument is the hexadecimal form of the one after it
            "arg" => {
                let hex: String = ops.get(i + 2).map(|a| a.bytes().map(|b| format!("{b:02x}")).collect()).unwrap_or("missing".into());
                if ops.get(i + 1) != Some(&hex) {
                    exit(6);
                }
                i += 2;
            }
            // Wait until that many jobs have started
            "meet" => {
                let t0 = Instant::now();
                while fs::read_to_string(path).unwrap_or_default().lines().filter(|l| l.starts_with("S ")).count() < num(val) as usize {
                    if t0.elapsed() > Duration::from_secs(20) {
                        exit(9);
                    }
                    std::thread::sleep(Duration::from_millis(5));
                }
            }
            "exit" => exit(num(val) as i32),
            "abort" => std::process::abort(),
            "hogchild" => {
                let st = Command::new(std::env::current_exe().unwrap()).args([path, "child", tag, &format!("hog:{val}")]).stdin(Stdio::null()).status();
                if !st.is_ok_and(|s| s.success()) {
                    exit(10);
                }
            }
            // Several processes which use memory at the same time
            "hogmany" => {
                let (n, val) = val.split_once('x').unwrap_or_else(|| exit(8));
                let mut hogs = vec![];
                for _ in 0..num(n) {
                    hogs.push(Command::new(std::env::current_exe().unwrap()).args([path, "child", tag, &format!("hog:{val}")]).stdin(Stdio::null()).spawn().unwrap());
                }
                for mut h in hogs {
                    if !h.wait().is_ok_and(|s| s.success()) {
                        exit(10);
                    }
                }
            }
            // A descendant of some generation which uses memory
            "hogdeep" => {
                let (n, val) = val.split_once('x').unwrap_or_else(|| exit(8));
                let next = if num(n) > 1 { format!("hogdeep:{}x{val}", num(n) - 1) } else { format!("hog:{val}") };
                let st = Command::new(std::env::current_exe().unwrap()).args([path, "child", tag, &next]).stdin(Stdio::null()).status();
                if !st.is_ok_and(|s| s.success()) {
                    exit(10);
                }
            }
            // A child which is only started once there is a file for it to be
            "latefork" => {
                let go = std::path::Path::new(path).with_file_name("go");
                while !go.exists() {
                    std::thread::sleep(Duration::from_millis(2));
                }
                let depth = num(val);
                let mut cmd = Command::new(std::env::current_exe().unwrap());
                cmd.args([path, "child", tag]).arg("sleep:60000").stdin(Stdio::null());
                if depth > 1 {
                    cmd.arg(format!("grandchild:{}", depth - 1));
                }
                children.push(cmd.spawn().unwrap());
            }
            // Something which keeps the output open once the job has ended
            "linger" => {
                let _ = Command::new(std::env::current_exe().unwrap()).args([path, "child", tag, &format!("sleep:{val}")]).stdin(Stdio::null()).spawn().unwrap();
            }
            "deaf" => {}
            "fork" | "grandchild" => {}
            _ => exit(8),
        }
        i += 1;
    }
    for mut c in children {
        let _ = c.wait();
    }
    if id != "child" {
        log(path, &format!("E {id}\n"));
    }
}
