//! Scratch build directories with stand-in compilers, for the interactive program

use crate::{
    ops::Op,
    tui::{self, Screen, Tui},
};
use serde::Deserialize;
use std::{
    ffi::CString,
    os::unix::ffi::OsStrExt,
    path::{Path, PathBuf},
    process::Command,
    sync::atomic::{AtomicU64, Ordering},
    time::{Duration, Instant, SystemTime, UNIX_EPOCH},
};
use vcommon::{CaseResult, Env};

/// What a stand-in wrote about one of its runs
#[derive(Clone, Debug, Deserialize)]
pub struct Ran {
    pub args: Vec<String>,
    pub cwd: PathBuf,
    pub pid: u32,
}

/// Build directory; removed in the end
pub struct Site {
    pub root: PathBuf,
    env_bins: PathBuf,
}
pub fn stand_in() -> PathBuf {
    std::env::current_exe().ok().and_then(|p| p.parent().map(|p| p.join("vh-clang"))).unwrap_or_default()
}
fn io<T>(what: &str, r: std::io::Result<T>) -> Result<T, String> {
    r.map_err(|e| format!("harness: {what}: {e}"))
}
impl Site {
    /// `programs` are the stand-ins to be found
    pub fn new(env: &Env, programs: &[&str]) -> Result<Site, String> {
        static NUMBER: AtomicU64 = AtomicU64::new(0);
        let root = env.scratch.join(format!("site{}", NUMBER.fetch_add(1, Ordering::Relaxed)));
        let _ = std::fs::remove_dir_all(&root);
        for d in ["bin", "plan", "src"] {
            io("directory", std::fs::create_dir_all(root.join(d)))?;
        }
        let root = io("path", root.canonicalize())?;
        let site = Site { root, env_bins: env.bins.clone() };
        for p in programs {
            site.install(p)?;
        }
        Ok(site)
    }
    pub fn install(&self, program: &str) -> CaseResult {
        io("link", std::os::unix::fs::symlink(stand_in(), self.path("bin").join(program)))
    }
    pub fn path(&self, p: &str) -> PathBuf {
        self.root.join(p)
    }
    pub fn write(&self, p: impl AsRef<Path>, text: impl AsRef<[u8]>) -> CaseResult {
        io("write", std::fs::write(self.root.join(p), text))
    }
    pub fn read(&self, p: impl AsRef<Path>) -> Option<String> {
        std::fs::read(self.root.join(p)).ok().map(|b| String::from_utf8_lossy(&b).to_string())
    }
    pub fn plan(&self, program: &str, what: &str, ops: &[Op]) -> CaseResult {
        self.write(format!("plan/{program}-{what}"), serde_json::to_string(ops).map_err(|e| e.to_string())?)
    }
    /// A compiler that the program accepts
    pub fn good_clang(&self) -> CaseResult {
        self.plan("clang++", "version", &[Op::Out("clang version 14.0.6\nTarget: somewhere\n".into())])
    }
    pub fn start(&self, width: usize, height: usize, args: &[&str]) -> Result<Tui, String> {
        self.start_delayed(width, height, args, "")
    }
    /// Start the program, some calls of which are delayed
    pub fn start_delayed(&self, width: usize, height: usize, args: &[&str], delays: &str) -> Result<Tui, String> {
        let mut command = Command::new(self.env_bins.join("crofiler"));
        if !delays.is_empty() {
            // $VERIF_BINS is TARGET/repo/debug
            let lib = self.env_bins.join("../../debug/libvh_delay.so");
            let lib = lib.canonicalize().map_err(|e| format!("harness: {}: {e}", lib.display()))?;
            command.env("LD_PRELOAD", lib).env("VH_DELAYS", delays);
        }
        command.args(args).current_dir(&self.root).env("PATH", self.path("bin")).env("VH_PLAN", self.path("plan"));
        Tui::start(command, width, height, self.path("stderr"))
    }
    /// Runs of a program on a file
    pub fn ran(&self, program: &str, what: &str) -> Vec<Ran> {
        let prefix = if program.is_empty() { "ran-".into() } else { format!("ran-{program}-{what}") };
        let Ok(dir) = std::fs::read_dir(self.path("plan")) else { return vec![] };
        let mut runs: Vec<Ran> = dir
            .flatten()
            .filter(|e| e.file_name().to_string_lossy().starts_with(&prefix))
            .filter_map(|e| serde_json::from_slice(&std::fs::read(e.path()).ok()?).ok())
            .collect();
        runs.sort_by_key(|r| r.pid);
        runs
    }
    /// Forget about past runs
    pub fn forget_runs(&self) {
        for e in std::fs::read_dir(self.path("plan")).into_iter().flatten().flatten() {
            let name = e.file_name().to_string_lossy().to_string();
            if name.starts_with("ran-") || name.starts_with("at-") || name.starts_with("go-") {
                let _ = std::fs::remove_file(e.path());
            }
        }
    }
    /// Stand-ins which still exist, maybe even as zombies
    pub fn alive(&self, zombies: bool) -> Vec<u32> {
        let mut pids: Vec<u32> = self.ran("", "").iter().map(|r| r.pid).collect();
        pids.retain(|pid| {
            let stat = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
            let name = stat.split_once('(').and_then(|(_, s)| s.rsplit_once(')')).map(|(n, _)| n.to_string()).unwrap_or_default();
            let zombie = stat.rsplit(')').next().is_some_and(|s| s.trim_start().starts_with('Z'));
            (zombies || !zombie) && (name == "clang++" || name == "cc" || name == "vh-clang")
        });
        pids
    }
    pub fn wait_all_gone(&self, tui: &mut Tui) -> CaseResult {
        let start = Instant::now();
        // Once the program has ended, others must look after zombies
        while !self.alive(tui.ended().is_none()).is_empty() {
            if start.elapsed() > Duration::from_secs(5) {
                let states: Vec<String> = self
                    .alive(true)
                    .iter()
                    .map(|p| std::fs::read_to_string(format!("/proc/{p}/stat")).unwrap_or_default().chars().take(40).collect())
                    .collect();
                return Err(format!("processes of the measurement still exist: {states:?}"));
            }
            tui.pump(Duration::from_millis(5));
        }
        Ok(())
    }
    /// Wait until a stand-in is at some gate
    pub fn at_gate(&self, tui: &mut Tui, name: &str) -> CaseResult {
        let start = Instant::now();
        while !self.path("plan").join(format!("at-{name}")).exists() {
            if start.elapsed() > tui.patience() {
                tui.hurry();
                return Err(format!("the compiler does not get to {name:?}; the screen is:\n{}", tui.screen.dump()));
            }
            if let Some(s) = tui.ended() {
                return Err(format!("the program ended ({s}) before the compiler got to {name:?}: {}", tui.stderr()));
            }
            tui.pump(Duration::from_millis(2));
        }
        Ok(())
    }
    pub fn open_gate(&self, name: &str) -> CaseResult {
        self.write(format!("plan/go-{name}"), "")
    }
    pub fn is_at_gate(&self, name: &str) -> bool {
        self.path("plan").join(format!("at-{name}")).exists()
    }
}
impl Drop for Site {
    fn drop(&mut self) {
        for pid in self.alive(false) {
            // SAFETY: plain system call, on a process of ours
            unsafe { libc::kill(pid as i32, libc::SIGKILL) };
        }
        if std::env::var_os("VH_KEEP").is_none() {
            let _ = std::fs::remove_dir_all(&self.root);
        }
    }
}
/// Set when a file was last modified
pub fn set_mtime(path: impl AsRef<Path>, time: SystemTime) -> CaseResult {
    let path = path.as_ref();
    let name = CString::new(path.as_os_str().as_bytes()).map_err(|e| e.to_string())?;
    let (sec, nsec) = match time.duration_since(UNIX_EPOCH) {
        Ok(d) => (d.as_secs() as i64, d.subsec_nanos() as i64),
        Err(_) => (0, 0),
    };
    let t = libc::timespec { tv_sec: sec as _, tv_nsec: nsec as _ };
    // SAFETY: valid arguments
    if unsafe { libc::utimensat(libc::AT_FDCWD, name.as_ptr(), [t, t].as_ptr(), 0) } != 0 {
        return Err(format!("harness: cannot date {path:?}: {}", std::io::Error::last_os_error()));
    }
    Ok(())
}
pub fn ago(secs: f64) -> SystemTime {
    if secs >= 0.0 {
        SystemTime::now() - Duration::from_secs_f64(secs)
    } else {
        SystemTime::now() + Duration::from_secs_f64(-secs)
    }
}
/// Words for a shell
pub fn quote(word: &str) -> String {
    if !word.is_empty() && word.chars().all(|c| c.is_ascii_alphanumeric() || "-_./=+".contains(c)) {
        word.to_string()
    } else {
        format!("'{}'", word.replace('\'', "'\\''"))
    }
}
/// One entry of a compilation database
pub fn db_entry(directory: &Path, words: &[String], file: &Path, output: Option<&Path>) -> serde_json::Value {
    let command: Vec<String> = words.iter().map(|w| quote(w)).collect();
    let mut e = serde_json::json!({ "directory": directory, "command": command.join(" "), "file": file });
    if let Some(o) = output {
        e["output"] = serde_json::json!(o);
    }
    e
}

// ------------------------------------------------------------------ dialogs

pub fn has_dialog(s: &Screen) -> bool {
    // Corner of a frame
    s.cells.iter().any(|r| r.iter().any(|c| c.text == "┌"))
}
/// Is there a table of compilation units, with nothing on top of it?
pub fn is_table(s: &Screen) -> bool {
    s.row(0).starts_with("Memory") && !has_dialog(s) && s.row(s.height - 1).contains("Press H for help.")
}
pub fn at_table(tui: &mut Tui, when: &str) -> CaseResult {
    tui.wait(|s| if is_table(s) { Ok(()) } else { Err("the table of compilation units is not shown".into()) }).map_err(|e| format!("{when}: {e}"))
}
/// Wait for a dialog with some text, which may be wrapped
pub fn dialog(tui: &mut Tui, text: &str, when: &str) -> CaseResult {
    let text = tui::squeeze(text);
    tui.wait(|s| if has_dialog(s) && s.squeezed().contains(&text) { Ok(()) } else { Err(format!("no dialog tells {text:?}")) })
        .map_err(|e| format!("{when}: {e}"))
}
