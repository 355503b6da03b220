//! Drives a program which has a text user interface through a pseudo-terminal

use std::{
    fs::File,
    io::{Read, Write},
    os::{
        fd::{AsRawFd, FromRawFd, OwnedFd},
        unix::process::CommandExt,
    },
    path::PathBuf,
    process::{Child, Command, ExitStatus, Stdio},
    sync::atomic::{AtomicBool, Ordering},
    time::{Duration, Instant},
};
use unicode_width::UnicodeWidthChar;

/// How long the program may take to show what is expected
pub const PATIENCE: Duration = Duration::from_secs(20);
/// Set after a first failure: the following attempts only make it smaller
static HASTE: AtomicBool = AtomicBool::new(false);

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Style {
    pub fg: u16,
    pub bg: u16,
    pub reverse: bool,
}
/// Character cell; the second cell of a wide character is empty
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Cell {
    pub text: String,
    pub style: Style,
}

/// What a terminal shows
#[derive(Clone, Debug)]
pub struct Screen {
    pub width: usize,
    pub height: usize,
    pub cells: Vec<Vec<Cell>>,
    x: usize,
    y: usize,
    style: Style,
    pending: Vec<u8>,
    /// Escape sequences that are not understood
    pub unknown: Vec<String>,
}
impl Screen {
    fn new(width: usize, height: usize) -> Self {
        let blank = Cell { text: " ".into(), style: Style::default() };
        Screen { width, height, cells: vec![vec![blank; width]; height], x: 0, y: 0, style: Style::default(), pending: vec![], unknown: vec![] }
    }
    fn put(&mut self, c: char) {
        let w = c.width().unwrap_or(0);
        if self.y >= self.height {
            return;
        }
        if w == 0 {
            if self.x > 0 && self.x <= self.width {
                let mut x = self.x - 1;
                while x > 0 && self.cells[self.y][x].text.is_empty() {
                    x -= 1;
                }
                self.cells[self.y][x].text.push(c);
            }
            return;
        }
        for i in 0..w {
            if self.x + i < self.width {
                self.cells[self.y][self.x + i] = Cell { text: if i == 0 { c.to_string() } else { String::new() }, style: self.style };
            }
        }
        self.x += w;
    }
    fn csi(&mut self, params: &str, end: char) {
        let nums: Vec<usize> = params.split(';').map(|p| p.parse().unwrap_or(0)).collect();
        let at = |i: usize| nums.get(i).copied().unwrap_or(0).max(1) - 1;
        let blank = Cell { text: " ".into(), style: self.style };
        match end {
            'H' | 'f' => (self.y, self.x) = (at(0), at(1)),
            'G' => self.x = at(0),
            'J' => {
                if nums[0] == 2 {
                    self.cells = vec![vec![blank; self.width]; self.height];
                } else {
                    self.unknown.push(format!("{params}{end}"));
                }
            }
            'K' if self.y < self.height && nums[0] == 0 => {
                for x in self.x..self.width {
                    self.cells[self.y][x] = blank.clone();
                }
            }
            'm' => {
                let mut i = 0;
                while i < nums.len() {
                    match nums[i] {
                        0 => self.style = Style::default(),
                        7 => self.style.reverse = true,
                        27 => self.style.reverse = false,
                        38 if nums.get(i + 1) == Some(&5) => {
                            self.style.fg = nums.get(i + 2).copied().unwrap_or(0) as u16 + 1;
                            i += 2;
                        }
                        48 if nums.get(i + 1) == Some(&5) => {
                            self.style.bg = nums.get(i + 2).copied().unwrap_or(0) as u16 + 1;
                            i += 2;
                        }
                        38 | 48 if nums.get(i + 1) == Some(&2) => i += 4,
                        39 => self.style.fg = 0,
                        49 => self.style.bg = 0,
                        x @ 30..=37 => self.style.fg = x as u16 - 29,
                        x @ 40..=47 => self.style.bg = x as u16 - 39,
                        _ => {}
                    }
                    i += 1;
                }
            }
            'h' | 'l' | 'n' => {}
            _ => self.unknown.push(format!("{params}{end}")),
        }
    }
    pub fn feed(&mut self, data: &[u8]) {
        let mut buf = std::mem::take(&mut self.pending);
        buf.extend_from_slice(data);
        let mut i = 0;
        while i < buf.len() {
            let b = buf[i];
            if b == 0x1b {
                match buf.get(i + 1) {
                    None => break,
                    Some(b'[') => {
                        let Some(n) = buf[i + 2..].iter().position(|b| (0x40..0x7f).contains(b)) else { break };
                        let params = String::from_utf8_lossy(&buf[i + 2..i + 2 + n]).to_string();
                        self.csi(&params, buf[i + 2 + n] as char);
                        i += n + 3;
                    }
                    Some(_) => i += 2,
                }
                continue;
            }
            match b {
                b'\n' => self.y += 1,
                b'\r' => self.x = 0,
                8 => self.x = self.x.saturating_sub(1),
                0..=31 => self.unknown.push(format!("{b:#x}")),
                _ => {
                    let n = match b {
                        0..=0x7f => 1,
                        0xc0..=0xdf => 2,
                        0xe0..=0xef => 3,
                        _ => 4,
                    };
                    if i + n > buf.len() {
                        break;
                    }
                    match std::str::from_utf8(&buf[i..i + n]) {
                        Ok(s) => s.chars().for_each(|c| self.put(c)),
                        Err(_) => self.unknown.push(format!("{:x?}", &buf[i..i + n])),
                    }
                    i += n;
                    continue;
                }
            }
            i += 1;
        }
        self.pending = buf[i.min(buf.len())..].to_vec();
    }

    /// Text of some cells of a row
    pub fn text(&self, y: usize, x: std::ops::Range<usize>) -> String {
        self.cells.get(y).map(|r| r[x.start.min(r.len())..x.end.min(r.len())].iter().map(|c| c.text.as_str()).collect()).unwrap_or_default()
    }
    pub fn row(&self, y: usize) -> String {
        self.text(y, 0..self.width)
    }
    pub fn style(&self, y: usize, x: usize) -> Style {
        self.cells.get(y).and_then(|r| r.get(x)).map(|c| c.style).unwrap_or_default()
    }
    pub fn dump(&self) -> String {
        (0..self.height).map(|y| self.row(y).trim_end().to_string() + "\n").collect::<String>().trim_end().to_string()
    }
    /// Position of some text
    pub fn find(&self, what: &str) -> Option<(usize, usize)> {
        (0..self.height).find_map(|y| {
            let r = self.row(y);
            r.find(what).map(|b| (y, unicode_width::UnicodeWidthStr::width(&r[..b])))
        })
    }
    pub fn has(&self, what: &str) -> bool {
        self.find(what).is_some()
    }
    /// All text without spaces and frames, to look for text that may be wrapped
    pub fn squeezed(&self) -> String {
        let mut text = squeeze(&self.dump());
        // What is inside frames, without what they leave visible around them
        let rows: Vec<Vec<char>> = (0..self.height).map(|y| (0..self.width).map(|x| self.text(y, x..x + 1).chars().next().unwrap_or(' ')).collect()).collect();
        for y in 0..self.height {
            for from in (0..self.width).filter(|x| rows[y][*x] == '┌') {
                let Some(to) = (from..self.width).find(|x| rows[y][*x] == '┐') else { continue };
                text.push('\n');
                for y in y + 1..self.height {
                    if rows[y][from] == '└' {
                        break;
                    }
                    text += &squeeze(&self.text(y, from + 1..to));
                }
            }
        }
        text
    }
}
/// Text without spaces, line breaks and frames
pub fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace() && !"│┌┐└┘├┤─█░▒▓┃".contains(*c)).collect()
}

/// Program that runs in a terminal of its own
pub struct Tui {
    child: Child,
    master: File,
    slave: OwnedFd,
    pub screen: Screen,
    stderr: PathBuf,
    closed: bool,
    status: Option<ExitStatus>,
    pub patience: Duration,
}
impl Tui {
    pub fn start(mut command: Command, width: usize, height: usize, stderr: PathBuf) -> Result<Tui, String> {
        let (mut master, mut slave) = (0, 0);
        let size = libc::winsize { ws_row: height as u16, ws_col: width as u16, ws_xpixel: 0, ws_ypixel: 0 };
        // SAFETY: plain calls with valid arguments
        let (master, slave) = unsafe {
            if libc::openpty(&mut master, &mut slave, std::ptr::null_mut(), std::ptr::null(), &size) != 0 {
                return Err(format!("cannot open a terminal: {}", std::io::Error::last_os_error()));
            }
            for fd in [master, slave] {
                libc::fcntl(fd, libc::F_SETFD, libc::FD_CLOEXEC);
            }
            (File::from_raw_fd(master), OwnedFd::from_raw_fd(slave))
        };
        let err = File::create(&stderr).map_err(|e| e.to_string())?;
        let dup = |s: &OwnedFd| s.try_clone().map(Stdio::from).map_err(|e| e.to_string());
        command
            .stdin(dup(&slave)?)
            .stdout(dup(&slave)?)
            .stderr(err)
            .env("TERM", "xterm-256color")
            .env("RUST_BACKTRACE", "0")
            .env_remove("RUST_LOG");
        // SAFETY: only async-signal-safe calls
        unsafe {
            command.pre_exec(|| {
                if libc::setsid() < 0 || libc::ioctl(0, libc::TIOCSCTTY as _, 0) < 0 {
                    return Err(std::io::Error::last_os_error());
                }
                Ok(())
            });
        }
        let child = command.spawn().map_err(|e| format!("cannot run {command:?}: {e}"))?;
        unsafe {
            let flags = libc::fcntl(master.as_raw_fd(), libc::F_GETFL);
            libc::fcntl(master.as_raw_fd(), libc::F_SETFL, flags | libc::O_NONBLOCK);
        }
        Ok(Tui { child, master, slave, screen: Screen::new(width, height), stderr, closed: false, status: None, patience: PATIENCE })
    }
    pub fn patience(&self) -> Duration {
        if HASTE.load(Ordering::Relaxed) {
            self.patience / 5
        } else {
            self.patience
        }
    }
    pub fn pid(&self) -> u32 {
        self.child.id()
    }
    pub fn send(&mut self, keys: &str) {
        let _ = self.master.write_all(keys.as_bytes());
    }
    /// Send keys and wait until the program has read them
    pub fn send_and_see(&mut self, keys: &str) {
        self.send(keys);
        let start = Instant::now();
        while start.elapsed() < self.patience() && self.ended().is_none() {
            let mut n: libc::c_int = 0;
            // SAFETY: valid arguments
            if unsafe { libc::ioctl(self.slave.as_raw_fd(), libc::FIONREAD, &mut n) } == 0 && n == 0 {
                return;
            }
            self.pump(Duration::from_millis(2));
        }
    }
    /// Read what the program has written, waiting at most for some time. Was there anything?
    pub fn pump(&mut self, wait: Duration) -> bool {
        if self.closed {
            std::thread::sleep(wait.min(Duration::from_millis(5)));
            return false;
        }
        let mut p = libc::pollfd { fd: self.master.as_raw_fd(), events: libc::POLLIN, revents: 0 };
        // SAFETY: valid argument
        if unsafe { libc::poll(&mut p, 1, wait.as_millis().min(1000) as i32) } <= 0 {
            return false;
        }
        let mut read = false;
        let mut buf = [0u8; 16384];
        loop {
            match self.master.read(&mut buf) {
                Ok(0) => self.closed = true,
                Ok(n) => {
                    self.screen.feed(&buf[..n]);
                    read = true;
                    continue;
                }
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {}
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
                Err(_) => self.closed = true,
            }
            break;
        }
        read
    }
    pub fn stderr(&self) -> String {
        let s = std::fs::read(&self.stderr).map(|s| String::from_utf8_lossy(&s).to_string()).unwrap_or_default();
        s.lines().filter(|l| !l.contains("Since stderr is not usable")).collect::<Vec<_>>().join(" ")
    }
    pub fn ended(&mut self) -> Option<ExitStatus> {
        if self.status.is_none() {
            self.status = self.child.try_wait().ok().flatten();
        }
        self.status
    }
    /// Is there nothing more to read, while the program sleeps?
    fn still(&mut self) -> bool {
        if self.closed || self.ended().is_some() {
            return !self.pump(Duration::from_millis(1));
        }
        let pid = self.child.id();
        let stat = std::fs::read_to_string(format!("/proc/{pid}/task/{pid}/stat")).unwrap_or_default();
        let sleeps = stat.rsplit(')').next().is_some_and(|s| s.trim_start().starts_with('S'));
        // What has been written takes a little time to come here
        let more = self.pump(Duration::from_millis(if sleeps { 3 } else { 1 }));
        sleeps && !more
    }
    /// Wait until the screen is as expected, or return what is wrong with it
    pub fn wait<T>(&mut self, mut check: impl FnMut(&Screen) -> Result<T, String>) -> Result<T, String> {
        let start = Instant::now();
        loop {
            let wrong = match check(&self.screen) {
                // The program may still be drawing
                Ok(_) if !self.still() => continue,
                Ok(x) => return Ok(x),
                Err(e) => e,
            };
            if let Some(status) = self.ended() {
                self.pump(Duration::from_millis(20));
                if let Ok(x) = check(&self.screen) {
                    return Ok(x);
                }
                return Err(format!("the program has ended ({status}) while {wrong}; messages: {}", self.stderr()));
            }
            if start.elapsed() > self.patience() {
                HASTE.store(true, Ordering::Relaxed);
                return Err(format!("{wrong}; the screen is:\n{}", self.screen.dump()));
            }
            self.pump(Duration::from_millis(10));
        }
    }
    /// From now on, be less patient
    pub fn hurry(&self) {
        HASTE.store(true, Ordering::Relaxed);
    }
    /// Wait for some text
    pub fn wait_for(&mut self, what: &str) -> Result<(), String> {
        self.wait(|s| if s.has(what) { Ok(()) } else { Err(format!("{what:?} is not shown")) })
    }
    /// Wait until the program has ended by itself
    pub fn end(&mut self) -> Result<ExitStatus, String> {
        let start = Instant::now();
        loop {
            if let Some(s) = self.ended() {
                return Ok(s);
            }
            if start.elapsed() > self.patience() {
                return Err(format!("the program does not end; the screen is:\n{}", self.screen.dump()));
            }
            self.pump(Duration::from_millis(5));
        }
    }
    /// Wait until the program has ended by itself, successfully
    pub fn end_well(&mut self) -> Result<(), String> {
        let s = self.end()?;
        if s.success() {
            Ok(())
        } else {
            Err(format!("the program ends with {s}: {}", self.stderr()))
        }
    }
}
impl Drop for Tui {
    fn drop(&mut self) {
        if self.ended().is_none() {
            let _ = self.child.kill();
            let _ = self.child.wait();
        }
        let _ = std::fs::remove_file(&self.stderr);
    }
}

pub const UP: &str = "\x1b[A";
pub const DOWN: &str = "\x1b[B";
pub const RIGHT: &str = "\x1b[C";
pub const LEFT: &str = "\x1b[D";
pub const HOME: &str = "\x1b[H";
pub const END: &str = "\x1b[F";
pub const PAGE_UP: &str = "\x1b[5~";
pub const PAGE_DOWN: &str = "\x1b[6~";
pub const ENTER: &str = "\r";
pub const ESC: &str = "\x1b";
