import os, pty, sys, time, struct, fcntl, termios, select, signal, shutil, tempfile, unicodedata, json, re, subprocess, atexit
repo = sys.argv[1]
work = tempfile.mkdtemp(prefix="demo.", dir="/tmp")
atexit.register(lambda: shutil.rmtree(work, ignore_errors=True))
def trace(events, process="clang"):
    return json.dumps({"traceEvents": events + [{"ph": "M", "pid": 1, "tid": 0, "ts": 0, "cat": "", "name": "process_name", "args": {"name": process}}]})
def x(name, ts, dur, detail=None):
    e = {"ph": "X", "pid": 1, "tid": 0, "ts": ts, "dur": dur, "name": name}
    if detail: e["args"] = {"detail": detail}
    return e
class Tui:
    """A program in a pseudo-terminal, whose screen is in rows"""
    def __init__(self, args, cwd, width=100, height=30, env=None):
        self.w, self.h, self.y, self.x, self.buf = width, height, 0, 0, b""
        self.rows = [[" "] * width for _ in range(height)]
        self.pid, self.fd = pty.fork()
        if self.pid == 0:
            os.chdir(cwd)
            e = dict(os.environ, TERM="xterm-256color", **(env or {}))
            time.sleep(0.1)
            os.execve(args[0], args, e)
        fcntl.ioctl(self.fd, termios.TIOCSWINSZ, struct.pack("HHHH", height, width, 0, 0))
        atexit.register(self.kill)
    def kill(self):
        if self.pid:
            try: os.kill(self.pid, signal.SIGKILL)
            except OSError: pass
            os.waitpid(self.pid, 0); self.pid = 0
    def pump(self, t=0.05):
        r, _, _ = select.select([self.fd], [], [], t)
        if not r: return
        try: self.buf += os.read(self.fd, 65536)
        except OSError: return
        s = self.buf.decode("utf-8", errors="replace")
        i = 0
        while i < len(s):
            c = s[i]
            if c == "\x1b":
                m = re.match(r"\x1b\[([?>0-9;]*)([A-Za-z])|\x1b[()].|\x1b[=>78DMc]|\x1b\][^\x07]*\x07", s[i:])
                if not m:
                    if len(s) - i < 12: break
                    i += 1; continue
                if m.group(2) in ("H", "f"):
                    p = (m.group(1) + ";").split(";")
                    self.y, self.x = int(p[0] or 1) - 1, int(p[1] or 1) - 1
                elif m.group(2) == "J": self.rows = [[" "] * self.w for _ in range(self.h)]
                i += m.end(); continue
            if c == "\r": self.x = 0
            elif c == "\n": self.y += 1
            elif ord(c) >= 32:
                n = 2 if unicodedata.east_asian_width(c) in "WF" else 1
                if self.y < self.h and self.x < self.w:
                    self.rows[self.y][self.x] = c
                    if n == 2 and self.x + 1 < self.w: self.rows[self.y][self.x + 1] = ""
                self.x += n
            i += 1
        self.buf = s[i:].encode("utf-8", errors="replace")
    def text(self): return "\n".join("".join(r).rstrip() for r in self.rows)
    def wait(self, what, timeout=20):
        """Waits for a text (or for a condition on the text of the screen)"""
        end = time.time() + timeout
        f = what if callable(what) else (lambda t: what in t)
        while time.time() < end:
            self.pump()
            if f(self.text()):
                for _ in range(4): self.pump()
                if f(self.text()): return self.text()
        print(self.text()); print("TIMEOUT waiting for", what); sys.exit(1)
    def send(self, keys): os.write(self.fd, keys.encode())
    def ended(self, timeout=10):
        end = time.time() + timeout
        while time.time() < end:
            self.pump()
            p, st = os.waitpid(self.pid, os.WNOHANG)
            if p: self.pid = 0; return st
        print(self.text()); print("TIMEOUT waiting for the end"); sys.exit(1)
UP, DOWN, RIGHT, LEFT, ENTER, ESC, TAB = "\x1b[A", "\x1b[B", "\x1b[C", "\x1b[D", "\r", "\x1b", "\t"
crofiler = repo + "/target/debug/crofiler"
def check(cond, *what):
    if not cond: print("FAILED:", *what); sys.exit(1)
