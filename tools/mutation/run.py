#!/usr/bin/env python3
"""run.py LIST.jsonl WORKER WORKERS OUT.jsonl: tries mutants on private copies of /repo and /verif, which a mount
namespace puts in their places (start it with: unshare -Urm). Never touches the real ones. An entry of
the list replaces line "line" of "file", or the only occurrence of the text "old", by "new"; "props", if given, are the
checks to run."""
import json, os, re, resource, shutil, subprocess, sys, time
lst, w, n, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
base = os.environ.get("MUT_BASE", f"/tmp/mut/w{w}")
for d in ("repo", "verif"):
    os.makedirs(f"{base}/{d}", exist_ok=True)
    if not os.path.exists(f"{base}/{d}/.git"):
        shutil.rmtree(f"{base}/{d}")
        subprocess.check_call(["cp", "-a", f"/{d}", f"{base}/{d}"])
    else:
        subprocess.check_call(["rsync", "-a", "--delete", "--exclude=target", f"/{d}/", f"{base}/{d}/"]) if shutil.which("rsync") else None
    subprocess.check_call(["mount", "--bind", f"{base}/{d}", f"/{d}"])
    assert subprocess.check_output(["stat", "-c", "%i", f"/{d}"]) == subprocess.check_output(["stat", "-c", "%i", f"{base}/{d}"])
subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
stable = set()
def names(x):
    if isinstance(x, str): stable.add(x.split("::")[-1])
    elif isinstance(x, dict): [names(v) or names(k) for k, v in x.items()]
    elif isinstance(x, list): [names(v) for v in x]
names(json.load(open("/opt/vp/BASELINE.json")))
MAP = [("asylum/src/path", "A02 D02"), ("asylum", "A01 A02 P03"), ("cpparser/src/interning", "P02 P03 P01 P04"), ("cpparser/src/display", "P04 P02"), ("cpparser", "P02 P01 P03 P04"),
       ("simpp", "P05"), ("clang-time-trace/src/tree", "T02 T01"), ("clang-time-trace/src/stats/activity/arg", "T04 T01 T03"), ("clang-time-trace/src/stats", "T03 T04 T01"), ("clang-time-trace", "T01 T03 T04 T02"),
       ("src/trace.rs", "S01 S02 S03 U02"), ("src/ui/stdio", "S01 S02 S03"), ("src/main", "S03 U02 U05 C01"), ("src/ui/mod", "S03 U02"),
       ("src/ui/display/path", "D02 D04 U05 P04"), ("src/ui/display/duration", "D03 S01"), ("src/ui/display/metadata", "D05 U02"), ("src/ui/display/activity", "D04 S01"), ("src/ui/display", "D01 D04 D05"),
       ("src/ui/tui/processing", "U01 U02 U03"), ("src/ui/tui/trace/display", "U02"), ("src/ui/tui/trace", "U03 U05 U02"), ("src/ui/tui/build", "U04 U05"), ("src/clang", "C01 U03"),
       ("src/ui/tui", "U02 U05 C01 U04 U03"), ("cmakeperf/src/measure", "B04 B05 U04"), ("cmakeperf/src/commands", "B01 B02 U05"), ("cmakeperf/src/output", "B03 B04"), ("cmakeperf", "B01 B02 B03 B04 B05")]
env = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", VERIF_SEED="1", VERIF_TIER="quick", VERIF_SHRINK="0", VERIF_LOG_LINES="5")
def run(cmd, timeout, cwd):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30)))
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, ""
done = set()
if os.path.exists(out):
    done = {(d["file"], d.get("line"), d["old"], d["new"]) for d in map(json.loads, open(out))}
for k, line in enumerate(open(lst)):
    m = json.loads(line)
    if k % n != w or (m["file"], m.get("line"), m["old"], m["new"]) in done: continue
    path = f"/repo/{m['file']}"
    saved = open(path).read()
    if "line" in m:
        text = saved.split("\n")
        assert text[m["line"] - 1] == m["old"], m
        text[m["line"] - 1] = m["new"]
        open(path, "w").write("\n".join(text))
    else:
        assert saved.count(m["old"]) == 1, m
        open(path, "w").write(saved.replace(m["old"], m["new"]))
    t0 = time.time()
    crate = m["file"].split("/")[0]
    if crate == "src": crate = "crofiler"
    m["checks"] = {}
    r, o = run(["cargo", "test", "-p", crate, "--offline", "--no-run"], 300, "/repo")
    if r: m["result"] = "nobuild"
    else:
        r, o = run(["cargo", "test", "-p", crate, "--offline", "--no-fail-fast", "--", "--test-threads", "4"], 120, "/repo")
        failed = [x.split("::")[-1] for x in re.findall(r"^test (\S+) \.\.\. FAILED", o, re.M)]
        if r == 124 or any(f in stable for f in failed): m["result"] = "tests"
        else:
            m["result"] = "SURVIVED"
            for c in (m.get("props") or next(c for p, c in MAP if m["file"].startswith(p))).split():
                t1 = time.time()
                r, o = run(["./check.sh", c], 600, "/verif")
                m["checks"][c] = [r, round(time.time() - t1, 1)]
                if r == 1 and f"VIOLATION property={c}" in o:
                    m["result"] = "caught"
                    v = re.search(r"replay=(\S+)", o)
                    try: m["message"] = json.load(open(v.group(1)))["message"][:300]
                    except Exception as e: m["message"] = str(e)
                    break
                if r not in (0, 1): m["odd"] = o[-400:]
    m["s"] = round(time.time() - t0, 1)
    open(path, "w").write(saved)
    with open(out, "a") as f: f.write(json.dumps(m) + "\n")
