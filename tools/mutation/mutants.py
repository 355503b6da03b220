#!/usr/bin/env python3
"""mutants.py REPO SEED N [PREFIX...] > list.jsonl: small random changes of the code under test.
Each line is {"file", "line", "old", "new", "op"}. Tests, comments, logs, messages and attributes are left alone."""
import json, random, re, sys
repo, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
prefixes = sys.argv[4:]
import subprocess
files = [f for f in subprocess.check_output(["git", "-C", repo, "ls-files", "*.rs"], text=True).split()
         if not re.search(r"(^|/)(benches|tests|examples)/|mock\.rs|build\.rs|verif", f)]
if prefixes:
    files = [f for f in files if any(f.startswith(p) for p in prefixes)]
OPS = [
    (r"(?<![<>=\-!&|+*/])<(?= )(?!-)", "<="), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
    (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
    (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" \+= ", " -= "), (r" -= ", " += "),
    (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\bif !", "if "), (r"\bwhile !", "while "),
    (r"\.rev\(\)", ""), (r"\bbreak\b;", "continue;"), (r"\bcontinue\b;", "break;"),
    (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.is_ok\(\)", ".is_err()"), (r"\.is_err\(\)", ".is_ok()"),
    (r"\.is_empty\(\)", ".is_empty() == false"), (r"\.all\(", ".any("), (r"\.any\(", ".all("),
    (r"\.width\(\)", ".len()"), (r"\.skip\((\w+)\)", ""), (r"\.take\((\w+)\)", ""), (r"saturating_sub", "wrapping_sub"), (r"saturating_sub", "saturating_add"),
    (r"Ordering::Less", "Ordering::Greater"), (r"Ordering::Greater", "Ordering::Less"), (r"\.reverse\(\)", ""),
    (r"\.starts_with\(", ".ends_with("), (r"\.start\(\)", ".end()"), (r"\.end\(\)", ".start()"), (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"),
    (r"\.pop\(\)", ".first().cloned()"), (r"\.floor\(\)", ".ceil()"), (r"\.trim\(\)", ".trim_start()"), (r"\.max_by", ".min_by"), (r"\.min_by", ".max_by"),
    (r"\.filter\((\|[^()]*\| [^()]*)\)", ""), (r"\.take_while\(", ".skip_while("), (r"\.skip_while\(", ".take_while("), (r"Some\((\w+)\)(?! =>| =)", "None"),
    (r"\belse if\b", "else if false &&"), (r"\bif (?!let\b)", "if false && "), (r"\bif (?!let\b)", "if true || "), (r"many0", "many1"), (r"many1", "many0"), (r"opt\(", "map(tag(\"\"), |_| Some(())); opt("),
    (r"unwrap_or\((\w+)\)", "unwrap_or_default()"), (r"\.\.=", ".."), (r"\.\.(?=\w)", "..="), (r"Some\(true\)", "Some(false)"),
    (r"\.previous\b", ".next"), (r"\.swap\(", ".clone_from("), (r"as u8\b", "as u8 + 1"), (r"\.cloned\(\)\.", ".cloned().skip(1)."), (r"\|\| None", "|| Some(Default::default())"),
    (r"Relaxed", "SeqCst"),
]
SKIP = re.compile(r"^\s*(//|#\[|use |pub use|mod |pub mod|log::|trace!|debug!|info!|warn!|error!|assert|debug_assert|println|eprintln|panic|unreachable|\*|///|type |pub type|impl|where)")
def interesting(path):
    out = []
    lines = open(f"{repo}/{path}").read().split("\n")
    depth_skip = None
    i = 0
    in_log = 0
    while i < len(lines):
        l = lines[i]
        if re.match(r"\s*#\[cfg\((any\()?(test|crofiler_verif)", l):
            # Skip the item that follows
            indent = len(l) - len(l.lstrip())
            i += 1
            while i < len(lines) and not re.match(r"^\s{%d}[})\]]|^\s{%d}\S.*;$" % (indent, indent), lines[i]):
                i += 1
            i += 1
            continue
        if re.match(r"\s*(log::\w+|trace|debug|info|warn|error|assert\w*|debug_assert\w*|println|eprintln|panic|unreachable)!\(", l):
            indent = len(l) - len(l.lstrip())
            if not l.rstrip().endswith(";") and not l.rstrip().endswith("),"):
                while i < len(lines) and not re.match(r"^\s{%d}\)" % indent, lines[i]):
                    i += 1
            i += 1
            continue
        if l.strip() and not SKIP.match(l):
            out.append((i, l))
        i += 1
    return out
cands = []
for f in files:
    for i, l in interesting(f):
        code = l.split("//")[0]
        masked = re.sub(r'"(?:[^"\\]|\\.)*"', lambda m: '"' + "_" * (len(m.group(0)) - 2) + '"', code)
        for pat, rep in OPS:
            for m in re.finditer(pat, masked):
                new = code[:m.start()] + rep + code[m.end():]
                cands.append((f, i, l, new, f"{pat} -> {rep}"))
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", masked):
            n = int(m.group(1))
            cands.append((f, i, l, code[:m.start()] + str(n + 1) + code[m.end():], "number + 1"))
            if n: cands.append((f, i, l, code[:m.start()] + str(n - 1) + code[m.end():], "number - 1"))
        for m in re.finditer(r'(tag|char|is|starts_with|trim_\w+_matches|push_str|write!\(\w+, |push)(\()?("(?:[^"\\]|\\.)+"|\'.\')', code):
            if m.group(3) != '""':
                s = m.group(3); cands.append((f, i, l, code[:m.start(3)] + s[0] + s[1:-1] + ("~" if s[0] == '"' else "") + s[-1] + code[m.end():], "literal"))
        if re.match(r"^\s+(?!let |return|use |break|continue|type |fn )[\w*].*;\s*$", code):
            cands.append((f, i, l, re.match(r"^\s*", l).group(0) + "{}", "statement removed"))
        if re.match(r"^\s+\.\w+(::<.*>)?\(.*\)\s*$", code):
            cands.append((f, i, l, "", "call of a chain removed"))
        if code.rstrip().endswith("?;") and not code.strip().startswith("let"):
            cands.append((f, i, l, re.sub(r"^(\s*)(.*)\?;\s*$", r"\1let _ = \2;", code), "error ignored"))
random.seed(seed)
# No more weight to long files than to several short ones
by = {}
for c in cands: by.setdefault(c[0], []).append(c)
pool = []
for f, cs in by.items():
    random.shuffle(cs)
    pool += [(k / (len(cs) ** 0.8 + 3), c) for k, c in enumerate(cs)]
pool.sort(key=lambda x: x[0])
pool = [c for _, c in pool[:count]]
random.shuffle(pool)
for f, i, old, new, op in pool:
    if old != new: print(json.dumps({"file": f, "line": i + 1, "old": old, "new": new, "op": op}))
