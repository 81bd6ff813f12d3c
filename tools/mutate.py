#!/usr/bin/env python3
"""mutate.py FILE[:from-to] PROP,PROP.. [-n N] [-s SEED]: mechanical mutants of one source file against the checks (development aid).

Works on a scratch clone /tmp/mut of /repo; prints K(illed), B(uild error) or SURVIVED with the changed line."""
import sys, re, os, random, subprocess, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]; n = 20; seed = 1; W = "/tmp/mut"
if "-n" in a: i = a.index("-n"); n = int(a[i + 1]); del a[i:i + 2]
if "-s" in a: i = a.index("-s"); seed = int(a[i + 1]); del a[i:i + 2]
if "-w" in a: i = a.index("-w"); W = a[i + 1]; del a[i:i + 2]
f, props = a[0], a[1].split(","); lo, hi = 0, 10 ** 9
if ":" in f: f, r = f.split(":"); lo, hi = map(int, r.split("-"))
if not os.path.exists(W): subprocess.check_call(["git", "clone", "-q", "/repo", W])
subprocess.check_call("git -C %s fetch -q origin HEAD && git -C %s reset -q --hard FETCH_HEAD" % (W, W), shell=True)
src = open(W + "/" + f).read(); lines = src.split("\n")
SW = [(" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" && ", " || "), (" || ", " && "), (" + ", " - "), (" - ", " + "), (" += ", " -= "), (" -= ", " += "), ("++", "--"), (" + 1", ""), (" - 1", ""), ("true", "false"), ("false", "true"), (" Eof", " Ok"), (" Ok", " Eof"), (" Error", " Eof"), ("(int64_t)", "(int32_t)"), ("min", "max"), ("max", "min")]
M = []; comment = False
for i, l in enumerate(lines):
    s = l.strip()
    if s.startswith("/*"): comment = True
    if comment:
        if "*/" in s: comment = False
        continue
    if not (lo <= i + 1 <= hi) or not s or s[0] in "#*" or s.startswith("//") or re.search(r"m_error|printf|cerr|assert", s): continue
    code = l.split("//")[0]
    for x, y in SW:
        for m in re.finditer(re.escape(x), code):
            if x in ("min", "max", "true", "false") and (m.start() and (code[m.start() - 1].isalnum() or code[m.start() - 1] == "_") or re.match(r"\w|\(", code[m.end():m.end() + 1])): continue
            M.append((i, code[:m.start()] + y + code[m.end():]))
    for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
        v = int(m.group(1)); M.append((i, code[:m.start()] + str(v + 1) + code[m.end():]))
        if v: M.append((i, code[:m.start()] + str(v - 1) + code[m.end():]))
    if re.match(r"^\s+[^;{}]*;\s*$", code) and not re.match(r"^\s*(return|break|continue|case|const|int|char|unsigned|string|std::|static|virtual|bool|uint|int\d+)\b", code) and (" = " in code or "(" in code or "+=" in code or "++" in code) and (not lines[i - 1].strip() or lines[i - 1].strip()[-1] in ";{}:"): M.append((i, ";"))
    m = re.search(r"\b(if|while) \((.*)\)( \{)?\s*$", code)
    if m and m.group(2).count("(") == m.group(2).count(")"):
        M.append((i, code[:m.start(2)] + "!(" + m.group(2) + ")" + code[m.end(2):]))
        if m.group(1) == "if": M.append((i, code[:m.start(2)] + "(" + m.group(2) + ") && false" + code[m.end(2):]))
    if re.match(r"^\s+(break|continue);", code): M.append((i, ";"))
M = sorted(set(M)); random.Random(seed).shuffle(M); print("%s: %d mutants, trying %d" % (f, len(M), min(n, len(M))), flush=True)
env = dict(os.environ, SX_REPO=W, SX_CACHE="/tmp/sxcache"); os.makedirs("/tmp/sxcache", exist_ok=True); c = dict(K=0, B=0, S=0)
try:
    for i, t in M[:n]:
        L = list(lines); L[i] = t; open(W + "/" + f, "w").write("\n".join(L)); res = "S"; by = ""
        for p in props:
            try: r = subprocess.run(["python3", H + "/check.py", p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
            except subprocess.TimeoutExpired: by += " timeout:" + p; continue
            if "BUILD ERROR" in r.stdout: res = "B"; break
            if r.returncode == 1: res = "K"; by = p; break
            for l in r.stdout.split("\n"):
                if l.startswith("NOTE") or l.startswith("UNREP") or "exhaustive within bounds: False" in l: by += "\n      " + l[:200]
        c[res] += 1
        print("%s %s:%d %s\n    - %s\n    + %s" % (dict(K="killed", B="nobuild", S="SURVIVED")[res], f, i + 1, by, lines[i].strip(), t.strip()) if res == "S" else "%s %s:%d %s" % (res, f, i + 1, by), flush=True)
finally: open(W + "/" + f, "w").write(src)
print(f, c, flush=True)
