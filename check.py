#!/usr/bin/env python3
"""Solver-based check of one property: check.py PROP [--tier quick|thorough] [--job NAME] [--keep]

Compiles /repo's current library sources and the property's harnesses to LLVM bitcode, executes them symbolically with
engine/sx (Z3), replays every counterexample natively (AddressSanitizer build of the same sources) and reports only what
reproduces. Exit 0: held on everything explored; exit 1: VIOLATION line printed."""
import sys, os, json, subprocess, tempfile, shutil, time, glob, re, threading, traceback
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
from jobs import JOBS, META
REPO = os.environ.get("SX_REPO", "/repo")
NOTBUILT = {"signatureinputstream.cpp"}          # not part of the library's own build
NATIVEONLY = {"compat.cpp"}                        # only needed where the C library lacks the functions
WARN = ["-Wno-everything"]
SYM = ["-O1", "-fno-pie", "-fno-pic", "-gline-tables-only", "-emit-llvm", "-c", "-fno-vectorize", "-fno-slp-vectorize", "-fwrapv", "-fno-strict-aliasing", "-fno-delete-null-pointer-checks", "-ftrivial-auto-var-init=pattern"] + WARN
NAT = ["-O1", "-g1", "-c", "-fsanitize=address", "-fno-omit-frame-pointer", "-fwrapv", "-fno-strict-aliasing", "-fno-delete-null-pointer-checks", "-ftrivial-auto-var-init=pattern"] + WARN
DEF = ["-DHAVE_CONFIG_H", "-DMAKE_STREAMS_LIB"]
def inc(shim): return ["-I" + HERE + "/rt"] + (["-I" + HERE + "/rt/shim"] if shim else []) + ["-I" + REPO + "/include", "-I" + REPO + "/lib", "-I" + HERE + "/rt/gen"]
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:malloc_fill_byte=190:max_malloc_fill_size=16777216:exitcode=99:allocator_may_return_null=0:detect_odr_violation=0:symbolize=0:max_allocation_size_mb=3000:detect_stack_use_after_return=0", TZ="UTC")

class BuildError(Exception): pass
def run(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)

def sources():
    s = [f for f in sorted(glob.glob(REPO + "/lib/*.cpp")) if os.path.basename(f) not in NOTBUILT]
    return s + [f for f in sorted(glob.glob(REPO + "/lib/lzma/*.c")) if os.path.basename(f) == "LzmaDec.c"]

CACHE = os.environ.get("SX_CACHE")              # only for tools/mutate.py; never set when a check runs
_hk = []
def cached(kind, src, out, extra, f):
    if not CACHE: return f()
    import hashlib
    if not _hk:
        h = hashlib.sha1()
        for g in sorted(glob.glob(REPO + "/include/**/*.h", recursive=True) + glob.glob(REPO + "/lib/**/*.h", recursive=True) + glob.glob(HERE + "/rt/**/*", recursive=True) + glob.glob(HERE + "/harness/*.h")):
            if os.path.isfile(g): h.update(open(g, "rb").read())
        _hk.append(h.hexdigest())
    k = CACHE + "/" + hashlib.sha1((kind + str(SYM) + str(NAT) + _hk[0] + os.path.basename(src) + str(list(extra))).encode() + open(src, "rb").read()).hexdigest()
    if os.path.exists(k): shutil.copy(k, out); return None
    e = f()
    if not e: shutil.copy(out, k + ".tmp%d" % threading.get_ident()); os.rename(k + ".tmp%d" % threading.get_ident(), k)
    return e
def compile_sym(src, out, extra=()): return cached("s", src, out, extra, lambda: compile_sym_(src, out, extra))
def compile_nat(src, out, extra=()): return cached("n", src, out, extra, lambda: compile_nat_(src, out, extra))
def compile_sym_(src, out, extra=()):
    if src.endswith(".c"): tries = [["clang"] + SYM + DEF + inc(False)]
    else: tries = [["clang++", "-std=gnu++17"] + SYM + ["-fno-exceptions"] + DEF + inc(True), ["clang++", "-std=gnu++17"] + SYM + ["-fno-exceptions"] + DEF + inc(False), ["clang++", "-std=gnu++17"] + SYM + DEF + inc(False)]
    err = ""
    for t in tries:
        r = run(t + list(extra) + [src, "-o", out])
        if r.returncode == 0: return None
        err = err or r.stderr
    return "cannot compile %s: %s" % (src, err[:600])
def compile_nat_(src, out, extra=()):
    cc = ["clang"] if src.endswith(".c") else ["clang++", "-std=gnu++17"]
    r = run(cc + NAT + DEF + inc(False) + list(extra) + [src, "-o", out])
    return None if r.returncode == 0 else "cannot compile %s natively: %s" % (src, r.stderr[:600])

class Build:
    """bitcode and native objects of the library and the harnesses, in a scratch directory"""
    def __init__(self, d, harnesses):
        self.d = d; self.h = harnesses; self.lock = threading.Lock(); self.bins = {}
        self.pool = ThreadPoolExecutor(8)
        self.lib = sources()
        fs = []
        for s in self.lib:
            b = os.path.basename(s)
            if b in NATIVEONLY: continue
            fs.append(self.pool.submit(compile_sym, s, d + "/" + b + ".bc"))
        rt = self.pool.submit(compile_sym, HERE + "/rt/rt.cpp", d + "/rt.bc", ["-fno-builtin", "-D__NO_INLINE__"])
        hs = [self.pool.submit(compile_sym, HERE + "/harness/%s.cpp" % h, d + "/h_%s.bc" % h) for h in harnesses]
        errs = [e for e in (f.result() for f in fs + [rt] + hs) if e]
        if errs: raise BuildError("\n".join(errs))
        libbc = [d + "/" + os.path.basename(s) + ".bc" for s in self.lib if os.path.basename(s) not in NATIVEONLY]
        for h in harnesses:
            r = run(["llvm-link"] + libbc + [d + "/rt.bc", d + "/h_%s.bc" % h, "-o", d + "/all_%s.bc" % h])
            if r.returncode: raise BuildError(r.stderr)
        # native objects are built in the background
        self.natf = [self.pool.submit(compile_nat, s, d + "/" + os.path.basename(s) + ".o") for s in self.lib]
        self.nathf = {h: self.pool.submit(compile_nat, HERE + "/harness/%s.cpp" % h, d + "/h_%s.o" % h) for h in harnesses}
    def native(self, h, entry):
        with self.lock:
            if (h, entry) in self.bins: return self.bins[(h, entry)]
            errs = [e for e in (f.result() for f in self.natf + [self.nathf[h]]) if e]
            if errs: raise BuildError("\n".join(errs))
            e = compile_nat(HERE + "/rt/replay.cpp", self.d + "/r_%s.o" % entry, ["-DSX_ENTRY=" + entry])
            if e: raise BuildError(e)
            nm = run(["llvm-nm", self.d + "/h_%s.o" % h]).stdout
            wraps = sorted(set(re.findall(r"\bT __wrap_(\w+)", nm)))
            lib = self.d + "/libs.a"
            if not os.path.exists(lib): run(["llvm-ar", "rcs", lib] + [self.d + "/" + os.path.basename(s) + ".o" for s in self.lib])
            out = self.d + "/bin_" + entry
            r = run(["clang++", "-fsanitize=address", self.d + "/r_%s.o" % entry, self.d + "/h_%s.o" % h] + ["-Wl,--wrap=" + w for w in wraps] + [lib, "-lz", "-lbz2", "-o", out])
            if r.returncode: raise BuildError("native link failed: " + r.stderr[:1000])
            self.bins[(h, entry)] = out
            return out

def witness(path, prop, job, params, v):
    with open(path, "w") as f:
        f.write("# property %s harness %s entry %s\n# %s %s %s\n" % (prop, job["harness"], job["entry"], v.get("kind", "sample"), v.get("label", ""), v.get("where", "")))
        for k, x in params.items(): f.write("param %s %d\n" % (k, x))
        for n, w, x in v["inputs"]: f.write("in %s %d %d\n" % (n.replace(" ", "_"), w, x))

def native_run(binp, wfile, tmo, obs=False):
    env = dict(ENV, SX_REPLAY=wfile)
    if obs: env["SX_OBS"] = "1"
    d = tempfile.mkdtemp(prefix="sxr")
    try:
        p = subprocess.run([binp], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=d, timeout=tmo)
        return p.returncode, p.stdout.decode("latin1"), p.stderr.decode("latin1")
    except subprocess.TimeoutExpired: return "timeout", "", ""
    finally: shutil.rmtree(d, ignore_errors=True)

def verdict(v, rc, err):
    """does the native outcome confirm violation v? returns a description or None"""
    if rc == 77: m = re.search(r"SX-ASSERT-FAILED (.*)", err); return "assertion: " + (m.group(1).strip() if m else "?")
    if rc in (90, 91, 0): return None
    if rc == "timeout": return "does not terminate" if v["kind"] == "no-termination" else None
    if rc == 99: m = re.search(r"ERROR: AddressSanitizer: (.*)", err); return "AddressSanitizer: " + (m.group(1)[:120] if m else "?")
    if isinstance(rc, int) and rc < 0: m = re.search(r".*Assertion.*", err); return "signal %d %s" % (-rc, m.group(0)[:200] if m else "")
    return None

def main():
    prop = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick"); only = None; keep = False; extra = []
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x == "--tier": tier = a.pop(0)
        elif x == "--job": only = a.pop(0)
        elif x == "--keep": keep = True
        elif x == "--xarg": extra.append(a.pop(0))
    seed = int(os.environ.get("VERIF_SEED", "1")); t0 = time.time()
    jobs = [j for j in JOBS[prop] if (not only or j["entry"] == only) and tier in j]
    os.makedirs(HERE + "/evidence/replay", exist_ok=True)
    for f in glob.glob(HERE + "/evidence/replay/%s.*" % prop): os.unlink(f)
    if not os.path.exists(HERE + "/engine/sx") or os.path.getmtime(HERE + "/engine/sx") < max(os.path.getmtime(f) for f in glob.glob(HERE + "/engine/*.h") + [HERE + "/engine/sx.cpp"]):
        subprocess.run([HERE + "/engine/build.sh"], check=True)
    known = json.load(open(HERE + "/known_findings.json")) if os.path.exists(HERE + "/known_findings.json") else {"known": [], "fixed": []}
    scratch = tempfile.mkdtemp(prefix="sxv_")
    notes = []; violations = []; knownhit = {}; unrep = []; res = []; replayed = 0; mism = []
    try:
        b = Build(scratch, sorted(set(j["harness"] for j in jobs)))
        tb = time.time() - t0
        def dojob(j):
            params = dict(j.get("params", {})); params.update(j[tier].get("params", {})); tl = j[tier].get("time", 30)
            out = scratch + "/" + j["entry"] + ".jsonl"
            cmd = [HERE + "/engine/sx", scratch + "/all_%s.bc" % j["harness"], "--entry", j["entry"], "--out", out, "--procs", str(j.get("procs", 6)), "--time", str(tl), "--repo", REPO + "/", "--mem", str(j.get("mem", 1500)), "--samples", "3", "--xcheck", "40" if tier == "quick" else "15", "--steps", str(j.get("steps", 3000000))]
            for k, x in params.items(): cmd += ["-p", "%s=%d" % (k, x)]
            cmd += j.get("xargs", []) + extra
            try: r = run(cmd, timeout=tl * 3 + 120)
            except subprocess.TimeoutExpired: return j, params, [], "engine timeout"
            L = []
            if os.path.exists(out):
                for line in open(out):
                    try: L.append(json.loads(line))
                    except ValueError: pass
            return j, params, L, r.stderr[-2000:] if r.returncode or "XCHECK" in r.stderr else ""
        with ThreadPoolExecutor(2) as ex: done = list(ex.map(dojob, jobs))
        for j, params, L, err in done:
            summ = next((x for x in L if x["t"] == "summary"), None)
            if err: notes.append("%s: %s" % (j["entry"], err))
            if summ is None: notes.append("%s: engine produced no summary" % j["entry"]); summ = {}
            reach = {}; asserts = {}; cut = {}
            for x in L:
                if x["t"] != "proc": continue
                for k, n in x.get("reach", {}).items(): reach[k] = reach.get(k, 0) + n
                for k, (e, p) in x.get("asserts", {}).items(): q = asserts.setdefault(k, [0, 0]); q[0] += e; q[1] += p
                for k, n in x.get("cut", {}).items(): cut[k] = cut.get(k, 0) + n
            missing = [r for r in j.get("reach", ["end"]) if not reach.get(r)]
            if missing: notes.append("%s: VACUOUS, not reached: %s" % (j["entry"], missing))
            # counterexamples: up to 4 candidates per key
            cand = {}
            for x in L:
                if x["t"] == "violation" and (not j.get("labels") or (x["kind"] == "assert" and x["label"].startswith(j["labels"]))): cand.setdefault((x["kind"], x["label"], x["func"] if x["kind"] != "assert" else ""), []).append(x)
            for key, vs in sorted(cand.items()):
                ok = None
                for v in vs[:4]:
                    w = HERE + "/evidence/replay/%s.%s.%d.txt" % (prop, j["entry"], len(violations) + len(unrep) + len(knownhit))
                    witness(w, prop, j, params, v)
                    rc, o, e = native_run(b.native(j["harness"], j["entry"]), w, 20)
                    d = verdict(v, rc, e)
                    if d: ok = (v, w, d); break
                if not ok: unrep.append(dict(entry=j["entry"], kind=key[0], label=key[1], func=key[2], native=str(rc), where=vs[0]["where"])); continue
                v, w, d = ok
                kf = next((k for k in known["known"] if k["property"] == prop and k["kind"] == v["kind"] and k["label"] == v["label"] and k.get("func", "") in ("", v["func"]) and k.get("entry", "") in ("", j["entry"])), None)
                if kf: knownhit[kf["what"]] = w
                else: violations.append(dict(entry=j["entry"], kind=v["kind"], label=v["label"], func=v["func"], where=v["where"], confirmed=d, replay=w))
            # validate the encoding: sampled paths must behave the same natively
            smp = [x for x in L if x["t"] == "sample"][:12]
            for i, x in enumerate(smp):
                w = scratch + "/s_%s_%d.txt" % (j["entry"], i); witness(w, prop, j, params, x)
                rc, o, e = native_run(b.native(j["harness"], j["entry"]), w, 20, obs=True)
                got = [[m.group(1), int(m.group(2))] for m in re.finditer(r"^OBS (.*) (\d+)$", o, re.M)]
                if rc == 0 and got == [[n, int(v)] for n, v in x["obs"]]: replayed += 1
                elif rc == "timeout": pass
                else:
                    mism.append(dict(entry=j["entry"], rc=str(rc), want=x["obs"][:20], got=got[:20], err=e[-300:]))
                    dd = verdict(dict(kind="sample"), rc, e)
                    if dd:
                        w2 = HERE + "/evidence/replay/%s.%s.s%d.txt" % (prop, j["entry"], i); shutil.copy(w, w2)
                        violations.append(dict(entry=j["entry"], kind="native", label="native execution of an explored path fails", func="", where="", confirmed=dd, replay=w2))
            res.append(dict(job=j, params=params, summ=summ, reach=reach, asserts=asserts, cut=cut, samples=smp))
    except BuildError as e:
        # the library or a harness does not compile: nothing can be decided
        notes.append("BUILD ERROR: " + str(e)); print(str(e)[:2000])
    finally:
        if keep: print("scratch", scratch)
        else: shutil.rmtree(scratch, ignore_errors=True)
    S = lambda k: sum(r["summ"].get(k, 0) for r in res)
    funcs = sorted(set(f for r in res for f in r["summ"].get("functions", [])))
    exhaustive = bool(res) and all(r["summ"].get("truncated", 1) == 0 and r["summ"].get("timeouts", 1) == 0 and r["summ"].get("unknown", 1) == 0 and r["summ"].get("errors", 1) == 0 for r in res)
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 2), violations=len(violations),
        assumptions=META[prop].get("assumptions", []),
        coverage=dict(states=S("paths"), transitions=S("steps"), traces_validated_against_impl=replayed,
            samples=[dict(entry=r["job"]["entry"], inputs=x["inputs"][:60], observations=x["obs"][:30]) for r in res for x in r["samples"][:2]][:12],
            exhaustive=exhaustive,
            explanation="states = symbolic paths decided, transitions = LLVM instructions executed symbolically; each path stands for all input values that satisfy its path condition. exhaustive = every path within the stated bounds was decided.",
            functions_encoded=[f for f in funcs], paths_completed=S("completed"), forks=S("forks"), solver_queries=S("queries"), queries_z3=S("z3"), queries_finite_domain=S("domain"), queries_cached=S("cache"), queries_model_reuse=S("reuse"), z3_crosschecks=S("xchecks"), z3_crosscheck_disagreements=S("xfail"),
            z3_sat=S("sat"), z3_unsat=S("unsat"), z3_seconds=round(S("z3_s"), 2), z3_max_query_s=max([r["summ"].get("z3_max_s", 0) for r in res] or [0]),
            assertions_evaluated=sum(a[0] for r in res for a in r["asserts"].values()), assertions_discharged=sum(a[1] for r in res for a in r["asserts"].values()),
            jobs=[dict(entry=r["job"]["entry"], what=r["job"].get("what", ""), bounds=r["params"], paths=r["summ"].get("paths"), truncated=r["summ"].get("truncated"), timeouts=r["summ"].get("timeouts"), unknown=r["summ"].get("unknown"), wall_s=r["summ"].get("wall"), cuts=r["cut"], reach=r["reach"], assertions={k: a for k, a in r["asserts"].items()}, blocks_covered="%s/%s" % (r["summ"].get("bb_covered"), r["summ"].get("bb_total")), uncovered=r["summ"].get("uncovered", [])[:60]) for r in res],
            unreproduced=unrep, sample_mismatches=mism, notes=notes, violations=violations, known=sorted(knownhit)))
    json.dump(ev, open(HERE + "/evidence/%s.json" % prop, "w"), indent=1)
    for r in res:
        s = r["summ"]; print("%-22s %s paths=%s trunc=%s timeouts=%s unknown=%s queries=%s z3=%s(%.1fs) wall=%s cov=%s/%s cut=%s" % (r["job"]["entry"], r["params"], s.get("paths"), s.get("truncated"), s.get("timeouts"), s.get("unknown"), s.get("queries"), s.get("z3"), s.get("z3_s", 0), s.get("wall"), s.get("bb_covered"), s.get("bb_total"), r["cut"]))
    for n in notes: print("NOTE", n[:1500])
    for u in unrep: print("UNREPRODUCED (not reported):", json.dumps(u))
    for m in mism: print("SAMPLE MISMATCH:", json.dumps(m)[:600])
    print("%s %s: %.1fs, %d samples replayed natively, exhaustive within bounds: %s" % (prop, tier, time.time() - t0, replayed, exhaustive))
    for k in sorted(knownhit): print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for v in violations: print("%s: %s [%s] %s -- %s" % (v["entry"], v["label"], v["kind"], v["where"][:300], v["confirmed"]))
    if violations:
        print("VIOLATION property=%s replay=%s" % (prop, violations[0]["replay"])); return 1
    return 0
if __name__ == "__main__":
    try: rc = main()
    except Exception: traceback.print_exc(); rc = 0
    sys.stdout.flush(); sys.exit(rc)
