"""Checks G01-G10: seeded search over clocks, crash points and faults in the generator simulator."""
import glob, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import simbuild, common
from common import VERIF, JOBS
REPO = simbuild.REPO
BUDGET = {"G01": 6400, "G02": 4800, "G03": 2800, "G04": 4000, "G05": 3200, "G06": 6400, "G07": 48000, "G08": 3200, "G09": 1600, "G10": 6400}   # runs per variant, quick tier
THOROUGH, QUICK_SECS, THOROUGH_SECS = 60, 70, 2700
WHAT = {
    "G01": "runs with failing stat, open, write, close and remove, full disks, short and interrupted writes, data lost at close, unwritable files and standard-output errors, after seeded prior contents; every run that exits 0 is compared byte for byte with the undisturbed run at the clock second it read",
    "G02": "runs at seeded clock values over seeded prior contents with short and interrupted writes and clock jumps; every file of each successful corpus parsed against a structural model",
    "G03": "runs killed, torn inside a write, hit by power loss (unsynced data and trailing metadata lost) or failed by seeded faults, up to three in a row, then an undisturbed run whose files are compared byte for byte with the same run in an empty directory",
    "G04": "successful, failing and crashing runs among bystander files with similar names, seeded spellings of the directory; every mutation journalled and all bystanders compared before and after",
    "G05": "runs disturbed by delays, clock jumps after start, short and interrupted writes, poisoned memory, prior contents and spellings of the argument, compared byte for byte with an undisturbed run at the same clock second",
    "G06": "single and persistent failures of every class with a bound of 2,000,000 system calls, and recoverable disturbances after which the run must have succeeded",
    "G07": "bad argument lists, bad targets, failing examination and targets changed by another process at seeded system calls of start-up; exit status and mutation journal",
    "G08": "runs at seeded clock values; every distinct function body and preamble they produced compiled by the real compiler and linked against the library, every distinct main file with its headers compiled, and complete corpora compiled and linked",
    "G09": "two to four generators at the same time, in different directories or the same one, switched between at seeded system calls, with short and interrupted writes, delays, clock jumps, and sometimes one of them failing or killed; every other one must succeed, its files compared byte for byte with an undisturbed run at the clock second it read, and nothing else may change or be left anywhere",
    "G10": "rejected invocations, failing system calls, full disks and kills, with everything written to standard output and standard error kept: a failed run must say something a successful one does not, and the closing line of a successful run must appear exactly when the corpus is complete",
}
REAL = ["tools/benchgen (all sources, -O2 and -O0 builds of /repo's tree)", "libstdc++ streams and std::filesystem", "libfmt", "glibc stdio, strings, rand"]
STUB = ["the kernel: every system call is trapped (Syscall User Dispatch) and answered by an in-memory file system with permissions, capacity and a page cache that loses unsynced data", "clock", "heap (simulated, may be refused)", "process identity, environment, random device", "standard output (accepts or fails)"]
ASSUME = ["the simulated file system keeps metadata operations in order and may lose or tear unsynced data at a power loss; a kill loses nothing already written", "close never reports EINTR (libstdc++ mishandles it); output names do not pre-exist as symbolic links", "g++ 13 x86-64 builds of the generator"]

def mix(x): return (x * 0x9e3779b97f4a7c15 + 0x1234567) % (1 << 64) >> 20
def cmd(b, *a): return [b + "/gensim"] + [str(x) for x in a]
def runargs(b, prop, v, seed, frm, stride, count, secs, out, *more): return cmd(b, "run", "--images", b, "--variant", v, "--prop", prop, "--seed", seed, "--from", frm, "--stride", stride, "--count", count, "--secs", secs, "--maxviol", 2, "--out", out, *more)
def run(c, timeout):
    try: p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout); return p.returncode, p.stdout
    except subprocess.TimeoutExpired: return -9, ""

def confirm_plan(b, plan, out):
    def rep(f): return run(cmd(b, "replay", "--images", b, "--plan", f), 300)
    r = [(0, "")]
    for cand in ("min", "raw"):
        if cand == "min":
            if run(cmd(b, "minimise", "--images", b, "--plan", plan, "--out", out), 240)[0] != 1: continue
        else: shutil.copy(plan, out)
        r = [rep(out), rep(out)]
        if r[0][0] == 1 and r[1] == r[0]: return out, r[0][1].splitlines()[0]
    if all(x[0] == 4 for x in r): return out, r[0][1].splitlines()[0] + " (violation repeats, trace differs: the code draws on an uncontrolled source)"
    return None

# ------------------------------------------------------------------ G08: what the simulated corpora need from compiler and library
def blocks(path):
    r = []; d = open(path, "rb").read(); i = 0
    while i < len(d):
        j = d.index(b"\n", i); k, x, n = d[i:j].split(); n = int(n); r.append((k.decode(), int(x), d[j + 1:j + 1 + n].decode("utf-8", "replace"))); i = j + 2 + n
    return r
def gxx(args, cwd, timeout=600):
    p = subprocess.run(["g++", "-std=c++11", "-w"] + args, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout); return p.returncode, p.stdout
def firsterror(t): return next((l for l in t.splitlines() if "error" in l or "undefined" in l), t.strip()[-300:])
def buildlib(b):
    d = b + "/zcm"; os.makedirs(d, exist_ok=True); srcs = sorted(os.path.relpath(f, REPO + "/src") for f in glob.glob(REPO + "/src/**/*.cpp", recursive=True))
    with ThreadPoolExecutor(JOBS) as ex: list(ex.map(lambda f: simbuild.sh(["g++", "-std=c++14", "-include", "stddef.h", "-O0", "-w", f"-I{REPO}/include", "-c", f"{REPO}/src/{f}", "-o", f"{d}/{f[:-4].replace(chr(47), chr(95) * 2)}.o"]), srcs))
    simbuild.sh(["ar", "rcs", b + "/libzcm.a"] + [f"{d}/{f[:-4].replace(chr(47), chr(95) * 2)}.o" for f in srcs]); return b + "/libzcm.a"
def dump(b, prop, v, seed, idx, out):
    os.makedirs(out, exist_ok=True); rc, t = run(runargs(b, prop, v, seed, idx, 1, 1, 60, out + "/../dump.run", "--dump", out), 120); return rc == 0 and os.path.exists(out + "/main.cpp")
def compile_corpus(d, lib, whole):
    """None, or (file, error)"""
    srcs = sorted(f for f in os.listdir(d) if f.endswith(".cpp"))
    if not whole: srcs = srcs[::25] + ["main.cpp"]
    def one(f): return f, gxx(["-O0", f"-I{REPO}/include", "-c", f, "-o", f[:-4] + ".o"] if whole else ["-fsyntax-only", f"-I{REPO}/include", f], d)
    with ThreadPoolExecutor(JOBS) as ex: rs = list(ex.map(one, srcs))
    for f, (rc, t) in rs:
        if rc: return f, firsterror(t)
    if whole:
        rc, t = gxx([f[:-4] + ".o" for f in srcs] + [lib, "-o", "corpus"], d)
        if rc: return "the link", firsterror(t)
    return None
def try_blocks(b, lib, pre, blks, d, name="blk"):
    src = pre.replace("@H@", name + ".h") + "".join(f"\nvoid func{i}()\n{{{x}\n}}\n" for i, x in enumerate(blks)) + "\nint main(){\n" + "".join(f"func{i}();" for i in range(len(blks))) + "return 0;}\n"
    open(f"{d}/{name}.h", "w").write("#pragma once\n"); open(f"{d}/{name}.cpp", "w").write(src); rc, t = gxx(["-O0", f"-I{REPO}/include", f"{name}.cpp", lib, "-o", name], d); return None if rc == 0 else firsterror(t)
def syntax(b, v, seed, idx, names, k):
    """compiles (without code) some files of one run's corpus; None, or (file, error)"""
    out = f"{b}/c{k}/corpus"; shutil.rmtree(f"{b}/c{k}", ignore_errors=True)
    if not dump(b, "G08", v, seed, idx, out): return None
    try:
        for f in names:
            rc, t = gxx(["-fsyntax-only", f"-I{REPO}/include", f], out)
            if rc: return f, firsterror(t)
    finally: shutil.rmtree(f"{b}/c{k}", ignore_errors=True)
def g08(b, ws, seed, tier, findings, cov):
    lib = buildlib(b); pres, blks, mains, files = {}, {}, [], {}
    for w in ws:
        for k, x, t in blocks(w["out"] + ".blocks") if os.path.exists(w["out"] + ".blocks") else []:
            if k == "MAIN": mains.append((x, w["v"]))
            elif k == "FILE": files.setdefault((x, w["v"]), []).append(t)
            else: (pres if k == "PRE" else blks).setdefault(t, (x, w["v"]))
    d = b + "/blk"; os.makedirs(d, exist_ok=True); cap = 8000 if tier == "quick" else 100000; bl = sorted(blks, key=lambda t: blks[t])[:cap]; bad, tus = [], 0; done = 0
    for pi, pre in enumerate(list(pres)[:6]):
        sub = bl if pi == 0 or len(bl) <= 1000 else bl[::len(bl) // 500]; size = max(1, min(400, -(-len(sub) // JOBS))); parts = [sub[i:i + size] for i in range(0, len(sub), size)]
        def attempt(i):
            if bad: return   # one is enough
            e = try_blocks(b, lib, pre, parts[i], d, f"p{pi}_{i}")
            for q in (f"{d}/p{pi}_{i}", f"{d}/p{pi}_{i}.cpp"):
                if os.path.exists(q): os.remove(q)
            if e is not None: bad.append((i, e))
        with ThreadPoolExecutor(JOBS) as ex: list(ex.map(attempt, range(len(parts))))
        done += len(sub)
        if bad:
            i, e = bad[0]; part = parts[i]
            while len(part) > 1:   # which body is it
                h = part[:len(part) // 2]; part = h if try_blocks(b, lib, pre, h, d, "one") else part[len(part) // 2:]
            one = part[0] if try_blocks(b, lib, pre, part, d, "one") else None
            bad[:] = [(pres[pre] if one is None else blks[one], f"{e}; function body: {' '.join((one or '').split())[:300]}")]
            break
    cap = 160 if tier == "quick" else 4000; mains.sort(key=lambda m: mix(m[0])); todo = [(m, ["main.cpp"]) for m in mains[:cap]] + [(k, f[:3]) for k, f in sorted(files.items())[:cap // 2]]
    if not bad:
        with ThreadPoolExecutor(JOBS) as ex:
            for (m, f), r in zip(todo, ex.map(lambda t: None if bad else (lambda r: (bad.append((t[1][0], f"{r[0]}: {r[1]}")) if r else None))(syntax(b, t[1][0][1], seed, t[1][0][0], t[1][1], t[0])), enumerate(todo))): tus += len(f)
    n = 1 if tier == "quick" else 12; runs = []
    for i in range(n + (6 if tier == "quick" else 60)):
        if bad: break
        out = f"{b}/corpus{i}"; whole = i < n; idx = 7 + 13 * i
        if not dump(b, "G08", "rel", seed, idx, out): continue
        r = compile_corpus(out, lib, whole); tus += 101 if whole else 5; runs.append(idx); shutil.rmtree(out, ignore_errors=True)
        if r: bad.append(((idx, "rel"), f"{r[0]}: {r[1]}"))
    cov.update(distinct_function_bodies=len(blks), function_bodies_compiled_and_linked=done, distinct_preambles=len(pres), distinct_main_and_header_sets=len(mains), main_files_compiled=min(cap, len(mains)), corpora_compiled_and_linked_whole=min(n, len(runs)), translation_units_compiled=tus)
    if bad:
        (idx, v), e = bad[0]; f = common.replaypath("G08", f"{v}-{seed}-{idx}"); open(f, "w").write(f"zcm-gen-corpus 1\nvariant\t{v}\nseed\t{seed}\nindex\t{idx}\n# {e}\n"); findings.append((f, f"the corpus of run {idx} does not build: {e}", ("corpus does not build", "")))
    return False
def replay_corpus(path):
    t = open(path).read(); g = lambda k: re.search(rf"^{k}\t(\S+)", t, re.M).group(1); b = common.builddir("replay"); simbuild.build_gen(b, [g("variant")]); lib = buildlib(b); out = b + "/corpus"
    if not dump(b, "G08", g("variant"), g("seed"), g("index"), out): print("the run no longer produces a corpus"); return 0
    r = compile_corpus(out, lib, True); print("no violation" if not r else f"violation: {r[0]}: {r[1]}"); return 1 if r else 0

def replay_file(path):
    if open(path).readline().startswith("zcm-gen-corpus"): return replay_corpus(path)
    b = common.builddir("replay"); v = re.search(r"^variant\t(\S+)", open(path).read(), re.M).group(1); simbuild.build_gen(b, [v])
    return subprocess.run(cmd(b, "replay", "--images", b, "--plan", path, "--trace", path + ".trace"), timeout=600).returncode

def check(prop, tier, seed):
    t0 = time.time(); b = common.builddir(prop); variants = ["rel", "dbg"]; simbuild.build_gen(b, variants); t1 = time.time()
    mul, cap = (1, QUICK_SECS) if tier == "quick" else (THOROUGH, THOROUGH_SECS)
    ws = []
    for v in variants:
        for k in range(JOBS): ws.append(dict(v=v, k=k, stride=JOBS, count=BUDGET[prop] * mul // JOBS, out=f"{b}/w.{v}.{k}", viols=[], stats={}, nondet=[], rc=0)); ws[-1]["from"] = k + (10000000 if v == "dbg" else 0)
    stop, logs = [], {}
    def logrun(t):
        v, part = t; o = f"{b}/log.{v}.{part}"; r = {}; n = 8 if prop != "G07" else 80
        cs = [runargs(b, prop, v, seed, 0, 1, 3 * n, 60, o, "--logs", o)] if part == "all" else [runargs(b, prop, v, seed, n * i, 1, n, 60, o + str(i), "--logs", o + str(i)) for i in (2, 0, 1)]
        for c in cs:
            run(c, 240)
            try:
                for l in open(c[-1]): x = l.split(); r[int(x[0])] = x[1:]
            except OSError: pass
        logs[t] = r
    def go(w):
        if isinstance(w, tuple): return logrun(w)
        if stop: return
        more = ["--blocks", w["out"] + ".blocks"] if prop == "G08" else []
        w["rc"], txt = run(runargs(b, prop, w["v"], seed, w["from"], w["stride"], w["count"], cap, w["out"], "--recheck", 41, "--stopfile", b + "/stop", *more), cap + 240)
        for l in txt.splitlines():
            m = re.match(r"viol (\d+) (\S+) (.*)", l)
            if m: w["viols"].append((int(m.group(1)), m.group(2), m.group(3)))
            elif l.startswith("nondeterministic"): w["nondet"].append(w["v"] + " " + l)
        try: w["stats"] = json.load(open(w["out"] + ".stats"))
        except (OSError, ValueError): pass
        if w["viols"]: stop.append(1); open(b + "/stop", "w").close()
    with ThreadPoolExecutor(JOBS) as ex: list(ex.map(go, ws + [(v, p) for v in variants for p in ("all", "parts")]))
    t2 = time.time(); S = {}
    for w in ws:
        for a, c in w["stats"].items(): S[a] = S.get(a, 0) + c
    def union(ext):
        open(b + "/list", "w").write("\n".join(w["out"] + ".stats" + ext for w in ws)); return int(run(cmd(b, "union", "--list", b + "/list"), 120)[1] or 0)
    distinct, clocks = union(".sched"), union(".clocks")
    compared = sum(len(logs.get((v, "all"), {})) for v in variants); agree = sum(1 for v in variants for i, l in logs.get((v, "all"), {}).items() if logs.get((v, "parts"), {}).get(i) == l)
    findings, seen, cov = [], set(), {}; viols = sorted((i, p, m, w["v"]) for w in ws for i, p, m in w["viols"])
    for idx, p, m, v in viols[:8]:
        key = (m.split(" | ")[0], m.split(" | ")[1])
        if key[0] in [k[0] for k in seen] or len(findings) >= 3: continue
        r = confirm_plan(b, p, common.replaypath(prop, f"{v}-{seed}-{idx}"))
        if r: seen.add(key); findings.append((r[0], f"[{v}] {r[1]}", key))
        else: print(f"note: {v} run {idx} reported '{m}' but did not repeat", file=sys.stderr)
    unclear = bool(viols) and not findings
    broken = [w for w in ws if w["rc"] not in (0, 1)]
    if prop == "G08" and not findings: unclear |= g08(b, ws, seed, tier, findings, cov) and not findings
    if broken and not findings: raise RuntimeError(f"{len(broken)} simulator processes ended with status {broken[0]['rc']}")
    secs = max(t2 - t1, .001); runs = int(S.get("runs", 0)); samples = []
    for w in ws:
        try: samples += [w["v"] + " " + open(w["out"] + ".samples", errors="replace").readline().strip()[:700]]
        except OSError: pass
    cov = dict(evaluations=runs, distinct_nontrivial=distinct,
        rule=WHAT[prop] + ". One evaluation is one simulated run (one seed: a file system, one to four process incarnations and their faults). Distinct and non-trivial: different hash of (initial files, process surroundings, clock second, every system call with its result, every fault with the call it hit); counted over all processes of this run.",
        samples=[s for s in samples if " run" in s][:3], runs_per_variant={v: int(sum(w["stats"].get("runs", 0) for w in ws if w["v"] == v)) for v in variants}, process_incarnations=int(S.get("incs", 0)), system_calls_simulated=int(S.get("syscalls", 0)), distinct_clock_seconds=clocks,
        simulated_time="%.0f s (%.1f h)" % (S.get("simsecs", 0), S.get("simsecs", 0) / 3600), runs_per_hour=int(runs / secs * 3600), seeds_per_hour=int(runs / secs * 3600), search_seconds=round(secs, 1), build_seconds=round(t1 - t0, 1),
        faults_injected={a[6:]: int(c) for a, c in S.items() if a.startswith("fault:") and c}, errors_by_class={a[4:]: int(c) for a, c in S.items() if a.startswith("err:") and c}, endings={a[4:]: int(c) for a, c in S.items() if a.startswith("end:") and c}, runs_ended_with_status_0=int(S.get("ok", 0)), runs_ended_with_other_status=int(S.get("failed", 0)), corpora_parsed=int(S.get("corpora", 0)), undisturbed_reference_runs=int(S.get("refs", 0)), skipped=int(S.get("skipped", 0)),
        replayed_in_process=int(S.get("rechecked", 0)), not_repeatable_in_process=int(S.get("ndet", 0)), cross_process_logs_compared=compared, cross_process_logs_equal=agree, real_components=REAL + (["g++ and the linker on every distinct generated function body, libzcm built from /repo/src"] if prop == "G08" else []), stubbed_components=STUB, **cov)
    for w in ws:
        for x in w["nondet"][:1]: print("note:", x, file=sys.stderr)
    return cov, ASSUME, findings, unclear
