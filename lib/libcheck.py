"""Checks L01-L10: seeded search over schedules and faults in the library simulator."""
import glob, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import simbuild, common
from common import VERIF, JOBS

# runs per variant (quick tier).  dbg/rel: every access of the instrumented library is a scheduling
# point; shp: the shipped machine code, single-stepped where the property needs it.
BUDGET = {
    "L01": dict(dbg=336000, rel=420000, shp=11200),
    "L02": dict(dbg=400000, rel=500000, shp=249600),
    "L03": dict(dbg=1000000, rel=1200000, shp=49600),
    "L04": dict(dbg=500000, rel=600000, shp=20000),
    "L05": dict(dbg=560000, rel=700000, shp=28000),
    "L06": dict(dbg=1200000, rel=1440000, shp=960000),
    "L07": dict(dbg=800000, rel=960000, shp=640000),
    "L08": dict(dbg=400000, rel=500000, shp=150400),
    "L09": dict(dbg=72000, rel=96000, shp=12000),
    "L10": dict(dbg=200000, rel=300000, shp=300000),
    "L11": dict(dbg=600000, rel=800000, shp=600000),
    "L12": dict(dbg=600000, rel=800000, shp=24000),
}
THOROUGH = 25          # thorough tier: this many times the quick budget
QUICK_SECS, THOROUGH_SECS = 70, 2400   # cap for the search of one variant
WHAT = {
    "L01": "threads calling random operations on random (related, equal and shared read-only) operands under a seeded scheduler; compared with each call alone in a freshly started image",
    "L02": "threads calling operations whose read-only operands are mapped read-only (any store faults) and shared; results compared with the isolated call",
    "L03": "threads updating disjoint components of shared objects; final objects compared with each thread's own sequence of updates",
    "L04": "calls interrupted at seeded steps by handlers that call operations, nested; every result compared with the isolated call",
    "L05": "calls stalled, abandoned or killed at seeded steps while other threads go on; every other call must finish with its isolated result within a step bound",
    "L06": "calls with failing allocations and system calls (all, a window, from the k-th on) on small guarded stacks; compared with the isolated call",
    "L07": "calls with painted stack, registers, heap, shifted placement and guard bytes or pages around operands; compared with the plain isolated call",
    "L08": "calls under seeded rounding modes, masks, sticky flags, errno, clock, locale, environment and rand state; ambient state compared before and after, results with the isolated call at that rounding mode",
    "L09": "long seeded histories by several clients with repeated and nearly equal operands; every result compared with the same call as first call of a process",
    "L10": "calls before, between and after the constructors and exit handlers of translation units run in seeded orders; compared with the same call from main",
    "L11": "threads calling random operations while some of their requests for memory or system services are refused; after the run the resources taken and given back during calls must balance",
    "L13": "the same calls in processes on differing simulated machines: load, heap, stack and operand addresses, process and user ids, start time, random source, environment, processors and their features, host names",
    "L12": "calls with far-out operands under seeded rounding and denormal modes, alone and contending with other threads; every call must end within 50 000 of its own steps (memory accesses, basic blocks or machine instructions)",
}
REAL = ["all of /repo/src/*.cpp and /repo/include/zcm (three builds: -O0 and -O2 instrumented, -O2 as shipped)", "libm, libstdc++ and libc functions the library calls, except the stubs"]
STUB = ["heap allocation (simulated arena with fault injection)", "locks, condition variables, once-guards and thread primitives", "clocks, sleeps, random devices", "environment, locale, rand", "system calls (Syscall User Dispatch: denied or failed by the simulator)", "program start-up and exit (constructors and exit handlers run by the simulator)"]
FAULTS = {"switches": "thread switch inside a call", "forced": "thread switch forced by blocking", "handlers": "interrupting handler call", "stalls": "thread stalled for ever", "abandons": "call abandoned by jumping out", "kills": "thread killed in a call", "memfail": "allocation failed", "sysfail": "system call failed", "roundings": "non-default rounding/denormal mode", "unmasked": "floating-point traps enabled by the caller", "ambients": "ambient state changed before a call", "placements": "operands shifted, memory and registers painted", "ctors": "translation unit constructed", "dtors": "exit handler run"}

def host_cmd(b, *a): return [b + "/host"] + [str(x) for x in a]

def sweep(b, variants, seed, per, deadline):
    def one(t):
        v, i = t; out = f"{b}/sweep.{v}.{i}"
        try: p = subprocess.run(host_cmd(b, "sweep", "--images", b, "--variant", v, "--seed", seed, "--per", per, "--parts", JOBS, "--part", i, "--out", out), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=240)
        except subprocess.TimeoutExpired: return 0, False
        n = 0
        if p.returncode == 0:
            m = re.search(r"^swept\t(\d+)", open(out).read(), re.M); n = int(m.group(1)) if m else 0
        return n, p.returncode == 0
    tasks = [(v, i) for v in variants for i in range(JOBS)]
    with ThreadPoolExecutor(JOBS) as ex: rs = list(ex.map(one, tasks))
    for v in variants:
        with open(f"{b}/sweep.{v}", "w") as f:
            for i in range(JOBS):
                try: f.write(open(f"{b}/sweep.{v}.{i}").read())
                except OSError: pass
                # the shipped build is not instrumented: it also gets the inputs the instrumented one found interesting
                if v == "shp" and "rel" in variants:
                    try: f.write("".join(re.sub(r"^in\t\d+", "in\t0", l) for l in open(f"{b}/sweep.rel.{i}") if l.startswith("in\t")))
                    except OSError: pass
    return sum(n for n, ok in rs), sum(not ok for n, ok in rs)

class Worker:
    """runs one slice of the seeds of one variant, restarting after a death of the simulator process"""
    def __init__(s, b, prop, v, seed, k, stride, count, secs): s.b, s.prop, s.v, s.seed, s.k, s.stride, s.count, s.secs = b, prop, v, seed, k, stride, count, secs; s.viols, s.stats, s.dead, s.nondet, s.samples, s.scheds = [], {}, [], [], [], []
    def args(s, frm, count, secs, out, *more): return host_cmd(s.b, "run", "--images", s.b, "--variant", s.v, "--prop", s.prop, "--sweep", f"{s.b}/sweep.{s.v}", "--seed", s.seed, "--from", frm, "--stride", s.stride, "--count", count, "--secs", secs, "--maxviol", 2, "--out", out, *more)
    def run(s):
        frm, left, secs, n = s.k, s.count, s.secs, 0
        while left > 0 and secs > 0 and n < 4:
            out = f"{s.b}/w.{s.v}.{s.k}.{n}"; n += 1; t0 = time.time()
            recheck = 97 if s.v != "shp" else 41
            try: p = subprocess.run(s.args(frm, left, secs, out, "--recheck", recheck, "--stopfile", s.b + "/stop"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=secs + 180); rc = p.returncode; txt = p.stdout
            except subprocess.TimeoutExpired as e: rc = -9; txt = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
            for l in txt.splitlines():
                m = re.match(r"viol (\d+) (\S+) (.*)", l)
                if m: s.viols.append((int(m.group(1)), m.group(2), m.group(3)))
                elif l.startswith("nondeterministic"): s.nondet.append(s.v + " " + l)
            if os.path.exists(out + ".stats"):
                for a, c in json.load(open(out + ".stats")).items(): s.stats[a] = max(s.stats.get(a, 0), c) if a in ("pcs", "suspects", "unit_ctors", "maxdepth", "longest", "longestpc") else s.stats.get(a, 0) + c
                s.scheds.append(out + ".stats.sched")
            try: s.samples += open(out + ".samples", errors="replace").read().splitlines()[:2]
            except OSError: pass
            if rc in (0, 1): return s
            try: idx = int.from_bytes(open(out + ".progress", "rb").read(8), "little")
            except OSError: return s
            s.dead.append((idx, rc, s.v))
            left -= (idx - frm) // s.stride + 1; frm = idx + s.stride; secs -= time.time() - t0
        return s

def confirm_plan(b, plan, out):
    """minimise, then replay twice in fresh processes; returns (path, message) or None"""
    def rep(f):
        p = subprocess.run(host_cmd(b, "replay", "--images", b, "--plan", f), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", timeout=300)
        return p.returncode, p.stdout
    for cand in ("min", "raw"):
        if cand == "min":
            try: p = subprocess.run(host_cmd(b, "minimise", "--images", b, "--plan", plan, "--out", out), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", timeout=240)
            except subprocess.TimeoutExpired: continue
            if p.returncode != 1: continue
        else: shutil.copy(plan, out)
        r = [rep(out), rep(out)]
        if r[0][0] == 1 and r[1] == r[0]: return out, r[0][1].splitlines()[0]
        if cand == "min" and all(x[0] not in (0, 1, 3, 4) for x in r): return out, "the simulated process dies (%d)" % r[0][0]
    if all(x[0] == 4 for x in r): return out, r[0][1].splitlines()[0] + " (violation repeats, trace differs: the code draws on an uncontrolled source)"
    return None

def pair_values(b, seed, count, secs):
    """L07: the same calls in two builds whose uninitialised variables hold different values; returns (calls compared, first call that differs or None)"""
    def one(t):
        v, i = t; out = f"{b}/val.{v}.{i}"
        try: subprocess.run(host_cmd(b, "values", "--images", b, "--variant", v, "--sweep", f"{b}/sweep.dbg", "--seed", seed, "--count", count, "--parts", JOBS, "--part", i, "--secs", secs, "--out", out), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=secs * 2 + 300)
        except subprocess.TimeoutExpired: pass
        try: return open(out, "rb").read()
        except OSError: return b""
    ts = [(v, i) for i in range(JOBS) for v in simbuild.PAIR]
    with ThreadPoolExecutor(JOBS) as ex: r = dict(zip(ts, ex.map(one, ts)))
    n, bad = 0, []
    for i in range(JOBS):
        x, y = r["zer", i], r["pat", i]; k = min(len(x), len(y)) // 8; n += k
        if x[:8 * k] != y[:8 * k]: bad += [(j, i) for j in range(k) if x[8 * j:8 * j + 8] != y[8 * j:8 * j + 8]][:50]
    return n, sorted(bad)
def pair_differs(b, plan):
    """the calls of a plan in both builds; returns what differs or None"""
    r = []
    for v in simbuild.PAIR:
        t = f"{b}/pair.{v}.trace"; p = subprocess.run(host_cmd(b, "replay", "--images", b, "--plan", plan, "--as", v, "--trace", t), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", timeout=300)
        if p.returncode not in (0, 1, 4): r.append([f"the simulated process dies ({p.returncode})"]); continue
        r.append([re.sub(r" in \d+$", "", l.strip()) for l in open(t, errors="replace") if l.startswith("call ")])
    for x, y in zip(*r):
        if x != y: return f"{x}, with other garbage in its variables: {y.split('->')[-1].strip()}"
    return None

# L13: one process against processes on other simulated machines
MCNAME = ["library loaded at another address", "heap at another address", "stack at another address", "operands at another address", "other process, thread and user ids", "other start time", "other random source", "other environment and locale at start", "other number of processors", "other set of processor features", "other host name, system name and files", "thread-local storage at another address"]
def mach_trace(b, v, plan, machine):
    p = subprocess.run(host_cmd(b, "refs", "--images", b, "--plan", plan, "--as", v, "--machine", machine), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", timeout=300)
    return p.stdout.splitlines() if p.returncode == 0 else [f"the simulated process dies ({p.returncode})"]
def mach_differs(b, v, plan, m1, m2):
    for x, y in zip(mach_trace(b, v, plan, m1), mach_trace(b, v, plan, m2)):
        if x != y: return f"{x}, in another process: {y.split('->')[-1].strip()}"
    return None
def machines(seed, rnd, k):
    """the k-th of a round's processes; number 0 is the standard one, the others differ from it in some or all respects"""
    r = random.Random(f"{seed}/{rnd}/{k}"); full = (1 << len(MCNAME)) - 1
    return "0:0" if not k else f"{r.getrandbits(60)}:{full if k & 1 else r.getrandbits(len(MCNAME)) & full or full}"
def check_machines(prop, tier, seed, b, variants, t0, t1, nsweep, badsweep):
    t2 = time.time(); quick = tier == "quick"; rounds, per, secs, cap = (3, 3, 3, 260) if quick else (60, 4, 10, THOROUGH_SECS * 2)
    calls, lives, distinct, faults, findings, seen, failed, unclear, nocpuid, bases = 0, 0, set(), {}, [], set(), 0, False, 0, set(); ndist = 0; samples = []
    nops = len(subprocess.run(host_cmd(b, "ops", "--images", b, "--variant", "dbg"), stdout=subprocess.PIPE, text=True).stdout.splitlines())
    def life(t):
        v, rnd, k, i = t; o = f"{b}/life.{v}.{rnd}.{k}.{i}"
        c = host_cmd(b, "values", "--images", b, "--variant", v, "--sweep", f"{b}/sweep.{v}", "--seed", seed * 1000 + rnd, "--count", 1 << 20, "--parts", JOBS, "--part", i, "--secs", secs, "--machine", machines(seed, rnd, k), "--out", o) + (["--calls", o + ".calls"] if not k else [])
        try: p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", timeout=secs * 2 + 120)
        except subprocess.TimeoutExpired: return t, b"", b"", None
        rd = lambda f: open(f, "rb").read() if os.path.exists(f) else b""
        r = (t, rd(o), rd(o + ".calls"), p.stdout.split() if p.returncode == 0 else None)
        for f in (o, o + ".calls"):
            if os.path.exists(f): os.remove(f)
        return r
    for rnd in range(rounds):
        if findings or time.time() - t2 > cap: break
        for v in variants:
            with ThreadPoolExecutor(JOBS) as ex: rs = {t[:]: (x, c, info) for t, x, c, info in ex.map(life, [(v, rnd, k, i) for k in range(per + 1) for i in range(JOBS)])}
            for (_, _, k, i), (x, c, info) in sorted(rs.items()):
                lives += 1
                if info is None: failed += 1; continue
                if info[1] == "0": nocpuid += 1
                bases.add(info[3])
                if k == 0:
                    distinct.update(c[j:j + 8] for j in range(0, len(c), 8)) if len(distinct) < 4000000 else None
                    continue
                m = machines(seed, rnd, k); mask = int(m.split(":")[1])
                for bit, n in enumerate(MCNAME):
                    if mask >> bit & 1: faults[n] = faults.get(n, 0) + 1
                y = rs[v, rnd, 0, i][0]; n = min(len(x), len(y)) // 8; calls += n
                if x[:8 * n] == y[:8 * n]: continue
                nper, bad, ops = (nops - i + JOBS - 1) // JOBS, [], {}
                for j in range(n):
                    if x[8 * j:8 * j + 8] != y[8 * j:8 * j + 8] and ops.setdefault(j % nper, 0) < 3: ops[j % nper] += 1; bad.append(j)
                for at in bad[:60]:
                    if len(findings) >= 2 or findings and time.time() - t2 > 300: break
                    f = common.replaypath(prop, f"{v}-{seed}-{rnd}-{i}-{at}")
                    subprocess.run(host_cmd(b, "values", "--images", b, "--variant", v, "--sweep", f"{b}/sweep.{v}", "--seed", seed * 1000 + rnd, "--count", 1 << 30, "--parts", JOBS, "--part", i, "--only", at, "--prop", prop, "--out", f), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=600)
                    op = (re.findall(r"^op\t(.*?)\t", open(f).read(), re.M) + [""])[0]
                    if op in seen: os.remove(f); continue
                    # a minimal set of respects in which the two machines must differ
                    keep, d = mask, mach_differs(b, v, f, "0:0", m)
                    if not d: os.remove(f); unclear = True; continue
                    for bit in range(len(MCNAME)):
                        z = keep & ~(1 << bit)
                        if keep >> bit & 1 and z and mach_differs(b, v, f, "0:0", f"{m.split(':')[0]}:{z}"): keep = z
                    m = f"{m.split(':')[0]}:{keep}"; d, d2 = mach_differs(b, v, f, "0:0", m), mach_differs(b, v, f, "0:0", m)
                    if not d or not d2: os.remove(f); unclear = True; continue
                    why = ", ".join(n for bit, n in enumerate(MCNAME) if keep >> bit & 1); seen.add(op)
                    open(f, "a").write(f"# machines 0:0 {m}\n# {why}\n# {d}\n")
                    findings.append((f, f"[{v}] differs between processes ({why}): {op}: {d}" + ("" if d == d2 else " (differs anew each time: an uncontrolled source)"), ("differs between processes", op)))
    t3 = time.time(); runs = lives; secs_ = max(t3 - t2, .001)
    cov = dict(evaluations=calls, distinct_nontrivial=len(distinct),
        rule=WHAT[prop] + ". One evaluation is one call's result compared between a standard process and one on another simulated machine; every call is the first call of a freshly started process there. Distinct: different operation or operand bytes.",
        samples=[f"round {r}, process {k}: machine {machines(seed, r, k)} (seed:respects)" for r, k in ((0, 1), (0, 2), (1, 1))],
        simulated_processes=lives, processes_per_hour=int(lives / secs_ * 3600), runs_per_hour=int(lives / secs_ * 3600), seeds_per_hour=int(lives / secs_ * 3600), search_seconds=round(secs_, 1), build_seconds=round(t1 - t0, 1), sweep_inputs=nsweep,
        simulated_time="the code under test has no timers; start times of the simulated processes lie anywhere in 292 years", faults_injected=faults, distinct_load_addresses=len(bases), processes_that_failed_to_run=failed, processes_whose_cpuid_could_not_be_simulated=nocpuid, sweep_parts_failed=badsweep,
        real_components=REAL, stubbed_components=STUB + ["processor identification (the cpuid instruction faults and is answered by the simulator, which withholds optional features)", "process, user and host identity, auxiliary vector"])
    assumptions = ["results of the C mathematical library are taken as given: it always sees the real processor", "addresses vary in whole pages for the library, in 16-byte steps for heap and stack", "g++ 13 x86-64 builds of the library; other compilers and targets are not executed", "operations: the 2201 public functions, operators, constructors and accessors listed in sim/lib/ops_*.cpp"]
    return cov, assumptions, findings, unclear and not findings
def replay_file(path):
    """replays a file written by a check; prints what happened; exit status 1 if the violation came back"""
    txt = open(path).read(); b = common.builddir("replay"); v = re.search(r"^variant\t(\S+)", txt, re.M).group(1)
    vs = list(simbuild.PAIR) if v in simbuild.PAIR else ["rel", "shp"] if v == "shp" else [v]; simbuild.build_lib(b, vs)
    mm = re.search(r"^# machines (\S+) (\S+)", txt, re.M)
    if mm: d = mach_differs(b, v, path, mm.group(1), mm.group(2)); print("violation: differs between processes: " + d if d else "no violation"); return 1 if d else 0
    if v in simbuild.PAIR: d = pair_differs(b, path); print("violation: depends on uninitialised variables: " + d if d else "no violation"); return 1 if d else 0
    m = re.search(r"^seedrun\t(\d+)\t(\d+)\t(\d+)", txt, re.M)
    if m:
        prop = re.search(r"^prop\t(\S+)", txt, re.M).group(1); seed, idx, per = m.groups(); sweep(b, vs, int(seed), int(per), 0)
        w = Worker(b, prop, v, int(seed), 0, 1, 1, 60)
        p = subprocess.run(w.args(idx, 1, 60, b + "/r"), text=True, stdout=subprocess.PIPE, timeout=300); print(p.stdout, "exit status", p.returncode); return 0 if p.returncode == 0 else 1
    return subprocess.run(host_cmd(b, "replay", "--images", b, "--plan", path, "--trace", path + ".trace"), timeout=600).returncode

def check(prop, tier, seed):
    t0 = time.time(); b = common.builddir(prop); variants = list(simbuild.VARIANTS)
    simbuild.build_lib(b, variants + (list(simbuild.PAIR) if prop == "L07" else [])); t1 = time.time()
    per = 200 if tier == "quick" else 4000
    nsweep, badsweep = sweep(b, variants, seed, per, 0); t2 = time.time()
    if prop == "L13": return check_machines(prop, tier, seed, b, variants, t0, t1, nsweep, badsweep)
    mul, cap = (1, QUICK_SECS) if tier == "quick" else (THOROUGH, THOROUGH_SECS)
    ws = []
    for k in range(JOBS):
        for v in ("shp", "dbg", "rel"):
            ws.append(Worker(b, prop, v, seed, k, JOBS, BUDGET[prop][v] * mul // JOBS, cap))
    # the same seeds again in another process and another slicing: logs must agree
    logs = {}
    def logrun(t):
        v, part = t; o = f"{b}/log.{v}.{part}"; w = Worker(b, prop, v, seed, 0, 1, 1, 60)
        if part == "all": p = [w.args(0, 120, 60, o, "--logs", o)]
        else: p = [w.args(40 * i, 40, 60, o + str(i), "--logs", o + str(i)) for i in (2, 0, 1)]
        for c in p:
            try: subprocess.run(c, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=240)
            except subprocess.TimeoutExpired: pass
        r = {}
        for c in p:
            try:
                for l in open(c[-1]): x = l.split(); r[int(x[0])] = x[1:]
            except OSError: pass
        logs[t] = r
    stop = []
    def go(t):
        if isinstance(t, tuple): return logrun(t)
        if stop: t.skip = True; return t
        t.run()
        if t.viols or t.dead: stop.append(1); open(b + "/stop", "w").close()
        return t
    tasks = ws + [(v, p) for v in variants for p in ("all", "parts")]
    with ThreadPoolExecutor(JOBS) as ex: list(ex.map(go, tasks))
    t3 = time.time()
    S = {}
    for w in ws:
        for a, c in w.stats.items(): S[a] = max(S.get(a, 0), c) if a in ("pcs", "suspects", "unit_ctors", "maxdepth", "longest", "longestpc") else S.get(a, 0) + c
    per_variant = {v: sum(w.stats.get("runs", 0) for w in ws if w.v == v) for v in variants}
    scheds = [f for w in ws for f in w.scheds]
    open(b + "/scheds", "w").write("\n".join(scheds))
    distinct = int(subprocess.run(host_cmd(b, "union", "--list", b + "/scheds"), stdout=subprocess.PIPE, text=True).stdout or 0)
    agree = sum(1 for v in variants for i, l in logs.get((v, "all"), {}).items() if logs.get((v, "parts"), {}).get(i) == l)
    compared = sum(len(logs.get((v, "all"), {})) for v in variants)
    viols = sorted([(idx, p, m, w.v) for w in ws for idx, p, m in w.viols], key=lambda x: (x[3] == "shp", x[0]))
    dead = [d for w in ws for d in w.dead]; nondet = [x for w in ws for x in w.nondet]
    findings, seen = [], set()
    for idx, p, m, v in viols[:8]:
        key = (m.split(" | ")[0], m.split(" | ")[1])
        if key in seen or len(findings) >= 3: continue
        r = confirm_plan(b, p, common.replaypath(prop, f"{v}-{seed}-{idx}"))
        if r: seen.add(key); findings.append((r[0], f"[{v}] {r[1]}", key))
        else: print(f"note: {v} run {idx} reported '{m}' but did not repeat", file=sys.stderr)
    if not findings:
        for idx, rc, v in dead[:4]:
            w = Worker(b, prop, v, seed, 0, 1, 1, 60); rcs = []
            for _ in range(2):
                try: rcs.append(subprocess.run(w.args(idx, 1, 60, b + "/d"), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=240).returncode)
                except subprocess.TimeoutExpired: rcs.append(-9)
            if all(x not in (0, 1, 3) for x in rcs):
                f = common.replaypath(prop, f"{v}-{seed}-{idx}"); open(f, "w").write(f"zcm-sim-replay 1\nprop\t{prop}\nvariant\t{v}\nseedrun\t{seed}\t{idx}\t{per}\n# the simulated process dies with status {rcs[0]}\n")
                findings.append((f, f"[{v}] run {idx}: the simulated process dies with status {rcs[0]}", ("process died", ""))); break
            elif 1 in rcs and os.path.exists(b + "/d.viol0"):
                r = confirm_plan(b, b + "/d.viol0", common.replaypath(prop, f"{v}-{seed}-{idx}"))
                if r: findings.append((r[0], f"[{v}] {r[1]}", ("", ""))); break
    npair = 0
    if prop == "L07" and not findings:
        npair, bad = pair_values(b, seed, 1500 if tier == "quick" else 40000, 40 if tier == "quick" else 900)
        for at, part in bad:
            if len(findings) >= 3: break
            f = common.replaypath(prop, f"pair-{seed}-{part}-{at}")
            subprocess.run(host_cmd(b, "values", "--images", b, "--variant", "zer", "--sweep", f"{b}/sweep.dbg", "--seed", seed, "--count", 1 << 30, "--parts", JOBS, "--part", part, "--only", at, "--out", f), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=600)
            op = (re.findall(r"^op\t(.*?)\t", open(f).read(), re.M) + [""])[0]
            if ("uninitialised", op) in seen: os.remove(f); continue
            d = pair_differs(b, f)
            if d and d == pair_differs(b, f): seen.add(("uninitialised", op)); findings.append((f, f"[zer/pat] depends on uninitialised variables: {op}: {d}", ("depends on uninitialised variables", op)))
            else: os.remove(f)
    secs = max(t3 - t2, .001); runs = S.get("runs", 0)
    cov = dict(evaluations=runs, distinct_nontrivial=distinct,
        rule=WHAT[prop] + ". One evaluation is one simulated run (one seed, one plan). Distinct and non-trivial: different hash of (operations called, every scheduling, fault and handler decision with the step it fired at); counted over all processes of this run.",
        samples=[x for w in ws for x in w.samples if w.v == "rel"][:2] + [x for w in ws for x in w.samples if w.v == "shp"][:1] + [x for w in ws for x in w.samples if w.v == "dbg"][:1],
        runs_per_variant=per_variant, calls=S.get("calls", 0), simulated_steps=S.get("steps", 0),
        simulated_time="the code under test has no timers; simulated time is counted in scheduler steps (memory accesses or machine instructions): %d" % S.get("steps", 0),
        runs_per_hour=int(runs / secs * 3600), seeds_per_hour=int(runs / secs * 3600), search_seconds=round(secs, 1), build_seconds=round(t1 - t0, 1),
        sweep_inputs=nsweep, operations_with_writable_static_state=S.get("suspects", 0), reference_executions=S.get("refs", 0),
        faults_injected={d: S.get(k, 0) for k, d in FAULTS.items() if S.get(k, 0)}, resources_taken_by_calls=S.get("taken", 0), longest_call_steps=S.get("longest", 0), longest_call_basic_blocks=S.get("longestpc", 0), deepest_nesting=S.get("maxdepth", 0), calls_while_a_thread_was_stalled=S.get("calls_in_stall", 0), calls_skipped_because_the_isolated_call_fails=S.get("skipped", 0),
        distinct_code_points_reached=S.get("pcs", 0), replayed_in_process=S.get("rechecked", 0), not_repeatable_in_process=S.get("ndet", 0), cross_process_logs_compared=compared, cross_process_logs_equal=agree, simulator_processes_died=len(dead), sweep_parts_failed=badsweep,
        real_components=REAL, stubbed_components=STUB)
    if prop == "L07": cov["calls_compared_between_builds_with_different_uninitialised_values"] = npair
    assumptions = ["sequentially consistent interleavings of the instrumented accesses or machine instructions; weaker hardware reorderings of racing accesses are not simulated (the library has no shared mutable state for them to act on)", "g++ 13 x86-64 builds of the library; other compilers and targets are not executed", "operations: the 2201 public functions, operators, constructors and accessors listed in sim/lib/ops_*.cpp"]
    for x in nondet[:3]: print("note:", x, file=sys.stderr)
    return cov, assumptions, findings, bool(viols or dead) and not findings
