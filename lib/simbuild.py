"""Builds the simulated images from /repo's current working tree.  Nothing is written in /repo."""
import glob, os, re, struct, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ZCM_REPO", "/repo")
LIB = VERIF + "/sim/lib"
GEN = VERIF + "/sim/gen"
JOBS = os.cpu_count() or 4

class BuildError(Exception): pass

def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode: raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])
    return p.stdout

VARIANTS = {
    # the library as a debug build, every memory access a scheduling point
    "dbg": ["-O0", "-fsanitize=thread", "-fsanitize-coverage=trace-pc,trace-cmp"],
    # the library as a release build, every memory access a scheduling point
    "rel": ["-O2", "-DNDEBUG", "-DZCM_RELEASE_BUILD", "-fsanitize=thread", "-fsanitize-coverage=trace-pc,trace-cmp"],
    # the library as shipped: release build without instrumentation, single-stepped
    "shp": ["-O2", "-DNDEBUG", "-DZCM_RELEASE_BUILD"],
}
# two debug builds that differ in what variables without a value hold
PAIR = {"zer": ["-O0", "-ftrivial-auto-var-init=zero"], "pat": ["-O0", "-ftrivial-auto-var-init=pattern"]}

def compile_tasks(out, variants):
    srcs = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))
    ops = sorted(glob.glob(LIB + "/ops_*.cpp"))
    tasks = []
    for v in variants:
        d = f"{out}/{v}"; os.makedirs(d, exist_ok=True)
        names = open(LIB + "/redefine.txt").read().split()
        if v in ("dbg", "rel"): names += ["memcpy", "memmove", "memset"]
        open(d + "/redef", "w").write("".join(f"{n} sim_{n}\n" for n in names))
        for s in ops + srcs + [LIB + "/target_index.cpp"]:
            o = f"{d}/" + (os.path.relpath(s, REPO + "/src").replace("/", "__") if s in srcs else os.path.basename(s))[:-4] + ".o"
            base = ["g++", "-std=c++14", "-fPIC", "-include", "stddef.h", "-fno-stack-protector", "-U_FORTIFY_SOURCE", f"-I{REPO}/include", f"-I{LIB}", "-w"]
            tasks.append((base + {**VARIANTS, **PAIR}[v] + ["-c", s, "-o", o], ["objcopy", f"--redefine-syms={d}/redef", o]))
    # biggest first
    tasks.sort(key=lambda t: -os.path.getsize(t[0][t[0].index("-c") + 1]))
    return tasks

def link(out, v, libs=[]):
    d = f"{out}/{v}"; so = f"{out}/{v}.so"
    objs = sorted(glob.glob(d + "/ops_*.o")) + [o for o in sorted(glob.glob(d + "/*.o")) if not os.path.basename(o).startswith("ops_")]
    sh(["g++", "-shared", "-Wl,-z,now,-z,relro,-Bsymbolic", f"-Wl,-Map={d}/map", "-o", so] + objs + libs)
    # constructors are run by the simulator: list them, then hide them from the dynamic linker
    ctors = []
    txt = open(d + "/map").read()
    txt = txt[txt.index("Linker script and memory map"):]
    for m in re.finditer(r"^ (?:\.init_array|\.ctors|\.fini_array|\.dtors)(\.\d+)?\s+(0x[0-9a-f]+)\s+(0x[0-9a-f]+)\s+(\S+)$", txt, re.M):
        kind = "init" if m.group(0).strip().startswith((".init", ".ctors")) else "fini"
        obj = os.path.basename(m.group(4))[:-2]
        ctors.append((kind, int(m.group(2), 16), int(m.group(3), 16) // 8, re.sub(r"\W", "_", obj)))
    ctors = [c for c in ctors if not c[3].startswith("crt") and c[2]]
    ctors.sort(key=lambda c: c[1])
    open(so + ".ctors", "w").write("".join(f"{k} {a:x} {n} {o}\n" for k, a, n, o in ctors))
    b = bytearray(open(so, "rb").read())
    phoff, = struct.unpack_from("<Q", b, 32); phn, = struct.unpack_from("<H", b, 56)
    for i in range(phn):
        t, fl, off, va, pa, fs, ms, al = struct.unpack_from("<IIQQQQQQ", b, phoff + 56 * i)
        if t == 2:
            for k in range(0, fs, 16):
                tag, = struct.unpack_from("<Q", b, off + k)
                if tag in (25, 26, 27, 28): struct.pack_into("<Q", b, off + k, 0x60000f00 + tag)
                if tag == 0: break
    open(so, "wb").write(b)

def dictionary(out):
    """the numbers that occur in the sources: inputs are drawn from them too"""
    v = set()
    for f in sorted(glob.glob(REPO + "/src/**/*.[ch]pp", recursive=True) + glob.glob(REPO + "/include/**/*.hpp", recursive=True)):
        t = re.sub(r"//[^\n]*|/\*.*?\*/|^\s*#\s*include[^\n]*", " ", open(f, errors="replace").read(), flags=re.S | re.M)
        for m in re.finditer(r"(?<![\w.])(?:0[xX][0-9a-fA-F]+|(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)", t):
            try: x = float(int(m.group(0), 16)) if m.group(0)[:2] in ("0x", "0X") else float(m.group(0))
            except ValueError: continue
            if x == x and abs(x) < 3e38: v.add(x)
    open(out + "/dict", "w").write("".join(f"{x!r}\n" for x in sorted(v)))
def build_lib(out, variants):
    os.makedirs(out, exist_ok=True); dictionary(out)
    host = out + "/host"
    tasks = [(["g++", "-std=c++17", "-O2", "-g1", "-w", "-fno-stack-protector", "-U_FORTIFY_SOURCE", "-rdynamic", LIB + "/host.cpp", "-o", host, "-ldl"], None)] + compile_tasks(out, variants)
    def one(t):
        sh(t[0])
        if t[1]: sh(t[1])
    with ThreadPoolExecutor(JOBS) as ex: list(ex.map(one, tasks))
    with ThreadPoolExecutor(JOBS) as ex: list(ex.map(lambda v: link(out, v), variants))
    return host
GEN_VARIANTS = {"rel": ["-O2", "-DNDEBUG"], "dbg": ["-O0", "-g"]}
def build_gen(out, variants=tuple(GEN_VARIANTS)):
    """the simulator and the generator's real code, its main function renamed"""
    os.makedirs(out, exist_ok=True); tasks = [(["g++", "-std=c++17", "-O2", "-g1", "-w", "-rdynamic", GEN + "/gensim.cpp", "-o", out + "/gensim", "-ldl"], None)]
    src = sorted(f for e in ("cpp", "cc", "cxx") for f in glob.glob(f"{REPO}/tools/benchgen/**/*.{e}", recursive=True))
    for v in variants:
        d = f"{out}/gen_{v}"; os.makedirs(d, exist_ok=True)
        for i, s in enumerate(src):
            o = f"{d}/{i}_{os.path.basename(s)[:-4]}.o"
            tasks.append((["g++", "-std=c++17", "-fPIC", "-w", "-DGLM_ENABLE_EXPERIMENTAL=1", "-DGLM_GTX_norm=1", f"-I{REPO}/tools/benchgen"] + GEN_VARIANTS[v] + ["-c", s, "-o", o], ["objcopy", "--redefine-sym", "main=benchgen_main", o]))
    def one(t):
        sh(t[0])
        if t[1]: sh(t[1])
    with ThreadPoolExecutor(JOBS) as ex: list(ex.map(one, tasks))
    with ThreadPoolExecutor(JOBS) as ex: list(ex.map(lambda v: link(out, "gen_" + v, ["-lfmt", "-lstdc++fs"]), variants))
    return out + "/gensim"
if __name__ == "__main__":
    print(build_lib(sys.argv[1], sys.argv[2:] or list(VARIANTS)))
