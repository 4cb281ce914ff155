#!/usr/bin/env python3
"""Generates the operation table of the simulated library (sim/lib/ops_*.cpp) from the
public headers of /repo with clang's AST dump.  Run by hand when the public API changes;
the generated files are committed (checks do not run this)."""
import json, os, re, subprocess, sys, glob
REPO = os.environ.get("ZCM_REPO", "/repo")
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "sim", "lib")
SHARDS = 12

hdrs = sorted(os.path.basename(h) for h in glob.glob(REPO + "/include/zcm/*.hpp"))
src = "#include <stddef.h>\n" + "".join(f"#include <zcm/{h}>\n" for h in hdrs)
ast = json.loads(subprocess.run(["clang++", "-std=c++14", "-I" + REPO + "/include", "-x", "c++", "-fsyntax-only",
                                 "-Xclang", "-ast-dump=json", "-"], input=src.encode(), stdout=subprocess.PIPE, check=True).stdout)

TYPES = {"float": "FLOAT", "int": "INT", "int32_t": "INT", "unsigned int": "UINT", "unsigned": "UINT", "bool": "BOOL", "size_t": "U64",
         "vec2": "VEC2", "vec3": "VEC3", "vec4": "VEC4", "ivec2": "IVEC2", "ivec3": "IVEC3", "ivec4": "IVEC4",
         "bvec2": "BVEC2", "bvec3": "BVEC3", "bvec4": "BVEC4", "mat2": "MAT2", "mat3": "MAT3", "mat4": "MAT4", "quat": "QUAT"}
NCOMP = {"vec2": 2, "vec3": 3, "vec4": 4, "ivec2": 2, "ivec3": 3, "ivec4": 4, "bvec2": 2, "bvec3": 3, "bvec4": 4, "quat": 4}
MATN = {"mat2": 2, "mat3": 3, "mat4": 4}
def scal(t): return "int32_t" if t.startswith("ivec") else "bool" if t.startswith("bvec") else "float"
def scalT(t): return {"int32_t": "INT", "bool": "BOOL", "float": "FLOAT"}[scal(t)]
CT = {"FLOAT": "float", "INT": "int32_t", "UINT": "unsigned", "BOOL": "bool", "U64": "size_t"}
for t, T in TYPES.items():
    if T not in CT: CT[T] = "zcm::" + t

ops, skipped = [], []
def add(name, ret, args, body, comp=None):
    """args: list of (T, mode, dom); mode i=read-only, v=by value, m=in/out, o=out.
       body: C++ statement using A0.. and R(expr). comp: (off,len) for component mutators"""
    ops.append(dict(name=name, ret=ret, args=args, body=body, comp=comp))

def cleant(q):
    q = q.replace("zcm::", "").replace("std::", "").strip()
    return q
def parse_param(q):
    q = cleant(q)
    m = re.fullmatch(r"(const )?(\w+( int)?) ?([&*])?", q)
    if not m: return None
    c, base, _, ref = m.groups()
    if base not in TYPES: return None
    if ref == "*": return (TYPES[base] + "PTR", "i", "ANY") if c else None
    if ref == "&": return (TYPES[base], "i" if c else "m", "ANY")
    return (TYPES[base], "v", "ANY")

def params(fn):
    r = []
    for x in fn.get("inner", []):
        if x["kind"] == "ParmVarDecl":
            p = parse_param(x["type"]["qualType"]) or parse_param(x["type"].get("desugaredQualType", x["type"]["qualType"]))
            r.append(p)
    return r
def rettype(fn):
    q = fn["type"]["qualType"]
    return cleant(q[:q.index("(")])
def argexpr(i, a):
    T, mode, dom = a
    if T.endswith("PTR"): return f"({'const ' }{CT[T[:-3]]}*)a[{i}]"
    if mode in "mo": return f"*({CT[T]}*)a[{i}]"
    return f"*(const {CT[T]}*)a[{i}]"
PTRN = {"make_vec2": 2, "make_vec3": 3, "make_vec4": 4, "make_ivec2": 2, "make_ivec3": 3, "make_ivec4": 4, "make_bvec2": 2, "make_bvec3": 3,
        "make_bvec4": 4, "make_quat": 4, "make_mat2": 4, "make_mat3": 9, "make_mat4": 16}

def intlike(T): return T in ("INT", "IVEC2", "IVEC3", "IVEC4")
def setdom(args, name):
    args = [list(a) for a in args]
    if name in ("operator/", "operator%", "operator/=", "operator%=") and intlike(args[-1][0]) and intlike(args[0][0]): args[-1][2] = "NZ"
    if name in ("operator<<", "operator>>", "operator<<=", "operator>>=") and intlike(args[-1][0]): args[-1][2] = "SHIFT"; args[0][2] = "NNEG"
    if name in ("lerp", "nlerp") and args[-1][0] == "FLOAT": args[-1][2] = "UNIT"
    if name.startswith("perspective"): args[1][2] = "POS"
    return [tuple(a) for a in args]

seen = set()
def free_fn(fn):
    name = fn["name"]; ps = params(fn); rt = rettype(fn)
    key = (name, fn["type"]["qualType"])
    if key in seen: return
    seen.add(key)
    if any(p is None for p in ps): skipped.append(key); return
    if name == "value_ptr": return
    if rt == "void": ret = None
    elif rt in TYPES: ret = TYPES[rt]
    else: skipped.append(key); return
    ps2 = []
    for p in ps:
        if p[0].endswith("PTR"):
            n = PTRN[name]; ps2.append((p[0], p[1], f"ARR{n}"))
        else: ps2.append(p)
    ps = setdom(ps2, name)
    if rt == "void": ps = [(T, "o" if m == "m" else m, d) for T, m, d in ps]   # objects that only receive results
    ex = [argexpr(i, a) for i, a in enumerate(ps)]
    m = re.fullmatch(r"operator ?([^\w\s]+)", name)
    if m:
        o = m.group(1)
        call = f"{o}({ex[0]})" if len(ex) == 1 else f"({ex[0]}) {o} ({ex[1]})"
    else: call = f"zcm::{name}({', '.join(ex)})"
    disp = f"{name}({','.join(('const ' if 0 else '')+a[0].lower() for a in ps)})"
    add(disp, ret, ps, f"R({ret}, {call})" if ret else call)

def record(rec):
    t = rec["name"]
    if t not in TYPES: return
    T = TYPES[t]
    n = NCOMP.get(t); mn = MATN.get(t)
    for x in rec.get("inner", []):
        k = x["kind"]
        if x.get("isImplicit") or x.get("explicitlyDeleted"): continue
        if k == "CXXConstructorDecl":
            ps = params(x)
            if any(p is None for p in ps): skipped.append((t, x["type"]["qualType"])); continue
            ex = [argexpr(i, a) for i, a in enumerate(ps)]
            add(f"{t}::{t}({','.join(a[0].lower() for a in ps)})", T, ps, f"R({T}, {CT[T]}({', '.join(ex)}))" if ps else f"R({T}, {CT[T]}())")
        elif k == "CXXConversionDecl":
            rt = rettype(x) if "(" in x["type"]["qualType"] else ""
            rt = cleant(x["name"].replace("operator ", ""))
            if rt not in TYPES: skipped.append((t, x["name"])); continue
            add(f"{t}::operator {rt}", TYPES[rt], [(T, "i", "ANY")], f"R({TYPES[rt]}, static_cast<{CT[TYPES[rt]]}>(*(const {CT[T]}*)a[0]))")
        elif k == "CXXMethodDecl":
            name = x["name"]; q = x["type"]["qualType"]; ps = params(x); rt = rettype(x)
            const = ") const" in q
            if x.get("storageClass") == "static":
                ex = [argexpr(i, a) for i, a in enumerate(ps)]
                add(f"{t}::{name}", TYPES[rt], ps, f"R({TYPES[rt]}, zcm::{t}::{name}({', '.join(ex)}))"); continue
            if name == "operator[]":
                N = n or mn; ET = scalT(t) if n else f"VEC{mn}"
                if const:
                    add(f"const {t}::operator[]", ET, [(T, "i", "ANY"), ("UINT", "v", f"IDX{N}")], f"R({ET}, (*(const {CT[T]}*)a[0])[*(const unsigned*)a[1]])")
                else:
                    add(f"{t}::operator[] read", ET, [(T, "m", "ANY"), ("UINT", "v", f"IDX{N}")], f"R({ET}, (*({CT[T]}*)a[0])[*(const unsigned*)a[1]])")
                    add(f"{t}::operator[] write", None, [(T, "m", "ANY"), ("UINT", "v", f"IDX{N}"), (ET, "v", "ANY")], f"(*({CT[T]}*)a[0])[*(const unsigned*)a[1]] = *(const {CT[ET]}*)a[2]")
                continue
            if any(p is None for p in ps): skipped.append((t, name, q)); continue
            self = f"(*({'const ' if const else ''}{CT[T]}*)a[0])"
            if name in ("operator++", "operator--"):
                o = name[8:]
                if ps: add(f"{t}::{name}(int)", T, [(T, "m", "ANY")], f"R({T}, {self}{o})")
                else: add(f"{t}::{name}()", T, [(T, "m", "ANY")], f"R({T}, {o}{self})")
                continue
            args = setdom([(T, "i" if const else "m", "ANY")] + ps, name)
            ex = [argexpr(i, a) for i, a in enumerate(args)]
            m = re.fullmatch(r"operator ?([^\w\s]+)", name)
            ret = TYPES.get(rt.replace("&", "").strip())
            if m and len(args) == 2: call = f"{self} {m.group(1)} {ex[1]}"
            else: call = f"{self}.{name}({', '.join(ex[1:])})"
            if rt == "void": add(f"{t}::{name}({args[1][0].lower()})", None, args, call)
            elif ret: add(f"{t}::{name}", ret, args, f"R({ret}, {call})")
            else: skipped.append((t, name, q))
        elif k == "CXXRecordDecl" and "inner" in x and x.get("tagUsed") == "union":
            for f in x["inner"]:
                if f["kind"] != "FieldDecl" or "name" not in f: continue
                fn = f["name"]
                if not re.fullmatch("[xyzw]{2,4}", fn): continue
                ft = f["type"]["qualType"]
                rl = len(fn)
                RT = TYPES[("ivec" if t.startswith("ivec") else "vec") + str(rl)]
                add(f"{t}.{fn}", RT, [(T, "i", "ANY")], f"R({RT}, {CT[RT]}((*(const {CT[T]}*)a[0]).{fn}))")

def walk(n, ns):
    k = n.get("kind")
    if k == "TranslationUnitDecl":
        for x in n["inner"]: walk(x, ns)
    elif k == "NamespaceDecl":
        if ns == [] and n.get("name") == "zcm":
            for x in n.get("inner", []): walk(x, ["zcm"])
    elif ns == ["zcm"]:
        if k == "FunctionDecl": free_fn(n)
        elif k == "CXXRecordDecl" and n.get("completeDefinition"): record(n)
walk(ast, [])

# component-wise mutators (also used for L03) -----------------------------------------------------
for t, n in list(NCOMP.items()):
    S = scalT(t); C = CT[TYPES[t]]; sc = scal(t); es = 1 if sc == "bool" else 4
    isvec = t.startswith("vec") or t.startswith("ivec")
    for i in range(n):
        me = "xyzw"[i]
        comp = (i * es, es)
        o = f"(*({C}*)a[0])"
        def mut(nm, dom, stmt): add(f"{t}.{nm}", None, [(TYPES[t], "m", "ANY"), (S, "v", dom)], stmt.replace("@", o).replace("$", f"*(const {sc}*)a[1]"), comp)
        def mut0(nm, ret, stmt): add(f"{t}.{nm}", ret, [(TYPES[t], "m", "ANY")], stmt.replace("@", o), comp)
        # ivecN's component proxies accept no plain "= int" (see DESIGN.md, observations)
        if not t.startswith("ivec"): mut(f"{me} =", "ANY", f"@.{me} = $")
        if isvec:
            for op in ("+=", "-=", "*=", "/="):
                mut(f"{me} {op}", "NZ" if op == "/=" and sc != "float" else "ANY", f"@.{me} {op} $")
            if sc == "int32_t":
                for op in ("%=", "|=", "&=", "^=", "<<=", ">>="):
                    mut(f"{me} {op}", "NZ" if op == "%=" else "SHIFT" if op in ("<<=", ">>=") else "ANY", f"@.{me} {op} $")
            mut0(f"++{me}", S, f"R({S}, ++@.{me})"); mut0(f"{me}++", S, f"R({S}, @.{me}++)")
            mut0(f"--{me}", S, f"R({S}, --@.{me})"); mut0(f"{me}--", S, f"R({S}, @.{me}--)")
            al = "rgba"[i]; st = "stpq"[i]
            if t.startswith("ivec"): mut(f"{al} -=", "ANY", f"@.{al} -= $")
            else: mut(f"{al} =", "ANY", f"@.{al} = $")
            mut(f"{st} +=", "ANY", f"@.{st} += $")
            add(f"{t}.{me} read", S, [(TYPES[t], "i", "ANY")], f"R({S}, (*(const {C}*)a[0]).{me})", None)
        mut(f"[{i}] =", "ANY", f"@[{i}u] = $")
        if sc != "bool": mut(f"[{i}] +=", "ANY", f"@[{i}u] += $")
        else: mut(f"[{i}] ^=", "ANY", f"@[{i}u] ^= $")
        if not t.startswith("ivec"):
            mut(f"value_ptr[{i}] =", "ANY", f"zcm::value_ptr(@)[{i}] = $")
            if sc == "float": mut(f"value_ptr[{i}] *=", "ANY", f"zcm::value_ptr(@)[{i}] *= $")
    if not t.startswith("ivec"):
        add(f"value_ptr(const {t})", TYPES[t], [(TYPES[t], "i", "ANY")], f"const {sc}* p = zcm::value_ptr(*(const {C}*)a[0]); for(int i=0;i<{n};i++) (({sc}*)r)[i]=p[i]")
for t, n in MATN.items():
    C = CT[TYPES[t]]; V = f"vec{n}"; VT = f"VEC{n}"; cs = n * 4
    o = f"(*({C}*)a[0])"
    for i in range(n):
        for op in ("=", "+=", "-=", "*="):
            add(f"{t}[{i}] {op} {V}", None, [(TYPES[t], "m", "ANY"), (VT, "v", "ANY")], f"{o}[{i}u] {op} *(const zcm::{V}*)a[1]", (i * cs, cs))
        add(f"{t}[{i}] *= float", None, [(TYPES[t], "m", "ANY"), ("FLOAT", "v", "ANY")], f"{o}[{i}u] *= *(const float*)a[1]", (i * cs, cs))
        for j in range(n):
            add(f"{t}[{i}][{j}] =", None, [(TYPES[t], "m", "ANY"), ("FLOAT", "v", "ANY")], f"{o}[{i}u][{j}u] = *(const float*)a[1]", (i * cs + j * 4, 4))
            add(f"{t}[{i}].{'xyzw'[j]} +=", None, [(TYPES[t], "m", "ANY"), ("FLOAT", "v", "ANY")], f"{o}[{i}u].{'xyzw'[j]} += *(const float*)a[1]", (i * cs + j * 4, 4))
            add(f"{t} value_ptr[{i*n+j}] =", None, [(TYPES[t], "m", "ANY"), ("FLOAT", "v", "ANY")], f"zcm::value_ptr({o})[{i*n+j}] = *(const float*)a[1]", (i * cs + j * 4, 4))
    add(f"value_ptr(const {t})", TYPES[t], [(TYPES[t], "i", "ANY")], f"const float* p = zcm::value_ptr(*(const {C}*)a[0]); for(int i=0;i<{n*n};i++) ((float*)r)[i]=p[i]")
for t, T in TYPES.items():
    if t in NCOMP or t in MATN:
        add(f"std::hash<{t}>", "U64", [(T, "i", "ANY")], f"R(U64, std::hash<zcm::{t}>()(*(const {CT[T]}*)a[0]))")

# declared in the headers but defined nowhere (see DESIGN.md, observations): nothing to call
def undefined(o):
    n = o["name"]
    if n.startswith("sterp("): return True
    if re.match(r"ivec4::operator(%|&|\||\^|<<|>>)=", n): return True
    return bool(re.match(r"operator(%|&|\||\^|<<|>>)\(", n)) and any(a[0] == "IVEC4" for a in o["args"])
ops = [o for o in ops if not undefined(o)]
# ------------------------------------------------------------------------------------ emit
names = {}
for o in ops:
    c = names.get(o["name"], 0); names[o["name"]] = c + 1
    if c: o["name"] += f"#{c+1}"
hdr = "// generated by tools/genops.py from the public headers; do not edit\n" + src + """
#include <new>
#include <functional>
#include "ops.hpp"
#define R(T, ...) new (r) CT_##T(__VA_ARGS__)
"""
hdr += "".join(f"typedef {c} CT_{T};\n" for T, c in CT.items())
per = (len(ops) + SHARDS - 1) // SHARDS
MODE = {"v": 0, "i": 1, "m": 2, "o": 3}
for s in range(SHARDS):
    part = ops[s * per:(s + 1) * per]
    with open(f"{OUT}/ops_{s:02d}.cpp", "w") as f:
        f.write(hdr + "namespace {\n")
        for i, o in enumerate(part):
            f.write(f"void o{i}(void* const* a, void* r) {{ (void)a; (void)r; {o['body']}; }}\n")
        f.write("}\n")
        f.write(f"extern const OpDesc zcm_ops_{s:02d}[] = {{\n")
        for i, o in enumerate(part):
            al = ", ".join("{%s, %d, %s}" % (("T_" + (T[:-3] if T.endswith("PTR") else T)), MODE[m], ("D_" + re.sub(r'\d+$', '', d)) + (", " + re.search(r'\d+$', d).group() if re.search(r'\d+$', d) else ", 0")) for T, m, d in o["args"])
            ret = "T_" + o["ret"] if o["ret"] else "T_VOID"
            c = o["comp"] or (-1, 0)
            f.write(f"  {{\"{o['name']}\", o{i}, {ret}, {len(o['args'])}, {{{al}}}, {c[0]}, {c[1]}}},\n")
        f.write("};\n")
        f.write(f"extern const unsigned zcm_nops_{s:02d} = {len(part)};\n")
with open(f"{OUT}/ops_index.inc", "w") as f:
    for s in range(SHARDS): f.write(f"X({s:02d})\n")
print(len(ops), "ops;", len(skipped), "skipped"); 
for s in skipped: print("  skipped", s)
