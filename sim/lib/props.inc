// Plans: generation, execution, oracles, minimisation (included by host.cpp)

// ------------------------------------------------------------------------------- inputs
static void putf(u8* b, int i, float f) { memcpy(b + 4 * i, &f, 4); }
static float getf(const u8* b, int i) { float f; memcpy(&f, b + 4 * i, 4); return f; }
static std::vector<u32> DICT;   // float bits of the numbers that occur in the sources
static u32 dictval(Rng& r) { u32 v = r.pick(DICT); switch (r.below(8)) { case 0: v += 1; break; case 1: v -= 1; break; case 2: v ^= 0x80000000u; break; case 3: if ((v & 0x7f800000) > 0x00800000) v -= 0x00800000; break; case 4: if ((v & 0x7f800000) < 0x7e000000) v += 0x00800000; break; default: break; } return v; }
static float rfloat(Rng& r)
{
    if (!DICT.empty() && r.p(.06)) { u32 v = dictval(r); float f; memcpy(&f, &v, 4); return f; }
    switch (r.below(10)) {
    case 0: return (float)((int)r.below(9) - 4);
    case 1: return ((int)r.below(17) - 8) * 0.5f;
    case 2: return (float)r.u();
    case 3: case 4: return (float)(r.u() * 2 - 1);
    case 5: return (float)(r.u() * 20 - 10);
    case 6: return (float)std::exp((r.u() * 2 - 1) * 40) * (r.p(.5) ? 1 : -1);
    case 7: { static const float s[] = {0.f, -0.f, 1.f, -1.f, INFINITY, -INFINITY, NAN, -NAN, 1e-45f, 1.17549435e-38f, 3.4028235e38f, -3.4028235e38f, 0.9999999f, 1.0000001f, 0.5f, 0.49999997f, 3.14159265f, 1.5707964f, 6.2831855f, 0.7853982f, 16777216.f, 8388607.5f, 1e10f, 2147483648.f, -2147483648.f, 4294967296.f, 9.2233720e18f, -9.2233720e18f, 88.7f, -87.5f, 127.5f, -149.f, 1e-38f, 3.1415925f, 1.5707962f, 0.99999994f, 2.5f, -0.5f, 180.f, 360.f, 256.f, 255.f, 1e-20f, 1e20f, 0.0031308f, 0.04045f, 1e-6f, -1e-6f, 1.1920929e-7f}; return s[r.below(sizeof s / 4)]; }
    case 8: return (float)(r.u() * 6.2831853 - 3.1415927);
    default: return (float)(r.below(1000) / 100.0);
    }
}
static void rvec(Rng& r, u8* b, int n)
{
    static const float few[] = {0.f, 0.f, -0.f, 1.f, -1.f, NAN, -NAN, INFINITY, -INFINITY};
    switch (r.below(10)) {
    case 9: { int m = 2 + (int)r.below(8); for (int i = 0; i < n; i++) putf(b, i, few[r.below(m)]); if (r.p(.5)) putf(b, r.below(n), r.p(.5) ? few[r.below(9)] : rfloat(r)); break; }   // few values, so that they meet
    case 0: case 1: { double v[16], l = 0; for (int i = 0; i < n; i++) { v[i] = r.u() * 2 - 1; l += v[i] * v[i]; } l = std::sqrt(l) + 1e-30; for (int i = 0; i < n; i++) putf(b, i, (float)(v[i] / l)); break; }
    case 2: { int k = r.below(n); float s = r.p(.5) ? 1.f : -1.f; for (int i = 0; i < n; i++) putf(b, i, i == k ? s : 0.f); break; }
    case 3: { float f = rfloat(r); for (int i = 0; i < n; i++) putf(b, i, f); break; }
    case 4: for (int i = 0; i < n; i++) putf(b, i, (float)r.u()); break;
    case 5: for (int i = 0; i < n; i++) putf(b, i, (float)(r.u() * 20 - 10)); break;
    case 6: for (int i = 0; i < n; i++) putf(b, i, (float)((int)r.below(7) - 3)); break;
    default: for (int i = 0; i < n; i++) putf(b, i, rfloat(r));
    }
}
static void qmat(const float* q, float* m, int n) // column major rotation, n = 3 or 4
{
    float w = q[0], x = q[1], y = q[2], z = q[3];
    float R[9] = {1 - 2 * (y * y + z * z), 2 * (x * y + w * z), 2 * (x * z - w * y), 2 * (x * y - w * z), 1 - 2 * (x * x + z * z), 2 * (y * z + w * x), 2 * (x * z + w * y), 2 * (y * z - w * x), 1 - 2 * (x * x + y * y)};
    for (int c = 0; c < n; c++) for (int k = 0; k < n; k++) m[c * n + k] = c < 3 && k < 3 ? R[c * 3 + k] : c == k;
}
static void rquatf(Rng& r, float* q)
{
    double v[4], l = 0;
    switch (r.below(6)) {
    case 0: v[0] = 1; v[1] = v[2] = v[3] = 0; break;
    case 1: { v[0] = v[1] = v[2] = v[3] = 0; double a = (r.below(5)) * 0.7853981633974483; v[0] = std::cos(a); v[1 + r.below(3)] = std::sin(a); break; }
    case 2: { v[0] = 1; for (int i = 1; i < 4; i++) v[i] = (r.u() * 2 - 1) * 1e-3; break; }
    default: for (int i = 0; i < 4; i++) v[i] = r.u() * 2 - 1;
    }
    for (int i = 0; i < 4; i++) l += v[i] * v[i]; l = std::sqrt(l) + 1e-30; if (r.p(.1)) l = 1;
    double s = r.p(.5) ? 1 : -1; for (int i = 0; i < 4; i++) q[i] = (float)(s * v[i] / l);
}
static void rmat(Rng& r, u8* b, int n)
{
    float m[16] = {0};
    auto ident = [&] { for (int i = 0; i < n * n; i++) m[i] = i % (n + 1) == 0; };
    switch (r.below(12)) {
    case 11: { static const float few[] = {0.f, 0.f, 0.f, 1.f, -0.f, -1.f, NAN, INFINITY, -INFINITY}; int k = 2 + (int)r.below(8); if (r.p(.5)) ident(); for (int i = r.below(n * n), e = r.p(.3) ? n * n : i + 1 + (int)r.below(3); i < e && i < n * n; i++) m[i] = few[r.below(k)]; break; }
    case 0: ident(); break;
    case 1: ident(); for (int i = 0; i < n; i++) m[i * (n + 1)] = rfloat(r); break;
    case 2: case 3: case 4: if (n >= 3) { float q[4]; rquatf(r, q); qmat(q, m, n); if (r.p(.5)) for (int c = 0; c < 3; c++) { float s = (float)(r.u() * 4 - 1); for (int k = 0; k < 3; k++) m[c * n + k] *= s; } if (n == 4 && r.p(.6)) for (int k = 0; k < 3; k++) m[12 + k] = (float)(r.u() * 20 - 10); if (n == 4 && r.p(.15)) for (int k = 0; k < 4; k++) m[k * 4 + 3] = (float)(r.u() * 2 - 1); } else { double a = r.u() * 6.28; m[0] = (float)std::cos(a); m[1] = (float)std::sin(a); m[2] = -m[1]; m[3] = m[0]; } break;
    case 5: for (int i = 0; i < n * n; i++) m[i] = (float)(r.u() * 2 - 1); { int c = r.below(n), d = r.below(n); for (int k = 0; k < n; k++) m[c * n + k] = m[d * n + k] * (r.p(.5) ? 1.f : 2.f); } break;
    case 6: break;
    case 7: for (int i = 0; i < n * n; i++) m[i] = rfloat(r); break;
    case 8: for (int i = 0; i < n * n; i++) m[i] = (float)((int)r.below(7) - 3); break;
    default: for (int i = 0; i < n * n; i++) m[i] = (float)(r.u() * 10 - 5);
    }
    memcpy(b, m, n * n * 4);
}
static int32_t rint(Rng& r)
{
    switch (r.below(6)) { case 0: return (int)r.below(5) - 2; case 1: return (int)r.below(200) - 100; case 2: return 1 << r.below(31); case 3: { static const int s[] = {INT32_MAX, INT32_MIN, -1, 0, 255, 65535, 65536, -256}; return s[r.below(8)]; } case 4: return (int32_t)r.next(); default: return (int)r.below(32); }
}
static void rvalue(Rng& r, Ty t, u8* b)
{
    switch (t) {
    case T_FLOAT: putf(b, 0, rfloat(r)); break;
    case T_VEC2: rvec(r, b, 2); break; case T_VEC3: rvec(r, b, 3); break; case T_VEC4: rvec(r, b, 4); break;
    case T_QUAT: { float q[4]; rquatf(r, q); if (r.p(.3)) rvec(r, b, 4); else { int o = r.below(2); for (int i = 0; i < 4; i++) putf(b, o ? i : (i + 3) & 3, q[i]); } break; }
    case T_MAT2: rmat(r, b, 2); break; case T_MAT3: rmat(r, b, 3); break; case T_MAT4: rmat(r, b, 4); break;
    case T_INT: case T_UINT: case T_IVEC2: case T_IVEC3: case T_IVEC4: { int32_t v = rint(r); bool same = r.p(.2); for (int i = 0; i < ncomp(t); i++) { if (!same) v = rint(r); memcpy(b + 4 * i, &v, 4); } break; }
    case T_BOOL: case T_BVEC2: case T_BVEC3: case T_BVEC4: for (int i = 0; i < ncomp(t); i++) b[i] = r.below(2); break;
    case T_U64: { u64 v = r.next(); memcpy(b, &v, 8); break; }
    default: break;
    }
}
static void fixdom(Rng& r, const ArgDesc& d, u8* b)
{
    int n = ncomp(d.ty); bool fl = scalty(d.ty) == T_FLOAT;
    for (int i = 0; i < n; i++) {
        int32_t v; memcpy(&v, b + 4 * i, scalty(d.ty) == T_BOOL ? 1 : 4); float f = fl ? getf(b, i) : 0;
        switch (d.dom) {
        case D_NZ: if (!fl) { if (v == 0 || v == -1) v = 1 + r.below(9); memcpy(b + 4 * i, &v, 4); } break;
        case D_SHIFT: if (!fl) { v = (int)((unsigned)v % 31u); memcpy(b + 4 * i, &v, 4); } break;
        case D_NNEG: if (!fl) { v &= 0x7fff; memcpy(b + 4 * i, &v, 4); } break;
        case D_UNIT: if (!(f >= 0 && f <= 1)) { f = r.p(.3) ? (r.p(.5) ? 0.f : 1.f) : (float)r.u(); putf(b, i, f); } break;
        case D_POS: if (!(f > 0.01f && f < 100.f)) putf(b, i, (float)(0.1 + r.u() * 3)); break;
        case D_IDX: if (!fl) { v = (int)r.below(d.domn); memcpy(b + 4 * i, &v, 4); } break;
        default: break;
        }
    }
}
// a small change: one component, one ulp, a sign, a NaN
static void perturb(Rng& r, Ty t, u8* b)
{
    int n = ncomp(t); if (n <= 0) return; int i = r.below(n);
    if (scalty(t) == T_BOOL) { if (n > 1 && r.p(.3)) std::swap(b[i], b[r.below(n)]); else b[i] ^= 1; return; }
    if (n > 1 && r.p(.25)) { // components exchanged, copied, negated together, shifted against each other
        int j = r.below(n - 1); j += j >= i; u32 x, y; memcpy(&x, b + 4 * i, 4); memcpy(&y, b + 4 * j, 4);
        switch (r.below(scalty(t) == T_FLOAT ? 7 : 3)) {
        case 0: memcpy(b + 4 * i, &y, 4); memcpy(b + 4 * j, &x, 4); return; case 1: memcpy(b + 4 * i, &y, 4); return; case 2: { u8 k[64]; memcpy(k, b, 64); for (int c = 0; c < n; c++) memcpy(b + 4 * c, k + 4 * ((c + 1) % n), 4); return; }
        case 3: y ^= 0x80000000u; memcpy(b + 4 * i, &y, 4); return; case 4: for (int c = 0; c < n; c++) b[4 * c + 3] ^= 0x80; return;
        case 5: { float f = getf(b, i), g = getf(b, j), d = r.p(.5) ? 1.f : .125f; putf(b, i, f + d); putf(b, j, g - d); return; } default: { float k = r.p(.5) ? 2.f : .5f; for (int c = 0; c < n; c++) putf(b, c, getf(b, c) * k); return; } }
    }
    u32 v; memcpy(&v, b + 4 * i, 4);
    if (scalty(t) == T_FLOAT) switch (r.below(10)) { case 0: v ^= 1; break; case 1: v += 1; break; case 2: v ^= 0x80000000u; break; case 3: v = 0x7fc00000u | r.below(2) << 31; break; case 4: { static const float e[] = {1e-4f, 1e-3f, 1e-6f, 1e-5f}; float f = getf(b, i) + e[r.below(4)]; memcpy(&v, &f, 4); break; } case 5: { float f = getf(b, i) * 2; memcpy(&v, &f, 4); break; } case 6: v ^= 1u << r.below(23); break; case 7: v &= 0xffff0000u; break; case 8: { float f = getf(b, i); f = std::fabs(f) < 1e9f ? (float)(long)f : f; memcpy(&v, &f, 4); break; } default: { float f = rfloat(r); memcpy(&v, &f, 4); } }
    else v = r.p(.2) ? v + (r.p(.5) ? 1 : -1) : v ^ 1u << r.below(31);
    memcpy(b + 4 * i, &v, 4);
}
// far out: any bit pattern, any power of two, the ends of the ranges
static void extreme(Rng& r, Ty t, u8* b)
{
    if (scalty(t) == T_BOOL || t == T_U64) return; int n = ncomp(t), k = r.p(.5) ? (int)r.below(n) : -1; int how = r.below(5);
    for (int i = 0; i < n; i++) {
        if (k >= 0 && i != k) continue; u32 v = (u32)r.next();
        if (scalty(t) != T_FLOAT) { if (how < 2) v = 1u << r.below(32); else if (how == 2) v = 0x7fffffffu + r.below(3); }
        else switch (how) { case 0: break; case 1: v = (v & 0x80000000u) | r.below(256) << 23; break; case 2: v = (v & 0x807fffffu) | (u32)(r.below(20) + 235) << 23; break; case 3: v = (v & 0x807fffffu) | r.below(20) << 23; break; default: { static const u32 s[] = {0x7f800000u, 0xff800000u, 0x7fc00000u, 0x7f7fffffu, 0xff7fffffu, 1u, 0x80000001u, 0x00800000u, 0x4b000000u, 0x4effffffu, 0x80000000u}; v = s[r.below(11)]; } }
        memcpy(b + 4 * i, &v, 4);
    }
}
static std::vector<std::vector<std::vector<ArgVal>>> INTER;   // interesting inputs per op (from the sweep)
static std::vector<u32> SUSP;                                 // flags per op
static std::vector<int> SUSPLIST; static double SUSPP = .65;
struct Hot { std::vector<std::vector<u8>> v[T_COUNT]; };
static void genarg(Rng& r, OpInst& in, int i, Hot* hot)
{
    const ArgDesc& d = in.d->arg[i]; u8* b = in.a[i].b; memset(b, 0, 64);
    if (d.dom == D_ARR) { for (int k = 0; k < d.domn; k++) { u8 t[8]; rvalue(r, d.ty, t); memcpy(b + k * TSIZE[d.ty], t, TSIZE[d.ty]); } return; }
    int same = -1; for (int k = i - 1; k >= 0; k--) if (in.d->arg[k].ty == d.ty && in.d->arg[k].dom != D_ARR) { same = k; break; }
    double u = r.u();
    if (hot && !hot->v[d.ty].empty() && u < .5) { auto& h = r.pick(hot->v[d.ty]); memcpy(b, h.data(), TSIZE[d.ty]); if (r.p(.25)) perturb(r, d.ty, b); }
    else if (same >= 0 && r.p(.3)) {
        memcpy(b, in.a[same].b, TSIZE[d.ty]);
        switch (r.below(4)) { case 0: break; case 1: perturb(r, d.ty, b); break; case 2: if (scalty(d.ty) == T_FLOAT) for (int k = 0; k < ncomp(d.ty); k++) putf(b, k, -getf(b, k)); break; default: if (scalty(d.ty) == T_FLOAT) for (int k = 0; k < ncomp(d.ty); k++) putf(b, k, getf(b, k) + (float)((r.u() - .5) * 2e-3)); }
    } else rvalue(r, d.ty, b);
    if (d.dom != D_ANY) fixdom(r, d, b);
}
static OpInst mkinst(int opid) { OpInst in; in.opid = opid; in.d = OPS[opid]; in.a.resize(in.d->nargs); return in; }
static OpInst geninst(Rng& r, int opid, Hot* hot)
{
    OpInst in = mkinst(opid);
    if (opid < (int)INTER.size() && !INTER[opid].empty() && r.p(.4)) { in.a = r.pick(INTER[opid]); if (r.p(.4) && in.d->nargs) { int i = r.below(in.d->nargs); if (in.d->arg[i].dom != D_ARR) { perturb(r, in.d->arg[i].ty, in.a[i].b); fixdom(r, in.d->arg[i], in.a[i].b); } } }
    else for (int i = 0; i < in.d->nargs; i++) genarg(r, in, i, hot);
    in.seed = r.next();
    return in;
}

// ------------------------------------------------------------------------------- plan files
static std::string hex(const void* p, size_t n) { static const char* d = "0123456789abcdef"; std::string s; for (size_t i = 0; i < n; i++) { s += d[((const u8*)p)[i] >> 4]; s += d[((const u8*)p)[i] & 15]; } return s.empty() ? "-" : s; }
static size_t unhex(const std::string& s, u8* b, size_t cap) { size_t n = 0; if (s == "-") return 0; auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }; for (; 2 * n + 1 < s.size() && n < cap; n++) b[n] = (u8)(v(s[2 * n]) << 4 | v(s[2 * n + 1])); return n; }
static std::string pretty(Ty t, const u8* b, size_t n)
{
    std::string s; char buf[64]; size_t es = scalty(t) == T_BOOL ? 1 : t == T_U64 ? 8 : 4;
    for (size_t i = 0; i + es <= n; i += es) { if (scalty(t) == T_FLOAT) { float f; memcpy(&f, b + i, 4); snprintf(buf, sizeof buf, "%.9g", f); } else if (es == 1) snprintf(buf, sizeof buf, "%d", b[i]); else if (es == 8) { u64 v; memcpy(&v, b + i, 8); snprintf(buf, sizeof buf, "%llu", (unsigned long long)v); } else { int v; memcpy(&v, b + i, 4); snprintf(buf, sizeof buf, "%d", v); } if (!s.empty()) s += ' '; s += buf; }
    return s;
}
static std::string showinst(const OpInst& in)
{
    if (!in.d) return in.kind == 1 ? "construct " + UNITS[in.n < (int)UNITS.size() ? in.n : 0] : in.kind == 3 ? "run thread exit handler" : "run exit handler";
    std::string s = in.d->name; s += "  "; for (int i = 0; i < in.d->nargs; i++) { s += "("; if (in.a[i].shared >= 0) s += "shared object " + std::to_string(in.a[i].shared); else s += pretty(in.d->arg[i].ty, in.a[i].b, argsize(in.d->arg[i])); s += ") "; } return s;
}
static void writeinst(FILE* f, const OpInst& in)
{
    if (!in.d) { fprintf(f, "event\t%d\t%s\n", in.kind, in.kind == 1 ? UNITS[in.n].c_str() : "-"); return; }
    fprintf(f, "%s\t%llu", in.d->name, (unsigned long long)in.seed);
    for (int i = 0; i < in.d->nargs; i++) if (in.a[i].shared >= 0) fprintf(f, "\ts%d", in.a[i].shared); else fprintf(f, "\t%s", hex(in.a[i].b, argsize(in.d->arg[i])).c_str());
    fputc('\n', f);
}
static void writeplan(const Plan& p, const char* path, const Viol* v, u64 log)
{
    FILE* f = fopen(path, "w"); if (!f) { perror(path); _exit(3); }
    fprintf(f, "zcm-sim-replay 1\nprop\t%s\nvariant\t%s\n", p.prop.c_str(), p.variant.c_str());
    for (auto& c : p.cfg) fprintf(f, "cfg\t%s\t%lld\n", c.first.c_str(), (long long)c.second);
    for (auto& q : p.pool) fprintf(f, "pool\t%s\t%s\n", TNAME[q.first], hex(q.second.data(), q.second.size()).c_str());
    for (size_t i = 0; i < p.fib.size(); i++) { fprintf(f, "fiber\t%u\n", p.fib[i].mxcsr); for (auto& o : p.fib[i].ops) { fprintf(f, "# thread %zu calls %s\nop\t", i, showinst(o).c_str()); writeinst(f, o); } }
    for (size_t i = 0; i < p.handlers.size(); i++) { fprintf(f, "# handler %zu calls %s\nhandler\t", i, showinst(p.handlers[i]).c_str()); writeinst(f, p.handlers[i]); }
    for (auto& d : p.decs) fprintf(f, "dec\t%llu\t%llu\t%s\t%d\n", (unsigned long long)d.frame, (unsigned long long)d.hook, ANAME[d.act], d.arg);
    if (v) fprintf(f, "expect\t%s\t%s\t%016llx\n# %s\n", v->kind.c_str(), v->op.empty() ? "-" : v->op.c_str(), (unsigned long long)log, v->detail.c_str());
    fclose(f);
}
static std::vector<std::string> split(const std::string& s) { std::vector<std::string> r; size_t i = 0; for (;;) { size_t j = s.find('\t', i); r.push_back(s.substr(i, j - i)); if (j == std::string::npos) return r; i = j + 1; } }
static bool readinst(const std::vector<std::string>& c, size_t o, OpInst& in)
{
    if (c[o] == "event") { in = OpInst(); in.kind = atoi(c[o + 1].c_str()); for (size_t i = 0; i < UNITS.size(); i++) if (UNITS[i] == c[o + 2]) in.n = (int)i; return true; }
    auto it = OPBYNAME.find(c[o]); if (it == OPBYNAME.end()) return false;
    in = mkinst(it->second); in.seed = strtoull(c[o + 1].c_str(), nullptr, 10);
    for (int i = 0; i < in.d->nargs; i++) { if (o + 2 + i >= c.size()) return false; auto& s = c[o + 2 + i]; if (s[0] == 's') in.a[i].shared = atoi(s.c_str() + 1); else unhex(s, in.a[i].b, 64); }
    return true;
}
struct Expect { std::string kind, op; u64 log = 0; };
// first pass (variant only) happens before the image is loaded
static std::string planvariant(const char* path) { FILE* f = fopen(path, "r"); if (!f) return ""; char* l = nullptr; size_t n = 0; std::string v; while (getline(&l, &n, f) > 0) if (!strncmp(l, "variant\t", 8)) { v = l + 8; while (!v.empty() && v.back() == '\n') v.pop_back(); } free(l); fclose(f); return v; }
static bool readplan(const char* path, Plan& p, Expect* e)
{
    FILE* f = fopen(path, "r"); if (!f) return false; char* l = nullptr; size_t n = 0; bool ok = true;
    while (getline(&l, &n, f) > 0) {
        std::string s = l; while (!s.empty() && s.back() == '\n') s.pop_back(); if (s.empty() || s[0] == '#') continue;
        auto c = split(s);
        if (c[0] == "prop") p.prop = c[1]; else if (c[0] == "variant") p.variant = c[1]; else if (c[0] == "cfg") p.cfg[c[1]] = atoll(c[2].c_str());
        else if (c[0] == "pool") { Ty t = T_VOID; for (int i = 0; i < T_COUNT; i++) if (c[1] == TNAME[i]) t = (Ty)i; std::vector<u8> b(64); b.resize(unhex(c[2], b.data(), 64)); p.pool.push_back({t, b}); }
        else if (c[0] == "fiber") { p.fib.push_back({}); p.fib.back().mxcsr = (u32)strtoul(c[1].c_str(), nullptr, 10); }
        else if (c[0] == "op") { OpInst in; if (readinst(c, 1, in)) p.fib.back().ops.push_back(in); else ok = false; }
        else if (c[0] == "handler") { OpInst in; if (readinst(c, 1, in)) p.handlers.push_back(in); else ok = false; }
        else if (c[0] == "dec") { int a = 0; for (int i = 1; i <= 5; i++) if (c[3] == ANAME[i]) a = i; p.decs.push_back({strtoull(c[1].c_str(), nullptr, 10), strtoull(c[2].c_str(), nullptr, 10), a, atoi(c[4].c_str())}); }
        else if (c[0] == "expect" && e) { e->kind = c[1]; e->op = c[2]; e->log = strtoull(c[3].c_str(), nullptr, 16); }
    }
    free(l); fclose(f); return ok;
}

// ------------------------------------------------------------------------------- execution
static bool isP(const char* p) { return P->prop == p; }
static enum { Q1 = 1, Q2, Q3, Q4, Q5, Q6, Q7, Q8, Q9, Q10, Q11, Q12 } Q;
static u32 CARRY[NF]; static u64 g_callid;
static std::vector<std::vector<u8>> MODEL[NF];    // L03: per fiber copy of every shared object
static std::vector<std::vector<int>> OWNER;       // L03: owner of every byte, -1 nobody
static int g_stalled_now;
static u32 randcsr(u64 r) { u32 c = 0x1f80; c |= (u32)(r & 3) << 13; if ((r >> 2 & 3) == 0) c |= 0x8000; if ((r >> 4 & 3) == 0) c |= 0x40; return c; }
static Env mkenv(int f, const OpInst& in, bool handler)
{
    Env e; u64 r = mix(in.seed);
    e.mxcsr = handler ? 0x1f80 : P->fib[f].mxcsr;
    if (Q == Q2) e.ro = true;
    if (Q == Q6) e.small = true;
    if (Q == Q7) { static const u8 pt[] = {0x00, 0xff, 0x7f, 0xa5, 0x3f, 0x01, 0x80, 0x42}; e.seed = r; e.place = (int)(r & 3); e.paint = r >> 2 & 1 ? pt[r >> 3 & 7] : (u8)(r >> 8); e.regpat = r >> 6 & 1 ? mix(r) : (r >> 7 & 1 ? 0x7fc000007fc00000ull : 0x3f8000003f800000ull); e.heap = (u8)(r >> 16); e.repaint = r >> 24 & 1; e.err = (int)(r >> 32 & 63); }
    if (Q == Q8) { e.amb = true; e.err = (int)(r >> 8 & 63); e.mxcsr |= (u32)(r >> 16) & 0x3f; if (handler) e.mxcsr = 0x1f80 | (e.mxcsr & 0x3f); e.regpat = 0; }
    if (Q == Q9 && !handler) e.mxcsr = CARRY[f];
    return e;
}
static std::string differs(const OpInst& in, const Res& got, const Res& want)
{
    std::string s;
    if (got.outcome != want.outcome) { s = std::string("outcome ") + ONAME[got.outcome] + (got.outcome == O_CRASH ? std::string(" (") + g_crashnote + ")" : "") + ", alone: " + ONAME[want.outcome]; return s; }
    if (got.ret != want.ret) s += "returned (" + pretty(in.d->ret, (const u8*)got.ret.data(), got.ret.size()) + ") [" + hex(got.ret.data(), got.ret.size()) + "], alone: (" + pretty(in.d->ret, (const u8*)want.ret.data(), want.ret.size()) + ") [" + hex(want.ret.data(), want.ret.size()) + "] ";
    if (got.mut != want.mut) { Ty t = T_FLOAT; for (int i = 0; i < in.d->nargs; i++) if (in.d->arg[i].mode >= M_INOUT) { t = in.d->arg[i].ty; break; } s += "left in its operands (" + pretty(t, (const u8*)got.mut.data(), got.mut.size()) + "), alone: (" + pretty(t, (const u8*)want.mut.data(), want.mut.size()) + ")"; }
    return s;
}
static u64 g_nth; // the call is the n-th of an unbroken sequence
static void check(const OpInst& in, const Env& e, int f, int opi, const Res& r, const std::string& bad, bool handler)
{
    logev("%s %d/%d %s -> %s %s%s in %llu", handler ? "handler" : "call", f, opi, in.d->name, ONAME[r.outcome], hex(r.ret.data(), r.ret.size()).c_str(), r.mut.empty() ? "" : hex(r.mut.data(), r.mut.size()).c_str(), (unsigned long long)r.steps);
    if (r.outcome == O_ABANDONED) return;
    if (r.outcome == O_CRASH && g_rohit && Q == Q2) { violation("wrote a read-only operand", &in, f, opi, "the call stored to an operand it may only read"); return; }
    if (r.outcome == O_DEAD) { violation("blocked for ever", &in, f, opi, "the call waits on something no runnable thread will release"); return; }
    Res& want = reference(in, e.mxcsr, P->pool);
    if (want.outcome != O_OK && (Q == Q6 || Q == Q7)) { violation(Q == Q7 ? "touches memory outside its operands" : "cannot complete", &in, f, opi, std::string("even undisturbed the call ends in: ") + ONAME[want.outcome]); return; }
    if (want.outcome != O_OK && r.outcome == want.outcome) { ST.skipped++; return; }
    if (!(r == want)) { violation(r.outcome != want.outcome ? std::string("call failed: ") + ONAME[r.outcome] : "wrong result", &in, f, opi, (g_nth ? "call number " + std::to_string(g_nth) + ": " : std::string()) + differs(in, r, want)); return; }
    if (!bad.empty()) { violation("unexpected write", &in, f, opi, bad); return; }
}
static void ambcheck(const OpInst& in, const Env& e, int f, int opi, u32 csr, uint16_t cw)
{
    const char* w = nullptr;
    if (FIB[f].trapped) ST.skipped++; else if ((csr & 0xffc0) != (e.mxcsr & 0xffc0)) w = "floating-point control modes";
    else if ((e.mxcsr & 0x3f) & ~csr) w = "floating-point exception flags cleared";
    else if (cw != x87of(e.mxcsr)) w = "x87 control word";
    if (w) {} else if (SOFT.amb.altered & 1) w = "pseudo-random sequence"; else if (SOFT.amb.altered & 2) w = "environment variables"; else if (SOFT.amb.altered & 4) w = "locale"; else if (SOFT.amb.altered & 8) w = "signal mask or handlers"; else if (SOFT.amb.altered & 16) w = "timers";
    if (w) violation("ambient state altered", &in, f, opi, w);
}
static void run_handler(Frame* f, int n)
{
    if (n < 0 || n >= (int)P->handlers.size()) return;
    static OpInst copies[NF + 1][MAXD]; int depth = f->depth + 1; if (depth >= MAXD) return;
    OpInst& in = copies[curf][depth]; in = P->handlers[n]; // the plan's vector may grow while the handler runs
    ST.handlers++; if ((u64)depth > ST.maxdepth) ST.maxdepth = depth;
    g_schedhash = fnv64(fnv64(g_schedhash, 77 + in.opid), f->id * 1000003 + f->h);
    logev("handler %d interrupts frame %llu at %llu", n, (unsigned long long)f->id, (unsigned long long)f->h);
    int keep = errno; Env e = mkenv(curf, in, true);
    Frame h; init_frame(h, in, curf, depth, HBASE + n, true, n, 400000); h.parent = f; h.step = f->step;
    bool rp = g_dorepaint; g_dorepaint = false;
    Res r; std::string bad; FIB[curf].cur = f;
    call(in, e, h, r, bad);
    g_dorepaint = rp; FIB[curf].cur = f; errno = keep;
    ST.calls++; g_callid++;
    check(in, e, curf, n, r, bad, true);
    if (g_have_viol) end_run();
}
static OpDesc LIFEDESC; static void (*g_lifefn)(); static AtExit g_lifeae; static bool g_lifeisae;
static void lifethunk(void* const*, void*) { if (g_lifeisae) g_lifeae.f(g_lifeae.arg); else g_lifefn(); }
static bool life(int f, int opi, bool ae)
{
    static OpInst in; in = OpInst(); LIFEDESC.name = ae ? "<exit handler>" : "<static constructor>"; LIFEDESC.fn = lifethunk; LIFEDESC.ret = T_VOID; LIFEDESC.nargs = 0; in.d = &LIFEDESC; g_lifeisae = ae;
    Frame fr; init_frame(fr, in, f, 0, ~0ull - 1, false, opi, 3000000); Res r; std::string bad; Env e; call(in, e, fr, r, bad);
    if (r.outcome != O_OK) violation(std::string("start-up or tear-down failed: ") + ONAME[r.outcome], &in, f, opi, g_crashnote);
    return r.outcome == O_OK;
}
static i64 PEAK[R_N], HELD[3][R_N]; static bool g_percall, g_endedbycall;   // L11: most held when a thread ended its calls; held after a quarter, a half and all of the repetitions
static const u64 LIMIT = 50000; // L12: steps (accesses, basic blocks or machine instructions) a call may take
static std::vector<u8> DEADUNIT;
static bool ctor_unit(int f, int opi, int unit)
{
    if (SOFT.ctordone >> unit & 1) return true; SOFT.ctordone |= 1ull << unit; cur_ctor_unit = unit;
    for (auto& c : CTORS) if (c.unit == unit) { ST.ctors++; g_lifefn = c.fn; if (!life(f, opi, false)) return false; }
    cur_ctor_unit = 1000; return true;
}
// fills the stack the call is about to use
static void __attribute__((noinline)) paint_below(u8 v)
{
    u8* sp = (u8*)__builtin_frame_address(0) - 64; volatile u64* q = (volatile u64*)((uintptr_t)(sp - (12 << 10)) & ~7ull); u64 pat = 0x0101010101010101ull * v;
    for (; (u8*)q + 8 <= sp - 128; q++) *q = pat;
}
static void do_op(int f, int j, const OpInst& in)
{
    FIB[f].opi = j;
    if (!in.d) {
        if (in.kind == 1) { logev("construct unit %s", UNITS[in.n].c_str()); ctor_unit(f, j, in.n); }
        else if (in.kind == 2 && SOFT.nae > 0) { g_lifeae = SOFT.ae[--SOFT.nae]; if (g_lifeae.unit < (int)DEADUNIT.size()) DEADUNIT[g_lifeae.unit] = 1; ST.dtors++; logev("exit handler"); life(f, j, true); }
        else if (in.kind == 3 && SOFT.ntex[f + 1] > 0) { auto x = SOFT.tex[f + 1][--SOFT.ntex[f + 1]]; g_lifeae = {x.f, x.arg, 0}; ST.dtors++; logev("thread exit handler"); life(f, j, true); }
        if (g_have_viol) end_run();
        return;
    }
    if (Q == Q10) { int u = OPSHARD[in.opid]; if (DEADUNIT[u]) { ST.skipped++; return; } if (!ctor_unit(f, j, u)) end_run(); }
    Env e = mkenv(f, in, false);
    Frame fr; init_frame(fr, in, f, 0, opframe(f, j), false, j, Q == Q12 ? LIMIT : INSTR ? 300000 : 100000); if (Q == Q12) fr.pclim = LIMIT;
    fr.step = g_step && !INSTR;
    // a scheduling point before the call
    if (g_rec) { if (P->fib.size() > 1 && g_prng.p(P->get("bsw", 0) / 1000.0)) { int r[NF], n = 0; for (int i = 0; i < NF; i++) if (i != f && FIB[i].state == F_READY) r[n++] = i; if (n) { int to = r[g_prng.below(n)]; RP->decs.push_back({fr.id, 0, A_SWITCH, to}); switch_to(to); } } }
    else while (fr.cursor < fr.decs->size() && (*fr.decs)[fr.cursor].hook == 0) { auto& d = (*fr.decs)[fr.cursor++]; if (d.act == A_SWITCH) act(&fr, d.act, d.arg); }
    arm(&fr);
    if (Q == Q7) { static const u32 pw[] = {0x7fc00000, 0xffc00000, 0x3f800000, 0xbf800000, 0x7f800000, 0x80000000, 1, 0}; u64 r = mix(in.seed ^ 31); paint_below(e.paint); sim_paintpat = r & 3 ? 0x0101010101010101ull * e.paint : pw[r >> 2 & 7] * 0x100000001ull; sim_paintlen = 8192; FLT.heapfill = e.heap; g_dorepaint = e.repaint && INSTR; g_repaint = e.paint; ST.placements++; }
    if (Q == Q8) { u64 r = mix(in.seed ^ 99); SOFT.amb.clock = r >> 4; SOFT.amb.env = r & 1; SOFT.amb.loc = r >> 1 & 1; SOFT.amb.rnd = r >> 7; SOFT.amb.altered = 0; ST.ambients++; if (e.mxcsr & 0xe040) ST.roundings++; }
    if (Q == Q8 && mix(in.seed ^ 55) % 3 == 0) { e.mxcsr &= ~((u32)mix(in.seed ^ 56) & 0x780 & ~(reference(in, e.mxcsr, P->pool).raised << 7)); if ((e.mxcsr & 0x1f80) != 0x1f80) ST.unmasked++; }   // the caller asked for traps at exceptions this call does not raise
    FIB[f].trapped = false;
    if (g_percall) SOFT.nmem = SOFT.nsys = 0;
    Res r; std::string bad;
    call(in, e, fr, r, bad);
    if (g_percall) for (size_t i = 0, n = P->fib[0].ops.size(); i < 3; i++) if ((size_t)j + 1 == std::max<size_t>(1, n >> (2 - i))) for (int k = 0; k < R_N; k++) HELD[i][k] = SOFT.held[k];
    u32 aftercsr = g_aftercsr; uint16_t aftercw = g_aftercw;
    g_dorepaint = false; sim_paintlen = 0; ST.calls++; g_callid++; ST.longest = std::max(ST.longest, fr.h); ST.longestpc = std::max(ST.longestpc, fr.pc);
    if (Q == Q11 || Q == Q12) {
        logev("call %d/%d %s -> %s in %llu, %llu", f, j, in.d->name, ONAME[r.outcome], (unsigned long long)r.steps, (unsigned long long)fr.pc);
        if (r.outcome == O_DEAD) violation("blocked for ever", &in, f, j, "the call waits on something no runnable thread will release");
        if (r.outcome == O_HANG) violation("no progress", &in, f, j, "the call does not complete");
        if (Q == Q12 && r.outcome == O_CRASH && strstr(g_crashnote, "stack")) violation("no progress", &in, f, j, "the call runs out of stack");
        if (g_have_viol) end_run();
        if (Q == Q11 && r.outcome != O_OK) { ST.skipped++; g_endedbycall = true; end_run(); } // the process is gone, and with it what it held (L06 decides whether it may)
        return;
    }
    if (g_stalled_now || FIB[f].state == F_NONE) {}
    for (int i = 0; i < NF; i++) if (FIB[i].state == F_STALLED) { ST.calls_in_stall++; break; }
    if (Q == Q3) {
        if (r.outcome != O_OK) { check(in, e, f, j, r, bad, false); if (g_have_viol) end_run(); return; }
        static OpInst own; own = in; std::vector<std::pair<int, int>> upd; 
        for (int i = 0; i < in.d->nargs; i++) if (in.a[i].shared >= 0) { int k = in.a[i].shared; memset(own.a[i].b, 0, 64); memcpy(own.a[i].b, MODEL[f][k].data(), MODEL[f][k].size()); own.a[i].shared = -1; if (in.d->arg[i].mode >= M_INOUT) upd.push_back({i, k}); }
        Res& want = reference(own, e.mxcsr, P->pool);
        logev("call %d/%d %s -> %s", f, j, in.d->name, hex(r.ret.data(), r.ret.size()).c_str());
        if (want.outcome == O_OK) {
            if (r.ret != want.ret && !(OWNER.empty())) { Res w2 = want; w2.mut = r.mut; violation("wrong result", &in, f, j, differs(own, r, w2)); }
            size_t off = 0; for (int i = 0; i < in.d->nargs; i++) if (in.d->arg[i].mode >= M_INOUT) { size_t n = argsize(in.d->arg[i]); for (auto& u : upd) if (u.first == i) memcpy(MODEL[f][u.second].data(), want.mut.data() + off, n); off += n; }
        }
        if (g_have_viol) end_run();
        return;
    }
    if (Q == Q9) CARRY[f] = aftercsr & 0xffff;
    check(in, e, f, j, r, bad, false);
    if (Q == Q8 && !g_have_viol && r.outcome == O_OK) ambcheck(in, e, f, j, aftercsr, aftercw);
    if (g_have_viol) end_run();
    if (r.outcome == O_ABANDONED && r.info == A_KILL) { FIB[f].state = F_DONE; int n = pick_next(f); if (n < 0) end_run(); switch_to(n); }
}
// what the C++ run-time does when a thread ends: thread_local destructors, then those of thread-specific keys
static void end_thread(int f)
{
    int t = f + 1, n = (int)P->fib[f].ops.size();
    while (SOFT.ntex[t]) { auto x = SOFT.tex[t][--SOFT.ntex[t]]; g_lifeae = {x.f, x.arg, 0}; if (!life(f, n, true)) end_run(); }
    for (int k = 0; k < SOFT.nkeys; k++) if (void* v = SOFT.keys[t][k]) { SOFT.keys[t][k] = nullptr; if (SOFT.keydtor[k]) { g_lifeae = {SOFT.keydtor[k], v, 0}; if (!life(f, n, true)) end_run(); } }
}
static i64 g_heldmore;
static void fibermain(void* a)
{
    int f = (int)(intptr_t)a; i64 loop = P->get("loop", 0);
    if (f == 0 && P->get("warm") && !P->fib[0].ops.empty() && P->fib[0].ops[0].d) {
        const OpInst& in = P->fib[0].ops[0]; Env e = mkenv(0, in, false); static Frame fr; init_frame(fr, in, 0, 0, ~1ull, false, 0, ~0ull); fr.next = fr.pclim = ~0ull; static Res r, want; std::string bad; want = reference(in, e.mxcsr, P->pool);
        if (want.outcome == O_OK) { u64 k = callmany(in, e, fr, r, bad, (u64)P->get("warm"), want); ST.calls += k; g_nth = k; check(in, e, 0, 0, r, bad, false); g_nth = 0; if (g_have_viol) end_run(); }
    }
    if (loop && f == 0) {
        Rng r((u64)P->get("lseed")); u32 n = (u32)P->fib[0].ops.size();
        for (i64 i = 0; n && i < loop; i++) { u64 x = r.next(); do_op(0, (int)(x >> 32) % n, P->fib[0].ops[(x >> 32) % n]); }
    } else for (size_t j = 0; j < P->fib[f].ops.size(); j++) do_op(f, (int)j, P->fib[f].ops[j]);
    if (Q == Q11) { for (int k = 0; k < R_N; k++) PEAK[k] = std::max(PEAK[k], SOFT.held[k]); end_thread(f); }
    FIB[f].state = F_DONE; logev("thread %d done", f);
    int n = pick_next(f); if (n < 0) end_run();
    switch_to(n); __builtin_trap();
}
static void setq(const std::string& p) { Q = (decltype(Q))atoi(p.c_str() + 1); }
static bool execplan(Plan& p, bool rec)
{
    P = &p; RP = &p; g_rec = rec; setq(p.prop); ST.runs++;
    g_have_viol = false; g_viol = Viol(); g_ended = false; g_log = 14695981039346656037ull; g_schedhash = 1469598103ull; g_steps = 0; g_callid = 0;
    g_bound = INSTR ? 6000000 : 400000; if (p.get("loop")) g_bound = ~0ull;
    g_step = p.get("step", 0); g_watch = rec && POL.wb > 0; if (!rec) g_watch = false;
    REFCACHE.clear();
    DECS.clear(); if (!rec) { for (auto& d : p.decs) DECS[d.frame].push_back(d); for (auto& d : DECS) std::stable_sort(d.second.begin(), d.second.end(), [](const Dec& a, const Dec& b) { return a.hook < b.hook; }); }
    load_pristine(Q == Q10); DEADUNIT.assign(UNITS.size() + 1, 0);
    FLT = NOFLT; arena = ARENA;
    if (Q == Q6) { FLT.mem_from = (u64)p.get("mem_from", 0); FLT.mem_to = (u64)p.get("mem_to", 1ll << 40); FLT.sys_from = (u64)p.get("sys_from", 0); FLT.sys_to = (u64)p.get("sys_to", 1ll << 40); }
    if (Q == Q11) { FLT.mem_from = (u64)p.get("mem_from", ~0ull); FLT.mem_to = (u64)p.get("mem_to", 0); FLT.sys_from = (u64)p.get("sys_from", ~0ull); FLT.sys_to = (u64)p.get("sys_to", 0); }
    g_heaplock = Q == Q4 || Q == Q5; sim_paintlen = 0;
    g_route = Q == Q6 || Q == Q11;
    SOFT.nmem = SOFT.nsys = 0; g_endedbycall = false; g_percall = Q == Q11 && p.get("acc") == 1; memset(HELD, 0, sizeof HELD); memcpy(PEAK, SOFT.held, sizeof PEAK);
    memset(SLOT_RW, 0, 0);
    for (size_t k = 0; k < p.pool.size() && k < (size_t)NPOOL; k++) { u8* s = slot_rw(poolidx((int)k)); memset(s + 480, 0xC5, 160); memcpy(s + 512, p.pool[k].second.data(), p.pool[k].second.size()); }
    OWNER.clear();
    if (Q == Q3) {
        for (size_t k = 0; k < p.pool.size(); k++) OWNER.push_back(std::vector<int>(p.pool[k].second.size(), -1));
        for (size_t f = 0; f < p.fib.size(); f++) { MODEL[f].clear(); for (auto& q : p.pool) MODEL[f].push_back(q.second); for (auto& o : p.fib[f].ops) if (o.d && o.d->comp_off >= 0 && o.a[0].shared >= 0) for (int b = 0; b < o.d->comp_len; b++) OWNER[o.a[0].shared][o.d->comp_off + b] = (int)f; }
    }
    bool small = p.get("small", 0);
    for (int i = 0; i < NF; i++) {
        CARRY[i] = i < (int)p.fib.size() ? p.fib[i].mxcsr : 0x1f80; FIB[i].state = F_NONE;
        if (i < (int)p.fib.size()) prep(FIB[i], i, small, fibermain, (void*)(intptr_t)i, 0xA5, 0x1f80);
    }
    if (p.fib.empty()) return false;
    itimerval tv{}; tv.it_value.tv_sec = 20; setitimer(ITIMER_VIRTUAL, &tv, nullptr);
    memset(abi::__cxa_get_globals(), 0, 16);
    curf = 0; in_state(FIB[0]); sim_swap(&MAINSP, FIB[0].sp); curf = -1; cur = nullptr; SEL = 0;
    itimerval tz{}; setitimer(ITIMER_VIRTUAL, &tz, nullptr);
    memset(abi::__cxa_get_globals(), 0, 16);
    ST.steps += g_steps;
    if (!g_have_viol) {
        for (int i = 0; i < NF && !g_endedbycall; i++) if (FIB[i].state == F_BLOCKED) { int oi = FIB[i].opi; violation("blocked for ever", &p.fib[i].ops[oi], i, oi, "every thread that could release it has finished or stopped"); break; }
        if (Q == Q3 && !g_have_viol) for (size_t k = 0; k < p.pool.size(); k++) {
            u8* s = slot_rw(poolidx((int)k)) + 512; size_t n = p.pool[k].second.size();
            for (size_t b = 0; b < n; b++) { int o = OWNER[k][b]; u8 want = o >= 0 ? MODEL[o][k][b] : p.pool[k].second[b]; if (s[b] != want) { std::vector<u8> w(n); for (size_t q = 0; q < n; q++) w[q] = OWNER[k][q] >= 0 ? MODEL[OWNER[k][q]][k][q] : p.pool[k].second[q]; const OpInst* in = nullptr; for (auto& fb : p.fib) for (auto& op : fb.ops) if (op.a.size() && op.a[0].shared == (int)k && (!in)) in = &op;
                violation(o >= 0 ? "update lost" : "component nobody owns changed", in, o, (int)b, "object " + std::to_string(k) + " ended as (" + pretty(p.pool[k].first, s, n) + "), each thread alone gives (" + pretty(p.pool[k].first, w.data(), n) + ")"); break; } }
            if (g_have_viol) break;
        }
        if (Q == Q11 && !g_have_viol && !g_endedbycall) for (int k = 0; k < R_N; k++) {
            if (k == R_BYTES && p.get("acc") != 1) continue; i64 acc = p.get("acc"), more = (acc ? SOFT.held[k] : std::max(PEAK[k], SOFT.held[k])) - SOFTPRIST.held[k]; if (acc == 1 ? HELD[0][k] >= HELD[1][k] || HELD[1][k] >= HELD[2][k] : more < std::max<i64>(1, p.get("accmin"))) continue;
            static OpInst in; int o = SOFT.holder[k]; if (k == R_MEM) for (int i = 0; i < SOFT.nblock; i++) if (SOFT.block[i].op >= 0) { o = SOFT.block[i].op; break; } in = OpInst(); if (o >= 0) in.d = OPS[o];
            violation(std::string("left behind: ") + RNAME[k], in.d ? &in : nullptr, -1, -1, acc == 1 ? "one thread repeats the call: after a quarter, a half and all of the repetitions " + std::to_string(HELD[0][k]) + ", " + std::to_string(HELD[1][k]) + " and " + std::to_string(HELD[2][k]) + (k == R_BYTES ? " bytes of heap memory are held" : std::string(" x ") + RNAME[k] + " are held") : "after every call has returned and every thread has ended, " + std::to_string(more) + " x " + RNAME[k] + " taken by calls are still held, and more with every repetition"); g_heldmore = more; break; }
        if (Q != Q3 && !g_have_viol) for (size_t k = 0; k < p.pool.size() && k < (size_t)NPOOL; k++) { u8* s = slot_rw(poolidx((int)k)); size_t n = p.pool[k].second.size(); bool bad = memcmp(s + 512, p.pool[k].second.data(), n); for (int q = 0; q < 32; q++) if (s[480 + q] != 0xC5 || s[512 + n + q] != 0xC5) bad = true; if (bad) violation("shared object changed", nullptr, -1, (int)k, "an object that no call may modify changed"); }
    }
    g_log = fnv64(g_log, g_steps); 
    if (SCHED.size() < 2000000) { u64 h = g_schedhash; for (auto& fb : p.fib) for (auto& o : fb.ops) h = fnv64(h, o.opid); SCHED.insert(h); }
    return g_have_viol;
}

// ------------------------------------------------------------------------------- generation
static std::vector<std::vector<int>> COMPOPS[T_COUNT];   // component mutators per type, grouped by first byte
static std::vector<int> COMPALL;
static std::map<std::string, std::vector<int>> FAMILY;   // operations sharing a base name
static std::vector<std::vector<int>*> FAMLIST;
static bool usable(int o) { return true; (void)o; }
static void index_ops()
{
    for (size_t i = 0; i < OPS.size(); i++) {
        std::string n = OPS[i]->name; size_t c = n.find_first_of("( "); std::string base = n.substr(0, c); size_t q = base.find("::"); if (q != std::string::npos) base = base.substr(q + 2);
        FAMILY[base].push_back((int)i);
        if (OPS[i]->comp_off >= 0) COMPALL.push_back((int)i);
    }
    for (auto& f : FAMILY) FAMLIST.push_back(&f.second);
}
static void mkhot(Rng& r, Hot& h) { for (int t = 1; t < T_COUNT; t++) { int n = 1 + r.below(3); for (int i = 0; i < n; i++) { std::vector<u8> b(64); rvalue(r, (Ty)t, b.data()); b.resize(TSIZE[t]); h.v[t].push_back(b); if (r.p(.5)) { perturb(r, (Ty)t, b.data()); h.v[t].push_back(b); } } } }
// the operations a run is about
static std::vector<int> theme(Rng& r)
{
    std::vector<int> v; int N = (int)OPS.size();
    if (!SUSPLIST.empty() && r.p(SUSPP)) {
        int k = 1 + r.below(3); for (int i = 0; i < k; i++) v.push_back(r.pick(SUSPLIST));
        if (r.p(.3)) v.push_back(r.below(N));
        return v;
    }
    switch (r.below(4)) {
    case 0: { int k = 1 + r.below(3); for (int i = 0; i < k; i++) v.push_back(r.below(N)); break; }
    case 1: { v = *r.pick(FAMLIST); break; }
    case 2: { int k = 4 + r.below(12); for (int i = 0; i < k; i++) v.push_back(r.below(N)); break; }
    default: { auto& f = *r.pick(FAMLIST); for (int i = 0; i < 3; i++) v.push_back(r.pick(f)); v.push_back(r.below(N)); }
    }
    return v;
}
// operations whose body is more than a component access are where interleavings happen
static OpInst nextinst(Rng& r, std::vector<int>& th, Hot& hot, std::vector<OpInst>& past)
{
    if (!past.empty() && r.p(.3)) {
        OpInst in = r.pick(past); if (!in.d) return geninst(r, r.pick(th), &hot);
        if (r.p(.6) && in.d->nargs) { int i = r.below(in.d->nargs); if (in.d->arg[i].dom != D_ARR) { if (r.p(.7)) perturb(r, in.d->arg[i].ty, in.a[i].b); else genarg(r, in, i, &hot); fixdom(r, in.d->arg[i], in.a[i].b); in.a[i].shared = -1; } }
        in.seed = r.next(); return in;
    }
    return geninst(r, r.pick(th), &hot);
}
static void sharepool(Rng& r, Plan& p, Hot& hot)
{   // read-only operands shared by the threads
    int n = r.below(6); for (int i = 0; i < n; i++) { Ty t = (Ty)(1 + r.below(T_COUNT - 1)); auto& v = hot.v[t]; p.pool.push_back({t, v[r.below((u32)v.size())]}); }
    if (p.pool.empty()) return;
    for (auto& f : p.fib) for (auto& o : f.ops) if (o.d) for (int i = 0; i < o.d->nargs; i++) if (o.d->arg[i].mode <= M_CONST && o.d->arg[i].dom == D_ANY) for (size_t k = 0; k < p.pool.size(); k++) if (p.pool[k].first == o.d->arg[i].ty && r.p(.5)) { o.a[i].shared = (int)k; break; }
}
static void setpol(Rng& r, double sw, double hnd, double st, double ab, double ki) { POL.sw = sw; POL.hnd = hnd; POL.stall = st; POL.aband = ab; POL.kill = ki; static const double wb[] = {0, .2, .5, .9}; POL.wb = wb[r.below(4)]; POL.maxh = 24; POL.maxdepth = 1 + r.below(MAXD - 1); POL.maxstall = 1 + r.below(3); POL.slow = false; }
static double swarm(Rng& r) { static const double p[] = {.002, .01, .03, .08, .2, .5}; return p[r.below(6)]; }
static Hot g_hot; static std::vector<int> g_theme; static std::vector<OpInst> g_past; static Rng g_grng;
static Plan genplan(const std::string& prop, const std::string& variant, u64 seed)
{
    Rng r(seed); Plan p; p.prop = prop; p.variant = variant; int q = atoi(prop.c_str() + 1);
    Hot hot; mkhot(r, hot); std::vector<OpInst> past; std::vector<int> th = theme(r); bool ship = !INSTR;
    auto fill = [&](int nf, int lo, int hi) { for (int f = 0; f < nf; f++) { p.fib.push_back({}); int n = lo + r.below(hi - lo + 1); for (int j = 0; j < n; j++) { OpInst in = nextinst(r, th, hot, past); past.push_back(in); p.fib[f].ops.push_back(in); } } };
    setpol(r, 0, 0, 0, 0, 0);
    switch (q) {
    case 1: {
        int nf = 2 + r.below(r.p(.3) ? 6 : 2); fill(nf, 1, ship ? 2 : r.p(.2) ? 12 : 5); sharepool(r, p, hot);
        if (r.p(.3)) for (auto& f : p.fib) f.mxcsr = randcsr(r.next());
        double s = swarm(r); setpol(r, s, 0, 0, 0, 0); p.cfg["bsw"] = 300; if (ship) { p.cfg["step"] = 1; POL.wb = 0; POL.sw = r.p(.5) ? .02 : .1; }
        if (r.p(SUSPLIST.empty() ? .004 : .05)) { // one thread pauses inside a call while others make many
            p.fib.clear(); p.pool.clear(); fill(1, 1, 2); int n = 1 + r.below(2), k = 20 << r.below(4); fill(n, k / n, k / n * 2); sharepool(r, p, hot);
            setpol(r, ship ? .05 : s < .05 ? .05 : s, 0, 0, 0, 0); POL.slow = true; POL.wb = ship ? 0 : .5; p.cfg["bsw"] = 0; }
        break; }
    case 2: {
        fill(1 + r.below(3), 2, 12); if (!ship) { double s = swarm(r); setpol(r, s, 0, 0, 0, 0); } sharepool(r, p, hot); p.cfg["bsw"] = 300; break; }
    case 3: {
        // a few shared objects; every thread updates only its own components
        int no = 1 + r.below(2); std::vector<Ty> ts; static const Ty cand[] = {T_VEC2, T_VEC3, T_VEC4, T_IVEC2, T_IVEC3, T_IVEC4, T_BVEC2, T_BVEC3, T_BVEC4, T_QUAT, T_MAT2, T_MAT3, T_MAT4};
        int nf = 2 + r.below(3); for (int f = 0; f < nf; f++) p.fib.push_back({});
        for (int k = 0; k < no; k++) {
            Ty t = cand[r.below(13)]; std::vector<u8> b(64); rvalue(r, t, b.data()); if (scalty(t) == T_FLOAT && r.p(.7)) for (int i = 0; i < ncomp(t); i++) putf(b.data(), i, (float)(1 + r.below(50))); b.resize(TSIZE[t]); p.pool.push_back({t, b});
            std::vector<int> cand2; for (int o : COMPALL) if (OPS[o]->arg[0].ty == t) cand2.push_back(o);
            // owners: disjoint byte ranges by whole columns or single components
            size_t unit = scalty(t) == T_BOOL ? 1 : 4, nb = TSIZE[t]; std::vector<int> own(nb, -1);
            size_t col = t == T_MAT2 ? 8 : t == T_MAT3 ? 12 : t == T_MAT4 ? 16 : unit; if (r.p(.4)) col = unit;
            for (size_t b0 = 0; b0 < nb; b0 += col) { int o = (int)r.below(nf + 1) - (r.p(.8) ? 0 : 1); if (o >= nf) o = r.below(nf); for (size_t b1 = b0; b1 < b0 + col && b1 < nb; b1++) own[b1] = o; }
            for (int f = 0; f < nf; f++) { int n = 1 + r.below(ship ? 2 : 5); for (int j = 0; j < n; j++) for (int tr = 0; tr < 30; tr++) { int o = r.pick(cand2); bool ok = true; for (int b1 = 0; b1 < OPS[o]->comp_len; b1++) if (own[OPS[o]->comp_off + b1] != f) ok = false; if (!ok) continue; OpInst in = geninst(r, o, &hot); in.a[0].shared = k; p.fib[f].ops.push_back(in); break; } }
        }
        for (auto& f : p.fib) for (size_t i = f.ops.size(); i > 1; i--) std::swap(f.ops[i - 1], f.ops[r.below((u32)i)]);
        double s = swarm(r); setpol(r, s < .03 ? .03 : s, 0, 0, 0, 0); p.cfg["bsw"] = 300; if (ship) { p.cfg["step"] = 1; POL.wb = 0; POL.sw = .1; } break; }
    case 4: {
        fill(1, 1, ship ? 2 : 6); double s = swarm(r); setpol(r, 0, ship ? (r.p(.5) ? .01 : .05) : s, 0, 0, 0); if (ship) { p.cfg["step"] = 1; POL.wb = 0; POL.maxh = 6; } break; }
    case 5: {
        fill(2 + r.below(4), 1, ship ? 2 : 5); double s = swarm(r); double f = r.p(.5) ? .01 : .05; int k = r.below(4); setpol(r, r.p(.3) ? 0 : s, 0, k != 1 ? f : 0, k != 0 ? f : 0, k == 3 ? f : 0);
        p.cfg["bsw"] = 200; if (ship) { p.cfg["step"] = 1; POL.wb = 0; POL.sw = .02; } break; }
    case 6: {
        fill(1, 1, 12); p.cfg["small"] = 1;
        switch (r.below(4)) { case 0: break; case 1: { int k = r.below(6); p.cfg["mem_from"] = k; p.cfg["mem_to"] = k + 1 + r.below(3); break; } case 2: { p.cfg["mem_from"] = 1ll << 40; int k = r.below(6); p.cfg["sys_from"] = k; p.cfg["sys_to"] = k + 1 + r.below(3); break; } default: p.cfg["mem_from"] = r.below(4); p.cfg["sys_from"] = r.below(4); }
        break; }
    case 7: {
        fill(1, 1, 10);
        for (auto& o : p.fib[0].ops) if (o.d) for (int i = 1; i < o.d->nargs; i++) if (o.d->arg[i].mode == M_CONST && r.p(.3)) for (int j = 0; j < i; j++) { auto &x = o.d->arg[i], &y = o.d->arg[j]; if (x.ty == y.ty && x.dom == D_ANY && y.dom == D_ANY && r.p(.8)) { memcpy(o.a[i].b, o.a[j].b, 64); break; } }
        break;
    }
    case 8: {
        int nf = 1 + r.below(3); fill(nf, 1, ship ? 3 : 8); for (auto& f : p.fib) f.mxcsr = randcsr(r.next());
        double s = swarm(r); if (nf > 1) setpol(r, s, 0, 0, 0, 0); p.cfg["bsw"] = 300; if (ship && nf > 1 && r.p(.3)) { p.cfg["step"] = 1; POL.wb = 0; POL.sw = .02; } else if (ship) setpol(r, 0, 0, 0, 0, 0), POL.wb = 0; break; }
    case 9: {
        if (ship && !SUSPLIST.empty() && r.p(.012)) { // millions of calls of one operation, then others
            th.assign(1, r.pick(SUSPLIST)); fill(1, 1, 4); static const i64 W[] = {300000, 1500000, 9000000, 36000000}; p.cfg["warm"] = W[r.below(4)]; break; }
        if (ship && r.p(.35)) { // one very long history over a small menu
            fill(1, 4, 40); static const int L[] = {1000, 5000, 20000, 70000}; i64 n = L[r.below(4)]; if (!SUSPLIST.empty() && r.p(.1)) n = 400000; p.cfg["loop"] = n; p.cfg["lseed"] = (i64)(r.next() >> 2); break; }
        fill(1 + r.below(4), 10, r.p(.2) ? 200 : 60); p.cfg["bsw"] = 400; POL.wb = 0; break; }
    case 10: {
        p.fib.push_back({}); auto& ops = p.fib[0].ops; std::vector<int> units; std::set<int> withc; for (auto& c : CTORS) withc.insert(c.unit);
        for (int u : withc) units.push_back(u); for (size_t i = units.size(); i > 1; i--) std::swap(units[i - 1], units[r.below((u32)i)]);
        auto some = [&](int k) { for (int i = 0; i < k; i++) { OpInst in = nextinst(r, th, hot, past); past.push_back(in); ops.push_back(in); } };
        int rate = 1 + r.below(3); some(r.below(6));
        for (int u : units) { OpInst e; e.kind = 1; e.n = u; ops.push_back(e); if (r.below(4) < (u32)rate) some(1 + r.below(3)); }
        some(r.below(5));
        if (r.p(.5)) for (int i = 1 + r.below(4); i > 0; i--) { OpInst e; e.kind = 3; ops.push_back(e); some(r.below(3)); }   // what exit() does first: the main thread's thread_local objects
        int nd = 2 + r.below(6); for (int i = 0; i < nd; i++) { OpInst e; e.kind = 2; ops.push_back(e); some(r.below(3)); }
        POL.wb = 0; break; }
    case 11: {
        int nf = 1 + r.below(3); fill(nf, 1, r.p(.3) ? 40 : 8); sharepool(r, p, hot); if (nf > 1 && !ship) { double s = swarm(r); setpol(r, s, 0, 0, 0, 0); } else POL.wb = 0; p.cfg["bsw"] = 300;
        if (r.p(.5)) { int k = r.below(8); p.cfg["mem_from"] = k; p.cfg["mem_to"] = r.p(.2) ? 1ll << 40 : k + 1 + r.below(3); } if (r.p(.4)) { int k = r.below(8); p.cfg["sys_from"] = k; p.cfg["sys_to"] = r.p(.2) ? 1ll << 40 : k + 1 + r.below(3); }
        break; }
    case 12: {
        int nf = r.p(.5) ? 1 : 2 + r.below(3); fill(nf, 1, ship ? 2 : 8); sharepool(r, p, hot); for (auto& f : p.fib) if (r.p(.6)) f.mxcsr = randcsr(r.next());
        for (auto& f : p.fib) for (auto& o : f.ops) if (o.d && r.p(.6)) for (int i = 0; i < o.d->nargs; i++) if (o.a[i].shared < 0 && o.d->arg[i].dom != D_ARR && r.p(.5)) { extreme(r, o.d->arg[i].ty, o.a[i].b); if (o.d->arg[i].dom != D_ANY) fixdom(r, o.d->arg[i], o.a[i].b); }
        if (nf > 1) { double s = swarm(r); setpol(r, s, 0, 0, 0, 0); } else POL.wb = 0; p.cfg["bsw"] = 300; if (ship) { p.cfg["step"] = 1; POL.wb = 0; POL.sw = nf > 1 ? .02 : 0; } break; }
    }
    g_hot = hot; g_theme = th; g_past = past; g_grng = Rng(seed ^ 0xabcdef);   // handlers draw from these
    g_gen_handler = [](OpInst& in) { if (!g_past.empty() && g_grng.p(.5)) { in = g_grng.pick(g_past); if (!in.d) return false; if (g_grng.p(.5) && in.d->nargs) { int i = g_grng.below(in.d->nargs); if (in.d->arg[i].dom != D_ARR) { perturb(g_grng, in.d->arg[i].ty, in.a[i].b); fixdom(g_grng, in.d->arg[i], in.a[i].b); } } } else in = geninst(g_grng, g_grng.pick(g_theme), &g_hot); for (auto& a : in.a) a.shared = -1; in.seed = g_grng.next(); return true; };
    g_prng = Rng(seed ^ 0x5eed);
    p.cfg["tid"] = (i64)(mix(seed ^ 0x71d) >> 20);
    return p;
}

// ------------------------------------------------------------------------------- image loading
static bool g_cpuidok;
static void load(const char* so)
{
    if (MMASK) { rawsig(SIGSEGV, on_crash, SA_SIGINFO | SA_NODEFER | SA_ONSTACK);
        if (mon(MC_IMAGE)) { u64 r = mach(MC_IMAGE, 0); mmap(nullptr, ((r >> 8 & 0xffffffff) % (1ull << (r & 31)) + 1) << 12, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
        if (mon(MC_TLS)) { volatile auto p = malloc(mach(MC_TLS, 0) % 4096 * 16); (void)p; }
        if (mon(MC_NAMES)) { u64 r = mach(MC_NAMES, 0, 4); for (char* c = SIMFILE; *c; c++) if (*c >= '0' && *c <= '9') *c = (char)('0' + (*c - '0' + (r = mix(r)) % 10) % 10); }
        if (mon(MC_CPUID)) g_cpuidok = syscall(SYS_arch_prctl, 0x1012, 0) == 0;
    }
    void* h = dlopen(so, RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); _exit(3); }
    auto shards = (const void* (*)(unsigned*))dlsym(h, "zcm_shards"); if (!shards) { fprintf(stderr, "no zcm_shards\n"); _exit(3); }
    struct SA { unsigned s, a; }; auto lay = (const SA* (*)())dlsym(h, "zcm_layout"); if (!lay) { fprintf(stderr, "no zcm_layout\n"); _exit(3); }
    for (int t = 0; t < T_COUNT; t++) { TALIGN[t] = lay()[t].a; if (t && lay()[t].s != TSIZE[t]) { fprintf(stderr, "size of %s is %u\n", TNAME[t], lay()[t].s); _exit(3); } }
    struct link_map* lm; dlinfo(h, RTLD_DI_LINKMAP, &lm); MODBASE = lm->l_addr;
    struct CB { uintptr_t base; size_t tlsmod; } cb{MODBASE, 0};
    dl_iterate_phdr([](dl_phdr_info* i, size_t, void* a) {
        auto c = (CB*)a; 
        if (i->dlpi_addr == c->base) {
            uintptr_t rs = 0, re = 0; for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) { rs = c->base + i->dlpi_phdr[k].p_vaddr; re = (rs + i->dlpi_phdr[k].p_memsz) & ~4095ull; }
            for (int k = 0; k < i->dlpi_phnum; k++) { auto& p = i->dlpi_phdr[k]; if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) { uintptr_t s = c->base + p.p_vaddr, e = s + p.p_memsz; if (re > s && rs <= s) s = re; if (s < e) SEGS.push_back({(u8*)s, e - s, {}, {}}); } if (p.p_type == PT_TLS) { c->tlsmod = i->dlpi_tls_modid; TLSN = p.p_memsz; } if (p.p_type == PT_LOAD) { MODHI = std::max(MODHI, c->base + p.p_vaddr + p.p_memsz); } }
        }
        return 0; }, &cb);
    if (cb.tlsmod) { struct { size_t m, o; } ti{cb.tlsmod, 0}; extern void* sim_gettls(void*); TLSP = (u8*)sim_gettls(&ti); TLSPRIST.assign(TLSP, TLSP + TLSN); }
    else TLSN = 0;
    for (int i = 0; i <= NF; i++) FIB[i].tls = (u8*)malloc(TLSN + 16);
    unsigned ns; struct Sh { const OpDesc* o; const unsigned* n; }; auto s = (const Sh*)shards(&ns);
    for (unsigned i = 0; i < ns; i++) for (unsigned k = 0; k < *s[i].n; k++) { OPBYNAME[s[i].o[k].name] = (int)OPS.size(); OPS.push_back(&s[i].o[k]); OPSHARD.push_back((int)i); }
    // constructors, as listed by the build
    for (unsigned i = 0; i < ns; i++) { char b[16]; snprintf(b, sizeof b, "ops_%02u", i); UNITS.push_back(b); }
    std::string cf = std::string(so) + ".ctors"; FILE* f = fopen(cf.c_str(), "r"); if (!f) { perror(cf.c_str()); _exit(3); }
    char kind[16], obj[128]; unsigned long va; int n;
    while (fscanf(f, "%15s %lx %d %127s", kind, &va, &n, obj) == 4) {
        int u = -1; for (size_t i = 0; i < UNITS.size(); i++) if (UNITS[i] == obj) u = (int)i; if (u < 0) { u = (int)UNITS.size(); UNITS.push_back(obj); }
        for (int i = 0; i < n; i++) { auto fn = ((void (**)())(MODBASE + va))[i]; if (!fn || fn == (void (*)())-1) continue; if (!strcmp(kind, "init")) CTORS.push_back({fn, u}); else FINIS.push_back({fn, u}); }
    }
    fclose(f);
    for (auto& g : SEGS) g.virgin.assign(g.p, g.p + g.n);
    memset(&SOFT, 0, sizeof SOFT); SOFT.amb.clock = mon(MC_CLOCK) ? mach(MC_CLOCK, 0) >> 1 : 1700000000000000000ull; SOFT.amb.rnd = mach(MC_RANDOM, 1);
    if (mon(MC_HEAP)) SOFT.brk = mach(MC_HEAP, 0, 1) % 4096 * 16;
    if (mon(MC_ENV)) { static const char* const V[] = {"1", "0", "", "yes", "on", "fast", "C", "en_US.UTF-8", "de_DE.UTF-8", "/usr/bin"}; u64 r = mach(MC_ENV, 0); SOFT.amb.env = r & 3; SOFT.amb.loc = r & 4; if (r & 8) snprintf(envval, sizeof envval, "%u", (unsigned)(r >> 20) % 10000); else strcpy(envval, V[(r >> 8) % 10]); }
    // run the constructors in link order, then take the pristine image
    for (auto& fi : FINIS) if (SOFT.nae < 64) SOFT.ae[SOFT.nae++] = {(void (*)(void*))fi.fn, nullptr, fi.unit};
    for (auto& c : CTORS) { cur_ctor_unit = c.unit; c.fn(); }
    cur_ctor_unit = 1000;
    for (auto& g : SEGS) g.prist.assign(g.p, g.p + g.n);
    if (TLSN) TLSPRIST.assign(TLSP, TLSP + TLSN);
    ARENAPRIST.assign(ARENA, ARENA + SOFT.brk); SOFT.ctordone = 0; SOFTPRIST = SOFT;
    index_ops();
}
void* sim_gettls(void* ti) { typedef void* (*G)(void*); static G g = (G)dlsym(RTLD_DEFAULT, "__tls_get_addr"); return g(ti); }
static void setup_machine()
{
    auto sh = [](int bit, u64 salt) { return (size_t)(mach(bit, 0, salt) & 0x7ffffff) << 12; };   // page granularity, within half a TiB
    if (mon(MC_HEAP)) ARENA += sh(MC_HEAP, 0); if (mon(MC_STACK)) { STACKS += sh(MC_STACK, 0); STKOFF = mach(MC_STACK, 0, 1) % 64 * 16; } if (mon(MC_OPERANDS)) { SLOT_RW += sh(MC_OPERANDS, 0); SLOT_RO += sh(MC_OPERANDS, 1); }
    arena = ARENA;
    auto m = [](u8* a, size_t n, int pr) { void* p = mmap(a, n, pr, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0); if (p != a) { perror("mmap"); _exit(3); } };
    m(ARENA, 2 * ARENA_N, PROT_READ | PROT_WRITE);
    for (int f = 0; f <= NF; f++) for (int s = 0; s < 2; s++) m(stktop(f, s) - stksz(s), stksz(s), PROT_READ | PROT_WRITE);
    int fd = (int)syscall(SYS_memfd_create, "slots", 0); if (fd < 0 || ftruncate(fd, (off_t)NSLOT * 4096)) { perror("memfd"); _exit(3); }
    for (int i = 0; i < NSLOT; i++) {
        if (mmap(slot_rw(i), 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED_NOREPLACE, fd, (off_t)i * 4096) == MAP_FAILED || mmap(slot_ro(i), 4096, PROT_READ, MAP_SHARED | MAP_FIXED_NOREPLACE, fd, (off_t)i * 4096) == MAP_FAILED) { perror("mmap slot"); _exit(3); }
    }
    ALT = (u8*)malloc(65536); stack_t ss{}; ss.ss_sp = ALT; ss.ss_size = 65536; sigaltstack(&ss, nullptr);
    dl_iterate_phdr([](dl_phdr_info* i, size_t, void*) { if (!i->dlpi_name[0] && !HOSTLO) { HOSTLO = ~0ull; for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) { HOSTLO = std::min(HOSTLO, (uintptr_t)i->dlpi_addr + i->dlpi_phdr[k].p_vaddr); HOSTHI = std::max(HOSTHI, (uintptr_t)i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz); } } return 0; }, nullptr);
}
static void arm_signals()
{
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM}) rawsig(s, on_crash, SA_SIGINFO | SA_NODEFER | SA_ONSTACK);
    rawsig(SIGSYS, on_sys, SA_SIGINFO | SA_NODEFER); rawsig(SIGTRAP, on_trap, SA_SIGINFO | SA_NODEFER);
    if (prctl(PR_SET_SYSCALL_USER_DISPATCH, 1, (unsigned long)sim_sigret, (unsigned long)(sim_sigret_end - sim_sigret + 1), &SEL)) { fprintf(stderr, "note: syscall user dispatch unavailable\n"); }
    prctl(PR_SET_TSC, PR_TSC_SIGSEGV);
}
static double now() { timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ------------------------------------------------------------------------------- sweep
static int sweep(u64 seed, int part, int parts, int per, const char* out)
{
    FILE* f = fopen(out, "w"); Plan dummy; P = &dummy; dummy.prop = "L01"; setq("L01"); dummy.fib.push_back({}); g_sweep = true; g_rec = false; load_pristine();
    std::vector<std::pair<Ty, std::vector<u8>>> nopool; u64 n = 0;
    itimerval tick{}; tick.it_interval.tv_sec = tick.it_value.tv_sec = 1; setitimer(ITIMER_VIRTUAL, &tick, nullptr);
    for (size_t o = part; o < OPS.size(); o += parts) {
        // new branches and comparisons that come closer than before make an input worth keeping and changing again;
        // the values compared with are put into the next inputs
        Rng r(seed * 1000003 + o); Hot hot; mkhot(r, hot); u32 all = 0; g_covop = (uint16_t)(o + 2); int kept = 0; bool any = false; std::vector<OpInst> good; std::vector<u32> cf, ci; g_cmpf = &cf; g_cmpi = &ci; int lim = per, last = 0; u64 longest = 0; int hangs = 0;
        for (int i = 0; i < lim; i++) {
            OpInst in;
            if (!good.empty() && i > per / 2 && r.p(.7)) { in = r.p(.5) ? good.back() : r.pick(good); int m = 1 + r.below(3); for (int q = 0; q < m && in.d->nargs; q++) { int k = r.below(in.d->nargs); auto& d = in.d->arg[k]; if (d.dom == D_ARR) { genarg(r, in, k, &hot); continue; } bool fl = scalty(d.ty) == T_FLOAT; auto& cv = fl ? cf : ci; if (!cv.empty() && scalty(d.ty) != T_BOOL && d.ty != T_U64 && r.p(.4)) { u32 v = r.pick(cv); int z = r.below(6); if (z == 0) v++; if (z == 1) v--; if (z == 2 && fl) v ^= 0x80000000u; memcpy(in.a[k].b + 4 * r.below(ncomp(d.ty)), &v, 4); } else perturb(r, d.ty, in.a[k].b); if (d.dom != D_ANY) fixdom(r, d, in.a[k].b); } }
            else { in = mkinst((int)o); for (int k = 0; k < in.d->nargs; k++) genarg(r, in, k, i & 1 ? &hot : nullptr); }
            REFCACHE.clear(); g_flags = 0; g_newcov = 0; g_steps = 0; g_cmpon = true; Res& res = reference(in, 0x1f80, nopool); g_cmpon = false; n++; u64 took = res.steps + g_refpc; if (took > longest + longest / 4) { longest = took; g_newcov++; } if (res.outcome == O_HANG && ++hangs >= 2) lim = 0;
            u32 fl = g_flags & S_STATE; bool isnew = (fl & ~all) != 0; all |= fl; any = true;
            if (isnew || g_newcov) { if (i) { last = i; good.push_back(in); } if (lim) lim = std::min(per * 12, std::max(lim, i + 1 + per)); }
            if (isnew && kept < 12) { kept++; fprintf(f, "in\t%u\t", fl); OpInst k = in; k.seed = 0; writeinst(f, k); }
        }
        for (size_t i = good.size() > 40 ? good.size() - 40 : 0; i < good.size(); i++) { good[i].seed = 0; fprintf(f, "in\t0\t"); writeinst(f, good[i]); } (void)last;
        if (any && all) fprintf(f, "susp\t%u\t%s\n", all, OPS[o]->name);
    }
    itimerval tz{}; setitimer(ITIMER_VIRTUAL, &tz, nullptr);
    fprintf(f, "swept\t%llu\t%llu\n", (unsigned long long)n, (unsigned long long)g_ncov); fclose(f); return 0;
}
static void loaddict(const std::string& path) { std::ifstream f(path); double v; while (f >> v) { float x = (float)v; u32 b; memcpy(&b, &x, 4); DICT.push_back(b); } }
static void loadsweep(const char* path)
{
    INTER.resize(OPS.size()); SUSP.assign(OPS.size(), 0); if (!path || !*path) return;
    FILE* f = fopen(path, "r"); if (!f) return; char* l = nullptr; size_t n = 0;
    while (getline(&l, &n, f) > 0) { std::string s = l; while (!s.empty() && s.back() == '\n') s.pop_back(); auto c = split(s);
        if (c[0] == "in") { OpInst in; if (readinst(c, 2, in) && in.d) INTER[in.opid].push_back(in.a); }
        else if (c[0] == "susp") { auto it = OPBYNAME.find(c[2]); if (it != OPBYNAME.end()) SUSP[it->second] |= (u32)atoi(c[1].c_str()); } }
    free(l); fclose(f);
    bool only = true; for (size_t i = 0; i < SUSP.size(); i++) if (SUSP[i]) { SUSPLIST.push_back((int)i); if (SUSP[i] != S_RGLOB) only = false; }
    SUSPP = only ? .03 : .65; // state that is only ever read deserves little attention
}

// ------------------------------------------------------------------------------- minimisation (each candidate in a forked child)
struct Verdict { bool viol; char kind[64]; char op[160]; u64 log; bool died; char detail[600]; };
static Verdict tryplan(Plan& p)
{
    static Verdict* sh = (Verdict*)mmap(nullptr, sizeof(Verdict), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset(sh, 0, sizeof *sh); fflush(nullptr);
    pid_t c = fork();
    if (!c) { ALT = (u8*)malloc(65536); stack_t ss{}; ss.ss_sp = ALT; ss.ss_size = 65536; sigaltstack(&ss, nullptr); arm_signals(); bool v = execplan(p, false); sh->viol = v; snprintf(sh->kind, 64, "%s", g_viol.kind.c_str()); snprintf(sh->op, 160, "%s", g_viol.op.c_str()); snprintf(sh->detail, 600, "%s", g_viol.detail.c_str()); sh->log = g_log; _exit(v ? 1 : 0); }
    int st = 0; double t0 = now(); while (waitpid(c, &st, WNOHANG) == 0) { if (now() - t0 > 60) { kill(c, SIGKILL); } usleep(200); }
    if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) > 1)) { sh->viol = true; sh->died = true; snprintf(sh->kind, 64, "process died"); sh->op[0] = 0; }
    return *sh;
}
static int minimise(const char* in, const char* out)
{
    Plan p; if (!readplan(in, p, nullptr)) return 3;
    Verdict v0 = tryplan(p); if (!v0.viol) { fprintf(stderr, "minimise: plan does not fail\n"); return 4; }
    double t0 = now(); int tries = 0; auto bad = [&](Plan& q) { if (now() - t0 > 40 || tries > 4000) return false; tries++; Verdict v = tryplan(q); return v.viol && !strcmp(v.kind, v0.kind); };
    auto renumber = [](Plan& q, int f, int j) { std::vector<Dec> d; for (auto x : q.decs) { if (x.frame < HBASE) { int xf = (int)(x.frame / 100000000ull), xj = (int)(x.frame % 100000000ull); if (xf == f && xj == j) continue; if (xf == f && xj > j) x.frame--; } d.push_back(x); } q.decs = d; };
    bool again = true;
    while (again && now() - t0 < 40) {
        again = false;
        static bool warmed = false; if (p.get("warm") && !warmed) { warmed = true; { Plan q = p; q.cfg.erase("warm"); if (bad(q)) { p = q; again = true; } } i64 lo = 1, hi = p.get("warm"); while (lo < hi && now() - t0 < 40) { i64 mid = lo + (hi - lo) / 2; Plan q = p; q.cfg["warm"] = mid; if (bad(q)) hi = mid; else lo = mid + 1; } if (hi && hi < p.get("warm")) p.cfg["warm"] = hi; }
        if (p.get("loop")) { i64 lo = 1, hi = p.get("loop"); while (lo < hi && now() - t0 < 20) { i64 mid = lo + (hi - lo) / 2; Plan q = p; q.cfg["loop"] = mid; if (bad(q)) { hi = mid; } else lo = mid + 1; } if (hi < p.get("loop")) { p.cfg["loop"] = hi; } 
            if (p.get("loop") <= 3000) { Plan q = p; q.cfg.erase("loop"); q.fib[0].ops.clear(); Rng r((u64)p.get("lseed")); u32 n = (u32)p.fib[0].ops.size(); for (i64 i = 0; i < p.get("loop"); i++) { u64 x = r.next(); q.fib[0].ops.push_back(p.fib[0].ops[(x >> 32) % n]); } q.cfg.erase("lseed"); if (bad(q)) { p = q; again = true; } } }
        // drop chunks of decisions
        for (size_t k = p.decs.size(); k >= 1; k /= 2) for (size_t i = 0; i + k <= p.decs.size();) { Plan q = p; q.decs.erase(q.decs.begin() + i, q.decs.begin() + i + k); if (bad(q)) { p = q; again = true; } else i += k; }
        // drop chunks of operations (from the end), then whole threads
        if (!p.get("loop")) for (size_t f = 0; f < p.fib.size(); f++) { for (size_t k = p.fib[f].ops.size(); k >= 1; k /= 2) for (size_t e = p.fib[f].ops.size(); e >= k && e > 0;) { Plan q = p; for (size_t j = e; j > e - k; j--) { q.fib[f].ops.erase(q.fib[f].ops.begin() + (j - 1)); renumber(q, (int)f, (int)j - 1); } if (bad(q)) { p = q; again = true; e -= k; } else e--; if (e > p.fib[f].ops.size()) e = p.fib[f].ops.size(); } }
        while (p.fib.size() > 1 && p.fib.back().ops.empty()) { Plan q = p; q.fib.pop_back(); if (bad(q)) { p = q; again = true; } else break; }
        for (auto& o : p.fib) for (size_t j = 0; j < o.ops.size(); j++) {} 
        if (!p.pool.empty() && p.prop != "L03") { Plan q = p; for (auto& f : q.fib) for (auto& o : f.ops) if (o.d) for (auto& a : o.a) if (a.shared >= 0) { memset(a.b, 0, 64); memcpy(a.b, q.pool[a.shared].second.data(), q.pool[a.shared].second.size()); a.shared = -1; } q.pool.clear(); if (bad(q)) { p = q; again = true; } }
        for (auto& c : std::map<std::string, i64>(p.cfg)) if (c.first == "bsw") { Plan q = p; q.cfg.erase(c.first); if (bad(q)) p = q; }
        for (size_t f = 0; f < p.fib.size(); f++) if (p.fib[f].mxcsr != 0x1f80) { Plan q = p; q.fib[f].mxcsr = 0x1f80; if (bad(q)) { p = q; again = true; } }
    }
    // unused handlers
    { std::vector<OpInst> h; std::map<int, int> m; for (auto& d : p.decs) if (d.act == A_HANDLER && !m.count(d.arg)) { m[d.arg] = (int)h.size(); h.push_back(p.handlers[d.arg]); } Plan q = p; q.handlers = h; std::vector<Dec> dd; for (auto x : q.decs) { if (x.act == A_HANDLER) x.arg = m[x.arg]; if (x.frame >= HBASE) { int o = (int)(x.frame - HBASE); if (!m.count(o)) continue; x.frame = HBASE + m[o]; } dd.push_back(x); } q.decs = dd; t0 = now(); tries = 0; if (bad(q)) p = q; }
    // simplify arguments towards zero bytes
    t0 = now(); tries = 0;
    for (auto& f : p.fib) for (auto& o : f.ops) if (o.d && f.ops.size() < 30) for (int i = 0; i < o.d->nargs; i++) if (o.a[i].shared < 0 && o.d->arg[i].dom == D_ANY && now() - t0 < 10) { ArgVal k = o.a[i]; memset(o.a[i].b, 0, 64); if (!bad(p)) o.a[i] = k; }
    Verdict a = tryplan(p), b = tryplan(p);
    if (!a.viol || !b.viol || a.log != b.log || strcmp(a.kind, v0.kind)) { fprintf(stderr, "minimise: not repeatable (%d %d %016llx %016llx)\n", a.viol, b.viol, (unsigned long long)a.log, (unsigned long long)b.log); return 4; }
    Viol v; v.kind = a.kind; v.op = a.op; v.detail = a.detail; writeplan(p, out, &v, a.log);
    printf("%s: %s: %s\n", v.kind.c_str(), v.op.c_str(), v.detail.c_str());
    return 1;
}

// L11: something is still held after a run.  A table built once on first use is no leak: it counts only if repeating the
// calls (the same, with other operands, in other threads, refused in the same way) goes on taking more
static std::map<std::string, int> ONEOFF;
static bool accumulates(const Plan& p0, const std::string& kind, const std::string& op, Plan& out)
{
    if (ONEOFF[kind + op] >= 4) return false;
    auto keep = POL; i64 base = g_heldmore; Rng r(fnv64(17, g_log)); std::vector<OpInst> c;
    for (auto& f : p0.fib) for (auto& o : f.ops) if (o.d && o.d->name == op) c.push_back(o);
    if (c.empty()) for (auto& f : p0.fib) for (auto& o : f.ops) if (o.d) c.push_back(o);
    auto works = [&](Plan& q) { bool v = execplan(q, true); if (v && g_viol.kind == kind) { out = q; return true; } return false; };
    i64 mw = p0.get("mem_to") > p0.get("mem_from", 1ll << 50) ? std::min<i64>(99, p0.get("mem_to") - p0.get("mem_from")) : 0, sw = p0.get("sys_to") > p0.get("sys_from", 1ll << 50) ? std::min<i64>(99, p0.get("sys_to") - p0.get("sys_from")) : 0;
    bool ok = false; POL.sw = POL.hnd = POL.stall = POL.aband = POL.kill = POL.wb = 0;
    for (int w = -1; w < (mw || sw ? 8 : 0) && !ok; w++) for (size_t i = 0; i < c.size() && i < 8 && !ok; i++) for (int how = 0; how < 3 && !ok; how++) {
        Plan q = p0; q.decs.clear(); q.handlers.clear(); q.cfg.erase("mem_from"); q.cfg.erase("sys_from"); q.cfg.erase("mem_to"); q.cfg.erase("sys_to"); q.cfg.erase("bsw");
        if (w >= 0 && mw) { q.cfg["mem_from"] = w; q.cfg["mem_to"] = w + mw; } if (w >= 0 && sw) { q.cfg["sys_from"] = w; q.cfg["sys_to"] = w + sw; }
        u32 csr = q.fib[0].mxcsr; q.fib.resize(how == 2 ? NF : 1); for (auto& f : q.fib) { f.ops.clear(); f.mxcsr = csr; }
        if (how == 2) { q.cfg["acc"] = 2; q.cfg["accmin"] = 6; for (auto& f : q.fib) f.ops.push_back(c[i]); }
        else { q.cfg["acc"] = 1; for (int k = 0; k < 400; k++) { OpInst in = c[i]; if (how && k) for (int a = 0; a < in.d->nargs; a++) if (in.d->arg[a].dom != D_ARR) { in.a[a].shared = -1; if (r.p(.5)) perturb(r, in.d->arg[a].ty, in.a[a].b); else genarg(r, in, a, nullptr); if (in.d->arg[a].dom != D_ANY) fixdom(r, in.d->arg[a], in.a[a].b); } in.seed = r.next(); q.fib[0].ops.push_back(in); } }
        ok = works(q);
    }
    POL = keep;
    for (int i = 0; i < 4 && !ok; i++) { Plan q = p0; q.decs.clear(); q.handlers.clear(); q.cfg["acc"] = 3; q.cfg["accmin"] = base + 6; for (auto& f : q.fib) { auto o = f.ops; for (int k = 0; k < 24 && f.ops.size() < 400; k++) f.ops.insert(f.ops.end(), o.begin(), o.end()); } if (mw && i & 1) q.cfg["mem_to"] = 1ll << 40; if (sw && i & 1) q.cfg["sys_to"] = 1ll << 40; ok = works(q); }
    if (!ok) { ONEOFF[kind + op]++; ST.oneoff++; }
    POL = keep; return ok;
}
// ------------------------------------------------------------------------------- main
static void stats(const char* path, double secs, u64 nviol)
{
    FILE* f = fopen(path, "w"); fprintf(f, "{");
#define J(x) fprintf(f, "\"" #x "\": %llu, ", (unsigned long long)ST.x);
    J(runs) J(calls) J(steps) J(switches) J(forced) J(handlers) J(stalls) J(abandons) J(kills) J(memfail) J(sysfail) J(memok) J(syscalls) J(roundings) J(unmasked) J(refs) J(deadlocks) J(crashes) J(ctors) J(dtors) J(placements) J(rofaults) J(ambients) J(maxdepth) J(calls_in_stall) J(skipped) J(watchpre) J(rechecked) J(ndet) J(taken) J(longest) J(longestpc) J(oneoff)
    u64 pcs = 0; for (auto c : COV) pcs += c != 0;
    fprintf(f, "\"pcs\": %llu, \"suspects\": %zu, \"unit_ctors\": %zu, \"distinct\": %zu, \"violations\": %llu, \"secs\": %.2f}\n", (unsigned long long)pcs, SUSPLIST.size(), CTORS.size(), SCHED.size(), (unsigned long long)nviol, secs); fclose(f);
    std::string h = std::string(path) + ".sched"; f = fopen(h.c_str(), "wb"); for (u64 x : SCHED) fwrite(&x, 8, 1, f); fclose(f);
    if (getenv("SIM_COV")) { h = std::string(path) + ".cov"; f = fopen(h.c_str(), "w"); for (size_t i = 0; i < sizeof COV / sizeof *COV; i++) if (COV[i]) fprintf(f, "%zx\n", i); fclose(f); }
}
int main(int argc, char** argv)
{
    std::map<std::string, std::string> o; std::string mode = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
    if (mode == "union") { std::vector<u64> v; std::ifstream l(argv[3]); std::string n; while (std::getline(l, n)) { std::ifstream f(n, std::ios::binary); u64 x; while (f.read((char*)&x, 8)) v.push_back(x); } std::sort(v.begin(), v.end()); printf("%zu\n", (size_t)(std::unique(v.begin(), v.end()) - v.begin())); return 0; }
    if (o.count("--machine")) { unsigned long long ms; unsigned mm; if (sscanf(o["--machine"].c_str(), "%llu:%u", &ms, &mm) == 2) MSEED = ms, MMASK = mm; }
    if ((!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) || MMASK) && !getenv("SIM_REEXEC")) {
        setenv("SIM_REEXEC", "1", 1);
        // with randomisation off, the room left for the stack decides where all shared libraries are loaded
        if (mon(MC_IMAGE)) { rlimit rl; getrlimit(RLIMIT_STACK, &rl); rlim_t w = ((mach(MC_IMAGE, 0, 8) & 0xffffff) << 12) + (256u << 20); rl.rlim_cur = w < rl.rlim_max ? w : rl.rlim_max; setrlimit(RLIMIT_STACK, &rl); }
        if (mon(MC_ENV)) { u64 r = mach(MC_ENV, 0, 2); std::string v; for (u64 k = r % 4000 + 1; k; k--) v += (char)('a' + (r = mix(r)) % 26); setenv("SIM_NOISE", v.c_str(), 1); setenv("LC_ALL", r & 1 ? "C.UTF-8" : "POSIX", 1); setenv("TZ", r & 2 ? "UTC-5" : "Asia/Tokyo", 1); }
        static char name[32]; if (mon(MC_NAMES)) { snprintf(name, sizeof name, "/opt/app%u/bin", (unsigned)(mach(MC_NAMES, 0, 8) % 1000)); argv[0] = name; }
        if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    auto opt = [&](const char* k, const char* d) { return o.count(k) ? o[k] : std::string(d); };
    std::string dir = opt("--images", "."), variant = opt("--variant", "dbg");
    if (mode == "replay" || mode == "minimise" || mode == "refs") variant = planvariant(o["--plan"].c_str());
    if (o.count("--as")) variant = o["--as"];
    INSTR = variant == "dbg" || variant == "rel"; setup_machine(); load((dir + "/" + variant + ".so").c_str()); arm_signals();
    u64 seed = strtoull(opt("--seed", "1").c_str(), nullptr, 10);
    loaddict(opt("--images", ".") + "/dict");
    if (mode == "sweep") return sweep(seed, atoi(opt("--part", "0").c_str()), atoi(opt("--parts", "1").c_str()), atoi(opt("--per", "64").c_str()), o["--out"].c_str());
    if (mode == "ops") { for (auto d : OPS) printf("%s\n", d->name); return 0; }
    if (mode == "values") { // what every call of a seeded list gives, each as the first call of a process
        loadsweep(opt("--sweep", "").c_str()); int part = atoi(opt("--part", "0").c_str()), parts = atoi(opt("--parts", "1").c_str()), cnt = atoi(opt("--count", "100").c_str()); long only = atol(opt("--only", "-1").c_str());
        Plan dummy; P = &dummy; dummy.prop = "L01"; setq("L01"); dummy.fib.push_back({}); g_rec = false; load_pristine(); FILE* f = fopen(o["--out"].c_str(), "w"); FILE* hf = o.count("--calls") ? fopen(o["--calls"].c_str(), "w") : nullptr; u64 ncall = 0; std::vector<std::pair<Ty, std::vector<u8>>> nopool; u64 at = 0; double t0 = now(), lim = atof(opt("--secs", "1e9").c_str());
        itimerval tick{}; tick.it_interval.tv_sec = tick.it_value.tv_sec = 5; setitimer(ITIMER_VIRTUAL, &tick, nullptr); g_sweep = true;
        long nper = ((long)OPS.size() - part + parts - 1) / parts; int i0 = only >= 0 ? (int)(only / nper) : 0; at = (u64)i0 * nper;
        for (int i = i0; i < cnt; i++) { if (only < 0 && now() - t0 > lim) break; for (size_t q = part; q < OPS.size(); q += parts, at++) {
            if (only >= 0 && (u64)only != at) continue;
            Rng r(mix(seed * 1000003 + q) ^ mix(i)); Hot hot; mkhot(r, hot); OpInst in = geninst(r, (int)q, i & 1 ? &hot : nullptr);
            if (only >= 0) { Plan p; p.prop = opt("--prop", "L07"); p.variant = variant; p.fib.push_back({}); p.fib[0].ops.push_back(in); writeplan(p, o["--out"].c_str(), nullptr, 0); return 0; }
            REFCACHE.clear(); Res& res = reference(in, 0x1f80, nopool); u64 h = fnv64(17, res.outcome); h = fnv(h, res.ret.data(), res.ret.size()); h = fnv(h, res.mut.data(), res.mut.size()); fwrite(&h, 8, 1, f); ncall++; if (hf) { u64 k = fnv64(23, in.opid); for (int a = 0; a < in.d->nargs; a++) k = fnv(k, in.a[a].b, argsize(in.d->arg[a])); fwrite(&k, 8, 1, hf); }
        } }
        fclose(f); if (hf) fclose(hf); printf("machine %d %llu %llu\n", MMASK >> MC_CPUID & 1 ? g_cpuidok : -1, (unsigned long long)ncall, (unsigned long long)(MODBASE >> 12)); fflush(stdout); _exit(0);
    }
    if (mode == "refs") { // the calls of a plan, each as the first call of a process
        Plan p; if (!readplan(o["--plan"].c_str(), p, nullptr)) return 3;
        Plan dummy; P = &dummy; dummy.prop = "L01"; setq("L01"); dummy.fib.push_back({}); g_rec = false; load_pristine();
        itimerval tick{}; tick.it_interval.tv_sec = tick.it_value.tv_sec = 5; setitimer(ITIMER_VIRTUAL, &tick, nullptr); g_sweep = true;
        for (auto& in : p.fib[0].ops) if (in.d) { REFCACHE.clear(); Res& r = reference(in, p.fib[0].mxcsr, p.pool); std::string x; char b[4]; for (u8 c : r.ret) snprintf(b, sizeof b, "%02x", c), x += b; x += " "; for (u8 c : r.mut) snprintf(b, sizeof b, "%02x", c), x += b; printf("%s -> %s %s\n", showinst(in).c_str(), ONAME[r.outcome], x.c_str()); }
        fflush(stdout); _exit(0);
    }
    if (mode == "minimise") return minimise(o["--plan"].c_str(), o["--out"].c_str());
    if (mode == "replay") {
        Plan p; Expect e; if (!readplan(o["--plan"].c_str(), p, &e)) { fprintf(stderr, "cannot read plan\n"); return 3; }
        if (o.count("--trace")) g_trace = fopen(o["--trace"].c_str(), "w");
        bool v = execplan(p, false); if (g_trace) fclose(g_trace);
        printf("log %016llx %s\n", (unsigned long long)g_log, v ? ("violation: " + g_viol.kind + ": " + g_viol.op + ": " + g_viol.detail).c_str() : "no violation");
        if (!e.kind.empty()) { bool same = v && e.kind == g_viol.kind && e.log == g_log; printf(same ? "as recorded\n" : "differs from the recording (%016llx)\n", (unsigned long long)e.log); return same ? 1 : v ? 4 : 0; }
        return v ? 1 : 0;
    }
    if (mode == "run") {
        loadsweep(opt("--sweep", "").c_str()); std::string prop = o["--prop"], out = o["--out"];
        u64 from = strtoull(opt("--from", "0").c_str(), nullptr, 10), n = strtoull(opt("--count", "100").c_str(), nullptr, 10), stride = strtoull(opt("--stride", "1").c_str(), nullptr, 10); double lim = atof(opt("--secs", "20").c_str()), t0 = now(); u64 nv = 0;
        u64 recheck = strtoull(opt("--recheck", "0").c_str(), nullptr, 10), rechecked = 0, ndet = 0; std::string stopfile = opt("--stopfile", "");
        bool logs = o.count("--logs"); FILE* lf = logs ? fopen(o["--logs"].c_str(), "w") : nullptr;
        u64* progress = nullptr; { int fd = open((out + ".progress").c_str(), O_RDWR | O_CREAT, 0644); if (fd >= 0 && !ftruncate(fd, 8)) progress = (u64*)mmap(nullptr, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); }
        FILE* sf = fopen((out + ".samples").c_str(), "w");
        for (u64 k = 0; k < n; k++) {
            u64 i = from + k * stride; if (progress) *progress = i;
            if ((k & 15) == 0 || nv) { if (!stopfile.empty() && !access(stopfile.c_str(), F_OK)) { lim = std::min(lim, now() - t0 + 3); stopfile.clear(); } if (now() - t0 > lim) break; }
            Plan p = genplan(prop, variant, mix(seed) ^ mix(i * 7919 + variant[0]));
            bool v = execplan(p, true);
            bool quiet = false;
            if (v && Q == Q11 && g_viol.kind.compare(0, 11, "left behind") == 0) { Plan q; std::string kind = g_viol.kind, op = g_viol.op; u64 l0 = g_log; v = accumulates(p, kind, op, q); if (v) p = q; else { g_log = l0; quiet = true; } }
            if (recheck && !v && !quiet && k % recheck == 0) { u64 l0 = g_log; Stats keep = ST; bool v2 = execplan(p, false); ST = keep; if (v2 || g_log != l0) { printf("nondeterministic %llu %016llx %016llx\n", (unsigned long long)i, (unsigned long long)l0, (unsigned long long)g_log); std::string vp = out + ".nondet"; writeplan(p, vp.c_str(), nullptr, l0); ndet++; } else rechecked++; }
            if (lf) fprintf(lf, "%llu %016llx %d\n", (unsigned long long)i, (unsigned long long)g_log, v);
            if (k % 997 == 3 && sf) { fprintf(sf, "run %llu:", (unsigned long long)i); for (size_t f = 0; f < p.fib.size(); f++) { fprintf(sf, " thread%zu[", f); for (size_t j = 0; j < p.fib[f].ops.size() && j < 4; j++) fprintf(sf, "%s; ", showinst(p.fib[f].ops[j]).c_str()); fprintf(sf, "%zu calls]", p.fib[f].ops.size()); } fprintf(sf, " decisions %zu handlers %zu steps %llu log %016llx\n", p.decs.size(), p.handlers.size(), (unsigned long long)g_steps, (unsigned long long)g_log); }
            if (v) { std::string vp = out + ".viol" + std::to_string(nv); writeplan(p, vp.c_str(), &g_viol, g_log); printf("viol %llu %s %s | %s | %s\n", (unsigned long long)i, vp.c_str(), g_viol.kind.c_str(), g_viol.op.c_str(), g_viol.detail.c_str()); fflush(stdout); if (++nv >= (u64)atoi(opt("--maxviol", "3").c_str())) break; }
        }
        if (lf) fclose(lf); if (sf) fclose(sf);
        ST.rechecked = rechecked; ST.ndet = ndet; stats((out + ".stats").c_str(), now() - t0, nv);
        fflush(stdout); _exit(nv ? 1 : 0);
    }
    fprintf(stderr, "usage: host sweep|run|replay|minimise|ops ...\n"); return 3;
}
