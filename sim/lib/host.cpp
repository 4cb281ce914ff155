// Deterministic simulator for the zcm library.
//
// The library (all of /repo/src plus one generated wrapper per public operation) is a shared
// image loaded into this process.  Client threads are fibers on one OS thread; every
// instrumented memory access of the library (or, for the "shp" image, every machine
// instruction) is a scheduling point, and the scheduler, fault injector, allocator, locks,
// clock, environment, random source and system calls the library sees are all simulated here.
// A run is a pure function of its plan file; plans are generated from VERIF_SEED.
#include "ops.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <clocale>
#include <ctime>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <functional>
#include <fstream>
#include <new>
#include <dlfcn.h>
#include <elf.h>
#include <link.h>
#include <unistd.h>
#include <fcntl.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/auxv.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/utsname.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <xmmintrin.h>
#include <cxxabi.h>

#ifndef PR_SET_SYSCALL_USER_DISPATCH
#define PR_SET_SYSCALL_USER_DISPATCH 59
#endif
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;

// ------------------------------------------------------------------------------- basics
static u64 mix(u64 x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(mix(seed)) {}
    u64 next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
    u32 below(u32 n) { return n ? (u32)((next() >> 33) % n) : 0; }
    double u() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
    bool p(double q) { return u() < q; }
    u64 geo(double q) { if (q <= 0) return ~0ull >> 2; if (q >= 1) return 1; double g = std::log(1 - u()) / std::log(1 - q); return 1 + (u64)(g < 1e15 ? g : 1e15); }
    template <class V> auto& pick(V& v) { return v[below((u32)v.size())]; }
};
static u64 fnv(u64 h, const void* p, size_t n) { const u8* b = (const u8*)p; for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ull; return h; }
static u64 fnv64(u64 h, u64 v) { return fnv(h, &v, 8); }

static const size_t TSIZE[T_COUNT] = {0, 4, 4, 4, 1, 8, 8, 12, 16, 8, 12, 16, 2, 3, 4, 16, 36, 64, 16};
static size_t TALIGN[T_COUNT];
static const char* TNAME[T_COUNT] = {"void", "float", "int", "uint", "bool", "u64", "vec2", "vec3", "vec4", "ivec2", "ivec3", "ivec4", "bvec2", "bvec3", "bvec4", "mat2", "mat3", "mat4", "quat"};
static int ncomp(Ty t) { switch (t) { case T_VEC2: case T_IVEC2: case T_BVEC2: return 2; case T_VEC3: case T_IVEC3: case T_BVEC3: return 3; case T_VEC4: case T_IVEC4: case T_BVEC4: case T_MAT2: case T_QUAT: return 4; case T_MAT3: return 9; case T_MAT4: return 16; case T_VOID: return 0; default: return 1; } }
static Ty scalty(Ty t) { switch (t) { case T_VEC2: case T_VEC3: case T_VEC4: case T_MAT2: case T_MAT3: case T_MAT4: case T_QUAT: case T_FLOAT: return T_FLOAT; case T_IVEC2: case T_IVEC3: case T_IVEC4: case T_INT: return T_INT; case T_BVEC2: case T_BVEC3: case T_BVEC4: case T_BOOL: return T_BOOL; default: return t; } }
static size_t argsize(const ArgDesc& a) { return a.dom == D_ARR ? a.domn * TSIZE[a.ty] : TSIZE[a.ty]; }

// ------------------------------------------------------------------------------- plan
struct ArgVal { int shared = -1; u8 b[64] = {0}; };
struct OpInst {
    const OpDesc* d = nullptr;   // null: a life-cycle event (kind, n)
    int opid = -1;
    int kind = 0, n = 0;         // kind: 1 construct unit n, 2 run the newest pending exit handler
    std::vector<ArgVal> a;
    u64 seed = 0;                // per-call environment (placement, paint, ambient), property specific
};
enum { A_SWITCH = 1, A_STALL, A_ABANDON, A_KILL, A_HANDLER };
static const char* ANAME[] = {"", "switch", "stall", "abandon", "kill", "handler"};
struct Dec { u64 frame; u64 hook; int act; int arg; };
struct FiberPlan { u32 mxcsr = 0x1f80; std::vector<OpInst> ops; };
struct Plan {
    std::string prop, variant;
    std::map<std::string, i64> cfg;
    std::vector<std::pair<Ty, std::vector<u8>>> pool;
    std::vector<FiberPlan> fib;
    std::vector<OpInst> handlers;
    std::vector<Dec> decs;
    i64 get(const char* k, i64 d = 0) const { auto i = cfg.find(k); return i == cfg.end() ? d : i->second; }
};
static const u64 HBASE = 1ull << 40;
static u64 opframe(int f, int j) { return (u64)f * 100000000ull + j; }

// ------------------------------------------------------------------------------- target image
static std::vector<const OpDesc*> OPS; static std::vector<int> OPSHARD;
static std::unordered_map<std::string, int> OPBYNAME;
struct Seg { u8* p; size_t n; std::vector<u8> prist, virgin; };
static std::vector<Seg> SEGS;               // writable module memory
static uintptr_t MODLO, MODHI, MODBASE;
static u8* TLSP; static size_t TLSN; static std::vector<u8> TLSPRIST;
struct Ctor { void (*fn)(); int unit; };    // unit <0: wrapper shard -(unit+1); >=0 library unit
static std::vector<Ctor> CTORS, FINIS; static std::vector<std::string> UNITS;
static bool INSTR;                          // instrumented image (scheduling point = memory access)

// ------------------------------------------------------------------------------- simulated machine
static const int NF = 8, REF = NF, MAXD = 4;
static u8* ARENA = (u8*)0x610000000000ull; static const size_t ARENA_N = 256u << 20;
#define REFARENA (ARENA + ARENA_N)
static u8* STACKS = (u8*)0x620000000000ull; static size_t STKOFF; static const size_t STK = 256 << 10, SMALLSTK = 64 << 10, STKSTRIDE = 1 << 20;
static u8* SLOT_RW = (u8*)0x630000000000ull; static u8* SLOT_RO = (u8*)0x640000000000ull;
static const int NARG = 17, NPOOL = 24;
static const int NSLOT = (NF + 1) * MAXD * NARG + NPOOL;
static u8* slot_rw(int i) { return SLOT_RW + (size_t)i * 3 * 4096 + 4096; }
static u8* slot_ro(int i) { return SLOT_RO + (size_t)i * 3 * 4096 + 4096; }
static int slotidx(int f, int depth, int arg) { return (f * MAXD + depth) * NARG + arg; }
static int poolidx(int k) { return (NF + 1) * MAXD * NARG + k; }

// the machine and the process the image is loaded on (L13); mask 0 is the standard one
enum { MC_IMAGE, MC_HEAP, MC_STACK, MC_OPERANDS, MC_IDS, MC_CLOCK, MC_RANDOM, MC_ENV, MC_CPUS, MC_CPUID, MC_NAMES, MC_TLS, MC_N };
static const char* const MCNAME[] = {"library loaded at another address", "heap at another address", "stack at another address", "operands at another address", "other process, thread and user ids", "other start time", "other random source", "other environment and locale at start", "other number of processors", "other set of processor features", "other host name, system name and files", "thread-local storage at another address"};
static u64 MSEED; static u32 MMASK;
static u64 mach(int bit, u64 standard, u64 salt = 0) { return MMASK >> bit & 1 ? mix(MSEED * 977 + bit * 31 + salt) : standard; }
static bool mon(int bit) { return MMASK >> bit & 1; }

enum { O_OK = 0, O_ASSERT, O_EXC, O_CRASH, O_ABORT, O_EXIT, O_HANG, O_DEAD, O_ABANDONED };
static const char* ONAME[] = {"ok", "assertion", "exception", "crash", "abort", "exit", "no-progress", "deadlock", "abandoned"};
struct Res { int outcome = O_OK; int info = 0; std::string ret, mut; u64 steps = 0; u32 raised = 0; bool operator==(const Res& o) const { return outcome == o.outcome && ret == o.ret && mut == o.mut; } };

struct Frame {
    u64 h, next, fairnext, bound, id; u64 recnext;
    u64 pc, pclim; // basic blocks entered (instrumented images) and how many it may be
    Frame* parent; int fiber, depth, opi; bool handler; bool step;
    const OpInst* inst;
    jmp_buf jb; int outcome, info;
    const std::vector<Dec>* decs; size_t cursor;
};
enum { F_NONE, F_READY, F_BLOCKED, F_STALLED, F_DONE };
struct Fiber { bool trapped = false; void* sp; int state; const void* blocked; Frame* cur; u8* tls; int err; u64 eh[2]; int opi; };
static Fiber FIB[NF + 1];
static void* MAINSP; static int curf = -1;
static Frame* volatile cur;                  // the frame whose target code is running; null in host code
static volatile u8 SEL;                      // syscall user dispatch selector
static u64 g_steps, g_bound; static bool g_watch, g_sweep, g_step;
static u32 g_flags;                          // sightings in a sweep
enum { S_WGLOB = 1, S_RGLOB = 2, S_TLS = 4, S_MALLOC = 8, S_LOCK = 16, S_SYSCALL = 32, S_AMB = 64, S_GUARD = 128, S_ATOMIC = 256, S_NTRIG = 512 };
static const u32 S_STATE = S_WGLOB | S_RGLOB | S_TLS | S_MALLOC | S_LOCK | S_SYSCALL | S_AMB | S_GUARD | S_ATOMIC;

// synchronisation and allocator state; part of what is reset with the image
struct SyncEnt { const void* a; int owner; int count; };
struct AtExit { void (*f)(void*); void* arg; int unit; };
struct Amb { u64 clock; u64 rnd; bool env; bool loc; u32 altered; u32 consulted; };
enum { R_MEM, R_BYTES, R_FILE, R_MAP, R_KEY, R_EXIT, R_THREAD, R_TIMER, R_LOCK, R_N };
static const char* RNAME[] = {"heap memory", "heap memory", "an open file", "a page of a memory mapping", "a thread-specific storage key", "an exit handler", "a thread", "a timer", "a lock"};
struct Soft {
    i64 held[R_N]; int holder[R_N]; struct { void* p; int op; } block[24]; int nblock;
    size_t brk; SyncEnt sync[32]; int nsync; AtExit ae[64]; int nae; Amb amb; int nkeys; void* keys[NF + 2][16]; void (*keydtor[16])(void*); struct { void (*f)(void*); void* arg; } tex[NF + 2][16]; int ntex[NF + 2];
    u64 nmem, nsys; u64 ctordone; int nfd; u32 fdpos[16];
};
static Soft SOFT, SOFTPRIST; static u8* arena = ARENA;
static std::vector<u8> ARENAPRIST;
static int cur_ctor_unit = 1000;

// fault configuration of the current run
struct Faults { u64 mem_from = ~0ull, mem_to = 0, sys_from = ~0ull, sys_to = 0; bool poison = false; u8 heapfill = 0xA5; };
static Faults FLT, NOFLT; 
struct Stats { u64 runs, calls, steps, switches, forced, handlers, stalls, abandons, kills, memfail, sysfail, memok, syscalls, roundings, unmasked, refs, deadlocks, crashes, ctors, dtors, placements, rofaults, ambients, maxdepth, calls_in_stall, skipped, watchpre, rechecked, ndet, taken, longest, longestpc, oneoff; } ST;
static std::map<int, u64> SYSNR;
static std::unordered_set<u64> SCHED;        // distinct interleavings
static u64 g_schedhash;
static u64 g_log;                            // hash of the event log
static FILE* g_trace;
static void logev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
static void logev(const char* fmt, ...)
{
    char b[512]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (n > (int)sizeof b - 1) n = sizeof b - 1;
    g_log = fnv(g_log, b, n);
    if (g_trace) fprintf(g_trace, "%s\n", b);
}

static void toolong(Frame* f);
// coverage (trace-pc): offsets in the image
static uint16_t COV[1 << 22]; static uint16_t g_covop = 1; static u32 g_newcov; static u64 g_ncov;
extern "C" __attribute__((visibility("default"))) void __sanitizer_cov_trace_pc()
{
    uintptr_t o = ((uintptr_t)__builtin_return_address(0) - MODBASE) & ((1 << 22) - 1);
    if (COV[o] != g_covop) { if (!COV[o]) g_ncov++; COV[o] = g_covop; g_newcov++; }
    Frame* f = cur; if (f && ++f->pc >= f->pclim) toolong(f);
}

// compared values (trace-cmp), used by the sweep only: how close a comparison came, and with what
static bool g_cmpon; static uint16_t CMPCOV[1 << 18]; static std::vector<u32>* g_cmpf; static std::vector<u32>* g_cmpi;
static inline void cmpfeat(uintptr_t pc, int bucket) { u32 h = (u32)(((pc - MODBASE) * 64 + (unsigned)bucket) * 0x9E3779B1u) >> 14; if (CMPCOV[h] != g_covop) { CMPCOV[h] = g_covop; g_newcov++; } }
static void cmpkeep(std::vector<u32>* v, u32 x) { if (v->size() < 48 && std::find(v->begin(), v->end(), x) == v->end()) v->push_back(x); }
static int closeness(u64 d) { return d == 0 ? 0 : d == 1 ? 1 : 2 + (63 - __builtin_clzll(d)) / 4; }
static void cmpint(uintptr_t pc, u64 a, u64 b, int bits) { if (!g_cmpon) return; u64 d = a > b ? a - b : b - a; cmpfeat(pc, closeness(d) + (a > b ? 32 : 0)); if (bits >= 32) { cmpkeep(g_cmpi, (u32)a); cmpkeep(g_cmpi, (u32)b); } }
static void cmpflt(uintptr_t pc, u32 a, u32 b)
{
    if (!g_cmpon) return; auto key = [](u32 x) { return x & 0x80000000u ? (int64_t)-(int64_t)(x & 0x7fffffff) : (int64_t)x; }; bool nan = (a & 0x7fffffff) > 0x7f800000 || (b & 0x7fffffff) > 0x7f800000;
    int64_t d = key(a) - key(b); cmpfeat(pc, nan ? 63 : closeness((u64)(d < 0 ? -d : d)) + (d > 0 ? 32 : 0)); cmpkeep(g_cmpf, a); cmpkeep(g_cmpf, b);
}
#define CMPFN(n, t, bits) extern "C" __attribute__((visibility("default"))) void n(t a, t b) { cmpint((uintptr_t)__builtin_return_address(0), (u64)a, (u64)b, bits); }
CMPFN(__sanitizer_cov_trace_cmp1, u8, 8) CMPFN(__sanitizer_cov_trace_cmp2, uint16_t, 16) CMPFN(__sanitizer_cov_trace_cmp4, u32, 32) CMPFN(__sanitizer_cov_trace_cmp8, u64, 64)
CMPFN(__sanitizer_cov_trace_const_cmp1, u8, 8) CMPFN(__sanitizer_cov_trace_const_cmp2, uint16_t, 16) CMPFN(__sanitizer_cov_trace_const_cmp4, u32, 32) CMPFN(__sanitizer_cov_trace_const_cmp8, u64, 64)
// the operands are inspected as bits: no floating-point instruction may run here
extern "C" __attribute__((visibility("default"))) void __sanitizer_cov_trace_cmpf(float a, float b) { u32 x, y; memcpy(&x, &a, 4); memcpy(&y, &b, 4); cmpflt((uintptr_t)__builtin_return_address(0), x, y); }
static u32 f64to32(u64 d) { u32 s = (u32)(d >> 32) & 0x80000000u; int e = (int)(d >> 52 & 2047) - 1023; if (e > 127) return s | 0x7f800000u | (e == 1024 && (d << 12) ? 0x400000u : 0); if (e < -126) return s; return s | (u32)(e + 127) << 23 | (u32)(d >> 29 & 0x7fffff); }
extern "C" __attribute__((visibility("default"))) void __sanitizer_cov_trace_cmpd(double a, double b) { u64 x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); cmpflt((uintptr_t)__builtin_return_address(0), f64to32(x), f64to32(y)); }
extern "C" __attribute__((visibility("default"))) void __sanitizer_cov_trace_switch(u64 v, u64* c) { if (!g_cmpon) return; for (u64 i = 0; i < c[0] && i < 20; i++) cmpfeat((uintptr_t)__builtin_return_address(0) + 7 * i, v == c[2 + i] ? 0 : 1); }

static bool inmod(uintptr_t a) { for (auto& s : SEGS) if (a - (uintptr_t)s.p < s.n) return true; return false; }
static bool intls(uintptr_t a) { return a - (uintptr_t)TLSP < TLSN; }
static bool inarena(uintptr_t a) { return a - (uintptr_t)ARENA < 2 * ARENA_N; }
static bool insh(uintptr_t a) { return a - (uintptr_t)slot_rw(poolidx(0)) < (size_t)NPOOL * 3 * 4096; }

static inline u64 selget() { return SEL; }
struct Host {  // the simulated target calls into the host
    Frame* f; u8 sel;
    Host() { sel = SEL; SEL = 0; f = cur; cur = nullptr; if (f && f->step) tf(false); }
    ~Host() { if (f && f->step) { cur = f; SEL = sel; tf(true); } else { cur = f; SEL = sel; } }
    static void tf(bool on) { if (on) asm volatile("pushfq; orq $0x100,(%%rsp); popfq" ::: "cc", "memory"); else asm volatile("pushfq; andq $~0x100,(%%rsp); popfq" ::: "cc", "memory"); }
};

// ------------------------------------------------------------------------------- fibers
extern "C" void sim_swap(void** save, void* to);
asm(R"(
.text
.globl sim_swap
.type sim_swap,@function
sim_swap:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $16,%rsp
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    movq %rsp,(%rdi)
    movq %rsi,%rsp
    ldmxcsr (%rsp)
    fldcw 4(%rsp)
    addq $16,%rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_swap,.-sim_swap
.globl sim_entry
sim_entry:
    movq %r12,%rdi
    callq *%r13
    ud2
.globl sim_call
.type sim_call,@function
# sim_call(fn, a, r, pattern, tf): scratch registers painted, then fn(a, r)
sim_call:
    .cfi_startproc
    pushq %rbp
    .cfi_adjust_cfa_offset 8
    .cfi_offset %rbp,-16
    movq %rsp,%rbp
    .cfi_def_cfa_register %rbp
    movq sim_paintlen(%rip),%r9
    testq %r9,%r9
    jz 2f
    movq %rdi,%r11
    movq %rcx,%r10
    movq %rsp,%rdi
    subq %r9,%rdi
    movq %r9,%rcx
    shrq $3,%rcx
    movq sim_paintpat(%rip),%rax
    rep stosq
    movq %r11,%rdi
    movq %r10,%rcx
2:
    movq %rdi,%r11
    movq %rsi,%rdi
    movq %rdx,%rsi
    movq %rcx,%rax
    movq %r8,%r10
    movq %rax,%xmm0
    punpcklqdq %xmm0,%xmm0
    movaps %xmm0,%xmm1
    movaps %xmm0,%xmm2
    movaps %xmm0,%xmm3
    movaps %xmm0,%xmm4
    movaps %xmm0,%xmm5
    movaps %xmm0,%xmm6
    movaps %xmm0,%xmm7
    movaps %xmm0,%xmm8
    movaps %xmm0,%xmm9
    movaps %xmm0,%xmm10
    movaps %xmm0,%xmm11
    movaps %xmm0,%xmm12
    movaps %xmm0,%xmm13
    movaps %xmm0,%xmm14
    movaps %xmm0,%xmm15
    movq %rax,%rcx
    movq %rax,%rdx
    movq %rax,%r8
    movq %rax,%r9
    testq %r10,%r10
    jz 1f
    pushfq
    orq $0x100,(%rsp)
    popfq
1:  movq %rax,%r10
    callq *%r11
    pushfq
    andq $~0x100,(%rsp)
    popfq
    movq %rbp,%rsp
    popq %rbp
    .cfi_def_cfa %rsp,8
    ret
    .cfi_endproc
.size sim_call,.-sim_call
.globl sim_sigret
.p2align 4
sim_sigret:
    movq $15,%rax
    syscall
.globl sim_sigret_end
sim_sigret_end:
    nop
)");
extern "C" { u64 sim_paintlen, sim_paintpat; }   // the stack a call is about to use: how many bytes to fill, and with what
extern "C" void sim_entry(); extern "C" void sim_call(void (*fn)(void* const*, void*), void* const* a, void* r, u64 pat, u64 tf);
extern "C" char sim_sigret[], sim_sigret_end[];

static u8* stktop(int f, bool small) { return STACKS + (size_t)(f * 2 + (small ? 1 : 0) + 1) * STKSTRIDE - 4096; }
static size_t stksz(bool small) { return small ? SMALLSTK : STK; }
static void prep(Fiber& F, int f, bool small, void (*fn)(void*), void* arg, u8 paint, u32 mxcsr)
{
    u8* top = stktop(f, small);
    size_t n = f == REF ? 24 << 10 : (INSTR ? 96 << 10 : 48 << 10); if (n > stksz(small)) n = stksz(small);
    memset(top - n, paint, n);
    u64* sp = (u64*)(top - 64 - STKOFF);
    *--sp = (u64)&sim_entry;
    *--sp = 0; *--sp = 0; *--sp = (u64)arg; *--sp = (u64)fn; *--sp = 0; *--sp = 0;   // rbp rbx r12 r13 r14 r15
    sp -= 2; *(u32*)sp = mxcsr; ((uint16_t*)sp)[2] = (uint16_t)(0x37f | (((mxcsr >> 13) & 3) << 10));
    F.sp = sp; F.state = F_READY; F.blocked = nullptr; F.cur = nullptr; F.err = 0; F.eh[0] = F.eh[1] = 0; F.opi = 0;
    if (TLSN) memcpy(F.tls, TLSPRIST.data(), TLSN);
}
static void out_state(Fiber& F) { if (TLSN) memcpy(F.tls, TLSP, TLSN); F.err = errno; memcpy(F.eh, abi::__cxa_get_globals(), 16); }
static void in_state(Fiber& F) { if (TLSN) memcpy(TLSP, F.tls, TLSN); memcpy(abi::__cxa_get_globals(), F.eh, 16); errno = F.err; }
static void go(int from, int to) // host mode only
{
    if (from >= 0) out_state(FIB[from]);
    curf = to;
    if (to >= 0) in_state(FIB[to]);
    sim_swap(from >= 0 ? &FIB[from].sp : &MAINSP, to >= 0 ? FIB[to].sp : MAINSP);
    if (from >= 0 && curf == from) {} // resumed
}
static int pick_next(int from) { for (int i = 1; i <= NF; i++) { int f = (from + i) % NF; if (FIB[f].state == F_READY) return f; } return -1; }

// ------------------------------------------------------------------------------- run state
struct Viol { std::string kind, op, detail; int fiber = -1, opi = -1; };
static const Plan* P; static bool g_have_viol; static Viol g_viol; static bool g_ended;
static bool g_rec; static Rng g_prng; static Plan* RP;          // record mode: plan being extended
static struct { double sw, wb, hnd, stall, aband, kill; int maxh; int maxstall; int maxdepth; bool slow; } POL;   // slow: only the first thread is ever switched away from inside a call
static double rate(int fiber) { return POL.slow && fiber != 0 ? 0 : POL.sw + POL.hnd + POL.stall + POL.aband + POL.kill; }
static std::unordered_map<u64, std::vector<Dec>> DECS; static const std::vector<Dec> NODECS;
static std::function<bool(OpInst&)> g_gen_handler;
static void violation(const std::string& kind, const OpInst* in, int fiber, int opi, const std::string& detail)
{
    if (g_have_viol) return;
    g_have_viol = true; g_viol.kind = kind; g_viol.op = in && in->d ? in->d->name : ""; g_viol.detail = detail; g_viol.fiber = fiber; g_viol.opi = opi;
    logev("violation %s op=%s fiber=%d index=%d", kind.c_str(), g_viol.op.c_str(), fiber, opi);
}
static void end_run() { g_ended = true; int f = curf; curf = -1; sim_swap(&FIB[f].sp, MAINSP); __builtin_trap(); }

static void switch_to(int to)
{
    int from = curf; ST.switches++;
    g_schedhash = fnv64(fnv64(g_schedhash, from * 16 + to), FIB[from].cur ? FIB[from].cur->id * 1000003 + FIB[from].cur->h : 0);
    logev("switch %d->%d at step %llu", from, to, (unsigned long long)g_steps);
    go(from, to);
}
// the running fiber cannot continue: give up the processor
static void block_here(const void* what)
{
    Frame* f = FIB[curf].cur;
    FIB[curf].state = F_BLOCKED; FIB[curf].blocked = what;
    int n = pick_next(curf);
    if (n < 0) {
        ST.deadlocks++;
        FIB[curf].state = F_READY;
        if (curf == REF) { if (f) { f->outcome = O_DEAD; cur = nullptr; longjmp(f->jb, 1); } }
        if (f) { violation("blocked for ever", f->inst, curf, f->opi, "the call waits on something no runnable thread will release"); }
        end_run();
    }
    if (curf == REF) { FIB[curf].state = F_READY; if (f) { f->outcome = O_DEAD; longjmp(f->jb, 1); } }
    switch_to(n);
}
static void wake(const void* what) { for (int i = 0; i < NF; i++) if (FIB[i].state == F_BLOCKED && FIB[i].blocked == what) { FIB[i].state = F_READY; FIB[i].blocked = nullptr; } }
static void yield_here() { if (curf < 0 || curf == REF) return; int n = pick_next(curf); if (n >= 0 && n != curf) { ST.forced++; switch_to(n); } }

static void run_handler(Frame* f, int n);
static void act(Frame* f, int a, int arg)
{
    switch (a) {
    case A_SWITCH: if (arg >= 0 && arg < NF && arg != curf && FIB[arg].state == F_READY) switch_to(arg); break;
    case A_STALL: {
        FIB[curf].state = F_STALLED; ST.stalls++;
        logev("stall fiber %d in frame %llu at hook %llu", curf, (unsigned long long)f->id, (unsigned long long)f->h);
        int n = pick_next(curf); if (n < 0) end_run(); switch_to(n); break; }
    case A_ABANDON: case A_KILL:
        if (f->handler) break;
        if (a == A_KILL) ST.kills++; else ST.abandons++;
        logev("%s fiber %d in frame %llu at hook %llu", ANAME[a], curf, (unsigned long long)f->id, (unsigned long long)f->h);
        f->outcome = O_ABANDONED; f->info = a; cur = nullptr; FIB[curf].cur = nullptr; longjmp(f->jb, 1);
    case A_HANDLER: run_handler(f, arg); break;
    }
}
static void arm(Frame* f)
{
    u64 n = f->bound < f->fairnext ? f->bound : f->fairnext;
    if (g_rec) { if (f->recnext < n) n = f->recnext; }
    else if (f->cursor < f->decs->size() && (*f->decs)[f->cursor].hook < n) n = (*f->decs)[f->cursor].hook;
    f->next = n;
}
static void decide(Frame* f, bool watched)
{
    double sw = POL.sw, tot = POL.sw + POL.hnd + POL.stall + POL.aband + POL.kill;
    int a = A_SWITCH, arg = -1;
    if (watched) { tot = sw = 1; if (POL.hnd > 0 && POL.sw <= 0) { sw = 0; tot = POL.hnd; } if (POL.stall + POL.aband + POL.kill > 0 && g_prng.p(.3)) { sw = 0; tot = POL.stall + POL.aband + POL.kill; if (POL.hnd > 0) tot += POL.hnd; } }
    double u = g_prng.u() * tot;
    if ((u -= sw) < 0) { int r[NF], n = 0; for (int i = 0; i < NF; i++) if (i != curf && FIB[i].state == F_READY) r[n++] = i; if (!n) return; arg = r[g_prng.below(n)]; }
    else if ((u -= POL.hnd) < 0) {
        if (f->depth >= POL.maxdepth || (int)RP->handlers.size() >= POL.maxh) return;
        OpInst in; if (!g_gen_handler(in)) return;
        a = A_HANDLER; arg = (int)RP->handlers.size(); RP->handlers.push_back(in);
    }
    else {
        if (POL.maxstall <= 0 || f->handler) return; POL.maxstall--;
        if ((u -= POL.stall) < 0) a = A_STALL; else if ((u -= POL.aband) < 0) a = A_ABANDON; else a = A_KILL;
    }
    RP->decs.push_back({f->id, f->h, a, arg});
    act(f, a, arg);
}
static void __attribute__((noinline)) slow(Frame* f, int kind, uintptr_t addr, unsigned size)
{
    u8 sel = SEL; SEL = 0; cur = nullptr; FIB[curf].cur = f;
    if (f->h >= f->bound || g_steps >= g_bound) {
        if (curf == REF) { f->outcome = O_HANG; longjmp(f->jb, 1); }
        violation("no progress", f->inst, curf, f->opi, "the call took " + std::to_string(f->h) + " of its own steps without completing"); end_run();
    }
    if (f->h >= f->fairnext) { f->fairnext = f->h + 150; yield_here(); }
    if (g_rec && curf != REF) {
        if (f->h >= f->recnext) { decide(f, false); f->recnext = f->h + g_prng.geo(rate(f->fiber)); }
        else if (kind >= 2 && g_watch && !(POL.slow && f->fiber) && g_prng.p(POL.wb)) { ST.watchpre++; decide(f, true); }
    } else if (curf != REF) {
        while (f->cursor < f->decs->size() && (*f->decs)[f->cursor].hook <= f->h) { const Dec& d = (*f->decs)[f->cursor++]; if (d.hook == f->h) act(f, d.act, d.arg); }
    }
    arm(f);
    FIB[curf].cur = f; cur = f; SEL = sel;
}
// kind: 1 read 2 write 3 atomic 4 other
static void __attribute__((noinline)) toolong(Frame* f)
{
    SEL = 0; cur = nullptr; FIB[curf < 0 ? REF : curf].cur = f;
    if (curf == REF || curf < 0) { f->outcome = O_HANG; longjmp(f->jb, 1); }
    violation("no progress", f->inst, curf, f->opi, "the call entered " + std::to_string(f->pc) + " basic blocks without completing"); end_run();
}
static inline void hook(int kind, uintptr_t addr, unsigned size)
{
    Frame* f = cur; if (!f) return;
    f->h++; g_steps++;
    if (g_sweep) {
        if (inmod(addr)) g_flags |= kind == 1 ? S_RGLOB : S_WGLOB; else if (intls(addr)) g_flags |= S_TLS; else if (inarena(addr)) g_flags |= S_MALLOC;
        if (kind == 3) g_flags |= S_ATOMIC;
    }
    if (f->h >= f->next) { slow(f, 0, addr, size); return; }
    if (g_watch && curf != REF && (kind == 3 || (kind == 2 && (inmod(addr) || intls(addr) || inarena(addr) || insh(addr))))) slow(f, kind, addr, size);
}
#define EXP extern "C" __attribute__((visibility("default")))
#define TS(n, sz) \
    EXP void __tsan_read##n(void* a) { hook(1, (uintptr_t)a, sz); } \
    EXP void __tsan_write##n(void* a) { hook(2, (uintptr_t)a, sz); } \
    EXP void __tsan_unaligned_read##n(void* a) { hook(1, (uintptr_t)a, sz); } \
    EXP void __tsan_unaligned_write##n(void* a) { hook(2, (uintptr_t)a, sz); } \
    EXP void __tsan_volatile_read##n(void* a) { hook(1, (uintptr_t)a, sz); } \
    EXP void __tsan_volatile_write##n(void* a) { hook(2, (uintptr_t)a, sz); }
TS(1, 1) TS(2, 2) TS(4, 4) TS(8, 8) TS(16, 16)
EXP void __tsan_read_range(void* a, u64 n) { hook(1, (uintptr_t)a, n); }
EXP void __tsan_write_range(void* a, u64 n) { hook(2, (uintptr_t)a, n); }
EXP void __tsan_vptr_update(void** a, void*) { hook(2, (uintptr_t)a, 8); }
EXP void __tsan_vptr_read(void** a) { hook(1, (uintptr_t)a, 8); }
EXP void __tsan_init() {}
static u8 g_repaint; static bool g_dorepaint;
EXP void __tsan_func_entry(void*)
{
    if (g_dorepaint && cur) { // fresh garbage where the callee's callees will put their locals
        u8* sp = (u8*)__builtin_frame_address(0); u8* lo = sp - 3072; u8* base = stktop(curf, false) - STK; if (lo < base + 4096) lo = base + 4096;
        if (lo < sp - 512) { volatile u8* q = lo; u64 pat = 0x0101010101010101ull * g_repaint; for (; q + 8 <= sp - 512; q += 8) *(volatile u64*)q = pat; }
    }
    hook(4, 0, 0);
}
EXP void __tsan_func_exit() { hook(4, 0, 0); }
typedef unsigned __int128 u128;
#define TA(B, T) \
    EXP T __tsan_atomic##B##_load(const volatile T* a, int) { hook(3, (uintptr_t)a, B / 8); return *a; } \
    EXP void __tsan_atomic##B##_store(volatile T* a, T v, int) { hook(3, (uintptr_t)a, B / 8); *a = v; } \
    EXP T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { hook(3, (uintptr_t)a, B / 8); T o = *a; *a = v; return o; } \
    EXP T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { hook(3, (uintptr_t)a, B / 8); T o = *a; *a = o + v; return o; } \
    EXP T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { hook(3, (uintptr_t)a, B / 8); T o = *a; *a = o - v; return o; } \
    EXP T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { hook(3, (uintptr_t)a, B / 8); T o = *a; *a = o & v; return o; } \
    EXP T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { hook(3, (uintptr_t)a, B / 8); T o = *a; *a = o | v; return o; } \
    EXP T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { hook(3, (uintptr_t)a, B / 8); T o = *a; *a = o ^ v; return o; } \
    EXP T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int) { hook(3, (uintptr_t)a, B / 8); T o = *a; *a = ~(o & v); return o; } \
    EXP int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { hook(3, (uintptr_t)a, B / 8); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    EXP int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { hook(3, (uintptr_t)a, B / 8); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    EXP T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int, int) { hook(3, (uintptr_t)a, B / 8); T o = *a; if (o == c) *a = v; return o; }
TA(8, u8) TA(16, uint16_t) TA(32, u32) TA(64, u64) TA(128, u128)
EXP void __tsan_atomic_thread_fence(int) { hook(3, 0, 0); }
EXP void __tsan_atomic_signal_fence(int) {}
// copies made by the library are not atomic: a scheduling point per 4 bytes
EXP void* sim_memmove(void* d, const void* s, size_t n)
{
    if (!cur || n <= 4) { if (cur) { hook(1, (uintptr_t)s, n); hook(2, (uintptr_t)d, n); } return memmove(d, s, n); }
    u8* D = (u8*)d; const u8* S = (const u8*)s;
    if (D <= S || D >= S + n) for (size_t i = 0; i < n; i += 4) { size_t k = n - i < 4 ? n - i : 4; if (i < 256) { hook(1, (uintptr_t)(S + i), k); hook(2, (uintptr_t)(D + i), k); } memmove(D + i, S + i, k); }
    else { hook(2, (uintptr_t)d, n); memmove(d, s, n); }
    return d;
}
EXP void* sim_memcpy(void* d, const void* s, size_t n) { return sim_memmove(d, s, n); }
EXP void* sim_memset(void* d, int c, size_t n)
{
    u8* D = (u8*)d;
    for (size_t i = 0; i < n; i += 4) { size_t k = n - i < 4 ? n - i : 4; if (cur && i < 256) hook(2, (uintptr_t)(D + i), k); memset(D + i, c, k); }
    return d;
}

// ------------------------------------------------------------------------------- simulated services
#define H Host host_guard_
static void seen(u32 f) { if (g_sweep) g_flags |= f; }
static void point(Frame* f) { if (f && f->step == false && curf >= 0) { f->h++; g_steps++; if (f->h >= f->next) slow(f, 0, 0, 0); else if (g_watch && curf != REF) slow(f, 3, 0, 0); } } // called with cur==f
static bool memfails() { u64 i = SOFT.nmem++; if (i >= FLT.mem_from && i < FLT.mem_to) { ST.memfail++; return true; } ST.memok++; return false; }
static bool sysfails() { u64 i = SOFT.nsys++; if (i >= FLT.sys_from && i < FLT.sys_to) { ST.sysfail++; return true; } return false; }
static int whose() { Frame* f = curf >= 0 ? FIB[curf].cur : nullptr; return f && f->inst ? f->inst->opid : -1; }
static void take(int k) { SOFT.held[k]++; SOFT.holder[k] = whose(); ST.taken++; }
static void maps(size_t n) { take(R_MAP); SOFT.held[R_MAP] += (i64)((n + 4095) / 4096) - 1; }   // counted in pages
static void give(int k) { SOFT.held[k]--; }
static void* amalloc(size_t n, size_t al)
{
    seen(S_MALLOC);
    if (n > ARENA_N / 4 || memfails()) { errno = ENOMEM; return nullptr; }
    if (al < 16) al = 16;
    size_t p = (SOFT.brk + 16 + al - 1) / al * al;
    if (p + n > ARENA_N) { errno = ENOMEM; return nullptr; }
    SOFT.brk = p + n; ((u64*)(arena + p))[-1] = n; memset(arena + p, FLT.heapfill, n);
    take(R_MEM); SOFT.held[R_BYTES] += n; SOFT.holder[R_BYTES] = SOFT.holder[R_MEM]; if (SOFT.nblock < 24) SOFT.block[SOFT.nblock++] = {arena + p, SOFT.holder[R_MEM]};
    return arena + p;
}
// the allocator itself is not re-entrant: in L04 and L05 it holds a lock while it works, and can be interrupted, stalled or left there
static int lockit(const void* a, bool rec, bool tryit); static int unlockit(const void* a);
static bool g_heaplock; static const char HEAPLOCK = 0;
struct Heap { bool on; Heap() : on(g_heaplock && cur && curf >= 0 && curf != REF) { if (on) { lockit(&HEAPLOCK, false, false); Frame* f = cur; point(f); } } ~Heap() { if (on) unlockit(&HEAPLOCK); } };
#define HH Heap heap_guard_; H
EXP void* sim_malloc(size_t n) { HH; return amalloc(n, 16); }
EXP void* sim_calloc(size_t a, size_t b) { HH; void* p = amalloc(a * b, 16); if (p) memset(p, 0, a * b); return p; }
static void afree(void* p) { if (!p || !inarena((uintptr_t)p)) return; memset(p, 0xDD, ((u64*)p)[-1]); give(R_MEM); SOFT.held[R_BYTES] -= ((u64*)p)[-1]; for (int i = 0; i < SOFT.nblock; i++) if (SOFT.block[i].p == p) { SOFT.block[i] = SOFT.block[--SOFT.nblock]; break; } }
EXP void sim_free(void* p) { HH; afree(p); }
EXP void* sim_realloc(void* o, size_t n) { HH; void* p = amalloc(n, 16); if (p && o) { u64 k = ((u64*)o)[-1]; memcpy(p, o, k < n ? k : n); afree(o); } return p; }
EXP int sim_posix_memalign(void** r, size_t al, size_t n) { HH; void* p = amalloc(n, al); if (!p) return ENOMEM; *r = p; return 0; }
EXP void* sim_aligned_alloc(size_t al, size_t n) { HH; return amalloc(n, al); }
EXP void* sim_memalign(size_t al, size_t n) { HH; return amalloc(n, al); }
EXP char* sim_strdup(const char* s) { HH; char* p = (char*)amalloc(strlen(s) + 1, 16); if (p) strcpy(p, s); return p; }
static void* anew(size_t n, size_t al) { void* p; { HH; p = amalloc(n, al); } if (!p) throw std::bad_alloc(); return p; }
EXP void* sim__Znwm(size_t n) { return anew(n, 16); }
EXP void* sim__Znam(size_t n) { return anew(n, 16); }
EXP void* sim__ZnwmSt11align_val_t(size_t n, size_t al) { return anew(n, al); }
EXP void* sim__ZnamSt11align_val_t(size_t n, size_t al) { return anew(n, al); }
EXP void* sim__ZnwmRKSt9nothrow_t(size_t n, const void*) { HH; return amalloc(n, 16); }
EXP void* sim__ZnamRKSt9nothrow_t(size_t n, const void*) { HH; return amalloc(n, 16); }
#define DEL(x, ...) EXP void sim_##x(void* p, ##__VA_ARGS__) { sim_free(p); }
DEL(_ZdlPv) DEL(_ZdaPv) DEL(_ZdlPvm, size_t) DEL(_ZdaPvm, size_t) DEL(_ZdlPvRKSt9nothrow_t, const void*) DEL(_ZdaPvRKSt9nothrow_t, const void*)
DEL(_ZdlPvSt11align_val_t, size_t) DEL(_ZdaPvSt11align_val_t, size_t) DEL(_ZdlPvmSt11align_val_t, size_t, size_t) DEL(_ZdaPvmSt11align_val_t, size_t, size_t)

// the C library's and libstdc++'s own requests on behalf of a call are served (and refused) in the same way
extern "C" void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void*, size_t), __libc_free(void*), *__libc_memalign(size_t, size_t);
static bool g_route; // only in runs where nothing is abandoned half way
#define ROUTE(x) if (cur) { if (g_sweep) g_flags |= S_MALLOC; if (g_route) { x; } }
EXP void* malloc(size_t n) { ROUTE(return sim_malloc(n)) return __libc_malloc(n); }
EXP void* calloc(size_t a, size_t b) { ROUTE(return sim_calloc(a, b)) return __libc_calloc(a, b); }
EXP void free(void* p) { if (p && inarena((uintptr_t)p)) sim_free(p); else __libc_free(p); }
EXP void* realloc(void* o, size_t n)
{
    if (o && inarena((uintptr_t)o)) { if (cur) return sim_realloc(o, n); void* p = __libc_malloc(n); u64 k = ((u64*)o)[-1]; if (p) { memcpy(p, o, k < n ? k : n); afree(o); } return p; }
    if (!o) return malloc(n);
    return __libc_realloc(o, n);
}
EXP void* memalign(size_t al, size_t n) { ROUTE(return sim_memalign(al, n)) return __libc_memalign(al, n); }
EXP void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
EXP int posix_memalign(void** r, size_t al, size_t n) { void* p = memalign(al, n); if (!p) return ENOMEM; *r = p; return 0; }

// locks: simulated, visible to the scheduler
static SyncEnt* ent(const void* a) { for (int i = 0; i < SOFT.nsync; i++) if (SOFT.sync[i].a == a) return &SOFT.sync[i]; if (SOFT.nsync == 32) SOFT.nsync = 0; SOFT.sync[SOFT.nsync] = {a, -1, 0}; return &SOFT.sync[SOFT.nsync++]; }
static int lockit(const void* a, bool rec, bool tryit)
{
    { Frame* f = cur; point(f); }
    H; seen(S_LOCK); int me = curf; FIB[me < 0 ? 0 : me].cur = host_guard_.f;
    for (;;) {
        SyncEnt* e = ent(a);
        if (e->owner == -1) { e->owner = me; e->count = 1; take(R_LOCK); return 0; }
        if (e->owner == me && rec) { e->count++; return 0; }
        if (tryit) return EBUSY;
        if (me < 0) return EDEADLK;
        block_here(a);
    }
}
static int unlockit(const void* a) { { H; SyncEnt* e = ent(a); if (e->owner != -1 && --e->count <= 0) { e->owner = -1; give(R_LOCK); wake(a); } } Frame* f = cur; point(f); return 0; }
static bool isrec(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
EXP int sim_pthread_mutex_lock(pthread_mutex_t* m) { return lockit(m, isrec(m), false); }
EXP int sim_pthread_mutex_trylock(pthread_mutex_t* m) { return lockit(m, isrec(m), true); }
EXP int sim_pthread_mutex_unlock(pthread_mutex_t* m) { return unlockit(m); }
EXP int sim_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { H; return pthread_mutex_init(m, a); }
EXP int sim_pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
EXP int sim_pthread_rwlock_rdlock(void* m) { return lockit(m, true, false); }   // one holder at a time: a legal, stricter lock
EXP int sim_pthread_rwlock_wrlock(void* m) { return lockit(m, false, false); }
EXP int sim_pthread_rwlock_tryrdlock(void* m) { return lockit(m, true, true); }
EXP int sim_pthread_rwlock_trywrlock(void* m) { return lockit(m, false, true); }
EXP int sim_pthread_rwlock_unlock(void* m) { return unlockit(m); }
EXP int sim_pthread_rwlock_init(void*, const void*) { return 0; }
EXP int sim_pthread_rwlock_destroy(void*) { return 0; }
EXP int sim_pthread_spin_init(volatile int* m, int) { *m = 0; return 0; }
EXP int sim_pthread_spin_lock(volatile int* m) { return lockit((void*)m, false, false); }
EXP int sim_pthread_spin_trylock(volatile int* m) { return lockit((void*)m, false, true); }
EXP int sim_pthread_spin_unlock(volatile int* m) { return unlockit((void*)m); }
EXP int sim_pthread_spin_destroy(volatile int*) { return 0; }
EXP int sim_pthread_cond_wait(void* c, pthread_mutex_t* m) { unlockit(m); { H; if (curf >= 0) { FIB[curf].cur = host_guard_.f; block_here(c); } } return lockit(m, isrec(m), false); }
EXP int sim_pthread_cond_signal(void* c) { H; wake(c); return 0; }
EXP int sim_pthread_cond_broadcast(void* c) { H; wake(c); return 0; }
EXP void sim__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void* c, void** lk) { sim_pthread_cond_wait(c, (pthread_mutex_t*)*lk); }
// state word: 0 untouched, 1 done (as the ABI requires in the first byte); in progress is kept in the lock table
EXP int sim___cxa_guard_acquire(u64* g)
{
    if (*(volatile u8*)g) return 0;
    { Frame* f = cur; seen(S_GUARD); point(f); }
    H; int me = curf; if (me >= 0) FIB[me].cur = host_guard_.f;
    for (;;) {
        if (*(volatile u8*)g) return 0;
        SyncEnt* e = ent(g);
        if (e->owner == -1) { e->owner = me < 0 ? 99 : me; e->count = 1; return 1; }
        if (me < 0) return 1;
        block_here(g);
    }
}
EXP void sim___cxa_guard_release(u64* g) { { H; *(volatile u8*)g = 1; SyncEnt* e = ent(g); e->owner = -1; wake(g); } Frame* f = cur; point(f); }
EXP void sim___cxa_guard_abort(u64* g) { H; SyncEnt* e = ent(g); e->owner = -1; wake(g); }
EXP int sim_pthread_once(int* o, void (*f)()) { if (*(volatile int*)o == 2) return 0; { Frame* fr = cur; seen(S_GUARD); point(fr); } bool mine = false; { H; int me = curf; if (me >= 0) FIB[me].cur = host_guard_.f; for (;;) { if (*(volatile int*)o == 2) break; SyncEnt* e = ent(o); if (e->owner == -1) { e->owner = me < 0 ? 99 : me; mine = true; break; } if (me < 0) { mine = true; break; } block_here(o); } } if (mine) { f(); H; *(volatile int*)o = 2; ent(o)->owner = -1; wake(o); } return 0; }
// identities of threads as real ones have them: distinct, 64-byte aligned, page or stack sized distances, or arbitrary
EXP pthread_t sim_pthread_self()
{
    u64 m = RP ? (u64)RP->get("tid", 0) : 0; if (mon(MC_IDS)) m = mach(MC_IDS, 0, 9); u64 f = (u64)(curf + 2);
    switch (m & 3) { case 0: return 0x7f0000001740 + f * 64; case 1: return 0x7f0000001740 + f * 0x801000; case 2: return 0x7f0000000000 + f * 0x1000; default: return 0x7f0000000000 + ((mix(m) >> 40) + f * 0x1000000 + (mix(m + f) >> 46)) * 64; }
}
EXP int sim_pthread_create(void*, const void*, void*, void*) { H; seen(S_SYSCALL); SOFT.nsys++; return EAGAIN; }
EXP int sim_pthread_key_create(unsigned* k, void (*dt)(void*)) { H; seen(S_TLS); if (sysfails()) return EAGAIN; if (SOFT.nkeys >= 16) return EAGAIN; SOFT.keydtor[SOFT.nkeys] = dt; *k = SOFT.nkeys++; take(R_KEY); return 0; }
EXP int sim_pthread_key_delete(unsigned) { H; give(R_KEY); return 0; }
EXP void* sim_pthread_getspecific(unsigned k) { H; seen(S_TLS); return k < 16 ? SOFT.keys[curf + 1][k] : nullptr; }
EXP int sim_pthread_setspecific(unsigned k, const void* v) { H; seen(S_TLS); if ((int)k >= SOFT.nkeys) return EINVAL; if (memfails()) return ENOMEM; SOFT.keys[curf + 1][k] = (void*)v; return 0; }
EXP int sim_pthread_sigmask(int, const void*, void*) { H; seen(S_AMB); SOFT.amb.altered |= 8; return 0; }
EXP int sim_sigprocmask(int, const void*, void*) { H; seen(S_AMB); SOFT.amb.altered |= 8; return 0; }
EXP void* sim_signal(int, void*) { H; seen(S_AMB); SOFT.amb.altered |= 8; return nullptr; }
EXP int sim_sigaction(int, const void*, void*) { H; seen(S_AMB); SOFT.amb.altered |= 8; return 0; }
EXP unsigned sim_alarm(unsigned n) { H; seen(S_AMB); SOFT.amb.altered |= 16; if (n) take(R_TIMER); else SOFT.held[R_TIMER] = 0; return 0; }
EXP int sim_setitimer(int, const void*, void*) { H; seen(S_AMB); SOFT.amb.altered |= 16; return 0; }
static void leave(int o, int info) { SEL = 0; Frame* f = cur; cur = nullptr; if (!f) { if (getenv("SIM_DEBUG")) fprintf(stderr, "target left outside a call\n"); _exit(9); } if (f->step) Host::tf(false); f->outcome = o; f->info = info; FIB[curf].cur = nullptr; longjmp(f->jb, 1); }
EXP int sim_raise(int s) { leave(O_ABORT, s); return 0; }
EXP void sim___assert_fail(const char*, const char*, unsigned line, const char*) { leave(O_ASSERT, 0); (void)line; __builtin_unreachable(); }
EXP void sim_abort() { leave(O_ABORT, 6); __builtin_unreachable(); }
EXP void sim__ZSt9terminatev() { leave(O_ABORT, 6); __builtin_unreachable(); }
EXP void sim_exit(int c) { leave(O_EXIT, c); __builtin_unreachable(); }
EXP void sim__exit(int c) { leave(O_EXIT, c); __builtin_unreachable(); }
EXP void sim__Exit(int c) { leave(O_EXIT, c); __builtin_unreachable(); }
EXP void sim_quick_exit(int c) { leave(O_EXIT, c); __builtin_unreachable(); }
EXP int sim___cxa_atexit(void (*f)(void*), void* arg, void*) { H; if (SOFT.nae < 64) SOFT.ae[SOFT.nae++] = {f, arg, cur_ctor_unit}; if (cur_ctor_unit == 1000) take(R_EXIT); return 0; }
EXP int sim_atexit(void (*f)()) { H; if (SOFT.nae < 64) SOFT.ae[SOFT.nae++] = {(void (*)(void*))f, nullptr, cur_ctor_unit}; if (cur_ctor_unit == 1000) take(R_EXIT); return 0; }
EXP int sim___cxa_thread_atexit(void (*f)(void*), void* a, void*) { H; int t = curf + 1; if (SOFT.ntex[t] < 16) SOFT.tex[t][SOFT.ntex[t]++] = {f, a}; return 0; }
// ambient state of the caller
static u64 amb_rand() { SOFT.amb.altered |= 1; seen(S_AMB); SOFT.amb.rnd = SOFT.amb.rnd * 6364136223846793005ull + 1442695040888963407ull; return SOFT.amb.rnd >> 33; }
EXP int sim_rand() { H; return (int)(amb_rand() & 0x7fffffff); }
EXP void sim_srand(unsigned s) { H; seen(S_AMB); SOFT.amb.altered |= 1; SOFT.amb.rnd = s; }
EXP long sim_random() { return sim_rand(); }
EXP void sim_srandom(unsigned s) { sim_srand(s); }
EXP double sim_drand48() { return sim_rand() / 2147483648.0; }
EXP double sim_erand48(unsigned short*) { return sim_rand() / 2147483648.0; }
EXP long sim_lrand48() { return sim_rand(); }
EXP long sim_mrand48() { return sim_rand(); }
EXP void sim_srand48(long s) { sim_srand((unsigned)s); }
static u64 amb_nd() { seen(S_AMB | S_SYSCALL); SOFT.amb.consulted |= 1; return mix(SOFT.amb.clock * 31 + SOFT.amb.rnd + 7); }
EXP unsigned sim__ZNSt13random_device9_M_getvalEv(void*) { H; return (unsigned)amb_nd(); }
EXP unsigned sim_arc4random() { H; return (unsigned)amb_nd(); }
EXP long sim_getrandom(void* p, size_t n, unsigned) { H; if (sysfails()) { errno = ENOSYS; return -1; } u64 v = amb_nd(); for (size_t i = 0; i < n; i++) ((u8*)p)[i] = (u8)(v >> (8 * (i & 7))); return (long)n; }
EXP int sim_getentropy(void* p, size_t n) { return sim_getrandom(p, n, 0) < 0 ? -1 : 0; }
static u64 amb_clock() { seen(S_AMB); SOFT.amb.consulted |= 2; return SOFT.amb.clock; }
EXP time_t sim_time(time_t* t) { H; if (sysfails()) { errno = EFAULT; return -1; } time_t v = (time_t)(amb_clock() / 1000000000ull); if (t) *t = v; return v; }
EXP clock_t sim_clock() { H; if (sysfails()) return (clock_t)-1; return (clock_t)(amb_clock() / 1000); }
EXP int sim_gettimeofday(timeval* tv, void*) { H; if (sysfails()) { errno = EFAULT; return -1; } u64 c = amb_clock(); tv->tv_sec = c / 1000000000ull; tv->tv_usec = c % 1000000000ull / 1000; return 0; }
EXP int sim_clock_gettime(clockid_t, timespec* ts) { H; if (sysfails()) { errno = EINVAL; return -1; } u64 c = amb_clock(); ts->tv_sec = c / 1000000000ull; ts->tv_nsec = c % 1000000000ull; return 0; }
EXP int sim_timespec_get(timespec* ts, int b) { return sim_clock_gettime(0, ts) ? 0 : b; }
EXP i64 sim__ZNSt6chrono3_V212system_clock3nowEv() { H; return (i64)amb_clock(); }
EXP i64 sim__ZNSt6chrono3_V212steady_clock3nowEv() { H; return (i64)amb_clock(); }
static char envval[24] = "1";
EXP char* sim_getenv(const char*) { H; seen(S_AMB); SOFT.amb.consulted |= 4; if (sysfails()) return nullptr; return SOFT.amb.env ? envval : nullptr; }
EXP char* sim_secure_getenv(const char* n) { return sim_getenv(n); }
EXP int sim_setenv(const char*, const char*, int) { H; seen(S_AMB); SOFT.amb.altered |= 2; return 0; }
EXP int sim_unsetenv(const char*) { H; seen(S_AMB); SOFT.amb.altered |= 2; return 0; }
EXP int sim_putenv(char*) { H; seen(S_AMB); SOFT.amb.altered |= 2; return 0; }
EXP int sim_clearenv() { H; seen(S_AMB); SOFT.amb.altered |= 2; return 0; }
static char locC[] = "C", locX[] = "xx_XX"; static char dot[] = ".", comma[] = ",", emptys[] = "";
EXP char* sim_setlocale(int, const char* l) { H; seen(S_AMB); if (l) SOFT.amb.altered |= 4; else SOFT.amb.consulted |= 8; if (l && *l) SOFT.amb.loc = strcmp(l, "C") && strcmp(l, "POSIX"); return SOFT.amb.loc ? locX : locC; }
EXP lconv* sim_localeconv() { H; seen(S_AMB); SOFT.amb.consulted |= 8; static lconv lc; memset(&lc, 0, sizeof lc); lc.decimal_point = SOFT.amb.loc ? comma : dot; lc.thousands_sep = emptys; lc.grouping = emptys; return &lc; }
EXP void* sim_uselocale(void* l) { H; seen(S_AMB); if (l) SOFT.amb.altered |= 4; return nullptr; }
EXP void* sim_newlocale(int, const char*, void*) { H; seen(S_AMB); errno = ENOMEM; return nullptr; }
static double locparse(const char* s, char** e, bool f)
{
    seen(S_AMB); SOFT.amb.consulted |= 8; char b[256]; size_t n = strlen(s); if (n > 255) n = 255; memcpy(b, s, n); b[n] = 0;
    if (SOFT.amb.loc) for (size_t i = 0; i < n; i++) b[i] = b[i] == '.' ? '\1' : b[i] == ',' ? '.' : b[i];
    char* q; double d = f ? strtof(b, &q) : strtod(b, &q); if (e) *e = (char*)s + (q - b); return d;
}
EXP float sim_strtof(const char* s, char** e) { H; return (float)locparse(s, e, true); }
EXP double sim_strtod(const char* s, char** e) { H; return locparse(s, e, false); }
EXP double sim_atof(const char* s) { H; return locparse(s, nullptr, false); }
EXP int sim_snprintf(char* b, size_t n, const char* f, ...) { H; seen(S_AMB); va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); if (SOFT.amb.loc) for (size_t i = 0; i < n && b[i]; i++) if (b[i] == '.') b[i] = ','; return r; }
EXP int sim_sprintf(char* b, const char* f, ...) { H; seen(S_AMB); va_list ap; va_start(ap, f); int r = vsprintf(b, f, ap); va_end(ap); if (SOFT.amb.loc) for (char* q = b; *q; q++) if (*q == '.') *q = ','; return r; }
static void sim_nap(Frame* f) { seen(S_SYSCALL); if (curf >= 0 && curf != REF) { FIB[curf].cur = f; yield_here(); } }
EXP unsigned sim_sleep(unsigned) { H; sim_nap(host_guard_.f); return 0; }
EXP int sim_usleep(unsigned) { H; sim_nap(host_guard_.f); return 0; }
EXP int sim_nanosleep(const void*, void*) { H; sim_nap(host_guard_.f); return 0; }
EXP int sim_sched_yield() { H; sim_nap(host_guard_.f); return 0; }
EXP int sim_sched_getcpu() { H; seen(S_SYSCALL); if (sysfails()) { errno = ENOSYS; return -1; } return mon(MC_CPUS) ? (int)(mach(MC_CPUS, 0, 1) % 64) : curf + 1; }
static int mpid() { return (int)(mach(MC_IDS, 4242) % 4194000) + (mon(MC_IDS) ? 2 : 0); }
static int mcpus() { static const u8 n[] = {1, 2, 3, 4, 6, 12, 16, 32, 48, 64, 96, 128}; return mon(MC_CPUS) ? n[mach(MC_CPUS, 0) % sizeof n] : 8; }
EXP int sim_getpid() { H; seen(S_SYSCALL); SOFT.amb.consulted |= 16; return mpid(); }
EXP int sim_gettid() { H; seen(S_SYSCALL); SOFT.amb.consulted |= 16; return mpid() + curf; }
EXP int sim_getppid() { H; seen(S_SYSCALL); return mon(MC_IDS) ? (int)(mach(MC_IDS, 0, 1) % 30000) + 1 : 1; }
EXP unsigned sim_getuid() { H; seen(S_SYSCALL); return (unsigned)(mach(MC_IDS, 1000, 2) % 70000); }
EXP unsigned sim_geteuid() { return sim_getuid(); }
EXP unsigned sim_getgid() { return sim_getuid(); }
static void hostname_(char* b, size_t n) { if (mon(MC_NAMES)) snprintf(b, n, "node%u", (unsigned)(mach(MC_NAMES, 0) % 10000)); else snprintf(b, n, "sim"); }
static void uname_(utsname* u) { memset(u, 0, sizeof *u); strcpy(u->sysname, "Linux"); hostname_(u->nodename, 65); snprintf(u->release, 65, mon(MC_NAMES) ? "%u.%u.0" : "6.1.0", (unsigned)(4 + mach(MC_NAMES, 0, 1) % 3), (unsigned)(mach(MC_NAMES, 0, 2) % 20)); snprintf(u->version, 65, "#%u", (unsigned)(mach(MC_NAMES, 1, 3) % 99)); strcpy(u->machine, "x86_64"); }
EXP int sim_gethostname(char* b, size_t n) { H; seen(S_SYSCALL); if (sysfails()) { errno = EFAULT; return -1; } hostname_(b, n); return 0; }
EXP int sim_uname(utsname* u) { H; seen(S_SYSCALL); if (sysfails()) { errno = EFAULT; return -1; } uname_(u); return 0; }
static u64 g_auxrandom[2];
EXP unsigned long sim_getauxval(unsigned long t) { H; seen(S_SYSCALL); if (t == AT_RANDOM) { g_auxrandom[0] = mach(MC_RANDOM, 0x1122334455667788ull, 5); g_auxrandom[1] = mach(MC_RANDOM, 0x99aabbccddeeff00ull, 6); return (unsigned long)g_auxrandom; } if (t == AT_HWCAP || t == AT_HWCAP2) return mon(MC_CPUID) ? mach(MC_CPUID, 0, 7) & 0x178bfbff : 0x178bfbff; if (t == AT_UID || t == AT_EUID) return mach(MC_IDS, 1000, 2) % 70000; if (t == AT_SYSINFO_EHDR || t == AT_PHDR || t == AT_BASE || t == AT_ENTRY || t == AT_EXECFN) return mon(MC_IMAGE) ? (mach(MC_IMAGE, 0, 7) & 0xffffffff000ull) | 0x7f0000000000ull : 0x7f1234567000ull; return getauxval(t); }
// the processor as the simulated machine has it: some of the real one's optional features missing
static void sim_cpuid(u64* g, bool ok)
{
    u32 a = (u32)g[0], b = 0, c = (u32)g[2], d = 0, leaf = a, sub = c; syscall(SYS_arch_prctl, 0x1012, 1);
    asm volatile("cpuid" : "+a"(a), "=b"(b), "+c"(c), "=d"(d)); if (ok) syscall(SYS_arch_prctl, 0x1012, 0);
    if (mon(MC_CPUID)) {
        u64 r = mach(MC_CPUID, 0); bool avx = r & 1, avx2 = avx && r & 2, fma = avx && r & 4, a512 = avx2 && r & 8, s4 = r & 16 || avx, s3 = r & 32 || s4, bmi = r & 64;
        if (leaf == 0 && r & 128) { b = 0x68747541; d = 0x69746e65; c = 0x444d4163; }
        if (leaf == 1) { if (!avx) c &= ~(1u << 28 | 1u << 26 | 1u << 27); if (!fma) c &= ~(1u << 12 | 1u << 29); if (!s4) c &= ~(3u << 19 | 1u << 23); if (!s3) c &= ~(1u | 1u << 9); if (!bmi) c &= ~(1u << 22 | 1u << 30); b = (b & 0xffffff) | (u32)(r >> 8 & 255) << 24; if (r & 256) a = (u32)(r >> 20 & 0xfff) | 0x600; }
        if (leaf == 7 && sub == 0) { if (!avx2) b &= ~(1u << 5); if (!a512) { b &= ~(1u << 16 | 1u << 17 | 1u << 21 | 1u << 26 | 1u << 27 | 1u << 28 | 1u << 30 | 1u << 31); c = d = 0; } if (!bmi) b &= ~(1u << 3 | 1u << 8 | 1u << 18 | 1u << 19); }
    }
    g[0] = a; g[1] = b; g[2] = c; g[3] = d;
}
// every path names the same small simulated file; each access to it can fail
static char SIMFILE[] = "8 4242 0.5 1.25 2 3 17 1 0 64\n8 1 1 1\n";
static int fdopen_() { if (SOFT.nfd >= 16) return -EMFILE; SOFT.fdpos[SOFT.nfd] = 0; take(R_FILE); return 700 + SOFT.nfd++; }
static void fdclose_() { give(R_FILE); if (SOFT.held[R_FILE] <= 0) SOFT.nfd = 0; }
static long fdread(long fd, void* b, size_t n) { fd -= 700; if (fd < 0 || fd >= SOFT.nfd) return -EBADF; size_t k = sizeof SIMFILE - 1 - SOFT.fdpos[fd]; if (n < k) k = n; memcpy(b, SIMFILE + SOFT.fdpos[fd], k); SOFT.fdpos[fd] += k; return (long)k; }
static int vopen() { seen(S_SYSCALL); int r = sysfails() ? -EMFILE : fdopen_(); if (r < 0) { errno = -r; return -1; } return r; }
EXP FILE* sim_fopen(const char*, const char*) { H; seen(S_SYSCALL); if (sysfails()) { errno = EMFILE; return nullptr; } FILE* r = fmemopen((void*)SIMFILE, sizeof SIMFILE - 1, "r"); if (r) take(R_FILE); return r; }
EXP int sim_fclose(FILE* r) { H; seen(S_SYSCALL); give(R_FILE); return fclose(r); }
EXP int sim_open(const char*, int, ...) { H; return vopen(); }
EXP int sim_open64(const char*, int, ...) { H; return vopen(); }
EXP int sim_openat(int, const char*, int, ...) { H; return vopen(); }
EXP long sim_read(int fd, void* b, size_t n) { H; seen(S_SYSCALL); long r = sysfails() ? -EIO : fdread(fd, b, n); if (r < 0) { errno = -r; return -1; } return r; }
EXP int sim_close(int) { H; seen(S_SYSCALL); fdclose_(); if (sysfails()) { errno = EIO; return -1; } return 0; }
EXP long sim_sysconf(int n) { H; seen(S_SYSCALL); if (sysfails()) { errno = EINVAL; return -1; } return n == _SC_PAGESIZE ? 4096 : n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF ? mcpus() : n == _SC_CLK_TCK ? 100 : sysconf(n); }
EXP int sim_get_nprocs() { H; seen(S_SYSCALL); return sysfails() ? 1 : mcpus(); }
EXP unsigned sim__ZNSt6thread20hardware_concurrencyEv() { H; seen(S_SYSCALL); return sysfails() ? 0 : mcpus(); }
EXP void* sim_mmap(void* a, size_t n, int pr, int fl, int fd, long o) { H; seen(S_SYSCALL); if (sysfails() || fd >= 700) { errno = ENOMEM; return MAP_FAILED; } void* r = mmap(a, n, pr, fl, fd, o); if (r != MAP_FAILED) maps(n); return r; }
EXP int sim_munmap(void* a, size_t n) { H; seen(S_SYSCALL); int r = munmap(a, n); if (!r) SOFT.held[R_MAP] -= (n + 4095) / 4096; return r; }
EXP int sim_mprotect(void* a, size_t n, int pr) { H; seen(S_SYSCALL); if (sysfails()) { errno = ENOMEM; return -1; } return mprotect(a, n, pr); }

// ------------------------------------------------------------------------------- signals
struct ksigaction { void (*h)(int, siginfo_t*, void*); unsigned long flags; void (*restorer)(); unsigned long mask; };
static void rawsig(int sig, void (*h)(int, siginfo_t*, void*), int flags) { ksigaction k{h, (unsigned long)flags | 0x04000000, (void (*)())sim_sigret, 0}; syscall(SYS_rt_sigaction, sig, &k, nullptr, 8); }
static u8* ALT;
static const char* where(uintptr_t a)
{
    if (a - (uintptr_t)SLOT_RO < (size_t)NSLOT * 3 * 4096) { size_t o = (a - (uintptr_t)SLOT_RO) % (3 * 4096); return o >= 4096 && o < 8192 ? "a read-only operand" : "memory just outside an operand"; }
    if (a - (uintptr_t)SLOT_RW < (size_t)NSLOT * 3 * 4096) return "memory just outside an operand";
    if (a - (uintptr_t)STACKS < (size_t)(NF + 1) * 2 * STKSTRIDE) return "beyond the end of the thread's stack";
    return "unmapped memory";
}
static char g_crashnote[96];
static bool g_rohit; static u64 g_tickref;
static void on_crash(int sig, siginfo_t* si, void* uc_)
{
    ucontext_t* uc = (ucontext_t*)uc_; u8* ip = (u8*)uc->uc_mcontext.gregs[REG_RIP];
    if (sig == SIGSEGV && si->si_code == SI_KERNEL && ip && (ip[0] == 0x0f && (ip[1] == 0x31 || (ip[1] == 0x01 && ip[2] == 0xf9)))) { // rdtsc(p): simulated
        u64 t = SOFT.amb.clock; seen(S_AMB); SOFT.amb.consulted |= 2;
        uc->uc_mcontext.gregs[REG_RAX] = (u32)t; uc->uc_mcontext.gregs[REG_RDX] = t >> 32; uc->uc_mcontext.gregs[REG_RIP] += ip[1] == 0x31 ? 2 : 3; if (ip[1] == 1) uc->uc_mcontext.gregs[REG_RCX] = 0;
        return;
    }
    if (sig == SIGSEGV && si->si_code == SI_KERNEL && ip && ip[0] == 0x0f && ip[1] == 0xa2 && mon(MC_CPUID)) { // cpuid: simulated
        auto& g = uc->uc_mcontext.gregs; u8 sel = SEL; SEL = 0; u64 x[4] = {(u64)g[REG_RAX], (u64)g[REG_RBX], (u64)g[REG_RCX], (u64)g[REG_RDX]}; sim_cpuid(x, true);
        g[REG_RAX] = x[0]; g[REG_RBX] = x[1]; g[REG_RCX] = x[2]; g[REG_RDX] = x[3]; g[REG_RIP] += 2; SEL = sel; return;
    }
    if (sig == SIGFPE && si->si_code >= FPE_FLTDIV && si->si_code <= FPE_FLTINV) { // a caller who unmasked exceptions: mask them and go on, the call is not judged
        if (curf >= 0) FIB[curf].trapped = true; auto fp = uc->uc_mcontext.fpregs; fp->mxcsr |= 0x1f80; fp->cwd |= 0x3f; fp->swd &= 0x7f00; return;
    }
    u8 osel = SEL; SEL = 0; Frame* f = cur; cur = nullptr;
    if (sig == SIGVTALRM && g_sweep && f && g_tickref != ST.refs) { g_tickref = ST.refs; cur = f; SEL = osel; return; }
    if (!f && sig == SIGVTALRM) { SEL = osel; return; }
    if (!f) { const char m[] = "simulator: fault outside a call\n"; if (write(2, m, sizeof m - 1)) {} signal(sig, SIG_DFL); syscall(SYS_rt_sigaction, sig, nullptr, nullptr, 8); _exit(9); }
    ST.crashes++;
    uintptr_t a = (uintptr_t)si->si_addr;
    g_rohit = sig == SIGSEGV && a - (uintptr_t)SLOT_RO < (size_t)NSLOT * 3 * 4096 && (a - (uintptr_t)SLOT_RO) % (3 * 4096) >= 4096 && (a - (uintptr_t)SLOT_RO) % (3 * 4096) < 8192;
    if (g_rohit) ST.rofaults++;
    snprintf(g_crashnote, sizeof g_crashnote, "signal %d, touching %s", sig, sig == SIGSEGV || sig == SIGBUS ? where(a) : "nothing in particular");
    Host::tf(false);
    f->outcome = sig == SIGVTALRM ? O_HANG : O_CRASH; f->info = sig; FIB[curf].cur = nullptr;
    longjmp(f->jb, 1);
}
static void on_sys(int, siginfo_t* si, void* uc_)
{
    u8 osel = SEL; SEL = 0; Frame* f = cur; cur = nullptr;
    ucontext_t* uc = (ucontext_t*)uc_; auto& g = uc->uc_mcontext.gregs; long nr = si->si_syscall; long r = -ENOSYS;
    seen(S_SYSCALL); ST.syscalls++; SYSNR[(int)nr]++; if (curf >= 0) FIB[curf].cur = f;
    if (sysfails()) r = -ENOMEM;
    else switch (nr) {
    case SYS_futex: case SYS_sched_yield: case SYS_nanosleep: case SYS_clock_nanosleep: if (curf >= 0 && curf != REF) yield_here(); r = 0; break;
    case SYS_write: r = g[REG_RDX]; break;
    case SYS_open: case SYS_openat: r = fdopen_(); break;
    case SYS_read: r = fdread(g[REG_RDI], (void*)g[REG_RSI], g[REG_RDX]); break;
    case SYS_close: fdclose_(); r = 0; break;
    case SYS_sched_getaffinity: if (g[REG_RSI] >= 8) { memset((void*)g[REG_RDX], 0, g[REG_RSI]); for (int k = 0; k < mcpus() && k < 8 * g[REG_RSI]; k++) ((u8*)g[REG_RDX])[k / 8] |= 1 << (k & 7); r = g[REG_RSI] < 16 ? 8 : 16; } break;
    case SYS_uname: uname_((utsname*)g[REG_RDI]); r = 0; break;
    case SYS_getppid: r = mon(MC_IDS) ? (long)(mach(MC_IDS, 0, 1) % 30000) + 1 : 1; break;
    case SYS_getuid: case SYS_geteuid: case SYS_getgid: case SYS_getegid: r = (long)(mach(MC_IDS, 1000, 2) % 70000); break;
    case SYS_getcpu: if (g[REG_RDI]) *(unsigned*)g[REG_RDI] = mon(MC_CPUS) ? (unsigned)(mach(MC_CPUS, 0, 1) % 64) : curf + 1; r = 0; break;
    case SYS_fstat: case SYS_newfstatat: { struct stat* st = (struct stat*)(nr == SYS_fstat ? g[REG_RSI] : g[REG_RDX]); memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0444; st->st_size = sizeof SIMFILE - 1; st->st_blksize = 4096; r = 0; break; }
    case SYS_getpid: case SYS_gettid: SOFT.amb.consulted |= 16; r = nr == SYS_gettid ? mpid() + curf : mpid(); break;
    case SYS_rt_sigprocmask: SOFT.amb.altered |= 8; r = 0; break;
    case SYS_clock_gettime: case SYS_gettimeofday: case SYS_time: { u64 c = amb_clock(); if (nr == SYS_clock_gettime && g[REG_RSI]) { ((u64*)g[REG_RSI])[0] = c / 1000000000ull; ((u64*)g[REG_RSI])[1] = c % 1000000000ull; } r = nr == SYS_time ? (long)(c / 1000000000ull) : 0; break; }
    case SYS_getrandom: { u64 v = amb_nd(); for (long i = 0; i < g[REG_RSI]; i++) ((u8*)g[REG_RDI])[i] = (u8)(v >> (8 * (i & 7))); r = g[REG_RSI]; break; }
    case SYS_mmap: case SYS_munmap: case SYS_brk: case SYS_mprotect: r = syscall(nr, g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]); if (r == -1) r = -errno; else if (nr == SYS_mmap) maps(g[REG_RSI]); else if (nr == SYS_munmap) SOFT.held[R_MAP] -= (g[REG_RSI] + 4095) / 4096; break;
    }
    g[REG_RAX] = r; cur = f; SEL = osel;
}
static uintptr_t HOSTLO, HOSTHI;
static void on_trap(int, siginfo_t*, void* uc_)
{
    Frame* f = cur; if (!f || !f->step) return;
    uintptr_t ip = (uintptr_t)((ucontext_t*)uc_)->uc_mcontext.gregs[REG_RIP];
    if (ip - HOSTLO < HOSTHI - HOSTLO) return;
    f->h++; g_steps++;
    if (f->h >= f->next) slow(f, 0, 0, 0);
}

// ------------------------------------------------------------------------------- image reset
static void load_pristine(bool virgin = false)
{
    for (auto& s : SEGS) memcpy(s.p, virgin ? s.virgin.data() : s.prist.data(), s.n);
    if (TLSN) memcpy(TLSP, TLSPRIST.data(), TLSN);
    if (!ARENAPRIST.empty()) memcpy(ARENA, ARENAPRIST.data(), ARENAPRIST.size());
    SOFT = SOFTPRIST; if (virgin) { SOFT.nae = 0; SOFT.nsync = 0; SOFT.brk = 0; SOFT.ctordone = 0; }
}

// ------------------------------------------------------------------------------- one call
struct Env { // everything about a call that must not matter
    u32 mxcsr = 0x1f80; u64 regpat = 0; u8 paint = 0xA5; u8 heap = 0xA5; int place = -1; u64 seed = 0; bool amb = false; Faults flt; bool ro = false; bool repaint = false; int err = 0; bool small = false;
};
static u8 SHADOW[NARG][4096];
struct Bound { void* addr[NARG]; u8* rw[NARG]; size_t n[NARG]; int nslots; bool canary; };
static size_t placeoff(const Env& e, int i, size_t n, Ty t)
{
    size_t al = TALIGN[t];
    if (e.place < 0 || !n) return 512;
    u64 r = mix(e.seed * 131 + i);
    switch ((e.place + (r & 3)) % 4) { case 0: return 0; case 1: return (4096 - n) / al * al; case 2: return 1024 + (r >> 8) % 64 * al; default: return (4096 - n) / al * al - (r >> 8) % 4 * al; }
}
// an earlier operand with the type and value of read-only operand i, so that one object can stand for both
static int sameobj(const OpInst& in, int i)
{
    const OpDesc* d = in.d; if (d->arg[i].mode != M_CONST || d->arg[i].dom == D_ARR || TSIZE[d->arg[i].ty] < 8) return -1;
    for (int j = 0; j < i; j++) if ((d->arg[j].mode == M_CONST || d->arg[j].mode == M_INOUT) && d->arg[j].ty == d->arg[i].ty && d->arg[j].dom != D_ARR && in.a[j].shared < 0 && !memcmp(in.a[j].b, in.a[i].b, TSIZE[d->arg[i].ty])) return j;
    return -1;
}
static void bind(const OpInst& in, const Env& e, int fiber, int depth, Bound& b)
{
    const OpDesc* d = in.d; b.nslots = d->nargs + 1; b.canary = true;
    for (int i = 0; i <= d->nargs; i++) {
        bool isret = i == d->nargs; size_t n = isret ? TSIZE[d->ret] : argsize(d->arg[i]);
        if (!isret && in.a[i].shared >= 0) { int k = poolidx(in.a[i].shared); bool c = d->arg[i].mode <= M_CONST; b.addr[i] = (e.ro && c ? slot_ro(k) : slot_rw(k)) + 512; b.rw[i] = nullptr; b.n[i] = n; continue; }
        if (int j = e.place >= 0 && !isret ? sameobj(in, i) : -1; j >= 0 && mix(e.seed + 991 * i) & 1) { b.addr[i] = b.addr[j]; b.rw[i] = nullptr; b.n[i] = n; continue; }   // one object passed for two operands
        int s = slotidx(fiber, depth, isret ? NARG - 1 : i); u8* p = slot_rw(s);
        Ty t = isret ? d->ret : d->arg[i].ty; size_t off = placeoff(e, i, n, t); if (off > 4096 - n) off = 4096 - n;
        if (e.place >= 0) { u64 r = mix(e.seed + i * 77); for (int k = 0; k < 4096; k += 8) { r = r * 6364136223846793005ull + 1442695040888963407ull; *(u64*)(p + k) = r; } if (isret) memset(p + off, e.paint, n); }
        else { memset(p + off - 32, 0xC5, 32 + n + 32); }
        if (!isret && !(e.place >= 0 && d->arg[i].mode == M_OUT)) memcpy(p + off, in.a[i].b, n);   // what an object that only receives a result held before is noise
        b.rw[i] = p + off; b.n[i] = n;
        bool ro = e.ro && !isret && d->arg[i].mode <= M_CONST;
        b.addr[i] = ro ? slot_ro(s) + off : p + off;
        if (e.place >= 0) memcpy(SHADOW[i], p, 4096);
    }
}
// checks the surroundings of the operands; "" if all is well
static std::string unbind(const OpInst& in, const Env& e, Bound& b, Res& r)
{
    const OpDesc* d = in.d; std::string bad;
    r.ret.assign((const char*)b.rw[d->nargs], TSIZE[d->ret]); r.mut.clear();
    for (int i = 0; i <= d->nargs; i++) {
        if (!b.rw[i]) continue; bool isret = i == d->nargs; u8* p = b.rw[i];
        if (!isret && d->arg[i].mode >= M_INOUT) r.mut.append((const char*)p, b.n[i]);
        if (!isret && d->arg[i].mode <= M_CONST && memcmp(p, in.a[i].b, b.n[i])) bad = "operand " + std::to_string(i) + ", which the call may only read, changed";
        if (e.place >= 0) {
            u8* pg = (u8*)((uintptr_t)p & ~4095ull); size_t off = p - pg;
            if (memcmp(pg, SHADOW[i], off) || memcmp(p + b.n[i], SHADOW[i] + off + b.n[i], 4096 - off - b.n[i])) bad = "memory next to operand " + std::to_string(i) + " changed";
        } else for (int k = 1; k <= 32; k++) if (p[-k] != 0xC5 || p[b.n[i] + k - 1] != 0xC5) bad = "memory next to operand " + std::to_string(i) + " changed";
    }
    return bad;
}
static void init_frame(Frame& f, const OpInst& in, int fiber, int depth, u64 id, bool handler, int opi, u64 bound)
{
    f.h = 0; f.pc = 0; f.pclim = 4000000; f.id = id; f.parent = nullptr; f.fiber = fiber; f.depth = depth; f.opi = opi; f.handler = handler; f.step = false; f.inst = &in; f.outcome = O_OK; f.info = 0; f.cursor = 0; f.decs = &NODECS;
    f.bound = bound; f.fairnext = fiber == REF ? ~0ull : 3000; f.recnext = ~0ull;
    if (fiber != REF) {
        if (g_rec) f.recnext = g_prng.geo(rate(fiber));
        else { auto i = DECS.find(id); if (i != DECS.end()) f.decs = &i->second; }
    }
    arm(&f);
}
// runs the operation in target mode; host mode before and after
static void invoke(Frame& f, const OpInst& in, Bound& b, const Env& e)
{
    Frame* saved = FIB[f.fiber].cur;
    if (!_setjmp(f.jb)) {
        try {
            FIB[f.fiber].cur = &f; errno = e.err;
            cur = &f; SEL = 1;
            _mm_setcsr(e.mxcsr);
            sim_call(in.d->fn, b.addr, b.addr[in.d->nargs], e.regpat, f.step);
            SEL = 0; cur = nullptr;
        } catch (...) { SEL = 0; cur = nullptr; f.outcome = O_EXC; }
    }
    SEL = 0; cur = nullptr; FIB[f.fiber].cur = saved;
    if (f.outcome == O_CRASH || f.outcome == O_HANG) asm volatile("cld; emms" ::: "memory");
}
static u32 g_aftercsr; static uint16_t g_aftercw;
static uint16_t x87of(u32 csr) { return (uint16_t)(0x340 | (csr >> 7 & 0x3f) | ((csr >> 13) & 3) << 10); }   // the same modes in the other unit's control word
static void call(const OpInst& in, const Env& e, Frame& f, Res& r, std::string& bad)
{
    Bound b; bind(in, e, f.fiber, f.depth, b);
    u32 keep = _mm_getcsr(); uint16_t keepcw; asm volatile("fnstcw %0" : "=m"(keepcw)); uint16_t cw = x87of(e.mxcsr); asm volatile("fldcw %0" ::"m"(cw));
    invoke(f, in, b, e);
    g_aftercsr = _mm_getcsr(); asm volatile("fnstcw %0" : "=m"(g_aftercw)); uint16_t sw; asm volatile("fnstsw %0" : "=m"(sw)); r.raised = (g_aftercsr | sw) & 0x3f;
    asm volatile("fninit; fldcw %0" ::"m"(keepcw)); _mm_setcsr(keep);
    r.outcome = f.outcome; r.info = f.info; r.steps = f.h;
    bad = unbind(in, e, b, r);
    if (r.outcome != O_OK) { r.ret.clear(); r.mut.clear(); }
}

// the same call many times over without anything in between; stops at the first one whose bytes differ from "want"
static u64 callmany(const OpInst& in, const Env& e, Frame& f, Res& r, std::string& bad, u64 n, const Res& want)
{
    Bound b; bind(in, e, f.fiber, f.depth, b); const OpDesc* d = in.d; static volatile u64 k; k = 0;
    u32 keep = _mm_getcsr(); Frame* saved = FIB[f.fiber].cur; const u8* ret = b.rw[d->nargs]; size_t nret = TSIZE[d->ret];
    struct M { u8* p; const u8* in; size_t n, off; } m[NARG]; int nm = 0; size_t off = 0;
    for (int i = 0; i < d->nargs; i++) if (b.rw[i] && d->arg[i].mode >= M_INOUT) { m[nm++] = {b.rw[i], in.a[i].b, b.n[i], off}; off += b.n[i]; }
    if (!_setjmp(f.jb)) {
        try {
            FIB[f.fiber].cur = &f; errno = e.err; cur = &f; SEL = 1; _mm_setcsr(e.mxcsr);
            while (k < n) {
                for (int i = 0; i < nm; i++) memcpy(m[i].p, m[i].in, m[i].n);
                sim_call(d->fn, b.addr, b.addr[d->nargs], 0, false); k++;
                if (memcmp(ret, want.ret.data(), nret)) break;
                bool same = true; for (int i = 0; i < nm; i++) if (memcmp(m[i].p, want.mut.data() + m[i].off, m[i].n)) same = false;
                if (!same) break;
            }
            SEL = 0; cur = nullptr;
        } catch (...) { SEL = 0; cur = nullptr; f.outcome = O_EXC; }
    }
    SEL = 0; cur = nullptr; FIB[f.fiber].cur = saved; asm volatile("cld; emms" ::: "memory"); _mm_setcsr(keep);
    r.outcome = f.outcome; r.info = f.info; r.steps = 0; bad = unbind(in, e, b, r); if (r.outcome != O_OK) { r.ret.clear(); r.mut.clear(); }
    return k;
}

// ------------------------------------------------------------------------------- reference
static u64 g_refpc;
static std::unordered_map<u64, Res> REFCACHE;
struct RefJob { const OpInst* in; Env env; Res res; std::string bad; };
static RefJob* g_job; static int g_refcaller;
static void refmain(void*)
{
    for (;;) {
        RefJob* j = g_job; Frame f;
        init_frame(f, *j->in, REF, 0, ~0ull, false, 0, 2000000);
        call(*j->in, j->env, f, j->res, j->bad); g_refpc = f.pc;
        out_state(FIB[REF]);
        curf = g_refcaller; sim_swap(&FIB[REF].sp, g_refcaller >= 0 ? FIB[g_refcaller].sp : MAINSP);
    }
}
static u32 g_refamb;
// the result of the call made alone in a freshly loaded image
static Res& reference(const OpInst& in0, u32 mxcsr, const std::vector<std::pair<Ty, std::vector<u8>>>& pool)
{
    static OpInst in; in = in0; mxcsr = (mxcsr & 0xe040) | 0x1f80;
    u64 h = fnv64(14695981039346656037ull, in.opid); h = fnv64(h, mxcsr);
    for (int i = 0; i < in.d->nargs; i++) { if (in.a[i].shared >= 0) { auto& pv = pool[in.a[i].shared].second; memset(in.a[i].b, 0, 64); memcpy(in.a[i].b, pv.data(), std::min<size_t>(64, pv.size())); in.a[i].shared = -1; } h = fnv(h, in.a[i].b, argsize(in.d->arg[i])); }
    auto it = REFCACHE.find(h); if (it != REFCACHE.end()) return it->second;
    if (REFCACHE.size() > 20000) REFCACHE.clear();
    ST.refs++;
    static std::vector<std::vector<u8>> save; static std::vector<u8> savetls, savear; save.resize(SEGS.size());
    for (size_t i = 0; i < SEGS.size(); i++) save[i].assign(SEGS[i].p, SEGS[i].p + SEGS[i].n);
    savetls.assign(TLSP, TLSP + TLSN); savear.assign(ARENA, ARENA + ARENAPRIST.size());
    Soft keep = SOFT; Faults kf = FLT; bool ks = g_step, kr = g_rec, kw = g_watch, kd = g_dorepaint; u64 kl = sim_paintlen, steps = g_steps, kb = g_bound; int err = errno; u64 eh[2]; memcpy(eh, abi::__cxa_get_globals(), 16);
    FLT = NOFLT; load_pristine(); arena = REFARENA; g_watch = false; g_dorepaint = false; sim_paintlen = 0; g_bound = ~0ull;
    static RefJob job; job = RefJob(); job.in = &in; job.env.mxcsr = mxcsr; g_job = &job; g_refcaller = curf;
    prep(FIB[REF], REF, false, refmain, nullptr, 0xA5, 0x1f80);
    int c = curf; curf = REF; in_state(FIB[REF]);
    sim_swap(c >= 0 ? &FIB[c].sp : &MAINSP, FIB[REF].sp);
    FIB[REF].state = F_NONE;
    g_refamb = SOFT.amb.altered;
    arena = ARENA; SOFT = keep; FLT = kf; g_step = ks; g_rec = kr; g_watch = kw; g_dorepaint = kd; sim_paintlen = kl; g_steps = steps; g_bound = kb; errno = err; memcpy(abi::__cxa_get_globals(), eh, 16);
    bool wrote = false;
    for (size_t i = 0; i < SEGS.size(); i++) { if (g_sweep && memcmp(SEGS[i].p, SEGS[i].prist.data(), SEGS[i].n)) wrote = true; memcpy(SEGS[i].p, save[i].data(), SEGS[i].n); }
    if (g_sweep) { if (wrote) g_flags |= S_WGLOB; if (TLSN && memcmp(TLSP, TLSPRIST.data(), TLSN)) g_flags |= S_TLS; }
    if (TLSN) memcpy(TLSP, savetls.data(), TLSN); if (!savear.empty()) memcpy(ARENA, savear.data(), savear.size());
    return REFCACHE[h] = job.res;
}
#include "props.inc"
