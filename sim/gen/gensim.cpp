// Deterministic simulator for tools/benchgen.
//
// The generator's real object code, libstdc++, libfmt and C stdio run in a forked child.  Syscall User
// Dispatch turns every system call of that child into a SIGSYS which is answered here from a simulated
// file system, clock, process identity and random source; nothing of the real system can be reached.
// Clock reads that need no system call are interposed as symbols.  One plan file = initial file system
// + a list of process incarnations (arguments, clock, surroundings) + faults by system-call ordinal,
// and determines the execution completely.
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <link.h>
#include <malloc.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/syscall.h>
#include <sys/sysinfo.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/uio.h>
#include <sys/utsname.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#ifndef PR_SET_SYSCALL_USER_DISPATCH
#define PR_SET_SYSCALL_USER_DISPATCH 59
#endif
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;

// the simulator itself never uses stdout, whose state the simulated process would inherit
#define printf(...) dprintf(1, __VA_ARGS__)
static u64 mix(u64 x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ x >> 30) * 0xbf58476d1ce4e5b9ull; x = (x ^ x >> 27) * 0x94d049bb133111ebull; return x ^ x >> 31; }
struct Rng { u64 s; explicit Rng(u64 x = 1) : s(mix(x)) {} u64 next() { s += 0x9e3779b97f4a7c15ull; return mix(s); } u32 below(u32 n) { return n ? (u32)(next() % n) : 0; } double u() { return (next() >> 11) * 0x1p-53; } bool p(double q) { return u() < q; } template <class T> T& pick(std::vector<T>& v) { return v[below((u32)v.size())]; } };
static u64 fnv(u64 h, u64 v) { for (int i = 0; i < 8; i++) { h ^= (v >> (8 * i)) & 255; h *= 1099511628211ull; } return h; }
static u64 fnvs(u64 h, const void* p, size_t n) { const u8* b = (const u8*)p; size_t i = 0; for (; i + 8 <= n; i += 8) { u64 v; memcpy(&v, b + i, 8); h = (h ^ v) * 0x9fb21c651e98df25ull; h ^= h >> 29; } for (; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; } return h; }

// ------------------------------------------------------------------------------- shared state
enum { C_OPEN, C_STAT, C_READ, C_WRITE, C_CLOSE, C_UNLINK, C_RENAME, C_MKDIR, C_SYNC, C_LIST, C_OTHER, C_MEM, C_STDOUT, NC };
static const char* CN[NC] = {"open", "stat", "read", "write", "close", "unlink", "rename", "mkdir", "sync", "list", "other", "memory", "stdout"};
enum { T_FREE, T_FILE, T_DIR, T_LINK, T_NULL };
struct Inode { u8 type; u32 mode, nlink; int lock; u64 size, off, cap; u64 dirty; bool touched; };
struct Dent { int dir, ino; u64 h; u32 name, len; bool alive; };
struct MetaOp { u8 kind; int dent; bool first; };           // 1 entry made, 2 entry removed; first = starts an atomic group
struct Fault { u64 ord; char kind; int a; i64 b; };
struct Jrn { u8 op; u32 path; };                        // op: name of the mutation
static const char* JN[] = {"create", "write", "truncate", "unlink", "rename from", "rename onto", "mkdir", "rmdir", "chmod", "link", "symlink", "utimes", "open for writing"};
struct Fd { u8 kind; int ino; u64 pos; int fl; u32 path; }; // kind 0 free 1 file 2 dir 3 sink(stdout/err) 4 stdin 5 null
struct Pol { double err[NC], shortw, eintr, slow, jump, nomem; u64 crash_at; int crash_kind; u64 crash_p; u64 pers_at; int pers_c, pers_e; bool late; int maxf; u64 ext_at; int ext; u64 bigjump; double sw, swhot, torn; };
enum { FK_ERR, FK_SHORT, FK_EINTR, FK_SLOW, FK_JUMP, FK_KILL, FK_TORN, FK_POWER, FK_PERS, FK_EXT, FK_MEM, FK_FULL, FK_CLOSELOSS, FK_STDOUT, FK_PERM, FK_SWITCH, NFK };
static const char* FKN[NFK] = {"system call failed with an error", "short write", "write interrupted before transferring data", "slow operation", "clock jump", "process killed", "process killed inside a write (torn write)", "power loss with unsynced data and metadata lost", "persistent error from one point on", "target path changed by another process", "memory allocation refused", "disk full", "data lost by a failing close", "error on standard output", "permission refused by mode bits", "switch to another running generator"};
enum { R_NONE, R_EXIT, R_SIGNAL, R_KILLED, R_BOUND, R_HANG, R_SIM };
static const char* RN[] = {"nothing", "exit", "signal", "killed by the simulator", "exceeded the system-call bound", "ran for ever without system calls", "simulator limit"};
static const int NI = 4000, ND = 8000, NJ = 20000, NF = 6000, NM = 20000; static const u64 AN = 512ull << 20;
static const int NP = 4;   // generators that may run at the same time
struct Proc {            // what belongs to one of them; the running one's is in Shared itself, the others' in save[]
    int cwd; Fd fd[128]; u64 ord; bool readclock; i64 firstread; Rng env, dec; Pol pol; u64 id; int umask_; u64 slept; int nfaults_here; int pers[NC]; int outcome, code;
    u64 eintr_run, nclock; bool tearing; int exam, outkind; u64 mut_at_ext, mutations, nsys; bool extdone, done; u64 sinceswitch;
};
struct Faults { int n, cur; Fault f[NF]; };
struct Shared : Proc {
    u32 ntext[2]; char text[2][1 << 16];   // what was written to standard output and to standard error (one generator alone)
    int ni, nd; Inode in[NI]; Dent de[ND]; int nm; MetaOp m[NM]; int mdur; u64 apos; u64 used, capacity;
    u64 bound; u64 log, cover; i64 clock; bool rec, samedir; int nread;
    Faults fl[NP]; Proc save[NP]; int cur, nproc; volatile int turn;
    int nj; Jrn j[NJ]; u64 fired[NFK]; u64 errs[NC]; u64 simns; bool simfull; u32 targetname; int targetdir, tracefd;
    u8 arena[AN];
};
static Shared* S;
static volatile u8 SEL;
static u32 str(const char* s, size_t n) { u64 o = S->apos; if (o + n + 9 > AN) { S->simfull = true; return 0; } memcpy(S->arena + o, s, n); S->arena[o + n] = 0; S->apos = (o + n + 8) & ~7ull; return (u32)o; }
static const char* sp(u32 o) { return (const char*)S->arena + o; }
static u64 nameh(const char* s, size_t n) { return fnvs(77, s, n); }
static void trace(const char* f, ...) { if (S->tracefd < 0) return; char b[600]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b - 1, f, a); va_end(a); if (n > (int)sizeof b - 2) n = sizeof b - 2; b[n++] = '\n'; if (syscall(SYS_write, S->tracefd, b, n)) {} }

// ------------------------------------------------------------------------------- file system
static int newino(u8 type, u32 mode) { if (S->ni >= NI) { S->simfull = true; return 1; } int i = S->ni++; Inode& x = S->in[i]; memset(&x, 0, sizeof x); x.type = type; x.mode = mode; x.dirty = ~0ull; return i; }
static int find(int dir, const char* s, size_t n) { u64 h = nameh(s, n); for (int i = S->nd - 1; i >= 0; i--) { Dent& d = S->de[i]; if (d.alive && d.dir == dir && d.h == h && d.len == n && !memcmp(sp(d.name), s, n)) return i; } return -1; }
static void meta(u8 k, int d, bool first = true) { if (S->nm < NM) S->m[S->nm++] = {k, d, first}; else S->simfull = true; }
static int adddent(int dir, const char* s, size_t n, int ino, bool log = true, bool first = true) { if (S->nd >= ND) { S->simfull = true; return 0; } int i = S->nd++; S->de[i] = {dir, ino, nameh(s, n), str(s, n), (u32)n, true}; S->in[ino].nlink++; if (log) meta(1, i, first); return i; }
static void deldent(int i, bool first = true) { S->de[i].alive = false; S->in[S->de[i].ino].nlink--; meta(2, i, first); }
static bool isempty(int dir) { for (int i = 0; i < S->nd; i++) if (S->de[i].alive && S->de[i].dir == dir) return false; return true; }
static int parentof(int dir) { for (int i = S->nd - 1; i >= 0; i--) if (S->de[i].alive && S->de[i].ino == dir) return S->de[i].dir; return 0; }
// canonical path of directory entry (dir, name)
static size_t dirpath(int dir, char* b, size_t cap) { if (dir == 0) return 0; for (int i = S->nd - 1; i >= 0; i--) if (S->de[i].ino == dir && S->de[i].alive) { size_t n = dirpath(S->de[i].dir, b, cap); if (n + S->de[i].len + 2 > cap) return n; b[n++] = '/'; memcpy(b + n, sp(S->de[i].name), S->de[i].len); return n + S->de[i].len; } memcpy(b, "/?", 2); return 2; }
static u32 canon(int dir, const char* name, size_t n) { char b[1024]; size_t k = dirpath(dir, b, sizeof b); if (k + n + 2 < sizeof b) { b[k++] = '/'; memcpy(b + k, name, n); k += n; } return str(b, k); }
enum { J_CREATE, J_WRITE, J_TRUNC, J_UNLINK, J_RENFROM, J_RENTO, J_MKDIR, J_RMDIR, J_CHMOD, J_LINK, J_SYMLINK, J_UTIME, J_OPENW };
static void jrn(u8 op, u32 path) { S->mutations += op != J_OPENW; if (S->nj < NJ) S->j[S->nj++] = {op, path}; else S->simfull = true; }
struct Res { int err, dir, dent, ino; const char* last; size_t n; bool slash; char buf[8][260]; };
static bool okx(int ino, int bit) { return S->in[ino].mode & bit; }
static int targetino() { int e = find(S->targetdir, sp(S->targetname), strlen(sp(S->targetname))); return e < 0 ? -1 : S->de[e].ino; }
static void resolve(int at, const char* path, bool follow, Res& r, int depth = 0)
{
    r.err = 0; r.dir = -1; r.dent = -1; r.ino = -1; r.last = ""; r.n = 0; r.slash = false;
    if (!path || !*path) { r.err = ENOENT; return; }
    if (strlen(path) >= 4096) { r.err = ENAMETOOLONG; return; }
    int d = *path == '/' ? 0 : at; const char* p = path; while (*p == '/') p++;
    if (S->in[d].nlink == 0 && d != 0) { r.err = ENOENT; return; }
    if (!*p) { r.dir = 0; r.ino = 0; return; }
    for (;;) {
        const char* e = p; while (*e && *e != '/') e++; size_t n = e - p; const char* q = e; while (*q == '/') q++; bool lastc = !*q;
        if (n > 255) { r.err = ENAMETOOLONG; return; }
        if (S->in[d].type != T_DIR) { r.err = ENOTDIR; return; }
        if (!okx(d, 0100)) { r.err = EACCES; S->fired[FK_PERM]++; return; }
        int c = -1, de = -1; if (n == 1 && *p == '.') c = d; else if (n == 2 && p[0] == '.' && p[1] == '.') c = parentof(d); else { de = find(d, p, n); if (de >= 0) c = S->de[de].ino; }
        if (lastc) {
            r.dir = d; r.last = p; r.n = n; r.slash = q != e; if (n == 1 && *p == '.') r.n = 0; if (n == 2 && p[0] == '.' && p[1] == '.') r.n = 0;
            if (c >= 0 && S->in[c].type == T_LINK && (follow || r.slash)) { if (depth >= 7) { r.err = ELOOP; return; } char* b = r.buf[depth]; size_t k = std::min<size_t>(S->in[c].size, 250); memcpy(b, S->arena + S->in[c].off, k); b[k] = 0; resolve(d, b, follow, r, depth + 1); return; }
            if (S->exam != 1 && ((d == S->targetdir && n == strlen(sp(S->targetname)) && !memcmp(p, sp(S->targetname), n)) || (c >= 0 && c == targetino()))) S->exam = c >= 0 && S->in[c].type == T_DIR ? 1 : 2; // 1: some look at the target found a directory
            r.dent = de; r.ino = c; if (c >= 0 && r.slash && S->in[c].type != T_DIR) { r.err = ENOTDIR; r.ino = -1; }
            return;
        }
        if (c < 0) { r.err = ENOENT; return; }
        if (S->in[c].type == T_LINK) { if (depth >= 7) { r.err = ELOOP; return; } static char nb[8][5000]; char* b = nb[depth]; size_t k = std::min<size_t>(S->in[c].size, 250); memcpy(b, S->arena + S->in[c].off, k); snprintf(b + k, 4700, "/%s", q); resolve(d, b, follow, r, depth + 1); return; }
        d = c; p = q;
    }
}
static bool grow(Inode& x, u64 want)
{
    if (want <= x.cap) return true; u64 c = std::max<u64>(want, std::max<u64>(4096, x.cap + x.cap / 2)); c = (c + 63) & ~63ull;
    if (S->apos + c > AN) { S->simfull = true; return false; }
    memcpy(S->arena + S->apos, S->arena + x.off, x.size); x.off = S->apos; x.cap = c; S->apos += c; return true;
}
static void settrunc(int ino, u64 n) { Inode& x = S->in[ino]; if (n > x.size) { if (!grow(x, n)) return; memset(S->arena + x.off + x.size, 0, n - x.size); S->used += n - x.size; x.dirty = std::min(x.dirty, x.size); } else { S->used -= x.size - n; x.dirty = std::min(x.dirty, n); } x.size = n; }
static i64 dowrite(Fd& f, const u8* b, u64 n)
{
    Inode& x = S->in[f.ino]; if (f.fl & O_APPEND) f.pos = x.size; u64 end = f.pos + n;
    if (end > x.size) { u64 more = end - x.size; u64 avail = S->capacity > S->used ? S->capacity - S->used : 0; if (more > avail) { S->fired[FK_FULL]++; if (more - avail >= n) return -ENOSPC; n -= more - avail; end = f.pos + n; } }
    if (!grow(x, end)) return -ENOSPC; u8* d = S->arena + x.off; if (f.pos > x.size) memset(d + x.size, 0, f.pos - x.size);
    memcpy(d + f.pos, b, n); x.dirty = std::min(x.dirty, std::min(f.pos, x.size)); if (end > x.size) { S->used += end - x.size; x.size = end; } f.pos = end; if (!x.touched) { x.touched = true; jrn(J_WRITE, f.path); } S->mutations++; return (i64)n;
}
static void loseinode(Inode& x, Rng& r) { if (x.dirty == ~0ull || x.type != T_FILE) return; u64 lo = std::min(x.dirty, x.size), sz = x.size; switch (r.below(5)) { case 0: break; case 1: x.size = lo; break; case 2: x.size = lo + (sz > lo ? r.next() % (sz - lo + 1) : 0); break; case 3: { u64 a = lo + (sz > lo ? r.next() % (sz - lo + 1) : 0); a &= ~511ull; if (a < lo) a = lo; memset(S->arena + x.off + a, 0, sz - a); break; } default: { u64 a = lo + (sz > lo ? r.next() % (sz - lo + 1) : 0); u64 e = std::min(sz, a + 4096); for (u64 i = a; i < e; i++) S->arena[x.off + i] = (u8)r.next(); } } S->used -= sz - x.size; }
static void powerloss(Rng r)
{
    int lo = S->mdur, n = S->nm; int cut = lo + (int)(r.below(3) == 0 ? r.below((u32)(n - lo + 1)) : (u32)(n - lo - (int)r.below((u32)std::min(n - lo + 1, 6)))); while (cut < n && cut > lo && !S->m[cut].first) cut--;
    for (int i = n - 1; i >= cut; i--) { MetaOp o = S->m[i]; Dent& d = S->de[o.dent]; if (o.kind == 1) { if (d.alive) { d.alive = false; S->in[d.ino].nlink--; } } else { if (!d.alive) { d.alive = true; S->in[d.ino].nlink++; } } }
    for (int i = 0; i < S->ni; i++) if (S->in[i].touched || S->in[i].dirty != ~0ull) loseinode(S->in[i], r);
}
static void endinc() { for (int i = 0; i < S->ni; i++) { S->in[i].dirty = ~0ull; S->in[i].touched = false; } S->mdur = S->nm = 0; S->used = 0; for (int i = 0; i < S->ni; i++) if (S->in[i].type == T_FILE && S->in[i].nlink) S->used += S->in[i].size; }
#define UID (S->id % 7 == 3 ? 0 : S->id % 7 == 5 ? 65534 : 1000)
static i64 fillstat(int ino, struct stat* s) { Inode& x = S->in[ino]; memset(s, 0, sizeof *s); s->st_dev = 0x801; s->st_ino = ino + 2; s->st_nlink = x.type == T_DIR ? 2 : x.nlink; s->st_mode = x.mode | (x.type == T_DIR ? S_IFDIR : x.type == T_LINK ? S_IFLNK : x.type == T_NULL ? S_IFCHR : S_IFREG); s->st_uid = s->st_gid = (u32)UID; s->st_size = x.type == T_DIR ? 4096 : (i64)x.size; s->st_blksize = 4096; s->st_blocks = (s->st_size + 511) / 512; s->st_mtim.tv_sec = s->st_ctim.tv_sec = s->st_atim.tv_sec = 1600000000 + ino; return 0; }

// ------------------------------------------------------------------------------- running
// Of the generators running at the same time exactly one runs, the one whose turn it is; it hands over at a system call
static int ME;
static void handover(int t) { S->save[S->cur] = *S; S->cur = t; *(Proc*)S = S->save[t]; S->sinceswitch = 0; __atomic_store_n(&S->turn, t, __ATOMIC_SEQ_CST); syscall(SYS_futex, &S->turn, 1, NP, nullptr, nullptr, 0); }
static void awaitturn() { for (;;) { int t = __atomic_load_n(&S->turn, __ATOMIC_SEQ_CST); if (t == ME) return; syscall(SYS_futex, &S->turn, 0, t, nullptr, nullptr, 0); } }
static bool other(int t) { return t >= 0 && t < S->nproc && t != S->cur && !S->save[t].done; }
static int nextother() { for (int i = 1; i < S->nproc; i++) { int t = (S->cur + i) % S->nproc; if (other(t)) return t; } return -1; }
static void switchto(int t) { u8 k = SEL; SEL = 0; int e = errno; handover(t); awaitturn(); errno = e; SEL = k; }
static bool yieldturn() { int t = nextother(); if (t >= 0) switchto(t); return t >= 0; }
static void __attribute__((noreturn)) finish(int outcome, int code) { SEL = 0; S->outcome = outcome; S->code = code; S->done = true; if (S->nproc > 1) { S->log = fnv(S->log, (u64)outcome << 8 | (u8)code); for (int i = 0; i < S->ni; i++) if (S->in[i].lock == S->cur + 1) S->in[i].lock = 0; int t = nextother(); if (t >= 0) handover(t); else S->save[S->cur] = *S; } syscall(SYS_exit_group, 0); __builtin_unreachable(); }
static void record(char k, int a, i64 b) { if (S->rec) { Faults& l = S->fl[S->cur]; if (l.n < NF) l.f[l.n++] = {S->ord, k, a, b}; else S->simfull = true; S->nfaults_here += k != 'W'; } }
static const int ERRS[NC][10] = {{EACCES, ENOSPC, EIO, EMFILE, ENFILE, EROFS, ENOMEM, EDQUOT, EPERM, 0}, {EACCES, EIO, ELOOP, ENOMEM, ENAMETOOLONG, EOVERFLOW, 0}, {EIO, 0}, {ENOSPC, EIO, EDQUOT, EFBIG, 0}, {EIO, ENOSPC, EDQUOT, 0}, {EACCES, EBUSY, EIO, EPERM, EROFS, 0}, {EACCES, EIO, ENOSPC, EROFS, EXDEV, 0}, {EACCES, ENOSPC, EIO, EROFS, 0}, {EIO, ENOSPC, 0}, {EIO, EACCES, 0}, {EIO, ENOMEM, 0}, {ENOMEM, 0}, {EPIPE, EIO, ENOSPC, EAGAIN, 0}};
static void external(int what);
// what happens at this system call: returns an error to fail it with, or 0; *lim limits a write
struct Inj { int err; u64 lim; int kill; i64 killp; bool closeloss; i64 lossseed; };
static bool budget() { return S->nfaults_here < S->pol.maxf; }
static void applyf(const Fault& f, Inj& j, int c, u64 n)
{
    switch (f.kind) {
    case 'E': j.err = f.a; S->fired[c == C_STDOUT ? FK_STDOUT : c == C_MEM ? FK_MEM : FK_ERR]++; S->errs[c]++; if (c == C_CLOSE) { j.closeloss = true; j.lossseed = f.b; } break;
    case 'S': j.lim = std::min<u64>(j.lim, (u64)f.b); S->fired[FK_SHORT]++; break;
    case 'I': j.err = EINTR; S->fired[FK_EINTR]++; break;
    case 'D': S->clock += f.b; S->simns += (u64)f.b; S->fired[FK_SLOW]++; break;
    case 'J': S->clock += f.b; S->fired[FK_JUMP]++; break;
    case 'K': j.kill = 1; j.killp = f.b; break;
    case 'L': j.kill = 2; j.killp = f.b; break;
    case 'P': S->pers[f.a] = (int)f.b; S->fired[FK_PERS]++; break;
    case 'X': S->fired[FK_EXT]++; external(f.a); break;
    case 'W': if (!other(f.a)) return; S->fired[FK_SWITCH]++; break;
    }
    S->log = fnv(S->log, (u64)f.kind << 32 | (u32)f.a); S->cover = fnv(S->cover, S->ord << 8 | f.kind); if (f.kind == 'W') { S->cover = fnv(S->cover, S->cur * 8 + f.a); trace("  %llu of generator %d: switch to generator %d", (unsigned long long)S->ord, S->cur, f.a); switchto(f.a); return; } trace("  fault at %llu: %c %d %lld (%s)", (unsigned long long)S->ord, f.kind, f.a, (long long)f.b, CN[c]); (void)n;
}
static Inj inject(int c, u64 n)
{
    Inj j{0, ~0ull, 0, 0, false, 0}; Shared& s = *S; s.ord++;
    if (s.ord > s.bound) finish(R_BOUND, 0);
    if (s.nproc > 1) {   // another generator's turn before this call takes effect
        if (s.rec) { double q = c == C_OPEN || c == C_STAT || c == C_UNLINK || c == C_RENAME || c == C_MKDIR || c == C_CLOSE ? s.pol.swhot : s.pol.sw; if (q > 0 && nextother() >= 0 && s.dec.p(q)) { int t; do t = (int)s.dec.below((u32)s.nproc); while (!other(t)); record('W', t, 0); applyf({s.ord, 'W', t, 0}, j, c, n); } }
        else { Faults& l = s.fl[s.cur]; while (l.cur < l.n && l.f[l.cur].ord <= s.ord && (l.f[l.cur].ord < s.ord || l.f[l.cur].kind == 'W')) { Fault f = l.f[l.cur++]; if (f.ord == s.ord) applyf(f, j, c, n); } }
        if (++s.sinceswitch > 20000) yieldturn();
    }
    i64 tick = 300 + (i64)(s.env.next() % 20000); s.clock += tick; s.simns += (u64)tick;
    if (s.rec) {
        Rng& r = s.dec; Pol& p = s.pol; auto put = [&](char k, int a, i64 b) { record(k, a, b); applyf({s.ord, k, a, b}, j, c, n); };
        bool clk = !p.late || (s.readclock && (!s.samedir || s.nread == s.nproc));
        if (p.slow > 0 && clk && budget() && r.p(p.slow)) put('D', 0, (i64)(1000 * std::pow(10.0, r.u() * 10)));
        if (p.jump > 0 && clk && budget() && r.p(p.jump)) { i64 m = (i64)(1e6 * __builtin_pow(10.0, r.u() * 12)); put('J', 0, r.p(.5) ? m : -m); }
        if (s.ord == p.ext_at) put('X', p.ext, 0);
        if (s.ord == p.pers_at) put('P', p.pers_c, p.pers_e);
        if (c == C_WRITE && s.tearing) { s.tearing = false; int k = 0; while (ERRS[c][k]) k++; put('E', ERRS[c][r.below(k)], 0); s.eintr_run = 0; }
        else if (c == C_WRITE && n > 1 && p.torn > 0 && budget() && r.p(p.torn)) { put('S', 0, (i64)(r.p(.3) ? 1 : 1 + r.next() % (n - 1))); s.tearing = true; }
        else if (p.err[c] > 0 && budget() && r.p(p.err[c])) { int k = 0; while (ERRS[c][k]) k++; put('E', ERRS[c][r.below(k)], (i64)(r.next() >> 1)); s.eintr_run = 0; }
        else if (c == C_WRITE && p.eintr > 0 && budget() && s.eintr_run < 6 && r.p(p.eintr)) { put('I', 0, 0); s.eintr_run++; }
        else { if (c == C_WRITE) s.eintr_run = 0; if (c == C_WRITE && n > 1 && p.shortw > 0 && budget() && r.p(p.shortw)) put('S', 0, (i64)(r.p(.3) ? 1 : 1 + r.next() % (n - 1))); }
        if (s.ord == p.crash_at) put(p.crash_kind == 2 ? 'L' : 'K', 0, (i64)(p.crash_p >> 1));
    } else { Faults& l = s.fl[s.cur]; while (l.cur < l.n && l.f[l.cur].ord <= s.ord) { if (l.f[l.cur].ord == s.ord) applyf(l.f[l.cur], j, c, n); l.cur++; } }
    if (!j.err && s.pers[c] && c != C_STDOUT) { j.err = s.pers[c]; s.errs[c]++; }
    if (!j.err && s.pers[C_STDOUT] && c == C_STDOUT) { j.err = s.pers[C_STDOUT]; s.fired[FK_STDOUT]++; }
    return j;
}
static void crashnow(const Inj& j) { S->cover = fnv(S->cover, 991 + j.kill); if (j.kill == 2) { S->fired[FK_POWER]++; powerloss(Rng((u64)j.killp)); } else S->fired[FK_KILL]++; finish(R_KILLED, j.kill); }
static int newfd() { for (int i = 3; i < 128; i++) if (!S->fd[i].kind) return i; return -1; }
static int atdir(int fd, const char* path, int& err) { err = 0; if (path && *path == '/') return 0; if (fd == AT_FDCWD) return S->cwd; if (fd < 0 || fd >= 128 || !S->fd[fd].kind) { err = EBADF; return 0; } if (S->fd[fd].kind != 2) { err = ENOTDIR; return 0; } return S->fd[fd].ino; }
static i64 do_open(int at, const char* path, int fl, u32 mode)
{
    int e; int d = atdir(at, path, e); if (e) return -e; static Res r; resolve(d, path, !(fl & O_NOFOLLOW) && !((fl & O_CREAT) && (fl & O_EXCL)), r); if (r.err) return -r.err;
    int fd = newfd(); if (fd < 0) return -EMFILE; int acc = fl & O_ACCMODE; bool w = acc != O_RDONLY;
    if ((fl & O_TMPFILE) == O_TMPFILE) return -EOPNOTSUPP;
    if (r.ino >= 0) {
        Inode& x = S->in[r.ino];
        if ((fl & O_CREAT) && (fl & O_EXCL)) return -EEXIST; if (x.type == T_LINK) return -ELOOP; if ((fl & O_DIRECTORY) && x.type != T_DIR) return -ENOTDIR; if (x.type == T_DIR && (w || (fl & O_CREAT))) return -EISDIR;
        if ((w && !okx(r.ino, 0200)) || (acc != O_WRONLY && !okx(r.ino, 0400))) { S->fired[FK_PERM]++; return -EACCES; }
    } else {
        if (!(fl & O_CREAT)) return -ENOENT; if (r.slash) return -EISDIR; if (!r.n) return -EISDIR; if (!okx(r.dir, 0200)) { S->fired[FK_PERM]++; return -EACCES; }
        r.ino = newino(T_FILE, mode & 0777 & ~(u32)S->umask_); S->in[r.ino].dirty = 0; adddent(r.dir, r.last, r.n, r.ino); jrn(J_CREATE, canon(r.dir, r.last, r.n));
    }
    Inode& x = S->in[r.ino]; Fd& f = S->fd[fd]; f.kind = x.type == T_DIR ? 2 : x.type == T_NULL ? 5 : 1; f.ino = r.ino; f.pos = 0; f.fl = fl; f.path = r.n ? canon(r.dir, r.last, r.n) : str("/", 1);
    if (f.kind == 1 && w) { if ((fl & O_TRUNC) && x.size) { settrunc(r.ino, 0); jrn(J_TRUNC, f.path); } else jrn(J_OPENW, f.path); }
    return fd;
}
static i64 do_stat(int at, const char* path, int flags, struct stat* st)
{
    if ((flags & AT_EMPTY_PATH) && (!path || !*path)) { if (at == AT_FDCWD) return fillstat(S->cwd, st); if (at < 0 || at >= 128 || !S->fd[at].kind) return -EBADF; Fd& f = S->fd[at]; if (f.kind <= 2) return fillstat(f.ino, st); memset(st, 0, sizeof *st); st->st_mode = (f.kind == 5 ? S_IFCHR : S->outkind == 0 ? S_IFIFO : S->outkind == 1 ? S_IFCHR : S_IFREG) | 0620; st->st_blksize = 4096; st->st_rdev = f.kind == 5 ? 0x103 : 0x8800; return 0; }
    int e; int d = atdir(at, path, e); if (e) return -e; static Res r; resolve(d, path, !(flags & AT_SYMLINK_NOFOLLOW), r); if (r.err) return -r.err; if (r.ino < 0) return -ENOENT; return fillstat(r.ino, st);
}
static i64 do_unlink(int at, const char* path, bool rmdir)
{
    int e; int d = atdir(at, path, e); if (e) return -e; static Res r; resolve(d, path, false, r); if (r.err) return -r.err; if (r.ino < 0) return -ENOENT; if (r.dent < 0) return rmdir ? -EINVAL : -EISDIR; Inode& x = S->in[r.ino];
    if (!rmdir && x.type == T_DIR) return -EISDIR; if (rmdir && x.type != T_DIR) return -ENOTDIR; if (rmdir && !isempty(r.ino)) return -ENOTEMPTY; if (!okx(r.dir, 0200)) { S->fired[FK_PERM]++; return -EACCES; }
    jrn(rmdir ? J_RMDIR : J_UNLINK, canon(r.dir, r.last, r.n)); deldent(r.dent); if (x.type == T_FILE && !x.nlink) S->used -= x.size; return 0;
}
static i64 do_rename(int a1, const char* p1, int a2, const char* p2, unsigned fl)
{
    int e; int d1 = atdir(a1, p1, e); if (e) return -e; int d2 = atdir(a2, p2, e); if (e) return -e; static Res r, q; resolve(d1, p1, false, r); if (r.err) return -r.err; if (r.ino < 0) return -ENOENT; resolve(d2, p2, false, q); if (q.err) return -q.err; if (!r.n || !q.n) return -EBUSY;
    if (!okx(r.dir, 0200) || !okx(q.dir, 0200)) return -EACCES; if (fl & 2) return -EINVAL; if (q.ino >= 0 && (fl & 1)) return -EEXIST; if (q.ino == r.ino) return 0;
    if (q.ino >= 0) { if (S->in[q.ino].type == T_DIR) { if (S->in[r.ino].type != T_DIR) return -EISDIR; if (!isempty(q.ino)) return -ENOTEMPTY; } else if (S->in[r.ino].type == T_DIR) return -ENOTDIR; }
    jrn(J_RENFROM, canon(r.dir, r.last, r.n)); jrn(J_RENTO, canon(q.dir, q.last, q.n)); bool first = true; if (q.ino >= 0) { deldent(q.dent); first = false; } deldent(r.dent, first); adddent(q.dir, q.last, q.n, r.ino, true, false); return 0;
}
static i64 do_mkdir(int at, const char* path, u32 mode) { int e; int d = atdir(at, path, e); if (e) return -e; static Res r; resolve(d, path, false, r); if (r.err) return -r.err; if (r.ino >= 0) return -EEXIST; if (!r.n) return -EEXIST; if (!okx(r.dir, 0200)) return -EACCES; int i = newino(T_DIR, mode & 0777); adddent(r.dir, r.last, r.n, i); jrn(J_MKDIR, canon(r.dir, r.last, r.n)); return 0; }
static void external(int what)
{   // another process changes the target path: 1 remove it, 2 make it a directory, 3 make it a file, 4 hide it (mode 0), 5 unhide
    S->extdone = true; S->mut_at_ext = S->mutations;
    int d = S->targetdir; const char* n = sp(S->targetname); size_t len = strlen(n); int de = find(d, n, len);
    if (what == 4 || what == 5) { if (de >= 0) S->in[S->de[de].ino].mode = what == 4 ? 0 : 0755; return; }
    if (de >= 0) { int ino = S->de[de].ino; if (S->in[ino].type == T_DIR) for (int i = 0; i < S->nd; i++) if (S->de[i].alive && S->de[i].dir == ino) { S->de[i].alive = false; S->in[S->de[i].ino].nlink--; } S->de[de].alive = false; S->in[ino].nlink--; }
    if (what == 2) adddent(d, n, len, newino(T_DIR, 0755), false); if (what == 3) adddent(d, n, len, newino(T_FILE, 0644), false);
}
static i64 simclock(bool real) { if (S->nclock > 2) { Inj j = inject(C_OTHER, 0); if (j.kill) crashnow(j); } S->clock += 1000; S->simns += 1000; if (real && !S->readclock) { S->readclock = true; S->nread++; i64 s = S->clock / 1000000000; if (S->clock % 1000000000 < 0) s--; S->firstread = s; } if (++S->nclock > 5000000) finish(R_BOUND, 1); return S->clock; }
static void puttime(i64 c, i64* sec, i64* ns) { i64 s = c / 1000000000, n = c % 1000000000; if (n < 0) { n += 1000000000; s--; } *sec = s; *ns = n; }
static int classof(long nr, long a0)
{
    switch (nr) {
    case SYS_open: case SYS_openat: case SYS_creat: case SYS_openat2: return C_OPEN;
    case SYS_stat: case SYS_lstat: case SYS_newfstatat: case SYS_statx: case SYS_access: case SYS_faccessat: case SYS_faccessat2: case SYS_readlink: case SYS_readlinkat: return C_STAT;
    case SYS_read: case SYS_pread64: case SYS_readv: return C_READ;
    case SYS_write: case SYS_writev: case SYS_pwrite64: case SYS_pwritev: case SYS_sendfile: case SYS_copy_file_range: return a0 >= 0 && a0 < 128 && S->fd[a0].kind == 3 ? C_STDOUT : C_WRITE;
    case SYS_close: return a0 >= 0 && a0 < 128 && S->fd[a0].kind == 1 ? C_CLOSE : C_OTHER;
    case SYS_unlink: case SYS_unlinkat: case SYS_rmdir: return C_UNLINK;
    case SYS_rename: case SYS_renameat: case SYS_renameat2: case SYS_link: case SYS_linkat: case SYS_symlink: case SYS_symlinkat: return C_RENAME;
    case SYS_mkdir: case SYS_mkdirat: return C_MKDIR;
    case SYS_fsync: case SYS_fdatasync: case SYS_sync: case SYS_syncfs: case SYS_msync: case SYS_fallocate: case SYS_ftruncate: case SYS_truncate: return C_SYNC;
    case SYS_getdents64: case SYS_getdents: return C_LIST;
    case SYS_mmap: case SYS_brk: case SYS_mremap: return C_MEM;
    default: return C_OTHER;
    }
}
static i64 raw(long nr, const greg_t* g) { long r = syscall(nr, g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]); return r == -1 ? -errno : r; }
// advisory locks, one holder per file; a blocked holder-to-be hands its turn on
static void unlock(Fd& f) { if ((f.kind == 1 || f.kind == 2) && S->in[f.ino].lock == S->cur + 1) S->in[f.ino].lock = 0; }
static i64 lockop(Fd& f, int op, bool now_) { if (f.kind != 1 && f.kind != 2) return 0; if (op == 2) { unlock(f); return 0; } int ino = f.ino; while (S->in[ino].lock && S->in[ino].lock != S->cur + 1) { if (now_) return -EWOULDBLOCK; if (++S->ord > S->bound) finish(R_BOUND, 0); if (!yieldturn()) break; } S->in[ino].lock = S->cur + 1; return 0; }
static i64 writefd(int fd, const u8* b, u64 n) { Fd& f = S->fd[fd]; if (f.kind == 3) { u32 k = f.path & 1; u64 m = std::min<u64>(n, sizeof S->text[0] - S->ntext[k]); memcpy(S->text[k] + S->ntext[k], b, m); S->ntext[k] += (u32)m; } if (f.kind == 3 || f.kind == 5) return (i64)n; if (f.kind != 1 || (f.fl & O_ACCMODE) == O_RDONLY) return -EBADF; if (!n) return 0; return dowrite(f, b, n); }
static i64 readfd(Fd& f, u8* b, u64 n, u64 pos) { Inode& x = S->in[f.ino]; if (pos >= x.size) return 0; n = std::min<u64>(n, x.size - pos); memcpy(b, S->arena + x.off + pos, n); return (i64)n; }
static i64 dosys(long nr, greg_t* g, i64* a)
{
    // forms with an at-directory
    #define PATH(i) ((const char*)a[i])
    #define FDOK(i) (a[i] >= 0 && a[i] < 128 && S->fd[a[i]].kind)
    int c = classof(nr, a[0]); u64 want = 0; const iovec* iv = nullptr; int niv = 0;
    if (nr == SYS_write || nr == SYS_pwrite64) want = (u64)a[2]; if (nr == SYS_writev || nr == SYS_pwritev) { iv = (const iovec*)a[1]; niv = (int)a[2]; for (int i = 0; i < niv; i++) want += iv[i].iov_len; }
    Inj j = inject(c, want);
    // a kill inside a write leaves part of it
    if (j.kill && c == C_WRITE && nr == SYS_write && FDOK(0) && S->fd[a[0]].kind == 1) { u64 k = (u64)j.killp % ((u64)a[2] + 1); if (k) { writefd((int)a[0], (const u8*)a[1], k); S->fired[FK_TORN]++; } crashnow(j); }
    if (j.kill && c == C_WRITE && iv && FDOK(0) && S->fd[a[0]].kind == 1) { u64 k = (u64)j.killp % (want + 1); if (k) S->fired[FK_TORN]++; for (int i = 0; i < niv && k; i++) { u64 m = std::min<u64>(k, iv[i].iov_len); writefd((int)a[0], (const u8*)iv[i].iov_base, m); k -= m; } crashnow(j); }
    if (j.kill && (j.killp & 1)) crashnow(j); // before the call takes effect
    i64 r = -ENOSYS;
    if (j.err && c != C_OTHER) {
        r = -j.err; if (c == C_STAT && !S->exam && *PATH(nr == SYS_newfstatat || nr == SYS_statx || nr == SYS_faccessat || nr == SYS_faccessat2 || nr == SYS_readlinkat)) S->exam = 2;
        if (nr == SYS_close && FDOK(0)) { if (j.closeloss && S->fd[a[0]].kind == 1) { Rng l((u64)j.lossseed); u64 d0 = S->in[S->fd[a[0]].ino].dirty; loseinode(S->in[S->fd[a[0]].ino], l); if (d0 != ~0ull) S->fired[FK_CLOSELOSS]++; } S->fd[a[0]].kind = 0; }
    } else switch (nr) {
    case SYS_open: r = do_open(AT_FDCWD, PATH(0), (int)a[1], (u32)a[2]); break;
    case SYS_creat: r = do_open(AT_FDCWD, PATH(0), O_CREAT | O_WRONLY | O_TRUNC, (u32)a[1]); break;
    case SYS_openat: r = do_open((int)a[0], PATH(1), (int)a[2], (u32)a[3]); break;
    case SYS_close: if (FDOK(0)) { unlock(S->fd[a[0]]); S->fd[a[0]].kind = 0; r = 0; } else r = -EBADF; break;
    case SYS_read: if (!FDOK(0)) r = -EBADF; else { Fd& f = S->fd[a[0]]; if (f.kind == 4 || f.kind == 5) r = 0; else if (f.kind == 2) r = -EISDIR; else if (f.kind == 3) r = -EBADF; else { r = readfd(f, (u8*)a[1], (u64)a[2], f.pos); if (r > 0) f.pos += r; } } break;
    case SYS_pread64: if (!FDOK(0) || S->fd[a[0]].kind != 1) r = -EBADF; else r = readfd(S->fd[a[0]], (u8*)a[1], (u64)a[2], (u64)a[3]); break;
    case SYS_readv: if (!FDOK(0) || S->fd[a[0]].kind != 1) r = FDOK(0) && S->fd[a[0]].kind == 4 ? 0 : -EBADF; else { r = 0; const iovec* v = (const iovec*)a[1]; for (int i = 0; i < (int)a[2]; i++) { i64 k = readfd(S->fd[a[0]], (u8*)v[i].iov_base, v[i].iov_len, S->fd[a[0]].pos); S->fd[a[0]].pos += k; r += k; if ((u64)k < v[i].iov_len) break; } } break;
    case SYS_write: if (!FDOK(0)) r = -EBADF; else r = writefd((int)a[0], (const u8*)a[1], std::min<u64>((u64)a[2], j.lim)); break;
    case SYS_pwrite64: if (!FDOK(0) || S->fd[a[0]].kind != 1) r = -EBADF; else { u64 keep = S->fd[a[0]].pos; S->fd[a[0]].pos = (u64)a[3]; r = writefd((int)a[0], (const u8*)a[1], std::min<u64>((u64)a[2], j.lim)); S->fd[a[0]].pos = keep; } break;
    case SYS_writev: if (!FDOK(0)) r = -EBADF; else { r = 0; u64 left = j.lim; for (int i = 0; i < niv && left; i++) { u64 m = std::min<u64>(iv[i].iov_len, left); i64 k = writefd((int)a[0], (const u8*)iv[i].iov_base, m); if (k < 0) { if (!r) r = k; break; } r += k; left -= (u64)k; if ((u64)k < iv[i].iov_len) break; } } break;
    case SYS_lseek: if (!FDOK(0) || S->fd[a[0]].kind > 2) r = FDOK(0) ? -ESPIPE : -EBADF; else { Fd& f = S->fd[a[0]]; i64 b = a[2] == 0 ? 0 : a[2] == 1 ? (i64)f.pos : a[2] == 2 ? (i64)S->in[f.ino].size : -1; if (b < 0 || b + a[1] < 0) r = -EINVAL; else r = (i64)(f.pos = (u64)(b + a[1])); } break;
    case SYS_stat: r = do_stat(AT_FDCWD, PATH(0), 0, (struct stat*)a[1]); break;
    case SYS_lstat: r = do_stat(AT_FDCWD, PATH(0), AT_SYMLINK_NOFOLLOW, (struct stat*)a[1]); break;
    case SYS_fstat: r = do_stat((int)a[0], "", AT_EMPTY_PATH, (struct stat*)a[1]); break;
    case SYS_newfstatat: r = do_stat((int)a[0], PATH(1), (int)a[3], (struct stat*)a[2]); break;
    case SYS_statx: { struct stat st; r = do_stat((int)a[0], PATH(1), (int)a[2], &st); if (!r) { struct statx* x = (struct statx*)a[4]; memset(x, 0, sizeof *x); x->stx_mask = 0x7ff; x->stx_blksize = 4096; x->stx_nlink = (u32)st.st_nlink; x->stx_uid = x->stx_gid = (u32)UID; x->stx_mode = (uint16_t)st.st_mode; x->stx_ino = st.st_ino; x->stx_size = (u64)st.st_size; x->stx_blocks = (u64)st.st_blocks; x->stx_mtime.tv_sec = st.st_mtim.tv_sec; } break; }
    case SYS_access: case SYS_faccessat: case SYS_faccessat2: { int k = nr != SYS_access; struct stat st; r = do_stat(k ? (int)a[0] : AT_FDCWD, PATH(k), 0, &st); if (!r && ((a[k + 1] & 4 && !(st.st_mode & 0400)) || (a[k + 1] & 2 && !(st.st_mode & 0200)) || (a[k + 1] & 1 && !(st.st_mode & 0100)))) r = -EACCES; break; }
    case SYS_readlink: case SYS_readlinkat: { int k = nr == SYS_readlinkat; int e; int d = atdir(k ? (int)a[0] : AT_FDCWD, PATH(k), e); if (e) { r = -e; break; } static Res q; resolve(d, PATH(k), false, q); if (q.err) r = -q.err; else if (q.ino < 0) r = -ENOENT; else if (S->in[q.ino].type != T_LINK) r = -EINVAL; else { u64 n = std::min<u64>((u64)a[k + 2], S->in[q.ino].size); memcpy((void*)a[k + 1], S->arena + S->in[q.ino].off, n); r = (i64)n; } break; }
    case SYS_unlink: r = do_unlink(AT_FDCWD, PATH(0), false); break;
    case SYS_rmdir: r = do_unlink(AT_FDCWD, PATH(0), true); break;
    case SYS_unlinkat: r = do_unlink((int)a[0], PATH(1), a[2] & AT_REMOVEDIR); break;
    case SYS_rename: r = do_rename(AT_FDCWD, PATH(0), AT_FDCWD, PATH(1), 0); break;
    case SYS_renameat: case SYS_renameat2: r = do_rename((int)a[0], PATH(1), (int)a[2], PATH(3), nr == SYS_renameat2 ? (unsigned)a[4] : 0); break;
    case SYS_mkdir: r = do_mkdir(AT_FDCWD, PATH(0), (u32)a[1]); break;
    case SYS_mkdirat: r = do_mkdir((int)a[0], PATH(1), (u32)a[2]); break;
    case SYS_link: case SYS_linkat: { int k = nr == SYS_linkat; int e; int d = atdir(k ? (int)a[0] : AT_FDCWD, PATH(k), e); static Res q, w; resolve(d, PATH(k), false, q); int d2 = atdir(k ? (int)a[2] : AT_FDCWD, PATH(k ? 3 : 1), e); resolve(d2, PATH(k ? 3 : 1), false, w); if (q.err || w.err) r = -(q.err ? q.err : w.err); else if (q.ino < 0) r = -ENOENT; else if (w.ino >= 0) r = -EEXIST; else { adddent(w.dir, w.last, w.n, q.ino); jrn(J_LINK, canon(w.dir, w.last, w.n)); r = 0; } break; }
    case SYS_symlink: case SYS_symlinkat: { int k = nr == SYS_symlinkat; int e; int d = atdir(k ? (int)a[1] : AT_FDCWD, PATH(k ? 2 : 1), e); static Res q; resolve(d, PATH(k ? 2 : 1), false, q); if (q.err) r = -q.err; else if (q.ino >= 0) r = -EEXIST; else { int i = newino(T_LINK, 0777); S->in[i].size = strlen(PATH(0)); S->in[i].off = str(PATH(0), S->in[i].size); adddent(q.dir, q.last, q.n, i); jrn(J_SYMLINK, canon(q.dir, q.last, q.n)); r = 0; } break; }
    case SYS_ftruncate: if (!FDOK(0) || S->fd[a[0]].kind != 1) r = -EBADF; else { settrunc(S->fd[a[0]].ino, (u64)a[1]); jrn(J_TRUNC, S->fd[a[0]].path); r = 0; } break;
    case SYS_truncate: { static Res q; resolve(S->cwd, PATH(0), true, q); if (q.err) r = -q.err; else if (q.ino < 0) r = -ENOENT; else if (S->in[q.ino].type != T_FILE) r = -EISDIR; else { settrunc(q.ino, (u64)a[1]); jrn(J_TRUNC, canon(q.dir, q.last, q.n)); r = 0; } break; }
    case SYS_fallocate: r = -EOPNOTSUPP; break;
    case SYS_fsync: case SYS_fdatasync: if (!FDOK(0)) r = -EBADF; else { if (S->fd[a[0]].kind == 1) S->in[S->fd[a[0]].ino].dirty = ~0ull; S->mdur = S->nm; r = 0; } break;
    case SYS_sync: case SYS_syncfs: for (int i = 0; i < S->ni; i++) S->in[i].dirty = ~0ull; S->mdur = S->nm; r = 0; break;
    case SYS_chmod: case SYS_fchmodat: case SYS_fchmod: { if (nr == SYS_fchmod) { if (!FDOK(0)) { r = -EBADF; break; } S->in[S->fd[a[0]].ino].mode = (u32)a[1] & 0777; jrn(J_CHMOD, S->fd[a[0]].path); r = 0; break; } int k = nr == SYS_fchmodat; int e; int d = atdir(k ? (int)a[0] : AT_FDCWD, PATH(k), e); static Res q; resolve(d, PATH(k), true, q); if (q.err) r = -q.err; else if (q.ino < 0) r = -ENOENT; else { S->in[q.ino].mode = (u32)a[k + 1] & 0777; jrn(J_CHMOD, canon(q.dir, q.last, q.n)); r = 0; } break; }
    case SYS_utimensat: { if (!PATH(1)) { r = FDOK(0) ? 0 : -EBADF; if (!r) jrn(J_UTIME, S->fd[a[0]].path); break; } int e; int d = atdir((int)a[0], PATH(1), e); static Res q; resolve(d, PATH(1), true, q); if (q.err) r = -q.err; else if (q.ino < 0) r = -ENOENT; else { jrn(J_UTIME, canon(q.dir, q.last, q.n)); r = 0; } break; }
    case SYS_getdents64: if (!FDOK(0) || S->fd[a[0]].kind != 2) r = -ENOTDIR; else { Fd& f = S->fd[a[0]]; u8* b = (u8*)a[1]; u64 n = 0; r = 0; for (;; f.pos++) { const char* nm; size_t l; int ino; if (f.pos == 0) { nm = "."; l = 1; ino = f.ino; } else if (f.pos == 1) { nm = ".."; l = 2; ino = parentof(f.ino); } else { while (f.pos - 2 < (u64)S->nd && !(S->de[f.pos - 2].alive && S->de[f.pos - 2].dir == f.ino)) f.pos++; if (f.pos - 2 >= (u64)S->nd) break; Dent& d = S->de[f.pos - 2]; nm = sp(d.name); l = d.len; ino = d.ino; } u64 rl = (19 + l + 1 + 7) & ~7ull; if (n + rl > (u64)a[2]) { if (!n) r = -EINVAL; break; } u64 in = (u64)ino + 2, of = f.pos + 1; memcpy(b + n, &in, 8); memcpy(b + n + 8, &of, 8); { uint16_t q = (uint16_t)rl; memcpy(b + n + 16, &q, 2); } b[n + 18] = S->in[ino].type == T_DIR ? DT_DIR : S->in[ino].type == T_LINK ? DT_LNK : DT_REG; memcpy(b + n + 19, nm, l); b[n + 19 + l] = 0; n += rl; } if (r == 0) r = (i64)n; } break;
    case SYS_getcwd: { char b[1024]; size_t n = dirpath(S->cwd, b, 1000); if (!n) b[n++] = '/'; b[n++] = 0; if ((u64)a[1] < n) r = -ERANGE; else { memcpy((void*)a[0], b, n); r = (i64)n; } break; }
    case SYS_chdir: { static Res q; resolve(S->cwd, PATH(0), true, q); if (q.err) r = -q.err; else if (q.ino < 0) r = -ENOENT; else if (S->in[q.ino].type != T_DIR) r = -ENOTDIR; else { S->cwd = q.ino; r = 0; } break; }
    case SYS_fchdir: if (!FDOK(0) || S->fd[a[0]].kind != 2) r = -ENOTDIR; else { S->cwd = S->fd[a[0]].ino; r = 0; } break;
    case SYS_dup: case SYS_dup2: case SYS_dup3: { if (!FDOK(0)) { r = -EBADF; break; } int n = nr == SYS_dup ? newfd() : (int)a[1]; if (n < 0 || n >= 128) { r = -EMFILE; break; } S->fd[n] = S->fd[a[0]]; r = n; break; }
    case SYS_fcntl: if (!FDOK(0)) r = -EBADF; else if (a[1] == F_SETLK || a[1] == F_SETLKW || a[1] == 37 || a[1] == 38) r = lockop(S->fd[a[0]], ((struct flock*)a[2])->l_type == F_UNLCK ? 2 : 0, a[1] == F_SETLK || a[1] == 37); else if (a[1] == F_GETFL) r = S->fd[a[0]].kind == 3 ? O_WRONLY : S->fd[a[0]].fl & ~(O_CREAT | O_TRUNC | O_EXCL); else if (a[1] == F_DUPFD || a[1] == F_DUPFD_CLOEXEC) { int n = newfd(); if (n < 0) r = -EMFILE; else { S->fd[n] = S->fd[a[0]]; r = n; } } else r = 0; break;
    case SYS_ioctl: r = FDOK(0) && S->fd[a[0]].kind >= 3 && S->outkind == 1 && a[1] == 0x5401 ? 0 : -ENOTTY; break;
    case SYS_poll: case SYS_ppoll: { pollfd* p = (pollfd*)a[0]; r = 0; for (int i = 0; i < (int)a[1]; i++) { p[i].revents = p[i].events & (POLLIN | POLLOUT); if (p[i].revents) r++; } break; }
    case SYS_statfs: case SYS_fstatfs: { struct statfs* b = (struct statfs*)a[1]; memset(b, 0, sizeof *b); b->f_type = 0xEF53; b->f_bsize = 4096; b->f_blocks = 1 << 20; u64 av = S->capacity > S->used ? (S->capacity - S->used) / 4096 : 0; b->f_bfree = b->f_bavail = std::min<u64>(av, 1 << 20); b->f_namelen = 255; r = 0; break; }
    case SYS_flock: r = FDOK(0) ? lockop(S->fd[a[0]], a[1] & 8 ? 2 : 0, a[1] & 4) : -EBADF; break;
    case SYS_fadvise64: case SYS_madvise: r = nr == SYS_madvise ? raw(nr, g) : 0; break;
    case SYS_sendfile: case SYS_copy_file_range: r = -EINVAL; break;
    case SYS_umask: r = S->umask_; S->umask_ = (int)a[0] & 0777; break;
    case SYS_getpid: case SYS_gettid: case SYS_set_tid_address: r = (i64)(1000 + S->id % 7500 * NP + (u64)S->cur); break;
    case SYS_getppid: case SYS_getpgrp: case SYS_getsid: r = (i64)(900 + (S->id >> 20) % 100); break;
    case SYS_getuid: case SYS_geteuid: case SYS_getgid: case SYS_getegid: r = UID; break;
    case SYS_uname: { utsname* u = (utsname*)a[0]; memset(u, 0, sizeof *u); snprintf(u->nodename, 60, "host%u", (unsigned)(S->id >> 8 & 0xffff)); strcpy(u->sysname, "Linux"); strcpy(u->release, "6.1.0"); strcpy(u->machine, "x86_64"); r = 0; break; }
    case SYS_getrandom: for (i64 i = 0; i < a[1]; i++) ((u8*)a[0])[i] = (u8)S->env.next(); r = a[1]; break;
    case SYS_time: { i64 s, n; puttime(simclock(true), &s, &n); if (a[0]) *(i64*)a[0] = s; r = s; break; }
    case SYS_gettimeofday: { i64 s, n; puttime(simclock(true), &s, &n); if (a[0]) { ((i64*)a[0])[0] = s; ((i64*)a[0])[1] = n / 1000; } r = 0; break; }
    case SYS_clock_gettime: { bool real = a[0] == 0 || a[0] == 5 || a[0] == 11; i64 s, n; i64 c = real ? simclock(true) : (i64)S->simns + 1000000000ll * (i64)(S->id % 100000); puttime(c, &s, &n); ((i64*)a[1])[0] = s; ((i64*)a[1])[1] = n; r = 0; break; }
    case SYS_clock_getres: if (a[1]) { ((i64*)a[1])[0] = 0; ((i64*)a[1])[1] = 1; } r = 0; break;
    case SYS_nanosleep: case SYS_clock_nanosleep: { const i64* t = (const i64*)(nr == SYS_nanosleep ? a[0] : a[2]); i64 d = t[0] * 1000000000 + t[1]; if (nr == SYS_clock_nanosleep && (a[1] & 1)) d = std::max<i64>(0, d - S->clock); S->clock += d; S->simns += (u64)d; S->slept++; r = 0; yieldturn(); break; }
    case SYS_times: case SYS_getrusage: memset((void*)(nr == SYS_times ? a[0] : a[1]), 0, nr == SYS_times ? 32 : 144); r = nr == SYS_times ? (i64)(S->simns / 10000000) : 0; break;
    case SYS_sysinfo: memset((void*)a[0], 0, sizeof(struct sysinfo)); ((struct sysinfo*)a[0])->mem_unit = 1; ((struct sysinfo*)a[0])->totalram = 1ull << 33; ((struct sysinfo*)a[0])->freeram = 1ull << 32; r = 0; break;
    case SYS_sched_getaffinity: if (a[1] >= 8) { *(u64*)a[2] = (u64[]){15, 1, 3, 255, 65535}[S->id % 5]; r = 8; } else r = -EINVAL; break;
    case SYS_sched_yield: r = 0; yieldturn(); break;
    case SYS_rt_sigprocmask: case SYS_rt_sigaction: case SYS_sigaltstack: case SYS_alarm: case SYS_setitimer: case SYS_prctl: r = 0; if (nr == SYS_rt_sigprocmask && a[2]) memset((void*)a[2], 0, 8); if (nr == SYS_rt_sigaction && a[2]) memset((void*)a[2], 0, 32); break;
    case SYS_prlimit64: case SYS_getrlimit: { u64* b = (u64*)(nr == SYS_getrlimit ? a[1] : a[3]); if (b) b[0] = b[1] = a[nr == SYS_getrlimit ? 0 : 1] == RLIMIT_NOFILE ? 1024 : ~0ull; r = 0; break; }
    case SYS_futex: r = (a[1] & 127) == 1 ? 0 : -EAGAIN; break;
    case SYS_mmap: if ((int)a[4] >= 0) { if (!FDOK(4) || S->fd[a[4]].kind != 1) { r = -ENODEV; break; } Inode& x = S->in[S->fd[a[4]].ino]; if ((a[3] & MAP_SHARED) && (a[2] & PROT_WRITE)) { r = -ENODEV; break; } void* p = mmap((void*)a[0], (size_t)a[1], PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) { r = -ENOMEM; break; } if ((u64)a[5] < x.size) memcpy(p, S->arena + x.off + a[5], std::min<u64>((u64)a[1], x.size - (u64)a[5])); r = (i64)p; break; } r = raw(nr, g); break;
    case SYS_munmap: case SYS_mremap: case SYS_mprotect: case SYS_brk: r = raw(nr, g); break;
    case SYS_exit: case SYS_exit_group: S->log = fnv(S->log, S->ord * 3 + (u64)(u8)a[0]); finish(R_EXIT, (int)(a[0] & 255));
    case SYS_tgkill: case SYS_kill: case SYS_tkill: { int sg = (int)(nr == SYS_tgkill ? a[2] : a[1]); if (sg == 0) { r = 0; break; } finish(R_SIGNAL, sg); }
    default: r = -ENOSYS; // clone, fork, execve, socket, mount ...: refused
    }
    if (j.kill) crashnow(j);
    return r;
}
static void on_sys(int, siginfo_t* si, void* uc_)
{
    SEL = 0; ucontext_t* uc = (ucontext_t*)uc_; auto& g = uc->uc_mcontext.gregs; long nr = si->si_syscall; S->nsys++;
    i64 a[6] = {g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]};
    if (nr == SYS_brk && a[0] == 0) { g[REG_RAX] = raw(nr, g); SEL = 1; return; }
    int keep = errno; i64 r = dosys(nr, g, a); errno = keep;
    int c = classof(nr, a[0]); if (c == C_MEM && r < 0 && nr == SYS_brk) r = syscall(SYS_brk, 0);
    if (c != C_MEM && nr != SYS_munmap && nr != SYS_madvise && nr != SYS_mprotect) { S->log = fnv(fnv(S->log, (u64)nr), (u64)r); S->cover = fnv(S->cover, (u64)nr << 16 ^ (u64)r); }
    else S->log = fnv(S->log, (u64)nr * 2 + (r < 0 && r > -4096));
    if (S->tracefd >= 0) { if (S->nproc > 1) trace("generator %d:", S->cur); const char* p = nr == SYS_openat || nr == SYS_newfstatat || nr == SYS_unlinkat ? (const char*)a[1] : nr == SYS_open || nr == SYS_unlink || nr == SYS_stat || nr == SYS_lstat || nr == SYS_rename ? (const char*)a[0] : nullptr; trace("%llu %s syscall %ld(%s%lld) = %lld", (unsigned long long)S->ord, CN[c], nr, p ? p : "", p ? 0ll : (long long)(c == C_MEM ? 0 : a[0]), (long long)(c == C_MEM ? 0 : r)); }
    g[REG_RAX] = r; SEL = 1;
}
__asm__(R"(
.text
.globl sim_sigret
.p2align 4
sim_sigret:
    movq $15,%rax
    syscall
.globl sim_sigret_end
sim_sigret_end:
    nop
)");
extern "C" char sim_sigret[], sim_sigret_end[];
struct ksigaction { void (*h)(int, siginfo_t*, void*); unsigned long flags; void (*restorer)(); unsigned long mask; };
static void rawsig(int sig, void (*h)(int, siginfo_t*, void*), int flags) { ksigaction k{h, (unsigned long)flags | 0x04000000, (void (*)())sim_sigret, 0}; syscall(SYS_rt_sigaction, sig, &k, nullptr, 8); }
static void on_crash(int sig, siginfo_t* si, void* uc_)
{
    ucontext_t* uc = (ucontext_t*)uc_; u8* ip = (u8*)uc->uc_mcontext.gregs[REG_RIP];
    if (sig == SIGSEGV && si->si_code == SI_KERNEL && ip && ip[0] == 0x0f && (ip[1] == 0x31 || (ip[1] == 0x01 && ip[2] == 0xf9))) { u64 t = (u64)simclock(false); auto& g = uc->uc_mcontext.gregs; g[REG_RAX] = (u32)t; g[REG_RDX] = t >> 32; g[REG_RIP] += ip[1] == 0x31 ? 2 : 3; if (ip[1] == 1) g[REG_RCX] = 0; return; }
    S->log = fnv(S->log, 4000 + sig); finish(sig == SIGVTALRM ? R_HANG : R_SIGNAL, sig);
}
// ---- symbols that would not enter the kernel
struct Quiet { u8 k; Quiet() : k(SEL) { SEL = 0; } ~Quiet() { SEL = k; } };
#define EXP extern "C" __attribute__((visibility("default")))
static bool insim() { return SEL; }
// environment variables the simulated machine has not set on purpose may be set all the same (ENVID; G05 only)
static u64 ENVID;
EXP char* getenv(const char* n)
{
    size_t l = strlen(n); for (char** e = environ; e && *e; e++) if (!strncmp(*e, n, l) && (*e)[l] == '=') return *e + l + 1;
    static const char* own[] = {"TMP", "TEMP", "HOME", "PATH", "LANG", "LC_", "TZ", "GLIBC", "LD_", "MALLOC_", "PWD"}; if (!insim() || !ENVID) return nullptr; for (auto o : own) if (!strncmp(n, o, strlen(o))) return nullptr;
    static const char* val[] = {"1", "0", "42", "", "yes", "/home/u", "1600000007", "x y", "-1", "4294967297"}; u64 h = mix(ENVID ^ fnvs(31, n, l)); if (h % 10 < 5) return nullptr; return (char*)val[h / 16 % 10];
}
EXP char* secure_getenv(const char* n) { return getenv(n); }
EXP time_t time(time_t* t) { if (!insim()) { struct timespec q; syscall(SYS_clock_gettime, 0, &q); if (t) *t = q.tv_sec; return q.tv_sec; } i64 s, n; { Quiet q; puttime(simclock(true), &s, &n); } if (t) *t = s; return s; }
EXP int clock_gettime(clockid_t id, struct timespec* t) { return (int)syscall(SYS_clock_gettime, id, t); }
EXP int gettimeofday(struct timeval* t, void*) { return (int)syscall(SYS_gettimeofday, t, 0); }
EXP int timespec_get(struct timespec* t, int b) { syscall(SYS_clock_gettime, 0, t); return b; }
EXP clock_t clock() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec * 1000000 + t.tv_nsec / 1000; }
EXP u32 _ZNSt13random_device9_M_getvalEv(void*) { u32 v = 0; syscall(SYS_getrandom, &v, 4, 0); return v; }
EXP u32 _ZNSt13random_device16_M_getval_pretr1Ev(void*) { u32 v = 0; syscall(SYS_getrandom, &v, 4, 0); return v; }
EXP void _ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*, const void*) {}
EXP void _ZNSt13random_device7_M_initERKSs(void*, const void*) {}
EXP void _ZNSt13random_device14_M_init_pretr1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*, const void*) {}
EXP void _ZNSt13random_device7_M_finiEv(void*) {}

// ---- the simulated process has a heap of its own: nothing of the simulator's heap shows in a run
static u8* HEAP; static const u64 HEAPN = 1ull << 30; static u64 hpos, hgrown; static void* hfree[64]; static u8 hpoison; static bool hpois;
static int hclass(u64 n) { int c = 0; u64 z = 32; while (z < n) { z = c & 1 ? z / 3 * 4 : z / 2 * 3; c++; } return c; }
static u64 hsize(int c) { u64 z = 32; for (int i = 0; i < c; i++) z = i & 1 ? z / 3 * 4 : z / 2 * 3; return (z + 15) & ~15ull; }
static void* halloc(u64 n, u64 al)
{
    if (n > HEAPN / 4) { errno = ENOMEM; return nullptr; } int c = hclass(n + 16); u64 z = hsize(c); void* p;
    if (al <= 16 && hfree[c]) { p = hfree[c]; hfree[c] = *(void**)p; } else {
        u64 o = (hpos + 16 + al - 1) & ~(al - 1); if (o + z > HEAPN) { errno = ENOMEM; return nullptr; }
        if (o + z > hgrown) { Quiet q; Inj j = inject(C_MEM, 0); if (j.kill) crashnow(j); if (j.err) { errno = ENOMEM; return nullptr; } hgrown = (o + z + (1 << 17)) & ~((1ull << 17) - 1); }
        p = HEAP + o; hpos = o + z - 16; ((u64*)p)[-1] = (u64)c;
    }
    if (hpois) memset(p, hpoison, n); return p;
}
static bool inheap(void* p) { return (u8*)p >= HEAP && (u8*)p < HEAP + HEAPN; }
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_realloc(void*, size_t); void* __libc_calloc(size_t, size_t); void* __libc_memalign(size_t, size_t); }
EXP void* malloc(size_t n) { return insim() ? halloc(n, 16) : __libc_malloc(n); }
EXP void free(void* p) { if (!p) return; if (inheap(p)) { u64 c = ((u64*)p)[-1]; if (c > 60) { Quiet q; finish(R_SIGNAL, SIGABRT); } if (hpois) memset(p, hpoison ^ 0xff, hsize((int)c) - 16); *(void**)p = hfree[c]; hfree[c] = p; } else if (!insim()) __libc_free(p); }
EXP void* calloc(size_t a, size_t b) { if (!insim()) return __libc_calloc(a, b); if (b && a > ~0ull / b) { errno = ENOMEM; return nullptr; } void* p = halloc(a * b, 16); if (p) memset(p, 0, a * b); return p; }
EXP void* realloc(void* p, size_t n) { if (!p) return malloc(n); if (!inheap(p) && !insim()) return __libc_realloc(p, n); if (!n) { free(p); return nullptr; } if (!inheap(p)) { void* q = halloc(n, 16); if (q) memcpy(q, p, std::min(n, malloc_usable_size(p))); return q; } u64 have = hsize((int)((u64*)p)[-1]) - 16; if (n <= have) return p; void* q = halloc(n, 16); if (q) { memcpy(q, p, have); free(p); } return q; }
EXP void* memalign(size_t al, size_t n) { return insim() ? halloc(n, std::max<size_t>(al, 16)) : __libc_memalign(al, n); }
EXP void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
EXP int posix_memalign(void** o, size_t al, size_t n) { void* p = memalign(al, n); if (!p) return ENOMEM; *o = p; return 0; }

#include "plans.inc"
