// Plans: generation, execution, oracles, minimisation (included by gensim.cpp)
struct FsEnt { char kind; std::string path; u64 size, seed; u32 mode; };              // d directory, f file of seeded bytes, l symlink (size unused, text in link), h hard link to the file named by link
struct Edit { char kind; std::string name; u64 a, b; };                                // before an incarnation: t truncate, a append, x flip a byte, d delete, g replace, m chmod
struct Inc { i64 clock = 0; std::vector<std::string> args; std::string cwd; u64 id = 0; int outkind = 0; u64 cap = ~0ull; std::vector<Edit> edits; std::vector<Fault> f; Pol pol; bool clean = true; int crew = 0; std::string target; };   // consecutive incarnations with the same crew > 0 run at the same time; target: where, if not the plan's
struct Plan { std::string prop, variant; std::vector<FsEnt> fs; std::vector<std::string> link; std::vector<Inc> inc; std::string target; std::map<std::string, i64> cfg; i64 get(const char* k, i64 d = 0) const { auto i = cfg.find(k); return i == cfg.end() ? d : i->second; } };
struct Viol { std::string kind, where, detail; };
struct Out { u64 h, n; };
typedef std::map<std::string, Out> Corpus;
struct IncRes { int outcome, code; i64 first; bool read; int j0, j1; u64 muts; int exam; u64 mut_at_ext; bool ext; Corpus c; bool have; u64 nsys; std::string text[2]; };
static std::vector<std::string> OUTS; static std::unordered_set<std::string> OUTSET;
static int (*MAIN2)(int, char**); static int (*MAIN0)(); static std::vector<void (*)()> CTORS;
static u8* STK; static const u64 STKN = 4 << 20; static u8* ALT;
static bool g_have; static Viol g_viol; static u64 g_log, g_cover; static int g_tracefd = -1;
struct Stats { u64 runs, incs, syscalls, ok, failed, refs, skipped, simns, rechecked, ndet, mutations, clocks, blocks, corpora; u64 outcomes[8]; u64 fired[NFK], errs[NC]; double simsecs; } ST;
static std::unordered_set<u64> SCHED; static std::set<i64> CLOCKS;
static int QP;
static void violation(const std::string& k, const std::string& w, const std::string& d) { if (g_have) return; g_have = true; g_viol = {k, w, d}; }

// ------------------------------------------------------------------------------- preparing the simulated machine
static void resetfs() { S->ni = S->nd = S->nm = S->mdur = 0; S->apos = 0; S->nj = 0; S->simfull = false; S->used = 0; memset(S->fired, 0, sizeof S->fired); memset(S->errs, 0, sizeof S->errs); newino(T_DIR, 0755); S->in[0].nlink = 1; }
static int mkpath(const std::string& path, u8 type, u32 mode)
{
    size_t i = 0; int d = 0;
    for (;;) { while (i < path.size() && path[i] == '/') i++; if (i >= path.size()) return d; size_t j = path.find('/', i); if (j == std::string::npos) j = path.size(); bool last = j == path.size(); int de = find(d, path.data() + i, j - i); int ino; if (de >= 0) ino = S->de[de].ino; else { ino = newino(last ? type : T_DIR, last ? mode : 0755); adddent(d, path.data() + i, j - i, ino, false); } d = ino; i = j; }
}
static int lookup(const std::string& path) { size_t i = 0; int d = 0; for (;;) { while (i < path.size() && path[i] == '/') i++; if (i >= path.size()) return d; size_t j = path.find('/', i); if (j == std::string::npos) j = path.size(); int de = find(d, path.data() + i, j - i); if (de < 0) return -1; d = S->de[de].ino; i = j; } }
static void fillfile(int ino, u64 n, u64 seed) { Inode& x = S->in[ino]; x.size = 0; if (!grow(x, n)) return; Rng r(seed); u8* b = S->arena + x.off; static const char* words[] = {"void func17()\n{\n", "#include \"file3.h\"\n", "auto a = vec3(1.0f);\n", "}\n\n", "\0\0\0\0", "garbage ", "int main() {\n"}; bool text = seed & 1; for (u64 i = 0; i < n;) { if (text) { const char* w = words[r.below(7)]; for (; *w && i < n; w++) b[i++] = (u8)*w; if (!*w && i < n && r.below(9) == 0) b[i++] = '\n'; } else { u64 v = r.next(); for (int k = 0; k < 8 && i < n; k++) b[i++] = (u8)(v >> 8 * k); } } x.size = n; S->used += n; }
static void buildfs(const Plan& p)
{
    resetfs(); mkpath("/home/u", T_DIR, 0755); mkpath("/tmp", T_DIR, 0777); mkpath("/etc", T_DIR, 0755); mkpath("/dev/null", T_NULL, 0666);
    size_t li = 0;
    for (auto& e : p.fs) {
        if (e.kind == 'd') { int i = mkpath(e.path, T_DIR, e.mode); S->in[i].mode = e.mode; }
        else if (e.kind == 'f') { int i = mkpath(e.path, T_FILE, e.mode); if (S->in[i].type == T_FILE) fillfile(i, e.size, e.seed); }
        else if (e.kind == 'h') { int i = lookup(p.link[e.seed]); size_t k = e.path.rfind('/'); int d = lookup(e.path.substr(0, k)); if (i > 0 && d >= 0 && S->in[i].type == T_FILE && lookup(e.path) < 0) adddent(d, e.path.data() + k + 1, e.path.size() - k - 1, i, false); }
        else if (e.kind == 'l') { int i = mkpath(e.path, T_LINK, 0777); const std::string& t = p.link[e.seed]; S->in[i].size = t.size(); S->in[i].off = str(t.data(), t.size()); }
        li++;
    }
    std::string t = p.target; size_t k = t.rfind('/'); int d = lookup(k ? t.substr(0, k) : "/"); S->targetdir = d < 0 ? 0 : d; S->targetname = str(t.data() + k + 1, t.size() - k - 1);
    endinc();
}
static void applyedit(const std::string& target, const Edit& e)
{
    int d = lookup(target); if (d < 0 || S->in[d].type != T_DIR) return; int de = find(d, e.name.data(), e.name.size());
    if (e.kind == 'g') { int ino = de >= 0 ? S->de[de].ino : -1; if (ino < 0) { ino = newino(T_FILE, 0644); adddent(d, e.name.data(), e.name.size(), ino, false); } if (S->in[ino].type == T_FILE) fillfile(ino, e.a, e.b); return; }
    if (de < 0) return; Inode& x = S->in[S->de[de].ino]; if (x.type != T_FILE) return;
    switch (e.kind) { case 't': if (x.size) x.size = e.a % (x.size + 1); break; case 'a': { u64 n = x.size; if (grow(x, n + e.a)) { memset(S->arena + x.off + n, 'Z', e.a); x.size = n + e.a; } break; } case 'x': if (x.size) S->arena[x.off + e.a % x.size] ^= (u8)(1 + e.b % 255); break; case 'd': S->de[de].alive = false; x.nlink--; break; case 'm': x.mode = (u32)e.a; break; }
}
static void __attribute__((noreturn)) childmain(Inc* in)
{
    ENVID = QP == 5 ? in->id : 0;
    prctl(PR_SET_PDEATHSIG, SIGKILL); awaitturn();
    u64 id = in->id; Rng r(id);
    static const char* langs[] = {"LANG=C", "LANG=ru_RU.UTF-8", "LC_ALL=de_DE.UTF-8", "LANG=tr_TR"}; static const char* tzs[] = {"TZ=UTC", "TZ=<+0545>-5:45", "TZ=EST5EDT", "NOTZ=1"}; static char* env[8]; static char big[9000]; int ne = 0;
    env[ne++] = (char*)"PATH=/usr/bin:/bin"; env[ne++] = (char*)"HOME=/home/u"; env[ne++] = (char*)langs[id ? r.below(4) : 0]; env[ne++] = (char*)tzs[id ? r.below(4) : 0]; if (id && r.p(.3)) { size_t n = 10 + r.below(8000); memset(big, 'e', n); big[3] = '='; env[ne++] = big; } if (id && r.p(.3)) env[ne++] = (char*)"TMPDIR=/tmp"; env[ne] = nullptr; environ = env;
    if (id) { hpois = true; hpoison = (u8)r.next(); hpos = r.below(1 << 16) * 16; }
    static std::vector<char*> av; for (auto& s : in->args) av.push_back((char*)s.c_str()); av.push_back(nullptr);
    u64 pat = id ? r.next() : 0; u8* top = STK + STKN - 4096 - (id ? (r.below(3000) * 16) : 0); for (u64 i = 0; i < 300000; i += 8) *(u64*)(STK + ((STKN - 4096 - 8 - i) & ~7ull)) = pat; top = (u8*)((uintptr_t)top & ~15ull);
    stack_t ss{}; ss.ss_sp = ALT; ss.ss_size = 1 << 18; sigaltstack(&ss, nullptr);
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGVTALRM}) rawsig(s, on_crash, SA_SIGINFO | SA_NODEFER | SA_ONSTACK);
    rawsig(SIGSYS, on_sys, SA_SIGINFO | SA_NODEFER | SA_ONSTACK);
    itimerval tv{}; tv.it_value.tv_sec = 20; setitimer(ITIMER_VIRTUAL, &tv, nullptr); prctl(PR_SET_TSC, PR_TSC_SIGSEGV);
    if (prctl(PR_SET_SYSCALL_USER_DISPATCH, 1, (unsigned long)sim_sigret, (unsigned long)(sim_sigret_end - sim_sigret + 1), &SEL)) { S->outcome = R_SIM; _exit(7); }
    static ucontext_t c; getcontext(&c); c.uc_stack.ss_sp = STK; c.uc_stack.ss_size = (size_t)(top - STK); c.uc_link = nullptr; static int ac = (int)in->args.size();
    makecontext(&c, (void (*)())+[] { SEL = 1; for (auto f : CTORS) f(); int rc = MAIN2 ? MAIN2(ac, av.data()) : MAIN0(); exit(rc); }, 0); setcontext(&c); _exit(7);
}
static Corpus snapshot(int dir) { Corpus c; for (int i = 0; i < S->nd; i++) { Dent& d = S->de[i]; if (!d.alive || d.dir != dir) continue; Inode& x = S->in[d.ino]; std::string n(sp(d.name), d.len); if (!OUTSET.count(n)) continue; if (x.type != T_FILE) c[n] = {0, ~0ull}; else c[n] = {fnvs(5, S->arena + x.off, x.size), x.size}; } return c; }
static void startproc(Inc& in, bool rec, u64 decseed, int k)
{
    Proc& s = *S; for (auto& f : s.fd) f.kind = 0; s.fd[0].kind = 4; s.fd[1].kind = s.fd[2].kind = 3; s.fd[1].path = 0; s.fd[2].path = 1; if (in.id % 5 == 1) for (int i = 0; i < (int)(in.id / 5 % 9); i++) s.fd[3 + i * (int)(1 + in.id / 50 % 3)].kind = 5; int cw = lookup(in.cwd); s.cwd = cw < 0 ? 0 : cw;
    s.ord = 0; s.readclock = false; s.firstread = 0; s.env = Rng(in.id * 77 + 5 + (u64)k * 1000003); s.dec = Rng(decseed); s.pol = in.pol; s.id = in.id; s.umask_ = 022; s.slept = 0; s.nfaults_here = 0; memset(s.pers, 0, sizeof s.pers); s.outcome = R_NONE; s.code = 0;
    s.eintr_run = s.nclock = 0; s.tearing = false; s.exam = 0; s.outkind = in.outkind; s.mut_at_ext = s.mutations = s.nsys = 0; s.extdone = s.done = false; s.sinceswitch = 0;
    Faults& l = S->fl[k]; l.n = l.cur = 0; if (!rec) for (auto& f : in.f) if (l.n < NF) l.f[l.n++] = f;
}
// runs n incarnations at the same time (n = 1: one alone)
static std::vector<IncRes> runcrew(const Plan& p, Inc* in, int n, bool rec, u64 decseed, bool isref)
{
    Shared& s = *S; auto target = [&](int i) { return in[i].target.empty() ? p.target : in[i].target; }; for (int i = 0; i < n; i++) for (auto& e : in[i].edits) applyedit(target(i), e);
    s.bound = 2000000; s.log = 99; s.cover = 98; s.clock = in[0].clock; s.rec = rec; s.capacity = in[0].cap == ~0ull ? 1ull << 40 : in[0].cap; s.simns = 0; s.tracefd = isref ? -1 : g_tracefd; int j0 = s.nj; s.nread = 0; s.ntext[0] = s.ntext[1] = 0; s.nproc = n; s.samedir = n > 1 && target(0) == target(1); for (int i = 0; i < s.ni; i++) s.in[i].lock = 0;
    for (int i = 0; i < n; i++) { startproc(in[i], rec, decseed + (u64)i * 5, i); s.save[i] = s; }
    *(Proc*)S = s.save[0]; s.cur = 0; s.turn = n > 1 ? -1 : 0; pid_t c[NP]; SEL = 0;
    for (int i = 0; i < n; i++) { ME = i; c[i] = fork(); if (!c[i]) childmain(&in[i]); if (c[i] < 0) { perror("fork"); _exit(3); } }
    if (n > 1) { s.turn = 0; syscall(SYS_futex, &s.turn, 1, NP, nullptr, nullptr, 0); }
    bool lost = false; for (int left = n; left;) { int st; pid_t w = waitpid(-1, &st, 0); if (w < 0) { if (errno == EINTR) continue; perror("wait"); _exit(3); } int k = 0; while (k < n && c[k] != w) k++; if (k == n) continue; left--; Proc& q = n > 1 ? s.save[k] : (Proc&)s;
        if (WIFSIGNALED(st) && !lost) { if (n > 1 && s.cur == k) s.save[k] = s; q.outcome = R_SIGNAL; q.code = WTERMSIG(st); if (n > 1) { lost = true; for (int i = 0; i < n; i++) if (i != k) kill(c[i], SIGKILL); } }
        if (!lost && (q.outcome == R_NONE || q.outcome == R_SIM)) { fprintf(stderr, "gensim: child left the simulator (status %x)\n", st); _exit(3); } }
    std::vector<IncRes> rs;
    for (int i = 0; i < n; i++) {
        Proc& t = n > 1 ? s.save[i] : (Proc&)s; IncRes q{}; if (rec) in[i].f.assign(s.fl[i].f, s.fl[i].f + s.fl[i].n);
        int tdir = lookup(target(i)); if (tdir >= 0 && S->in[tdir].type != T_DIR) tdir = -1;
        q.outcome = t.outcome; q.code = t.code; q.first = t.readclock ? t.firstread : in[i].clock / 1000000000; q.read = t.readclock; q.j0 = j0; q.j1 = s.nj; q.muts = t.mutations; q.exam = t.exam; q.mut_at_ext = t.mut_at_ext; q.ext = t.extdone; q.nsys = t.nsys; if (n == 1) for (int k = 0; k < 2; k++) q.text[k].assign(s.text[k], s.ntext[k]);
        if (tdir >= 0) { q.c = snapshot(tdir); q.have = true; }
        if (!isref) { ST.incs++; ST.syscalls += t.nsys; ST.outcomes[t.outcome]++; ST.mutations += t.mutations; if (t.outcome == R_EXIT) (t.code ? ST.failed : ST.ok)++; if (CLOCKS.size() < 1000000) CLOCKS.insert(q.first);
            g_log = fnv(fnv(g_log, s.log), (u64)t.outcome << 8 | t.code); for (auto& o : q.c) g_log = fnv(fnv(g_log, o.second.h), o.second.n); g_log = fnv(g_log, s.nj); g_cover = fnv(fnv(g_cover, s.cover), (u64)q.first); }
        rs.push_back(q);
    }
    endinc(); if (!isref) ST.simns += s.simns; return rs;
}
static IncRes runinc(const Plan& p, Inc& in, bool rec, u64 decseed, bool isref) { return runcrew(p, &in, 1, rec, decseed, isref)[0]; }
// ---- the undisturbed run at one clock second, in an empty directory
struct Ref { int outcome, code; Corpus c; u64 nsys; };
static std::unordered_map<i64, Ref> REFS;
static Ref& reference(i64 sec)
{
    auto it = REFS.find(sec); if (it != REFS.end()) return it->second; if (REFS.size() > 400) REFS.clear(); ST.refs++;
    Plan p; p.target = "/home/u/out"; p.fs.push_back({'d', "/home/u/out", 0, 0, 0755}); buildfs(p); Inc in; in.pol = Pol{}; in.clock = sec * 1000000000ll + 1000000; in.cwd = "/home/u"; in.args = {"benchgen", "out"};
    IncRes q = runinc(p, in, false, 1, true); return REFS[sec] = Ref{q.outcome, q.code, q.c, q.nsys};
}
static std::string diffcorpus(const Corpus& got, const Corpus& want, std::string& where)
{
    int bad = 0; std::string d; for (auto& n : OUTS) { auto a = got.find(n), b = want.find(n); if (b == want.end()) continue; if (a == got.end()) { if (!bad++) { where = n; d = n + " is missing"; } } else if (a->second.h != b->second.h || a->second.n != b->second.n) { if (!bad++) { where = n; d = n + " differs from the undisturbed run's (" + std::to_string(a->second.n) + " bytes, expected " + std::to_string(b->second.n) + ")"; } } }
    if (bad > 1) d += " and " + std::to_string(bad - 1) + " more files are wrong"; return d;
}
static std::string describe(const IncRes& r) { std::string s = RN[r.outcome]; if (r.outcome == R_EXIT) s += " with status " + std::to_string(r.code); if (r.outcome == R_SIGNAL) s += " " + std::to_string(r.code); return s; }
// ---- what the generator tells its user (G10): the lines of undisturbed runs with the same arguments, numbers aside
static std::vector<std::string> lines(const std::string& t) { std::vector<std::string> v; std::string l; bool word = false; auto put = [&] { while (!l.empty() && isspace((u8)l.back())) l.pop_back(); if (word) v.push_back(l); l.clear(); word = false; }; for (char c : t) { if (c == '\n' || c == '\r') put(); else if (isdigit((u8)c)) { if (l.empty() || l.back() != '#') l += '#'; word = true; } else { l += c; word |= !isspace((u8)c); } } put(); return v; }
struct Talk { std::set<std::string> usual; std::string done; int stream; };
static std::map<std::string, Talk> TALK;
static Talk& talk(const Plan& p, const Inc& in)
{
    std::string key = p.target + "\1" + in.cwd; for (auto& a : in.args) key += "\1" + a; auto it = TALK.find(key); if (it != TALK.end()) return it->second; if (TALK.size() > 3000) TALK.clear(); Talk& t = TALK[key]; t.stream = -1; bool once = true;
    for (int full = 0; full < 2; full++) {
        Plan q; q.target = p.target; q.link = p.link; for (auto& e : p.fs) if ((e.kind == 'd' && e.path == p.target) || (e.kind == 'l' && (e.path == "/home/u/lnk" || e.path == "/tmp/ln2"))) { q.fs.push_back(e); if (e.kind == 'd') q.fs.back().mode = 0755; }
        if (full) for (auto& o : OUTS) q.fs.push_back({'f', p.target + "/" + o, 10, 1, 0644});
        buildfs(q); Inc a; a.pol = Pol{}; a.clock = 1600000000001000000ll; a.cwd = in.cwd; a.args = in.args; IncRes r = runinc(q, a, false, 1, true); if (r.outcome != R_EXIT || r.code) continue;
        for (int k = 0; k < 2; k++) { auto v = lines(r.text[k]); t.usual.insert(v.begin(), v.end()); if (!v.empty() && (k == 0 || t.stream < 0)) { t.done = v.back(); t.stream = k; } if (t.stream == k && std::count(v.begin(), v.end(), t.done) != 1) once = false; }
    }
    if (!once) t.stream = -1;   // a line that other lines look like announces nothing
    return t;
}
static void told(Plan& p, size_t i, const IncRes& r)
{
    Inc& in = p.inc[i]; bool fail = (r.outcome == R_EXIT && r.code) || r.outcome == R_SIGNAL; if (r.outcome == R_BOUND || r.outcome == R_HANG) return; Talk& t = talk(p, in); auto shown = [](const std::string& s) { std::string o; for (char c : s.substr(0, 80)) o += isprint((u8)c) ? c : '?'; return o; };
    std::vector<std::string> v[2] = {lines(r.text[0]), lines(r.text[1])}; bool good = t.stream >= 0, said = false, after = false; if (good) { auto& l = v[t.stream]; for (auto& x : l) if (x == t.done) said = true; if (said && l.back() != t.done) after = true; }
    std::string pre = "incarnation " + std::to_string(i + 1) + " of " + std::to_string(p.inc.size()) + ": ";
    if (fail) {
        bool word = false; for (auto& l : v) for (auto& x : l) { bool usual = false; for (auto& u : t.usual) if (u.compare(0, x.size(), x) == 0) usual = true; word |= !usual; }
        if (!word) violation("failed without a word", "run", pre + "ended in: " + describe(r) + ", and printed nothing but what a successful run prints");
        else if (said) violation("announced success of a failed run", "run", pre + "printed '" + shown(t.done) + "' and ended in: " + describe(r));
        else if (p.get("name") && in.args.size() == 2 && (r.text[0] + r.text[1]).find(in.args[1]) == std::string::npos) violation("does not say which directory", "run", pre + "rejected '" + shown(in.args[1]) + "' without naming it: " + shown(r.text[0] + r.text[1]));
    } else if (r.outcome == R_EXIT) { if (good && (!said || after)) violation("success not announced", "run", pre + "ended with status 0, but its last words are '" + shown(v[t.stream].empty() ? "" : v[t.stream].back()) + "'"); }
    else if (said && r.outcome == R_KILLED) {
        Ref& f = reference(r.first); if (f.outcome != R_EXIT || f.code) { ST.skipped++; return; } std::string w, d = diffcorpus(r.c, f.c, w); if (d.empty()) for (auto& o : OUTS) if (!r.c.count(o)) { d = o + " was not written"; w = o; break; }
        if (!d.empty()) violation("announced success before the corpus was complete", w, pre + "killed after printing '" + shown(t.done) + "', but " + d); }
}
// ------------------------------------------------------------------------------- the corpus model
static std::unordered_map<u64, std::string> BLOCKS; static std::string* g_blocks; static u64 g_idx; static int g_files, g_mains; static void block(const char* k, const char* b, size_t n) { *g_blocks += std::string(k) + " " + std::to_string(g_idx) + " " + std::to_string(n) + "\n" + std::string(b, n) + "\n"; }
static std::string content(int dir, const std::string& n, bool& ok) { int de = find(dir, n.data(), n.size()); if (de < 0 || S->in[S->de[de].ino].type != T_FILE) { ok = false; return ""; } ok = true; Inode& x = S->in[S->de[de].ino]; return std::string((char*)S->arena + x.off, x.size); }
struct Sc { const char* p; const char* e; void ws() { for (;;) { while (p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) p++; if (p + 1 < e && p[0] == '/' && p[1] == '/') { while (p < e && *p != '\n') p++; continue; } if (p + 1 < e && p[0] == '/' && p[1] == '*') { p += 2; while (p + 1 < e && !(p[0] == '*' && p[1] == '/')) p++; p += 2; if (p > e) p = e; continue; } return; } } bool lit(const char* s) { ws(); size_t n = strlen(s); if ((size_t)(e - p) >= n && !memcmp(p, s, n)) { p += n; return true; } return false; } bool num(u64& v) { if (p >= e || *p < '0' || *p > '9') return false; const char* s = p; v = 0; while (p < e && *p >= '0' && *p <= '9') v = v * 10 + (*p++ - '0'); return p - s == 1 || *s != '0'; } bool skipto(char a) { ws(); while (p < e && *p != a) p++; return p < e; } };
// reads the list of functions declared by a header, or called in a body
static bool funcs(Sc& s, const char* pre, std::vector<u64>& out) { for (;;) { s.ws(); if (s.p >= s.e) return true; if (*pre && !s.lit(pre)) return false; u64 v; if (!s.lit("func") || !s.num(v)) return false; if (!s.lit("(") || !s.lit(")") || !s.lit(";")) return false; out.push_back(v); } }
// what the compiler has to see of this corpus (G08): every distinct function body and preamble, and the
// main file again whenever it or any header differs from all earlier ones; files that cannot be taken apart go whole
static void pieces(int dir)
{
    if (!g_blocks) return; bool ok; auto fresh = [&](u64 h) { return BLOCKS.emplace(h, "").second; };
    auto whole = [&](const std::string& n) { if (g_files++ < 24) block("FILE", n.data(), n.size()); };
    u64 mh = 17; { std::string m = content(dir, "main.cpp", ok); mh = fnvs(mh, m.data(), m.size()); }
    for (int i = 0; i < 100; i++) {
        std::string b = "file" + std::to_string(i), hn = b + ".h", cn = b + ".cpp"; std::string h = content(dir, hn, ok), c = content(dir, cn, ok); mh = fnvs(mh, h.data(), h.size());
        size_t first = c.find("\nvoid func"); if (first == std::string::npos) { if (fresh(fnvs(6, c.data(), c.size()))) whole(cn); continue; }
        std::string pre = c.substr(0, first); size_t k; while ((k = pre.find(hn)) != std::string::npos) pre.replace(k, hn.size(), "@H@"); if (fresh(fnvs(3, pre.data(), pre.size()))) block("PRE", pre.data(), pre.size());
        Sc t{c.data() + first, c.data() + c.size()};
        for (;;) {
            t.ws(); if (t.p >= t.e) break; u64 v; if (!t.lit("void") || !t.lit("func") || !t.num(v) || !t.lit("(") || !t.lit(")") || !t.lit("{")) { if (fresh(fnvs(6, c.data(), c.size()))) whole(cn); break; }
            const char *b0 = t.p, *blk = t.p; int depth = 1; bool odd = false; std::vector<std::pair<const char*, const char*>> parts;
            while (t.p < t.e && depth) { char q = *t.p; if (q == '{') depth++; else if (q == '}') { depth--; if (depth == 1) { parts.push_back({blk, t.p + 1}); blk = t.p + 1; } } else if (depth == 1 && !isspace((u8)q)) odd = true; t.p++; }
            if (depth) { if (fresh(fnvs(6, c.data(), c.size()))) whole(cn); break; }
            if (odd) { if (fresh(fnvs(4, b0, t.p - 1 - b0))) block("BLK", b0, t.p - 1 - b0); }
            else for (auto& x : parts) if (fresh(fnvs(4, x.first, x.second - x.first))) block("BLK", x.first, x.second - x.first);
        }
    }
    if (fresh(mh) && g_mains++ < 400) block("MAIN", "", 0);
}
static void model(int dir)
{
    bool ok; std::vector<u8> decl(10000), def(10000), call(10000); auto bad = [&](const std::string& w, const std::string& d) { violation("corpus not self-consistent", w, d); };
    for (int i = 0; i < 100; i++) {
        std::string b = "file" + std::to_string(i), hn = b + ".h", cn = b + ".cpp"; std::string h = content(dir, hn, ok); if (!ok) return bad(hn, hn + " does not exist"); std::string c = content(dir, cn, ok); if (!ok) return bad(cn, cn + " does not exist");
        Sc s{h.data(), h.data() + h.size()}; if (!s.lit("#pragma once") && !(s.lit("#ifndef"))) return bad(hn, hn + " has no include guard"); std::vector<u64> d; while (s.p < s.e) { s.ws(); if (s.p < s.e && *s.p == '#') { while (s.p < s.e && *s.p != '\n') s.p++; } else break; }
        { Sc t = s; if (!funcs(t, "void", d)) return bad(hn, hn + ": unexpected text where a declaration should be, at byte " + std::to_string(t.p - h.data())); }
        for (u64 v : d) { if (v >= 10000) return bad(hn, hn + " declares func" + std::to_string(v)); if (decl[v]) return bad(hn, "func" + std::to_string(v) + " is declared twice"); decl[v] = 1; }
        std::set<u64> ds(d.begin(), d.end());
        if (c.find("#include \"" + hn + "\"") == std::string::npos) return bad(cn, cn + " does not include " + hn);
        size_t first = c.find("\nvoid func"); if (first == std::string::npos) return bad(cn, cn + " defines no function"); 
        Sc t{c.data() + first, c.data() + c.size()}; size_t nd = 0;
        for (;;) {
            t.ws(); if (t.p >= t.e) break; u64 v; if (!t.lit("void") || !t.lit("func") || !t.num(v) || !t.lit("(") || !t.lit(")") || !t.lit("{")) return bad(cn, cn + ": unexpected text where a definition should be, at byte " + std::to_string(t.p - c.data()));
            if (v >= 10000) return bad(cn, cn + " defines func" + std::to_string(v)); if (def[v]) return bad(cn, "func" + std::to_string(v) + " is defined twice"); def[v] = 1; if (!ds.count(v)) return bad(cn, "func" + std::to_string(v) + " is defined in " + cn + " but not declared in " + hn); nd++;
            int depth = 1; bool stmt = false;
            while (t.p < t.e && depth) { char q = *t.p; if (q == '{') { depth++; } else if (q == '}') { depth--; } else if (q == ';' ) stmt = true; t.p++; }
            if (depth) return bad(cn, "func" + std::to_string(v) + " in " + cn + " has no closing brace"); if (!stmt) return bad(cn, "func" + std::to_string(v) + " in " + cn + " has an empty body");
        }
        if (nd != ds.size()) return bad(hn, hn + " declares " + std::to_string(ds.size()) + " functions, " + cn + " defines " + std::to_string(nd));
    }
    for (int v = 0; v < 10000; v++) { if (!decl[v]) return bad("headers", "func" + std::to_string(v) + " is declared nowhere"); if (!def[v]) return bad("sources", "func" + std::to_string(v) + " is defined nowhere"); }
    std::string m = content(dir, "main.cpp", ok); if (!ok) return bad("main.cpp", "main.cpp does not exist"); for (int i = 0; i < 100; i++) if (m.find("#include \"file" + std::to_string(i) + ".h\"") == std::string::npos) return bad("main.cpp", "main.cpp does not include file" + std::to_string(i) + ".h");
    size_t mp = m.find("int main("); if (mp == std::string::npos) return bad("main.cpp", "no main function"); Sc s{m.data() + mp, m.data() + m.size()}; if (!s.skipto('{')) return bad("main.cpp", "main has no body"); s.p++; { const char* q = m.data() + m.size(); std::string tail(s.p, q); size_t r = tail.rfind("return"); if (r != std::string::npos) s.e = s.p + r; else { r = tail.rfind('}'); if (r == std::string::npos) return bad("main.cpp", "main is not closed"); s.e = s.p + r; } if (std::string(s.e, q).find('}') == std::string::npos) return bad("main.cpp", "main is not closed"); }
    std::vector<u64> calls; if (!funcs(s, "", calls)) return bad("main.cpp", "unexpected text in main at byte " + std::to_string(s.p - m.data())); for (u64 v : calls) { if (v >= 10000) return bad("main.cpp", "main calls func" + std::to_string(v)); if (call[v]) return bad("main.cpp", "main calls func" + std::to_string(v) + " twice"); call[v] = 1; }
    for (int v = 0; v < 10000; v++) if (!call[v]) return bad("main.cpp", "main does not call func" + std::to_string(v));
    for (const char* sc : {"glm-build.sh", "zcm-build.sh"}) { std::string t = content(dir, sc, ok); if (!ok) return bad(sc, std::string(sc) + " does not exist"); std::set<std::string> w; std::string cur; for (char q : t) { if (isspace((u8)q) || q == '\\') { if (!cur.empty()) w.insert(cur); cur.clear(); } else cur += q; } if (!cur.empty()) w.insert(cur); if (!w.count("main.cpp")) return bad(sc, std::string(sc) + " does not compile main.cpp"); for (int i = 0; i < 100; i++) if (!w.count("file" + std::to_string(i) + ".cpp")) return bad(sc, std::string(sc) + " does not compile file" + std::to_string(i) + ".cpp"); }
}
// ------------------------------------------------------------------------------- execution and oracles
static bool underTarget(const std::string& path, const std::string& target) { if (path.size() <= target.size() + 1 || path.compare(0, target.size(), target) || path[target.size()] != '/') return false; return OUTSET.count(path.substr(target.size() + 1)); }
static bool execplan(Plan& p, bool rec, u64 seed, const std::string& dump = "")
{
    g_have = false; g_viol = Viol(); g_log = 1; g_cover = fnvs(7, p.target.data(), p.target.size()); ST.runs++; int q = QP = atoi(p.prop.c_str() + 1);
    buildfs(p); for (auto& e : p.fs) g_cover = fnv(g_cover, fnvs(e.size * 31 + e.kind, e.path.data(), e.path.size()));
    std::map<std::string, std::pair<u64, int>> before; // bystanders
    auto walk = [&](std::map<std::string, std::pair<u64, int>>& out) { for (int i = 0; i < S->nd; i++) { Dent& d = S->de[i]; if (!d.alive) continue; char b[1200]; size_t n = dirpath(d.dir, b, 1000); b[n++] = '/'; memcpy(b + n, sp(d.name), d.len); std::string path(b, n + d.len); if (underTarget(path, p.target)) continue; Inode& x = S->in[d.ino]; if (q == 9) { bool mine = false; for (auto& c : p.inc) mine |= !c.target.empty() && underTarget(path, c.target); if (mine) continue; } out[path] = {x.type == T_FILE || x.type == T_LINK ? fnvs(x.mode, S->arena + x.off, x.size) : x.type * 1000 + x.mode, d.ino}; } };
    if (q == 4 || q == 9) walk(before);
    std::vector<IncRes> rs; size_t n = p.inc.size();
    if (q == 9) {   // generators running at the same time, one group after the other
        struct Done { size_t k, i, e; IncRes r; }; std::vector<Done> done; bool calm = true; auto tg = [&](size_t x) { return p.inc[x].target.empty() ? p.target : p.inc[x].target; };
        for (size_t i = 0, e; i < n; i = e) {
            for (e = i; e < n && e - i < (size_t)NP && (e == i || (p.inc[i].crew && p.inc[e].crew == p.inc[i].crew)); e++) { auto t = tg(e); g_cover = fnv(g_cover, p.inc[e].id + fnvs(3, t.data(), t.size())); for (auto& x : p.inc[e].edits) g_cover = fnv(g_cover, x.kind * 1000 + fnvs(x.a, x.name.data(), x.name.size())); if (g_tracefd >= 0) { std::string a; for (auto& x : p.inc[e].args) a += " '" + x + "'"; dprintf(g_tracefd, "generator %zu of group %d:%s in %s, clock %lld\n", e - i, p.inc[i].crew, a.c_str(), p.inc[e].cwd.c_str(), (long long)p.inc[e].clock); } }
            auto c = runcrew(p, &p.inc[i], (int)(e - i), rec, mix(seed + i * 77), false); if (S->simfull) { ST.skipped++; return false; }
            for (size_t k = i; k < e; k++) { done.push_back({k, i, e, c[k - i]}); if (!p.inc[k].clean) calm = false; if (g_tracefd >= 0) dprintf(g_tracefd, "-> %s\n", describe(c[k - i]).c_str()); }
        }
        for (int k = 0; k < NFK; k++) ST.fired[k] += S->fired[k]; for (int k = 0; k < NC; k++) ST.errs[k] += S->errs[k];
        auto name = [&](const Done& d) { return "generator " + std::to_string(d.k - d.i + 1) + " of " + std::to_string(d.e - d.i) + " running at the same time: "; };
        for (auto& d : done) if (p.inc[d.k].clean && !(d.r.outcome == R_EXIT && d.r.code == 0)) violation("a generator failed because another ran", "run", name(d) + "ended in: " + describe(d.r));
        if (!g_have && calm) { std::map<std::string, std::pair<u64, int>> after; walk(after); for (auto& b : before) { auto a = after.find(b.first); if (a == after.end() || a->second.first != b.second.first) { violation("something else changed", b.first, b.first + (a == after.end() ? " is gone" : " changed")); break; } } for (auto& a : after) if (!before.count(a.first)) { violation("something was left behind", a.first, a.first + " was left behind"); break; } }
        for (auto& d : done) if (!g_have && p.inc[d.k].clean) {
            bool same = true; for (auto& o : done) if (tg(o.k) == tg(d.k) && (o.i != d.i ? o.i > d.i : !p.inc[o.k].clean || o.r.first != d.r.first)) same = false; if (!same) { ST.skipped++; continue; }
            Ref& f = reference(d.r.first); if (f.outcome != R_EXIT || f.code) { ST.skipped++; continue; } std::string w, t = diffcorpus(d.r.c, f.c, w); ST.corpora++; if (!t.empty()) violation("a generator's output was disturbed by another", w, name(d) + "ended with status 0, but in " + tg(d.k) + " " + t); }
        if (SCHED.size() < 2000000) SCHED.insert(g_cover); return g_have;
    }
    for (size_t i = 0; i < n; i++) {
        if (g_tracefd >= 0) { std::string a; for (auto& x : p.inc[i].args) a += " '" + x + "'"; dprintf(g_tracefd, "incarnation %zu:%s in %s, clock %lld\n", i, a.c_str(), p.inc[i].cwd.c_str(), (long long)p.inc[i].clock); }
        for (auto& e : p.inc[i].edits) g_cover = fnv(g_cover, e.kind * 1000 + fnvs(e.a, e.name.data(), e.name.size())); g_cover = fnv(g_cover, p.inc[i].id);
        rs.push_back(runinc(p, p.inc[i], rec, mix(seed + i * 77), false)); IncRes& r = rs.back();
        if (S->simfull) { ST.skipped++; return false; }
        if (g_tracefd >= 0) dprintf(g_tracefd, "-> %s\n", describe(r).c_str());
        std::string in = "incarnation " + std::to_string(i + 1) + " of " + std::to_string(n) + ": ";
        bool never = r.outcome == R_BOUND || r.outcome == R_HANG;
        if (q == 6 && never) violation("never finishes", "run", in + RN[r.outcome]);
        if (q == 6 && p.get("recoverable") && !(r.outcome == R_EXIT && r.code == 0) && !never) violation("gave up", "run", in + "only short or interrupted writes, slow operations and clock jumps occurred, but it ended in: " + describe(r));
        if (q == 4) {
            for (int k = r.j0; k < r.j1; k++) { if (S->j[k].op == J_OPENW) continue; std::string path = sp(S->j[k].path); if (!underTarget(path, p.target)) { violation("touched something else", path, in + JN[S->j[k].op] + " " + path); break; } }
            if (p.get("badargs") && r.muts) violation("touched something else", "run", in + "changed files although called with bad arguments");
        }
        if (q == 7 && !never) {
            bool skip = r.ext && (r.exam == 1 && r.mut_at_ext > 0); bool bad = p.get("bad") || r.exam == 2 || (r.ext && r.exam == 1 && r.mut_at_ext == 0 && p.get("ext") != 2 && p.get("ext") != 5); if (!r.ext && p.get("ext") && r.exam == 1) bad = false;
            if (bad && !skip) { if (r.outcome == R_EXIT && r.code == 0) violation("accepted a bad invocation", "run", in + "exit status 0"); else if (r.muts) violation("bad invocation left a trace", sp(S->j[r.j1 > r.j0 ? r.j1 - 1 : r.j0].path), in + JN[S->j[r.j1 - 1].op] + " " + sp(S->j[r.j1 - 1].path)); }
        }
        if (q == 7 && never) violation("accepted a bad invocation", "run", in + RN[r.outcome]);
        if ((q == 2 || q == 8) && r.outcome == R_EXIT && r.code == 0 && r.have && !p.get("badargs")) { ST.corpora++; if (q == 2) model(lookup(p.target)); else pieces(lookup(p.target));
            if (!dump.empty() && i + 1 == n) for (auto& o : OUTS) { bool ok; std::string c = content(lookup(p.target), o, ok); if (!ok) continue; std::ofstream f(dump + "/" + o); f << c; } }
        if (g_have) break;
    }
    for (int k = 0; k < NFK; k++) ST.fired[k] += S->fired[k]; for (int k = 0; k < NC; k++) ST.errs[k] += S->errs[k];
    if (!g_have && q == 4) { std::map<std::string, std::pair<u64, int>> after; walk(after); for (auto& b : before) { auto a = after.find(b.first); if (a == after.end()) { violation("touched something else", b.first, b.first + " is gone"); break; } if (a->second.first != b.second.first) { violation("touched something else", b.first, b.first + " changed"); break; } } for (auto& a : after) if (!before.count(a.first)) { violation("touched something else", a.first, a.first + " was left behind"); break; } }
    if (!g_have && (q == 1 || q == 5)) for (size_t i = 0; i < rs.size(); i++) if ((q == 1 || p.inc[i].clean) && rs[i].outcome == R_EXIT && rs[i].code == 0) {
        Ref& f = reference(rs[i].first); if (f.outcome != R_EXIT || f.code) { ST.skipped++; continue; } std::string w, d = diffcorpus(rs[i].c, f.c, w); std::string in = "incarnation " + std::to_string(i + 1) + " of " + std::to_string(n) + " ended with status 0, but "; 
        if (d.empty() && q == 1) for (auto& o : OUTS) if (!rs[i].c.count(o)) { d = o + " was never written"; w = o; break; }
        if (!d.empty()) { violation(q == 1 ? "success reported for an incomplete corpus" : "output depends on more than the clock second", w, in + d); break; } }
    if (q == 10) for (size_t i = 0; i < rs.size() && !g_have; i++) { told(p, i, rs[i]); g_log = fnv(g_log, fnvs(fnvs(4, rs[i].text[0].data(), rs[i].text[0].size()), rs[i].text[1].data(), rs[i].text[1].size())); }
    if (!g_have && q == 3) { IncRes& r = rs.back(); if (p.inc.back().clean) { if (r.outcome != R_EXIT || r.code) violation("re-run failed", "run", "the undisturbed run after the failed one ended in: " + describe(r)); else { Ref& f = reference(r.first); if (f.outcome == R_EXIT && !f.code) { std::string w, d = diffcorpus(r.c, f.c, w); if (!d.empty()) violation("re-run did not repair", w, "after the undisturbed re-run " + d); } } } }
    if (SCHED.size() < 2000000) SCHED.insert(g_cover);
    return g_have;
}
// ------------------------------------------------------------------------------- generation
// seconds at which calendars, counters and bit patterns turn over
static i64 civil(Rng& r)
{
    static const i64 tod[] = {0, 0, 0, 86399, 43200, 3600, 7200, 10800, 82800, 60, 1}; i64 day = (i64)r.below(49000); tm t{}; i64 v;
    switch (r.below(8)) {
    case 0: case 1: return day * 86400 + tod[r.below(11)];                                                                                            // times of day
    case 2: t.tm_year = 70 + (int)r.below(135); t.tm_mon = (int)r.below(12); t.tm_mday = r.p(.5) ? 1 : 28 + (int)r.below(4); v = timegm(&t); return v + (r.p(.5) ? 0 : tod[r.below(11)]) - (r.p(.2) ? 1 : 0);   // ends of months
    case 3: t.tm_year = r.p(.6) ? 72 + 4 * (int)r.below(34) : 70 + (int)r.below(135); t.tm_mon = r.p(.5) ? 0 : r.p(.6) ? 1 : 11; t.tm_mday = t.tm_mon == 1 ? 29 : t.tm_mon ? 31 : 1; return (i64)timegm(&t) + (r.p(.5) ? (i64)r.below(86400) : tod[r.below(11)]);   // New Year's days and eves, leap days
    case 4: t.tm_year = 70 + (int)r.below(135); t.tm_mon = (int)r.below(12); t.tm_mday = 13; return (i64)timegm(&t) + (i64)r.below(86400);
    case 5: v = 10; for (u32 n = 1 + r.below(8); n; n--) v *= 10; return v * (1 + (i64)r.below((u32)std::min<i64>(4000000000ll / v, 100000))) - (r.p(.2) ? 1 : 0);
    case 6: v = 1ll << (4 + r.below(29)); return v * (1 + (i64)r.below((u32)std::min<i64>(4294967296ll / v, 1000000))) - (r.p(.4) ? 1 : 0);
    default: v = 3600 * (1 + (i64)r.below(1100000)); return v + (r.p(.5) ? 0 : (i64)r.below(60) * 60) - (r.p(.3) ? 1 : 0);
    }
}
static i64 clockpick(Rng& r, u64 block, bool wide)
{
    static const i64 special[] = {0, 1, 2147483647ll, 2147483648ll, 4294967295ll, 4294967296ll, -1, 1582934400ll, 951782400ll, 253402300799ll / 2};
    u64 k = r.next(); if (wide) { switch (r.below(10)) { case 0: return special[r.below(10)]; case 1: return (i64)r.below(100000); case 2: return (i64)(r.next() % 8000000000ull); case 3: case 4: case 5: return civil(r); default: return 1400000000 + (i64)r.below(800000000); } }
    u32 i = (u32)(k % 24); if (i < 3) return special[i + block % 7]; return 1600000000 + (i64)(mix(block * 100 + i) % 200000000);
}
static i64 subsec(Rng& r) { switch (r.below(4)) { case 0: return 0; case 1: return 999900000 + r.below(90000); default: return r.below(1000000000 - 3000000); } }
struct Where { std::string target, cwd, arg; };
static Where place(Rng& r, Plan& p, bool odd)
{
    static const char* names[] = {"out", "my out", "{}", "{0}", "%s%n", "-", "--help", "\xd0\xb2\xd1\x8b\xd0\xb2\xd0\xbe\xd0\xb4", "a'b\"c", "file0.cpp", "main.cpp", "out.d", "~", "$HOME", "*", "a\nb", "\xff\xfe"};
    std::string n = odd && r.p(.4) ? (r.p(.15) ? std::string(200, 'x') : names[r.below(17)]) : "out"; Where w; w.target = "/home/u/" + n; p.target = w.target; p.fs.push_back({'d', w.target, 0, 0, 0755}); w.cwd = "/home/u"; w.arg = n;
    if (odd) switch (r.below(14)) { case 0: w.arg = "./" + n; break; case 1: w.arg = n + "/"; break; case 2: w.arg = n + "//"; break; case 3: w.arg = "../u/" + n; break; case 4: w.arg = w.target; break; case 5: w.arg = "//home///u/" + n + "/."; break; case 6: w.cwd = w.target; w.arg = "."; break; case 7: w.cwd = w.target; w.arg = "../" + n; break; case 8: w.cwd = "/"; w.arg = "home/u/" + n; break; case 9: p.link.push_back(n); p.fs.push_back({'l', "/home/u/lnk", 0, p.link.size() - 1, 0777}); w.arg = "lnk"; break; case 10: p.link.push_back(w.target); p.fs.push_back({'l', "/tmp/ln2", 0, p.link.size() - 1, 0777}); w.arg = "/tmp/ln2/"; break; case 11: w.cwd = w.target; w.arg = "./"; break; default: break; }
    return w;
}
static std::string outname(Rng& r) { return r.p(.25) ? OUTS[200 + r.below(3)] : OUTS[r.below((u32)OUTS.size())]; }
static void bystanders(Rng& r, Plan& p, int n)
{
    static const char* near_[] = {"file0.cpp.bak", "file100.cpp", "file100.h", "file00.cpp", "main.cpp~", ".main.cpp.swp", "glm-build.sh.orig", "file0.hpp", "File0.cpp", "main.h", "build.sh", "file-1.cpp", "file0.o", "file7.cpp.tmp", "main.cpp.tmp", ".file3.h.tmp", "file12.c", "zcm-build.bat", "README", "file0", "main", "a.out", "files.txt", "file99.cpp.new", "file101.h", "file1000.cpp"};
    if (r.p(.12)) n = 5 + (int)r.below(40);
    for (int i = 0; i < n; i++) { std::string base; switch (r.below(7)) { case 6: base = p.target + "/"; for (u32 k = r.p(.5) ? 1 + r.below(12) : 1 + r.below(200); k; k--) base += "abcxyzfile0123456789._- ~#+"[r.below(27)]; if (base.back() == '.' || OUTSET.count(base.substr(p.target.size() + 1))) continue; break; case 0: case 1: case 2: base = p.target + "/" + near_[r.below(26)]; break; case 3: base = p.target + "/sub/" + outname(r); break; case 4: base = std::string(r.p(.5) ? "/home/u/" : r.p(.5) ? "/tmp/" : "/") + outname(r); break; default: base = std::string("/home/u/other/") + near_[r.below(26)]; }
        if (base == p.target || p.target.compare(0, base.size() + 1, base + "/") == 0) continue; p.fs.push_back({'f', base, r.below(3) ? r.below(3000) : 0, r.next(), r.p(.1) ? 0444u : 0644u}); }
}
static void prior(Rng& r, Plan& p, int n) { for (int i = 0; i < n; i++) { u64 sz = r.below(4) == 0 ? 0 : r.p(.3) ? 100000 + r.below(300000) : r.below(70000); p.fs.push_back({'f', p.target + "/" + outname(r), sz, r.next(), 0644}); } }
static void edits(Rng& r, Inc& in, int n) { static const char k[] = "taxdgx"; for (int i = 0; i < n; i++) in.edits.push_back({k[r.below(6)], outname(r), r.p(.3) ? r.below(64) : (r.next() % 60000), r.next()}); }
static Pol nopol() { Pol p{}; p.maxf = 2000; p.crash_at = p.pers_at = p.ext_at = 0; return p; }
static u64 ordpick(Rng& r, u64 total) { switch (r.below(5)) { case 0: return 1 + r.below(40); case 1: return total > 60 ? total - r.below(60) : 1 + r.below((u32)total); default: return 1 + r.below((u32)total + 8); } }
static u64 TOTAL = 900, TOTALK[3] = {900, 900, 900};
static void faulty(Rng& r, Inc& in, bool crash, bool fail, bool fsonly = false)
{
    Pol& o = in.pol; in.clean = false;
    if (crash) { o.crash_at = ordpick(r, TOTAL); o.crash_kind = 1 + (r.p(.5)); o.crash_p = r.next(); if (r.p(.3)) { o.shortw = .02; o.eintr = .01; } if (!fail) return; }
    switch (r.below(10)) {
    case 9: o.torn = (double[]){.004, .02, .2, 1}[r.below(4)]; o.maxf = 1 + r.below(4); break;   // part of the data, then an error, then the device works again
    case 0: { int c = (int[]){C_OPEN, C_OPEN, C_WRITE, C_WRITE, C_CLOSE, C_CLOSE, C_STAT, C_UNLINK}[r.below(8)]; o.err[c] = 1; o.maxf = 1; if (r.p(.8)) { o.err[c] = c == C_CLOSE || c == C_OPEN ? .01 : .008; } break; }
    case 1: for (int c : {C_OPEN, C_STAT, C_WRITE, C_CLOSE, C_UNLINK, C_READ, C_LIST, C_SYNC, C_RENAME, C_MKDIR}) if (r.p(.5)) o.err[c] = (double[]){.001, .005, .02, .2}[r.below(4)]; break;
    case 2: { int c = (int[]){C_OPEN, C_WRITE, C_CLOSE, C_STAT, C_UNLINK, C_WRITE}[r.below(6)]; int k = 0; while (ERRS[c][k]) k++; o.pers_at = ordpick(r, TOTAL); o.pers_c = c; o.pers_e = ERRS[c][r.below(k)]; break; }
    case 3: in.cap = r.p(.1) ? r.below(4096) : (u64)(r.u() * 7.5e6); if (r.p(.3)) o.shortw = .05; break;
    case 4: if (fsonly) { o.err[C_OPEN] = .01; o.maxf = 1; break; } o.err[C_MEM] = (double[]){.02, .1, .5}[r.below(3)]; o.maxf = 1 + r.below(3); break;
    case 5: o.err[C_STDOUT] = (double[]){.01, .1, 1}[r.below(3)]; in.outkind = r.below(3); break;
    case 6: { int c = (int[]){C_CLOSE, C_WRITE, C_OPEN}[r.below(3)]; o.err[c] = .006; o.maxf = 1 + r.below(2); o.shortw = .03; break; }
    case 7: in.edits.push_back({'m', r.p(.5) ? "main.cpp" : outname(r), (u64)(r.p(.7) ? 0444 : 0), 0}); if (r.p(.5)) o.err[C_CLOSE] = .004, o.maxf = 1; break;
    default: { int c = (int[]){C_CLOSE, C_WRITE}[r.below(2)]; o.pers_at = r.p(.5) ? TOTAL - r.below(30) : ordpick(r, TOTAL); o.pers_c = c; o.pers_e = c == C_CLOSE ? EIO : ENOSPC; }
    }
}
static void gentle(Rng& r, Inc& in, bool heavy) { Pol& o = in.pol; static const double s[] = {0, .005, .03, .2}; o.shortw = s[r.below(4)]; o.eintr = s[r.below(4)]; o.slow = r.p(.5) ? .02 : 0; o.jump = r.p(.5) ? .02 : 0; o.late = true; if (heavy && r.p(.3)) { o.shortw = .6; o.eintr = .3; } in.outkind = r.below(3); }
static Plan genplan(const std::string& prop, const std::string& variant, u64 seed, u64 block)
{
    Rng r(seed); Plan p; p.prop = prop; p.variant = variant; int q = atoi(prop.c_str() + 1); bool odd = r.p(.5); Where w = place(r, p, odd);
    auto mk = [&](const Where& v, bool wide) { Inc in; in.pol = nopol(); in.cwd = v.cwd; in.args = {r.p(.2) ? "./bin/benchgen" : "benchgen", v.arg}; in.clock = clockpick(r, block, wide) * 1000000000ll + subsec(r); in.id = r.p(.8) ? r.next() >> 8 : 0; return in; };
    if (r.p(.3)) bystanders(r, p, 1 + r.below(4));
    switch (q) {
    case 1: { if (r.p(.5)) prior(r, p, 1 + r.below(8)); if (r.p(.25)) { Inc a = mk(w, false); p.inc.push_back(a); } Inc b = mk(w, false); if (!p.inc.empty() && r.p(.5)) edits(r, b, 1 + r.below(5)); if (r.p(.3) && !p.inc.empty()) b.clock = p.inc[0].clock; faulty(r, b, false, true, true); if (r.p(.04)) p.fs.push_back({'d', p.target + "/" + outname(r), 0, 0, 0755}); else if (r.p(.03)) for (auto& e : p.fs) if (e.path == p.target) e.mode = 0555; p.inc.push_back(b); break; }
    case 2: case 8: { if (r.p(.2)) prior(r, p, 1 + r.below(5)); Inc a = mk(w, true); if (r.p(.5)) gentle(r, a, false); p.inc.push_back(a); break; }
    case 3: { if (r.p(.3)) prior(r, p, 1 + r.below(6)); if (r.p(.2)) p.inc.push_back(mk(w, false)); int k = 1 + (r.p(.35) ? 1 + r.below(2) : 0); for (int i = 0; i < k; i++) { Inc a = mk(w, false); bool cr = r.p(.75); faulty(r, a, cr, !cr || r.p(.1)); if (r.p(.1)) edits(r, a, 1 + r.below(3)); a.edits.erase(std::remove_if(a.edits.begin(), a.edits.end(), [](const Edit& e) { return e.kind == 'm'; }), a.edits.end()); p.inc.push_back(a); } Inc z = mk(w, false); if (r.p(.35)) z.clock = p.inc.back().clock; if (r.p(.2)) edits(r, z, 1 + r.below(4)); z.clean = true; p.inc.push_back(z); break; }
    case 4: { bystanders(r, p, 4 + r.below(12)); if (r.p(.2)) { std::string o = p.target + "/" + outname(r); if (r.p(.5)) p.fs.push_back({'f', o + "/" + (r.p(.5) ? "keep/" : "") + "notes", 1 + r.below(500), r.next(), 0644}); else if (r.p(.5)) p.fs.push_back({'d', o + "/keep", 0, 0, 0755}); else { o = p.target + "/" + OUTS[r.below(200)]; std::string to = r.p(.5) ? "mine.txt" : "/home/u/mine.txt"; p.fs.push_back({'f', to[0] == '/' ? to : p.target + "/" + to, 1 + r.below(500), r.next(), 0644}); p.link.push_back(to); p.fs.push_back({r.p(.5) ? 'h' : 'l', o, 0, p.link.size() - 1, 0777}); if (p.fs.back().kind == 'h' && to[0] != '/') p.link.back() = p.target + "/" + to; } } if (r.p(.5)) prior(r, p, 1 + r.below(8)); int k = 1 + r.below(3); for (int i = 0; i < k; i++) { Inc a = mk(w, false); switch (r.below(4)) { case 0: break; case 1: faulty(r, a, true, false); break; case 2: faulty(r, a, false, true); break; default: gentle(r, a, false); } p.inc.push_back(a); } if (r.p(.06)) { p.cfg["badargs"] = 1; for (auto& i : p.inc) { if (r.p(.5)) i.args.pop_back(); else i.args.push_back(r.p(.5) ? "x" : i.args.back()); } } break; }
    case 5: { if (r.p(.6)) prior(r, p, 1 + r.below(12)); int k = r.p(.6) ? 1 + r.below(2) : 0; i64 c0 = 0; for (int i = 0; i < k; i++) { Inc a = mk(w, false); c0 = a.clock; if (r.p(.3)) faulty(r, a, r.p(.6), true); a.edits.clear(); p.inc.push_back(a); } Inc b = mk(w, false); if (k && r.p(.5)) b.clock = c0; if (k) edits(r, b, r.below(8)); if (r.p(.25)) { faulty(r, b, false, true, true); b.edits.erase(std::remove_if(b.edits.begin(), b.edits.end(), [](const Edit& e) { return e.kind == 'm'; }), b.edits.end()); b.pol.late = true; b.clean = true; } else gentle(r, b, true); p.inc.push_back(b); break; }
    case 6: { if (r.p(.5)) prior(r, p, 1 + r.below(8)); Inc a = mk(w, false); if (r.p(.5)) { gentle(r, a, true); p.cfg["recoverable"] = 1; } else { faulty(r, a, false, true); if (r.p(.3)) { a.pol.slow = .02; a.pol.jump = .02; } } p.inc.push_back(a); break; }
    case 7: { Inc a = mk(w, false); if (r.p(.3)) prior(r, p, 1 + r.below(4)); auto droptarget = [&] { p.fs.erase(std::remove_if(p.fs.begin(), p.fs.end(), [&](const FsEnt& e) { return e.path == p.target || e.path.compare(0, p.target.size() + 1, p.target + "/") == 0; }), p.fs.end()); if (a.cwd == p.target) { a.cwd = "/home/u"; a.args[1] = p.target.substr(8); } };
        switch (r.below(9)) {
        case 0: p.cfg["bad"] = 1; a.args.resize(r.p(.1) ? 0 : 1); if (a.args.empty()) a.args = {"benchgen"}; break;
        case 1: { p.cfg["bad"] = 1; static const char* ex[] = {"extra", "", "-v", "/tmp", "--", "2"}; int k = 1 + r.below(3); for (int i = 0; i < k; i++) { std::string e = r.p(.3) ? a.args[1] : ex[r.below(6)]; if (r.p(.3)) a.args.insert(a.args.begin() + 1, e); else a.args.push_back(e); } break; }
        case 2: p.cfg["bad"] = 1; droptarget(); if (r.p(.5)) p.fs.push_back({'f', p.target, r.below(200), r.next(), 0644}); break;
        case 3: { p.cfg["bad"] = 1; static const char* bp[] = {"", "nowhere", "nowhere/", "/dev/null", "out/x", "/home/u/file", "/home/u/file/", "/home/u/file/.", "..//nowhere", "dangling", "loop", "tofile", "/proc/none", " ", "out ", "OUT"}; p.fs.push_back({'f', "/home/u/file", 5, 1, 0644}); p.link.push_back("gone"); p.fs.push_back({'l', "/home/u/dangling", 0, p.link.size() - 1, 0777}); p.link.push_back("loop"); p.fs.push_back({'l', "/home/u/loop", 0, p.link.size() - 1, 0777}); p.link.push_back("file"); p.fs.push_back({'l', "/home/u/tofile", 0, p.link.size() - 1, 0777}); a.args[1] = r.p(.1) ? std::string(r.p(.5) ? 300 : 5000, 'y') : bp[r.below(16)]; a.cwd = "/home/u"; break; }
        case 4: { p.cfg["bad"] = 1; p.fs.push_back({'d', "/home/u/locked/in", 0, 0, 0755}); p.fs.push_back({'d', "/home/u/locked", 0, 0, 0}); a.cwd = "/home/u"; a.args[1] = "locked/in"; break; }
        case 5: { a.pol.err[C_STAT] = 1; a.pol.maxf = 1; break; }
        case 6: { droptarget(); a.pol.ext = 2; if (r.p(.4)) { p.fs.push_back({'f', p.target, r.below(200), r.next(), 0644}); } a.pol.ext_at = 1 + r.below(12); p.cfg["ext"] = 2; break; }
        case 7: { a.pol.ext = r.p(.5) ? 1 : 3; a.pol.ext_at = 1 + r.below(14); p.cfg["ext"] = a.pol.ext; a.edits.clear(); if (a.cwd == p.target) { a.cwd = "/home/u"; a.args[1] = p.target.substr(8); } break; }
        default: { a.pol.err[C_STAT] = .5; a.pol.maxf = 1 + r.below(2); if (r.p(.3)) a.args[1] = "nowhere", p.cfg["bad"] = 1; } }
        if (r.p(.2)) { a.pol.slow = .1; a.pol.jump = .1; }
        if (r.p(.15) && p.get("bad")) a.pol.err[C_STDOUT] = .5;
        p.inc.push_back(a); break; }
    case 10: {
        if (r.p(.5)) prior(r, p, 1 + r.below(8)); Inc b = mk(w, false); u32 k = r.below(10); bool last = false;
        if (k < 2) {   // bad invocations
            if (r.p(.4)) { if (r.p(.5)) b.args.resize(1); else { static const char* ex[] = {"extra", "", "-v", "/tmp", "--", "2"}; for (u32 i = 1 + r.below(3); i; i--) b.args.insert(b.args.begin() + 1 + r.below((u32)b.args.size()), r.p(.3) ? b.args.back() : ex[r.below(6)]); } }
            else { static const char* bp[] = {"nowhere", "nowhere/", "/dev/null", "out/x", "/home/u/file", "/home/u/file/", "..//nowhere", "dangling", "loop", "tofile", "/proc/none", "locked/in", "{}", "{0}", "a%sb", "\xd0\xbd\xd0\xb5\xd1\x82"}; p.fs.push_back({'f', "/home/u/file", 5, 1, 0644}); p.link.push_back("gone"); p.fs.push_back({'l', "/home/u/dangling", 0, p.link.size() - 1, 0777}); p.link.push_back("loop"); p.fs.push_back({'l', "/home/u/loop", 0, p.link.size() - 1, 0777}); p.link.push_back("file"); p.fs.push_back({'l', "/home/u/tofile", 0, p.link.size() - 1, 0777}); p.fs.push_back({'d', "/home/u/locked/in", 0, 0, 0755}); p.fs.push_back({'d', "/home/u/locked", 0, 0, 0}); b.cwd = "/home/u"; b.args[1] = bp[r.below(16)]; p.cfg["name"] = p.target != "/home/u/" + b.args[1]; }
        } else if (k < 4) { b.pol.crash_at = ordpick(r, TOTAL); if (r.p(.6)) { last = true; b.outkind = r.below(3); b.pol.crash_at = TOTALK[b.outkind] - r.below(std::min<u64>(TOTALK[b.outkind], 40)); } b.pol.crash_kind = 1; b.pol.crash_p = r.next(); b.clean = false; }
        else if (k < 5) gentle(r, b, true);
        else { do { b.pol = nopol(); b.edits.clear(); b.cap = ~0ull; faulty(r, b, false, true, true); } while (b.pol.err[C_STDOUT] > 0); if (r.p(.1)) { last = true; b.pol = nopol(); b.outkind = r.below(3); b.pol.pers_at = TOTALK[b.outkind] - r.below(std::min<u64>(TOTALK[b.outkind], 40)); b.pol.pers_c = (int[]){C_OPEN, C_WRITE, C_CLOSE}[r.below(3)]; b.pol.pers_e = EIO; } else if (r.p(.04)) p.fs.push_back({'d', p.target + "/" + outname(r), 0, 0, 0755}); else if (r.p(.03)) for (auto& e : p.fs) if (e.path == p.target) e.mode = 0555; }
        if (!last) b.outkind = r.below(3); else p.fs.erase(std::remove_if(p.fs.begin(), p.fs.end(), [&](const FsEnt& e) { return e.kind == 'f' && e.path.compare(0, p.target.size() + 1, p.target + "/") == 0; }), p.fs.end()); p.inc.push_back(b); break; }
    case 9: {
        static const char* spots[] = {"/home/u/out2", "/home/u/other/out", "/tmp/out", "/home/u/a/b/gen", "/home/u/out.d", "/home/u/Out", "/tmp/x/out2", "/out"}; bool same = r.p(.3); int k = 2 + r.below(same ? 2 : 3); if (r.p(.35)) prior(r, p, 1 + r.below(8)); if (r.p(.15)) p.inc.push_back(mk(w, false));
        static const double sw[] = {.0005, .004, .03, .15, .5}; double a = sw[r.below(5)], b = r.p(.5) ? a : sw[r.below(5)]; Inc first = mk(w, false); int victim = !same && r.p(.3) ? (int)r.below((u32)k) : -1; u32 sp0 = r.below(8);
        for (int i = 0; i < k; i++) {
            Inc x = mk(w, false); x.clock = first.clock; x.crew = 1; x.target = p.target; gentle(r, x, true); x.pol.eintr = 0; if (r.p(.3)) x.pol.shortw = 0; x.pol.sw = a; x.pol.swhot = b;
            if (r.p(.15)) x.pol.sw = x.pol.swhot = 0;   // this one only goes on when the others have ended, or runs through
            if (!same && i) { std::string t = spots[(sp0 + (u32)i * 3) % 8]; if (t == p.target) t += "3"; x.target = t; p.fs.push_back({'d', t, 0, 0, 0755}); std::string up = t.substr(0, t.rfind('/')); switch (r.below(4)) { case 0: x.cwd = t; x.args[1] = "."; break; case 1: x.cwd = up.empty() ? "/" : up; x.args[1] = t.substr(t.rfind('/') + 1); break; case 2: x.cwd = "/tmp"; x.args[1] = "../" + t; break; default: x.cwd = "/home/u"; x.args[1] = t; } if (r.p(.3)) { std::string keep = p.target; p.target = t; prior(r, p, 1 + r.below(4)); p.target = keep; } }
            if (i == victim) { x.clean = false; x.pol.shortw = x.pol.eintr = 0; if (r.p(.5)) { x.pol.crash_at = ordpick(r, TOTAL); x.pol.crash_kind = 1; x.pol.crash_p = r.next(); } else { int c = (int[]){C_OPEN, C_WRITE, C_CLOSE, C_STAT, C_UNLINK, C_OTHER}[r.below(6)]; if (r.p(.5)) { x.pol.err[c] = .01; x.pol.maxf = 2000; } else { x.pol.pers_at = ordpick(r, TOTAL); x.pol.pers_c = c; x.pol.pers_e = EIO; } } }
            if (i) { u32 at = r.below((u32)(p.inc.size() + 1)); while (at < p.inc.size() && !p.inc[at].crew) at++; if (at > p.inc.size()) at = (u32)p.inc.size(); p.inc.insert(p.inc.begin() + at, x); } else p.inc.push_back(x);
        }
        for (auto& x : p.inc) if (x.crew) x.clock = first.clock;
        break; }
    }
    return p;
}
// ------------------------------------------------------------------------------- plan files
static std::string esc(const std::string& s) { std::string o; char b[8]; for (u8 c : s) if (c > 32 && c < 127 && c != '%') o += (char)c; else { snprintf(b, 8, "%%%02x", c); o += b; } return o.empty() ? "%" : o; }
static std::string unesc(const std::string& s) { if (s == "%") return ""; std::string o; for (size_t i = 0; i < s.size(); i++) if (s[i] == '%') { o += (char)strtoul(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; } else o += s[i]; return o; }
static const char* fkname(char k) { switch (k) { case 'E': return "the call fails"; case 'S': return "short write"; case 'I': return "interrupted before transferring data"; case 'D': return "slow"; case 'J': return "clock jump"; case 'K': return "killed here"; case 'L': return "power loss here"; case 'P': return "this error from here on"; case 'X': return "target path changed"; case 'W': return "another generator's turn"; } return ""; }
static void writeplan(const Plan& p, const char* path, const Viol* v, u64 log)
{
    FILE* f = fopen(path, "w"); if (!f) { perror(path); _exit(3); } fprintf(f, "zcm-gen-replay 1\nprop\t%s\nvariant\t%s\ntarget\t%s\n", p.prop.c_str(), p.variant.c_str(), esc(p.target).c_str()); for (auto& c : p.cfg) fprintf(f, "cfg\t%s\t%lld\n", c.first.c_str(), (long long)c.second); for (auto& l : p.link) fprintf(f, "linkto\t%s\n", esc(l).c_str());
    for (auto& e : p.fs) fprintf(f, "fs\t%c\t%s\t%llu\t%llu\t%o\n", e.kind, esc(e.path).c_str(), (unsigned long long)e.size, (unsigned long long)e.seed, e.mode);
    for (auto& i : p.inc) { if (i.crew) fprintf(f, "# the next runs together with the others of group %d\n", i.crew); fprintf(f, "run\t%lld\t%llu\t%d\t%llu\t%s\t%d", (long long)i.clock, (unsigned long long)i.id, i.outkind, (unsigned long long)i.cap, esc(i.cwd).c_str(), i.clean); for (auto& a : i.args) fprintf(f, "\t%s", esc(a).c_str()); fputc('\n', f); if (i.crew) fprintf(f, "crew\t%d\t%s\n", i.crew, esc(i.target).c_str()); for (auto& e : i.edits) fprintf(f, "edit\t%c\t%s\t%llu\t%llu\n", e.kind, esc(e.name).c_str(), (unsigned long long)e.a, (unsigned long long)e.b); for (auto& x : i.f) fprintf(f, "fault\t%llu\t%c\t%d\t%lld\t# %s%s%s\n", (unsigned long long)x.ord, x.kind, x.a, (long long)x.b, fkname(x.kind), x.kind == 'E' ? ": " : x.kind == 'P' ? ": " : "", x.kind == 'E' ? strerror(x.a) : x.kind == 'P' ? strerror((int)x.b) : ""); }
    if (v) fprintf(f, "expect\t%s\t%s\t%016llx\n# %s\n", v->kind.c_str(), esc(v->where).c_str(), (unsigned long long)log, v->detail.c_str()); fclose(f);
}
static std::vector<std::string> split(const std::string& s) { std::vector<std::string> r; size_t i = 0; for (;;) { size_t j = s.find('\t', i); r.push_back(s.substr(i, j - i)); if (j == std::string::npos) return r; i = j + 1; } }
struct Expect { std::string kind; u64 log = 0; };
static bool readplan(const char* path, Plan& p, Expect* e)
{
    std::ifstream in(path); if (!in) return false; std::string l; auto u = [](const std::string& s) { return strtoull(s.c_str(), nullptr, 10); };
    while (std::getline(in, l)) { if (l.empty() || l[0] == '#') continue; auto c = split(l);
        if (c[0] == "prop") p.prop = c[1]; else if (c[0] == "variant") p.variant = c[1]; else if (c[0] == "target") p.target = unesc(c[1]); else if (c[0] == "cfg") p.cfg[c[1]] = atoll(c[2].c_str()); else if (c[0] == "linkto") p.link.push_back(unesc(c[1])); else if (c[0] == "fs") p.fs.push_back({c[1][0], unesc(c[2]), u(c[3]), u(c[4]), (u32)strtoul(c[5].c_str(), nullptr, 8)});
        else if (c[0] == "run") { Inc i; i.pol = nopol(); i.clock = atoll(c[1].c_str()); i.id = u(c[2]); i.outkind = atoi(c[3].c_str()); i.cap = u(c[4]); i.cwd = unesc(c[5]); i.clean = atoi(c[6].c_str()); for (size_t k = 7; k < c.size(); k++) i.args.push_back(unesc(c[k])); p.inc.push_back(i); }
        else if (c[0] == "crew") { p.inc.back().crew = atoi(c[1].c_str()); p.inc.back().target = unesc(c[2]); } else if (c[0] == "edit") p.inc.back().edits.push_back({c[1][0], unesc(c[2]), u(c[3]), u(c[4])}); else if (c[0] == "fault") p.inc.back().f.push_back({u(c[1]), c[2][0], atoi(c[3].c_str()), atoll(c[4].c_str())}); else if (c[0] == "expect" && e) { e->kind = c[1]; e->log = strtoull(c[3].c_str(), nullptr, 16); } }
    return !p.inc.empty();
}
static double now() { timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static int minimise(const char* in, const char* out)
{
    Plan p; if (!readplan(in, p, nullptr)) return 3; if (!execplan(p, false, 0)) { fprintf(stderr, "minimise: plan does not fail\n"); return 4; } std::string kind = g_viol.kind; double t0 = now();
    auto bad = [&](Plan& q) { return now() - t0 < 60 && execplan(q, false, 0) && g_viol.kind == kind; };
    bool again = true; while (again && now() - t0 < 60) { again = false;
        for (size_t i = 0; i + 1 < p.inc.size();) { Plan q = p; q.inc.erase(q.inc.begin() + i); if (bad(q)) { p = q; again = true; } else i++; }
        for (size_t i = 0; i < p.inc.size(); i++) { for (size_t k = p.inc[i].f.size(); k >= 1; k /= 2) for (size_t j = 0; j + k <= p.inc[i].f.size();) { Plan q = p; q.inc[i].f.erase(q.inc[i].f.begin() + j, q.inc[i].f.begin() + j + k); if (bad(q)) { p = q; again = true; } else j += k; }
            for (size_t j = 0; j < p.inc[i].edits.size();) { Plan q = p; q.inc[i].edits.erase(q.inc[i].edits.begin() + j); if (bad(q)) { p = q; again = true; } else j++; } }
        for (size_t k = p.fs.size(); k >= 1; k /= 2) for (size_t j = 0; j + k <= p.fs.size();) { bool t = false; for (size_t x = j; x < j + k; x++) t |= p.fs[x].path == p.target || p.fs[x].kind == 'l' || p.fs[x].kind == 'h'; if (t) { j += k; continue; } Plan q = p; q.fs.erase(q.fs.begin() + j, q.fs.begin() + j + k); if (bad(q)) { p = q; again = true; } else j += k; } }
    for (size_t i = 0; i < p.inc.size(); i++) { for (int k = 0; k < 3; k++) { Plan q = p; if (k == 0) q.inc[i].id = 0; if (k == 1) q.inc[i].outkind = 0; if (k == 2) q.inc[i].cap = ~0ull; if (bad(q)) p = q; } }
    bool a = execplan(p, false, 0); u64 la = g_log; Viol v = g_viol; bool b = execplan(p, false, 0); if (!a || !b || la != g_log || v.kind != kind) { fprintf(stderr, "minimise: not repeatable\n"); return 4; }
    writeplan(p, out, &v, la); printf("%s: %s\n", v.kind.c_str(), v.detail.c_str()); return 1;
}
static void stats(const char* path, double secs, u64 nv)
{
    FILE* f = fopen(path, "w"); fprintf(f, "{");
#define J(x) fprintf(f, "\"" #x "\": %llu, ", (unsigned long long)ST.x);
    J(runs) J(incs) J(syscalls) J(ok) J(failed) J(refs) J(skipped) J(rechecked) J(ndet) J(mutations) J(corpora)
    for (int i = 0; i < NFK; i++) fprintf(f, "\"fault:%s\": %llu, ", FKN[i], (unsigned long long)ST.fired[i]); for (int i = 0; i < NC; i++) fprintf(f, "\"err:%s\": %llu, ", CN[i], (unsigned long long)ST.errs[i]); for (int i = 1; i < R_SIM; i++) fprintf(f, "\"end:%s\": %llu, ", RN[i], (unsigned long long)ST.outcomes[i]);
    fprintf(f, "\"simsecs\": %.1f, \"distinct\": %zu, \"violations\": %llu, \"secs\": %.2f}\n", ST.simns * 1e-9, SCHED.size(), (unsigned long long)nv, secs); fclose(f);
    std::ofstream h(std::string(path) + ".sched", std::ios::binary); for (u64 x : SCHED) h.write((char*)&x, 8); std::ofstream c(std::string(path) + ".clocks", std::ios::binary); for (i64 x : CLOCKS) c.write((char*)&x, 8);
}
int main(int argc, char** argv)
{
    std::map<std::string, std::string> o; std::string mode = argc > 1 ? argv[1] : ""; for (int i = 2; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
    auto opt = [&](const char* k, const char* d) { return o.count(k) ? o[k] : std::string(d); };
    if (mode == "union") { std::vector<u64> v; std::ifstream l(o["--list"]); std::string n; while (std::getline(l, n)) { std::ifstream f(n, std::ios::binary); u64 x; while (f.read((char*)&x, 8)) v.push_back(x); } std::sort(v.begin(), v.end()); printf("%zu\n", (size_t)(std::unique(v.begin(), v.end()) - v.begin())); return 0; }
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) { setenv("SIM_REEXEC", "1", 1); if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
    for (int i = 0; i < 100; i++) for (const char* e : {".cpp", ".h"}) OUTS.push_back("file" + std::to_string(i) + e); for (const char* n : {"main.cpp", "glm-build.sh", "zcm-build.sh"}) OUTS.push_back(n); OUTSET.insert(OUTS.begin(), OUTS.end());
    S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); STK = (u8*)mmap(nullptr, STKN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); HEAP = (u8*)mmap(nullptr, HEAPN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); ALT = (u8*)mmap(nullptr, 1 << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if ((void*)S == MAP_FAILED) { perror("mmap"); return 3; }
    std::string variant = opt("--variant", "rel"); if (mode == "replay" || mode == "minimise") { Plan q; if (!readplan(o["--plan"].c_str(), q, nullptr)) { fprintf(stderr, "cannot read plan\n"); return 3; } variant = q.variant; }
    std::string so = opt("--images", ".") + "/gen_" + variant + ".so"; void* h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); return 3; }
    MAIN2 = (int (*)(int, char**))dlsym(h, "benchgen_main"); if (!MAIN2) { fprintf(stderr, "no main\n"); return 3; } struct link_map* lm; dlinfo(h, RTLD_DI_LINKMAP, &lm);
    { FILE* f = fopen((so + ".ctors").c_str(), "r"); if (!f) { perror("ctors"); return 3; } char kind[16], obj[128]; unsigned long va; int n; while (fscanf(f, "%15s %lx %d %127s", kind, &va, &n, obj) == 4) if (!strcmp(kind, "init")) for (int i = 0; i < n; i++) { auto fn = ((void (**)())(lm->l_addr + va))[i]; if (fn && fn != (void (*)())-1) CTORS.push_back(fn); } fclose(f); }
    if (mode == "minimise") return minimise(o["--plan"].c_str(), o["--out"].c_str());
    if (mode == "replay") { Plan p; Expect e; readplan(o["--plan"].c_str(), p, &e); if (o.count("--trace")) g_tracefd = open(o["--trace"].c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); bool v = execplan(p, false, 0, opt("--dump", "")); printf("log %016llx %s\n", (unsigned long long)g_log, v ? ("violation: " + g_viol.kind + ": " + g_viol.detail).c_str() : "no violation"); if (!e.kind.empty()) { bool same = v && e.kind == g_viol.kind && e.log == g_log; printf(same ? "as recorded\n" : "differs from the recording (%016llx)\n", (unsigned long long)e.log); return same ? 1 : v ? 4 : 0; } return v ? 1 : 0; }
    if (mode == "run") {
        std::string prop = o["--prop"], out = o["--out"]; u64 seed = strtoull(opt("--seed", "1").c_str(), nullptr, 10), from = strtoull(opt("--from", "0").c_str(), nullptr, 10), n = strtoull(opt("--count", "100").c_str(), nullptr, 10), stride = strtoull(opt("--stride", "1").c_str(), nullptr, 10), recheck = strtoull(opt("--recheck", "0").c_str(), nullptr, 10); double lim = atof(opt("--secs", "20").c_str()), t0 = now(); u64 nv = 0; std::string lf, sf, stopfile = opt("--stopfile", ""); if (o.count("--blocks")) g_blocks = new std::string; auto put = [](const std::string& n, const std::string& t) { std::ofstream f(n, std::ios::binary); f << t; };
        TOTAL = std::max<u64>(100, reference(1600000000).nsys); if (prop == "G10") for (int k = 0; k < 3; k++) { Plan q; q.target = "/home/u/out"; q.fs.push_back({'d', "/home/u/out", 0, 0, 0755}); buildfs(q); Inc a; a.pol = Pol{}; a.clock = 1600000000001000000ll; a.cwd = "/home/u"; a.args = {"benchgen", "out"}; a.outkind = k; TOTALK[k] = std::max<u64>(100, runinc(q, a, false, 1, true).nsys); }
        for (u64 k = 0; k < n; k++) { u64 i = from + k * stride; if (now() - t0 > lim) break; u64 sd = mix(seed) ^ mix(i * 7919 + 13); Plan p = genplan(prop, variant, sd, mix(seed + (i >> 7))); g_idx = i;
            bool v = execplan(p, true, sd, opt("--dump", ""));
            if (recheck && !v && k % recheck == 0) { u64 l0 = g_log; Stats keep = ST; bool v2 = execplan(p, false, 0); ST = keep; if (v2 || g_log != l0) { printf("nondeterministic %llu\n", (unsigned long long)i); writeplan(p, (out + ".nondet").c_str(), nullptr, l0); ST.ndet++; } else ST.rechecked++; g_have = v; g_log = l0; }
            if (o.count("--logs")) { char b[80]; snprintf(b, 80, "%llu %016llx %d\n", (unsigned long long)i, (unsigned long long)g_log, v); lf += b; }
            if (k % 97 == 3) { std::string s = "run " + std::to_string(i) + ":"; for (auto& c : p.inc) { s += " [clock " + std::to_string(c.clock / 1000000000) + ","; for (auto& a : c.args) s += " " + esc(a); s += " in " + esc(c.cwd) + "; " + std::to_string(c.edits.size()) + " edits before; " + std::to_string(c.f.size()) + " faults:"; for (size_t x = 0; x < c.f.size() && x < 4; x++) s += " " + std::to_string(c.f[x].ord) + c.f[x].kind + std::to_string(c.f[x].a); s += "]"; } char b[64]; snprintf(b, 64, " log %016llx", (unsigned long long)g_log); sf += s + b + "\n"; }
            if (v) { std::string vp = out + ".viol" + std::to_string(nv); writeplan(p, vp.c_str(), &g_viol, g_log); printf("viol %llu %s %s | %s | %s\n", (unsigned long long)i, vp.c_str(), g_viol.kind.c_str(), esc(g_viol.where).c_str(), g_viol.detail.c_str()); if (++nv >= (u64)atoi(opt("--maxviol", "3").c_str())) break; } }
        if (g_blocks) put(o["--blocks"], *g_blocks); if (o.count("--logs")) put(o["--logs"], lf); put(out + ".samples", sf); stats((out + ".stats").c_str(), now() - t0, nv); return nv ? 1 : 0;
    }
    fprintf(stderr, "usage: gensim run|replay|minimise|union ...\n"); return 3;
}
