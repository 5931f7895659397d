// C20: concurrent use is equivalent to sequential use.
// Every pair (triple) of operations is executed under a controlled scheduler in a process forked from a pristine image.
#include "../lib/sched.hpp"
using namespace sc;
static int N; static ops::Out* fresh;
struct Info { uint32_t nacc; Acc acc[maxAcc]; int nret; Site ret[64]; int status; long allocs; uint32_t nlead; U lead[1 << 14]; long events; double t; uint64_t sig; } static *info;
static std::set<U> G, PG; static std::vector<U> leaders;
static std::vector<std::vector<U>> exec;
static const char* ERRS[] = {"", "deadlock", "a call does not return"};
static uint8_t* slow;                                       // (operation, switch point) where the other thread could not run: real blocking inside the runtime
struct Res { int phase; int err; int timeouts; ops::Out a, b, c, fa, fb; long evA, evB; int hitA, hitB; U pcA, pcB; };
static Res* res;
static int errOf(const char* e) { return !e ? 0 : e[0] == 'd' ? 1 : 2; }
static double patience = 0.7;                               // a thread that makes no progress for this long (spinning on a lock of the other) is left running while the other continues
// one schedule: A runs to its stop (breakpoint or shared-access event p), B runs (to its event q or to the end), [C runs], A finishes, B finishes, C; then A and B once more alone
static long third = -1;                                     // with two switches: the first thread stops again at this event and the second finishes first
static std::vector<int> hist;                               // calls made one after the other before the concurrent ones
static void schedule(int a, int b, int c, U bpoint, long p, long q) {
    { static ops::Out o; for (int h : hist) callop(h, &o); } handlers(); sem_init(&mainSem, 0, 0); Res& R = *res; R.phase = 1;
    static Th A, B, C; start(A, a, &R.a, p); start(B, b, &R.b, q); Th* th[3] = {&A, &B, &C}; int n = 2; if (c >= 0) { start(C, c, &R.c, -1); n = 3; }
    if (bpoint) { text(true); bpByte = *(uint8_t*)bpoint; bp = bpoint; *(volatile uint8_t*)bpoint = 0xCC; }
    if (!G.empty() && p >= 0) { shared = &G; pages = &PG; prot = PROT_NONE; monitor = true; protectShared(PROT_NONE); }
    resume(A, 5); const char* e = nullptr; R.phase = 2;
    auto off = [] { if (monitor) { prot = PROT_READ | PROT_WRITE; protectShared(prot); shared = nullptr; } };
    if (q < 0 || A.state != STOPPED) off();
    auto re = [] { if (monitor) protectShared(prot); };
    if (A.state == STOPPED) { re(); resume(B, patience); if (third >= 0 && B.state == STOPPED && A.state == STOPPED) { re(); A.stopAt = third; A.hit = false; resume(A, patience); } off(); if (c >= 0 && B.state == STOPPED) resume(C, patience); }
    R.timeouts = (B.free && B.state != DONE) || (A.free && A.state != DONE); R.hitA = A.hit; R.hitB = B.hit; R.pcA = A.stopPc; R.pcB = B.stopPc;
    if (bp) { *(volatile uint8_t*)bp = bpByte; bp = 0; }
    e = finish(th, n, third >= 0 ? 1 : B.state == BLOCKED || q >= 0 || c >= 0 || A.state == STOPPED ? 0 : 1);
    R.evA = A.events; R.evB = B.events; R.phase = 3; R.err = errOf(e); if (e) _exit(0);
    if (monitor) { monitor = false; protectShared(PROT_READ | PROT_WRITE); }
    callop(a, &R.fa); R.phase = 4; callop(b, &R.fb); R.phase = 5;
}
static bool judge(mc::Ctx& c, int a, int b, int cc, int status, const std::string& how) {
    Res& R = *res; auto pre = [&] { std::string s = std::string(name(a)) + " || " + name(b) + (cc >= 0 ? std::string(" || ") + name(cc) : "") + " " + how; for (size_t k = 0; k < hist.size(); k++) s += std::string(k ? ", " : ", after earlier calls of ") + name(hist[k]); if (R.hitA) s += ", first stopped at " + where(R.pcA); if (R.hitB) s += ", second stopped at " + where(R.pcB); return s; };
    if (status) { c.fail(pre() + ": process died with status " + std::to_string(status) + " in phase " + std::to_string(R.phase)); return false; }
    if (R.err) { c.fail(pre() + ": " + ERRS[R.err]); return false; }
    auto cmp = [&](const ops::Out& o, int k, const char* w) { return c.check(o == fresh[k], [&] { return pre() + ": " + w + " " + name(k) + " returned " + show(o) + " instead of " + show(fresh[k]); }); };
    return cmp(R.a, a, "first call") && cmp(R.b, b, "second call") && (cc < 0 || cmp(R.c, cc, "third call")) && cmp(R.fa, a, "later call of") && cmp(R.fb, b, "later call of");
}
static bool one(mc::Ctx& c, int a, int b, int cc, U bpoint, long p, long q) {
    memset((void*)res, 0, offsetof(Res, a)); res->a.n = res->b.n = res->c.n = res->fa.n = res->fb.n = 0;
    if (p >= 0 && p < 512 && slow[a * 512 + p] >= 2) { res->hitA = res->hitB = 1; return true; }
    res->timeouts = 0; int s = inChild([&] { schedule(a, b, cc, bpoint, p, q); }, 90);
    if (res->timeouts && p >= 0 && p < 512) slow[a * 512 + p]++;
    c.op(1); c.state(mc::mix(mc::mix(a * 1000 + b, bpoint - img.base), p * 100000 + q + 7 + cc * 77 + (third + 1) * 7919));
    return judge(c, a, b, cc, s, bpoint ? "with a switch at " + where(bpoint) : p >= 0 ? "with switches at shared accesses " + std::to_string(p) + (q >= 0 ? "/" + std::to_string(q) : "") + (third >= 0 ? "/" + std::to_string(third) : "") : "one after the other");
}
static void findLeaders() {
    FILE* f = popen(("objdump -d --no-show-raw-insn -j .text '" + img.path + "' 2>/dev/null").c_str(), "r"); if (!f) die("objdump");
    char l[1024]; std::set<U> s, insn; bool next = false; std::set<U> targets; bool skip = false;
    while (fgets(l, sizeof l, f)) {
        unsigned long a; char m[64], o[256]; o[0] = 0;
        if (l[0] == '0') { next = true; skip = strstr(l, "tm_clones") || strstr(l, "frame_dummy") || strstr(l, "do_global") || strstr(l, "<ops_") || strstr(l, "resolve_blsmul"); continue; }
        if (sscanf(l, " %lx: %60s %250s", &a, m, o) < 2) continue;
        if (skip) { next = false; continue; }
        insn.insert(a); if (next) s.insert(a); next = false;
        if (m[0] == 'j' || !strncmp(m, "call", 4) || !strncmp(m, "ret", 3) || !strncmp(m, "bnd", 3) || !strcmp(m, "notrack")) { next = true; if (m[0] == 'j') { unsigned long t; if (sscanf(o, "%lx", &t) == 1 && o[0] != '*') targets.insert(t); } }
    }
    if (pclose(f) || insn.empty()) die("objdump failed");
    for (U t : targets) if (insn.count(t)) s.insert(t); for (U a : s) leaders.push_back(img.base + a);
}
template<class F> static void par(int n, F f) { std::vector<pid_t> ps; for (int w = 0; w < 8; w++) { fflush(nullptr); pid_t p = fork(); if (!p) { for (int i = w; i < n; i += 8) f(i); _exit(0); } ps.push_back(p); } for (pid_t p : ps) { int s; waitpid(p, &s, 0); if (s) die("analysis worker failed"); } }
int main(int argc, char** argv) {
    mc::Explorer E; E.parse(argc, argv); load(); N = count(); fresh = shm<ops::Out>(N); info = shm<Info>(N); slow = shm<uint8_t>(N * 512); bool T = E.thorough();
    // results of every operation alone in a fresh process, its accesses to writable static memory, and the blocks it leaves on the heap
    par(N, [](int i) { info[i].status = inChild([&] { double t0 = mc::now(); callop(i, &fresh[i]); info[i].t = mc::now() - t0; }); });
    par(N, [](int i) { int s = inChild([&] { static ops::Out o; trackLive = true; callop(i, &o); callop(i, &o); Info& I = info[i]; for (int k = 0; k < nlive && I.nret < 64; k++) I.ret[I.nret++] = livetab[k].s; }); if (s && !info[i].status) info[i].status = s; });
    { std::set<Site> u; for (int i = 0; i < N; i++) for (int k = 0; k < info[i].nret; k++) u.insert(info[i].ret[k]); for (auto& x : u) if (nretained < 256) retained[nretained++] = x; }
    par(N, [](int i) { int s = inChild([&] { static ops::Out o; handlers(); accs = info[i].acc; naccs = &info[i].nacc; record = monitor = true; prot = PROT_READ; protectAll(PROT_READ); callop(i, &o); callop(i, &o); }); if (s && !info[i].status) info[i].status = s; });
    for (int i = 0; i < N; i++) for (uint32_t k = 0; k < info[i].nacc; k++) { U a = info[i].acc[k].addr & ~15ul; for (U g = a; g < a + 48; g += 16) G.insert(g); for (U x : {a, a + 40}) if (monitored(x)) PG.insert(x & ~4095ul); }
    occ = T ? 2 : 1;
    // number of switch points of each operation (accesses to memory somebody writes)
    if (!G.empty()) par(N, [](int i) { inChild([&] { static ops::Out o; handlers(); sem_init(&mainSem, 0, 0); static Th A; start(A, i, &o, -1); shared = &G; pages = &PG; prot = PROT_NONE; monitor = true; protectShared(PROT_NONE); resume(A, 20); info[i].events = A.events; std::set<U> pcs; for (int k = 0; k < A.nseen; k++) pcs.insert(A.seen[k].pc); info[i].sig = 0; for (U x : pcs) info[i].sig = mc::mix(info[i].sig, x); }); });
    // operations with the same set of dependent instructions form a class; the fastest of each class are explored pairwise
    std::map<uint64_t, std::vector<int>> cls; for (int i = 0; i < N; i++) if (info[i].events) cls[info[i].sig].push_back(i);
    static std::set<int> rep_; for (auto& k : cls) { std::sort(k.second.begin(), k.second.end(), [](int a, int b) { return info[a].t < info[b].t; }); for (size_t j = 0; j < k.second.size() && j < (T ? 8u : 4u); j++) rep_.insert(k.second[j]); }
    double cap = (T ? 4000.0 : 30.0) * 8 / std::max<size_t>(1, rep_.size() * rep_.size());
    findLeaders();
    // which basic blocks each operation executes
    par(N, [](int i) { inChild([&] { static ops::Out o; static std::map<U, uint8_t> m; static std::vector<U> h; h.reserve(leaders.size() + 8); handlers(); text(true); for (U a : leaders) { m[a] = *(uint8_t*)a; } for (U a : leaders) *(volatile uint8_t*)a = 0xCC; covB = &m; covHit = &h; covMode = true; callop(i, &o); covMode = false; Info& I = info[i]; for (U a : h) if (I.nlead < (1 << 14)) I.lead[I.nlead++] = a; }); });
    res = nullptr;
    long shw = 0, ret = 0; for (int i = 0; i < N; i++) { shw += info[i].nacc; ret += info[i].nret; }
    auto R = [] { if (!res) { res = shm<Res>(); } }; auto fork0 = getpid(); (void)fork0;
    E.add("alone", "every operation in a fresh process: it completes; writes to static memory and to surviving heap blocks are recorded (they are the only possible dependencies)", {(uint64_t)N}, [=](mc::Ctx& c, const mc::Idx& v) { int i = v[0]; if (c.verbose) { c.note = std::string(name(i)) + ": writes to shared memory " + std::to_string(info[i].nacc) + ", surviving heap blocks " + std::to_string(info[i].nret) + ", basic blocks " + std::to_string(info[i].nlead) + ", result " + show(fresh[i]); for (uint32_t k = 0; k < info[i].nacc && k < 10; k++) c.note += "\n  write to +0x" + std::to_string(info[i].acc[k].addr - img.base) + " at " + where(info[i].acc[k].pc); } c.check(info[i].status == 0, [&] { return std::string(name(i)) + " died with status " + std::to_string(info[i].status); }); c.check(fresh[i].n > 0 && info[i].nlead > 0, "no result or no instruction executed"); c.state(fresh[i].b, fresh[i].n); });
    // sequential pair (the only schedule needed when the two are independent) and, when both touch memory somebody writes, every one- and two-switch schedule
    E.add("pairs", "every ordered pair: the sequential schedule, and every schedule with one switch (thorough: two) at accesses to memory that any operation writes", {(uint64_t)N, (uint64_t)N}, [=](mc::Ctx& c, const mc::Idx& v) { R(); int a = v[0], b = v[1]; if (!one(c, a, b, -1, 0, -1, -1)) return;
        long na = info[a].events, nb = info[b].events; if (!rep_.count(a) || !rep_.count(b)) return; na = std::min(na, 400l); nb = std::min(nb, T ? 60l : 12l); double t0 = mc::now();
        for (long p = 0; p < na && mc::now() - t0 < cap; p++) if (!one(c, a, b, -1, 0, p, -1)) return;
        for (long p = 0; p < na; p++) for (long q = 0; q < nb; q++) { if (mc::now() - t0 > cap * 1.5) return; if (!one(c, a, b, -1, 0, p, q)) return; } }, 600);
    // the same after earlier calls, when operations leave something behind; schedules in the order of the sum of their two switch positions
    struct W { int a, b, h; double cap; }; static std::vector<W> WM; { std::map<int, int> kl; std::vector<int> r; for (auto& k : cls) for (size_t j = 0; j < k.second.size() && j < (T ? 6u : 3u); j++) r.push_back(k.second[j]), kl[k.second[j]] = k.second[0]; double ns = 0, nd = 0, B = (T ? 6000.0 : 45.0) * 8;
        for (int pass = 0; pass < 2; pass++) for (int a : r) for (int b : r) for (int h = 0; h < 4; h++) { if (a == b && h) continue; bool same = kl[a] == kl[b]; if (!pass) { (same ? ns : nd)++; continue; } WM.push_back({a, b, h, same ? (nd ? 0.65 : 1) * B / ns : 0.35 * B / nd}); } }
    if (!WM.empty()) E.add("warm", "every ordered pair of operations that share memory, after earlier calls of the first, the second or both: every schedule with one or two switches at shared accesses", {(uint64_t)WM.size()}, [=](mc::Ctx& c, const mc::Idx& v) { R(); auto [a, b, h, capw] = WM[v[0]];
            static const int H[4][2] = {{0, -1}, {1, -1}, {1, 0}, {0, 1}}; hist.clear(); for (int x : H[h]) if (x >= 0) hist.push_back(x ? b : a); struct Clr { ~Clr() { hist.clear(); } } clr; double t0 = mc::now(); long na = 0;
            for (long p = 0; p < 400 && mc::now() - t0 < capw * 0.3; p++) { if (!one(c, a, b, -1, 0, p, -1)) return; if (!res->hitA) break; na = p + 1; }
            long nb = 400; for (long d = 0; d < na + nb; d++) for (long p = 0; p <= d && p < na; p++) { long q = d - p; if (q >= nb) continue; if (mc::now() - t0 > capw) return; if (!one(c, a, b, -1, 0, p, q)) return; if (!res->hitB) nb = std::min(nb, q + 1); } }, 600);
    // three switches, for the fastest members of one class
    static std::vector<W> W3; for (auto& w : WM) { bool same = false; for (auto& k : cls) { int x = -1, y = -1; for (int j = 0; j < 3 && j < (int)k.second.size(); j++) { if (k.second[j] == w.a) x = j; if (k.second[j] == w.b) y = j; } if (x >= 0 && y >= 0) same = true; } if (w.a == w.b) for (auto& k : cls) if (k.second.size() > 1 && std::count(k.second.begin(), k.second.end(), w.a)) same = false; if (same && (w.h == 0 || (w.h == 2 && w.a != w.b))) W3.push_back(w); }
    if (!W3.empty()) { static double cap3 = (T ? 3000.0 : 50.0) * 8 / W3.size(); E.add("three-switches", "pairs of operations that share memory, after earlier calls: schedules with three switches at shared accesses, in the order of the sum of their positions", {(uint64_t)W3.size()}, [=](mc::Ctx& c, const mc::Idx& v) { R(); auto [a, b, h, cw] = W3[v[0]]; hist.clear(); hist.push_back(a); if (h == 2) hist = {b, a}; struct Clr { ~Clr() { hist.clear(); third = -1; } } clr; double t0 = mc::now(); long nb = 200;   // every event is stopped at before the access (even positions); stopping after it differs only in accesses seen before
        for (long d = 0; d < 400; d++) for (long p = 0; p <= d; p++) for (long q = 0; p + q <= d && q < nb; q++) { third = 2 * (p + 1 + d - p - q); if (mc::now() - t0 > cap3) return; if (!one(c, a, b, -1, 0, 2 * p, 2 * q)) return; if (!res->hitB && res->hitA) nb = std::min(nb, q + 1); } }, 600); }
    // one preemption at every basic block
    static std::vector<std::array<int, 2>> PB; for (int a = 0; a < N; a++) { std::set<int> bs; std::string s = name(a); std::string base = s.substr(0, s.find('/')); for (int b = 0; b < N; b++) { std::string t = name(b); if (b != a && t.substr(0, t.find('/')) == base) bs.insert(b); if (T && (t == "verify-good/1" || t == "derive_child_sk/0" || t == "hkdf-refused/0" || t == "g2-weightedSum/1" || t == "g1-decompress/1")) bs.insert(b); } if (T || bs.empty()) bs.insert(a); for (int b : bs) if (T || s.back() == '0' ) PB.push_back({a, b}); }
    uint64_t SL = T ? 16 : 4;
    E.add("blocks", "preemption of an operation on first reaching each basic block it executes, running another operation to completion there, then both again", {(uint64_t)PB.size(), SL}, [=](mc::Ctx& c, const mc::Idx& v) { R(); int a = PB[v[0]][0], b = PB[v[0]][1]; if (c.verbose) c.note = std::string(name(a)) + " preempted by " + name(b) + " at each of " + std::to_string(info[a].nlead) + " basic blocks (slice " + std::to_string(v[1]) + ")"; int slowN = 0; for (uint32_t k = v[1]; k < info[a].nlead; k += SL) { if (slowN >= 4) break; patience = slowN >= 2 ? 0.15 : 0.7; if (!one(c, a, b, -1, info[a].lead[k], -1, -1)) return; slowN += res->timeouts; if (!c.check(res->hitA, "breakpoint not reached")) return; } }, 600);
    if (shw) { static std::vector<int> dep; for (auto& k : cls) for (size_t j = 0; j < k.second.size() && j < 2; j++) dep.push_back(k.second[j]); size_t m = std::min<size_t>(dep.size(), T ? 12 : 4); double cap3 = (T ? 2000.0 : 20.0) * 8 / std::max<size_t>(1, m * m * m); if (m) E.add("triples", "three dependent operations: the first and the second stopped at every shared access, the third run in between", {(uint64_t)m, (uint64_t)m, (uint64_t)m}, [=](mc::Ctx& c, const mc::Idx& v) { R(); int a = dep[v[0]], b = dep[v[1]], d = dep[v[2]]; long na = std::min(info[a].events, T ? 24l : 6l), nb = std::min(info[b].events, T ? 24l : 6l); double t0 = mc::now(); for (long p = 0; p < na; p++) for (long q = 0; q < nb; q++) if (mc::now() - t0 < cap3 && !one(c, a, b, d, 0, p, q)) return; }, 600); }
    return E.run();
}
