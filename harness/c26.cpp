// C26: results do not depend on the ambient state of the process, and calls leave that state alone.  Every operation is run under every
// ambient configuration and pair of configurations (floating-point modes, locales, errno, environment, directories, descriptors, limits,
// signals, clocks, random state), in every calling context (exception handling, signal handler, small stacks), from memory of every alignment.
#include "../lib/sched.hpp"
#include <cfenv>
#include <clocale>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <locale>
#include <new>
#include <sstream>
#include <ucontext.h>
#include <xmmintrin.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/times.h>
using namespace sc;
typedef void (*lrun_t)(int, const ops::In*, size_t, ops::Out*);
static int N, NV, M, NL; static lrun_t lrun; static ops::name_t lname; static int (*lunit)(int); static ops::Out* fresh;
static const size_t XMAX = 8192; static uint8_t vx[128][XMAX]; static size_t vn[128];
static std::string opname(int i) { return i < N ? name(i) : std::string(vname(i - N)) + " [bytes]"; }
static void call(int i, ops::Out* o) { if (i < N) callop(i, o); else callv(i - N, vx[i - N], vn[i - N], o); }
// ---------------------------------------------------------------- answers given to the code under test by interposed functions
static int envMode = 0, clockMode = 0; static long tick = 0; static bool loading = false;
static bool asked(U caller) { return inOp || (loading && !inLibc(caller) && !inLoader(caller)); }
#define REALF(f) static auto real = (decltype(&f))dlsym(RTLD_NEXT, #f)
extern "C" {
char* getenv(const char* n) noexcept { REALF(getenv); if (!asked(CALLER) || !envMode) return real(n); return envMode == 1 ? nullptr : envMode == 2 ? (char*)"1" : (char*)""; }
char* secure_getenv(const char* n) noexcept { REALF(secure_getenv); if (!asked(CALLER) || !envMode) return real(n); return envMode == 1 ? nullptr : envMode == 2 ? (char*)"1" : (char*)""; }
static long fakeSec() { switch (clockMode) { case 1: return 0; case 2: return 1l << 33; default: return 4000000000l - tick++; } }
int clock_gettime(clockid_t k, timespec* t) noexcept { if (!inOp || !clockMode) return (int)syscall(SYS_clock_gettime, k, t); t->tv_sec = fakeSec(); t->tv_nsec = clockMode == 2 ? 999999999 : 0; return 0; }
int gettimeofday(timeval* t, void* z) noexcept { if (!inOp || !clockMode) return (int)syscall(SYS_gettimeofday, t, z); t->tv_sec = fakeSec(); t->tv_usec = clockMode == 2 ? 999999 : 0; return 0; }
time_t time(time_t* o) noexcept { REALF(time); time_t t = inOp && clockMode ? fakeSec() : real(nullptr); if (o) *o = t; return t; }
clock_t clock() noexcept { REALF(clock); return inOp && clockMode ? (clock_t)fakeSec() : real(); }
pid_t getpid() noexcept { return inOp && clockMode ? (clockMode == 1 ? 1 : 99999) : (pid_t)syscall(SYS_getpid); }
uid_t getuid() noexcept { return inOp && clockMode ? (clockMode == 1 ? 0 : 65534) : (uid_t)syscall(SYS_getuid); }
uid_t geteuid() noexcept { return inOp && clockMode ? (clockMode == 1 ? 0 : 65534) : (uid_t)syscall(SYS_geteuid); }
int sched_getcpu() noexcept { return inOp && clockMode ? (clockMode == 1 ? 0 : 255) : 0; }
}
// ---------------------------------------------------------------- ambient configurations
static char rndState[128]; static int wantErrno = 0;
struct Punct : std::numpunct<char> { char do_thousands_sep() const override { return ','; } std::string do_grouping() const override { return "\3"; } char do_decimal_point() const override { return ','; } };
struct Turkish : std::ctype<char> { char do_toupper(char c) const override { return c == 'i' ? c : c >= 'a' && c <= 'z' ? char(c - 32) : c; } char do_tolower(char c) const override { return c == 'I' ? c : c >= 'A' && c <= 'Z' ? char(c + 32) : c; } };
static std::string locDir; static std::vector<std::string> locs; static void cloc(size_t k) { if (k < locs.size() && !setlocale(LC_ALL, locs[k].c_str())) _exit(77); }
static void cxxloc(size_t k) { if (k < locs.size()) try { std::locale::global(std::locale(locs[k].c_str())); } catch (...) { _exit(77); } }
static void mx(unsigned v) { _mm_setcsr(v); } static void x87(uint16_t c) { asm volatile("fldcw %0" ::"m"(c)); }
static void lim(int r, rlim_t v) { rlimit l; getrlimit((__rlimit_resource_t)r, &l); l.rlim_cur = v; setrlimit((__rlimit_resource_t)r, &l); }
static void onAny(int) {}
static void ignoreSigs() { for (int s : {SIGPIPE, SIGCHLD, SIGINT, SIGTERM, SIGHUP, SIGUSR1, SIGUSR2, SIGFPE}) signal(s, SIG_IGN); }
static void quietTerm() { _exit(99); } static void quietNew() { throw std::bad_alloc(); }
extern char** environ;
struct Amb { const char* n; int g; void (*set)(); };
enum { G_ERR, G_FP, G_X87, G_CLOC, G_XLOC, G_ENV, G_ANS, G_DIR, G_FD, G_LIM, G_MASK, G_SIG, G_RND, G_CLK, G_HND, G_IO };
static const Amb A[] = {
    {"default", -1, [] {}},
    {"errno ERANGE", G_ERR, [] { wantErrno = ERANGE; }}, {"errno EINVAL", G_ERR, [] { wantErrno = EINVAL; }}, {"errno ENOMEM", G_ERR, [] { wantErrno = ENOMEM; }}, {"errno EINTR", G_ERR, [] { wantErrno = EINTR; }},
    {"rounding up", G_FP, [] { fesetround(FE_UPWARD); }}, {"rounding down", G_FP, [] { fesetround(FE_DOWNWARD); }}, {"rounding to zero", G_FP, [] { fesetround(FE_TOWARDZERO); }},
    {"flush to zero", G_FP, [] { mx(0x1f80 | 0x8040); }}, {"pending floating-point flags", G_FP, [] { mx(0x1f80 | 0x3f); }},
    {"floating-point exceptions unmasked", G_FP, [] { mx(0x1f80 & ~0x280u); uint16_t w = 0x037f & ~0x5; x87(w); }},
    {"x87 single precision", G_X87, [] { x87(0x007f); }}, {"x87 double precision rounding down", G_X87, [] { x87(0x067f); }},
    {"C locale C.UTF-8", G_CLOC, [] { setlocale(LC_ALL, "C.UTF-8"); }}, {"C locale 1", G_CLOC, [] { cloc(0); }}, {"C locale 2", G_CLOC, [] { cloc(1); }}, {"C locale 3", G_CLOC, [] { cloc(2); }},
    {"C++ locale with grouping", G_XLOC, [] { std::locale::global(std::locale(std::locale::classic(), new Punct)); }}, {"C++ locale with Turkish letters", G_XLOC, [] { std::locale::global(std::locale(std::locale::classic(), new Turkish)); }}, {"C++ locale 1", G_XLOC, [] { cxxloc(0); }}, {"C++ locale 2", G_XLOC, [] { cxxloc(1); }}, {"C++ locale 3", G_XLOC, [] { cxxloc(2); }},
    {"no environment", G_ENV, [] { clearenv(); }}, {"environment full of settings", G_ENV, [] { for (const char* v : {"DEBUG", "BLS_DEBUG", "VERBOSE", "LANG", "LC_ALL", "HOME", "TMPDIR", "TZ", "BLS_DISABLE_BMI2", "OMP_NUM_THREADS", "MALLOC_ARENA_MAX", "POSIXLY_CORRECT"}) setenv(v, "1", 1); }},
    {"every variable unset", G_ANS, [] { envMode = 1; }}, {"every variable 1", G_ANS, [] { envMode = 2; }}, {"every variable empty", G_ANS, [] { envMode = 3; }},
    {"removed working directory", G_DIR, [] { char d[] = "/tmp/c26XXXXXX"; if (mkdtemp(d)) { if (!chdir(d)) rmdir(d); } }}, {"root directory, umask 0777", G_DIR, [] { if (chdir("/")) {} umask(0777); }},
    {"descriptors 0-2 closed", G_FD, [] { close(0), close(1), close(2); }}, {"no descriptors left", G_FD, [] { lim(RLIMIT_NOFILE, 3); }}, {"standard streams at end of file", G_FD, [] { int f = open("/dev/full", O_RDWR); dup2(f, 1), dup2(f, 2), close(f); }},
    {"no file growth, no core", G_LIM, [] { lim(RLIMIT_FSIZE, 0), lim(RLIMIT_CORE, 0); }}, {"no locked memory, no processes", G_LIM, [] { lim(RLIMIT_MEMLOCK, 0), lim(RLIMIT_NPROC, 1); }},
    {"all signals blocked", G_MASK, [] { sigset_t s; sigfillset(&s); for (int k : {SIGALRM, SIGTRAP, SIGSEGV, SIGBUS}) sigdelset(&s, k); sigprocmask(SIG_SETMASK, &s, nullptr); }},
    {"pending signals", G_MASK, [] { sigset_t s; sigemptyset(&s); sigaddset(&s, SIGUSR1), sigaddset(&s, SIGINT), sigaddset(&s, SIGTERM); sigprocmask(SIG_SETMASK, &s, nullptr); raise(SIGUSR1), raise(SIGINT), raise(SIGTERM); }},
    {"signals ignored", G_SIG, [] { ignoreSigs(); }}, {"signals handled", G_SIG, [] { for (int s : {SIGPIPE, SIGCHLD, SIGINT, SIGTERM, SIGHUP, SIGUSR1, SIGUSR2, SIGFPE, SIGABRT}) signal(s, onAny); }},
    {"random state 1", G_RND, [] { initstate(1, rndState, 128), srand48(1); }}, {"random state 0xffffffff", G_RND, [] { initstate(~0u, rndState, 128), srand48(-1); }},
    {"clock at zero, process 1", G_CLK, [] { clockMode = 1; }}, {"clock in the far future", G_CLK, [] { clockMode = 2; }}, {"clock running backwards", G_CLK, [] { clockMode = 3; }},
    {"terminate and new handlers set", G_HND, [] { std::set_terminate(quietTerm), std::set_new_handler(quietNew); }},
    {"standard streams failing and formatted", G_IO, [] { for (std::ostream* s : {&std::cout, (std::ostream*)&std::cerr, &std::clog}) { s->setf(std::ios::hex, std::ios::basefield), s->setf(std::ios::uppercase | std::ios::showbase | std::ios::boolalpha), s->fill('*'), s->width(9); } std::cout.setstate(std::ios::failbit); }},
};
static const int NA = sizeof A / sizeof *A;
// ---------------------------------------------------------------- what a call must leave unchanged
struct Snap {
    unsigned mxcsr; uint16_t cw, tag; int round; uint8_t df; char loc[600]; const void *np, *ct; uint64_t cxx, env, rnd, cpus; long dev, ino; unsigned um; uint64_t mask, acts, rl; itimerval it[3]; uint64_t fds; int nice_; void *th, *nh; int unc; uint64_t ios; long size1, size2; uint64_t loc2; void* alt; long thr; char comm[16]; int dump, sched, cancel, ctype, pdeath; long slack;
};
static std::terminate_handler stdTerm;
static int outFd[2] = {-1, -1};
static void snap(Snap& s) {
    memset((void*)&s, 0, sizeof s); s.mxcsr = _mm_getcsr() & ~0x3fu; struct { uint16_t w[14]; } e; asm volatile("fnstenv %0\n fldenv %0" : "=m"(e)); s.cw = e.w[0]; s.tag = e.w[4]; s.round = fegetround(); uint64_t f; asm volatile("pushfq; popq %0" : "=r"(f)); s.df = (f >> 10) & 1;
    if (const char* l = setlocale(LC_ALL, nullptr)) { strncpy(s.loc, l, sizeof s.loc - 1); s.loc2 = mc::hash_bytes(l, strlen(l)); } { std::locale g; s.np = &std::use_facet<std::numpunct<char>>(g), s.ct = &std::use_facet<std::ctype<char>>(g); std::string n = g.name(); s.cxx = mc::hash_bytes(n.data(), n.size()); }
    s.env = 1; if (environ) for (char** p = environ; *p; p++) s.env = mc::hash_bytes(*p, strlen(*p), mc::mix(s.env, (uint64_t)*p)); s.rnd = mc::hash_bytes(rndState, 128); { cpu_set_t c; CPU_ZERO(&c); sched_getaffinity(0, sizeof c, &c); s.cpus = mc::hash_bytes(&c, sizeof c); }
    struct stat st; if (!stat(".", &st)) s.dev = st.st_dev, s.ino = st.st_ino; s.um = umask(0); umask(s.um); sigset_t m; sigprocmask(SIG_BLOCK, nullptr, &m); memcpy(&s.mask, &m, 8);
    s.acts = 7; for (int k = 1; k < 65; k++) { struct sigaction a; memset(&a, 0, sizeof a); if (sigaction(k, nullptr, &a)) continue; uint64_t q[3] = {(uint64_t)a.sa_handler, (uint64_t)a.sa_flags, 0}; memcpy(&q[2], &a.sa_mask, 8); s.acts = mc::hash_bytes(q, 24, s.acts); }
    s.rl = 3; for (int r = 0; r < RLIM_NLIMITS; r++) { rlimit l; memset(&l, 0, sizeof l); getrlimit((__rlimit_resource_t)r, &l); s.rl = mc::hash_bytes(&l, sizeof l, s.rl); } for (int k = 1; k < 3; k++) getitimer((__itimer_which_t)k, &s.it[k]);
    s.fds = 5; for (int k = 0; k < 96; k++) { int g = fcntl(k, F_GETFD); if (g < 0) continue; struct stat t; memset(&t, 0, sizeof t); fstat(k, &t); long q[6] = {k, g, fcntl(k, F_GETFL), (long)t.st_dev, (long)t.st_ino, k < 3 ? 0 : (long)lseek(k, 0, SEEK_CUR)}; s.fds = mc::hash_bytes(q, sizeof q, s.fds); }
    s.nice_ = getpriority(PRIO_PROCESS, 0); s.th = (void*)std::get_terminate(), s.nh = (void*)std::get_new_handler(), s.unc = std::uncaught_exceptions();
    s.ios = 9; for (std::ios* q : {(std::ios*)&std::cout, (std::ios*)&std::cerr, (std::ios*)&std::clog}) { long w[5] = {(long)q->flags(), (long)q->rdstate(), (long)q->fill(), (long)q->width(), (long)q->precision()}; s.ios = mc::hash_bytes(w, sizeof w, s.ios); }
    if (outFd[0] >= 0) { fflush(stdout), fflush(stderr); std::cout.flush(); struct stat t; if (!fstat(outFd[0], &t)) s.size1 = t.st_size; if (!fstat(outFd[1], &t)) s.size2 = t.st_size; }
    stack_t a; if (!sigaltstack(nullptr, &a)) s.alt = a.ss_sp; struct stat tk; s.thr = stat("/proc/self/task", &tk) ? 0 : (long)tk.st_nlink;
    prctl(PR_GET_NAME, s.comm), s.dump = prctl(PR_GET_DUMPABLE), s.slack = prctl(PR_GET_TIMERSLACK), prctl(PR_GET_PDEATHSIG, &s.pdeath), s.sched = sched_getscheduler(0); pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, &s.cancel), pthread_setcancelstate(s.cancel, nullptr), pthread_setcanceltype(PTHREAD_CANCEL_DEFERRED, &s.ctype), pthread_setcanceltype(s.ctype, nullptr);
}
static const char* differ(const Snap& a, const Snap& b) {
#define D(f, t) if (memcmp(&a.f, &b.f, sizeof a.f)) return t
    D(mxcsr, "the SSE control register"); D(cw, "the x87 control word"); D(tag, "the x87 register stack"); D(round, "the rounding mode"); D(df, "the direction flag"); D(loc, "the C locale"); D(loc2, "the C locale"); D(np, "the global C++ locale"); D(ct, "the global C++ locale"); D(cxx, "the global C++ locale"); D(env, "the environment"); D(rnd, "the state of random()"); D(cpus, "the CPU affinity");
    D(dev, "the working directory"); D(ino, "the working directory"); D(um, "the file creation mask"); D(mask, "the signal mask"); D(acts, "a signal disposition"); D(rl, "a resource limit"); D(it, "a timer"); D(fds, "the open descriptors"); D(nice_, "the priority"); D(th, "the terminate handler"); D(nh, "the new handler"); D(unc, "the number of uncaught exceptions"); D(ios, "the format or state of a standard stream"); D(size1, "standard output"); D(size2, "standard error"); D(alt, "the alternate signal stack"); D(thr, "the number of threads"); D(comm, "the thread's name"); D(dump, "the dumpable flag"); D(sched, "the scheduling policy"); D(cancel, "the cancellation state"); D(ctype, "the cancellation state"); D(pdeath, "the parent-death signal"); D(slack, "the timer slack");
    return nullptr;
}
// ---------------------------------------------------------------- calling contexts
static void direct(void (*f)(void*), void* p) { f(p); }
static bool ctxOk = true;
static void inCatch(void (*f)(void*), void* p) { try { throw 12345; } catch (int& x) { f(p); try { throw; } catch (int& y) { ctxOk = &x == &y && y == 12345; } catch (...) { ctxOk = false; } } }
static void inUnwind(void (*f)(void*), void* p) { struct Un { void (*f)(void*); void* p; ~Un() noexcept(false) { f(p); ctxOk = std::uncaught_exceptions() == 1; } }; try { Un d{f, p}; throw 777; } catch (int y) { if (y != 777) ctxOk = false; } }
static void (*hf)(void*); static void* hp; static void onUsr(int) { hf(hp); }
static void inHandler(void (*f)(void*), void* p) { hf = f, hp = p; struct sigaction a, o; memset(&a, 0, sizeof a); a.sa_handler = onUsr; sigaction(SIGUSR2, &a, &o); sigset_t s, os; sigemptyset(&s), sigaddset(&s, SIGUSR2); sigprocmask(SIG_UNBLOCK, &s, &os); raise(SIGUSR2); sigprocmask(SIG_SETMASK, &os, nullptr); sigaction(SIGUSR2, &o, nullptr); }
static size_t STK = 256 << 10; static char* stk; static size_t stackUsed;
static char* mkstack() { size_t g = 1 << 20; char* m = (char*)mmap(nullptr, STK + 2 * g, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(m + g, STK, PROT_READ | PROT_WRITE); return m + g; }
static void* thr(void*) { hf(hp); return nullptr; }
static void inThread(void (*f)(void*), void* p) { if (!stk) stk = mkstack(); hf = f, hp = p; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, stk, STK); pthread_t t; if (pthread_create(&t, &a, thr, nullptr)) _exit(78); pthread_join(t, nullptr); pthread_attr_destroy(&a); }
static ucontext_t uMain, uCo; static void coMain() { hf(hp); }
static void inCoroutine(void (*f)(void*), void* p) { if (!stk) stk = mkstack(); hf = f, hp = p; getcontext(&uCo); uCo.uc_stack.ss_sp = stk; uCo.uc_stack.ss_size = STK; uCo.uc_link = &uMain; makecontext(&uCo, coMain, 0); swapcontext(&uMain, &uCo); }
struct Cx { const char* n; void (*run)(void (*)(void*), void*); };
static const Cx CX[] = {{"called directly", direct}, {"called while handling an exception", inCatch}, {"called from a destructor during stack unwinding", inUnwind}, {"called from a signal handler", inHandler}, {"called on a thread with a 256 KB stack", inThread}, {"called on a coroutine with a 256 KB stack", inCoroutine}};
// ---------------------------------------------------------------- running a block of operations in a fresh process
struct Blk { ops::Out o; int op, step; Snap a, b; int bad; char why[200]; uint64_t st; int skipped; }; static Blk* blk;
static std::vector<int> sel; static const int BL = 8;
struct CallArg { int i; ops::Out* o; Snap *a, *b; bool inside; };
static void doCall(void* p) { auto* c = (CallArg*)p; if (c->inside) snap(*c->a); errno = wantErrno; call(c->i, c->o); if (c->inside) snap(*c->b); }
static void setup(const std::vector<int>& amb) { initstate(5, rndState, 128); outFd[0] = memfd_create("o", 0), outFd[1] = memfd_create("e", 0); if (outFd[0] >= 0) { dup2(outFd[0], 1), dup2(outFd[1], 2); int z = open("/dev/null", O_RDONLY); dup2(z, 0), close(z); } for (int a : amb) A[a].set(); }
static void ambAgain(const std::vector<int>& amb) { for (int a : amb) if (A[a].g == G_RND) A[a].set(); }
static bool block(mc::Ctx& c, std::vector<int> amb, int ctx, size_t lo, size_t hi) {
    if (!blk) blk = shm<Blk>(); memset((void*)blk, 0, sizeof *blk); c.op(hi - lo);
    auto pre = [&] { std::string s = opname(blk->op) + ", " + CX[ctx].n; for (int a : amb) if (a) { s += ", ambient state: " + std::string(A[a].n); if ((A[a].g == G_CLOC || A[a].g == G_XLOC) && isdigit(A[a].n[strlen(A[a].n) - 1]) && A[a].n[strlen(A[a].n) - 1] < '8') { size_t k = A[a].n[strlen(A[a].n) - 1] - '1'; if (k < locs.size()) s += " (" + locs[k] + ")"; } } return s; };
    int st = inChild([&] {
        setup(amb); CallArg g; g.o = &blk->o; g.a = &blk->a, g.b = &blk->b; g.inside = ctx != 2 && ctx != 4; 
        for (size_t k = lo; k < hi; k++) { blk->op = sel[k]; blk->step = (int)(k - lo) + 1; g.i = sel[k]; memset(&blk->o, 0, 8); ambAgain(amb); ctxOk = true; if (!g.inside) snap(blk->a); CX[ctx].run(doCall, &g); if (!g.inside) snap(blk->b); for (int w = 0; blk->b.thr > blk->a.thr && w < 400; w++) { usleep(5000); struct stat tk; if (!stat("/proc/self/task", &tk)) blk->b.thr = (long)tk.st_nlink; } if (blk->b.thr < blk->a.thr) blk->b.thr = blk->a.thr; // a thread that was joined may linger in the kernel
            if (!(blk->o == fresh[sel[k]])) { blk->bad = 1; return; } if (const char* d = differ(blk->a, blk->b)) { blk->bad = 2; snprintf(blk->why, sizeof blk->why, "%s", d); return; } if (!ctxOk) { blk->bad = 3; return; } blk->st = mc::mix(blk->st, mc::hash_bytes(blk->o.b, blk->o.n)); } }, 120);
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 77)) { c.note = "locale not available"; return true; }
    if (c.verbose) c.note = pre() + (blk->bad ? "" : ": as in the default state");
    if (st) { c.fail(pre() + ": the process died with status " + std::to_string(st)); return false; }
    if (blk->bad == 1) { c.fail(pre() + ": returned " + show(blk->o) + " instead of " + show(fresh[blk->op])); return false; }
    if (blk->bad == 2) { c.fail(pre() + ": the call changed " + blk->why); return false; }
    if (blk->bad == 3) { c.fail(pre() + ": the exception being handled was not the same after the call"); return false; }
    uint64_t h = ctx; for (int a : amb) h = mc::mix(h, a); c.state(mc::mix(mc::mix(h, lo), blk->st)); c.check(true, ""); return true;
}
// ---------------------------------------------------------------- system calls
struct Sys { volatile int n; struct { long nr, a, b; char path[120]; } e[16]; ops::Out o; }; static Sys* sys;
static void onSys(int, siginfo_t* si, void* uc) {
    ucontext_t* u = (ucontext_t*)uc; long nr = si->si_syscall; auto* R = u->uc_mcontext.gregs; long a = R[REG_RDI], b = R[REG_RSI], d = R[REG_RDX]; const char* p = nullptr; bool ok = false; R[REG_RAX] = -ENOENT;
    if (nr == SYS_open || nr == SYS_openat) { p = (const char*)(nr == SYS_open ? a : b); long fl = nr == SYS_open ? b : d; ok = (fl & (O_ACCMODE | O_CREAT | O_TRUNC)) == O_RDONLY && (!strncmp(p, "/proc/", 6) || !strncmp(p, "/sys/", 5) || !strncmp(p, "/dev/urandom", 12) || !strncmp(p, "/dev/random", 11) || strstr(p, "libgcc_s") || strstr(p, "ld.so.cache")); }
    if (nr == SYS_clone3) { R[REG_RAX] = -ENOSYS; return; }
    if (ok) return; int k = sys->n; if (k < 16) { sys->e[k].nr = nr, sys->e[k].a = a, sys->e[k].b = b; if (p) strncpy(sys->e[k].path, p, 119); sys->n = k + 1; } if (nr != SYS_open && nr != SYS_openat) R[REG_RAX] = -EPERM;
}
static const struct { int nr; const char* n; } BAD[] = {{SYS_open, "open"}, {SYS_openat, "openat"}, {SYS_creat, "creat"}, {SYS_write, "write"}, {SYS_writev, "writev"}, {SYS_pwrite64, "pwrite"}, {SYS_sendto, "sendto"}, {SYS_sendmsg, "sendmsg"}, {SYS_socket, "socket"}, {SYS_socketpair, "socketpair"}, {SYS_connect, "connect"}, {SYS_bind, "bind"}, {SYS_listen, "listen"}, {SYS_accept, "accept"}, {SYS_execve, "execve"}, {SYS_execveat, "execveat"}, {SYS_fork, "fork"}, {SYS_vfork, "vfork"}, {SYS_clone3, "clone3"}, {SYS_kill, "kill"}, {SYS_unlink, "unlink"}, {SYS_unlinkat, "unlinkat"}, {SYS_rename, "rename"}, {SYS_renameat, "renameat"}, {SYS_mkdir, "mkdir"}, {SYS_mkdirat, "mkdirat"}, {SYS_rmdir, "rmdir"}, {SYS_link, "link"}, {SYS_symlink, "symlink"}, {SYS_chmod, "chmod"}, {SYS_fchmod, "fchmod"}, {SYS_chown, "chown"}, {SYS_truncate, "truncate"}, {SYS_ftruncate, "ftruncate"}, {SYS_mknod, "mknod"}, {SYS_chdir, "chdir"}, {SYS_fchdir, "fchdir"}, {SYS_chroot, "chroot"}, {SYS_mount, "mount"}, {SYS_umount2, "umount"}, {SYS_ptrace, "ptrace"}, {SYS_process_vm_readv, "process_vm_readv"}, {SYS_process_vm_writev, "process_vm_writev"}, {SYS_setuid, "setuid"}, {SYS_setgid, "setgid"}, {SYS_setrlimit, "setrlimit"}, {SYS_setpriority, "setpriority"}, {SYS_sched_setaffinity, "sched_setaffinity"}, {SYS_setitimer, "setitimer"}, {SYS_alarm, "alarm"}, {SYS_umask, "umask"}, {SYS_read, "read"}, {SYS_shmget, "shmget"}, {SYS_shmat, "shmat"}, {SYS_msgget, "msgget"}, {SYS_semget, "semget"}, {SYS_dup2, "dup2"}, {SYS_dup3, "dup3"}, {SYS_pipe, "pipe"}, {SYS_pipe2, "pipe2"}, {SYS_nanosleep, "nanosleep"}, {SYS_clock_nanosleep, "clock_nanosleep"}, {SYS_pause, "pause"}, {SYS_poll, "poll"}, {SYS_select, "select"}, {SYS_memfd_create, "memfd_create"}, {SYS_rt_sigaction, "rt_sigaction"}, {SYS_sigaltstack, "sigaltstack"}, {SYS_setsid, "setsid"}, {SYS_syslog, "syslog"}};
static bool sandbox() {
    struct sigaction a; memset(&a, 0, sizeof a); a.sa_flags = SA_SIGINFO | SA_NODEFER; a.sa_sigaction = onSys; sigaction(SIGSYS, &a, nullptr); std::vector<sock_filter> f; f.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, (unsigned)offsetof(seccomp_data, nr)));
    for (auto& b : BAD) { f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)b.nr, 0, 1)); f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP)); } f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
    sock_fprog p{(unsigned short)f.size(), f.data()}; return !prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) && !prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p);
}
// ---------------------------------------------------------------- a signal after every instruction
static volatile uint64_t steps, stepCap; static volatile bool stepping; static uint8_t* pcs; static volatile uint64_t npcs;
static void onStep(int, siginfo_t*, void* uc) { auto* R = ((ucontext_t*)uc)->uc_mcontext.gregs; uint64_t n = steps + 1; steps = n; U pc = R[REG_RIP]; if (pc >= img.txlo && pc < img.txhi && !pcs[pc - img.txlo]) pcs[pc - img.txlo] = 1, npcs = npcs + 1; if (!stepping || n >= stepCap) R[REG_EFL] &= ~0x100l; }
// ---------------------------------------------------------------- low-level routines with arbitrary flags and caller-saved registers on entry
extern "C" void entry_call(void* f, void* a, void* b, void* c, uint64_t flags, const uint64_t* pat);
asm(R"(
.text
.globl entry_call
.type entry_call,@function
entry_call:
 pushq %rbp; pushq %rbx; pushq %r12; pushq %r13; pushq %r14; pushq %r15; subq $8,%rsp
 movq %rdi,%rbx; movq %rsi,%rdi; movq %rdx,%rsi; movq %rcx,%rdx
 movq %r9,%r12
 movups (%r12),%xmm0; movaps %xmm0,%xmm1; movaps %xmm0,%xmm2; movaps %xmm0,%xmm3; movaps %xmm0,%xmm4; movaps %xmm0,%xmm5; movaps %xmm0,%xmm6; movaps %xmm0,%xmm7
 movaps %xmm0,%xmm8; movaps %xmm0,%xmm9; movaps %xmm0,%xmm10; movaps %xmm0,%xmm11; movaps %xmm0,%xmm12; movaps %xmm0,%xmm13; movaps %xmm0,%xmm14; movaps %xmm0,%xmm15
 testq %rdx,%rdx; jne 1f; movq (%r12),%rdx
1: pushq %r8; movq (%r12),%rax; movq (%r12),%rcx; movq 8(%r12),%r8; movq (%r12),%r9; movq 8(%r12),%r10; movq (%r12),%r11; movq (%r12),%rbp; movq 8(%r12),%r13; movq (%r12),%r14; movq 8(%r12),%r15
 popfq
 call *%rbx
 addq $8,%rsp; popq %r15; popq %r14; popq %r13; popq %r12; popq %rbx; popq %rbp
 cld
 ret
.size entry_call,.-entry_call
)");
template<class F> static void par(int n, F f) { std::vector<pid_t> ps; for (int w = 0; w < 8; w++) { fflush(nullptr); pid_t p = fork(); if (!p) { for (int i = w; i < n; i += 8) f(i); _exit(0); } ps.push_back(p); } for (pid_t p : ps) { int s; waitpid(p, &s, 0); if (s) die("analysis worker failed"); } }
static void mkLocales() {
    char e[4096]; ssize_t n = readlink("/proc/self/exe", e, sizeof e - 1); if (n < 0) return; e[n] = 0; locDir = std::string(e, strrchr(e, '/')) + "/locales"; mkdir(locDir.c_str(), 0755); setenv("LOCPATH", locDir.c_str(), 1);
    for (auto& l : {std::array<const char*, 3>{"de_DE", "UTF-8", "de_DE.UTF-8"}, std::array<const char*, 3>{"tr_TR", "ISO-8859-9", "tr_TR"}, std::array<const char*, 3>{"hi_IN", "UTF-8", "hi_IN.UTF-8"}}) { std::string to = locDir + "/" + l[2]; struct stat s; if (stat(to.c_str(), &s)) { std::string tmp = to + ".tmp" + std::to_string(syscall(SYS_getpid)); std::string cmd = std::string("localedef --no-archive -i ") + l[0] + " -f " + l[1] + " " + tmp + " >/dev/null 2>&1"; if (system(cmd.c_str())) {} if (rename(tmp.c_str(), to.c_str())) {} } if (setlocale(LC_ALL, l[2])) locs.push_back(l[2]); setlocale(LC_ALL, "C"); }
}
int main(int argc, char** argv) {
    mc::Explorer E; E.parse(argc, argv); bool T = E.thorough(); std::locale::classic(); mkLocales();
    if (E.opt.config.find("variables set") != std::string::npos) envMode = 2; loading = true; dl_iterate_phdr(cbl, nullptr); load(); loading = false; envMode = 0;
    N = count(), NV = vcount(), M = N + NV; NL = ((int (*)())dlsym(handle, "lops_count"))(); lname = (ops::name_t)dlsym(handle, "lops_name"); lrun = (lrun_t)dlsym(handle, "lops_run"); lunit = (int (*)(int))dlsym(handle, "lops_unit");
    for (int f = 0; f < NV; f++) vn[f] = vbase(f, in, vx[f]); fresh = shm<ops::Out>(M); for (int i = 0; i < M; i++) sel.push_back(i);
    par(M, [](int i) { if (inChild([&] { call(i, &fresh[i]); })) fresh[i].n = 0; });
    printf("ambient configurations: %d\nlocales: %zu;", NA, locs.size()); for (auto& l : locs) printf(" %s", l.c_str()); printf("\nstack limit in the small-stack contexts: %zu KB\n", STK >> 10);
    static const uint64_t NB = (M + BL - 1) / BL; static const int NC = sizeof CX / sizeof *CX; auto range = [](uint64_t b) { return std::pair<size_t, size_t>{b * BL, std::min<size_t>(M, (b + 1) * BL)}; };
    E.add("single", "every operation under every ambient configuration in every calling context", {(uint64_t)NA, (uint64_t)NC, NB}, [range](mc::Ctx& c, const mc::Idx& v) { auto r = range(v[2]); block(c, {(int)v[0]}, (int)v[1], r.first, r.second); }, 130);
    static std::vector<std::array<int, 2>> prs; for (int a = 1; a < NA; a++) for (int b = a + 1; b < NA; b++) if (A[a].g != A[b].g) prs.push_back({a, b});
    static uint64_t PB = T ? NB : 4; E.add("pairs", "every pair of ambient configurations", {(uint64_t)prs.size(), PB}, [range](mc::Ctx& c, const mc::Idx& v) { uint64_t b = PB == NB ? v[1] : (v[0] * 7 + v[1] * ((NB + PB - 1) / PB)) % NB; auto r = range(b); block(c, {prs[v[0]][0], prs[v[0]][1]}, (int)((v[0] + v[1]) % 6), r.first, r.second); }, 130);
    // memory of every alignment the types allow
    E.add("alignment", "every operation on inputs at every offset of a cache line that the types allow (8 bytes for objects, 1 for byte strings)", {(uint64_t)M, 64}, [](mc::Ctx& c, const mc::Idx& v) {
        int i = (int)v[0]; size_t off = v[1]; if (i < N && off % 8) return; if (!blk) blk = shm<Blk>(); blk->o.n = 0; c.op();
        int st = inChild([&] { char* m = (char*)mmap(nullptr, insize + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (i < N) { memcpy(m + off, in, insize); in = (ops::In*)(m + off); callop(i, &blk->o); } else { uint8_t* x = (uint8_t*)m + 128 + off; memcpy(x, vx[i - N], vn[i - N]); callv(i - N, x, vn[i - N], &blk->o); } });
        auto pre = [&] { return opname(i) + " with its input at offset " + std::to_string(off) + " of a cache line: "; }; if (st) { c.fail(pre() + "the process died with status " + std::to_string(st)); return; } c.check(blk->o == fresh[i], [&] { return pre() + "returned " + show(blk->o) + " instead of " + show(fresh[i]); }); c.state(mc::mix(i, off)); }, 70);
    // the stack needed does not grow with the input
    static const std::vector<double> SZ = T ? std::vector<double>{0.001, 0.01, 0.1, 1, 4} : std::vector<double>{0.01, 0.1, 1};
    E.add("large-inputs", "every operation on a list or text on a 256 KB stack, up to lists of thousands and texts of megabytes, in both small-stack contexts", {(uint64_t)NL, SZ.size(), 2}, [](mc::Ctx& c, const mc::Idx& v) {
        int i = (int)v[0]; size_t n = (size_t)(1000 * SZ[v[1]] * lunit(i)); if (n < 1) return; struct S { ops::Out a, b; }; static S* s = shm<S>(); s->a.n = s->b.n = 0; c.op(2); struct Q { int i; size_t n; ops::Out* o; }; static auto f = [](void* p) { auto* q = (Q*)p; inOp = true; lrun(q->i, in, q->n, q->o); inOp = false; };
        int st = inChild([&] { Q q{i, n, &s->a}; f(&q); }, 200); auto pre = [&] { return std::string(lname(i)) + " of " + std::to_string(n) + (v[2] ? " on a coroutine" : " on a thread") + " with a 256 KB stack: "; }; if (c.verbose) c.note = pre(); if (st) { c.fail(std::string(lname(i)) + " of " + std::to_string(n) + " on the main stack: the process died with status " + std::to_string(st)); return; }
        st = inChild([&] { Q q{i, n, &s->b}; CX[v[2] ? 5 : 4].run(f, &q); }, 200); if (st) { c.fail(pre() + "the process died with status " + std::to_string(st)); return; } c.check(s->a == s->b, [&] { return pre() + "returned " + show(s->b) + " instead of " + show(s->a); }); c.state(mc::hash_bytes(s->a.b, s->a.n)); }, 400);
    // no system call with an effect outside the call
    static bool sb = inChild([] { if (!sandbox()) _exit(1); }) == 0; printf("system-call filter: %s\n", sb ? "available" : "not available, family skipped");
    if (sb) E.add("system-calls", "every operation under a filter that traps every system call with outside effects (output, files, network, processes, signals, waiting)", {(uint64_t)M}, [](mc::Ctx& c, const mc::Idx& v) {
        int i = (int)v[0]; if (!sys) sys = shm<Sys>(); memset((void*)sys, 0, sizeof *sys); c.op(); int st = inChild([&] { int z = open("/dev/null", O_RDWR); dup2(z, 0), dup2(z, 1), dup2(z, 2); setvbuf(stdout, nullptr, _IONBF, 0); if (!sandbox()) _exit(76); call(i, &sys->o); std::cout.flush(), std::clog.flush(); });
        if (sys->n) { const char* n = "?"; for (auto& b : BAD) if (b.nr == sys->e[0].nr) n = b.n; c.fail(opname(i) + ": the call makes the system call " + n + (sys->e[0].path[0] ? " on " + std::string(sys->e[0].path) : " (arguments " + std::to_string(sys->e[0].a) + ", " + std::to_string(sys->e[0].b) + ")")); return; }
        if (st) { c.fail(opname(i) + " under the system-call filter: the process died with status " + std::to_string(st)); return; } c.check(sys->o == fresh[i], [&] { return opname(i) + " under the system-call filter: returned " + show(sys->o) + " instead of " + show(fresh[i]); }); c.state(i); }, 70);
    // a signal handler running on the same stack after every instruction
    struct St { ops::Out o; uint64_t steps, pcs; }; static St* stp = nullptr; static uint64_t cap = T ? 4000000 : 150000;
    E.add("signals", std::string("every operation with a signal handler running on its stack after each of its first ") + std::to_string(cap) + " instructions", {(uint64_t)M}, [](mc::Ctx& c, const mc::Idx& v) {
        int i = (int)v[0]; if (!stp) stp = shm<St>(); memset((void*)stp, 0, sizeof *stp); int st = inChild([&] { pcs = (uint8_t*)mmap(nullptr, img.txhi - img.txlo, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); struct sigaction a; memset(&a, 0, sizeof a); a.sa_flags = SA_SIGINFO; a.sa_sigaction = onStep; sigaction(SIGTRAP, &a, nullptr); stepCap = cap; stepping = true; asm volatile("pushfq; orq $0x100,(%%rsp); popfq" ::: "cc", "memory"); call(i, &stp->o); stepping = false; stp->steps = steps, stp->pcs = npcs; }, 100);
        c.op(stp->steps); auto pre = [&] { return opname(i) + " interrupted by a signal after every instruction: "; }; if (c.verbose) c.note = pre() + std::to_string(stp->steps) + " interruptions at " + std::to_string(stp->pcs) + " addresses"; if (st) { c.fail(pre() + "the process died with status " + std::to_string(st)); return; }
        c.check(stp->o == fresh[i], [&] { return pre() + "returned " + show(stp->o) + " instead of " + show(fresh[i]); }); c.state(mc::mix(mc::mix(i, stp->steps), stp->pcs)); }, 130);
    // low-level routines: flags, registers and alignment on entry
    struct Fn { const char *n, *sym; bool un; void* p; }; static std::vector<Fn> fn; for (Fn f : {Fn{"_add", "_ZN9bls12_3814_addEPNS_2fpEPKS0_S3_", false, nullptr}, {"_ladd", "_ZN9bls12_3815_laddEPNS_2fpEPKS0_S3_", false, nullptr}, {"_double", "_ZN9bls12_3817_doubleEPNS_2fpEPKS0_", true, nullptr}, {"_ldouble", "_ZN9bls12_3818_ldoubleEPNS_2fpEPKS0_", true, nullptr}, {"_subtract", "_ZN9bls12_3819_subtractEPNS_2fpEPKS0_S3_", false, nullptr}, {"_lsubtract", "_ZN9bls12_38110_lsubtractEPNS_2fpEPKS0_S3_", false, nullptr}, {"__negate", "_ZN9bls12_3818__negateEPNS_2fpEPKS0_", true, nullptr}, {"_negate", "_ZN9bls12_3817_negateEPNS_2fpEPKS0_", true, nullptr}, {"__multiply", "_ZN9bls12_38110__multiplyEPNS_2fpEPKS0_S3_", false, nullptr}, {"__mul_ex", "_ZN9bls12_3818__mul_exEPNS_2fpEPKS0_S3_", false, nullptr}, {"_multiply", "_ZN9bls12_3819_multiplyEPNS_2fpEPKS0_S3_", false, nullptr}, {"_square", "_ZN9bls12_3817_squareEPNS_2fpEPKS0_", true, nullptr}}) { f.p = dlsym(handle, f.sym); if (f.p && !(strcmp(f.n, "__mul_ex") == 0 && !(__builtin_cpu_supports("bmi2") && __builtin_cpu_supports("adx")))) fn.push_back(f); }
    printf("low-level routines found: %zu\n", fn.size());
    if (!fn.empty()) { static const uint64_t P[][6] = {{0}, {1}, {0xb9feffffffffaaaaull, 0x1eabfffeb153ffffull, 0x6730d2a0f6b0f624ull, 0x64774b84f38512bfull, 0x4b1ba7b6434bacd7ull, 0x1a0111ea397fe69aull}, {0x123456789abcdef0ull, 0xfedcba9876543210ull, ~0ull, 0, 0x8000000000000000ull, 0x0fffffffffffffffull}, {~0ull, ~0ull, ~0ull, ~0ull, ~0ull, 0x1a0111ea397fe699ull}}; static const uint64_t R[][2] = {{0, 0}, {~0ull, ~0ull}, {0x8000000000000000ull, 1}, {0xdeadbeefdeadbeefull, 0x0123456789abcdefull}}; static const uint64_t FL[] = {1, 4, 16, 64, 128, 2048};
        E.add("entry-state", "every low-level routine under every combination of status flags, register contents and operand alignments on entry", {(uint64_t)fn.size(), 64, 4, 8, 5, 5}, [](mc::Ctx& c, const mc::Idx& v) { const Fn& f = fn[v[0]]; if (f.un && v[5]) return; alignas(64) static thread_local uint8_t m[512]; static thread_local uint64_t w[6]; uint64_t *z = (uint64_t*)(m + 8 * v[3]), *x = (uint64_t*)(m + 128 + 8 * (v[3] * 3 % 8)), *y = (uint64_t*)(m + 256 + 8 * (v[3] * 5 % 8)); memcpy(x, P[v[4]], 48), memcpy(y, P[v[5]], 48);
            if (!strcmp(f.n, "__negate") && !v[4]) return; uint64_t fl = 0x202; for (int k = 0; k < 6; k++) if (v[1] >> k & 1) fl |= FL[k]; entry_call(f.p, z, x, f.un ? nullptr : y, 0x202, R[0]); memcpy(w, z, 48); memset(z, 0xee, 48); entry_call(f.p, z, x, f.un ? nullptr : y, fl, R[v[2]]); c.op(2);
            c.check(!memcmp(w, z, 48), [&] { return std::string(f.n) + "(" + mc::hex(x, 48) + ", " + mc::hex(y, 48) + ") with flags " + std::to_string(fl) + ", registers " + std::to_string(v[2]) + ", alignment " + std::to_string(v[3]) + " returned " + mc::hex(z, 48) + " instead of " + mc::hex(w, 48); }); c.state(mc::hash_bytes(w, 48, v[1])); }, 10); }
    return E.run();
}
