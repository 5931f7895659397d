// Controlled execution of operations of ops.so: one runnable thread at a time, switch points chosen by the explorer.
//  * every byte of writable static memory of the code under test (and heap blocks that outlive an operation) can be protected so that each
//    access traps, is recorded and may become a switch point;
//  * any instruction of the code under test can be made a switch point with a one-shot breakpoint;
//  * malloc, mutexes, once-flags and local-static guards are interposed, so a thread that finds a lock taken yields instead of deadlocking.
#pragma once
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "mc.hpp"
#include "ops.hpp"
#include <malloc.h>
#include <dlfcn.h>
#include <link.h>
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <ucontext.h>
#include <map>
#include <set>
#include <sys/syscall.h>
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); }
namespace sc {
typedef uintptr_t U;
// ---------------------------------------------------------------- memory
enum { A_LIBC = 0, A_INIT = 1, A_OP = 2 };
struct Arena { char* lo = nullptr; size_t cap = 0, top = 0; bool in(const void* p) const { return p >= lo && p < lo + cap; } };
inline Arena initA, opA, sharedA; inline int amode = A_LIBC; inline bool bumpOps = false, poisonInit = false, poisonFree = false; inline int fillByte = -1; inline long liveOps = 0, allocsOps = 0;
struct Site { U caller; size_t size; bool operator<(const Site& o) const { return caller != o.caller ? caller < o.caller : size < o.size; } };
inline Site retained[256]; inline int nretained = 0;             // allocation sites whose blocks outlive the operation that made them
struct Live { void* p; Site s; }; inline Live livetab[1 << 14]; inline int nlive = 0; inline bool trackLive = false;
inline void mkarena(Arena& a, size_t cap) { a.lo = (char*)mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); a.cap = cap; a.top = 0; }
inline void* bump(Arena& a, size_t n, size_t al) { size_t t = (a.top + 16 + al - 1) & ~(al - 1); if (t + n > a.cap) return nullptr; a.top = t + n; ((size_t*)(a.lo + t))[-1] = n; return a.lo + t; }
inline thread_local bool inOp = false;                           // the current thread is inside an operation of the code under test
struct Rng { U lo, hi; }; inline Rng ldso[8], libcT[8]; inline int nldso = 0, nlibc = 0;    // the dynamic loader (never preempted inside: it holds its own locks) and the C library
inline bool inLoader(U pc) { for (int k = 0; k < nldso; k++) if (pc >= ldso[k].lo && pc < ldso[k].hi) return true; return false; }
inline bool inLibc(U pc) { for (int k = 0; k < nlibc; k++) if (pc >= libcT[k].lo && pc < libcT[k].hi) return true; return false; }
inline bool (*failAlloc)(size_t) = nullptr;                      // decides whether the next allocation inside an operation fails
inline void* alloc(size_t n, size_t al, U caller) {
    void* p;
    if (amode == A_INIT) p = bump(initA, n, al);
    else if (inOp && !inLoader(caller)) {                         // blocks of thread-local storage belong to the loader
        if (failAlloc && !inLibc(caller) && failAlloc(n)) { errno = ENOMEM; return nullptr; }
        allocsOps++; liveOps++; p = nullptr;
        for (int i = 0; i < nretained && !p; i++) if (retained[i].caller == caller && retained[i].size == n) p = bump(sharedA, n, al);
        if (!p) p = bumpOps ? bump(opA, n, al) : al > 16 ? __libc_memalign(al, n) : __libc_malloc(n);
        if (trackLive && nlive < (1 << 14)) livetab[nlive++] = {p, {caller, n}};
        if (p && fillByte >= 0) memset(p, fillByte, n);
    } else p = al > 16 ? __libc_memalign(al, n) : __libc_malloc(n);
    return p;
}
inline void release(void* p) {
    if (!p) return;
    if (inOp) { liveOps--; if (trackLive) for (int i = nlive; i-- > 0;) if (livetab[i].p == p) { livetab[i] = livetab[--nlive]; break; } }
    if (poisonInit && initA.in(p)) memset(p, 0xDD, ((size_t*)p)[-1]);
    if (sharedA.in(p)) { size_t& h = ((size_t*)p)[-1]; if (h >> 63) { static const char m[] = "double free of a shared block\n"; if (write(2, m, sizeof m - 1)) {} abort(); } memset(p, 0xDD, h); h |= 1ull << 63; return; }
    if (initA.in(p)) return;
    if (opA.in(p)) { if (fillByte >= 0) memset(p, ~fillByte & 255, ((size_t*)p)[-1]); return; }
    if (poisonFree) memset(p, 0xDD, malloc_usable_size(p));
    __libc_free(p);
}
// ---------------------------------------------------------------- image of the code under test
struct Image { U base = 0, rwlo = 0, rwhi = 0, txlo = 0, txhi = 0; size_t tlsid = 0, tlssz = 0; std::string path; } inline img;
inline ops::count_t count; inline ops::name_t name; inline ops::run_t run; inline ops::In* in; inline size_t insize;
inline int cb(dl_phdr_info* i, size_t, void* want) {
    if (strcmp(i->dlpi_name, (const char*)want)) return 0;
    img.base = i->dlpi_addr; U relro = 0, lo = ~(U)0, hi = 0;
    for (int k = 0; k < i->dlpi_phnum; k++) { auto& h = i->dlpi_phdr[k]; U a = img.base + h.p_vaddr, e = a + h.p_memsz;
        if (h.p_type == PT_LOAD && (h.p_flags & PF_W)) { lo = std::min(lo, a); hi = std::max(hi, e); }
        if (h.p_type == PT_LOAD && (h.p_flags & PF_X)) { img.txlo = a; img.txhi = e; }
        if (h.p_type == PT_GNU_RELRO) relro = e; if (h.p_type == PT_TLS) { img.tlsid = i->dlpi_tls_modid; img.tlssz = h.p_memsz; } }
    img.rwlo = std::max(relro & ~(U)4095, lo & ~(U)4095); img.rwhi = (hi + 4095) & ~(U)4095; return 1;
}
struct Tls { void* p; size_t n; }; inline int cbt(dl_phdr_info* i, size_t, void* o) { if (i->dlpi_addr == img.base && img.tlsid) { ((Tls*)o)->p = i->dlpi_tls_data; ((Tls*)o)->n = img.tlssz; return 1; } return 0; }
inline Tls tls() { Tls t{nullptr, 0}; if (img.tlsid) dl_iterate_phdr(cbt, &t); if (!t.p) t.n = 0; return t; }
inline void die(const char* m) { fprintf(stderr, "harness: %s\n", m); exit(3); }
typedef size_t (*vbase_t)(int, const ops::In*, uint8_t*); typedef void (*vrun_t)(int, const ops::In*, const uint8_t*, size_t, ops::Out*); typedef bool (*vany_t)(int);
inline ops::count_t vcount; inline ops::name_t vname; inline vbase_t vbase; inline vrun_t vrun; inline vany_t vany;
inline void callv(int i, const uint8_t* x, size_t n, ops::Out* o) { inOp = true; vrun(i, in, x, n, o); inOp = false; }
inline void callop(int i, ops::Out* o) { inOp = true; run(i, in, o); inOp = false; }
inline int cbl(dl_phdr_info* i, size_t, void*);
// load the code under test; inputs are computed in a child process so that this process stays pristine
inline void* handle;
inline void load(void (*before)() = nullptr) {
    char e[4096]; ssize_t n = readlink("/proc/self/exe", e, sizeof e - 8); if (n < 0) die("exe"); e[n] = 0; img.path = std::string(e, strrchr(e, '/')) + "/ops.so";
    mkarena(initA, 4 << 20); mkarena(sharedA, 16 << 20); mkarena(opA, 64 << 20);
    amode = A_INIT; void* h = dlopen(img.path.c_str(), RTLD_NOW | RTLD_LOCAL); amode = A_LIBC; if (!h) die(dlerror()); handle = h;
    count = (ops::count_t)dlsym(h, "ops_count"); name = (ops::name_t)dlsym(h, "ops_name"); run = (ops::run_t)dlsym(h, "ops_run"); vcount = (ops::count_t)dlsym(h, "vops_count"); vname = (ops::name_t)dlsym(h, "vops_name"); vbase = (vbase_t)dlsym(h, "vops_base"); vrun = (vrun_t)dlsym(h, "vops_run"); vany = (vany_t)dlsym(h, "vops_any"); auto setup = (ops::setup_t)dlsym(h, "ops_setup"); auto isz = (ops::insize_t)dlsym(h, "ops_insize"); if (!count || !name || !run || !setup || !isz) die("symbols");
    if (!dl_iterate_phdr(cb, (void*)img.path.c_str())) die("image not found"); dl_iterate_phdr(cbl, nullptr);
    insize = (isz() + 4095) & ~4095ul; in = (ops::In*)mmap(nullptr, insize, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    pid_t p = fork(); if (!p) { if (before) before(); setup(in); _exit(0); } int st; waitpid(p, &st, 0); if (st) die("operation inputs could not be computed");
    mprotect(in, insize, PROT_READ);                             // a write to an input is a crash
}
// ---------------------------------------------------------------- one controlled thread
struct Ev { U pc; int n; };
struct Th { sem_t go; volatile int state = 0; int op = 0; ops::Out* out = nullptr; pthread_t t; long stopAt = -1; volatile long events = 0; Ev seen[512]; int nseen = 0; bool hit = false; bool free = false; U stopPc = 0; };
enum { READY, RUNNING, STOPPED, BLOCKED, DONE };
inline thread_local Th* self = nullptr; inline sem_t mainSem;
inline void hand(int st) { Th* s = self; s->state = st; sem_post(&mainSem); while (sem_wait(&s->go)) {} s->state = RUNNING; }
inline void block() { if (self && !self->free) hand(BLOCKED); else sched_yield(); }
// ---------------------------------------------------------------- traps
struct Acc { U addr, pc; };
inline bool monitor = false; inline int prot = PROT_READ; inline bool record = false; inline Acc* accs = nullptr; inline volatile uint32_t* naccs = nullptr; inline const uint32_t maxAcc = 4096;
inline const std::set<U>* shared = nullptr;                       // 16-byte granules that somebody writes
inline const std::set<U>* pages = nullptr; inline int occ = 1;
inline uint16_t idleHits[1 << 14];                                // accesses to a page of the shared heap since the last new event there; a page with many is left open until the next switch
inline size_t pageNo(U pg) { return sharedA.in((void*)pg) ? (pg - (U)sharedA.lo) >> 12 : ~0ul; }
inline const int idleMax = 400;
inline U bp = 0; inline uint8_t bpByte = 0; inline bool covMode = false; inline std::map<U, uint8_t>* covB = nullptr; inline std::vector<U>* covHit = nullptr;
struct Step { U pg[8]; int n = 0; bool qual = false; U pc = 0; }; inline thread_local Step st;
inline bool monitored(U a) { return (a >= img.rwlo && a < img.rwhi) || initA.in((void*)a) || sharedA.in((void*)a); }
inline void protectAll(int p) { if (img.rwhi > img.rwlo) mprotect((void*)img.rwlo, img.rwhi - img.rwlo, p); if (initA.top) mprotect(initA.lo, (initA.top + 4095) & ~4095ul, p); mprotect(sharedA.lo, sharedA.cap, p); }
inline void protectShared(int p) { memset(idleHits, 0, sizeof idleHits); for (U g : *pages) mprotect((void*)g, 4096, p); }
inline int cbl(dl_phdr_info* i, size_t, void*) {
    bool l = strstr(i->dlpi_name, "ld-linux") || strstr(i->dlpi_name, "ld.so"), c = strstr(i->dlpi_name, "libc.so");
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_flags & PF_X) { Rng r{i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz}; if (l && nldso < 8) ldso[nldso++] = r; if (c && nlibc < 8) libcT[nlibc++] = r; }
    return 0; }
inline void event() { if (!self || self->free) return; long e = self->events; self->events = e + 1; if (e == self->stopAt) { self->hit = true; self->stopPc = st.pc; hand(STOPPED); } }
inline std::string where(U pc);
inline void onSegv(int sig, siginfo_t* si, void* uc) {
    ucontext_t* u = (ucontext_t*)uc; U a = (U)si->si_addr, pc = u->uc_mcontext.gregs[REG_RIP];
    if (!monitor || !monitored(a) || st.n >= 8) { if (getenv("SCHED_DEBUG")) fprintf(stderr, "fault addr=%lx pc=%s n=%d monitor=%d rw=%lx-%lx init=%p+%lx shared=%p+%lx\n", (long)a, where(pc).c_str(), st.n, monitor, (long)img.rwlo, (long)img.rwhi, initA.lo, initA.top, sharedA.lo, sharedA.top); signal(sig, SIG_DFL); return; }
    if (record && *naccs < maxAcc) { accs[*naccs] = {a, pc}; *naccs = *naccs + 1; }
    if (shared && self && st.n == 0 && !inLoader(pc)) {
        bool q = false; for (U g = (a & ~15ul); g < a + 32; g += 16) if (shared->count(g)) q = true;
        if (q) { size_t n = pageNo(a & ~4095ul); if (n < (1 << 14)) idleHits[n]++; int k = 0; while (k < self->nseen && self->seen[k].pc != pc) k++; if (k == self->nseen && k < 512) self->seen[self->nseen++] = {pc, 0}; if (k < 512 && self->seen[k].n++ < occ) { st.qual = true; st.pc = pc; if (n < (1 << 14)) idleHits[n] = 0; event(); } }
    }
    U pg = a & ~4095ul; mprotect((void*)pg, 4096, PROT_READ | PROT_WRITE); st.pg[st.n++] = pg; u->uc_mcontext.gregs[REG_EFL] |= 0x100;
}
inline void onTrap(int sig, siginfo_t*, void* uc) {
    ucontext_t* u = (ucontext_t*)uc; U pc = u->uc_mcontext.gregs[REG_RIP];
    if (st.n) { for (int i = 0; i < st.n; i++) { size_t n = pageNo(st.pg[i]); if (n < (1 << 14) && idleHits[n] > idleMax) continue; mprotect((void*)st.pg[i], 4096, prot); } st.n = 0; u->uc_mcontext.gregs[REG_EFL] &= ~0x100ul; if (st.qual) { st.qual = false; event(); } return; }
    if (covMode) { auto i = covB->find(pc - 1); if (i != covB->end()) { *(volatile uint8_t*)(pc - 1) = i->second; u->uc_mcontext.gregs[REG_RIP] = pc - 1; covHit->push_back(pc - 1); return; } }
    if (bp && pc - 1 == bp) { *(volatile uint8_t*)bp = bpByte; u->uc_mcontext.gregs[REG_RIP] = bp; U b = bp; bp = 0; if (self && !self->free) { self->hit = true; self->stopPc = b; hand(STOPPED); } return; }
    if (u->uc_mcontext.gregs[REG_EFL] & 0x100) { u->uc_mcontext.gregs[REG_EFL] &= ~0x100ul; return; }
    signal(sig, SIG_DFL); raise(sig);
}
inline void handlers() { struct sigaction s; memset(&s, 0, sizeof s); s.sa_flags = SA_SIGINFO | SA_NODEFER; s.sa_sigaction = onSegv; sigaction(SIGSEGV, &s, nullptr); sigaction(SIGBUS, &s, nullptr); s.sa_sigaction = onTrap; sigaction(SIGTRAP, &s, nullptr); }
inline void text(bool w) { mprotect((void*)(img.txlo & ~4095ul), ((img.txhi + 4095) & ~4095ul) - (img.txlo & ~4095ul), w ? PROT_READ | PROT_WRITE | PROT_EXEC : PROT_READ | PROT_EXEC); }
// ---------------------------------------------------------------- scheduler
inline void* thmain(void* p) { Th* s = (Th*)p; self = s; while (sem_wait(&s->go)) {} s->state = RUNNING; callop(s->op, s->out); s->free = true; s->state = DONE; sem_post(&mainSem); return nullptr; }
inline void start(Th& t, int op, ops::Out* o, long stopAt) { sem_init(&t.go, 0, 0); t.op = op; t.out = o; t.stopAt = stopAt; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 1 << 20); if (pthread_create(&t.t, &a, thmain, &t)) die("pthread_create"); }
// let t run until it stops, blocks or finishes; false when it does neither in time (it is then left running freely)
inline bool resume(Th& t, double limit) {
    if (t.state == DONE) return true;
    sem_post(&t.go); timespec ts; clock_gettime(CLOCK_REALTIME, &ts); double e = ts.tv_sec + ts.tv_nsec * 1e-9 + limit; ts.tv_sec = (time_t)e; ts.tv_nsec = (long)((e - ts.tv_sec) * 1e9);
    while (sem_timedwait(&mainSem, &ts)) if (errno == ETIMEDOUT) { t.free = true; return false; }
    return true;
}
inline const char* finish(Th** th, int n, int first) {           // run everything to the end, switching only when a thread blocks
    int cur = first, idle = 0; bool anyFree = false; for (int i = 0; i < n; i++) anyFree |= th[i]->free && th[i]->state != DONE;
    for (;;) {
        int k = -1; for (int d = 0; d < n; d++) { int j = (cur + d) % n; if (th[j]->state != DONE && !th[j]->free) { k = j; break; } }
        if (k < 0) break;
        th[k]->stopAt = -1; if (!resume(*th[k], anyFree ? 6 : 3)) anyFree = true;
        if (th[k]->state == BLOCKED) { if (++idle > 200) { if (!anyFree) return "deadlock"; usleep(20000); if (idle > 500) return "deadlock"; } cur = (k + 1) % n; } else idle = 0;
    }
    for (int i = 0; i < n; i++) { double t0 = mc::now(); while (th[i]->state != DONE) { usleep(500); if (mc::now() - t0 > 15) return "a call does not return"; } pthread_join(th[i]->t, nullptr); }
    return nullptr;
}
// run f in a forked child; 0 = ok, otherwise status
template<class F> inline int inChild(F&& f, double limit = 60) { fflush(nullptr); pid_t p = fork(); if (p < 0) die("fork"); if (!p) { alarm((unsigned)limit); f(); _exit(0); } int s; while (waitpid(p, &s, 0) < 0 && errno == EINTR) {} return s; }
template<class T> inline T* shm(size_t n = 1) { void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) die("mmap"); return (T*)p; }
inline std::string where(U pc) { char b[160]; Dl_info d; if (dladdr((void*)pc, &d) && d.dli_sname) snprintf(b, sizeof b, "%.100s+0x%lx", d.dli_sname, (long)(pc - (U)d.dli_saddr)); else if (pc >= img.txlo && pc < img.txhi) snprintf(b, sizeof b, "ops.so+0x%lx", (long)(pc - img.base)); else snprintf(b, sizeof b, "0x%lx", (long)pc); return b; }
inline std::string show(const ops::Out& o) { return o.n ? mc::hex(o.b, std::min<size_t>(o.n, 48)) + (o.n > 48 ? "..(" + std::to_string(o.n) + ")" : "") : "(nothing)"; }
} // namespace sc
// ---------------------------------------------------------------- interposed symbols
#define CALLER ((sc::U)__builtin_return_address(0))
extern "C" {
void* malloc(size_t n) { return sc::alloc(n, 16, CALLER); }
void free(void* p) { sc::release(p); }
void* calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; if (sc::amode == sc::A_LIBC && !sc::inOp) return __libc_calloc(a, b); void* p = sc::alloc(n, 16, CALLER); if (p) memset(p, 0, n); return p; }
void* realloc(void* p, size_t n) {
    if (!p) return sc::alloc(n, 16, CALLER);
    bool ar = sc::initA.in(p) || sc::opA.in(p) || sc::sharedA.in(p); if (!ar && !(sc::inOp && sc::bumpOps)) { return __libc_realloc(p, n); }
    void* q = sc::alloc(n, 16, CALLER); if (q) { size_t o = ar ? ((size_t*)p)[-1] : n; memcpy(q, p, std::min(o, n)); sc::release(p); } return q; }
void* memalign(size_t a, size_t n) { return sc::alloc(n, a, CALLER); }
void* aligned_alloc(size_t a, size_t n) { return sc::alloc(n, a, CALLER); }
int posix_memalign(void** p, size_t a, size_t n) noexcept { *p = sc::alloc(n, a, CALLER); return *p ? 0 : ENOMEM; }
#define REAL(f) static auto r = (decltype(&f))dlsym(RTLD_NEXT, #f)
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { REAL(pthread_mutex_lock); if (!sc::self) return r(m); int e; while ((e = pthread_mutex_trylock(m)) == EBUSY) sc::block(); return e; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { REAL(pthread_rwlock_rdlock); if (!sc::self) return r(m); int e; while ((e = pthread_rwlock_tryrdlock(m)) == EBUSY) sc::block(); return e; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { REAL(pthread_rwlock_wrlock); if (!sc::self) return r(m); int e; while ((e = pthread_rwlock_trywrlock(m)) == EBUSY) sc::block(); return e; }
int pthread_spin_lock(pthread_spinlock_t* m) noexcept { REAL(pthread_spin_lock); if (!sc::self) return r(m); int e; while ((e = pthread_spin_trylock(m)) == EBUSY) sc::block(); return e; }
int sched_yield() noexcept { if (sc::self && !sc::self->free) { sc::hand(sc::BLOCKED); return 0; } return (int)syscall(SYS_sched_yield); }
int pthread_once(pthread_once_t* o, void (*f)()) { REAL(pthread_once); if (sc::self) while (*(volatile int*)o & 1) sc::block(); return r(o, f); }
int __cxa_guard_acquire(long long* g) { int* w = (int*)g; for (;;) { int v = __atomic_load_n(w, __ATOMIC_ACQUIRE); if (v & 1) return 0; if (v == 0 && __atomic_compare_exchange_n(w, &v, 0x100, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) return 1; if (!(v & 1)) sc::block(); } }
void __cxa_guard_release(long long* g) { __atomic_store_n((int*)g, 1, __ATOMIC_RELEASE); }
void __cxa_guard_abort(long long* g) { __atomic_store_n((int*)g, 0, __ATOMIC_RELEASE); }
}
