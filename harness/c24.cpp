// C24: calls made while the process starts up or exits.  The library's static initialisers are not run by the loader but by this
// explorer, in every order; operations are called between them and from exit handlers registered between them.
#include "../lib/sched.hpp"
#include <fstream>
using namespace sc;
static int N, K; static void (*irun)(int); static void (*vprio)(); static ops::Out* fresh; static std::vector<std::string> iname; static std::vector<std::vector<int>> orders;
static void init1(int i) { amode = A_INIT; irun(i); amode = A_LIBC; }
static void initAll() { amode = A_INIT; vprio(); for (int i = 0; i < K; i++) irun(i); amode = A_LIBC; }
struct Shm { ops::Out a, b, e; int got; }; static Shm* sh;
static std::string after(const std::vector<int>& o, int n) { std::string s; for (int i = 0; i < n; i++) s += (i ? ", " : "") + iname[o[i]] + "#" + std::to_string(o[i]); return n ? "after the initialisers of " + s : "before every initialiser"; }
static uint64_t stateHash() { uint64_t h = mc::hash_bytes((void*)img.rwlo, img.rwhi - img.rwlo); return mc::mix(h, mc::hash_bytes(initA.lo, initA.top)); }
static int op_; static void handler() { callop(op_, &sh->e); sh->got = 1; }
int main(int argc, char** argv) {
    mc::Explorer E; E.parse(argc, argv); static bool T; T = E.thorough();
    static auto sym = [] { K = ((int (*)())dlsym(handle, "vinit_count"))(); irun = (void (*)(int))dlsym(handle, "vinit_run"); vprio = (void (*)())dlsym(handle, "vinit_prio"); };
    load([] { sym(); initAll(); }); sym(); N = count(); fresh = shm<ops::Out>(N); poisonInit = poisonFree = true;
    { std::ifstream f(img.path.substr(0, img.path.rfind('/')) + "/vinit.txt"); std::string l; while (std::getline(f, l)) iname.push_back(l); } if ((int)iname.size() != K) die("initialiser table");
    std::vector<int> id(K); for (int i = 0; i < K; i++) id[i] = i;
    if (K <= (T ? 5 : 4)) { auto o = id; do orders.push_back(o); while (std::next_permutation(o.begin(), o.end())); }
    else for (int r = 0; r < 2; r++) for (int s = 0; s < K; s++) { auto o = id; std::rotate(o.begin(), o.begin() + s, o.end()); if (r) std::reverse(o.begin(), o.end()); orders.push_back(o); }
    for (int i = 0; i < N; i++) if (inChild([&] { initAll(); callop(i, &fresh[i]); })) { printf("note: %s dies after complete start-up\n", name(i)); }
    printf("static initialisers of the library: %d, orders explored: %zu\n", K, orders.size()); for (auto& n : iname) printf("  %s\n", n.c_str());
    static std::set<uint64_t> seenStates; uint64_t O = orders.size(), P = (uint64_t)K + 1;
    // prefixes with the same set and order are shared: only the first order with a given prefix is run
    static auto dup = [](uint64_t o, uint64_t p) { for (uint64_t q = 0; q < o; q++) if (std::equal(orders[q].begin(), orders[q].begin() + p, orders[o].begin())) return true; return false; };
    // the exported std::string tags themselves have the lifetime of any such object: only their use inside the library is judged here
    static auto skip = [](int i) { return std::string(name(i)).find("exported-tags") == 0; };
    E.add("start-up", "every operation called after every prefix of every initialiser order, and again when start-up is complete", {O, P, (uint64_t)N}, [](mc::Ctx& c, const mc::Idx& v) { if (dup(v[0], v[1])) return; if (!sh) sh = shm<Shm>(); memset((void*)sh, 0, sizeof *sh); auto& o = orders[v[0]]; int i = (int)v[2], p = (int)v[1]; if (skip(i)) return; uint64_t* hs = shm<uint64_t>();
        int st = inChild([&] { amode = A_INIT; vprio(); amode = A_LIBC; for (int k = 0; k < p; k++) init1(o[k]); *hs = stateHash(); sh->got = 1; callop(i, &sh->a); sh->got = 2; for (int k = p; k < K; k++) init1(o[k]); sh->got = 3; callop(i, &sh->b); sh->got = 4; }, 20); c.op(2); c.state(mc::mix(*hs, i)); munmap(hs, sizeof *hs);
        auto pre = [&] { return std::string(name(i)) + " called " + after(o, p) + ": "; }; if (c.verbose) c.note = pre() + "returned " + show(sh->a);
        if (st) { c.fail(pre() + (sh->got < 2 ? "the call ended the process, status " : sh->got < 3 ? "a later initialiser ended the process, status " : "the same call after start-up ended the process, status ") + std::to_string(st)); return; }
        if (!c.check(sh->a == fresh[i], [&] { return pre() + "returned " + show(sh->a) + ", after start-up it is " + show(fresh[i]); })) return;
        c.check(sh->b == fresh[i], [&] { return pre() + "the same call after start-up then returned " + show(sh->b) + " instead of " + show(fresh[i]); }); }, 60);
    E.add("exit", "every operation called from an exit handler registered after every prefix of every initialiser order, with and without an earlier call", {O, P, (uint64_t)N, 2}, [](mc::Ctx& c, const mc::Idx& v) { if (dup(v[0], v[1])) return; if (!sh) sh = shm<Shm>(); memset((void*)sh, 0, sizeof *sh); auto& o = orders[v[0]]; int i = (int)v[2], p = (int)v[1]; if (skip(i)) return; op_ = i;
        int st = inChild([&] { amode = A_INIT; vprio(); amode = A_LIBC; for (int k = 0; k < p; k++) init1(o[k]); atexit(handler); for (int k = p; k < K; k++) init1(o[k]); if (v[3]) { callop((i + 7) % N, &sh->a); callop(i, &sh->b); } fflush(nullptr); exit(0); }, 20); c.op(1 + 2 * v[3]);
        auto pre = [&] { return std::string(name(i)) + " called from an exit handler registered " + after(o, p) + ": "; }; if (c.verbose) c.note = pre() + "returned " + show(sh->e);
        if (st || !sh->got) { c.fail(pre() + "process ended with status " + std::to_string(st)); return; }
        if (v[3] && !c.check(sh->b == fresh[i], [&] { return std::string(name(i)) + " before exit returned " + show(sh->b); })) return;
        c.check(sh->e == fresh[i], [&] { return pre() + "returned " + show(sh->e) + " instead of " + show(fresh[i]); }); c.state(mc::mix(v[1], mc::mix(i, v[3]))); }, 60);
    return E.run();
}
