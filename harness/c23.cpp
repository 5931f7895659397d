// C23: allocation failure.  Every operation of the table under every pattern of failing allocations within the bounds; the real library
// runs in a fresh process with an interposed allocator that refuses exactly the chosen requests.
#include "../lib/sched.hpp"
using namespace sc;
static int N; static ops::Out* fresh; struct Inf { int died; uint32_t n; uint32_t size[4096]; }; static Inf* inf;
// ---- failure plans
enum { ONCE, FROM, BITS, SIZE, TWO };
static int pmode; static uint64_t pa, pb; static uint64_t seen, refused;
static bool plan(size_t n) { uint64_t k = seen++; bool f = pmode == ONCE ? k == pa : pmode == FROM ? k >= pa : pmode == BITS ? k < 64 && (pa >> k & 1) : pmode == SIZE ? n >= pa : k == pa || k == pb; refused += f; return f; }
static bool noteAlloc(size_t n) { Inf& I = inf[pa]; if (I.n < 4096) I.size[I.n] = (uint32_t)std::min<size_t>(n, ~0u); I.n++; return false; }
struct Shm { ops::Out bad, again, other[8]; long leak, leak2; uint64_t refused, seen; }; static Shm* sh;
static std::string planText() { char b[120]; switch (pmode) { case ONCE: snprintf(b, 120, "allocation %lu fails", (long)pa + 1); break; case FROM: snprintf(b, 120, "every allocation from number %lu on fails", (long)pa + 1); break; case BITS: snprintf(b, 120, "allocations in mask 0x%lx fail", (long)pa); break; case SIZE: snprintf(b, 120, "every request of %lu bytes or more fails", (long)pa); break; default: snprintf(b, 120, "allocations %lu and %lu fail", (long)pa + 1, (long)pb + 1); } return b; }
static bool codeOp(const std::string& s) { return s.find("hkdf") == 0 || s.find("hmac") == 0 || s.find("xmd") == 0; }
static bool reported(int i, const ops::Out& o) { if (o.n == 10 && (!memcmp(o.b, "!bad_alloc", 10) || !memcmp(o.b, "!exception", 10))) return true; int r; return codeOp(name(i)) && o.n >= 4 && (memcpy(&r, o.b, 4), r != 0); }
static bool one(mc::Ctx& c, int i, int mode, uint64_t a, uint64_t b, const std::vector<int>& follow) {
    if (!sh) sh = shm<Shm>(); pmode = mode; pa = a; pb = b; memset((void*)sh, 0, sizeof *sh);
    int st = inChild([&] { bumpOps = true; fillByte = 0xA5; seen = refused = 0; failAlloc = plan; callop(i, &sh->bad); failAlloc = nullptr; sh->leak = liveOps; sh->refused = refused; sh->seen = seen; callop(i, &sh->again); for (size_t k = 0; k < follow.size() && k < 8; k++) callop(follow[k], &sh->other[k]); sh->leak2 = liveOps; }, 60);
    c.op(2 + follow.size()); auto pre = [&] { return std::string(name(i)) + " (" + std::to_string(inf[i].n) + " allocations), " + planText(); }; if (c.verbose) c.note = pre() + (st ? "" : ": returned " + show(sh->bad) + ", requests refused " + std::to_string(sh->refused));
    if (st) { c.fail(pre() + ": process died with status " + std::to_string(st)); return false; }
    if (!c.check(sh->bad == fresh[i] || (sh->refused && reported(i, sh->bad)), [&] { return pre() + ": returned " + show(sh->bad) + " as if it had succeeded; the correct result is " + show(fresh[i]); })) return false;
    // memory kept on purpose (a cache) does not grow when the same failing call is repeated; a leak does
    if (sh->leak > 0) { long* l = shm<long>(); *l = 0; int s2 = inChild([&] { static ops::Out o; bumpOps = true; for (int r = 0; r < 6; r++) { seen = refused = 0; failAlloc = plan; callop(i, &o); failAlloc = nullptr; } *l = liveOps; }); bool ok = c.check(!s2 && *l < sh->leak + 4, [&] { return pre() + ": leaks " + std::to_string(sh->leak) + " blocks, " + std::to_string(*l) + " after six such calls"; }); munmap(l, sizeof *l); if (!ok) return false; }
    if (!c.check(sh->again == fresh[i], [&] { return pre() + ": the same call with memory available again returned " + show(sh->again) + " instead of " + show(fresh[i]); })) return false;
    for (size_t k = 0; k < follow.size() && k < 8; k++) if (!c.check(sh->other[k] == fresh[follow[k]], [&] { return pre() + ": a later " + std::string(name(follow[k])) + " returned " + show(sh->other[k]) + " instead of " + show(fresh[follow[k]]); })) return false;
    c.state(mc::mix(mc::mix(mc::hash_bytes(sh->bad.b, sh->bad.n), i), sh->seen)); return true;
}
template<class F> static void par(int n, F f) { std::vector<pid_t> ps; for (int w = 0; w < 8; w++) { fflush(nullptr); pid_t p = fork(); if (!p) { for (int i = w; i < n; i += 8) f(i); _exit(0); } ps.push_back(p); } for (pid_t p : ps) { int s; waitpid(p, &s, 0); if (s) die("analysis worker failed"); } }
int main(int argc, char** argv) {
    mc::Explorer E; E.parse(argc, argv); load(); N = count(); fresh = shm<ops::Out>(N); inf = shm<Inf>(N); bool T = E.thorough();
    par(N, [](int i) { inf[i].died = inChild([&] { pa = i; failAlloc = noteAlloc; callop(i, &fresh[i]); }); });
    static std::vector<int> al; long tot = 0, mx = 0; static uint64_t sizes = 0; for (int i = 0; i < N; i++) if (inf[i].n) { al.push_back(i); tot += inf[i].n; mx = std::max<long>(mx, inf[i].n); sizes = std::max<uint64_t>(sizes, std::set<uint32_t>(inf[i].size, inf[i].size + std::min<uint32_t>(inf[i].n, 4096)).size()); }
    printf("operations that allocate: %zu of %d, allocations in total %ld, most in one call %ld\n", al.size(), N, tot, mx);
    E.add("alone", "every operation without failures", {(uint64_t)N}, [](mc::Ctx& c, const mc::Idx& v) { c.check(!inf[v[0]].died, [&] { return std::string(name(v[0])) + " died"; }); c.check(!reported(v[0], fresh[v[0]]) || codeOp(name(v[0])) || std::string(name(v[0])).find("scalar-add") == 0, [&] { return std::string(name(v[0])) + " failed without injected failures"; }); c.state(inf[v[0]].n); });
    if (al.empty()) return E.run();
    static std::vector<std::array<uint32_t, 2>> pts; static std::vector<std::array<uint32_t, 3>> pairs; static std::vector<std::array<uint64_t, 2>> szs, bits;
    for (int i : al) { uint32_t n = inf[i].n; for (uint32_t k = 0; k < n; k++) pts.push_back({(uint32_t)i, k}); uint32_t lim = T ? 300 : 24; for (uint32_t k = 0; k < n && k < lim; k++) for (uint32_t l = k + 1; l <= n && l < lim; l++) pairs.push_back({(uint32_t)i, k, l});
        std::set<uint32_t> s(inf[i].size, inf[i].size + std::min<uint32_t>(n, 4096)); for (uint32_t x : s) { szs.push_back({(uint64_t)i, x}); szs.push_back({(uint64_t)i, x + 1ull}); }
        uint32_t nb = std::min<uint32_t>(n + 1, T ? 14 : 7); for (uint64_t m = 0; m < (1ull << nb); m++) bits.push_back({(uint64_t)i, m}); }
    static std::vector<int> F1; for (int i = 0; i < N; i++) { std::string s = name(i); if (s == "verify-good/0" || s == "secret_key/1" || s == "g1-weightedSum/0" || s == "hkdf/1") F1.push_back(i); }
    E.add("single", "every allocation of every operation failing once", {(uint64_t)pts.size()}, [](mc::Ctx& c, const mc::Idx& v) { one(c, pts[v[0]][0], ONCE, pts[v[0]][1], 0, F1); }, 120);
    E.add("from-then-on", "every allocation from each point on failing", {(uint64_t)pts.size()}, [](mc::Ctx& c, const mc::Idx& v) { one(c, pts[v[0]][0], FROM, pts[v[0]][1], 0, F1); }, 120);
    E.add("two", "every pair of failing allocations (the second counted after the first failure)", {(uint64_t)std::max<size_t>(1, pairs.size())}, [](mc::Ctx& c, const mc::Idx& v) { if (v[0] < pairs.size()) one(c, pairs[v[0]][0], TWO, pairs[v[0]][1], pairs[v[0]][2], {}); }, 120);
    E.add("subsets", "every subset of the first allocations of every operation", {(uint64_t)bits.size()}, [](mc::Ctx& c, const mc::Idx& v) { one(c, (int)bits[v[0]][0], BITS, bits[v[0]][1], 0, {}); }, 120);
    E.add("large", "every request of at least a given size failing, for every size requested", {(uint64_t)szs.size()}, [](mc::Ctx& c, const mc::Idx& v) { one(c, (int)szs[v[0]][0], SIZE, szs[v[0]][1], 0, {}); }, 120);
    // after a failed call every other operation behaves as in a fresh process
    static std::vector<std::array<uint32_t, 2>> fp; for (size_t k = 0; k < pts.size(); k++) if (T || pts[k][1] == 0 || pts[k][1] == inf[pts[k][0]].n / 2 || pts[k][1] == inf[pts[k][0]].n - 1) { if (T && pts[k][1] > 40) continue; fp.push_back(pts[k]); }
    uint64_t G = ((uint64_t)N + 7) / 8; E.add("followers", "failed calls followed by every operation", {(uint64_t)fp.size(), T ? G : 4ull}, [G, T](mc::Ctx& c, const mc::Idx& v) { std::vector<int> f; uint64_t g = T ? v[1] : (v[1] + v[0] * 4) % G; for (int k = 0; k < 8; k++) if ((int)(g * 8 + k) < N) f.push_back((int)(g * 8 + k)); one(c, fp[v[0]][0], v[0] & 1 ? FROM : ONCE, fp[v[0]][1], 0, f); }, 120);
    return E.run();
}
