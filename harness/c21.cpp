// C21: operations are pure.  Explicit-state exploration of the hidden state of the code under test (writable static memory, thread-local
// memory, heap blocks that survive a call) under the alphabet of public operations, plus all short operation sequences.
#include "../lib/sched.hpp"
#include <cfenv>
#include <xmmintrin.h>
using namespace sc;
static int N; static ops::Out* fresh; static int* died;
struct Step1 { ops::Out out; uint64_t state; uint32_t mx; uint16_t cw; uint8_t df; };
static __attribute__((noinline)) void poison(int b) { volatile char s[96 << 10]; memset((void*)s, b, sizeof s); asm volatile("" ::"r"(s) : "memory"); }
static uint64_t stateHash() {
    uint64_t h = mc::hash_bytes((void*)img.rwlo, img.rwhi - img.rwlo); h = mc::hash_bytes(initA.lo, initA.top, h);
    Tls t = tls(); h = mc::hash_bytes(t.p, t.n, h); if (liveOps != 0) h = mc::hash_bytes(opA.lo, opA.top, h + liveOps); return h;
}
static void env(Step1& s) { s.mx = _mm_getcsr() & ~0x3fu; uint16_t c; asm volatile("fnstcw %0" : "=m"(c)); s.cw = c; uint64_t f; asm volatile("pushfq; popq %0" : "=r"(f)); s.df = (f >> 10) & 1; }
static void begin() { bumpOps = true; fillByte = 0xA5; }
static void stepOp(int i, Step1& s, int pat = 0x5A) { poison(pat); callop(i, &s.out); env(s); if (liveOps == 0) { memset(opA.lo, 0xA5, opA.top); opA.top = 0; } s.state = stateHash(); }
static const int MAXL = 512; struct Seq { int n; Step1 s[MAXL]; uint64_t s0; Step1 e0; }; static Seq* seq;
static std::string names(const std::vector<int>& v) { std::string s; for (size_t i = 0; i < v.size(); i++) s += (i ? " ; " : "") + std::string(name(v[i])); return s; }
// run a sequence in a process forked from the pristine one
static bool runSeq(mc::Ctx& c, const std::vector<int>& v, int fill = 0xA5, int pat = 0x5A) {
    if (!seq) seq = shm<Seq>(); seq->n = 0;
    int st = inChild([&] { begin(); fillByte = fill; seq->s0 = stateHash(); env(seq->e0); for (size_t i = 0; i < v.size(); i++) { stepOp(v[i], seq->s[i], pat); seq->n++; } }, 120);
    c.op(v.size()); auto pre = [&] { return "sequence " + names(v) + " (stack pattern " + std::to_string(pat) + ", heap pattern " + std::to_string(fill) + ")"; }; if (c.verbose) c.note = pre();
    if (st) { c.fail(pre() + ": process died with status " + std::to_string(st) + " in step " + std::to_string(seq->n + 1)); return false; }
    for (size_t i = 0; i < v.size(); i++) { Step1& s = seq->s[i];
        if (!c.check(s.out == fresh[v[i]], [&] { return pre() + ": step " + std::to_string(i + 1) + " (" + name(v[i]) + ") returned " + show(s.out) + " but " + show(fresh[v[i]]) + " in a fresh process"; })) return false;
        if (!c.check(s.mx == seq->e0.mx && s.cw == seq->e0.cw && s.df == seq->e0.df, [&] { return pre() + ": step " + std::to_string(i + 1) + " changed the floating-point control or direction flag"; })) return false;
        c.state(s.state); }
    return true;
}
struct Node { std::vector<int> path; uint64_t h; };
static std::vector<Node> nodes; static bool closed = true;
template<class F> static void par(int n, F f) { std::vector<pid_t> ps; for (int w = 0; w < 8; w++) { fflush(nullptr); pid_t p = fork(); if (!p) { for (int i = w; i < n; i += 8) f(i); _exit(0); } ps.push_back(p); } for (pid_t p : ps) { int s; waitpid(p, &s, 0); if (s) die("analysis worker failed"); } }
typedef std::vector<uint8_t> Bytes_;
static std::vector<Bytes_> changes(int f, bool T) {
    static uint8_t buf[8192]; size_t n = vbase(f, in, buf); Bytes_ a(buf, buf + n); std::vector<Bytes_> r{a}; std::set<Bytes_> seen{a}; auto put = [&](const Bytes_& b) { if (seen.insert(b).second) r.push_back(b); };
    for (size_t i = 0; i < n; i++) for (int k = 0; k < 8; k++) { if (!T && n > 40 && k != (int)((i * 3) % 8) && !(i % 8 == 7 && k == 7) && !(i % 8 == 0 && k == 0)) continue; Bytes_ b = a; b[i] ^= 1 << k; put(b); }
    size_t w = n / 8; if (w > 12 && !T) w = 12; auto word = [](const Bytes_& b, size_t i) { uint64_t x; memcpy(&x, &b[8 * i], 8); return x; }; auto setw = [](Bytes_& b, size_t i, uint64_t x) { memcpy(&b[8 * i], &x, 8); };
    for (size_t i = 0; i < w; i++) for (size_t j = 0; j < w; j++) if (i != j) { Bytes_ b = a; setw(b, i, word(a, j)), setw(b, j, word(a, i)), put(b); b = a; setw(b, i, word(a, i) + 1), setw(b, j, word(a, j) - 1), put(b); if (i < j) for (uint64_t m : {1ull, 1ull << 63, ~0ull}) { b = a; setw(b, i, word(a, i) ^ m), setw(b, j, word(a, j) ^ m), put(b); } }
    { Bytes_ b(n, 0); put(b); b.assign(n, 0xff), put(b); b.assign(a.rbegin(), a.rend()), put(b); for (size_t k : {1, 8}) if (n > k) { b = a; std::rotate(b.begin(), b.begin() + k, b.end()), put(b); } }
    if (vany(f)) { std::set<size_t> L = {0, 1, n - 1, n - 8 < n ? n - 8 : 0, n / 2}; for (size_t l : L) put(Bytes_(a.begin(), a.begin() + l)); for (size_t k : {1, 2, 8, 64}) { Bytes_ b = a; b.resize(n + k, 0), put(b); b = a; b.insert(b.begin(), k, 0), put(b); } Bytes_ b = a; b.insert(b.end(), a.begin(), a.end()), put(b); b = a; b[n - 1] = 0; put(b); }
    return r;
}
int main(int argc, char** argv) {
    mc::Explorer E; E.parse(argc, argv); load(); N = count(); fresh = shm<ops::Out>(N); died = shm<int>(N); bool T = E.thorough();
    par(N, [](int i) { died[i] = inChild([&] { callop(i, &fresh[i]); }); });
    // breadth-first search over hidden states
    size_t cap = T ? 400 : 30; size_t depth = T ? 6 : 4; { uint64_t* h0 = shm<uint64_t>(); inChild([&] { begin(); *h0 = stateHash(); }); nodes.push_back({{}, *h0}); std::set<uint64_t> known{*h0};
        for (size_t lo = 0; lo < nodes.size();) { size_t hi = nodes.size(); uint64_t* hs = shm<uint64_t>((hi - lo) * N); bool full = false;
            par((int)((hi - lo) * N), [&](int k) { auto& nd = nodes[lo + k / N]; inChild([&] { begin(); static Step1 s; for (int o : nd.path) stepOp(o, s); stepOp(k % N, s); hs[k] = s.state; }); });
            for (size_t k = 0; k < (hi - lo) * N; k++) if (hs[k] && !known.count(hs[k])) { if (nodes.size() >= cap || nodes[lo + k / N].path.size() >= depth) { full = true; continue; } known.insert(hs[k]); Node n = nodes[lo + k / N]; n.path.push_back(k % N); n.h = hs[k]; nodes.push_back(n); }
            munmap(hs, (hi - lo) * N * 8); if (full) closed = false; lo = hi; } }
    printf("hidden states: %zu%s\n", nodes.size(), closed ? " (closed: every history of any length reaches one of them)" : " (bound reached)");
    E.add("graph", std::string("every operation from every reachable hidden state; states ") + std::to_string(nodes.size()) + (closed ? ", closed under all operations: covers every history of any length" : ", search cut at the bound"), {(uint64_t)nodes.size(), (uint64_t)N}, [](mc::Ctx& c, const mc::Idx& v) { auto p = nodes[v[0]].path; p.push_back(v[1]); if (died[v[1]]) { c.fail(std::string(name(v[1])) + " alone died"); return; } runSeq(c, p); }, 130);
    E.add("pairs", "every ordered pair of operations in one process, then the first again", {(uint64_t)N, (uint64_t)N}, [](mc::Ctx& c, const mc::Idx& v) { runSeq(c, {(int)v[0], (int)v[1], (int)v[0]}); }, 130);
    E.add("repeat", "every operation repeated", {(uint64_t)N}, [T](mc::Ctx& c, const mc::Idx& v) { runSeq(c, std::vector<int>(T ? 400 : 40, (int)v[0])); }, 130);
    E.add("patterns", "every operation with every combination of stack and heap contents", {(uint64_t)N, 4, 4}, [](mc::Ctx& c, const mc::Idx& v) { static const int P[] = {0, 255, 1, 0x80}; runSeq(c, {(int)v[0], (int)v[0]}, P[v[1]], P[v[2]]); }, 130);
    // near-collision pairs with something in between, and sequences of operations that fail
    static std::vector<std::vector<int>> fam; { std::map<std::string, std::vector<int>> m; for (int i = 0; i < N; i++) { std::string s = name(i); s = s.substr(0, s.find('/')); s = s.substr(0, s.find('-')); m[s].push_back(i); } for (auto& k : m) fam.push_back(k.second); }
    static std::vector<std::array<int, 2>> tw; for (auto& f : fam) for (int a : f) for (int b : f) if (a != b) tw.push_back({a, b});
    E.add("twins", "operations of one family with near-equal inputs, alternating, with every operation in between", {(uint64_t)tw.size(), T ? (uint64_t)N : 12ull}, [T](mc::Ctx& c, const mc::Idx& v) { int a = tw[v[0]][0], b = tw[v[0]][1], m = T ? (int)v[1] : (int)(v[1] * N / 12); runSeq(c, {a, b, a, m, b, a, b}); }, 130);
    static std::vector<int> fail; for (int i = 0; i < N; i++) { std::string s = name(i); if (s.find("refused") != s.npos || s.find("short") != s.npos || s.find("bad") != s.npos || s.find("off-curve") != s.npos || s.find("-dup") != s.npos || s == "g1-decompress/1" || s == "g2-decompress/1" || s == "g1-affine-decode/1" || s == "g2-jacobian-decode/1" || s == "scalar-add/1" || s == "hex/0") fail.push_back(i); }
    E.add("failures", "every pair of rejected calls followed by every operation", {(uint64_t)fail.size(), T ? (uint64_t)fail.size() : 3ull, (uint64_t)N}, [](mc::Ctx& c, const mc::Idx& v) { runSeq(c, {fail[v[0]], fail[(v[0] + v[1]) % fail.size()], (int)v[2]}); }, 130);
    // histories of near-equal inputs: f(A) f(B) f(A) f(B) for every small change B of the base input A; the results of every call in a fresh process come first
    static std::vector<std::array<int, 2>> nearL; static std::vector<std::vector<Bytes_>> nearV; static std::vector<size_t> first; size_t tot = 0; for (int f = 0; f < vcount(); f++) { nearV.push_back(changes(f, T)); first.push_back(tot); tot += nearV[f].size(); for (size_t k = 1; k < nearV[f].size(); k++) nearL.push_back({f, (int)k}); }
    static ops::Out* vf = shm<ops::Out>(tot); static int* vst = shm<int>(tot); { std::vector<std::array<int, 2>> L; for (int f = 0; f < vcount(); f++) for (size_t k = 0; k < nearV[f].size(); k++) L.push_back({f, (int)k});
        auto& rp = E.opt.replay; if (rp.empty() || rp.find("near-inputs") == 0 || rp.find("many-inputs") == 0 || rp.find("marathon") == 0) par((int)tot, [&](int i) { auto& x = nearV[L[i][0]][L[i][1]]; vst[i] = inChild([&] { callv(L[i][0], x.data(), x.size(), &vf[i]); }, 120); }); }
    E.add("near-inputs", "functions of a byte string: base input, a changed input (every bit of every byte, exchanged words, equal sums and equal exclusive-or of words, other lengths), base input, changed input, at separate addresses and then at the same one; compared with fresh processes", {(uint64_t)nearL.size()}, [](mc::Ctx& c, const mc::Idx& v) {
        int f = nearL[v[0]][0], kb = nearL[v[0]][1]; const Bytes_& a = nearV[f][0]; const Bytes_& b = nearV[f][kb]; const ops::Out &fa = vf[first[f]], &fb = vf[first[f] + kb]; struct S { ops::Out o[7]; int n; }; static S* s = shm<S>(); s->n = 0;
        auto in = [&] { return std::string(vname(f)) + " on " + mc::hex(a.data(), a.size()) + " and " + mc::hex(b.data(), b.size()); }; if (c.verbose) c.note = in(); c.op(7);
        int st = vst[first[f]] | vst[first[f] + kb]; st |= inChild([&] { static uint8_t buf[16384]; for (int k = 0; k < 7; k++) { const Bytes_& x = k & 1 ? b : a; const uint8_t* p = x.data(); if (k >= 4) memcpy(buf, x.data(), x.size()), p = buf; callv(f, p, x.size(), &s->o[k]); s->n++; } });
        if (st) { c.fail(in() + ": process died with status " + std::to_string(st)); return; }
        for (int k = 0; k < 7; k++) if (!c.check(s->o[k] == (k & 1 ? fb : fa), [&] { return in() + ": call " + std::to_string(k + 1) + " of the alternating history returned " + show(s->o[k]) + " but " + show(k & 1 ? fb : fa) + " in a fresh process"; })) return;
        c.state(mc::hash_bytes(fb.b, fb.n)); }, 130);
    // histories of many different inputs in one buffer: anything kept from earlier calls has to be replaced, evicted or found again
    E.add("many-inputs", "functions of a byte string: every changed input in turn at one address, in several orders, in one process; compared with fresh processes", {(uint64_t)vcount(), T ? 6ull : 2ull}, [](mc::Ctx& c, const mc::Idx& v) {
        int f = (int)v[0]; size_t n = nearV[f].size(); struct S { ops::Out o; size_t bad, step, done; }; static S* s = shm<S>(); s->bad = ~0ull; s->done = 0; static const size_t ST[] = {1, 0, 7, 61, 127, 3};
        auto at = [&](size_t j) { size_t st = ST[v[1]]; return st ? (n % st || st == 1 ? j * st % n : j) : n - 1 - j; }; auto in = [&] { return std::string(vname(f)) + " on " + std::to_string(n) + " inputs one after the other (order " + std::to_string(v[1]) + ")"; }; if (c.verbose) c.note = in(); c.op(2 * n);
        int st = inChild([&] { static uint8_t buf[16384]; for (int r = 0; r < 2; r++) for (size_t j = 0; j < n; j++) { size_t k = at(j); auto& x = nearV[f][k]; memcpy(buf, x.data(), x.size()); callv(f, buf, x.size(), &s->o); s->done++; if (!(s->o == vf[first[f] + k])) { s->bad = k; s->step = r * n + j; return; } } }, 600);
        if (st) { c.fail(in() + ": process died with status " + std::to_string(st) + " after " + std::to_string(s->done) + " calls"); return; } c.state(mc::mix(f, v[1]));
        c.check(s->bad == ~0ull, [&] { auto& x = nearV[f][s->bad]; return in() + ": call " + std::to_string(s->step + 1) + ", on " + mc::hex(x.data(), x.size()) + ", returned " + show(s->o) + " but " + show(vf[first[f] + s->bad]) + " in a fresh process"; }); }, 700);
    // as many different inputs as time allows, in two processes in opposite orders
    E.add("long-histories", "functions of a byte string: a long run of different inputs (the base input with a counter added to its first, middle or last bytes), forwards in one process and backwards in another", {(uint64_t)vcount(), 3}, [T](mc::Ctx& c, const mc::Idx& v) {
        int f = (int)v[0]; const Bytes_& a = nearV[f][0]; size_t n = a.size(), w = std::min<size_t>(n, 3), pos = v[1] == 0 ? 0 : v[1] == 1 ? (n - w) / 2 : n - w; static uint64_t* h = shm<uint64_t>(2 * 140000); static size_t* cnt = shm<size_t>(2); cnt[0] = cnt[1] = 0; double budget = T ? 20 : 0.5;
        auto go = [&](size_t k, uint64_t* o) { static uint8_t buf[16384]; static ops::Out out; memcpy(buf, a.data(), n); for (size_t i = 0; i < w; i++) buf[pos + i] += (uint8_t)(k >> (8 * i)); callv(f, buf, n, &out); *o = mc::hash_bytes(out.b, out.n, out.n); };
        int st = inChild([&] { double t0 = mc::now(); size_t k = 0; for (; k < 140000 && (k < 8 || mc::now() - t0 < budget); k++) go(k, &h[k]); cnt[0] = k; }, 600); if (!st) st = inChild([&] { for (size_t k = cnt[0]; k-- > 0;) { go(k, &h[140000 + k]); cnt[1]++; } }, 900);
        auto in = [&] { return std::string(vname(f)) + " on the base input with a counter at byte " + std::to_string(pos) + ", up to " + std::to_string(cnt[0]); }; if (c.verbose) c.note = in(); c.op(2 * cnt[0]); if (st) { c.fail(in() + ": process died with status " + std::to_string(st)); return; }
        for (size_t k = 0; k < cnt[0]; k++) if (!c.check(h[k] == h[140000 + k], [&] { return in() + ": the result for counter " + std::to_string(k) + " depends on the calls before it"; })) return; c.state(mc::mix(f, v[1])); }, 700);
    E.add("marathon", std::string("every operation repeated for ") + (T ? "20 s" : "half a second") + " or 140000 times", {(uint64_t)N + vcount()}, [T](mc::Ctx& c, const mc::Idx& v) {
        int i = (int)v[0]; struct S { ops::Out o; size_t n; bool bad; }; static S* s = shm<S>(); s->n = 0; s->bad = false; double budget = T ? 20 : 0.5; const ops::Out& want = i < N ? fresh[i] : vf[first[i - N]]; if (i >= N && !want.n) return; auto nm = [&] { return std::string(i < N ? name(i) : vname(i - N)); };
        int st = inChild([&] { double t0 = mc::now(); for (; s->n < 140000 && (s->n < 300 || mc::now() - t0 < budget); s->n++) { if (i < N) callop(i, &s->o); else callv(i - N, nearV[i - N][0].data(), nearV[i - N][0].size(), &s->o); if (!(s->o == want)) { s->bad = true; return; } } }, 600); c.op(s->n);
        if (c.verbose) c.note = nm() + " repeated " + std::to_string(s->n) + " times"; if (st) { c.fail(nm() + ": process died with status " + std::to_string(st) + " in repetition " + std::to_string(s->n + 1)); return; } c.check(!s->bad, [&] { return nm() + ": repetition " + std::to_string(s->n + 1) + " returned " + show(s->o) + " but " + show(want) + " in a fresh process"; }); c.state(i); }, 700);
    if (T) { static std::vector<int> R; for (auto& f : fam) { R.push_back(f[0]); if (f.size() > 2) R.push_back(f[2]); } E.add("triples", "every ordered triple over one or two operations of each family", {(uint64_t)R.size(), (uint64_t)R.size(), (uint64_t)R.size()}, [](mc::Ctx& c, const mc::Idx& v) { runSeq(c, {R[v[0]], R[v[1]], R[v[2]]}); }, 130); }
    return E.run();
}
