// C25: callbacks.  Every long computation that takes a callback (multi-scalar sums, pairing products, aggregation with accessor and
// filter) is run with a callback that, at each chosen invocation, does nothing, throws, or calls back into the library.
#include <bls12-381/bls12-381.hpp>
#include "../lib/mc.hpp"
#include "../lib/ops.hpp"
#include <malloc.h>
#include <stdexcept>
#include <typeinfo>
#include <functional>
#include <map>
#include <sys/mman.h>
using namespace bls12_381; namespace pr = bls12_381::pairing; typedef std::array<uint64_t, 4> SK;
extern "C" { int ops_count(); const char* ops_name(int); void ops_run(int, const ops::In*, ops::Out*); void ops_setup(ops::In*); size_t ops_insize(); }
static ops::In* in; static std::vector<g1> P; static std::vector<g2> Q; static std::vector<SK> S; static ops::Out* opres;
typedef std::function<void()> CB;
struct Thrown { int k; };
// exceptions of every family a callback may throw; caught() identifies them exactly
struct Derived : std::runtime_error { int k; Derived(int k) : std::runtime_error("callback"), k(k) {} };
static const int KINDS = 6; static const char* KIND[] = {"an unrelated type", "std::exception", "std::bad_alloc", "a class derived from std::runtime_error", "an integer", "std::bad_function_call"};
[[noreturn]] static void raise_(int kind) { switch (kind) { case 0: throw Thrown{7}; case 1: throw std::exception(); case 2: throw std::bad_alloc(); case 3: throw Derived(7); case 4: throw 7; default: throw std::bad_function_call(); } }
template<class Fn> static bool caught(int kind, Fn f) { try { f(); return false; } catch (const Thrown& t) { return kind == 0 && t.k == 7; } catch (const Derived& d) { return kind == 3 && d.k == 7 && typeid(d) == typeid(Derived); } catch (int i) { return kind == 4 && i == 7; } catch (const std::exception& e) { return kind == 1 ? typeid(e) == typeid(std::exception) : kind == 2 ? typeid(e) == typeid(std::bad_alloc) : kind == 5 && typeid(e) == typeid(std::bad_function_call); } catch (...) { return false; } }
static void fill() { g1 p = g1::one(); g2 q = g2::one(); for (int i = 0; i < 700; i++) { P.push_back(p); Q.push_back(q); p = p.add(g1::one().dbl()); q = q.add(g2::one().dbl()); SK s; for (int w = 0; w < 4; w++) s[w] = 0x9e3779b97f4a7c15ull * (i * 4 + w + 1) ^ (0x123456789ull << w); S.push_back(s); }
    S[1] = {0, 0, 0, 0}; S[3] = {~0ull, ~0ull, ~0ull, ~0ull}; P[2] = g1::zero(); Q[4] = g2::zero(); P[6] = P[6].affine(); Q[7] = Q[7].affine(); }
struct Call { int kind; size_t n, off; };                       // off selects different inputs of the same shape
static const char* KN[] = {"g1::weightedSum", "g2::weightedSum", "pairing::calculate", "aggregate_public_keys(accessor)", "aggregate_signatures(accessor)"};
static std::string cname(const Call& c) { return std::string(KN[c.kind]) + " of " + std::to_string(c.n) + (c.off ? " (other inputs)" : ""); }
static std::string bytesOf(const fp12& f) { auto b = f.toBytesBE(); return std::string((char*)b.data(), b.size()); }
static std::string bytesOf(const g1& p) { auto b = p.toAffineBytesBE(); return std::string((char*)b.data(), b.size()); }
static std::string bytesOf(const g2& p) { auto b = p.toAffineBytesBE(); return std::string((char*)b.data(), b.size()); }
static std::string call(const Call& c, const CB& cb) {
    std::span<const SK> s(S.data() + c.off, c.n);
    switch (c.kind) {
    case 0: return bytesOf(g1::weightedSum(std::span<const g1>(P.data() + c.off, c.n), s, cb));
    case 1: return bytesOf(g2::weightedSum(std::span<const g2>(Q.data() + c.off, c.n), s, cb));
    case 2: { std::vector<std::tuple<g1, g2>> v; for (size_t i = 0; i < c.n; i++) v.emplace_back(P[8 + i + c.off].affine(), Q[9 + i + c.off].affine()); return bytesOf(pr::calculate(v, cb)); }
    case 3: { struct T { g1 k; int z; }; std::vector<T> t; for (size_t i = 0; i < c.n; i++) t.push_back({P[i + c.off], (int)i}); return bytesOf(aggregate_public_keys(std::span<T>(t), [&](const T& x) { if (cb) cb(); return x.k; }, [&](const T&, size_t i) { if (cb) cb(); return i % 3 != 1; })); }
    default: { struct T { g2 k; int z; }; std::vector<T> t; for (size_t i = 0; i < c.n; i++) t.push_back({Q[i + c.off], (int)i}); return bytesOf(aggregate_signatures(std::span<T>(t), [&](const T& x) { if (cb) cb(); return x.k; }, [&](const T&, size_t i) { if (cb) cb(); return i % 3 != 1; })); }
    }
}
struct Base { Call c; std::string want; long calls; }; static std::vector<Base> B;
static const std::string& want(const Call& c) { static std::map<std::array<size_t, 3>, std::string> m; auto& r = m[{(size_t)c.kind, c.n, c.off}]; if (r.empty()) r = call(c, {}); return r; }
static std::string inputsHash() { uint64_t h = mc::hash_bytes(P.data(), P.size() * sizeof(g1)); h = mc::mix(h, mc::hash_bytes(Q.data(), Q.size() * sizeof(g2))); return std::to_string(mc::mix(h, mc::hash_bytes(S.data(), S.size() * sizeof(SK)))); }
int main(int argc, char** argv) {
    mc::Explorer E; E.parse(argc, argv); bool T = E.thorough(); fill(); static std::string ih = inputsHash();
    size_t is = (ops_insize() + 4095) & ~4095ul; in = (ops::In*)mmap(nullptr, is, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); static int N = ops_count(); opres = (ops::Out*)calloc(N, sizeof(ops::Out)); ops_setup(in); for (int i = 0; i < N; i++) ops_run(i, in, &opres[i]);
    std::vector<std::pair<int, std::vector<size_t>>> sz = T ? std::vector<std::pair<int, std::vector<size_t>>>{{0, {0, 1, 2, 5, 31, 32, 33, 63, 64, 65, 255, 256, 257, 300, 513, 600}}, {1, {0, 1, 2, 5, 31, 32, 33, 64, 255, 256, 257, 300}}, {2, {0, 1, 2, 19, 20, 21, 40, 64, 129, 130, 257}}, {3, {0, 1, 2, 5, 16}}, {4, {0, 1, 2, 5, 16}}}
                                                  : std::vector<std::pair<int, std::vector<size_t>>>{{0, {0, 1, 5, 32, 257}}, {1, {0, 1, 5, 33, 257}}, {2, {0, 1, 19, 20, 21, 130}}, {3, {0, 1, 5}}, {4, {0, 1, 5}}};
    for (auto& [k, v] : sz) for (size_t n : v) { Base b{{k, n, 0}, call({k, n, 0}, {}), 0}; call(b.c, [&] { b.calls++; }); B.push_back(b); }
    // small partners for re-entrant calls: same function, other inputs, same and other shape
    static auto partners = [](const Call& c) { std::vector<Call> r; for (int k = 0; k < 5; k++) { r.push_back({k, k == 2 ? 2u : 3u, 3}); if (k == c.kind) { r.push_back({k, c.n, 11}); if (c.n > 40) r.push_back({k, 33, 11}); if (k == 2) r.push_back({k, 20, 5}); r.push_back({k, 0, 0}); } } return r; };
    for (auto& b : B) { for (auto& p : partners(b.c)) want(p); want({b.c.kind, std::min<size_t>(b.c.n, 20), 2}); }
    E.add("no-op", "a callback that does nothing or only counts: same result as without one, and it is invoked in long computations", {(uint64_t)B.size()}, [](mc::Ctx& c, const mc::Idx& v) { auto& b = B[v[0]]; long n = 0; std::string r = call(b.c, [&] { n++; }); c.op(); c.state(mc::hash_bytes(r.data(), r.size())); bool done = true; c.check(r == b.want, [&] { return cname(b.c) + ": result with a callback differs"; });
        c.check(n == b.calls, [&] { return cname(b.c) + ": number of invocations varies"; }); if ((b.c.kind < 2 && b.c.n >= 256) || (b.c.kind == 2 && b.c.n >= 20)) c.check(n > 0, [&] { return cname(b.c) + ": the callback was never invoked"; }); (void)done; c.check(inputsHash() == ih, "inputs changed"); });
    static std::vector<std::array<long, 2>> th; static long step = T ? 1 : 7; for (size_t i = 0; i < B.size(); i++) for (long k = 0; k < B[i].calls; k++) if (T || k < 24 || k > B[i].calls - 4 || k % step == 0) th.push_back({(long)i, k});
    E.add("throw", "the callback throws at each invocation: the exception reaches the caller, nothing leaks, the next call is right", {(uint64_t)th.size(), (uint64_t)KINDS}, [T](mc::Ctx& c, const mc::Idx& v) { auto& b = B[th[v[0]][0]]; long k = th[v[0]][1]; int kind = (int)v[1]; if (kind && !T && k > 3 && k < b.calls - 2 && kind != 1 + k % (KINDS - 1)) return; auto pre = [&] { return cname(b.c) + ", callback throws " + KIND[kind] + " at invocation " + std::to_string(k + 1) + " of " + std::to_string(b.calls) + ": "; }; if (c.verbose) c.note = pre();
        long later = 0; auto once = [&] { long n = 0; bool thrown = false; bool got = caught(kind, [&] { call(b.c, [&] { if (thrown) later++; if (n++ == k) { thrown = true; raise_(kind); } }); }); c.op(); return got; };
        if (!c.check(once(), [&] { return pre() + "the exception did not reach the caller unchanged"; })) return; c.check(later == 0, [&] { return pre() + "invoked again after it had thrown"; });
        if (!c.check(call(b.c, {}) == b.want, [&] { return pre() + "the next call is wrong"; })) return; for (auto& p : partners(b.c)) if (p.n <= 40 && !c.check(call(p, {}) == want(p), [&] { return pre() + "a later " + cname(p) + " is wrong"; })) return;
        once(); auto m1 = mallinfo2(); for (int r = 0; r < 4; r++) once(); auto m2 = mallinfo2(); c.check(m2.uordblks + m2.hblkhd < m1.uordblks + m1.hblkhd + 64, [&] { return pre() + "leaks memory: " + std::to_string(m1.uordblks + m1.hblkhd) + " bytes in use grow to " + std::to_string(m2.uordblks + m2.hblkhd); }); c.check(inputsHash() == ih, [&] { return pre() + "inputs changed"; }); c.state(mc::mix(v[0], later)); }, 120);
    // re-entrant library calls
    static std::vector<std::array<long, 3>> re; for (size_t i = 0; i < B.size(); i++) for (long k = 0; k < B[i].calls; k++) { auto ps = partners(B[i].c); for (size_t p = 0; p < ps.size(); p++) { bool edge = k < 6 || k > B[i].calls - 3; if (T ? (edge || (k + p) % (B[i].c.n > 100 ? 11 : 2) == 0) : (edge ? (B[i].c.n < 40 || ps[p].n < 40 || k < 2) : (ps[p].n < 40 && (k + p * 5) % 29 == 0))) re.push_back({(long)i, k, (long)p}); } }
    E.add("re-enter", "the callback calls a function that itself takes a callback, at each invocation: both results are right, also nested twice and when the inner call throws", {(uint64_t)re.size(), 3}, [](mc::Ctx& c, const mc::Idx& v) { auto& b = B[re[v[0]][0]]; long k = re[v[0]][1]; Call p = partners(b.c)[re[v[0]][2]]; static const char* M[] = {"", ", which calls the outer function again", ", which throws"}; if (v[1] && p.n > 40) return; auto pre = [&] { return cname(b.c) + ", at invocation " + std::to_string(k + 1) + " of " + std::to_string(b.calls) + " calling " + cname(p) + M[v[1]] + ": "; }; if (c.verbose) c.note = pre();
        long n = 0; std::string inner, deep; bool innerThrew = false; Call d{b.c.kind, std::min<size_t>(b.c.n, 20), 2};
        std::string r = call(b.c, [&] { if (n++ != k) return; long q = 0; try { inner = call(p, [&] { if (v[1] == 1 && q++ == 0) deep = call(d, {}); if (v[1] == 2 && q++ == 0) throw Thrown{1}; }); } catch (const Thrown&) { innerThrew = true; } }); c.op(3);
        c.check(r == b.want, [&] { return pre() + "the outer result is wrong"; }); if (!innerThrew) c.check(inner == want(p), [&] { return pre() + "the inner result is wrong"; }); if (!deep.empty()) c.check(deep == want(d), [&] { return pre() + "the innermost result is wrong"; }); c.check(n == b.calls, [&] { return pre() + "number of invocations changed"; }); c.check(inputsHash() == ih, [&] { return pre() + "inputs changed"; }); c.state(mc::mix(v[0], v[1])); }, 120);
    // every public operation from inside a callback
    static std::vector<size_t> ob; for (size_t i = 0; i < B.size(); i++) if (B[i].calls && (B[i].c.n == 5 || B[i].c.n == 20 || (T && B[i].c.n <= 65) || (B[i].c.n == 257))) ob.push_back(i);
    E.add("any-operation", "every public operation called from a callback at the first, a middle, the last and at every invocation", {(uint64_t)ob.size(), (uint64_t)N, 4}, [](mc::Ctx& c, const mc::Idx& v) { auto& b = B[ob[v[0]]]; if (v[2] == 3 && b.calls > 40) return; if (b.c.n > 100 && (v[1] + v[2]) % 4) return; long k = v[2] == 0 ? 0 : v[2] == 1 ? b.calls / 2 : b.calls - 1; if (v[2] == 3 && b.calls > 6 && ops_name((int)v[1])[0] == 'v') return; int i = (int)v[1]; auto pre = [&] { return cname(b.c) + ", calling " + ops_name(i) + (v[2] == 3 ? " at every invocation" : " at invocation " + std::to_string(k + 1)) + ": "; }; if (c.verbose) c.note = pre();
        long n = 0; bool ok = true; static ops::Out o; std::string r = call(b.c, [&] { if (v[2] == 3 || n == k) { ops_run(i, in, &o); c.op(); ok = ok && o == opres[i]; } n++; }); c.op(); c.check(r == b.want, [&] { return pre() + "the outer result is wrong"; }); c.check(ok, [&] { return pre() + "the inner result is wrong"; }); c.state(mc::mix(mc::mix(v[0], v[1]), v[2])); }, 120);
    return E.run();
}
