// C03: multi-word integer helpers are exact.
#include "lib.hpp"
using namespace lx;
namespace sc = B::scalar;
static std::vector<u64> WS, WB;      // word alphabets
static std::vector<u64> pick(const mc::Idx& v, size_t o, size_t n, const std::vector<u64>& A) { std::vector<u64> r(n); for (size_t i = 0; i < n; i++) r[i] = A[v[o + i]]; return r; }
template<size_t N> static std::array<u64, N> arr(const u64* p) { std::array<u64, N> a; for (size_t i = 0; i < N; i++) a[i] = p[i]; return a; }
template<size_t NC, size_t NA, size_t NB> static void add1(mc::Ctx& c, const Z& a, const Z& b) {
    auto x = W<NA>(a), y = W<NB>(b); Z s = a + b; bool fits = s < (Z(1) << (64 * NC)), threw = false; Z got;
    try { got = ZW(sc::add<NC, NA, NB>(x, y)); } catch (const std::invalid_argument&) { threw = true; }
    c.state(H(s));
    if (NC >= NA && NC >= NB) { c.check(threw == !fits, [&] { return "add<" + std::to_string(NC) + "," + std::to_string(NA) + "," + std::to_string(NB) + "> " + (threw ? "rejected a sum that fits: " : "did not reject an overflowing sum: ") + S(a) + " + " + S(b); }); }
    if (!threw) c.check(got == s, [&] { return "add<" + std::to_string(NC) + "," + std::to_string(NA) + "," + std::to_string(NB) + ">(" + S(a) + "," + S(b) + ") got " + S(got); });
}
template<size_t NA, size_t NB> static void adds(mc::Ctx& c, const Z& a, const Z& b) { constexpr size_t N = NA > NB ? NA : NB; add1<N, NA, NB>(c, a, b); add1<N + 1, NA, NB>(c, a, b); add1<N + 2, NA, NB>(c, a, b); if constexpr (N > 1) add1<N - 1, NA, NB>(c, a, b); }
template<size_t NC, size_t NA, size_t NB> static void mul1(mc::Ctx& c, const Z& a, const Z& b) { auto r = sc::multiply<NC, NA, NB>(W<NA>(a), W<NB>(b)); c.check(ZW(r) == a * b, [&] { return "multiply<" + std::to_string(NC) + "," + std::to_string(NA) + "," + std::to_string(NB) + ">(" + S(a) + "," + S(b) + ") got " + S(ZW(r)); }); c.state(H(Z(a * b))); }
template<size_t NA, size_t NB> static void muls(mc::Ctx& c, const Z& a, const Z& b) { mul1<NA + NB, NA, NB>(c, a, b); mul1<NA + NB + 1, NA, NB>(c, a, b); }
template<size_t N, size_t M> static void div1(mc::Ctx& c, const Z& a, const Z& b) {
    auto x = W<N>(a); auto y = W<M>(b); auto x0 = x; auto y0 = y; std::array<u64, N> q; std::array<u64, M> r; q.fill(0xa5a5a5a5a5a5a5a5ULL); r.fill(0x5a5a5a5a5a5a5a5aULL);
    B::bn_divn_safe(q, r, x, y);
    c.check(ZW(q) == a / b && ZW(r) == a % b, [&] { return "division<" + std::to_string(N) + "," + std::to_string(M) + "> of " + S(a) + " by " + S(b) + ": quotient " + S(ZW(q)) + " remainder " + S(ZW(r)); });
    c.check(x == x0 && y == y0, "division modified its operands"); c.state(H(Z(a % b)));
}
template<size_t N> static void bits(mc::Ctx& c, const Z& a, bool T) {
    auto x = W<N>(a); u64 bl = a == 0 ? 0 : mpz_sizeinbase(a.get_mpz_t(), 2);
    c.check(sc::bitLength(x) == bl, [&] { return "bitLength<" + std::to_string(N) + ">(" + S(a) + ") = " + std::to_string(sc::bitLength(x)); });
    auto sh = [&](u64 k) { std::array<u64, N> o; o.fill(0x1111); sc::rsh(o, x, k); Z w = k >= 64 * N ? Z(0) : Z(a >> k); c.check(ZW(o) == w, [&] { return "rsh<" + std::to_string(N) + ">(" + S(a) + "," + std::to_string(k) + ") = " + S(ZW(o)); }); };
    for (u64 k = 0; k <= 64 * N + 66; k++) sh(k);
    for (u64 k : {1ULL << 32, (1ULL << 32) + 1, 1ULL << 62, 1ULL << 63, ~0ULL, ~0ULL - 63, ~0ULL - 64}) sh(k);
    c.state(H(a));
}
template<size_t N> static void cmp1(mc::Ctx& c, const Z& a, const Z& b) {
    auto x = W<N>(a), y = W<N>(b); auto o = sc::cmp<N>(x, y); int k = a < b ? -1 : a > b ? 1 : 0;
    c.check((o < 0) == (k < 0) && (o == 0) == (k == 0) && (o > 0) == (k > 0) && sc::equal<N>(x, y) == (k == 0), [&] { return "cmp/equal<" + std::to_string(N) + "> wrong for " + S(a) + " and " + S(b); });
    c.state(mc::mix(H(a), H(b)));
}
static std::vector<Z> prod(size_t n, const std::vector<u64>& A) { std::vector<Z> r; size_t tot = 1; for (size_t i = 0; i < n; i++) tot *= A.size(); for (size_t m = 0; m < tot; m++) { std::vector<u64> d(n); size_t t = m; for (auto& w : d) { w = A[t % A.size()]; t /= A.size(); } r.push_back(ref::zfrom(d.data(), n)); } uniq(r); return r; }
int main(int argc, char** argv) {
    mc::Explorer E; E.parse(argc, argv); ref::selftest(); bool T = E.thorough(); const u64 X = ~0ULL;
    WS = {0, 1, X, 1ULL << 63}; WB = {0, 1, 2, X, X - 1, 1ULL << 63, (1ULL << 63) - 1};
    static std::vector<Z> V[13];
    V[1] = prod(1, WB); V[2] = prod(2, WB); V[3] = prod(3, T ? WB : WS); V[4] = prod(4, WS); V[5] = prod(5, {0, X, 1}); V[6] = prod(6, {0, X, 1ULL << 63}); V[8] = prod(8, {0, X}); V[12] = prod(12, {0, X});
    for (int n : {1, 2, 3, 4, 5, 6, 8, 12}) { Z m = (Z(1) << (64 * n)) - 1; for (int k = 0; k < (T ? 40 : 12); k++) { Bytes b; for (int j = 0; j < 4; j++) { Bytes h = ref::shaB(ref::i2osp(n * 1000 + k * 4 + j, 4)); b.insert(b.end(), h.begin(), h.end()); } V[n].push_back(ref::bytesz(b) & m); } if (n >= 4) for (Z q : {ref::ZR, Z(ref::ZR - 1), Z(ref::ZR + 1), Z(2 * ref::ZR), Z(2 * ref::ZR - 1)}) V[n].push_back(q); if (n >= 6) for (int k = 1; k < 10; k++) for (int d = -1; d <= 1; d++) { Z q = ref::ZP * k + d; if (q <= m) V[n].push_back(q); } uniq(V[n]); }
#define ADDF(NA, NB) E.add("add-" #NA "-" #NB, "all pairs of structured operands of these widths, result widths from too narrow to two words spare", {V[NA].size(), V[NB].size()}, [](mc::Ctx& c, const mc::Idx& v) { adds<NA, NB>(c, V[NA][v[0]], V[NB][v[1]]); if (c.verbose) c.note = S(V[NA][v[0]]) + " + " + S(V[NB][v[1]]); });
    ADDF(1, 1) ADDF(1, 2) ADDF(2, 1) ADDF(2, 2) ADDF(1, 4) ADDF(4, 1) ADDF(2, 3) ADDF(3, 2) ADDF(3, 3) ADDF(4, 4) ADDF(5, 4) ADDF(4, 6) ADDF(6, 6) ADDF(8, 8)
#define MULF(NA, NB) E.add("mul-" #NA "-" #NB, "all pairs of structured operands of these widths", {V[NA].size(), V[NB].size()}, [](mc::Ctx& c, const mc::Idx& v) { muls<NA, NB>(c, V[NA][v[0]], V[NB][v[1]]); if (c.verbose) c.note = S(V[NA][v[0]]) + " * " + S(V[NB][v[1]]); });
    MULF(1, 1) MULF(1, 2) MULF(2, 1) MULF(2, 2) MULF(3, 2) MULF(2, 3) MULF(1, 4) MULF(4, 1) MULF(4, 4) MULF(6, 4) MULF(4, 6)
#define CMPF(N) E.add("cmp-" #N, "all pairs of structured values", {V[N].size(), V[N].size()}, [](mc::Ctx& c, const mc::Idx& v) { cmp1<N>(c, V[N][v[0]], V[N][v[1]]); });
    CMPF(1) CMPF(2) CMPF(4) CMPF(6)
#define BITF(N) E.add("bits-" #N, "bit length and right shift by every amount 0..64N+66 and huge amounts", {V[N].size() + 64 * N}, [T](mc::Ctx& c, const mc::Idx& v) { Z z = v[0] < V[N].size() ? V[N][v[0]] : Z(1) << (v[0] - V[N].size()); bits<N>(c, z, T); if (c.verbose) c.note = S(z); });
    BITF(1) BITF(2) BITF(3) BITF(4) BITF(6) BITF(8)
    // division: divisors with a nonzero top word, of every bit length of the top word; dividends structured, multiples +-1
    static std::vector<Z> D[9]; const std::vector<u64> top = {1, 2, 3, X, X - 1, 1ULL << 63, (1ULL << 63) + 1, (1ULL << 63) - 1, 1ULL << 62, (1ULL << 62) - 1, 0x73eda753299d7d48ULL, 0x1a0111ea397fe69aULL};
    for (int m : {1, 2, 4, 6}) { std::vector<Z> low = {0}; if (m > 1) low = prod(m - 1, m <= 2 ? std::vector<u64>{0, 1, X, X - 1, 1ULL << 63} : T && m <= 4 ? std::vector<u64>{0, 1, X} : std::vector<u64>{0, X}); for (u64 t : top) for (auto& l : low) D[m].push_back(Z((unsigned long)t) * (Z(1) << (64 * (m - 1))) + l);
        for (int s = 0; s < 64; s++) { D[m].push_back((Z(1) << s) * (Z(1) << (64 * (m - 1)))); D[m].push_back((Z(1) << (s + 1)) * (Z(1) << (64 * (m - 1))) - 1); } if (m == 4) D[m].push_back(ref::ZR); if (m == 6) D[m].push_back(ref::ZP); uniq(D[m]); }
#define DIVF(N, M) E.add("div-" #N "-" #M, "structured dividends x divisors with nonzero top word, plus k*divisor+d for structured k and d in {-1,0,1}", {V[N].size(), D[M].size(), 4}, [](mc::Ctx& c, const mc::Idx& v) { Z b = D[M][v[1]], a = V[N][v[0]]; if (v[2]) { a = a / b * b + Z((long)v[2] - 2); if (a < 0 || a >= (Z(1) << (64 * N))) return; } div1<N, M>(c, a, b); if (c.verbose) c.note = S(a) + " / " + S(b); });
    DIVF(1, 1) DIVF(2, 1) DIVF(2, 2) DIVF(4, 1) DIVF(4, 2) DIVF(4, 4) DIVF(6, 4) DIVF(6, 6) DIVF(8, 4) DIVF(8, 6) DIVF(12, 6)
    static std::vector<Z> KQ; for (auto& z : V[4]) KQ.push_back(z);
    E.add("div-quotient-digits", "a = q*b + r with q, r structured (hits every quotient-digit correction): b = group order and p", {V[2].size(), V[4].size(), 2}, [](mc::Ctx& c, const mc::Idx& v) { Z b = v[2] ? ref::ZP : ref::ZR, a = V[2][v[0]] * b + V[4][v[1]] % b; if (v[2]) { div1<8, 6>(c, a, b); } else if (a < (Z(1) << 384)) div1<6, 4>(c, a, b); if (c.verbose) c.note = S(a); });
#define MODF(N) E.add("modPrime-" #N, "residue modulo p of structured wide integers and of k*p+d", {V[N].size(), 5}, [](mc::Ctx& c, const mc::Idx& v) { Z a = V[N][v[0]]; if (v[1]) { a = a / ref::ZP * ref::ZP + Z((long)v[1] - 3); if (a < 0 || a >= (Z(1) << (64 * N))) return; } fp r = fp::modPrime(W<N>(a)); c.check(R(r) == ref::fromz(a % ref::ZP), [&] { return "modPrime<" #N ">(" + S(a) + ") got " + S(r); }); c.state(H(r)); });
    MODF(6) MODF(8) MODF(12)
    return E.run();
}
