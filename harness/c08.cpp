// C08: scalar multiplication and weighted sums equal repeated addition.
#include "lib.hpp"
using namespace lx;
typedef std::array<u64, 4> S4;
template<class F> struct SM {
    typedef ref::Pt<F> P; typedef typename GTr<F>::G G; static inline std::vector<NP<F>> V, V0; static inline std::vector<F> ZS; static inline std::vector<Z> K, KW, KS; static inline P Bp; static inline Z ORD; static inline std::vector<P> MUL; static inline std::vector<int> SZ;
    static std::string nm() { return GTr<F>::nm(); }
    template<size_t N> static void width(mc::Ctx& c, const G& a, const Z& k, const P& w, const std::function<std::string()>& in) { if (k >= (Z(1) << (64 * N))) return; c.check(same(a.template scale<N>(W<N>(k)), w), [&] { return nm() + " scale<" + std::to_string(N) + "> wrong: " + in(); }); }
    static void scale(mc::Ctx& c, const NP<F>& p, size_t r, const Z& k) { G a = rep<F>(p.p, r, ZS), a0 = a; P w = ref::smul(p.p, k); auto in = [&] { return p.n + " rep " + std::to_string(r) + " by " + S(k); };
        width<1>(c, a, k, w, in); width<2>(c, a, k, w, in); width<3>(c, a, k, w, in); width<4>(c, a, k, w, in); width<5>(c, a, k, w, in); width<6>(c, a, k, w, in); width<8>(c, a, k, w, in); c.check(bits(a, a0), "scale modified its operand"); c.state(H(w)); if (c.verbose) c.note = in(); }
    // list element i of a deterministic instance: multiples of a full-order point, infinity included
    static int dl(uint64_t seed, size_t i) { return (int)((i * 7 + seed * 13 + (i * i) % 11) % 64); }
    static Z sc(uint64_t seed, size_t i) { if (seed % 5 == 0 && i % 3) return ref::bytesz(ref::shaB(ref::i2osp(seed * 1000003 + i, 8))); return K[(i * 31 + seed * 17) % K.size()]; }
    static void sum(mc::Ctx& c, const std::vector<G>& p, const std::vector<S4>& s, const P& w, const std::function<std::string()>& in, bool fresh = true) {
        std::vector<G> p0 = p; std::vector<S4> s0 = s; G r = G::weightedSum(p, s); c.check(same(r, w), [&] { return nm() + " weightedSum wrong: " + in() + " got " + S(R(r)) + " want " + S(w); });
        if (fresh) { uint64_t n = 0; G y = G::weightedSum(p, s, [&] { n++; }); c.check(bits(y, r), [&] { return nm() + " yield callback changes the weighted sum: " + in(); }); c.check(n > 0, [&] { return nm() + " yield never called: " + in(); }); }
        bool same_in = s0 == s; for (size_t i = 0; i < p.size(); i++) same_in = same_in && bits(p[i], p0[i]); c.check(same_in, [&] { return nm() + " weightedSum modified its inputs: " + in(); }); c.state(H(w)); if (c.verbose) c.note = in(); }
    static void add(mc::Explorer& E, bool T) {
        ZS = zreps<F>(0); V = points<F>(T ? 1 : 0); K = scalar_alphabet(T ? 1 : 0); KS = scalar_alphabet(T ? 2 : 1); for (int i = 0; i < 40; i++) if (i < 8 || T) KS.push_back(ref::bytesz(ref::shaB(ref::i2osp(777 + i, 4)))); uniq(KS);
        KW = {ref::ZR * ref::ZR, ref::ZR << 256, (Z(1) << 320) - 1, (Z(1) << 384) - 1, (Z(1) << 512) - 1, Z(1) << 511, (Z(1) << 256), (Z(1) << 256) + 1, (Z(1) << 383) + 5, cof((F*)0) * ref::ZR % (Z(1) << 512)}; ORD = cof((F*)0) * ref::ZR; Bp = ref::norm(curve_point<F>(0)); { P x = ref::pinf<F>(); for (int i = 0; i < 64; i++) { MUL.push_back(ref::norm(x)); x = ref::add(x, Bp); } }
        auto nmF = [](const char* s) { return nm() + "-" + s; };
        E.add(nmF("scale"), "every named point times every scalar of the 256-bit alphabet, at every width that holds it", {V.size(), KS.size()}, [](mc::Ctx& c, const mc::Idx& v) { scale(c, V[v[0]], v[1], KS[v[1]]); });
        E.add(nmF("scale-small"), "every scalar 0..N on points inside and outside the subgroup", {6, T ? 4096ull : 300ull}, [](mc::Ctx& c, const mc::Idx& v) { static const int id[] = {0, 1, 11, 13, 18, 20}; scale(c, V[id[v[0]] % V.size()], v[1], Z((unsigned long)v[1])); });
        E.add(nmF("scale-wide"), "scalars wider than 256 bits", {V.size(), KW.size()}, [](mc::Ctx& c, const mc::Idx& v) { scale(c, V[v[0]], v[0], KW[v[1]]); });
        // all short lists
        static const int pk[] = {0, 1, 2, 3, 13, 18, 10, 6}; size_t np = 8, nk = 12; V0 = V; 
        for (int n = 1; n <= 3; n++) { std::vector<uint64_t> d; for (int i = 0; i < n; i++) d.push_back(n == 3 ? 4 : np); for (int i = 0; i < n; i++) d.push_back(n == 3 ? (T ? 12 : 5) : nk);
            E.add(nmF("lists-of-") + std::to_string(n), "every list of " + std::to_string(n) + " points and scalars over small alphabets", d, [n](mc::Ctx& c, const mc::Idx& v) { static const Z kk[] = {0, 1, ref::ZR - 1, (Z(1) << 256) - 1, ref::ZR, 2, 7, 8, Z(1) << 255, ref::ZR + 1, ref::ZX, (Z(1) << 64)}; std::vector<G> p; std::vector<S4> s; P w = ref::pinf<F>(); std::string d; for (int i = 0; i < n; i++) { auto& q = V0[pk[v[i]] % V0.size()]; Z k = kk[v[n + i]]; p.push_back(rep<F>(q.p, i + v[i], ZS)); s.push_back(W<4>(k)); w = ref::add(w, ref::smul(q.p, k)); d += q.n + "*" + S(k) + " "; } sum(c, p, s, w, [&] { return d; }); }); }
        // every length
        for (int i = 0; i <= (T ? 300 : 72); i++) SZ.push_back(i); for (int i : {127, 128, 129, 255, 256, 257, 300, 511, 512, 513}) SZ.push_back(i); if (T) for (int i : {1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 5000, 16383, 16384, 32768, 65536}) SZ.push_back(i); else for (int i : {1023, 1024, 1025, 2047, 2048, 2049, 4096, 4097, 8193}) SZ.push_back(i);
        E.add(nmF("lengths"), "list lengths across every window-size boundary, with and without a yield callback", {SZ.size(), T ? 4ull : 2ull}, [](mc::Ctx& c, const mc::Idx& v) { size_t n = SZ[v[0]]; std::vector<G> p; std::vector<S4> s; Z e = 0; for (size_t i = 0; i < n; i++) { int a = dl(v[1], i); Z k = sc(v[1] * 5 + (n % 3), i); p.push_back(rep<F>(MUL[a], i + v[1], ZS)); s.push_back(W<4>(k)); e += a * k; } sum(c, p, s, ref::smul(Bp, e % ORD), [&] { return "length " + std::to_string(n) + " instance " + std::to_string(v[1]); }); }, 120);
        E.add(nmF("mismatch"), "different numbers of points and scalars", {11, 11}, [](mc::Ctx& c, const mc::Idx& v) { static const size_t nn[] = {0, 1, 2, 3, 4, 31, 32, 33, 64, 100, 256}; size_t a = nn[v[0]], b = nn[v[1]]; std::vector<G> p; std::vector<S4> s; Z e = 0; for (size_t i = 0; i < a; i++) p.push_back(rep<F>(MUL[dl(3, i)], i, ZS)); for (size_t i = 0; i < b; i++) s.push_back(W<4>(sc(3, i))); for (size_t i = 0; i < std::min(a, b); i++) e += dl(3, i) * sc(3, i); sum(c, p, s, ref::smul(Bp, e % ORD), [&] { return std::to_string(a) + " points, " + std::to_string(b) + " scalars"; }); });
        // every digit of every window, alone in the list, for each window width
        static std::vector<std::array<int, 3>> DG; DG.clear(); for (int w = 3; w <= (T ? 6 : 5); w++) for (int j = 0; j * w < 256; j++) for (int d = 1; d < (1 << w); d++) { if (!T && (w == 4 ? (d & (d - 1)) && d != 15 : w == 5 ? (d & (d - 1)) && d != 31 : 0)) continue; DG.push_back({w, j, d}); }
        auto dg = DG; E.add(nmF("digits"), "each digit value in each window position for each window width", {dg.size()}, [dg](mc::Ctx& c, const mc::Idx& v) { auto [w, j, d] = dg[v[0]]; Z k = (Z(d) << (w * j)) % (Z(1) << 256); size_t n = w == 3 ? 2 : w == 4 ? 32 : w == 5 ? 256 : 2048, at = (v[0] * 37) % n; std::vector<G> p(n, A(MUL[5])); std::vector<S4> s(n, S4{0, 0, 0, 0}); s[at] = W<4>(k); p[at] = A(Bp); sum(c, p, s, ref::smul(Bp, k), [&] { return "width " + std::to_string(w) + " window " + std::to_string(j) + " digit " + std::to_string(d); }, false); });
        // repeated equal / opposite points that collide in a bucket
        E.add(nmF("collisions"), "lists of one repeated point and its negation, all lengths, all scalars from an alphabet", {T ? 80ull : 36ull, K.size()}, [](mc::Ctx& c, const mc::Idx& v) { size_t n = v[0]; Z k = K[v[1]]; std::vector<G> p; std::vector<S4> s; long e = 0; for (size_t i = 0; i < n; i++) { bool m = i % 3 == 2 || (v[1] % 2 && i % 2); p.push_back(rep<F>(m ? ref::neg(Bp) : Bp, i, ZS)); s.push_back(W<4>(k)); e += m ? -1 : 1; } sum(c, p, s, ref::smul(Bp, k * e), [&] { return std::to_string(n) + " copies by " + S(k); }, false); });
    }
};
int main(int argc, char** argv) {
    mc::Explorer E; E.parse(argc, argv); ref::selftest(); bool T = E.thorough(); SM<Fe>::add(E, T); SM<F2>::add(E, T); return E.run();
}
