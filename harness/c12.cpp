// C12: compressed encoding is a canonical bijection with curve points.
#include "lib.hpp"
using namespace lx;
static std::string hx(const Bytes& b) { return mc::hex(b.data(), b.size()); }
template<class F> struct CE {
    typedef ref::Pt<F> P; typedef typename GTr<F>::G G; static constexpr size_t D = sizeof(F) / 48, N = sizeof(F); static inline std::vector<NP<F>> V; static inline std::vector<F> ZS, NZ; static inline std::vector<Z> XS; static std::string nm() { return GTr<F>::nm(); }
    static Bytes comp(const G& g, bool arr) { std::array<u8, N> a; if (arr) a = g.toCompressedBytesBE(); else { a.fill(0x66); g.toCompressedBytesBE(a); } return Bytes(a.begin(), a.end()); }
    static std::optional<G> dec(const Bytes& b) { std::array<u8, N> a; memcpy(a.data(), b.data(), N); return G::fromCompressedBytesBE(a); }
    static void point(mc::Ctx& c, const P& p, const G& a, const std::function<std::string()>& in) { G a0 = a; Bytes w = ref::compress(p); for (int k = 0; k < 2; k++) c.check(comp(a, k) == w, [&] { return nm() + " compress " + in() + ": got " + hx(comp(a, k)) + " want " + hx(w); }); auto r = dec(w); c.check(r && same(*r, p) && canon(*r), [&] { return nm() + " decompress(compress) differs for " + in(); }); if (r) c.check(comp(*r, true) == w, [&] { return nm() + " recompress differs for " + in(); }); c.check(bits(a, a0), "compress modified the point"); c.state(H(w)); if (c.verbose) c.note = in() + " " + hx(w); }
    static void bytes(mc::Ctx& c, const Bytes& b) { P w = ref::pinf<F>(); bool ok = ref::decompress(b, w); auto r = dec(b); if (c.verbose) c.note = hx(b); c.state(H(b)); if (!c.check(r.has_value() == ok, [&] { return nm() + " decompress " + (ok ? "rejects canonical " : "accepts non-canonical ") + hx(b); })) return; if (r) { c.check(same(*r, w), [&] { return nm() + " decompress wrong point for " + hx(b); }); c.check(comp(*r, true) == b, [&] { return nm() + " accepted encoding does not recompress to itself: " + hx(b) + " -> " + hx(comp(*r, true)); }); } }
    static Bytes mk(const std::vector<Z>& v, unsigned flags) { Bytes o; for (size_t i = 0; i < D; i++) { Bytes b = ref::zbytes(v[D - 1 - i], 48); o.insert(o.end(), b.begin(), b.end()); } o[0] ^= (u8)(flags << 5); return o; }
    static std::vector<Z> xs(const F& x);
    static void add(mc::Explorer& E, bool T) { V = points<F>(T ? 2 : 1); ZS = zreps<F>(1); size_t K = std::max<size_t>(ZS.size(), 6); auto nmF = [](const char* s) { return nm() + "-" + s; };
        E.add(nmF("points"), "every named point in every representative", {V.size(), K}, [](mc::Ctx& c, const mc::Idx& v) { point(c, V[v[0]].p, rep<F>(V[v[0]].p, v[1], ZS), [&] { return V[v[0]].n + " rep " + std::to_string(v[1]); }); });
        NZ = nearz<F>(); E.add(nmF("near-one-z"), "points in representatives whose z coordinate is close to one or to zero word by word", {4, NZ.size()}, [](mc::Ctx& c, const mc::Idx& v) { static const int pick[] = {1, 9, 13, 18}; auto& q = V[pick[v[0]]]; point(c, q.p, J(q.p, NZ[v[1]]), [&] { return q.n + " z " + S(NZ[v[1]]); }); });
        E.add(nmF("multiples"), "multiples of a full-order point and of the generator", {2, T ? 3000ull : 300ull}, [](mc::Ctx& c, const mc::Idx& v) { P p = ref::norm(ref::smul(v[0] ? GTr<F>::gen() : V[13].p, Z((unsigned long)v[1]))); point(c, p, rep<F>(p, v[1], ZS), [&] { return std::to_string(v[1]) + (v[0] ? "G" : "C"); }); });
        // all 8 flag combinations x boundary x-coordinates (381-bit payloads, including those >= p)
        XS = {0, 1, 2, 3, 4, 5, 6, 7, ref::ZP - 1, ref::ZP - 2, ref::ZP, ref::ZP + 1, ref::ZP + 2, ref::ZP + 3, ref::ZP + 4, (Z(1) << 381) - 1, (Z(1) << 381) - 2, (Z(1) << 381) - 1 - ref::ZP, Z(1) << 380, Z(1) << 320, (Z(1) << 320) - 1, ref::ZP - (Z(1) << 320), ref::ZP + (Z(1) << 320), ref::ZP ^ (Z(1) << 379)};
        if (T) for (int d = 8; d < 200; d++) { XS.push_back(d); XS.push_back(ref::ZP - d); XS.push_back(ref::ZP + d); } uniq(XS);
        { std::vector<uint64_t> d(D, XS.size()); if (D == 2 && T) { d[0] = 120; } d.push_back(8); E.add(nmF("flags"), "all eight flag combinations with every payload over boundary coordinates below and above p", d, [](mc::Ctx& c, const mc::Idx& v) { std::vector<Z> x; for (size_t i = 0; i < D; i++) x.push_back(XS[v[i]]); bytes(c, mk(x, v[D])); }); }
        // x and x + p for curve points with small x
        E.add(nmF("congruent"), "coordinates of curve points with the modulus added, all flags", {V.size(), D, 8}, [](mc::Ctx& c, const mc::Idx& v) { if (ref::isinf(V[v[0]].p)) return; auto x = xs(V[v[0]].p.x); x[v[1]] += ref::ZP; if (v[1] == D - 1 && x[v[1]] >= (Z(1) << 381)) return; if (x[v[1]] >= (Z(1) << 384)) return; bytes(c, mk(x, v[2])); });
        E.add(nmF("bit-flips"), "every single-bit change of the encodings of named points (infinity included)", {V.size(), N * 8}, [](mc::Ctx& c, const mc::Idx& v) { Bytes b = ref::compress(V[v[0]].p); b[v[1] / 8] ^= 1 << (v[1] % 8); bytes(c, b); });
        E.add(nmF("first-byte"), "every value of the first byte over named encodings and over an all-zero payload", {V.size() + 1, 256}, [](mc::Ctx& c, const mc::Idx& v) { Bytes b = v[0] < V.size() ? ref::compress(V[v[0]].p) : Bytes(N, 0); b[0] = v[1]; bytes(c, b); });
        E.add(nmF("infinity-payload"), "the infinity flag with every single nonzero byte value at every position and pairs of positions", {N, 255}, [](mc::Ctx& c, const mc::Idx& v) { Bytes b(N, 0); b[0] = 0xc0; b[v[0]] ^= v[1] + 1; bytes(c, b); b[(v[0] * 7 + v[1]) % N] ^= 1; bytes(c, b); b = Bytes(N, (u8)(v[1] + 1)); b[0] = 0xc0 | (v[0] & 0x3f); bytes(c, b); });
        E.add(nmF("sequential-x"), "every x-coordinate 0..N (and p-1-N..p-1) with both sign flags", {2, T ? 4000ull : 500ull, 2}, [](mc::Ctx& c, const mc::Idx& v) { Z z = (unsigned long)v[1]; if (v[0]) z = ref::ZP - 1 - z; std::vector<Z> x(D, Z(0)); x[0] = z; if (D == 2 && v[1] % 3 == 1) std::swap(x[0], x[1]); if (D == 2 && v[1] % 3 == 2) x[1] = 7; bytes(c, mk(x, 4 | v[2])); });
    }
};
template<> std::vector<Z> CE<Fe>::xs(const Fe& x) { return {ref::toz(x)}; }
template<> std::vector<Z> CE<F2>::xs(const F2& x) { return {ref::toz(x.a), ref::toz(x.b)}; }
int main(int argc, char** argv) { mc::Explorer E; E.parse(argc, argv); ref::selftest(); bool T = E.thorough(); CE<Fe>::add(E, T); CE<F2>::add(E, T); return E.run(); }
