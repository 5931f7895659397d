// C11: affine and Jacobian point encodings.
#include "lib.hpp"
using namespace lx;
static std::string hx(const Bytes& b) { return mc::hex(b.data(), b.size()); }
template<class F> struct EncT; template<> struct EncT<Fe> { static constexpr size_t A = 96, J = 144; static std::vector<Z> z(const Fe& a, bool raw) { return {raw ? ref::rawz(a) : ref::toz(a)}; } static Fe mk(const std::vector<Z>& v, size_t o, bool raw) { return raw ? ref::raw(v[o]) : ref::fromz(v[o]); } };
template<> struct EncT<F2> { static constexpr size_t A = 192, J = 288; static std::vector<Z> z(const F2& a, bool raw) { return raw ? std::vector<Z>{ref::rawz(a.a), ref::rawz(a.b)} : std::vector<Z>{ref::toz(a.a), ref::toz(a.b)}; } static F2 mk(const std::vector<Z>& v, size_t o, bool raw) { return raw ? F2{ref::raw(v[o]), ref::raw(v[o + 1])} : F2{ref::fromz(v[o]), ref::fromz(v[o + 1])}; } };
template<class F> inline bool on(const F& x, const F& y, const F& z) { if (z.isz()) return true; F z2 = ref::sqr(z), z6 = ref::mul(ref::sqr(z2), z2); return ref::sqr(y) == ref::add(ref::mul(ref::sqr(x), x), ref::mul(ref::Crv<F>::b(), z6)); }
template<class F> struct PE {
    typedef ref::Pt<F> P; typedef typename GTr<F>::G G; static constexpr size_t D = sizeof(F) / 48; static inline std::vector<NP<F>> V; static inline std::vector<F> ZS; static std::string nm() { return GTr<F>::nm(); }
    // coordinates in order x, y(, z); each field element as its little-endian list of base coordinates
    static Bytes enc(const std::vector<Z>& v, bool le) { Bytes o; for (size_t e = 0; e < v.size(); e += D) for (size_t i = 0; i < D; i++) { Bytes b = ref::zbytes(v[e + (le ? i : D - 1 - i)], 48); if (le) std::reverse(b.begin(), b.end()); o.insert(o.end(), b.begin(), b.end()); } return o; }
    static std::vector<Z> flat(std::initializer_list<F> l, bool raw) { std::vector<Z> r; for (auto& f : l) { auto q = EncT<F>::z(f, raw); r.insert(r.end(), q.begin(), q.end()); } return r; }
    static std::optional<G> dec(const Bytes& b, bool jac, bool le, B::conv_opt o) { if (jac) { std::array<u8, EncT<F>::J> a; memcpy(a.data(), b.data(), a.size()); return le ? G::fromJacobianBytesLE(a, o) : G::fromJacobianBytesBE(a, o); } std::array<u8, EncT<F>::A> a; memcpy(a.data(), b.data(), a.size()); return le ? G::fromAffineBytesLE(a, o) : G::fromAffineBytesBE(a, o); }
    static std::optional<G> decdef(const Bytes& b, bool jac, bool le) { if (jac) { std::array<u8, EncT<F>::J> a; memcpy(a.data(), b.data(), a.size()); return le ? G::fromJacobianBytesLE(a) : G::fromJacobianBytesBE(a); } std::array<u8, EncT<F>::A> a; memcpy(a.data(), b.data(), a.size()); return le ? G::fromAffineBytesLE(a) : G::fromAffineBytesBE(a); }
    template<class A> static Bytes by(const A& a) { return Bytes(a.begin(), a.end()); }
    static Bytes enclib(const G& g, bool jac, bool le, B::from_mont fm, bool arr) { if (jac) { if (arr) return le ? by(g.toJacobianBytesLE(fm)) : by(g.toJacobianBytesBE(fm)); std::array<u8, EncT<F>::J> a; a.fill(0x77); le ? g.toJacobianBytesLE(a, fm) : g.toJacobianBytesBE(a, fm); return by(a); } if (arr) return le ? by(g.toAffineBytesLE(fm)) : by(g.toAffineBytesBE(fm)); std::array<u8, EncT<F>::A> a; a.fill(0x77); le ? g.toAffineBytesLE(a, fm) : g.toAffineBytesBE(a, fm); return by(a); }
    static void round(mc::Ctx& c, const P& p, const G& a, const std::function<std::string()>& in) { G a0 = a;
        for (int jac = 0; jac < 2; jac++) for (int le = 0; le < 2; le++) for (int raw = 0; raw < 2; raw++) { auto fm = raw ? B::from_mont::no : B::from_mont::yes; auto what = [&] { return nm() + (jac ? " Jacobian " : " affine ") + (le ? "LE " : "BE ") + (raw ? "raw " : "") + in(); }; Bytes w; 
                if (jac) w = enc(flat({R(a.x), R(a.y), R(a.z)}, raw), le); else if (ref::isinf(p)) w = Bytes(EncT<F>::A, 0); else { P n = ref::norm(p); w = enc(flat({n.x, n.y}, raw), le); }
                for (int arr = 0; arr < 2; arr++) c.check(enclib(a, jac, le, fm, arr) == w, [&] { return what() + ": encoding differs, got " + hx(enclib(a, jac, le, fm, arr)) + " want " + hx(w); });
                for (int cv = 0; cv < 2; cv++) { auto r = dec(w, jac, le, {.check_valid = (bool)cv, .to_mont = !raw}); c.check(r.has_value(), [&] { return what() + ": decoding a curve point rejected, check_valid=" + std::to_string(cv); }); if (r) { c.check(same(*r, p), [&] { return what() + ": decoded to another point"; }); if (jac) c.check(bits(*r, a), [&] { return what() + ": Jacobian coordinates changed"; }); } }
                if (!raw) { std::array<u8, EncT<F>::J> o; o.fill(0x77); Bytes d1, d2; if (jac) { le ? a.toJacobianBytesLE(o) : a.toJacobianBytesBE(o); d1 = by(o), d2 = le ? by(a.toJacobianBytesLE()) : by(a.toJacobianBytesBE()); } else { std::span<u8, EncT<F>::A> q(o.data(), EncT<F>::A); le ? a.toAffineBytesLE(q) : a.toAffineBytesBE(q); d1 = Bytes(q.begin(), q.end()), d2 = le ? by(a.toAffineBytesLE()) : by(a.toAffineBytesBE()); } c.check(d1 == w && d2 == w, [&] { return what() + ": encoding with default options wrong"; }); }
                if (!raw) { auto r = decdef(w, jac, le); c.check(r && same(*r, p), [&] { return what() + ": default options wrong"; }); } } c.check(bits(a, a0), "encoding modified the point"); c.state(H(a)); if (c.verbose) c.note = in(); }
    // arbitrary coordinate integers
    static void decode(mc::Ctx& c, const std::vector<Z>& v, bool jac) { bool inr = true; for (auto& z : v) inr = inr && z < ref::ZP; 
        for (int le = 0; le < 2; le++) { Bytes b = enc(v, le); for (int raw = 0; raw < 2; raw++) { auto what = [&] { return nm() + (jac ? " Jacobian " : " affine ") + (le ? "LE " : "BE ") + (raw ? "raw " : "") + hx(b); }; if (c.verbose) c.note = what(); F x, y, z; bool inf = false, oc = false; if (inr) { x = EncT<F>::mk(v, 0, raw); y = EncT<F>::mk(v, D, raw); z = jac ? EncT<F>::mk(v, 2 * D, raw) : ref::Crv<F>::one(); inf = !jac && x.isz() && y.isz(); oc = inf || on(x, y, z); }
                auto r0 = dec(b, jac, le, {.check_valid = false, .to_mont = !raw}), r1 = dec(b, jac, le, {.check_valid = true, .to_mont = !raw}); c.check(r0.has_value() == inr, [&] { return what() + (inr ? ": in-range coordinates rejected" : ": out-of-range coordinate accepted") + " without curve check"; }); c.check(r1.has_value() == (inr && oc), [&] { return what() + (inr && oc ? ": curve point rejected" : ": not a curve point but accepted") + " with curve check"; }); if (!raw) { auto rd = decdef(b, jac, le); c.check(rd.has_value() == inr && (!rd || (bits(rd->x, r0->x) && bits(rd->y, r0->y) && bits(rd->z, r0->z))), [&] { return what() + ": the default options are not those without curve check"; }); }
                for (auto* r : {&r0, &r1}) if (*r && inr) c.check(inf ? (*r)->isZero() : R((*r)->x) == x && R((*r)->y) == y && R((*r)->z) == z, [&] { return what() + ": decoded coordinates wrong"; }); } }
        u64 h = jac; for (auto& z : v) h = mc::mix(h, H(z)); c.state(h); }
    static void add(mc::Explorer& E, bool T) { V = points<F>(T ? 2 : 1); ZS = zreps<F>(1); size_t K = std::max<size_t>(ZS.size(), 6); auto nmF = [](const char* s) { return nm() + "-" + s; };
        E.add(nmF("round-trip"), "every named point in every representative, affine/Jacobian, both byte orders, raw and Montgomery, span and array forms", {V.size(), K}, [](mc::Ctx& c, const mc::Idx& v) { round(c, V[v[0]].p, rep<F>(V[v[0]].p, v[1], ZS), [&] { return V[v[0]].n + " rep " + std::to_string(v[1]); }); });
        static const std::vector<F> NZ = nearz<F>(); E.add(nmF("near-one-z"), "points in representatives whose z coordinate is close to one or to zero word by word", {4, NZ.size()}, [](mc::Ctx& c, const mc::Idx& v) { static const int pick[] = {1, 9, 13, 18}; auto& q = V[pick[v[0]]]; round(c, q.p, J(q.p, NZ[v[1]]), [&] { return q.n + " z " + S(NZ[v[1]]); }); });
        static const std::vector<Z> BN = {0, 1, ref::ZP - 1, ref::ZP, ref::ZP + 1, (Z(1) << 384) - 1, 2 * ref::ZP, ref::ZP + (Z(1) << 320), ref::ZP - (Z(1) << 320), Z(1) << 381, Z(1) << 383};
        for (int jac = 0; jac < 2; jac++) { size_t n = (2 + jac) * D; E.add(nmF(jac ? "jacobian-range" : "affine-range"), "values on both sides of p in every pair of coordinate positions of an otherwise valid point", {n, n, BN.size(), BN.size(), 2}, [jac](mc::Ctx& c, const mc::Idx& v) { P g = v[4] ? V[18].p : GTr<F>::gen(); F z = jac ? ZS.back() : ref::Crv<F>::one(), z2 = ref::sqr(z); std::vector<Z> f = jac ? flat({ref::mul(g.x, z2), ref::mul(g.y, ref::mul(z2, z)), z}, false) : flat({g.x, g.y}, false); f[v[1]] = BN[v[3]]; f[v[0]] = BN[v[2]]; decode(c, f, jac); });
            // x + p, y + p, z + p: congruent but out of range
            E.add(nmF(jac ? "jacobian-congruent" : "affine-congruent"), "coordinates replaced by congruent integers c + k p in every position", {V.size(), n, 9}, [jac](mc::Ctx& c, const mc::Idx& v) { const P& g = V[v[0]].p; F z = jac ? ZS[v[0] % ZS.size()] : ref::Crv<F>::one(), z2 = ref::sqr(z); std::vector<Z> f = ref::isinf(g) ? std::vector<Z>((2 + jac) * D, Z(0)) : jac ? flat({ref::mul(g.x, z2), ref::mul(g.y, ref::mul(z2, z)), z}, false) : flat({g.x, g.y}, false); f[v[1]] += (long)(v[2] + 1) * ref::ZP; if (f[v[1]] >= (Z(1) << 384)) return; decode(c, f, jac); });
            E.add(nmF(jac ? "jacobian-small" : "affine-small"), "every coordinate combination over a small alphabet", std::vector<uint64_t>(n, D == 1 ? 12 : jac ? 4 : 7), [jac](mc::Ctx& c, const mc::Idx& v) { static const std::vector<Z> S = {0, 1, 2, ref::ZP - 2, ref::ZP - 1, 4, 3, ref::toz(ref::G1().x), ref::toz(ref::G1().y), ref::ZP, ref::toz(GTr<Fe>::omega()), 5}; std::vector<Z> f; for (auto k : v) f.push_back(S[k]); decode(c, f, jac); }); } 
        E.add(nmF("perturbed"), "each byte of a valid encoding altered (every bit of every byte)", {3, (size_t)EncT<F>::J * 8}, [](mc::Ctx& c, const mc::Idx& v) { static const int id[] = {1, 18, 13}; P g = V[id[v[0]]].p; F z = v[0] ? ZS[3] : ref::Crv<F>::one(), z2 = ref::sqr(z); auto f = flat({ref::mul(g.x, z2), ref::mul(g.y, ref::mul(z2, z)), z}, false); size_t co = v[1] / 384, bit = v[1] % 384; f[co] = f[co] ^ (Z(1) << bit); decode(c, f, true); if (co < 2 * D) { f = flat({g.x, g.y}, false); f[co] = f[co] ^ (Z(1) << bit); decode(c, f, false); } });
    }
};
int main(int argc, char** argv) { mc::Explorer E; E.parse(argc, argv); ref::selftest(); bool T = E.thorough(); PE<Fe>::add(E, T); PE<F2>::add(E, T); return E.run(); }
