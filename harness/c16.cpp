// C16: the pairing is the exact bilinear map on all subgroup inputs.
#include "lib.hpp"
using namespace lx; namespace pairing = bls12_381::pairing;
typedef std::vector<std::tuple<g1, g2>> Pairs;
static Fw GT; static int KF;                                  // library pairing of the generators = (textbook reduced pairing)^KF
static std::vector<Fw> POW;                                   // GT^(2^i)
static Fw gtpow(const Z& e0) { Z e = ref::zmod(e0, ref::ZR); Fw r = ref::wone(); for (size_t i = 0; i < POW.size(); i++) if (mpz_tstbit(e.get_mpz_t(), i)) r = ref::mul(r, POW[i]); return r; }
static std::vector<Z> SA, SB; static std::vector<Fe> Z1; static std::vector<F2> Z2;
static P1 p1(const Z& a) { return ref::norm(ref::smul(ref::G1(), a)); }
static P2 p2(const Z& a) { return ref::norm(ref::smul(ref::G2(), a)); }
struct Item { Z a, b; int ra = 0, rb = 0; };                 // pair (aG1, bG2) in representatives ra, rb
static void put(Pairs& v, const Item& i) { pairing::add_pair(v, rep<Fe>(p1(i.a), i.ra, Z1), rep<F2>(p2(i.b), i.rb, Z2)); }
static std::string d(const std::vector<Item>& l) { std::string s; for (auto& i : l) s += "(" + S(i.a) + "G1 rep " + std::to_string(i.ra) + ", " + S(i.b) + "G2 rep " + std::to_string(i.rb) + ") "; return s.substr(0, 1500); }
static void cmp(mc::Ctx& c, const fp12& got, const Fw& w, const std::function<std::string()>& in) { c.op(1); if (c.verbose) c.note = in(); c.check(R(got) == w, [&] { return "pairing of " + in() + ": got " + S(R(got)) + " want " + S(w); }); c.state(H(w)); }
static void list(mc::Ctx& c, const std::vector<Item>& l, bool yield = false) {
    Pairs v; Z e = 0; for (auto& i : l) { put(v, i); e += i.a * i.b; }
    Pairs v0 = v; fp12 g; if (yield) { size_t calls = 0; g = pairing::calculate(v, [&] { calls++; }); } else g = pairing::calculate(v);
    cmp(c, g, gtpow(e), [&] { return "[" + std::to_string(l.size()) + (yield ? " with yield] " : "] ") + d(l); });
    c.check(v.size() == v0.size() && (v.empty() || !memcmp((void*)v.data(), (void*)v0.data(), v.size() * sizeof v[0])), "calculate modified its input");
}
static std::vector<Item> AL; static std::vector<Fw> NV; static std::vector<std::string> NN; static std::vector<bool> NB;
static const std::vector<u64> LONG = {255, 256, 257, 300, 511, 512, 513, 1024, 1025};
int main(int argc, char** argv) {
    mc::Explorer E; E.parse(argc, argv); ref::selftest(); bool T = E.thorough();
    { Fw r = ref::pairing(ref::G1(), ref::G2()); Fw g = R(pairing::calculate(std::vector<std::tuple<g1, g2>>{{A(ref::G1()), A(ref::G2())}})); Fw r3 = ref::mul(ref::sqr(r), r); KF = 3; GT = r3; POW = {GT}; for (int i = 1; i < 255; i++) POW.push_back(ref::sqr(POW.back()));
      static Fw rr = r, gg = g;
      E.add("generator", "the generator pairing equals the textbook Miller loop and full exponentiation (cubed), is of exact order r", {1}, [](mc::Ctx& c, const mc::Idx&) { c.op(1); c.check(gg == GT, [&] { return "e(G1,G2) is not the cube of the reduced ate pairing: " + S(gg); }); c.check(ref::wpow(rr, ref::ZR) == ref::wone() && !(rr == ref::wone()), "reference pairing order"); c.state(H(gg)); }); }
    Z1 = zreps<Fe>(1); Z2 = zreps<F2>(1); auto all = scalar_alphabet(T ? 1 : 0); for (auto& z : all) { SA.push_back(z % ref::ZR); } uniq(SA); if (!T) { SB.assign(SA.begin(), SA.begin() + std::min<size_t>(SA.size(), 16)); } else SB = SA;
    static std::vector<P1> C1; static std::vector<P2> C2; for (auto& z : SA) { C1.push_back(p1(z)); C2.push_back(p2(z)); }
    E.add("bilinear", "all pairs of boundary scalars", {SA.size(), SB.size()}, [](mc::Ctx& c, const mc::Idx& v) { Pairs l; pairing::add_pair(l, A(C1[v[0]]), A(C2[v[1]])); cmp(c, pairing::calculate(l), gtpow(SA[v[0]] * SA[v[1]]), [&] { return S(SA[v[0]]) + "G1, " + S(SA[v[1]]) + "G2"; }); l.clear(); pairing::add_pair(l, A(C1[v[1]]), A(C2[v[0]])); cmp(c, pairing::calculate(l), gtpow(SA[v[0]] * SA[v[1]]), [&] { return S(SA[v[1]]) + "G1, " + S(SA[v[0]]) + "G2"; }); });
    E.add("small-scalars", "all products of small scalars of either sign", {T ? 61ull : 25ull, T ? 61ull : 25ull}, [T](mc::Ctx& c, const mc::Idx& v) { long h = T ? 30 : 12; list(c, {{ref::zmod(Z((long)v[0] - h), ref::ZR), ref::zmod(Z((long)v[1] - h), ref::ZR)}}); });
    static std::vector<Z> R6 = {0, 1, ref::ZR - 1, 2, ref::bytesz(ref::shaB(ref::str("x"))) % ref::ZR, ref::ZX};
    E.add("representatives", "every Jacobian representative of both members (six of infinity)", {R6.size(), R6.size(), std::max<size_t>(6, Z1.size()), std::max<size_t>(6, Z2.size())}, [](mc::Ctx& c, const mc::Idx& v) { list(c, {{R6[v[0]], R6[v[1]], (int)v[2], (int)v[3]}}); });
    Z h = R6[4]; AL = {{1, 1}, {ref::ZR - 1, 1}, {0, 1, 1}, {1, 0, 0, 3}, {2, 3, 3, 3}, {h, ref::ZX}, {0, 0, 4, 5}, {1, ref::ZR - 1, 2, 0}};
    if (T) { AL.push_back({ref::ZX, h, 1, 4}); AL.push_back({6, 1}); }
    u64 n = AL.size(), d4 = T ? 4 : 3, tot = 0; { u64 k = 1; for (u64 i = 0; i <= d4; i++) { tot += k; k *= n; } }
    E.add("lists", "every list of up to 3 (4) pairs over an alphabet with infinities, inverses and repeats, in every order", {tot}, [n](mc::Ctx& c, const mc::Idx& v) { u64 t = v[0], k = 1; int len = 0; while (t >= k) { t -= k; k *= n; len++; } std::vector<Item> l; for (int i = 0; i < len; i++) { l.push_back(AL[t % n]); t /= n; } list(c, l, v[0] & 1); });
    E.add("lengths", "every list length to 139 (259) and around powers of two, distinct pairs, with and without a yield callback", {(T ? 260ull : 140ull) + LONG.size(), 2}, [T](mc::Ctx& c, const mc::Idx& v) { u64 K = T ? 260 : 140, N = v[0] < K ? v[0] : LONG[v[0] - K]; std::vector<Item> l; for (u64 i = 0; i < N; i++) l.push_back({Z((unsigned long)(2 * i + 1)), Z((unsigned long)(i * i + 3)), (int)i, (int)(i / 2)}); list(c, l, v[1]); });
    E.add("cancelling", "every list length made of a pair and its inverse in both ways, closed or left open by one", {T ? 130ull : 70ull, 2, 2}, [](mc::Ctx& c, const mc::Idx& v) { std::vector<Item> l; for (u64 i = 0; i < v[0]; i++) { Z a((unsigned long)(i + 1)); l.push_back({a, 5}); if (v[1]) l.push_back({ref::ZR - a, 5}); else l.push_back({a, ref::ZR - 5}); } if (v[2]) l.push_back({7, 11}); list(c, l, v[0] & 1); });
    E.add("infinity-position", "an infinite member at every position of every list length, on either side", {T ? 48ull : 25ull, T ? 48ull : 25ull, 2, 2}, [](mc::Ctx& c, const mc::Idx& v) { if (v[1] > v[0]) return; std::vector<Item> l; for (u64 i = 0; i <= v[0]; i++) l.push_back({Z((unsigned long)(i + 2)), 3}); if (v[2]) l[v[1]].a = 0; else l[v[1]].b = 0; l[v[1]].ra = l[v[1]].rb = (int)v[0]; list(c, l, v[3]); });
    E.add("shared-members", "every list length with one first member for all pairs, one second member for all, members alternating with their inverses, or in runs", {T ? 130ull : 45ull, 6}, [](mc::Ctx& c, const mc::Idx& v) { std::vector<Item> l; u64 N = v[0]; for (u64 i = 0; i < N; i++) { Z a((unsigned long)(i + 2)), b((unsigned long)(3 * i + 1)); int r = v[0] % 2 ? (int)i : 0; switch (v[1]) { case 0: l.push_back({5, b, r, r}); break; case 1: l.push_back({a, 5, r, r}); break; case 2: l.push_back({i % 2 ? Z(ref::ZR - 5) : Z(5), b, r, r}); break; case 3: l.push_back({a, i % 2 ? Z(ref::ZR - 5) : Z(5), r, r}); break; case 4: l.push_back({2 * i < N ? Z(5) : Z(7), b, r, r}); break; case 5: l.push_back({i % 3 ? a : Z(5), i % 3 ? Z(5) : b, r, r}); break; } } list(c, l, v[0] & 1); });
    E.add("repeated", "n copies of one pair", {T ? 300ull : 130ull, 3}, [](mc::Ctx& c, const mc::Idx& v) { std::vector<Item> l(v[0], AL[v[1] == 0 ? 0 : v[1] == 1 ? 5 : 4]); list(c, l, v[0] % 3 == 0); });
    E.add("rotations", "every rotation and the reversal of lists of 21..24 pairs (around the yield threshold)", {6, 24, 2}, [](mc::Ctx& c, const mc::Idx& v) { u64 n = 19 + v[0]; if (v[1] >= n) return; std::vector<Item> l; for (u64 i = 0; i < n; i++) l.push_back({Z((unsigned long)(i + 1)), Z((unsigned long)(3 * i + 1))}); std::rotate(l.begin(), l.begin() + v[1], l.end()); if (v[2]) std::reverse(l.begin(), l.end()); list(c, l, v[1] & 1); });
    E.add("affine-list", "lists given directly as affine pairs", {T ? 60ull : 24ull}, [](mc::Ctx& c, const mc::Idx& v) { Pairs l; Z e = 0; for (u64 i = 0; i < v[0]; i++) { Z a((unsigned long)(i + 9)), b((unsigned long)(i * 5 + 1)); l.emplace_back(A(p1(a)), A(p2(b))); e += a * b; } cmp(c, pairing::calculate(l), gtpow(e), [&] { return std::to_string(v[0]) + " affine pairs"; }); });
    E.add("hashed", "pairs of hashed scalars, with the target group closed under products of results", {T ? 1500ull : 120ull}, [](mc::Ctx& c, const mc::Idx& v) { Z a = ref::bytesz(ref::shaB(ref::i2osp(v[0], 4))) % ref::ZR, b = ref::bytesz(ref::shaB(ref::i2osp(v[0] + (1u << 30), 4))) % ref::ZR; list(c, {{a, b, (int)v[0], (int)v[0] / 3}}); Pairs l; put(l, {a, b}); fp12 x = pairing::calculate(l); c.check(x.isGtValid(), "pairing result not in the target group"); fp12 y = x.multiply(pairing::calculate(Pairs{{A(ref::G1()), A(ref::G2())}})); c.op(2); c.check(R(y) == gtpow(a * b + 1), "product of pairings"); });
    // ---- target-group membership
    auto nv = [](const std::string& n, const Fw& x, bool in) { NN.push_back(n); NV.push_back(x); NB.push_back(in); };
    Z p12; mpz_pow_ui(p12.get_mpz_t(), ref::ZP.get_mpz_t(), 12); Z p2 = ref::ZP * ref::ZP, p4 = p2 * p2, p6 = p4 * p2; Fw one = ref::wone(), z = ref::wzero();
    auto rnd = [](int s) { Fw r; for (int i = 0; i < 12; i++) r.c[i] = hfield<Fe>(s * 12 + i + 70000); return r; };
    nv("0", z, false); nv("1", one, true); nv("-1", ref::neg(one), false); for (long k : {2, 3, -2}) { Fw t = z; t.c[0] = ref::fint(k); nv(std::to_string(k), t, false); }
    for (int i = 1; i < 12; i++) { Fw t = z; t.c[i] = ref::FONE; nv("w^" + std::to_string(i), t, false); nv("1+w^" + std::to_string(i), ref::add(one, t), false); }
    { Fw t = z; t.c[0] = ref::raw(1); nv("raw1", t, false); }
    for (int s = 0; s < (T ? 12 : 4); s++) { Fw x = rnd(s); nv("random" + std::to_string(s), x, false); Fw e1 = ref::mul(ref::frob(x, 6), ref::inv(x)); nv("x^(p^6-1)#" + std::to_string(s), e1, false); Fw e2 = ref::mul(ref::frob(e1, 2), e1); nv("cyclotomic#" + std::to_string(s), e2, false); Fw g = ref::wpow(e2, (p4 - p2 + 1) / ref::ZR); nv("x^((p^12-1)/r)#" + std::to_string(s), g, true); Fw cof = ref::wpow(e2, ref::ZR); nv("cyclotomic cofactor#" + std::to_string(s), cof, false); nv("cofactor*Gt#" + std::to_string(s), ref::mul(cof, g), false); nv("conj cyclotomic#" + std::to_string(s), ref::frob(e2, 6), false); nv("-Gt#" + std::to_string(s), ref::neg(g), false); Fw sub = ref::mul(ref::mul(x, ref::frob(x, 4)), ref::frob(x, 8)); nv("Fp4 element#" + std::to_string(s), sub, false); Fw sub6 = ref::mul(x, ref::frob(x, 6)); nv("Fp6 element#" + std::to_string(s), sub6, false);
        // small-order elements and their products with the group
        for (unsigned long l : {2ul, 3ul, 5ul, 7ul, 13ul}) { Z m = p12 - 1; if (m % l != 0) continue; Z q = m; while (q % l == 0) q /= l; Fw y = ref::wpow(x, q); if (y == one) continue; for (;;) { Fw y2 = ref::wpow(y, l); if (y2 == one) break; y = y2; } nv("order " + std::to_string(l) + "#" + std::to_string(s), y, false); nv("order " + std::to_string(l) + "*Gt#" + std::to_string(s), ref::mul(y, g), false); } }
    for (auto& e : SA) nv("gt^" + S(e), gtpow(e), true); for (int k = 0; k < 12; k++) nv("frob^" + std::to_string(k) + " gt", ref::frob(gtpow(h), k), true);
    { Fw g = gtpow(h); for (int i = 0; i < 12; i++) { Fw t = g; t.c[i] = ref::add(t.c[i], ref::FONE); nv("gt+1 at " + std::to_string(i), t, false); t = g; t.c[i] = ref::neg(t.c[i]); nv("gt negated at " + std::to_string(i), t, false); t = g; t.c[i] = ref::fzero(); nv("gt zeroed at " + std::to_string(i), t, false); } }
    E.add("membership", "target-group test on group elements, cyclotomic and cofactor elements, small orders, subfields, perturbations, zero", {NV.size()}, [](mc::Ctx& c, const mc::Idx& v) { Fw x = NV[v[0]]; bool w = ref::wpow(x, ref::ZR) == ref::wone(); c.check(w == NB[v[0]], "reference classification of " + NN[v[0]]); fp12 a = L12(x), a0 = a; c.op(1); if (c.verbose) c.note = NN[v[0]]; c.check(a.isGtValid() == w, [&] { return "isGtValid wrong for " + NN[v[0]] + " = " + S(x); }); c.check(bits(a, a0), "isGtValid modified its input"); c.state(H(x)); });
    return E.run();
}
