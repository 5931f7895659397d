// Group-law exploration, shared by C06 (G1) and C07 (G2).
#include "lib.hpp"
using namespace lx;
template<class F> struct Law {
    typedef ref::Pt<F> P; typedef typename GTr<F>::G G; static inline std::vector<NP<F>> V; static inline std::vector<F> ZS, NZ; static inline std::vector<P> TAB;
    static std::string nm() { return GTr<F>::nm(); }
    static bool ok(mc::Ctx& c, const char* op, const G& got, const P& want, const std::function<std::string()>& in) { c.op(); if (same(got, want) && canon(got)) return true; c.fail(nm() + " " + op + " wrong on " + in() + ": got " + S(R(got)) + " want " + S(want)); return false; }
    static void binary(mc::Ctx& c, const P& p, const P& q, const G& a, const G& b, const std::function<std::string()>& in) {
        G a0 = a, b0 = b, t; P s = ref::add(p, q), d = ref::add(p, ref::neg(q));
        ok(c, "add", a.add(b), s, in); t = a; t.addAssign(b); ok(c, "addAssign", t, s, in); ok(c, "subtract", a.subtract(b), d, in); t = a; t.subtractAssign(b); ok(c, "subtractAssign", t, d, in);
        bool e = ref::eq(p, q); c.check(a.equal(b) == e, [&] { return nm() + " equal wrong on " + in(); }); c.check(bits(a, a0) && bits(b, b0), [&] { return nm() + " operand modified by binary operation on " + in(); });
        c.check(a.add(b).equal(b.add(a)), [&] { return nm() + " add not commutative (equal) on " + in(); }); c.state(H(s));
    }
    static void unary(mc::Ctx& c, const P& p, const G& a, const std::function<std::string()>& in) {
        G a0 = a, t; P d = ref::dblp(p); bool inf = ref::isinf(p);
        ok(c, "dbl", a.dbl(), d, in); t = a; t.doubleAssign(); ok(c, "doubleAssign", t, d, in); ok(c, "negate", a.negate(), ref::neg(p), in); ok(c, "copy", G(a), p, in);
        t = a; t.addAssign(t); ok(c, "addAssign self", t, d, in); t = a; t.subtractAssign(t); ok(c, "subtractAssign self", t, ref::pinf<F>(), in); t = a; t = t.add(t); ok(c, "add self", t, d, in); t = a; t = t.negate(); ok(c, "negate self", t, ref::neg(p), in);
        c.check(a.isZero() == inf, [&] { return nm() + " isZero wrong on " + in(); }); c.check(a.isAffine() == (R(a.z) == ref::Crv<F>::one()), [&] { return nm() + " isAffine wrong on " + in(); });
        G f = a.affine(); ok(c, "affine", f, p, in); if (!inf) c.check(f.isAffine() && R(f.x) == ref::norm(p).x && R(f.y) == ref::norm(p).y, [&] { return nm() + " affine form wrong on " + in(); }); t = a; t = t.affine(); ok(c, "affine self", t, p, in);
        c.check(a.equal(a) && a.equal(f) && f.equal(a), [&] { return nm() + " equal to own affine form wrong on " + in(); }); c.check(bits(a, a0), [&] { return nm() + " operand modified on " + in(); });
        ok(c, "zero", G::zero(), ref::pinf<F>(), in); ok(c, "one", G::one(), GTr<F>::gen(), in); ok(c, "default", G(), ref::pinf<F>(), in); c.state(H(p));
    }
    static int run(int argc, char** argv) {
        mc::Explorer E; E.parse(argc, argv); ref::selftest(); bool T = E.thorough(); V = points<F>(T ? 2 : 1); ZS = zreps<F>(T ? 1 : 0); size_t K = std::max<size_t>(ZS.size(), 6), n = V.size();
        E.add("unary", "every named point (infinity, subgroup, twist-torsion, full-order, equal-y and small-x points) in every representative: double, negate, affine, aliases", {n, K}, [](mc::Ctx& c, const mc::Idx& v) { auto in = [&] { return V[v[0]].n + " rep " + std::to_string(v[1]); }; unary(c, V[v[0]].p, rep<F>(V[v[0]].p, v[1], ZS), in); if (c.verbose) c.note = in(); });
        E.add("binary", "all ordered pairs of named points in all pairs of representatives: add, subtract, both in-place forms, equality", {n, n, K, K}, [](mc::Ctx& c, const mc::Idx& v) { auto in = [&] { return V[v[0]].n + " rep " + std::to_string(v[2]) + ", " + V[v[1]].n + " rep " + std::to_string(v[3]); }; binary(c, V[v[0]].p, V[v[1]].p, rep<F>(V[v[0]].p, v[2], ZS), rep<F>(V[v[1]].p, v[3], ZS), in); if (c.verbose) c.note = in(); });
        NZ = nearz<F>();
        E.add("near-one-z", "points in representatives whose z coordinate is close to one or to zero word by word: every unary operation, and every binary operation with the same point, its negative and another point in an affine and an unstructured representative", {T ? std::min<size_t>(n, 40) : 6, NZ.size()}, [](mc::Ctx& c, const mc::Idx& v) {
            static const int pick[] = {1, 9, 13, 18, 16, 10}; size_t i = v[0] < 6 ? pick[v[0]] : v[0]; P p = V[i].p; if (ref::isinf(p)) return; G a = J(p, NZ[v[1]]); auto in = [&] { return V[i].n + " z " + S(NZ[v[1]]); };
            unary(c, p, a, in); P other = ref::isinf(ref::add(p, ref::neg(V[9].p))) ? V[1].p : V[9].p; G aff = rep<F>(p, 0, ZS), prev = J(p, NZ[(v[1] + 1) % NZ.size()]);
            binary(c, p, p, a, aff, in); binary(c, p, p, aff, a, in); binary(c, p, p, a, prev, in); binary(c, p, ref::neg(p), a, rep<F>(ref::neg(p), 0, ZS), in); binary(c, p, other, a, rep<F>(other, 0, ZS), in); binary(c, other, p, rep<F>(other, 3, ZS), a, in); binary(c, p, ref::pinf<F>(), a, G::zero(), in); binary(c, ref::pinf<F>(), p, G::zero(), a, in); });
        // complete addition table of a small cyclic subgroup
        auto pr = GTr<F>::primes(); unsigned long N = pr[0] * pr[1]; P g = ref::add(torsion<F>(pr[0], 0), torsion<F>(pr[1], 7)); { P x = ref::pinf<F>(); for (unsigned long i = 0; i < N; i++) { TAB.push_back(ref::norm(x)); x = ref::add(x, g); } if (!ref::isinf(x)) throw std::runtime_error("ref: torsion order"); }
        E.add("addition-table", "complete addition/subtraction/equality table of the cyclic subgroup of order " + std::to_string(N), {N, N, T ? 4ull : 1ull}, [N](mc::Ctx& c, const mc::Idx& v) { auto in = [&] { return std::to_string(v[0]) + "T, " + std::to_string(v[1]) + "T rep " + std::to_string(v[2]); }; G a = rep<F>(TAB[v[0]], (v[0] + v[2]) % 5, ZS), b = rep<F>(TAB[v[1]], (v[0] * 2 + v[1] + v[2]) % 5, ZS); const P &s = TAB[(v[0] + v[1]) % N], &d = TAB[(v[0] + N - v[1]) % N]; ok(c, "add", a.add(b), s, in); ok(c, "subtract", a.subtract(b), d, in); c.check(a.equal(b) == (v[0] == v[1]), [&] { return nm() + " equal wrong on " + in(); }); c.state(mc::mix(v[0], v[1])); });
        // two-register machine
        std::vector<uint64_t> dims = {T ? 12ull : 8ull, T ? 12ull : 8ull}; for (int i = 0; i < (T ? 5 : 4); i++) dims.push_back(9);
        E.add("sequences", "all operation sequences of a two-register machine over points", dims, [](mc::Ctx& c, const mc::Idx& v) {
            static const int pick[] = {0, 1, 2, 6, 18, 13, 4, 9, 20, 15, 3, 22}; P m = V[pick[v[0]]].p, n = V[pick[v[1]]].p; G a = rep<F>(m, 3, ZS), b = rep<F>(n, 0, ZS);
            for (size_t i = 2; i < v.size(); i++) { switch (v[i]) { case 0: a.addAssign(b); m = ref::add(m, n); break; case 1: a.subtractAssign(b); m = ref::add(m, ref::neg(n)); break; case 2: a.doubleAssign(); m = ref::dblp(m); break; case 3: a = a.negate(); m = ref::neg(m); break; case 4: std::swap(a, b); std::swap(m, n); break; case 5: a = a.affine(); break; case 6: b = a; n = m; break; case 7: a.addAssign(a); m = ref::dblp(m); break; case 8: b = b.add(a); n = ref::add(n, m); break; }
                c.op(); if (!same(a, m) || !same(b, n)) { c.fail(nm() + " sequence diverges after step " + std::to_string(i - 1) + " op " + std::to_string(v[i])); return; } c.check(a.equal(b) == ref::eq(m, n), [&] { return nm() + " equal wrong in sequence at step " + std::to_string(i - 1); }); }
            c.state(mc::mix(H(m), H(n))); });
        return E.run();
    }
};
