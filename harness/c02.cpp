// C02: every arithmetic back end computes the same (exact) results.
#include "lib.hpp"
#include "shim.hpp"
using namespace lx;
static std::vector<Fe> A2, A1; static std::vector<Z> ANY;
static const Backend* BE[2] = {&nat_backend, &port_backend};
static const char* BN[] = {"add", "subtract", "multiply", "ladd", "lsubtract"}; static const char* UN[] = {"double", "negate", "square", "ldouble", "inverse", "sqrt"};
static const char* KN[] = {"Add64", "Sub64", "Mul64", "madd", "madd0", "madd1", "madd2", "madd2s", "madd1s", "madd2sb", "madd1sb", "madd3"};
static const char* HN[] = {"fp2", "fp6", "fp12", "g1", "g2", "hash-to-curve", "pairing", "signatures", "weighted sums", "wide integers"};
static const Z M384 = Z(1) << 384;
static Z z6(const u64* p) { return ref::zfrom(p, 6); }
static void both2(mc::Ctx& c, int op, int al, const Z& x, const Z& y, const Z& want) {
    u64 a[6], b[6], r[6]; ref::zto(x, a, 6); ref::zto(y, b, 6);
    for (auto* be : BE) { be->bin(op, al, r, a, b); c.check(z6(r) == want, [&] { return std::string(be->name) + BN[op] + " alias " + std::to_string(al) + ": x=" + S(x) + " y=" + S(y) + " got=" + S(z6(r)) + " want=" + S(want); }); }
    c.state(H(want));
}
static void both1(mc::Ctx& c, int op, int al, const Z& x, const Z& want) {
    u64 a[6], r[6]; ref::zto(x, a, 6);
    for (auto* be : BE) { be->un(op, al, r, a); c.check(z6(r) == want, [&] { return std::string(be->name) + UN[op] + " alias " + std::to_string(al) + ": x=" + S(x) + " got=" + S(z6(r)) + " want=" + S(want); }); }
    c.state(H(want));
}
static void pair(mc::Ctx& c, const Fe& x, const Fe& y) {
    Z a = ref::rawz(x), b = ref::rawz(y); bool eq = a == b;
    for (int al = 0; al < 5; al++) { if (al >= 3 && !eq) continue;
        both2(c, B_ADD, al, a, b, (a + b) % ref::ZP); both2(c, B_SUB, al, a, b, ref::zmod(a - b, ref::ZP)); both2(c, B_MUL, al, a, b, ref::rawz(ref::mul(x, y)));
        both2(c, B_LADD, al, a, b, a + b); both2(c, B_LSUB, al, a, b, ref::zmod(a - b, M384)); }
}
static void single(mc::Ctx& c, const Fe& x) {
    Z a = ref::rawz(x);
    for (int al = 0; al < 2; al++) { both1(c, U_DBL, al, a, 2 * a % ref::ZP); both1(c, U_NEG, al, a, ref::zmod(-a, ref::ZP)); both1(c, U_SQR, al, a, ref::rawz(ref::sqr(x))); both1(c, U_LDBL, al, a, 2 * a); both1(c, U_INV, al, a, ref::rawz(ref::inv(x))); }
    Fe s; bool q = ref::fsqrt(x, s); u64 r[2][6]; for (int k = 0; k < 2; k++) BE[k]->un(U_SQRT, 0, r[k], x.d); c.check(!memcmp(r[0], r[1], 48), [&] { return "sqrt differs between back ends at " + S(x); });
    Fe g; memcpy(g.d, r[0], 48); c.check(q ? ref::sqr(g) == x : g.isz(), [&] { return "sqrt wrong at " + S(x); });
}
static std::vector<u64> W5, W3;
static bool carry_ref(int op, const u64* i, Z* o) {   // false: outside the helper's contract
    auto z = [](u64 v) { return Z((unsigned long)v); }; Z B = Z(1) << 64, v; int n = CARRY_OUT[op]; Z lim = Z(1) << (64 * n);
    switch (op) {
        case K_ADD64: if (i[2] > 1) return false; v = z(i[0]) + z(i[1]) + z(i[2]); o[0] = v % B; o[1] = v / B; return true;
        case K_SUB64: { if (i[2] > 1) return false; v = z(i[0]) - z(i[1]) - z(i[2]); o[1] = v < 0 ? 1 : 0; o[0] = ref::zmod(v, B); return true; }
        case K_MUL64: v = z(i[0]) * z(i[1]); break;
        case K_MADD: v = z(i[0]) * z(i[1]) + (z(i[2]) << 128) + (z(i[3]) << 64) + z(i[4]); break;
        case K_MADD0: v = (z(i[0]) * z(i[1]) + z(i[2])) >> 64; break;
        case K_MADD1: v = z(i[0]) * z(i[1]) + z(i[2]); break;
        case K_MADD2: v = z(i[0]) * z(i[1]) + z(i[2]) + z(i[3]); break;
        case K_MADD2S: v = 2 * z(i[0]) * z(i[1]) + z(i[2]) + (z(i[3]) << 64) + z(i[4]); break;
        case K_MADD1S: v = 2 * z(i[0]) * z(i[1]) + (z(i[2]) << 64) + z(i[3]); break;
        case K_MADD2SB: v = 2 * z(i[0]) * z(i[1]) + z(i[2]) + z(i[3]); break;
        case K_MADD1SB: v = 2 * z(i[0]) * z(i[1]) + z(i[2]); break;
        case K_MADD3: v = z(i[0]) * z(i[1]) + z(i[2]) + z(i[3]) + (z(i[4]) << 64); break;
    }
    if ((op == K_MADD2S && i[3] > 1) || (op == K_MADD1S && i[2] > 1)) return false;   // d is a carry bit
    if (v >= lim) return false;
    for (int k = n - 1; k >= 0; k--) { o[k] = v % B; v /= B; }
    return true;
}
static void carryc(mc::Ctx& c, int op, const u64* in) {
    Z want[3]; if (!carry_ref(op, in, want)) return; u64 got[3];
    for (auto* be : BE) { be->carry(op, in, got); for (int k = 0; k < CARRY_OUT[op]; k++) c.check(Z((unsigned long)got[k]) == want[k], [&] { std::string s = std::string(be->name) + KN[op] + "("; for (int j = 0; j < CARRY_ARITY[op]; j++) s += (j ? "," : "") + mc::hex(&in[j], 8); return s + ") (little-endian words) result word " + std::to_string(k) + " got " + S(Z((unsigned long)got[k])) + " want " + S(want[k]); }); c.state(mc::mix(got[0], op)); }
}
int main(int argc, char** argv) {
    mc::Explorer E; E.parse(argc, argv); ref::selftest(); bool T = E.thorough();
    for (auto& z : raw_alphabet(2)) A2.push_back(ref::raw(z)); for (auto& z : raw_alphabet(1)) A1.push_back(ref::raw(z));
    W5 = {0, 1, 2, ~0ULL, ~0ULL - 1, 1ULL << 63, (1ULL << 63) - 1, (1ULL << 63) + 1, 0xffffffffULL, 1ULL << 32, 0xb9feffffffffaaabULL, 0x89f3fffcfffcfffdULL}; W3 = W5;
    if (T) for (int i = 1; i < 64; i += 7) { W5.push_back(1ULL << i); W5.push_back(~0ULL << i); } for (int i = 0; i < 64; i++) { W3.push_back(1ULL << i); W3.push_back((1ULL << i) - 1); W3.push_back(~0ULL << i); }
    const auto& AP = T ? A2 : A1;
    E.add("pairs", "every ordered pair of structured raw values, all alias patterns, both back ends against the integer result", {A1.size(), AP.size()}, [&AP](mc::Ctx& c, const mc::Idx& v) { pair(c, A1[v[0]], AP[v[1]]); if (c.verbose) c.note = "x=" + S(A1[v[0]]) + " y=" + S(AP[v[1]]); });
    E.add("carry-boundary", "y = p-x+d, x+d, and x+y on limb boundaries: borrow and carry through all-ones limbs", {A2.size(), 9, 5}, [](mc::Ctx& c, const mc::Idx& v) { Z x = ref::rawz(A2[v[0]]), d = Z((long)v[2] - 2), y; if (v[1] < 6) y = (Z(1) << (64 * v[1])) - x + d; else if (v[1] == 6) y = x + d; else if (v[1] == 7) y = ref::ZP - x + d; else y = x - (Z(1) << 64) + d; pair(c, A2[v[0]], ref::raw(ref::zmod(y, ref::ZP))); if (c.verbose) c.note = "x=" + S(x) + " y=" + S(ref::zmod(y, ref::ZP)); });
    E.add("single", "every structured raw value: one-operand operations, both back ends", {A2.size()}, [](mc::Ctx& c, const mc::Idx& v) { single(c, A2[v[0]]); if (c.verbose) c.note = "x=" + S(A2[v[0]]); });
    E.add("unreduced-products", "products of operands up to 2p (sums of two structured values)", {A1.size(), A1.size()}, [](mc::Ctx& c, const mc::Idx& v) { size_t n = A1.size(); Z a = ref::rawz(A1[v[0]]) + ref::rawz(A1[v[1]]), b = ref::rawz(A1[(v[0] * 3 + v[1]) % n]) + ref::rawz(A1[(v[1] * 5 + 1) % n]); both2(c, B_MUL, (int)(v[1] % 3), a, b, a * b * ref::ZRINV % ref::ZP); both1(c, U_SQR, (int)(v[0] % 2), a, a * a * ref::ZRINV % ref::ZP); });
    static std::vector<Z> any; for (auto& z : raw_alphabet(1, M384)) any.push_back(z); for (auto& z : raw_alphabet(0)) any.push_back(M384 - 1 - z); uniq(any);
    E.add("raw-wraparound", "non-reducing add, subtract and double on arbitrary 384-bit patterns (result modulo 2^384)", {any.size(), any.size()}, [](mc::Ctx& c, const mc::Idx& v) { Z a = any[v[0]], b = any[v[1]]; for (int al = 0; al < 3; al++) { both2(c, B_LADD, al, a, b, (a + b) % M384); both2(c, B_LSUB, al, a, b, ref::zmod(a - b, M384)); } if (v[1] == 0) both1(c, U_LDBL, 0, a, 2 * a % M384); });
    for (int op = 0; op < K_N; op++) {
        const auto& Wd = CARRY_ARITY[op] <= 3 ? W3 : W5; std::vector<uint64_t> d((size_t)CARRY_ARITY[op], Wd.size()); if (op == K_ADD64 || op == K_SUB64) d[2] = 2;
        if (CARRY_ARITY[op] == 5 && !T) for (auto& k : d) k = 9;
        E.add(std::string("word-") + KN[op], "all argument tuples over structured 64-bit words", d, [op, &Wd](mc::Ctx& c, const mc::Idx& v) { u64 in[5]; for (size_t k = 0; k < v.size(); k++) in[k] = (op <= K_SUB64 && k == 2) ? v[k] : Wd[v[k]]; carryc(c, op, in); });
    }
    E.add("library", "whole-library computations (towers, curves, maps, pairing, signatures, sums) byte-identical under both back ends", {H_N, T ? 4000ull : 160ull}, [](mc::Ctx& c, const mc::Idx& v) {
        static u8 o[2][8192]; size_t n[2]; for (int k = 0; k < 2; k++) n[k] = BE[k]->high((int)v[0], v[1], o[k], sizeof o[k]);
        c.check(n[0] == n[1] && !memcmp(o[0], o[1], n[0]), [&] { size_t i = 0; while (i < n[0] && o[0][i] == o[1][i]) i++; return std::string("back ends disagree on ") + HN[v[0]] + " input " + std::to_string(v[1]) + " at result byte " + std::to_string(i) + " of " + std::to_string(n[0]); });
        c.op(n[0] / 48); c.state(mc::hash_bytes(o[0], n[0])); if (c.verbose) c.note = std::string(HN[v[0]]) + " input " + std::to_string(v[1]) + " result hash " + std::to_string(mc::hash_bytes(o[0], n[0])); });
    return E.run();
}
