// C15: key generation, child-key derivation, secret-key parsing.
#include "lib.hpp"
using namespace lx;
typedef std::array<u64, 4> SK;
static std::string hx(const Bytes& b) { return mc::hex(b.data(), b.size()); }
static Bytes content(size_t n, int kind) { Bytes b(n, kind == 1 ? 0xff : 0); if (kind == 2) for (size_t i = 0; i < n; i += 32) { Bytes h = ref::shaB(ref::i2osp(i + 17, 4)); for (size_t j = 0; j < 32 && i + j < n; j++) b[i + j] = h[j]; } if (kind == 3) for (size_t i = 0; i < n; i++) b[i] = (u8)(i + 1); return b; }
static std::vector<Z> KEYS, ALLS; static std::vector<uint32_t> IDX, IDS; static std::vector<NP<Fe>> P1s; static std::vector<NP<F2>> P2s; static std::vector<Fe> Z1; static std::vector<F2> Z2;
// ---- models
template<class F> static Z nonce(const ref::Pt<F>& pk, uint32_t i) { return ref::bytesz(ref::shaB(ref::cat({ref::compress(pk), ref::i2osp(i, 4)}))) % ref::ZR; }
static Z child_sk(const Z& sk, uint32_t i) { return (sk + nonce<Fe>(ref::smul(ref::G1(), sk), i)) % ref::ZR; }
template<class F> static ref::Pt<F> child_pk(const ref::Pt<F>& pk, uint32_t i) { return ref::norm(ref::add(pk, ref::smul(GTr<F>::gen(), nonce<F>(pk, i)))); }
static void seed(mc::Ctx& c, const Bytes& s) {
    Bytes s0 = s; SK k = B::secret_key(s); c.op(1); auto in = [&] { return "secret_key seed_len=" + std::to_string(s.size()) + " seed=" + hx(s).substr(0, 140); }; if (c.verbose) c.note = in();
    Z w = s.size() < 32 ? Z(0) : ref::keygen(s); c.check(ZW(k) == w, [&] { return in() + ": got " + S(ZW(k)) + " want " + S(w); }); c.check(s == s0, "secret_key modified the seed"); c.check(s.size() < 32 || (w > 0 && w < ref::ZR), "reference out of range"); c.state(H(w));
}
static void hard(mc::Ctx& c, const Z& p, uint32_t i) {
    auto in = [&] { return "parent=" + S(p) + " index=" + std::to_string(i); }; if (c.verbose) c.note = in(); SK k = W<4>(p), k0 = k; u8 pk[96]; memset(pk, 0x77, 96);
    B::parent_sk_to_lamport_pk(pk + 32, k, i); c.op(1); Bytes w = ref::lamport_pk(p, i); c.check(!memcmp(pk + 32, w.data(), 32), [&] { return "lamport public key " + in(); }); for (int j = 0; j < 96; j++) if ((j < 32 || j >= 64) && pk[j] != 0x77) c.fail("lamport public key: wrote outside the output, " + in());
    SK d = B::derive_child_sk(k, i); c.op(1); Z wd = ref::keygen(w); c.check(ZW(d) == wd, [&] { return "derive_child_sk " + in() + ": got " + S(ZW(d)) + " want " + S(wd); }); c.check(k == k0, "input modified"); c.state(H(wd));
}
static void lam(mc::Ctx& c, const Bytes& ikm, const Bytes& salt) {
    static thread_local Bytes o; o.assign(8160 + 64, 0x5b); B::ikm_to_lamport_sk(o.data() + 32, ikm.data(), ikm.size(), salt.data(), salt.size()); c.op(1); Bytes w = ref::hkdf(salt, ikm, {}, 8160);
    auto in = [&] { return "ikm_to_lamport_sk ikm_len=" + std::to_string(ikm.size()) + " salt_len=" + std::to_string(salt.size()); }; if (c.verbose) c.note = in(); c.check(!memcmp(o.data() + 32, w.data(), 8160), [&] { return in() + " differs"; }); for (int j = 0; j < 32; j++) c.check(o[j] == 0x5b && o[8192 + j] == 0x5b, [&] { return in() + " wrote outside the output"; }); c.state(H(w));
}
static void unh(mc::Ctx& c, const Z& p, uint32_t i) {
    auto in = [&] { return "parent=" + S(p) + " index=" + std::to_string(i); }; if (c.verbose) c.note = in(); SK k = W<4>(p), k0 = k;
    SK d = B::derive_child_sk_unhardened(k, i); c.op(1); Z w = child_sk(p, i); c.check(ZW(d) == w, [&] { return "derive_child_sk_unhardened " + in() + ": got " + S(ZW(d)) + " want " + S(w); });
    g1 pk = B::public_key(k), ch = B::derive_child_g1_unhardened(pk, i); c.op(2); P1 wp = ref::smul(ref::G1(), w); c.check(same(ch, wp), [&] { return "derive_child_g1_unhardened " + in() + " differs from the public key of the derived secret"; }); c.check(ch.equal(B::public_key(d)), [&] { return "public_key does not commute with derivation, " + in(); }); c.check(k == k0, "input modified"); c.state(H(w));
}
template<class F> static void unhp(mc::Ctx& c, const typename GTr<F>::G& a, const ref::Pt<F>& p, uint32_t i, const std::string& n) {
    typedef typename GTr<F>::G G; G a0 = a; G r; if constexpr (std::is_same_v<F, Fe>) r = B::derive_child_g1_unhardened(a, i); else r = B::derive_child_g2_unhardened(a, i); c.op(1); ref::Pt<F> w = child_pk<F>(p, i);
    auto in = [&] { return std::string(GTr<F>::nm()) + " unhardened child of " + n + " index " + std::to_string(i); }; if (c.verbose) c.note = in(); c.check(same(r, w) && canon(r), [&] { return in() + ": got " + S(r) + " want " + S(w); }); c.check(bits(a, a0), "input modified"); c.state(H(w));
}
static void parse(mc::Ctx& c, const Z& v) {
    Bytes b = ref::zbytes(v, 32); std::array<u8, 32> a; memcpy(a.data(), b.data(), 32); auto a0 = a; auto in = [&] { return "sk bytes " + hx(b); }; if (c.verbose) c.note = in();
    SK s = B::sk_from_bytes(a), m = B::sk_from_bytes(a, true), f = B::sk_from_bytes(a, false); c.op(3); Z w = v < ref::ZR ? v : Z(0), wm = v % ref::ZR; c.check(ZW(s) == w && s == f, [&] { return in() + ": strict parse got " + S(ZW(s)); }); c.check(ZW(m) == wm, [&] { return in() + ": residue got " + S(ZW(m)) + " want " + S(wm); });
    auto o = B::sk_to_bytes(W<4>(v)); c.op(1); c.check(o == a, [&] { return in() + ": sk_to_bytes differs"; }); c.check(a == a0, "input modified"); c.state(H(v));
}
static void pub(mc::Ctx& c, const Z& v) { SK k = W<4>(v), k0 = k; g1 p = B::public_key(k); c.op(1); P1 w = ref::smul(ref::G1(), v); auto in = [&] { return "public_key " + S(v); }; if (c.verbose) c.note = in(); c.check(same(p, w) && canon(p), [&] { return in() + ": got " + S(p) + " want " + S(w); }); c.check(ref::isinf(w) || R(p.z) == ref::FONE, [&] { return in() + ": not in affine form"; }); c.check(k == k0, "input modified"); c.state(H(w)); }
int main(int argc, char** argv) {
    mc::Explorer E; E.parse(argc, argv); ref::selftest(); bool T = E.thorough();
    E.add("seed-length", "every seed length 0..N with four contents (31 and below give the zero key)", {T ? 9000ull : 1500ull, 4}, [](mc::Ctx& c, const mc::Idx& v) { seed(c, content(v[0], v[1])); });
    static std::vector<size_t> PL; for (int k = 10; k <= (T ? 26 : 22); k++) for (long d : {-65l, -9l, -1l, 0l, 1l, 3l * k}) PL.push_back((1ul << k) + d);
    E.add("seed-long", "seed lengths around powers of two", {PL.size(), 2}, [](mc::Ctx& c, const mc::Idx& v) { seed(c, content(PL[v[0]], 2 + v[1])); }, 60);
    E.add("seed-bytes", "every byte value at every position of 32- and 33-byte seeds", {33, 256}, [](mc::Ctx& c, const mc::Idx& v) { Bytes s = content(33, 2); s[v[0]] = v[1]; seed(c, s); if (v[0] < 32) { s.resize(32); seed(c, s); } });
    E.add("seed-small", "32-byte big- and little-endian counters", {T ? 40000ull : 4000ull}, [](mc::Ctx& c, const mc::Idx& v) { Bytes s = ref::i2osp(v[0], 32); seed(c, s); std::reverse(s.begin(), s.end()); seed(c, s); });
    ALLS = scalar_alphabet(T ? 2 : 1); for (auto& z : ALLS) if (z < ref::ZR) KEYS.push_back(z);
    for (uint32_t i : {0u, 1u, 2u, 3u, 127u, 128u, 255u, 256u, 257u, 65535u, 65536u, 65537u, 0xffffffu, 0x1000000u, 0x7fffffffu, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu, 0x01020304u, 0x04030201u, 12142u, 42u}) IDX.push_back(i); for (int i = 0; i < 32; i++) IDX.push_back(1u << i); { std::vector<uint32_t> o; for (auto i : IDX) if (std::find(o.begin(), o.end(), i) == o.end()) o.push_back(i); IDX = o; }
    IDS = {0, 1, 255, 256, 0x01020304, 0x80000000u, 0xffffffffu};
    static std::vector<Z> K8 = {0, 1, 2, ref::ZR - 1, ref::ZR - 2, Z(1) << 254, (Z(1) << 64) - 1, ref::bytesz(ref::shaB(ref::str("k"))) % ref::ZR};
    E.add("hardened-index", "indices (every single bit, every byte boundary) x parents", {T ? KEYS.size() : K8.size(), IDX.size()}, [T](mc::Ctx& c, const mc::Idx& v) { hard(c, (T ? KEYS : K8)[v[0]], IDX[v[1]]); });
    E.add("hardened-parents", "boundary parents x indices", {KEYS.size(), T ? IDS.size() : 2}, [](mc::Ctx& c, const mc::Idx& v) { hard(c, KEYS[v[0]], IDS[v[1] * 4 % 7]); });
    E.add("hardened-small", "small indices", {T ? 3000ull : 300ull}, [](mc::Ctx& c, const mc::Idx& v) { hard(c, K8[7], v[0]); });
    E.add("hardened-paths", "every derivation path up to depth 3 (4) over an index alphabet, each step compared", {IDS.size(), IDS.size(), T ? IDS.size() : 3}, [T](mc::Ctx& c, const mc::Idx& v) { Z w = K8[7]; SK s = W<4>(w); std::vector<uint32_t> p = {IDS[v[0]], IDS[v[1]], IDS[v[2] * 2 % 7]}; if (T) p.push_back(IDS[(v[0] + v[1] + v[2]) % 7]); for (auto i : p) { s = B::derive_child_sk(s, i); w = ref::derive_child(w, i); c.op(1); c.state(H(w)); c.check(ZW(s) == w, [&] { return "path " + std::to_string(p[0]) + "/" + std::to_string(p[1]) + "/" + std::to_string(p[2]) + " differs"; }); } });
    E.add("lamport", "input-key and salt lengths", {T ? 140ull : 70ull, 9}, [](mc::Ctx& c, const mc::Idx& v) { static const size_t s[] = {0, 1, 4, 20, 32, 63, 64, 65, 100}; lam(c, content(v[0], 2), content(s[v[1]], 3)); });
    E.add("unhardened-keys", "boundary secret keys below the order x indices", {KEYS.size(), T ? IDX.size() : 4}, [T](mc::Ctx& c, const mc::Idx& v) { unh(c, KEYS[v[0]], T ? IDX[v[1]] : IDS[v[1] * 2]); });
    E.add("unhardened-index", "indices x parents", {K8.size(), IDX.size()}, [](mc::Ctx& c, const mc::Idx& v) { unh(c, K8[v[0]], IDX[v[1]]); });
    E.add("unhardened-small", "small indices", {T ? 5000ull : 500ull}, [](mc::Ctx& c, const mc::Idx& v) { unh(c, K8[7], v[0]); });
    P1s = points<Fe>(T ? 2 : 1); P2s = points<F2>(T ? 2 : 1); Z1 = zreps<Fe>(1); Z2 = zreps<F2>(1);
    E.add("unhardened-g1", "named parent points (infinity included) in every representative x indices", {P1s.size(), std::max<size_t>(6, Z1.size()), T ? IDX.size() : 3}, [T](mc::Ctx& c, const mc::Idx& v) { unhp<Fe>(c, rep<Fe>(P1s[v[0]].p, v[1], Z1), P1s[v[0]].p, T ? IDX[v[2]] : IDS[v[2] * 3], P1s[v[0]].n + " rep " + std::to_string(v[1])); });
    E.add("unhardened-g2", "named parent points (infinity included) in every representative x indices", {P2s.size(), std::max<size_t>(6, Z2.size()), T ? IDX.size() : 3}, [T](mc::Ctx& c, const mc::Idx& v) { unhp<F2>(c, rep<F2>(P2s[v[0]].p, v[1], Z2), P2s[v[0]].p, T ? IDX[v[2]] : IDS[v[2] * 3], P2s[v[0]].n + " rep " + std::to_string(v[1])); });
    E.add("unhardened-g2-index", "every index of the alphabet for the G2 generator and a hashed point", {2, IDX.size()}, [](mc::Ctx& c, const mc::Idx& v) { auto& q = P2s[v[0] ? 9 : 1]; unhp<F2>(c, A(q.p), q.p, IDX[v[1]], q.n); });
    // every path over hardened and unhardened steps, secret and public side in lockstep; public side in changing representations
    E.add("mixed-paths", "every path of hardened and unhardened steps to depth 4 (6) over two indices, secret and public side in lockstep", {T ? 4096ull : 256ull, 2}, [T](mc::Ctx& c, const mc::Idx& v) { Z w = K8[v[1] ? 3 : 7]; SK s = W<4>(w); g1 p = B::public_key(s); u64 t = v[0]; for (int d = 0; d < (T ? 6 : 4); d++, t /= 4) { uint32_t i = t & 1 ? 0x01020304u : 0x80000000u; bool h = t & 2; if (h) { s = B::derive_child_sk(s, i); w = ref::derive_child(w, i); p = B::public_key(s); } else { s = B::derive_child_sk_unhardened(s, i); w = child_sk(w, i); p = B::derive_child_g1_unhardened(p, i); } c.op(2); c.state(H(w)); P1 wp = ref::smul(ref::G1(), w); if (!c.check(ZW(s) == w && same(p, wp), [&] { return "path " + std::to_string(v[0]) + " differs at depth " + std::to_string(d); })) return; p = J(wp, Z1[d % Z1.size()]); } });
    { static std::vector<Z> PV = scalar_alphabet(2); for (long d = -300; d <= 300; d++) { PV.push_back(ref::ZR + d); PV.push_back(ref::zmod(2 * ref::ZR + d, Z(1) << 256)); if (d >= 0) { PV.push_back(Z(d)); PV.push_back((Z(1) << 256) - 1 - d); } } u64 r[4]; ref::zto(ref::ZR, r, 4); for (int m = 0; m < 256; m++) { u64 d[4]; for (int i = 0; i < 4; i++) { int k = (m >> (2 * i)) & 3; d[i] = k == 0 ? r[i] : k == 1 ? r[i] + 1 : k == 2 ? r[i] - 1 : ~0ull; } PV.push_back(ref::zfrom(d, 4)); } uniq(PV);
      E.add("parse", "256-bit integers: boundary words, every word combination around the group order, everything within 300 of 0, r, 2r, 2^256", {PV.size()}, [](mc::Ctx& c, const mc::Idx& v) { parse(c, PV[v[0]]); }); }
    E.add("parse-bytes", "every byte value at every position over zeros, ones and the order", {3, 32, 256}, [](mc::Ctx& c, const mc::Idx& v) { Bytes b = v[0] == 0 ? Bytes(32, 0) : v[0] == 1 ? Bytes(32, 0xff) : ref::zbytes(ref::ZR, 32); b[v[1]] = v[2]; parse(c, ref::bytesz(b)); });
    E.add("public-key", "boundary secret keys (also at and above the order)", {ALLS.size()}, [](mc::Ctx& c, const mc::Idx& v) { pub(c, ALLS[v[0]]); });
    E.add("public-key-small", "small secret keys and their negatives", {T ? 4000ull : 400ull, 2}, [](mc::Ctx& c, const mc::Idx& v) { Z z = (unsigned long)v[0]; pub(c, v[1] ? ref::ZR - z : z); });
    return E.run();
}
