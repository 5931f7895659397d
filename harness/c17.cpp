// C17: signature verification accepts exactly the correct signature.
#include "sigs.hpp"
using namespace lx;
static std::string hx(const Bytes& b) { return mc::hex(b.data(), b.size()).substr(0, 140); }
static void ver(mc::Ctx& c, const Cand<Fe>& pk, const Bytes& m, const Cand<F2>& s, bool want) {
    g1 a = pk.g; g2 b = s.g; Bytes m0 = m; auto in = [&] { return "verify pk=" + pk.n + " msg_len=" + std::to_string(m.size()) + " msg=" + hx(m) + " sig=" + s.n; }; if (c.verbose) c.note = in() + (want ? " (correct)" : " (wrong)");
    bool r = B::verify(a, m, b); c.op(1); c.check(r == want, [&] { return in() + ": " + (r ? "accepted, must be rejected" : "rejected, must be accepted"); }); c.check(bits(a, pk.g) && bits(b, s.g) && m == m0, "verify modified an input"); c.state(H(pk.g) ^ 3 * H(s.g) ^ 5 * H(m));
}
// model verdict for a key of known secret a: exactly the point a*H(m)
static bool ok(const Cand<Fe>& pk, const Z& a, const Bytes& m, const Cand<F2>& s) { return pk.sub && s.sub && ref::eq(s.p, sg(a, hmsg(m))); }
static void sgn(mc::Ctx& c, const Z& a, const Bytes& m, bool verify) {
    std::array<u64, 4> k = W<4>(a), k0 = k; Bytes m0 = m; g2 s = B::sign(k, m); c.op(1); P2 w = sg(a, hmsg(m)); auto in = [&] { return "sign sk=" + S(a) + " msg_len=" + std::to_string(m.size()) + " msg=" + hx(m); }; if (c.verbose) c.note = in();
    c.check(same(s, w) && canon(s), [&] { return in() + ": got " + S(R(s)) + " want " + S(w); }); c.check(k == k0 && m == m0, "sign modified an input"); c.state(H(w));
    auto e = s.toCompressedBytesBE(); Bytes we = ref::compress(w); c.check(!memcmp(e.data(), we.data(), 96), [&] { return in() + ": signature bytes differ"; });
    if (verify) { g1 pk = B::public_key(k); bool r = B::verify(pk, m, s); c.op(2); c.check(r, [&] { return in() + ": own signature rejected"; }); Bytes x = m; if (x.empty()) x.push_back(0); else x[x.size() / 2] ^= 1; r = B::verify(pk, x, s); c.op(1); bool z = a % ref::ZR == 0; c.check(r == z, [&] { return in() + ": signature accepted for another message"; }); x = m; x.push_back(0); r = B::verify(pk, x, s); c.op(1); c.check(r == z, [&] { return in() + ": signature accepted for an extended message"; }); }
}
static std::vector<Z> KS, AK; static std::vector<Bytes> MS; static std::vector<Cand<Fe>> PKV; static std::vector<Cand<F2>> SV; static std::vector<std::vector<P2>> TAB;
int main(int argc, char** argv) {
    mc::Explorer E; E.parse(argc, argv); ref::selftest(); bool T = E.thorough();
    AK = scalar_alphabet(T ? 2 : 1); Z h = ref::bytesz(ref::shaB(ref::str("sk"))) % ref::ZR;
    E.add("sign-keys", "boundary secret keys (also above the order), own signature verified", {AK.size(), 2}, [](mc::Ctx& c, const mc::Idx& v) { sgn(c, AK[v[0]], content(v[1] ? 33 : 0, 2), v[1]); });
    E.add("sign-length", "every message length", {T ? 4500ull : 1100ull, 2}, [h](mc::Ctx& c, const mc::Idx& v) { sgn(c, v[1] ? h : ref::ZR - 1, content(v[0], 2), true); });
    static std::vector<size_t> PL; for (int k = 10; k <= (T ? 22 : 18); k++) for (long d : {-9l, -1l, 0l, 1l, 56l}) PL.push_back((1ul << k) + d);
    E.add("sign-long", "message lengths around powers of two", {PL.size()}, [h](mc::Ctx& c, const mc::Idx& v) { sgn(c, h, content(PL[v[0]], 3), true); });
    E.add("sign-bytes", "every byte value of one-byte messages; every position of a 32-byte message", {288}, [h](mc::Ctx& c, const mc::Idx& v) { if (v[0] < 256) sgn(c, h, Bytes{(u8)v[0]}, true); else { Bytes m(32, 0); m[v[0] - 256] = 0x80; sgn(c, h, m, true); } });
    KS = {1, 2, ref::ZR - 1, h, 0, ref::ZX, ref::ZR - h, (ref::ZR + 1) / 2}; if (T) for (Z z : {Z(3), Z(ref::ZR - 2), Z(ref::ZX * ref::ZX), Z(Z(1) << 254), Z((Z(1) << 64) - 1)}) KS.push_back(z);
    MS = {{}, {0}, {0, 0}, content(32, 2), content(32, 3)}; if (T) { MS.push_back(content(64, 2)); MS.push_back(content(1000, 2)); }
    // full table: key i, message j against signature of key k over message l
    { u64 nk = KS.size(), nm = MS.size(); E.add("table", "every (key, message) against the signature of every (key, message)", {nk, nm, nk, nm}, [](mc::Ctx& c, const mc::Idx& v) { P2 s = sg(KS[v[2]], hmsg(MS[v[3]])); auto pk = sub<Fe>(S(KS[v[0]]) + "*G", pkof(KS[v[0]]), (v[1] + v[2]) % 6); auto sc = sub<F2>(S(KS[v[2]]) + "*H(" + hx(MS[v[3]]) + ")", s, (v[0] + v[3]) % 6); ver(c, pk, MS[v[1]], sc, ok(pk, KS[v[0]], MS[v[1]], sc)); }); }
    u64 q = T ? 26 : 12; E.add("small-keys", "all pairs of small secrets: key aG against bH(m)", {q, q, 2}, [](mc::Ctx& c, const mc::Idx& v) { Z a((unsigned long)v[0]), b((unsigned long)v[1]); if (v[2]) b = ref::ZR - b; const Bytes& m = MS[3]; auto pk = sub<Fe>(S(a) + "*G", pkof(a)); auto sc = sub<F2>(S(b) + "*H", sg(b, hmsg(m))); ver(c, pk, m, sc, ok(pk, a, m, sc)); });
    // candidate signatures and keys around a correct pair, for several secrets
    static std::vector<Z> QS = {1, h, ref::ZR - 1, 0}; if (T) { QS.push_back(2); QS.push_back(ref::ZX); }
    static std::vector<std::vector<Cand<F2>>> SS; static std::vector<std::vector<Cand<Fe>>> PP; size_t ns = 0, np = 0;
    for (auto& a : QS) { SS.push_back(variants<F2>("S", sg(a, hmsg(MS[3])), T)); PP.push_back(variants<Fe>("P", pkof(a), T)); SS.back().push_back(sub<F2>("H", hmsg(MS[3]))); SS.back().push_back(sub<F2>("other message", sg(a, hmsg(MS[4])))); ns = std::max(ns, SS.back().size()); np = std::max(np, PP.back().size()); }
    E.add("signatures", "candidate signatures (negated, shifted by small orders, endomorphism images, off curve, other curve, infinities) under the right key in every representative", {QS.size(), ns, 6}, [](mc::Ctx& c, const mc::Idx& v) { auto& l = SS[v[0]]; if (v[1] >= l.size()) return; auto pk = sub<Fe>("P", pkof(QS[v[0]]), v[2]); ver(c, pk, MS[3], l[v[1]], ok(pk, QS[v[0]], MS[3], l[v[1]])); });
    E.add("keys", "candidate keys (shifted by small orders, off curve, other curve, infinities) with the right signature in every representative", {QS.size(), np, 6}, [](mc::Ctx& c, const mc::Idx& v) { auto& l = PP[v[0]]; if (v[1] >= l.size()) return; auto s = sub<F2>("S", sg(QS[v[0]], hmsg(MS[3])), v[2]); auto& pk = l[v[1]]; bool w = false;
        // the key's own secret is known when it is one of the named multiples; the correct signature for it is compared in the model by discrete log over the variants
        if (pk.sub) { const Z& a = QS[v[0]]; Z lam = ref::zmod(ref::ZX * ref::ZX - 1, ref::ZR), cand[] = {a, -a, a + 1, 2 * a, lam * a, -lam * a, lam * lam * a, Z(1), Z(-1), Z(0)}; bool found = false; for (auto& k : cand) if (ref::eq(pk.p, pkof(ref::zmod(k, ref::ZR)))) { w = ref::eq(s.p, sg(ref::zmod(k, ref::ZR), hmsg(MS[3]))); found = true; break; } if (!found) { c.fail("model: unknown secret for " + pk.n); return; } }
        ver(c, pk, MS[3], s, w); });
    E.add("both", "candidate keys x candidate signatures", {np, ns}, [](mc::Ctx& c, const mc::Idx& v) { if (v[0] >= PP[1].size() || v[1] >= SS[1].size()) return; auto& pk = PP[1][v[0]]; auto& s = SS[1][v[1]]; bool w = false; if (pk.sub && s.sub) { const Z& a = QS[1]; Z lam = ref::zmod(ref::ZX * ref::ZX - 1, ref::ZR), cand[] = {a, -a, a + 1, 2 * a, lam * a, -lam * a, lam * lam * a, Z(1), Z(-1), Z(0)}; bool found = false; for (auto& k : cand) if (ref::eq(pk.p, pkof(ref::zmod(k, ref::ZR)))) { w = ref::eq(s.p, sg(ref::zmod(k, ref::ZR), hmsg(MS[3]))); found = true; break; } if (!found) { c.fail("model: unknown secret for " + pk.n); return; } } ver(c, pk, MS[3], s, w); });
    // every single-bit change of a correct signature / key coordinate
    E.add("bit-flips", "every single-bit change of the affine coordinates of key and signature", {6, 384}, [h](mc::Ctx& c, const mc::Idx& v) { P1 p = pkof(h); P2 s = sg(h, hmsg(MS[3])); Fe* f[] = {&p.x, &p.y, &s.x.a, &s.x.b, &s.y.a, &s.y.b}; f[v[0]]->d[v[1] / 64] ^= 1ull << (v[1] % 64); if (ref::rawz(*f[v[0]]) >= ref::ZP) return; auto pk = any<Fe>("P", p.x, p.y, p.z); auto sc = any<F2>("S", s.x, s.y, s.z); pk.n += " flipped"; c.check(!(pk.sub && sc.sub), "model: flipped point in subgroup"); ver(c, pk, MS[3], sc, false); });
    return E.run();
}
