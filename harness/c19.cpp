// C19: proofs of possession and fast aggregate verification are exact.
#include "sigs.hpp"
using namespace lx;
typedef std::array<u64, 4> SK;
static void pv(mc::Ctx& c, const Cand<Fe>& pk, const Cand<F2>& s, bool want) { g1 a = pk.g; g2 b = s.g; auto in = [&] { return "pop_verify pk=" + pk.n + " proof=" + s.n; }; if (c.verbose) c.note = in(); bool r = B::pop_verify(a, b); c.op(1); c.check(r == want, [&] { return in() + ": " + (r ? "accepted, must be rejected" : "rejected, must be accepted"); }); c.check(bits(a, pk.g) && bits(b, s.g), "pop_verify modified an input"); c.state(H(a) ^ 3 * H(b)); }
static void fav(mc::Ctx& c, const std::vector<Cand<Fe>>& pk, const Bytes& m, const Cand<F2>& s, bool want) { std::vector<g1> v; std::string d; for (auto& p : pk) { v.push_back(p.g); d += p.n + " "; } auto v0 = v; g2 b = s.g; auto in = [&] { return "pop_fast_aggregate_verify [" + std::to_string(pk.size()) + "] " + d.substr(0, 700) + "msg_len=" + std::to_string(m.size()) + " sig=" + s.n; }; if (c.verbose) c.note = in(); bool r = B::pop_fast_aggregate_verify(v, m, b); c.op(1); c.check(r == want, [&] { return in() + ": " + (r ? "accepted, must be rejected" : "rejected, must be accepted"); }); for (size_t i = 0; i < v.size(); i++) c.check(bits(v[i], v0[i]), "keys modified"); u64 x = H(b) + H(m); for (auto& p : v) x = x * 31 + H(p); c.state(x); }
static P2 proof(const Z& a) { return sg(a, hpop(pkof(a))); }
static std::vector<Z> AK, KS;
int main(int argc, char** argv) {
    mc::Explorer E; E.parse(argc, argv); ref::selftest(); bool T = E.thorough(); Z h = ref::bytesz(ref::shaB(ref::str("pop"))) % ref::ZR, lam = ref::zmod(ref::ZX * ref::ZX - 1, ref::ZR);
    AK = scalar_alphabet(T ? 2 : 1);
    E.add("prove", "boundary secret keys: proof bytes and verification", {AK.size()}, [](mc::Ctx& c, const mc::Idx& v) { Z a = AK[v[0]]; SK k = W<4>(a), k0 = k; g2 p = B::pop_prove(k); c.op(1); P2 w = sg(a, hpop(pkof(a))); auto in = [&] { return "pop_prove " + S(a); }; if (c.verbose) c.note = in(); c.check(same(p, w) && canon(p), [&] { return in() + ": got " + S(R(p)) + " want " + S(w); }); auto e = p.toCompressedBytesBE(); Bytes we = ref::compress(w); c.check(!memcmp(e.data(), we.data(), 96), [&] { return in() + ": bytes differ"; }); c.check(B::pop_verify(B::public_key(k), p), [&] { return in() + ": own proof rejected"; }); c.op(1); c.check(k == k0, "input modified"); c.state(H(w)); });
    E.add("prove-small", "small and near-order secret keys", {T ? 2000ull : 150ull, 2}, [](mc::Ctx& c, const mc::Idx& v) { Z a((unsigned long)v[0]); if (v[1]) a = ref::zmod(-a, ref::ZR); SK k = W<4>(a); g2 p = B::pop_prove(k); c.op(1); c.check(same(p, proof(a)), [&] { return "pop_prove " + S(a) + " differs"; }); pv(c, sub<Fe>(S(a) + "*G", pkof(a), v[0] % 6), sub<F2>("own proof", proof(a), (v[0] / 6) % 6), true); });
    KS = {h, 1, 2, ref::ZR - 1, ref::ZR - h, 0, (lam * h) % ref::ZR, ref::ZX}; if (T) for (int i = 0; i < 10; i++) KS.push_back(ref::bytesz(ref::shaB(ref::i2osp(i, 3))) % ref::ZR);
    E.add("table", "every key against the proof of every key, every representative", {KS.size(), KS.size(), 6}, [](mc::Ctx& c, const mc::Idx& v) { pv(c, sub<Fe>(S(KS[v[0]]) + "*G", pkof(KS[v[0]]), v[2]), sub<F2>("proof of " + S(KS[v[1]]), proof(KS[v[1]]), (v[2] + v[1]) % 6), ref::eq(proof(KS[v[1]]), proof(KS[v[0]]))); });
    static auto PV = variants<Fe>("P", pkof(h), T); static auto SV = variants<F2>("S", proof(h), T); SV.push_back(sub<F2>("hash", hpop(pkof(h))));
    E.add("proofs", "candidate proofs (negated, shifted, endomorphism images, off curve, other curve, infinities) under the key in every representative", {SV.size(), 6}, [h](mc::Ctx& c, const mc::Idx& v) { auto& s = SV[v[0]]; pv(c, sub<Fe>("P", pkof(h), v[1]), s, s.sub && ref::eq(s.p, proof(h))); });
    E.add("keys", "candidate keys with the proof of the original key, with their own proof where a secret is known, and with infinity", {PV.size(), 3}, [h, lam](mc::Ctx& c, const mc::Idx& v) { auto& p = PV[v[0]]; Z k = 0; bool known = false; if (p.sub) { Z a = h, cand[] = {a, -a, a + 1, 2 * a, lam * a, -lam * a, lam * lam * a, Z(1), Z(-1), Z(0)}; for (auto& x : cand) if (ref::eq(p.p, pkof(ref::zmod(x, ref::ZR)))) { k = ref::zmod(x, ref::ZR); known = true; break; } if (!known) { c.fail("model: unknown secret for " + p.n); return; } } Cand<F2> s = v[1] == 0 ? sub<F2>("proof of P", proof(h)) : v[1] == 1 ? (known ? sub<F2>("own proof", proof(k), v[0] % 6) : sub<F2>("h*hash", sg(h, hpop(p.p)))) : sub<F2>("O", ref::pinf<F2>(), v[0] % 6); pv(c, p, s, p.sub && ref::eq(s.p, proof(k))); });
    E.add("separation", "ordinary signatures over the key bytes are no proofs, proofs are no signatures", {KS.size()}, [](mc::Ctx& c, const mc::Idx& v) { Z a = KS[v[0]]; Bytes m = affle(pkof(a)); auto pk = sub<Fe>(S(a) + "*G", pkof(a)); pv(c, pk, sub<F2>("ordinary signature over the key", sg(a, hmsg(m))), a == 0); P2 pr = proof(a); bool r = B::verify(pk.g, m, A(pr)); c.op(1); c.check(r == (a == 0), [&] { return "proof accepted as a signature, key " + S(a); }); Bytes z = ref::compress(pkof(a)); pv(c, pk, sub<F2>("proof over compressed key", sg(a, ref::hash2(z, ref::str("BLS_POP_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_")))), a == 0); });
    E.add("bit-flips", "every single-bit change of the coordinates of key and proof", {6, 384}, [h](mc::Ctx& c, const mc::Idx& v) { P1 p = pkof(h); P2 s = proof(h); Fe* f[] = {&p.x, &p.y, &s.x.a, &s.x.b, &s.y.a, &s.y.b}; f[v[0]]->d[v[1] / 64] ^= 1ull << (v[1] % 64); if (ref::rawz(*f[v[0]]) >= ref::ZP) return; pv(c, any<Fe>("P flipped", p.x, p.y, p.z), any<F2>("S flipped", s.x, s.y, s.z), false); });
    // ---- fast aggregate verification
    static std::vector<Z> FK = {h, 1, ref::ZR - h, 0, (h * h) % ref::ZR}; static std::vector<Bytes> MS = {content(32, 2), {}, content(5, 3)};
    u64 n = FK.size(); int d = T ? 4 : 3; u64 tot = 0; { u64 k = 1; for (int i = 0; i <= d; i++) { tot += k; k *= n; } }
    E.add("fast-lists", "every list of up to 3 (4) keys (zero and inverse keys included) with the correct and four wrong signatures", {tot, 3, 5}, [n](mc::Ctx& c, const mc::Idx& v) { u64 t = v[0], k = 1; int len = 0; while (t >= k) { t -= k; k *= n; len++; } std::vector<Cand<Fe>> p; Z s = 0, last = 0; for (int i = 0; i < len; i++) { last = FK[t % n]; p.push_back(sub<Fe>("k" + std::to_string(t % n), pkof(last), (i + t) % 6)); s += last; t /= n; } s %= ref::ZR; const Bytes& m = MS[v[1]]; P2 w = sg(s, hmsg(m)); Cand<F2> sc; switch (v[2]) { case 0: sc = sub<F2>("correct", w, v[0] % 6); break; case 1: sc = sub<F2>("O", ref::pinf<F2>(), v[0] % 6); break; case 2: sc = sub<F2>("other message", sg(s, hmsg(MS[(v[1] + 1) % 3]))); break; case 3: sc = sub<F2>("without last", sg(ref::zmod(s - last, ref::ZR), hmsg(m))); break; case 4: sc = sub<F2>("-correct", ref::neg(w)); break; } fav(c, p, m, sc, len > 0 && ref::eq(sc.p, w)); });
    E.add("fast-lengths", "every number of keys to 139 (299) and around powers of two, correct and with one key missing", {(T ? 300ull : 140ull) + 8, 2}, [h, T](mc::Ctx& c, const mc::Idx& v_) { static const u64 AL_[] = {255, 256, 257, 511, 512, 513, 1024, 1025}; u64 K_ = T ? 300 : 140; mc::Idx v = v_; if (v[0] >= K_) v[0] = AL_[v[0] - K_]; std::vector<Cand<Fe>> p; Z s = 0; for (u64 i = 0; i < v[0]; i++) { Z k = (h + i * i * i) % ref::ZR; s += k; p.push_back(sub<Fe>("k" + std::to_string(i), pkof(k), i % 6)); } if (v[1]) s -= h; fav(c, p, MS[0], sub<F2>("sig", sg(ref::zmod(s, ref::ZR), hmsg(MS[0]))), v[0] > 0 && !v[1]); });
    E.add("fast-repeats", "lists that repeat keys: one key throughout, one other key at every eighth position, two keys alternating, keys in runs, a key and its negation alternating; correct, with one copy too many and one too few", {T ? 140ull : 40ull, 6, 3}, [h](mc::Ctx& c, const mc::Idx& v) { u64 N = v[0]; std::vector<Cand<Fe>> p; Z s = 0; Z a = h, b = (h * h) % ref::ZR; for (u64 i = 0; i < N; i++) { Z k = a; switch (v[1]) { case 0: break; case 1: k = i == N - 1 ? b : a; break; case 2: k = i == 0 ? b : a; break; case 3: k = i % 2 ? b : a; break; case 4: k = 2 * i < N ? a : b; break; case 5: k = i % 2 ? ref::zmod(-a, ref::ZR) : a; break; } s += k; p.push_back(sub<Fe>(k == a ? "a" : k == b ? "b" : "-a", pkof(k), v[1] == 0 && N % 2 ? 0 : i % 6)); } if (v[2] == 1) s += a; if (v[2] == 2) s -= a; s = ref::zmod(s, ref::ZR); fav(c, p, MS[0], sub<F2>("sig", sg(s, hmsg(MS[0]))), N > 0 && !v[2]); });
    E.add("fast-messages", "every message length", {T ? 600ull : 130ull}, [h](mc::Ctx& c, const mc::Idx& v) { Bytes m = content(v[0], 2); fav(c, {sub<Fe>("k", pkof(h), 1), sub<Fe>("2k", pkof(2 * h % ref::ZR), 2)}, m, sub<F2>("correct", sg(3 * h % ref::ZR, hmsg(m)), 3), true); });
    // aggregated key outside the subgroup or off the curve
    E.add("fast-bad-keys", "candidate keys outside the curve or subgroup, alone and next to a good key on either side", {PV.size(), 3}, [h](mc::Ctx& c, const mc::Idx& v) { auto& p = PV[v[0]]; if (!p.oncurve || p.sub) { if (p.sub || v[1]) return; } auto g = sub<Fe>("G", ref::G1()); std::vector<Cand<Fe>> l = {p}; Z s = h; if (v[1] == 1) { l.push_back(g); s += 1; } if (v[1] == 2) { l.insert(l.begin(), g); s += 1; } fav(c, l, MS[0], sub<F2>("h-signature", sg(s % ref::ZR, hmsg(MS[0]))), false); });
    E.add("fast-signatures", "candidate signatures for a two-key list", {2 + variants<F2>("S", ref::G2(), T).size()}, [h](mc::Ctx& c, const mc::Idx& v) { static auto L = [&] { auto l = variants<F2>("S", sg(3 * h % ref::ZR, hmsg(MS[0])), 1); l.push_back(sub<F2>("hash", hmsg(MS[0]))); l.push_back(sub<F2>("proof", proof(h))); return l; }(); if (v[0] >= L.size()) return; auto& s = L[v[0]]; fav(c, {sub<Fe>("k", pkof(h), 4), sub<Fe>("2k", pkof(2 * h % ref::ZR), 5)}, MS[0], s, s.sub && ref::eq(s.p, sg(3 * h % ref::ZR, hmsg(MS[0])))); });
    return E.run();
}
