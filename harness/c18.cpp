// C18: aggregation is a homomorphism and aggregate verification is exact.
#include "sigs.hpp"
using namespace lx;
typedef std::array<u64, 4> SK;
static std::string hx(const Bytes& b) { return mc::hex(b.data(), b.size()).substr(0, 60); }
static std::vector<Z> KA, KB; static std::vector<Cand<Fe>> PA; static std::vector<Cand<F2>> SA;
// number and decoding of lists over n letters up to length d
static u64 nlists(u64 n, int d) { u64 t = 0, k = 1; for (int i = 0; i <= d; i++) { t += k; k *= n; } return t; }
static std::vector<u64> dlist(u64 t, u64 n) { u64 k = 1; int len = 0; while (t >= k) { t -= k; k *= n; len++; } std::vector<u64> l; for (int i = 0; i < len; i++) { l.push_back(t % n); t /= n; } return l; }
static void sks(mc::Ctx& c, const std::vector<Z>& l) { std::vector<SK> v; Z w = 0; std::string d; for (auto& z : l) { v.push_back(W<4>(z)); w += z; d += S(z) + " "; } w %= ref::ZR; auto v0 = v; SK r = B::aggregate_secret_keys(v); c.op(1); if (c.verbose) c.note = d.substr(0, 800); c.check(ZW(r) == w, [&] { return "aggregate_secret_keys [" + std::to_string(l.size()) + "] " + d.substr(0, 800) + ": got " + S(ZW(r)) + " want " + S(w); }); c.check(v == v0, "aggregate_secret_keys modified its input"); c.state(H(w) ^ l.size()); }
template<class F> static typename GTr<F>::G agg(const std::vector<typename GTr<F>::G>& v) { if constexpr (std::is_same_v<F, Fe>) return B::aggregate_public_keys(v); else return B::aggregate_signatures(v); }
template<class F> struct Acc { typename GTr<F>::G g; char pad[24]; bool sel; };
template<class F> static void aggp(mc::Ctx& c, const std::vector<Cand<F>>& al, const std::vector<u64>& l, u64 mask) {
    typedef typename GTr<F>::G G; std::vector<G> v; std::vector<Acc<F>> t; ref::Pt<F> w = ref::pinf<F>(), wm = w; std::string d; for (size_t i = 0; i < l.size(); i++) { auto& x = al[l[i]]; v.push_back(x.g); bool s = mask >> (i % 64) & 1; t.push_back({x.g, {}, s}); w = ref::add(w, x.p); if (s) wm = ref::add(wm, x.p); d += x.n + (s ? "* " : " "); }
    auto v0 = v; auto in = [&] { return std::string(GTr<F>::nm()) + " aggregate of [" + std::to_string(l.size()) + "] " + d.substr(0, 800); }; if (c.verbose) c.note = in();
    G r = agg<F>(v); c.op(1); c.check(same(r, w) && canon(r), [&] { return in() + ": got " + S(r) + " want " + S(w); });
    auto f = [](const Acc<F>& a) -> const G& { return a.g; }; auto pr = [](const Acc<F>& a, size_t) { return a.sel; }; auto pi = [mask](const Acc<F>&, size_t i) { return (mask >> (i % 64) & 1) != 0; };
    G r1, r2, r3, r4; std::span<Acc<F>> sp(t); std::span<const Acc<F>> spc(t);
    if constexpr (std::is_same_v<F, Fe>) { r1 = B::aggregate_public_keys(sp, f); r2 = B::aggregate_public_keys(sp, f, pr); r3 = B::aggregate_public_keys(spc, f, pi); r4 = B::aggregate_public_keys(spc, [](const Acc<F>& a) { return a.g; }); } else { r1 = B::aggregate_signatures(sp, f); r2 = B::aggregate_signatures(sp, f, pr); r3 = B::aggregate_signatures(spc, f, pi); r4 = B::aggregate_signatures(spc, [](const Acc<F>& a) { return a.g; }); }
    c.op(4); c.check(same(r1, w) && same(r4, w), [&] { return in() + ": accessor form got " + S(r1) + " want " + S(w); }); c.check(same(r2, wm), [&] { return in() + ": filtered by entry got " + S(r2) + " want " + S(wm); }); c.check(same(r3, wm), [&] { return in() + ": filtered by index got " + S(r3) + " want " + S(wm); });
    // a filter with a state of its own is asked about each entry once, in order: the k-th question is about entry k
    { uint64_t k = 0; auto ps = [&k, mask](const Acc<F>&, size_t) { return (mask >> (k++ % 64) & 1) != 0; }; G r5; if constexpr (std::is_same_v<F, Fe>) r5 = B::aggregate_public_keys(spc, f, ps); else r5 = B::aggregate_signatures(spc, f, ps); c.op(1); c.check(same(r5, wm), [&] { return in() + ": filtered by a predicate with a state got " + S(r5) + " want " + S(wm); }); }
    for (size_t i = 0; i < v.size(); i++) c.check(bits(v[i], v0[i]) && bits(t[i].g, v0[i]), "aggregation modified its input"); c.state(H(w) ^ 3 * H(wm) ^ l.size());
}
struct AV { std::vector<Cand<Fe>> pk; std::vector<Z> sk; std::vector<Bytes> m; };
static void averify(mc::Ctx& c, const AV& a, const Cand<F2>& s, bool dup, bool verdict_known = false, bool verdict = false) {
    std::vector<g1> pk; for (auto& p : a.pk) pk.push_back(p.g); std::vector<Bytes> m = a.m; g2 sig = s.g; bool w = s.sub && a.pk.size() == a.m.size(); std::string d; P2 sum = ref::pinf<F2>(); for (size_t i = 0; i < a.pk.size(); i++) { d += a.pk[i].n + " "; if (!a.pk[i].sub) w = false; if (i < a.m.size() && i < a.sk.size()) sum = ref::add(sum, ref::smul(hmsg(a.m[i]), a.sk[i])); } d += "| "; for (auto& x : a.m) d += hx(x) + (x.empty() ? "<empty> " : " ");
    if (dup) { auto t = a.m; std::sort(t.begin(), t.end()); if (std::adjacent_find(t.begin(), t.end()) != t.end()) w = false; } if (w) w = verdict_known ? verdict : ref::eq(sum, s.p);
    auto in = [&] { return "aggregate_verify " + std::to_string(a.pk.size()) + " keys, " + std::to_string(a.m.size()) + " messages: " + d.substr(0, 900) + "sig=" + s.n + (dup ? " (distinct messages required)" : ""); }; if (c.verbose) c.note = in();
    auto pk0 = pk; auto m0 = m; bool r = B::aggregate_verify(pk, m, sig, dup); c.op(1); if (!dup && pk.size() < 3) c.check(B::aggregate_verify(pk, m, sig) == r, [&] { return in() + ": the default is not to look for duplicates"; }); c.check(r == w, [&] { return in() + ": " + (r ? "accepted, must be rejected" : "rejected, must be accepted"); }); c.check(m == m0 && bits(sig, s.g), "aggregate_verify modified an input"); for (size_t i = 0; i < pk.size(); i++) c.check(bits(pk[i], pk0[i]), "aggregate_verify modified a key"); if (!dup) { bool q = B::aggregate_verify(pk, m, sig); c.op(1); c.check(q == w, [&] { return in() + ": default flag differs"; }); }
    u64 hs = H(s.g) * 2 + dup; for (auto& p : pk) hs = hs * 31 + H(p); for (auto& x : m) hs = hs * 37 + H(x); c.state(hs);
}
static std::vector<Bytes> MS; static std::vector<Z> KS; static std::vector<P1> PK;
static AV mk(const std::vector<u64>& k, const std::vector<u64>& m) { AV a; for (size_t i = 0; i < k.size(); i++) { a.pk.push_back(sub<Fe>("k" + std::to_string(k[i]), PK[k[i]], (i + k[i]) % 6)); a.sk.push_back(KS[k[i]]); } for (auto x : m) a.m.push_back(MS[x]); return a; }
static P2 correct(const AV& a) { P2 s = ref::pinf<F2>(); for (size_t i = 0; i < a.sk.size() && i < a.m.size(); i++) s = ref::add(s, ref::smul(hmsg(a.m[i]), a.sk[i])); return s; }
static const std::vector<u64> LONG = {511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8193, 65535, 65536, 65537};
int main(int argc, char** argv) {
    mc::Explorer E; E.parse(argc, argv); ref::selftest(); bool T = E.thorough(); Z h = ref::bytesz(ref::shaB(ref::str("agg"))) % ref::ZR;
    // ---- secret keys
    KA = {0, 1, 2, ref::ZR - 1, ref::ZR - 2, (ref::ZR - 1) / 2, (ref::ZR + 1) / 2, h, ref::ZR - h, (Z(1) << 64) - 1, Z(1) << 64, Z(1) << 254, (Z(1) << 192) - 1, ref::ZR - (Z(1) << 64), ref::ZR - (Z(1) << 192), ref::ZX};
    { u64 n = KA.size(); int d = T ? 5 : 4; E.add("secret-lists", "every list of up to 4 (5) keys over boundary values below the order", {nlists(n, d)}, [n](mc::Ctx& c, const mc::Idx& v) { std::vector<Z> l; for (auto i : dlist(v[0], n)) l.push_back(KA[i]); sks(c, l); }); }
    for (auto& z : scalar_alphabet(T ? 2 : 1)) if (z < ref::ZR) KB.push_back(z);
    E.add("secret-pairs", "all ordered pairs of a larger alphabet", {KB.size(), KB.size()}, [](mc::Ctx& c, const mc::Idx& v) { sks(c, {KB[v[0]], KB[v[1]]}); });
    E.add("secret-lengths", "every list length to 299 (999) and around powers of two, with keys near the order, mixed keys, zeros", {(T ? 1000ull : 300ull) + LONG.size(), 3}, [h, T](mc::Ctx& c, const mc::Idx& v) { u64 K = T ? 1000 : 300, N = v[0] < K ? v[0] : LONG[v[0] - K]; std::vector<Z> l; for (u64 i = 0; i < N; i++) l.push_back(v[1] == 0 ? ref::ZR - 1 - i : v[1] == 1 ? (h * Z((unsigned long)(i + 1))) % ref::ZR : Z(0)); sks(c, l); });
    // ---- public keys and signatures
    auto al = [&]<class F>(std::vector<Cand<F>>& o) { auto P = points<F>(0); for (auto n : {"O", "G", "-G", "2G", "H", "-H", "wG", "C"}) for (auto& p : P) if (p.n == n) { if (p.n == "O") for (size_t k : {0, 1, 3, 4}) o.push_back(good<F>(p.n, p.p, k)); else { o.push_back(good<F>(p.n, p.p, 0)); o.push_back(good<F>(p.n, p.p, 3)); } } o.push_back(good<F>("T", torsion<F>(GTr<F>::primes()[0], 0), 2)); };
    al(PA); al(SA);
    { int d = T ? 4 : 3; u64 n1 = PA.size(), n2 = SA.size(); E.add("key-lists", "every list of up to 3 (4) keys (several representatives, infinities, inverses) with accessor and filter forms", {nlists(n1, d)}, [n1](mc::Ctx& c, const mc::Idx& v) { auto l = dlist(v[0], n1); aggp<Fe>(c, PA, l, v[0] * 0x9e3779b9u >> 3); }); E.add("signature-lists", "every list of up to 3 (4) signatures with accessor and filter forms", {nlists(n2, d)}, [n2](mc::Ctx& c, const mc::Idx& v) { auto l = dlist(v[0], n2); aggp<F2>(c, SA, l, v[0] * 0x9e3779b9u >> 3); }); }
    E.add("filters", "every filter mask over lists of 0..8 (10) entries", {T ? 11ull : 9ull, T ? 1024ull : 256ull}, [](mc::Ctx& c, const mc::Idx& v) { if (v[1] >> v[0]) return; std::vector<u64> l; for (u64 i = 0; i < v[0]; i++) l.push_back((i * 5 + 4) % PA.size()); aggp<Fe>(c, PA, l, v[1]); aggp<F2>(c, SA, l, v[1]); });
    E.add("list-lengths", "every list length to 300 (600) and around powers of two", {(T ? 600ull : 300ull) + LONG.size(), 2}, [T](mc::Ctx& c, const mc::Idx& v) { u64 K = T ? 600 : 300, N = v[0] < K ? v[0] : LONG[v[0] - K]; std::vector<u64> l; for (u64 i = 0; i < N; i++) l.push_back((i * (v[1] ? 7 : 1)) % PA.size()); aggp<Fe>(c, PA, l, 0x5555aaaa3333ccccull); aggp<F2>(c, SA, l, ~0ull); });
    E.add("list-repeats", "n copies of one entry, one other entry first or last, alternating with its inverse, in two runs", {T ? 140ull : 40ull, 5, PA.size()}, [](mc::Ctx& c, const mc::Idx& v) { u64 N = v[0], A0 = v[2], B0 = (v[2] + 5) % PA.size(); std::vector<u64> l; for (u64 i = 0; i < N; i++) l.push_back(v[1] == 1 && !i ? B0 : v[1] == 2 && i == N - 1 ? B0 : v[1] == 3 && i % 2 ? B0 : v[1] == 4 && 2 * i >= N ? B0 : A0); if (A0 >= SA.size()) return; aggp<Fe>(c, PA, l, ~0ull); aggp<F2>(c, SA, l, 0xf0f0f0f0f0f0f0f7ull); });
    E.add("homomorphism", "aggregating keys, public keys and signatures commutes with public_key and sign", {KA.size(), KA.size(), 3}, [](mc::Ctx& c, const mc::Idx& v) { std::vector<Z> k = {KA[v[0]], KA[v[1]], KA[(v[0] + v[1]) % KA.size()]}; k.resize(v[2] + 1); std::vector<SK> s; std::vector<g1> p; std::vector<g2> g; Bytes m = content(20, 2); for (auto& z : k) { s.push_back(W<4>(z)); p.push_back(B::public_key(s.back())); g.push_back(B::sign(s.back(), m)); } SK a = B::aggregate_secret_keys(s); g1 ap = B::aggregate_public_keys(p); g2 ag = B::aggregate_signatures(g); c.op(3); Z w = 0; for (auto& z : k) w += z; auto in = [&] { return "keys " + S(k[0]) + " " + S(KA[v[1]]) + " x" + std::to_string(v[2] + 1); }; c.check(same(ap, pkof(w % ref::ZR)), [&] { return "aggregated public keys, " + in(); }); c.check(ap.equal(B::public_key(a)), [&] { return "public_key(aggregate) differs, " + in(); }); c.check(same(ag, sg(w % ref::ZR, hmsg(m))) && ag.equal(B::sign(a, m)), [&] { return "sign(aggregate) differs, " + in(); }); c.check(B::verify(ap, m, ag), [&] { return "aggregate signature rejected, " + in(); }); c.state(H(w)); });
    // ---- aggregate verification
    KS = {h, 1, ref::ZR - 1, 0, (h * h) % ref::ZR, ref::ZX}; for (auto& k : KS) PK.push_back(pkof(k)); MS = {content(32, 2), {}, {0}, {0, 0}, content(32, 3), content(33, 2)};
    { u64 nk = T ? 5 : 4, nm = T ? 5 : 4; int d = T ? 3 : 2; u64 n = nk * nm; E.add("verify-lists", "every list of up to 2 (3) (key, message) entries with the correct signature and five wrong ones, both duplicate flags", {nlists(n, d), 6, 2}, [nk](mc::Ctx& c, const mc::Idx& v) { auto l = dlist(v[0], nk * (nk == 5 ? 5 : 4)); std::vector<u64> k, m; for (auto x : l) { k.push_back(x % nk); m.push_back(x / nk); } AV a = mk(k, m); P2 s = correct(a); Cand<F2> sc; switch (v[1]) { case 0: sc = sub<F2>("correct", s, v[0] % 6); break; case 1: sc = sub<F2>("correct+G", ref::add(s, ref::G2())); break; case 2: sc = sub<F2>("-correct", ref::neg(s)); break; case 3: sc = sub<F2>("O", ref::pinf<F2>(), v[0] % 6); break; case 4: if (l.empty()) return; sc = sub<F2>("without last", ref::add(s, ref::neg(sg(a.sk.back(), hmsg(a.m.back()))))); break; case 5: if (l.size() < 2) { sc = sub<F2>("H", hmsg(MS[0])); break; } sc = sub<F2>("messages swapped", ref::add(sg(a.sk[0], hmsg(a.m[1])), sg(a.sk[1], hmsg(a.m[0])))); break; } averify(c, a, sc, v[2]); }); }
    E.add("verify-lengths", "every number of entries to 33 (129) and around 64, 128 and 256, distinct messages, correct signature, one entry's contribution missing, doubled or swapped", {(T ? 130ull : 34ull) + 12, 4, 2}, [h, T](mc::Ctx& c, const mc::Idx& v_) { static const u64 AL_[] = {63, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257, 258}; u64 K_ = T ? 130 : 34; mc::Idx v = v_; if (v[0] >= K_) v[0] = AL_[v[0] - K_]; AV a; P2 s = ref::pinf<F2>(); for (u64 i = 0; i < v[0]; i++) { Z k = (h + i * i) % ref::ZR; a.pk.push_back(sub<Fe>("k" + std::to_string(i), pkof(k), i % 6)); a.sk.push_back(k); a.m.push_back(content(i, 3)); } s = correct(a); std::string n = "correct"; if (v[1] && !v[0]) return; u64 j = v[0] / 2; if (v[1] == 1) { s = ref::add(s, ref::neg(sg(a.sk[j], hmsg(a.m[j])))); n = "one missing"; } if (v[1] == 2) { s = ref::add(s, sg(a.sk[j], hmsg(a.m[j]))); n = "one doubled"; } if (v[1] == 3) { if (v[0] < 2) return; std::swap(a.m[0], a.m[v[0] - 1]); n = "messages swapped"; } averify(c, a, sub<F2>(n, s, v[0] % 6), v[2]); });
    E.add("verify-repeats", "one key (in one or several representatives) for every message, a key and its negation alternating, two runs of keys; correct, one contribution missing, doubled or moved", {T ? 60ull : 34ull, 4, 4, 2}, [](mc::Ctx& c, const mc::Idx& v) { AV a; u64 N = v[0]; for (u64 i = 0; i < N; i++) { u64 k = v[1] == 2 && i % 2 ? 2 : v[1] == 2 ? 1 : v[1] == 3 && 2 * i >= N ? 4 : 0; a.pk.push_back(sub<Fe>("k" + std::to_string(k), PK[k], v[1] == 1 ? 0 : i % 6)); a.sk.push_back(KS[k]); a.m.push_back(content(i + 1, 3)); } P2 s = correct(a); std::string n = "correct"; if (v[2] && !N) return; u64 j = N / 2; if (v[2] == 1) { s = ref::add(s, ref::neg(sg(a.sk[j], hmsg(a.m[j])))); n = "one missing"; } if (v[2] == 2) { s = ref::add(s, sg(a.sk[j], hmsg(a.m[j]))); n = "one doubled"; } if (v[2] == 3) { s = ref::add(s, ref::add(ref::neg(sg(a.sk[j], hmsg(a.m[j]))), sg(a.sk[j], hmsg(content(N + 7, 3))))); n = "one for another message"; } averify(c, a, sub<F2>(n, s, v[0] % 6), v[3]); });
    E.add("verify-mismatch", "every combination of list lengths up to 5 (8), signature correct for the shorter prefix", {T ? 9ull : 6ull, T ? 9ull : 6ull, 2, 2}, [](mc::Ctx& c, const mc::Idx& v) { AV a; for (u64 i = 0; i < v[0]; i++) { a.pk.push_back(sub<Fe>("k", PK[i % 2 ? 4 : 0], i % 6)); a.sk.push_back(KS[i % 2 ? 4 : 0]); } for (u64 i = 0; i < v[1]; i++) a.m.push_back(content(i + 1, 3)); P2 s = correct(a); averify(c, a, v[3] ? sub<F2>("O", ref::pinf<F2>()) : sub<F2>("prefix-correct", s), v[2]); });
    { static std::vector<u64> NL = {1, 2, 8, 9, 16, 31, 32, 33, 48, 63, 64, 65, 95, 96, 100, 127, 128, 129, 160, 192, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4096, 4097}; if (T) for (u64 x : {8192, 10000, 16384, 32768, 65535, 65536, 65537, 100000}) NL.push_back(x);
      static std::vector<std::pair<u64, u64>> NP_; for (u64 l : NL) { std::vector<u64> ps = {0, l - 1, l / 2, l / 4}; for (u64 q : NL) for (u64 d : {0, 1}) if (q - d < l) ps.push_back(q - d); std::sort(ps.begin(), ps.end()); ps.erase(std::unique(ps.begin(), ps.end()), ps.end()); for (u64 q : ps) NP_.push_back({l, q}); }
      E.add("verify-near-duplicates", "two messages of every length class that differ in one byte at every position class, or in length only, or not at all", {NP_.size(), 4}, [](mc::Ctx& c, const mc::Idx& v) { auto [l, q] = NP_[v[0]]; AV a; for (int k = 0; k < 2; k++) { a.pk.push_back(sub<Fe>("k", PK[k], k)); a.sk.push_back(KS[k]); a.m.push_back(content(l, 2)); } int which = v[0] & 1; switch (v[1]) { case 0: a.m[which][q] ^= 1; break; case 1: a.m[which][q] ^= 0x80; break; case 2: a.m[which].resize(q); break; case 3: if (q) return; break; } averify(c, a, sub<F2>("correct", correct(a), v[0] % 6), true); }); }
    E.add("verify-duplicates", "a duplicate at every pair of positions of lists of up to 6 (10) messages (identical, prefix of, extended by a zero byte, one bit different, empty)", {T ? 11ull : 7ull, T ? 11ull : 7ull, T ? 11ull : 7ull, 6, 2}, [](mc::Ctx& c, const mc::Idx& v) { u64 n = v[0], i = v[1], j = v[2]; if (i >= j || j >= n) return; AV a; for (u64 q = 0; q < n; q++) { a.pk.push_back(sub<Fe>("k", PK[q % 3], q % 6)); a.sk.push_back(KS[q % 3]); a.m.push_back(content(32 + q, 2)); a.m.back()[0] = (u8)(q * 37); } Bytes m = a.m[i]; switch (v[3]) { case 0: break; case 1: m.pop_back(); break; case 2: m.push_back(0); break; case 3: m.back() ^= 1; break; case 4: m.clear(); break; case 5: m.clear(); a.m[i].clear(); break; } a.m[j] = m; averify(c, a, sub<F2>("correct", correct(a), n % 6), v[4]); });
    // invalid keys and signatures at every position
    static auto PV = variants<Fe>("P", pkof(h), T); static auto SV = variants<F2>("S", sg(h, hmsg(MS[0])), T);
    E.add("verify-bad-keys", "every candidate key outside the curve or subgroup at every position of lists of 1..3 entries", {PV.size(), 3, 3, 2}, [h](mc::Ctx& c, const mc::Idx& v) { auto& p = PV[v[0]]; if (p.sub || v[2] > v[1]) return; AV a = mk({0, 0, 0}, {0, 4, 5}); a.pk.resize(v[1] + 1); a.sk.resize(v[1] + 1); a.m.resize(v[1] + 1); P2 s = correct(a); a.pk[v[2]] = p; if (v[3]) { s = ref::add(s, ref::neg(sg(h, hmsg(a.m[v[2]])))); } averify(c, a, sub<F2>(v[3] ? "without it" : "correct", s), v[0] & 1); });
    E.add("verify-cancelling-keys", "two keys shifted by opposite small-order points (their sum is right), same or different messages", {GTr<Fe>::primes().size(), 2, 2}, [h](mc::Ctx& c, const mc::Idx& v) { P1 t = torsion<Fe>(GTr<Fe>::primes()[v[0]], 7 * (int)v[0]); AV a = mk({0, 0}, {0, v[1] ? 4u : 0u}); a.pk[0] = good<Fe>("P+T", ref::add(pkof(h), t)); a.pk[1] = good<Fe>("P-T", ref::add(pkof(h), ref::neg(t))); averify(c, a, sub<F2>("correct", correct(a)), v[2]); });
    E.add("verify-signatures", "every candidate signature against one- and zero-entry lists", {SV.size(), 2, 2}, [](mc::Ctx& c, const mc::Idx& v) { AV a = v[1] ? mk({0}, {0}) : AV{}; averify(c, a, SV[v[0]], v[2]); });
    return E.run();
}
