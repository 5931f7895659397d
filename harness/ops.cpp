// Table of public operations on fixed inputs; every operation reads only *in and returns bytes (result or reported error).
// Compiled together with the library into one shared object so that all writable static memory of the code under test is in one place.
#include <bls12-381/bls12-381.hpp>
#include "sha256.hpp"
#include <new>
#include <set>
#include "ops.hpp"
using namespace bls12_381;
namespace pr = bls12_381::pairing;
typedef std::array<uint64_t, 4> SK;
typedef std::vector<uint8_t> Bytes;
struct ops::In {
    SK sk[4]; g1 pk[4], pkj[4]; g2 sig[4], pop[4], sigj[4]; g1 P[6]; g2 Q[6]; g1 bad1; g2 bad2; fp a[4]; fp2 b[4]; fp6 s[2]; fp12 t[4]; fp12 gt[2];
    uint8_t c1[2][48], c1bad[48], c2[2][96], c2bad[96], a1[96], a1bad[96], j2[288], j2bad[288], seed[2][64], hx[160];
    g2 aggsame, aggdiff; SK wk[6];
};
using ops::In; using ops::Out;
static void put(Out* o, const g1& p) { o->put(&p, sizeof p); }
static void put(Out* o, const g2& p) { o->put(&p, sizeof p); }
static void put(Out* o, const fp12& p) { o->put(&p, sizeof p); }
static void put(Out* o, const fp6& p) { o->put(&p, sizeof p); }
static void put(Out* o, const fp2& p) { o->put(&p, sizeof p); }
static void put(Out* o, const fp& p) { o->put(&p, sizeof p); }
static void put(Out* o, const SK& p) { o->put(&p, sizeof p); }
static void put(Out* o, bool v) { uint8_t c = v; o->put(&c, 1); }
static void put(Out* o, int v) { o->put(&v, sizeof v); }
template<class T> static void put(Out* o, const std::optional<T>& p) { put(o, p.has_value()); if (p) put(o, *p); }
template<size_t N> static void put(Out* o, const std::array<uint8_t, N>& p) { o->put(p.data(), N); }
static void put(Out* o, const Bytes& p) { o->put(p.data(), p.size()); }
static std::span<const uint8_t> sp(const char* s) { return {(const uint8_t*)s, strlen(s)}; }
static const char* const MSG[2] = {"message one", "another, longer message that spans more than a single SHA-256 block of sixty-four bytes"};
static Bytes vec(const char* s) { return Bytes((const uint8_t*)s, (const uint8_t*)s + strlen(s)); }
struct Op { const char* n; void (*f)(const In&, Out*, int); int v; };
#define OP(name, v, ...) {name "/" #v, [](const In& I, Out* o, int V) { (void)I; (void)V; __VA_ARGS__; }, v}
#define OP2(name, ...) OP(name, 0, __VA_ARGS__), OP(name, 1, __VA_ARGS__)
static const Op T[] = {
    OP2("public_key", put(o, public_key(I.sk[V]))),
    OP2("sign", put(o, sign(I.sk[V], sp(MSG[V])))),
    OP2("verify-good", put(o, verify(I.pk[V], sp(MSG[V]), I.sig[V]))),
    OP2("verify-bad", put(o, verify(I.pkj[V], sp(MSG[1 - V]), I.sigj[V]))),
    OP("verify-off-curve", 0, put(o, verify(I.bad1, sp(MSG[0]), I.sig[0]))),
    OP("verify-off-curve", 1, put(o, verify(I.pk[0], sp(MSG[0]), I.bad2))),
    OP2("aggregate_verify", put(o, aggregate_verify(std::array{I.pk[0], I.pk[V]}, std::array{vec(MSG[0]), vec(MSG[V])}, V ? I.aggdiff : I.sig[0].add(I.sig[0]), V))),
    OP2("aggregate_verify-dup", put(o, aggregate_verify(std::array{I.pk[0], I.pk[0]}, std::array{vec(MSG[V]), vec(MSG[V])}, I.aggdiff, true))),
    OP2("fast_aggregate", put(o, pop_fast_aggregate_verify(std::array{I.pk[0], I.pkj[1], I.pk[2]}, sp(MSG[V]), I.aggsame))),
    OP2("pop_prove", put(o, pop_prove(I.sk[V]))),
    OP2("pop_verify", put(o, pop_verify(I.pk[V], I.pop[V]))),
    OP("pop_verify-bad", 0, put(o, pop_verify(I.pk[0], I.pop[1]))),
    OP2("secret_key", put(o, secret_key(std::span<const uint8_t>(I.seed[V], 32 + 31 * V)))),
    OP2("secret_key-short", put(o, secret_key(std::span<const uint8_t>(I.seed[V], 31 * V)))),
    OP2("derive_child_sk", put(o, derive_child_sk(I.sk[V], 7 + V))),
    OP2("derive_sk_unhardened", put(o, derive_child_sk_unhardened(I.sk[V], V))),
    OP2("derive_g1_unhardened", put(o, derive_child_g1_unhardened(I.pkj[V], V))),
    OP2("derive_g2_unhardened", put(o, derive_child_g2_unhardened(I.sigj[V], V))),
    OP2("aggregate_secret_keys", put(o, aggregate_secret_keys(std::span<const SK>(I.sk, 3 + V)))),
    OP2("aggregate_public_keys", put(o, aggregate_public_keys(std::span<const g1>(I.pkj, 3 + V)))),
    OP2("aggregate_signatures", put(o, aggregate_signatures(std::span<const g2>(I.sigj, 3 + V)))),
    OP2("sk_from_bytes", std::array<uint8_t, 32> b; memcpy(b.data(), I.seed[V], 32), put(o, sk_from_bytes(b, true)), put(o, sk_from_bytes(b, false))),
    OP2("fromMessage", put(o, fromMessage(sp(MSG[V]), V ? "BLS_POP_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_" : "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_NUL_"))),
    OP2("fromMessage-longtag", put(o, fromMessage(sp(MSG[V]), std::string(256 + V, 'a' + V)))),
    OP2("xmd", uint8_t b[256]; memset(b, 7, 256), put(o, xmd_sh256(b, 256 - 40 * V, (const uint8_t*)MSG[V], strlen(MSG[V]), (const uint8_t*)"dst", 3)), o->put(b, 256)),
    OP2("xmd-refused", uint8_t b[16]; memset(b, 7, 16), put(o, xmd_sh256(b, V ? 8161 : 16, (const uint8_t*)MSG[V], 4, (const uint8_t*)"dst", V ? 3 : 256)), o->put(b, 16)),
    OP2("hkdf", uint8_t b[100]; memset(b, 7, 100), put(o, hkdf256_extract_expand(b, 65 + 30 * V, I.seed[V], 64, I.seed[1 - V], 5 + V * 50, (const uint8_t*)MSG[V], 9)), o->put(b, 100)),
    OP2("hkdf-refused", uint8_t b[8]; memset(b, 7, 8), put(o, hkdf256_expand(b, V ? 8161 : 0, I.seed[V], (const uint8_t*)MSG[V], 4)), o->put(b, 8)),
    OP2("hmac", uint8_t b[32]; put(o, hkdf256_hmac(b, I.seed[V], 64, (const uint8_t*)MSG[1], V ? strlen(MSG[1]) : 9)), o->put(b, 32)),
    OP2("lamport", uint8_t b[32]; parent_sk_to_lamport_pk(b, I.sk[V], 3), o->put(b, 32)),
    OP2("g1-decompress", put(o, g1::fromCompressedBytesBE(std::span<const uint8_t, 48>(V ? I.c1bad : I.c1[0], 48)))),
    OP2("g2-decompress", put(o, g2::fromCompressedBytesBE(std::span<const uint8_t, 96>(V ? I.c2bad : I.c2[0], 96)))),
    OP("g1-decompress-second", 0, put(o, g1::fromCompressedBytesBE(std::span<const uint8_t, 48>(I.c1[1], 48)))),
    OP("g2-decompress-second", 0, put(o, g2::fromCompressedBytesBE(std::span<const uint8_t, 96>(I.c2[1], 96)))),
    OP2("g1-affine-decode", put(o, g1::fromAffineBytesBE(std::span<const uint8_t, 96>(V ? I.a1bad : I.a1, 96), {.check_valid = true, .to_mont = true}))),
    OP2("g2-jacobian-decode", put(o, g2::fromJacobianBytesBE(std::span<const uint8_t, 288>(V ? I.j2bad : I.j2, 288), {.check_valid = true, .to_mont = true}))),
    OP2("compress", put(o, I.pkj[V].toCompressedBytesBE()), put(o, I.sigj[V].toCompressedBytesBE())),
    OP2("encode", put(o, I.pkj[V].toAffineBytesLE()), put(o, I.sigj[V].toAffineBytesBE()), put(o, I.sigj[V].toJacobianBytesLE())),
    OP2("g1-scale", put(o, I.P[V].scale(I.sk[2 + V]))),
    OP2("g2-scale", put(o, I.Q[V].scale(I.sk[2 + V]))),
    OP2("g1-weightedSum", put(o, g1::weightedSum(std::span<const g1>(I.P, 6 - V), std::span<const SK>(I.wk, 6 - 2 * V)))),
    OP2("g2-weightedSum", put(o, g2::weightedSum(std::span<const g2>(I.Q, 6 - V), std::span<const SK>(I.wk, 6 - 2 * V)))),
    OP2("g1-weightedSum-yield", int k = 0; put(o, g1::weightedSum(std::span<const g1>(I.P, 3 + V), std::span<const SK>(I.wk, 3 + V), [&] { k++; }))),
    OP2("g2-weightedSum-yield", int k = 0; put(o, g2::weightedSum(std::span<const g2>(I.Q, 3 + V), std::span<const SK>(I.wk, 3 + V), [&] { k++; }))),
    OP2("clearCofactor", put(o, I.P[4 + V].clearCofactor()), put(o, I.Q[4 + V].clearCofactor())),
    OP2("membership", put(o, I.P[4 - V].inCorrectSubgroup()), put(o, I.Q[4 - V].inCorrectSubgroup()), put(o, I.P[V].isOnCurve()), put(o, I.Q[V].isOnCurve()), put(o, I.bad1.isOnCurve()), put(o, I.bad2.isOnCurve())),
    OP2("g1-mapToCurve", put(o, g1::mapToCurve(I.a[V]))),
    OP2("g2-mapToCurve", put(o, g2::mapToCurve(I.b[V]))),
    OP2("point-ops", put(o, I.P[V].add(I.P[2])), put(o, I.Q[V].add(I.Q[2])), put(o, I.P[V].dbl()), put(o, I.Q[V].dbl()), put(o, I.P[V].subtract(I.P[V + 1]).affine()), put(o, I.Q[V].subtract(I.Q[V + 1]).affine()), put(o, I.Q[V].psi()), put(o, I.P[V].glvEndomorphism()), put(o, I.Q[V].equal(I.Q[0]))),
    OP2("pairing", std::vector<std::tuple<g1, g2>> v; pr::add_pair(v, I.pkj[V], I.sigj[1 - V]), pr::add_pair(v, g1::zero(), I.sig[0]), pr::add_pair(v, I.pk[2], I.sig[V]), put(o, pr::calculate(v))),
    OP2("pairing-yield", std::vector<std::tuple<g1, g2>> v; int k = 0; pr::add_pair(v, I.pk[V], I.sig[V]), put(o, pr::calculate(v, [&] { k++; }))),
    OP2("gt", put(o, I.gt[V].isGtValid()), put(o, I.t[V].isGtValid()), put(o, I.gt[V].cyclotomicExp(I.sk[0]))),
    OP2("gt-membership", fp12 t = fp12::one().negate(); if (V) t = t.negate(), t.c0.c0.c0 = I.a[0]; put(o, t.isGtValid())),
    OP2("fp12", put(o, I.t[V].multiply(I.t[2])), put(o, I.t[V].inverse()), put(o, I.t[V].square()), put(o, I.t[V].frobeniusMap(3 + V)), put(o, I.t[V].exp(I.wk[1]))),
    OP2("fp6", put(o, I.s[V].multiply(I.s[1 - V])), put(o, I.s[V].inverse()), put(o, I.s[V].square()), put(o, I.s[V].frobeniusMap(1 + V)), put(o, I.s[V].mulByNonResidue())),
    OP2("fp2", fp2 r; put(o, I.b[V].sqrt(r)), put(o, I.b[V].inverse()), put(o, I.b[V].multiply(I.b[2])), put(o, I.b[V].isQuadraticNonResidue()), put(o, I.b[V].isLexicographicallyLargest()), put(o, I.b[V].sign())),
    OP2("fp", fp r; put(o, I.a[V].sqrt(r)), put(o, I.a[V].inverse()), put(o, I.a[V].multiply(I.a[2])), put(o, I.a[V].add(I.a[3])), put(o, I.a[V].exp(fp::pPlus1Over4)), put(o, I.a[V].toBytesBE()), put(o, I.a[V].isQuadraticNonResidue()), put(o, I.a[V].sign())),
    OP2("fp-mod", std::array<uint64_t, 8> k; for (int i = 0; i < 8; i++) k[i] = I.sk[V][i & 3] * (i + 1); put(o, fp::modPrime(k))),
    OP2("scalar-add", try { auto r = scalar::add<4, 4, 4>(I.sk[V], SK{~0ull, ~0ull, ~0ull, V ? ~0ull : 0}); put(o, r); } catch (const std::invalid_argument& e) { o->put(e.what(), strlen(e.what())); }),
    OP2("scalar", auto m = scalar::multiply<8, 4, 4>(I.sk[V], I.sk[2]); o->put(&m, sizeof m); std::array<uint64_t, 8> q; SK r; bn_divn_safe(q, r, m, I.sk[3]), put(o, r), o->put(&q, sizeof q)),
    OP2("hex", Bytes b = hexToBytes(std::string_view((const char*)I.hx, 97 + V)); put(o, b); std::string s = bytesToHex(std::span<const uint8_t>(I.seed[V], 40)); o->put(s.data(), s.size())),
    OP2("sign-cross", put(o, sign(I.sk[V], sp(MSG[1 - V])))),
    OP2("sign-buffer", char m[12]; memcpy(m, "message on?", 12); m[10] = 'd' + V; put(o, sign(I.sk[0], std::span<const uint8_t>((const uint8_t*)m, 11)))),
    OP2("verify-buffer", char m[12]; memcpy(m, "message on?", 12); m[10] = 'd' + V; put(o, verify(I.pk[0], std::span<const uint8_t>((const uint8_t*)m, 11), I.sig[0]))),
    OP2("exported-tags", put(o, vec((V ? POP_CIPHERSUITE_ID : CIPHERSUITE_ID).c_str()))),
    OP2("fromMessage-tag", put(o, fromMessage(sp(MSG[0]), V ? "BLS_POP_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_" : "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_NUL"))),
    OP2("secret_key-near", uint8_t s[33]; memcpy(s, I.seed[0], 33); s[31] ^= !V; put(o, secret_key(std::span<const uint8_t>(s, 32 + V)))),
    OP2("derive-near", put(o, derive_child_sk(I.sk[0], V ? 8 : 0x80000007u)), put(o, derive_child_sk_unhardened(I.sk[0], V + 8))),
    OP2("public_key-near", SK k = I.sk[0]; k[V * 3] ^= 1; put(o, public_key(k))),
    OP2("hmac-near", uint8_t b[32], k[64]; memcpy(k, I.seed[0], 64); k[63] ^= 1 + V; put(o, hkdf256_hmac(b, I.seed[0], 64, k, 64)), o->put(b, 32)),
    OP2("g1-weightedSum-near", SK w[3] = {I.wk[2], I.wk[3], I.wk[0]}; w[V] = I.wk[5]; put(o, g1::weightedSum(std::span<const g1>(I.P, 3), std::span<const SK>(w, 3)))),
    OP2("g2-weightedSum-near", SK w[3] = {I.wk[2], I.wk[3], I.wk[0]}; w[V] = I.wk[5]; put(o, g2::weightedSum(std::span<const g2>(I.Q, 3), std::span<const SK>(w, 3)))),
    OP2("pairing-near", std::vector<std::tuple<g1, g2>> v; pr::add_pair(v, I.pk[V], I.sig[2]); put(o, pr::calculate(v))),
    OP2("g2-mapToCurve-near", fp2 t = I.b[0]; t.c1 = I.a[V]; put(o, g2::mapToCurve(t))),
    OP2("aggregate_verify-one", put(o, aggregate_verify(std::array{I.pk[V]}, std::array{vec(MSG[V])}, I.sig[V], V))),
    OP("g1-weightedSum-large", 0, std::vector<g1> p; std::vector<SK> w; for (int i = 0; i < 40; i++) p.push_back(I.P[i % 4]), w.push_back(I.wk[i % 6]); put(o, g1::weightedSum(p, w))),
    OP("g2-weightedSum-large", 0, std::vector<g2> p; std::vector<SK> w; for (int i = 0; i < 33; i++) p.push_back(I.Q[i % 4]), w.push_back(I.wk[i % 6]); put(o, g2::weightedSum(p, w))),
    OP("pairing-many", 0, std::vector<std::tuple<g1, g2>> v; for (int i = 0; i < 9; i++) pr::add_pair(v, I.pk[i % 4], I.sig[(i * 3 + 1) % 4]); put(o, pr::calculate(v))),
    OP("aggregate_verify-many", 0, std::vector<g1> k; std::vector<Bytes> m; for (int i = 0; i < 4; i++) k.push_back(I.pk[i]), m.push_back(Bytes(40 * i + 3, i)); put(o, aggregate_verify(k, m, I.aggdiff, true))),
    OP2("ikm_to_lamport", uint8_t b[8160]; ikm_to_lamport_sk(b, I.seed[V], 32 + V, I.seed[1 - V], 4), o->put(b, 64), o->put(b + 8000, 160)),
    OP2("hkdf_extract", uint8_t b[32]; memset(b, 7, 32), put(o, hkdf256_extract(b, I.seed[V], 20, I.seed[1 - V], 64 * V)), o->put(b, 32)),
    OP2("sha256", sha256 h; h.update(I.seed[V], 64), h.update(MSG[V]); auto d = h.digest(); put(o, d); std::string s = sha256::toString(d); o->put(s.data(), s.size())),
    OP2("aggregate_verify-dup-apart", put(o, aggregate_verify(std::array{I.pk[0], I.pk[1], I.pk[0]}, std::array{vec(MSG[0]), vec(MSG[1]), vec(MSG[0])}, I.sig[0].add(I.sig[1]).add(I.sig[0]), V))),
    OP2("aggregate_verify-dup-far", std::vector<g1> k; std::vector<Bytes> m; g2 s = g2::zero(); for (int i = 0; i < 6; i++) { int j = i == 5 && V ? 1 : i; m.push_back(Bytes(70 + j % 2, j)), k.push_back(I.pk[i & 1]), s = s.add(sign(I.sk[i & 1], m[i])); } put(o, aggregate_verify(k, m, s, true))),
    OP2("aggregate_verify-subgroup", put(o, aggregate_verify(std::array{V ? I.pk[0] : I.P[4], V ? I.P[5] : I.pk[0]}, std::array{vec(MSG[!V]), vec(MSG[!!V])}, V ? I.sig[0] : I.sig[0], true))),
    OP2("aggregate_verify-shifted", put(o, aggregate_verify(std::array{I.pk[0].add(I.P[4 + V]), I.pk[2].subtract(I.P[4 + V])}, std::array{vec(MSG[0]), vec(MSG[0])}, I.sig[0].add(I.sig[2]), false))),
    OP2("aggregate_verify-mismatch", put(o, aggregate_verify(std::array{I.pk[0], I.pk[1], I.pk[2]}, std::array{vec(MSG[0]), vec(MSG[1])}, I.aggdiff, V)), put(o, aggregate_verify(std::array{I.pk[0], I.pk[1]}, std::array{vec(MSG[0]), vec(MSG[1]), vec("x")}, I.aggdiff, V))),
    OP2("verify-subgroup", put(o, V ? verify(I.pk[0].add(I.P[4]), sp(MSG[0]), I.sig[0]) : verify(I.pk[0], sp(MSG[0]), I.sig[0].add(I.Q[4])))),
    OP2("verify-infinity", put(o, verify(g1::zero(), sp(MSG[0]), V ? g2::zero() : I.sig[0])), put(o, verify(I.pk[0], sp(MSG[0]), g2::zero()))),
    OP2("pop_verify-subgroup", put(o, V ? pop_verify(I.pk[0].add(I.P[4]), I.pop[0]) : pop_verify(I.pk[0], I.pop[0].add(I.Q[5])))),
    OP2("fast_aggregate-wrong", put(o, pop_fast_aggregate_verify(std::array{I.pk[0], V ? I.P[4] : I.pk[1], I.pk[3]}, sp(MSG[0]), I.aggsame)), put(o, pop_fast_aggregate_verify(std::span<const g1>(), sp(MSG[0]), g2::zero()))),
    OP2("pairing-large", std::vector<std::tuple<g1, g2>> v; int k = 0; for (int i = 0; i < 21 + V; i++) pr::add_pair(v, I.pk[i % 4], I.sig[(i * 3 + 1) % 4]); put(o, pr::calculate(v, [&] { k++; }))),
};
extern "C" int ops_count() { return sizeof T / sizeof *T; }
extern "C" const char* ops_name(int i) { return T[i].n; }
extern "C" void ops_run(int i, const In* in, Out* o) {
    o->n = 0;
    try { T[i].f(*in, o, T[i].v); }
    catch (const std::bad_alloc&) { o->n = 0; o->put("!bad_alloc", 10); }
    catch (const std::exception& e) { o->n = 0; o->put("!exception", 10); }
}
extern "C" size_t ops_insize() { return sizeof(In); }
extern "C" void ops_setup(In* in) {
    In& I = *new (in) In;
    for (int v = 0; v < 2; v++) for (int i = 0; i < 64; i++) I.seed[v][i] = (uint8_t)(17 * i + 91 * v + (i >> 2) * 29 + 3);
    for (int i = 0; i < 4; i++) { uint8_t s[33]; memcpy(s, I.seed[i & 1], 32); s[32] = i; I.sk[i] = secret_key(std::span<const uint8_t>(s, 33)); I.pk[i] = public_key(I.sk[i]); g1 j = I.pk[i].dbl(); I.pkj[i] = j.subtract(I.pk[i]); I.sig[i] = sign(I.sk[i], sp(MSG[i & 1])).affine(); g2 k = I.sig[i].dbl(); I.sigj[i] = k.subtract(I.sig[i]); I.pop[i] = pop_prove(I.sk[i]); }
    for (int i = 0; i < 6; i++) I.wk[i] = I.sk[i & 3]; I.wk[1] = {5, 0, 0, 0}; I.wk[4] = {0, 0, 0, 0};
    for (int i = 0; i < 4; i++) { I.P[i] = I.pkj[i]; I.Q[i] = I.sigj[i]; I.a[i] = I.pk[i].x; I.b[i] = I.sig[i].x; }
    uint64_t k = 3; for (int f = 4; f < 6; k++) { fp x = fp({k, 0, 0, 0, 0, 0}).toMont(), y; if (x.square().multiply(x).add(fp::B).sqrt(y)) { I.P[f] = g1({x, y, fp::one()}); f++; } }
    for (int f = 4; f < 6; k++) { fp2 x = fp2({fp({k, 0, 0, 0, 0, 0}).toMont(), fp::one()}), y; if (x.square().multiply(x).add(fp2::B).sqrt(y)) { I.Q[f] = g2({x, y, fp2::one()}); f++; } }
    I.bad1 = I.pk[0]; I.bad1.y = I.bad1.x; I.bad2 = I.sig[0]; I.bad2.y = I.bad2.x;
    I.s[0] = fp6({I.b[0], I.b[1], I.b[2]}); I.s[1] = fp6({I.b[3], I.sig[0].y, I.sig[1].y}); I.t[0] = fp12({I.s[0], I.s[1]}); I.t[1] = fp12({I.s[1], I.s[0]}); I.t[2] = fp12({I.s[0], I.s[0]}); I.t[3] = fp12({I.s[1], I.s[1]});
    for (int i = 0; i < 2; i++) { std::vector<std::tuple<g1, g2>> v; pr::add_pair(v, I.pk[i], I.sig[i]); I.gt[i] = pr::calculate(v); }
    for (int i = 0; i < 2; i++) { I.pk[i].toCompressedBytesBE(std::span<uint8_t, 48>(I.c1[i], 48)); I.sig[i].toCompressedBytesBE(std::span<uint8_t, 96>(I.c2[i], 96)); }
    memset(I.c1bad, 0xff, 48); memset(I.c2bad, 0, 96); I.c2bad[0] = 0x80; I.c2bad[95] = 1; for (int t = 0; t < 200 && g2::fromCompressedBytesBE(std::span<const uint8_t, 96>(I.c2bad, 96)); t++) I.c2bad[95]++;
    auto a = I.pk[0].toAffineBytesBE(); memcpy(I.a1, a.data(), 96); memcpy(I.a1bad, a.data(), 96); I.a1bad[95] ^= 1; auto j = I.sigj[0].toJacobianBytesBE(); memcpy(I.j2, j.data(), 288); memcpy(I.j2bad, j.data(), 288); I.j2bad[100] ^= 1;
    I.aggsame = sign(I.sk[0], sp(MSG[0])).add(sign(I.sk[1], sp(MSG[0]))).add(sign(I.sk[2], sp(MSG[0]))); I.aggdiff = I.sig[0].add(I.sig[1]);
    memset(I.hx, 'a', sizeof I.hx); for (int i = 0; i < 160; i++) I.hx[i] = "0123456789abcdefABCDEF"[(i * 7 + 3) % 22];
}
// ---- functions of a byte string, for histories of near-equal inputs (C21) ----
namespace {
typedef const uint8_t* CB;
struct VOp { const char* n; size_t len; bool anyLength; void (*f)(const In&, CB, size_t, Out*); };
SK k4(CB x) { SK k; memcpy(k.data(), x, 32); return k; }
uint32_t u4(CB x) { uint32_t k; memcpy(&k, x, 4); return k; }
fp f64(CB x) { std::array<uint64_t, 8> k; memcpy(k.data(), x, 64); return fp::modPrime(k); }
fp2 f128(CB x) { return fp2({f64(x), f64(x + 64)}); }
std::span<const uint8_t> sv(CB x, size_t n) { return {x, n}; }
g1 zrep(const g1& p, const fp& z) { fp z2 = z.square(); return g1({p.x.multiply(z2), p.y.multiply(z2.multiply(z)), z}); }
g2 zrep(const g2& p, const fp2& z) { fp2 z2 = z.square(); return g2({p.x.multiply(z2), p.y.multiply(z2.multiply(z)), z}); }
#define V(name, len, any, ...) {name, len, any, [](const In& I, CB x, size_t n, Out* o) { (void)I; (void)n; __VA_ARGS__; }}
const VOp W[] = {
    V("public_key(key)", 32, false, put(o, public_key(k4(x)))),
    V("sign(key)", 32, false, put(o, sign(k4(x), sp(MSG[0])))),
    V("sign(message)", 150, true, put(o, sign(I.sk[0], sv(x, n)))),
    V("pop_prove(key)", 32, false, put(o, pop_prove(k4(x)))),
    V("verify(message)", 40, true, put(o, verify(I.pk[0], sv(x, n), I.sig[0]))),
    V("verify(key)", 32, false, g1 p = g1::one().scale(k4(x)); put(o, verify(p, sp(MSG[0]), I.sig[0]))),
    V("verify(signature)", 32, false, g2 s = I.sig[0].scale(k4(x)); put(o, verify(I.pk[0], sp(MSG[0]), s))),
    V("verify(correct, key)", 32, false, g1 p = g1::one().scale(k4(x)); g2 s = fromMessage(sp(MSG[0]), "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_NUL_").scale(k4(x)); put(o, verify(p, sp(MSG[0]), s)), put(o, verify(p, sp(MSG[0]), I.sig[0]))),
    V("aggregate_verify(messages)", 64, false, std::vector<Bytes> m = {Bytes(x, x + 32), Bytes(x + 32, x + 64)}; put(o, aggregate_verify(std::array{I.pk[0], I.pk[1]}, m, I.aggdiff, true)), put(o, aggregate_verify(std::array{I.pk[0], I.pk[1]}, m, I.aggdiff, false))),
    V("pop_verify(key)", 32, false, g1 p = g1::one().scale(k4(x)); put(o, pop_verify(p, I.pop[0]))),
    V("fast_aggregate(message)", 40, true, put(o, pop_fast_aggregate_verify(std::array{I.pk[0], I.pk[1], I.pk[2]}, sv(x, n), I.aggsame))),
    V("fromMessage(message)", 200, true, put(o, fromMessage(sv(x, n), "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_NUL_"))),
    V("fromMessage(tag)", 43, true, put(o, fromMessage(sp(MSG[0]), std::string((const char*)x, n)))),
    V("fromMessage(long tag)", 300, true, put(o, fromMessage(sp(MSG[0]), std::string((const char*)x, n)))),
    V("secret_key(seed)", 48, true, put(o, secret_key(sv(x, n)))),
    V("derive_child_sk(key, index)", 36, false, put(o, derive_child_sk(k4(x), u4(x + 32)))),
    V("derive_child_sk_unhardened(key, index)", 36, false, put(o, derive_child_sk_unhardened(k4(x), u4(x + 32)))),
    V("derive_child_g1_unhardened(key, index)", 36, false, put(o, derive_child_g1_unhardened(g1::one().scale(k4(x)), u4(x + 32)))),
    V("derive_child_g2_unhardened(key, index)", 36, false, put(o, derive_child_g2_unhardened(g2::one().scale(k4(x)), u4(x + 32)))),
    V("sk_from_bytes", 32, false, std::array<uint8_t, 32> b; memcpy(b.data(), x, 32), put(o, sk_from_bytes(b, true)), put(o, sk_from_bytes(b, false)), put(o, sk_to_bytes(k4(x)))),
    V("aggregate_secret_keys", 64, false, SK k[2] = {k4(x), k4(x + 32)}; k[0][3] &= ~0ull >> 2, k[1][3] &= ~0ull >> 2, put(o, aggregate_secret_keys(std::span<const SK>(k, 2)))),
    V("aggregate_public_keys", 32, false, g1 k[3] = {I.pkj[0], g1::one().scale(k4(x)), I.pkj[1]}; put(o, aggregate_public_keys(std::span<const g1>(k, 3)))),
    V("aggregate_signatures", 32, false, g2 k[3] = {I.sigj[0], g2::one().scale(k4(x)), I.sigj[1]}; put(o, aggregate_signatures(std::span<const g2>(k, 3)))),
    V("g1::scale(scalar)", 32, false, put(o, I.P[0].scale(k4(x)))),
    V("g2::scale(scalar)", 32, false, put(o, I.Q[0].scale(k4(x)))),
    V("g1::scale(point)", 32, false, put(o, g1::one().scale(k4(x)).scale(I.sk[1]))),
    V("g2::scale(point)", 32, false, put(o, g2::one().scale(k4(x)).scale(I.sk[1]))),
    V("g1::weightedSum(scalars)", 96, false, SK k[3] = {k4(x), k4(x + 32), k4(x + 64)}; put(o, g1::weightedSum(std::span<const g1>(I.P, 3), std::span<const SK>(k, 3)))),
    V("g2::weightedSum(scalars)", 96, false, SK k[3] = {k4(x), k4(x + 32), k4(x + 64)}; put(o, g2::weightedSum(std::span<const g2>(I.Q, 3), std::span<const SK>(k, 3)))),
    V("g1::weightedSum(point)", 32, false, g1 p[3] = {I.P[0], g1::one().scale(k4(x)), I.P[1]}; put(o, g1::weightedSum(std::span<const g1>(p, 3), std::span<const SK>(I.sk, 3)))),
    V("g2::weightedSum(point)", 32, false, g2 p[3] = {I.Q[0], g2::one().scale(k4(x)), I.Q[1]}; put(o, g2::weightedSum(std::span<const g2>(p, 3), std::span<const SK>(I.sk, 3)))),
    V("g1 decompress", 48, false, put(o, g1::fromCompressedBytesBE(std::span<const uint8_t, 48>(x, 48)))),
    V("g2 decompress", 96, false, put(o, g2::fromCompressedBytesBE(std::span<const uint8_t, 96>(x, 96)))),
    V("g1 affine decode", 96, false, put(o, g1::fromAffineBytesBE(std::span<const uint8_t, 96>(x, 96), {.check_valid = true, .to_mont = true})), put(o, g1::fromAffineBytesLE(std::span<const uint8_t, 96>(x, 96), {.check_valid = true, .to_mont = false}))),
    V("g2 affine decode", 192, false, put(o, g2::fromAffineBytesBE(std::span<const uint8_t, 192>(x, 192), {.check_valid = true, .to_mont = true})), put(o, g2::fromAffineBytesLE(std::span<const uint8_t, 192>(x, 192), {.check_valid = true, .to_mont = false}))),
    V("g1 jacobian decode", 144, false, put(o, g1::fromJacobianBytesBE(std::span<const uint8_t, 144>(x, 144), {.check_valid = true, .to_mont = true}))),
    V("g2 jacobian decode", 288, false, put(o, g2::fromJacobianBytesBE(std::span<const uint8_t, 288>(x, 288), {.check_valid = true, .to_mont = true}))),
    V("g1 predicates(z)", 64, false, g1 p = zrep(I.pk[0], f64(x)), q = zrep(I.P[4], f64(x)); put(o, p.affine()), put(o, p.isOnCurve()), put(o, p.inCorrectSubgroup()), put(o, q.inCorrectSubgroup()), put(o, p.toCompressedBytesBE()), put(o, p.equal(I.pk[0])), put(o, p.equal(I.pk[1])), put(o, q.clearCofactor())),
    V("g2 predicates(z)", 128, false, g2 p = zrep(I.sig[0], f128(x)), q = zrep(I.Q[4], f128(x)); put(o, p.affine()), put(o, p.isOnCurve()), put(o, p.inCorrectSubgroup()), put(o, q.inCorrectSubgroup()), put(o, p.toCompressedBytesBE()), put(o, p.equal(I.sig[0])), put(o, p.equal(I.sig[1])), put(o, q.clearCofactor())),
    V("g1 arithmetic(point)", 32, false, g1 p = g1::one().scale(k4(x)); put(o, p.add(I.P[1])), put(o, p.subtract(I.P[1])), put(o, p.dbl()), put(o, p.negate()), put(o, p.affine()), put(o, p.glvEndomorphism()), put(o, p.clearCofactor()), put(o, p.inCorrectSubgroup()), put(o, p.toAffineBytesBE())),
    V("g2 arithmetic(point)", 32, false, g2 p = g2::one().scale(k4(x)); put(o, p.add(I.Q[1])), put(o, p.subtract(I.Q[1])), put(o, p.dbl()), put(o, p.negate()), put(o, p.affine()), put(o, p.psi()), put(o, p.clearCofactor()), put(o, p.inCorrectSubgroup()), put(o, p.toAffineBytesBE())),
    V("g1::mapToCurve", 64, false, put(o, g1::mapToCurve(f64(x)))),
    V("g2::mapToCurve", 128, false, put(o, g2::mapToCurve(f128(x)))),
    V("fp", 64, false, fp a = f64(x), r; put(o, a), put(o, a.inverse()), put(o, a.sqrt(r)), put(o, a.isQuadraticNonResidue()), put(o, a.sign()), put(o, a.isLexicographicallyLargest()), put(o, a.multiply(I.a[1])), put(o, a.exp(I.sk[0])), put(o, a.toBytesBE()), put(o, a.toBytesLE())),
    V("fp2", 128, false, fp2 a = f128(x), r; put(o, a.inverse()), put(o, a.sqrt(r)), put(o, a.isQuadraticNonResidue()), put(o, a.sign()), put(o, a.isLexicographicallyLargest()), put(o, a.multiply(I.b[1])), put(o, a.exp(I.sk[0])), put(o, a.toBytesBE())),
    V("fp12", 128, false, fp12 t = I.t[0]; t.c1.c1 = f128(x); put(o, t.inverse()), put(o, t.multiply(I.t[1])), put(o, t.frobeniusMap(3)), put(o, t.isGtValid()), put(o, t.exp(I.wk[1]))),
    V("cyclotomicExp(exponent)", 32, false, put(o, I.gt[0].cyclotomicExp(k4(x)))),
    V("fp decode", 48, false, put(o, fp::fromBytesBE(std::span<const uint8_t, 48>(x, 48), {.check_valid = true, .to_mont = true})), put(o, fp::fromBytesLE(std::span<const uint8_t, 48>(x, 48), {.check_valid = true, .to_mont = true}))),
    V("pairing(g1)", 32, false, std::vector<std::tuple<g1, g2>> v; pr::add_pair(v, g1::one().scale(k4(x)), I.sigj[0]); put(o, pr::calculate(v))),
    V("pairing(g2)", 32, false, std::vector<std::tuple<g1, g2>> v; pr::add_pair(v, I.pkj[0], g2::one().scale(k4(x))); put(o, pr::calculate(v))),
    V("hmac(key)", 64, true, uint8_t b[32]; put(o, hkdf256_hmac(b, (CB)MSG[1], 50, x, n)), o->put(b, 32)),
    V("hmac(message)", 140, true, uint8_t b[32]; put(o, hkdf256_hmac(b, x, n, I.seed[0], 32)), o->put(b, 32)),
    V("hkdf(salt)", 40, true, uint8_t b[72]; put(o, hkdf256_extract_expand(b, 72, I.seed[0], 48, x, n, (CB)MSG[0], 9)), o->put(b, 72)),
    V("hkdf(input)", 80, true, uint8_t b[72]; put(o, hkdf256_extract_expand(b, 72, x, n, I.seed[0], 32, (CB)MSG[0], 9)), o->put(b, 72)),
    V("hkdf(info)", 80, true, uint8_t b[72]; put(o, hkdf256_extract_expand(b, 72, I.seed[1], 32, I.seed[0], 32, x, n)), o->put(b, 72)),
    V("xmd(message)", 140, true, uint8_t b[96]; put(o, xmd_sh256(b, 96, x, n, (CB)MSG[0], 11)), o->put(b, 96)),
    V("xmd(tag)", 60, true, uint8_t b[96]; put(o, xmd_sh256(b, 96, (CB)MSG[0], 11, x, (int)n)), o->put(b, 96)),
    V("sha256", 200, true, sha256 h; h.update(x, n / 3), h.update(x + n / 3, n - n / 3); auto d = h.digest(); put(o, d); std::string s = sha256::toString(d); o->put(s.data(), s.size())),
    V("lamport(key, index)", 36, false, uint8_t b[32]; parent_sk_to_lamport_pk(b, k4(x), u4(x + 32)), o->put(b, 32)),
    V("hex", 64, true, std::string t = bytesToHex(sv(x, n)); o->put(t.data(), t.size()); put(o, hexToBytes(t)); put(o, hexToBytes(std::string_view((const char*)x, n)))),
    V("scalar", 64, false, auto m = scalar::multiply<8, 4, 4>(k4(x), k4(x + 32)); o->put(&m, sizeof m); std::array<uint64_t, 8> q; SK r; bn_divn_safe(q, r, m, fp::Q), put(o, r), o->put(&q, sizeof q); SK s; scalar::rsh(s, k4(x), x[63]), put(o, s)),
};
#undef V
}
extern "C" int vops_count() { return sizeof W / sizeof *W; }
extern "C" const char* vops_name(int i) { return W[i].n; }
extern "C" bool vops_any(int i) { return W[i].anyLength; }
// the base input of function i: deterministic bytes, or an encoding the function accepts
extern "C" size_t vops_base(int i, const In* in, uint8_t* b) {
    std::string n = W[i].n; size_t len = W[i].len; for (size_t k = 0; k < len; k++) b[k] = (uint8_t)(k * 37 + (k >> 3) * 11 + i * 13 + 5); const In& I = *in;
    if (n.find("(key") != n.npos || n.find("scalar)") != n.npos || n.find("(point") != n.npos || n.find("pairing") == 0 || n.find("aggregate_") == 0) b[31] &= 0x3f;
    if (n == "verify(message)" || n == "fast_aggregate(message)") { len = strlen(MSG[0]); memcpy(b, MSG[0], len); }
    if (n == "verify(key)" || n == "pop_verify(key)") memcpy(b, I.sk[0].data(), 32); if (n == "verify(signature)") { memset(b, 0, 32); b[0] = 1; }
    if (n == "g1 decompress") memcpy(b, I.c1[0], 48); if (n == "g2 decompress") memcpy(b, I.c2[0], 96);
    if (n == "g1 affine decode") { auto a = I.pk[1].toAffineBytesBE(); memcpy(b, a.data(), 96); } if (n == "g2 affine decode") { auto a = I.sig[1].toAffineBytesBE(); memcpy(b, a.data(), 192); }
    if (n == "g1 jacobian decode") { auto a = I.pkj[1].toJacobianBytesBE(); memcpy(b, a.data(), 144); } if (n == "g2 jacobian decode") { auto a = I.sigj[1].toJacobianBytesBE(); memcpy(b, a.data(), 288); }
    if (n == "fp decode") { auto a = I.a[0].toBytesBE(); memcpy(b, a.data(), 48); b[47] &= 7; }
    return len;
}
extern "C" void vops_run(int i, const In* in, const uint8_t* x, size_t n, Out* o) {
    o->n = 0;
    try { W[i].f(*in, x, n, o); }
    catch (const std::bad_alloc&) { o->n = 0; o->put("!bad_alloc", 10); }
    catch (const std::exception&) { o->n = 0; o->put("!exception", 10); }
}

// functions of a list of n members (or of n bytes): used to explore how resource use depends on the size of the input
namespace { struct Lop { const char* n; int unit; void (*f)(const In&, size_t, Out*); };
#define L(name, unit, ...) {name, unit, [](const In& I, size_t n, Out* o) { (void)I; __VA_ARGS__; }}
static std::vector<g1> keys(const In& I, size_t n) { std::vector<g1> r; for (size_t i = 0; i < n; i++) r.push_back(I.pk[i % 4]); return r; }
static std::vector<g2> sigs(const In& I, size_t n) { std::vector<g2> r; for (size_t i = 0; i < n; i++) r.push_back(I.sig[i % 4]); return r; }
static std::vector<SK> scal(const In& I, size_t n) { std::vector<SK> r; for (size_t i = 0; i < n; i++) r.push_back(I.wk[i % 6]), r[i][0] += i; return r; }
static Bytes text(size_t n) { Bytes b(n); for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(i * 7 + (i >> 8)); return b; }
// unit: members per thousand of the largest list explored (see the explorer)
static const Lop LT[] = {
    L("g1 weighted sum", 20, std::vector<g1> p; for (size_t i = 0; i < n; i++) p.push_back(I.P[i % 4]); put(o, g1::weightedSum(p, scal(I, n)))),
    L("g2 weighted sum", 8, std::vector<g2> p; for (size_t i = 0; i < n; i++) p.push_back(I.Q[i % 4]); put(o, g2::weightedSum(p, scal(I, n)))),
    L("aggregate keys", 100, put(o, aggregate_public_keys(keys(I, n)))),
    L("aggregate signatures", 100, put(o, aggregate_signatures(sigs(I, n)))),
    L("aggregate secrets", 200, put(o, aggregate_secret_keys(scal(I, n)))),
    L("pairing product", 3, std::vector<std::tuple<g1, g2>> v; for (size_t i = 0; i < n; i++) pr::add_pair(v, I.pk[i % 4], I.sig[(i * 3 + 1) % 4]); put(o, pr::calculate(v))),
    L("aggregate_verify", 1, std::vector<Bytes> m; for (size_t i = 0; i < n; i++) m.push_back(Bytes(8, 0)), memcpy(m[i].data(), &i, 8); put(o, aggregate_verify(keys(I, n), m, I.aggdiff, true))),
    L("fast aggregate verify", 100, put(o, pop_fast_aggregate_verify(keys(I, n), sp(MSG[0]), I.aggsame))),
    L("sign", 4000, put(o, sign(I.sk[0], text(n)))),
    L("verify", 4000, put(o, verify(I.pk[0], text(n), I.sig[0]))),
    L("hash to point", 4000, put(o, fromMessage(text(n), "tag"))),
    L("hash to point, long tag", 4000, Bytes t = text(n); put(o, fromMessage(sp("message"), std::string(t.begin(), t.end())))),
    L("key from seed", 4000, put(o, secret_key(text(n)))),
    L("hmac key", 4000, uint8_t b[32]; Bytes t = text(n); put(o, hkdf256_hmac(b, t.data(), (int)n, t.data(), 9)), o->put(b, 32)),
    L("hkdf", 4000, uint8_t b[100]; Bytes t = text(n); put(o, hkdf256_extract_expand(b, 100, t.data(), (int)n, t.data(), (int)n, t.data(), (int)n)), o->put(b, 100)),
    L("xmd", 4000, uint8_t b[100]; Bytes t = text(n); put(o, xmd_sh256(b, 100, t.data(), n, (const uint8_t*)"dst", 3)), o->put(b, 100)),
    L("sha256", 4000, sha256 h; Bytes t = text(n); h.update(t.data(), t.size()); put(o, h.digest())),
    L("hex", 2000, std::string s = bytesToHex(text(n)); o->put(s.data(), s.size()); o->put(s.data() + s.size() - 64, 64); Bytes b = hexToBytes(s); put(o, Bytes(b.end() - 64, b.end())), put(o, (int)b.size())),
}; }
extern "C" int lops_count() { return sizeof LT / sizeof *LT; }
extern "C" const char* lops_name(int i) { return LT[i].n; }
extern "C" int lops_unit(int i) { return LT[i].unit; }
extern "C" void lops_run(int i, const In* in, size_t n, Out* o) {
    o->n = 0;
    try { LT[i].f(*in, n, o); }
    catch (const std::bad_alloc&) { o->n = 0; o->put("!bad_alloc", 10); }
    catch (const std::exception&) { o->n = 0; o->put("!exception", 10); }
}
