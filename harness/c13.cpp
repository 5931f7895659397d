// C13: hash-to-curve follows the standard for every message and domain tag.
#include "lib.hpp"
#include <sys/mman.h>
using namespace lx;
static std::string hx(const Bytes& b) { return mc::hex(b.data(), b.size()); }
// deterministic contents: kind 0 zeros, 1 0xff, 2 hash stream, 3 counter
static Bytes content(size_t n, int kind) {
    Bytes b(n, kind == 1 ? 0xff : 0);
    if (kind == 2) for (size_t i = 0; i < n; i += 32) { Bytes h = ref::shaB(ref::i2osp(i + 77, 4)); for (size_t j = 0; j < 32 && i + j < n; j++) b[i + j] = h[j]; }
    if (kind == 3) for (size_t i = 0; i < n; i++) b[i] = (u8)(i + 1);
    return b;
}
static void xmd(mc::Ctx& c, const Bytes& msg, const Bytes& dst, long L) {
    size_t cap = L > 0 ? (size_t)L : 0; Bytes buf(cap + 128, 0xa5); for (size_t i = 0; i < buf.size(); i++) buf[i] = (u8)(0xa5 + i * 7); Bytes before = buf, m0 = msg, d0 = dst;
    int r = B::xmd_sh256(buf.data() + 64, (int)L, msg.data(), (int)msg.size(), dst.data(), (int)dst.size()); c.op(1);
    auto in = [&] { return "xmd msg_len=" + std::to_string(msg.size()) + " dst_len=" + std::to_string(dst.size()) + " out_len=" + std::to_string(L) + " msg=" + hx(msg).substr(0, 80); };
    if (c.verbose) c.note = in();
    bool refuse = L < 0 || L > 255 * 32 || dst.size() > 255;
    c.check(refuse ? r != 0 : r == 0, [&] { return in() + ": return code " + std::to_string(r); });
    c.check(msg == m0 && dst == d0, [&] { return in() + ": input modified"; });
    if (refuse) { c.check(buf == before, [&] { return in() + ": refused but output written"; }); return; }
    Bytes w = ref::xmd(msg, dst, cap); c.check(Bytes(buf.begin() + 64, buf.begin() + 64 + cap) == w, [&] { return in() + ": got " + hx(Bytes(buf.begin() + 64, buf.begin() + 64 + cap)).substr(0, 200) + " want " + hx(w).substr(0, 200); });
    for (size_t i = 0; i < buf.size(); i++) if (i < 64 || i >= 64 + cap) if (buf[i] != before[i]) { c.fail(in() + ": wrote outside the output at offset " + std::to_string((long)i - 64)); break; }
    c.state(H(w) ^ cap * 31);
}
static void h2c(mc::Ctx& c, const Bytes& msg, const std::string& dst) {
    auto in = [&] { return "fromMessage msg_len=" + std::to_string(msg.size()) + " dst_len=" + std::to_string(dst.size()) + " msg=" + hx(msg).substr(0, 80); };
    if (c.verbose) c.note = in();
    Bytes m0 = msg; std::string d0 = dst; g2 p = B::fromMessage(msg, dst); c.op(1); P2 w = ref::hash2(msg, ref::str(dst));
    c.check(same(p, w), [&] { return in() + ": got " + S(R(p)) + " want " + S(w); }); c.check(canon(p), [&] { return in() + ": coordinates not reduced"; });
    c.check(p.isOnCurve() && p.inCorrectSubgroup() && ref::insub(R(p)), [&] { return in() + ": result not in the subgroup"; });
    c.check(msg == m0 && dst == d0, [&] { return in() + ": input modified"; }); c.state(H(w));
}
static void m1(mc::Ctx& c, const Fe& u, bool full) {
    auto in = [&] { return "G1 map of " + S(ref::toz(u)); }; if (c.verbose) c.note = in();
    fp lu = L(u), lu0 = lu; auto [x, y] = g1::swuMapG1(lu); c.op(1); P1 w = ref::sswu1(u); c.check(R(x) == w.x && R(y) == w.y, [&] { return in() + ": swu got (" + S(x) + "," + S(y) + ") want (" + S(w.x) + "," + S(w.y) + ")"; });
    P1 wi = ref::iso1(w); fp ix = L(w.x), iy = L(w.y); if (!ref::isinf(wi)) { g1::isogenyMapG1(ix, iy); c.op(1); c.check(R(ix) == wi.x && R(iy) == wi.y, [&] { return in() + ": isogeny image differs"; }); }
    if (full) { g1 p = g1::mapToCurve(lu); c.op(1); P1 f = ref::norm(ref::smul(wi, ref::HEFF1())); c.check(same(p, f) && canon(p), [&] { return in() + ": mapToCurve got " + S(p) + " want " + S(f); }); c.check(p.isOnCurve() && p.inCorrectSubgroup(), [&] { return in() + ": not in the subgroup"; }); c.state(H(f)); }
    c.check(lu.d == lu0.d, [&] { return in() + ": input modified"; }); c.state(H(w));
}
static void m2(mc::Ctx& c, const F2& u, bool full) {
    auto in = [&] { return "G2 map of (" + S(ref::toz(u.a)) + "," + S(ref::toz(u.b)) + ")"; }; if (c.verbose) c.note = in();
    fp2 lu = L(u), lu0 = lu; auto [x, y] = g2::swuMapG2(lu); c.op(1); P2 w = ref::sswu2(u); c.check(R(x) == w.x && R(y) == w.y, [&] { return in() + ": swu got (" + S(x) + "," + S(y) + ") want (" + S(w.x) + "," + S(w.y) + ")"; });
    P2 wi = ref::iso2(w); g2 q = g2({L(w.x), L(w.y), fp2::one()}).isogenyMap(); c.op(1); c.check(same(q, wi) && canon(q), [&] { return in() + ": isogeny image differs"; });
    if (full) { g2 p = g2::mapToCurve(lu); c.op(1); P2 f = ref::norm(ref::smul(wi, ref::HEFF2())); c.check(same(p, f) && canon(p), [&] { return in() + ": mapToCurve got " + S(p) + " want " + S(f); }); c.check(p.isOnCurve() && p.inCorrectSubgroup(), [&] { return in() + ": not in the subgroup"; }); c.state(H(f)); }
    c.check(bits(lu, lu0), [&] { return in() + ": input modified"; }); c.state(H(w));
}
static std::vector<Fe> U1, UA; static std::vector<long> LS; static std::vector<size_t> ML, DL;
int main(int argc, char** argv) {
    mc::Explorer E; E.parse(argc, argv); ref::selftest(); bool T = E.thorough();
    // ---- message expansion
    size_t M = T ? 2200 : 330;
    E.add("xmd-message-length", "every message length with four contents, tag and output lengths of the library", {M, 4}, [](mc::Ctx& c, const mc::Idx& v) { xmd(c, content(v[0], v[1]), content(43, 3), 256); });
    E.add("xmd-tag-length", "every tag length 0..300 x message lengths around the block x output lengths", {301, 5, 4}, [](mc::Ctx& c, const mc::Idx& v) { static const size_t ml[] = {0, 1, 55, 64, 119}; static const long ol[] = {0, 32, 33, 256}; xmd(c, content(ml[v[1]], 2), content(v[0], 3), ol[v[2]]); });
    E.add("xmd-output-length", "every output length from 0 to 8160 and every refused length to 8400 and at the 16-bit, 31-bit boundaries", {8401, T ? 4ull : 1ull}, [](mc::Ctx& c, const mc::Idx& v) { xmd(c, content(v[1] * 57 + 3, 2), content(16 + v[1] * 79, 3), v[0]); });
    LS = {-1, -2, -31, -32, -33, -8160, -8161, -65536, -2147483647L - 1, -2147483647L, 8161, 8192, 8193, 65535, 65536, 65537, 65568, 131072}; 
    E.add("xmd-refused", "refused output lengths (negative, above 8160, around 2^16) x tag lengths", {LS.size(), 5}, [](mc::Ctx& c, const mc::Idx& v) { static const size_t dl[] = {0, 1, 43, 255, 256}; long Ln = LS[v[0]]; xmd(c, content(5, 3), content(dl[v[1]], 2), Ln); });
    E.add("xmd-all", "message length x tag length x output length over boundary lengths", {T ? 40ull : 14ull, T ? 40ull : 14ull, T ? 20ull : 10ull}, [](mc::Ctx& c, const mc::Idx& v) { static const size_t bl[] = {0, 1, 31, 32, 33, 55, 56, 63, 64, 65, 119, 120, 128, 255, 2, 3, 30, 34, 54, 57, 62, 66, 118, 121, 122, 126, 127, 129, 183, 184, 191, 192, 193, 200, 223, 224, 225, 253, 254, 17}; static const long ol[] = {0, 1, 31, 32, 33, 64, 65, 255, 256, 8160, 2, 63, 95, 96, 97, 128, 257, 8127, 8128, 8159}; xmd(c, content(bl[v[0]], 2), content(bl[v[1]], 3), ol[v[2]]); });
    E.add("xmd-byte", "every byte value at every position of a 67-byte message and of a 20-byte tag", {67, 256}, [](mc::Ctx& c, const mc::Idx& v) { Bytes m = content(67, 2), d = content(20, 3); m[v[0]] = v[1]; if (v[0] < 20) d[v[0]] = v[1]; xmd(c, m, d, 64); });
    static std::vector<size_t> HL; for (int k = 10; k <= (T ? 27 : 24); k++) for (long d : {-65l, -9l, 0l, (long)k * 3}) if (k < 22 || d == 3 * k || T) HL.push_back((1ul << k) + d); for (size_t z : {0x2aaaa5ul, 0x555556ul, 0x5a5a59ul, 0xa5a5a7ul, 0xfffffful}) HL.push_back(z); if (T) for (size_t z : {0x2aaaaabul, 0x5555551ul, 0x5a5a5a5ul}) HL.push_back(z);
    E.add("xmd-long", "long messages: around every power of two to the bound and lengths with mixed bits", {HL.size()}, [](mc::Ctx& c, const mc::Idx& v) { xmd(c, content(HL[v[0]], 0), content(9, 3), 40); }, 120);
    // expected values computed once with Python's hashlib (message of n zero bytes, tag "HUGE", 48 bytes)
    E.add("xmd-huge", "messages whose bit length crosses 2^32 (and byte length 2^31, 2^32 when thorough)", {T ? 4ull : 2ull}, [](mc::Ctx& c, const mc::Idx& v) {
        static const std::pair<u64, const char*> t[] = {{(1ull << 29) - 3, "2faf41aff50a28d2fbf0511fb4a02caf6e9dd092390d25e396fd106d15df73ba6fc52641f1c945bdae1803551023c7f6"}, {(1ull << 29) + 3, "c03e7b8f392d192ca1353655af662b350911e8a7c53f8849af539801061d226d3db623dd4cbb312d264b113eb462a9aa"}, {(1ull << 31) + 1, "6a38d300a4c82bfce6199d9ee3e71fa1e83c38ac3c702ad1c3935610f8b35b52925b4a5aa2ce633603cdc21c365a5187"}, {(1ull << 32) + 5, "1671c3308be77cf101421dc368db1ba7378915f186361228dd205801c0ea0bb3a22e2175c9d3af7ab370ddc031d1a1a6"}};
        auto [n, w] = t[v[0]]; void* p = mmap(nullptr, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) throw std::runtime_error("mmap"); u8 out[48]; Bytes d = ref::str("HUGE");
        int r = B::xmd_sh256(out, 48, (const u8*)p, n, d.data(), 4); c.op(1); munmap(p, n); auto g = mc::hex(out, 48); c.check(r == 0 && g == w, "xmd of " + std::to_string(n) + " zero bytes: got " + g + " want " + w); c.state(n); if (c.verbose) c.note = "xmd of " + std::to_string(n) + " zero bytes"; }, 300);
    // ---- hash to G2
    E.add("hash-length", "every message length under both signature tags", {T ? 4500ull : 1100ull, 2}, [](mc::Ctx& c, const mc::Idx& v) { h2c(c, content(v[0], 2), v[1] ? B::POP_CIPHERSUITE_ID : B::CIPHERSUITE_ID); });
    for (size_t i = 0; i < (T ? 1100u : 270u); i++) DL.push_back(i); for (size_t d : {31, 32, 33, 42, 43, 44, 63, 64, 127, 128, 253, 254, 255, 256, 257, 258, 300, 320, 383, 384, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 65535, 65536, 65537}) if (d >= DL.size()) DL.push_back(d);
    static std::vector<size_t> PL; for (int k = 10; k <= (T ? 24 : 20); k++) for (long d : {-9l, -1l, 0l, 1l, 56l}) PL.push_back((1ul << k) + d);
    E.add("hash-long", "message lengths around powers of two under both signature tags", {PL.size(), 2}, [](mc::Ctx& c, const mc::Idx& v) { h2c(c, content(PL[v[0]], 3), v[1] ? B::POP_CIPHERSUITE_ID : B::CIPHERSUITE_ID); });
    E.add("hash-tag-length", "tag lengths including every class above 255 (hashed down) x four contents (zero bytes included)", {DL.size(), 4, 2}, [](mc::Ctx& c, const mc::Idx& v) { Bytes d = content(DL[v[0]], v[1]); h2c(c, content(v[2] ? 32 : 0, 2), std::string(d.begin(), d.end())); });
    E.add("hash-contents", "every one-byte message and all single-bit messages of 32 bytes", {T ? 512ull : 300ull}, [](mc::Ctx& c, const mc::Idx& v) { if (v[0] < 256) h2c(c, Bytes{(u8)v[0]}, B::CIPHERSUITE_ID); else { Bytes m(32, 0); m[(v[0] - 256) / 8] ^= 1 << (v[0] % 8); h2c(c, m, B::CIPHERSUITE_ID); } });
    E.add("tags", "the two published ciphersuite identifiers", {1}, [](mc::Ctx& c, const mc::Idx&) { c.check(B::CIPHERSUITE_ID == "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_NUL_", "signature tag"); c.check(B::POP_CIPHERSUITE_ID == "BLS_POP_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_", "proof tag"); });
    // ---- field element maps
    static const char* X[] = {
#include "exceptional.inc"
    };
    for (auto s : X) U1.push_back(ref::fromz(Z(s, 16)));
    E.add("map1-exceptional", "zero, both exceptional elements and the 16 elements that meet the isogeny kernel, with their negatives", {U1.size() + 1, 2}, [](mc::Ctx& c, const mc::Idx& v) { Fe u = v[0] < U1.size() ? U1[v[0]] : ref::fzero(); m1(c, v[1] ? ref::neg(u) : u, true); });
    UA = value_alphabet(T ? 2 : 1); { auto r = raw_alphabet(T ? 2 : 1); for (auto& z : r) UA.push_back(fe_raw(z)); }
    E.add("map1-alphabet", "boundary field elements (values and raw Montgomery words)", {UA.size(), 2}, [](mc::Ctx& c, const mc::Idx& v) { m1(c, v[1] ? ref::neg(UA[v[0]]) : UA[v[0]], true); });
    E.add("map1-small", "every integer within N of zero", {T ? 20000ull : 1500ull, 2}, [](mc::Ctx& c, const mc::Idx& v) { Fe u = ref::fint((long)v[0]); m1(c, v[1] ? ref::neg(u) : u, v[0] < 60); });
    { static std::vector<Fe> A2 = value_alphabet(0); if (A2.size() > (T ? 60u : 12u)) A2.resize(T ? 60 : 12); for (auto s : {0, 2, 16}) A2.push_back(U1[s]);
      E.add("map2-alphabet", "all pairs of boundary values as coordinates", {A2.size(), A2.size()}, [](mc::Ctx& c, const mc::Idx& v) { m2(c, {A2[v[0]], A2[v[1]]}, true); }); }
    u64 g = T ? 61 : 17; E.add("map2-small", "every element a+bi of a square around zero", {g, g}, [g](mc::Ctx& c, const mc::Idx& v) { long h = (long)g / 2; m2(c, {ref::fint((long)v[0] - h), ref::fint((long)v[1] - h)}, true); });
    E.add("map-hashed", "hashed field elements", {T ? 2000ull : 150ull}, [](mc::Ctx& c, const mc::Idx& v) { m1(c, hfield<Fe>(9000 + (int)v[0]), true); m2(c, hfield<F2>(9000 + (int)v[0]), true); });
    return E.run();
}
