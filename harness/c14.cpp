// C14: HMAC / HKDF outputs are exact for every length.
#include "lib.hpp"
#include <sys/mman.h>
using namespace lx;
static std::string hx(const Bytes& b) { return mc::hex(b.data(), b.size()); }
static Bytes content(size_t n, int kind) { Bytes b(n, kind == 1 ? 0xff : 0); if (kind == 2) for (size_t i = 0; i < n; i += 32) { Bytes h = ref::shaB(ref::i2osp(i + 91, 4)); for (size_t j = 0; j < 32 && i + j < n; j++) b[i + j] = h[j]; } if (kind == 3) for (size_t i = 0; i < n; i++) b[i] = (u8)(i + 1); return b; }
// calls fn(output pointer) on a guarded buffer; the guarded area must keep its pattern outside [0, L)
struct Guard { Bytes b, b0; size_t L; Guard(size_t L) : b(L + 192), L(L) { for (size_t i = 0; i < b.size(); i++) b[i] = (u8)(0x3c + i * 11); b0 = b; } u8* p() { return b.data() + 96; } Bytes out() const { return Bytes(b.begin() + 96, b.begin() + 96 + L); } bool intact() const { return std::equal(b.begin(), b.begin() + 96, b0.begin()) && std::equal(b.begin() + 96 + L, b.end(), b0.begin() + 96 + L); } bool untouched() const { return b == b0; } };
static void verdict(mc::Ctx& c, const Guard& g, int r, bool refuse, const std::function<Bytes()>& want, const std::string& in) {
    c.op(1); if (c.verbose) c.note = in;
    if (refuse) { c.check(r != 0, [&] { return in + ": accepted, must be refused"; }); c.check(g.intact(), [&] { return in + ": refused but wrote outside the output"; }); c.state(r); return; }
    Bytes w = want(); c.check(r == 0, [&] { return in + ": return code " + std::to_string(r); }); c.check(g.out() == w, [&] { return in + ": got " + hx(g.out()).substr(0, 200) + " want " + hx(w).substr(0, 200); });
    c.check(g.intact(), [&] { return in + ": wrote outside the output"; }); c.state(H(w) ^ w.size() * 7);
}
static std::string ln(const Bytes& b) { return std::to_string(b.size()); }
static void hm(mc::Ctx& c, const Bytes& key, const Bytes& msg) { Guard g(32); Bytes k0 = key, m0 = msg; int r = B::hkdf256_hmac(g.p(), msg.data(), msg.size(), key.data(), key.size()); verdict(c, g, r, false, [&] { return ref::hmac(key, msg); }, "hmac key_len=" + ln(key) + " msg_len=" + ln(msg)); c.check(key == k0 && msg == m0, "hmac modified an input"); }
static void ext(mc::Ctx& c, const Bytes& salt, const Bytes& ikm) { Guard g(32); Bytes k0 = salt, m0 = ikm; int r = B::hkdf256_extract(g.p(), salt.data(), salt.size(), ikm.data(), ikm.size()); verdict(c, g, r, false, [&] { return ref::hmac(salt, ikm); }, "extract salt_len=" + ln(salt) + " ikm_len=" + ln(ikm)); c.check(salt == k0 && ikm == m0, "extract modified an input"); }
static void expd(mc::Ctx& c, size_t L, const Bytes& prk, const Bytes& info) { bool refuse = L == 0 || L > 8160; Guard g(refuse ? 0 : L); Bytes p0 = prk, i0 = info; int r = B::hkdf256_expand(g.p(), L, prk.data(), info.data(), info.size()); verdict(c, g, r, refuse, [&] { return ref::hkdf_expand(prk, info, L); }, "expand L=" + std::to_string(L) + " info_len=" + ln(info)); c.check(prk == p0 && info == i0, "expand modified an input"); }
static void xe(mc::Ctx& c, size_t L, const Bytes& key, const Bytes& salt, const Bytes& info) { bool refuse = L == 0 || L > 8160; Guard g(refuse ? 0 : L); Bytes a = key, b = salt, d = info; int r = B::hkdf256_extract_expand(g.p(), L, key.data(), key.size(), salt.data(), salt.size(), info.data(), info.size()); verdict(c, g, r, refuse, [&] { return ref::hkdf(salt, key, info, L); }, "extract_expand L=" + std::to_string(L) + " key_len=" + ln(key) + " salt_len=" + ln(salt) + " info_len=" + ln(info)); c.check(key == a && salt == b && info == d, "extract_expand modified an input"); }
static const size_t BL[] = {0, 1, 31, 32, 33, 55, 56, 63, 64, 65, 119, 120, 128, 183, 2, 30, 54, 57, 62, 66, 121, 127, 129, 184, 191, 192, 193, 247, 248, 249, 255, 256, 257, 300, 1000};
int main(int argc, char** argv) {
    mc::Explorer E; E.parse(argc, argv); ref::selftest(); bool T = E.thorough();
    u64 n = T ? 520 : 260;
    E.add("hmac-lengths", "every key length x every message length", {n, n}, [](mc::Ctx& c, const mc::Idx& v) { hm(c, content(v[0], 2), content(v[1], 3)); });
    E.add("hmac-long", "every message length to the bound with keys below, at and above the block", {T ? 9000ull : 2000ull, 5}, [](mc::Ctx& c, const mc::Idx& v) { static const size_t k[] = {0, 20, 64, 65, 200}; hm(c, content(k[v[1]], 3), content(v[0], 2)); });
    static std::vector<size_t> HL; for (int k = 12; k <= (T ? 27 : 24); k++) for (long d : {-65l, 0l, (long)k * 3}) if (k < 22 || d == 3 * k || T) HL.push_back((1ul << k) + d); for (size_t z : {0x2aaaa5ul, 0x555556ul, 0xa5a5a7ul, 0xfffffful}) HL.push_back(z);
    E.add("hmac-huge", "messages, keys, input keys, salts and info of lengths around every power of two to the bound and lengths with mixed bits", {HL.size(), 5}, [](mc::Ctx& c, const mc::Idx& v) { size_t n = HL[v[0]]; if (n > (1u << 21) && v[1] > 1) return; Bytes b = content(n, 0), s = content(20, 3); switch (v[1]) { case 0: hm(c, s, b); break; case 1: hm(c, b, s); break; case 2: ext(c, s, b); break; case 3: ext(c, b, s); break; default: expd(c, 70, content(32, 2), b); } }, 120);
    E.add("hmac-long-key", "every key length to the bound", {T ? 9000ull : 2000ull, 3}, [](mc::Ctx& c, const mc::Idx& v) { static const size_t k[] = {0, 33, 64}; hm(c, content(v[0], 2), content(k[v[1]], 3)); });
    E.add("hmac-contents", "all-zero, all-one, mixed keys and messages over boundary lengths (trailing zero bytes in keys included)", {4, 4, 35, 35}, [](mc::Ctx& c, const mc::Idx& v) { hm(c, content(BL[v[2]], v[0]), content(BL[v[3]], v[1])); });
    E.add("hmac-bytes", "every byte value at every position of a 66-byte key and message", {66, 256}, [](mc::Ctx& c, const mc::Idx& v) { Bytes k = content(66, 2), m = content(66, 3); k[v[0]] = v[1]; hm(c, k, m); k.resize(64); hm(c, k, m); k = content(40, 2); m[v[0]] = v[1]; hm(c, k, m); });
    E.add("extract", "every salt and input-key length", {n, n}, [](mc::Ctx& c, const mc::Idx& v) { ext(c, content(v[0], 2), content(v[1], 3)); });
    E.add("expand-output", "every output length 0..8400 (zero and above 8160 refused)", {8401, T ? 6ull : 1ull}, [](mc::Ctx& c, const mc::Idx& v) { static const size_t k[] = {0, 10, 31, 32, 64, 200}; expd(c, v[0], content(32, 2), content(k[v[1]], 3)); });
    E.add("expand-refused", "refused output lengths up to the largest size", {16}, [](mc::Ctx& c, const mc::Idx& v) { static const size_t l[] = {0, 8161, 8191, 8192, 8193, 65535, 65536, 65537, (1u << 31) - 1, 1u << 31, 0xffffffffu, 1ull << 32, (1ull << 32) + 32, 1ull << 63, ~0ull - 31, ~0ull}; expd(c, l[v[0]], content(32, 2), content(9, 3)); xe(c, l[v[0]], content(9, 2), content(4, 3), content(3, 1)); });
    E.add("expand-info", "every info length x output lengths around hash-block multiples", {T ? 1100ull : 330ull, 12}, [](mc::Ctx& c, const mc::Idx& v) { static const size_t l[] = {1, 31, 32, 33, 63, 64, 65, 96, 97, 255, 256, 8160}; if (l[v[1]] == 8160 && v[0] % 8 && v[0] > 140) return; expd(c, l[v[1]], content(32, 3), content(v[0], 2)); });
    E.add("expand-prk", "every byte value at every position of the pseudorandom key", {32, 256}, [](mc::Ctx& c, const mc::Idx& v) { Bytes p = content(32, 2); p[v[0]] = v[1]; expd(c, 70, p, content(5, 3)); });
    u64 b = T ? 35 : 14;
    E.add("extract-expand", "boundary lengths of key, salt, info and output together", {b, b, b, 8}, [](mc::Ctx& c, const mc::Idx& v) { static const size_t l[] = {0, 1, 32, 33, 48, 64, 65, 8161}; xe(c, l[v[3]], content(BL[v[0]], 2), content(BL[v[1]], 3), content(BL[v[2]], 1)); });
    E.add("extract-expand-output", "every output length", {8401}, [](mc::Ctx& c, const mc::Idx& v) { xe(c, v[0], content(32, 2), content(4, 3), {}); });
    // expected values computed once with Python's hmac module (zero bytes; key "k"*20; message "m"*10)
    E.add("huge", "messages and keys whose bit length crosses 2^32 (and byte length 2^31, 2^32 when thorough)", {T ? 4ull : 2ull, T ? 2ull : 1ull}, [](mc::Ctx& c, const mc::Idx& v) {
        struct R { u64 n; const char *m, *k; }; static const R t[] = {{536870909, "4f03c10147191e645e4e90a095e8fca5a77c72cf41e0faec3a6f9e522cecc85c", "69351e020a580c5c6e2f36b6fb0b57b3630df8f9aa074d97dd9b6c268bea8f8a"}, {536870915, "7ec0e99cece7ec902c3af907c0910d066f805e09abf7a1589757abd2432dab9f", "b6958a5a6269a533924bed131013a049ec112d24bacc1324c91fec163aedc278"}, {2147483649, "d85f5faefcc0a8c12ddb924c5d7e12b27f97286d078dde312af05c094fa44f11", "f89ebba8363214c61973db0bbcb6ac6c3471783edbfdad274dd924bb157642f5"}, {4294967301, "f42c1bb339de01749d7e493b825f30a190b22081e4e7d08b24cce732b93cb6a5", "26df5ea1f0bda3032f3cc3cb83b00d0e493bc5460a004b0fcfdba4c5dd4667b7"}};
        R q = t[v[0]]; bool key = v[1]; void* p = mmap(nullptr, q.n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) throw std::runtime_error("mmap"); u8 out[32]; Bytes k(20, 'k'), m(10, 'm');
        int r = key ? B::hkdf256_hmac(out, m.data(), 10, (const u8*)p, q.n) : B::hkdf256_hmac(out, (const u8*)p, q.n, k.data(), 20); c.op(1); munmap(p, q.n); std::string g = mc::hex(out, 32); c.check(r == 0 && g == (key ? q.k : q.m), "hmac with " + std::to_string(q.n) + " zero bytes of " + (key ? "key" : "message") + ": got " + g); c.state(q.n * 2 + key); if (c.verbose) c.note = "huge " + std::to_string(q.n); }, 400);
    return E.run();
}
