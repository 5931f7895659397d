// C10: field-element, scalar and hex codecs.
#include "lib.hpp"
using namespace lx;
template<class T> constexpr size_t NC = sizeof(T) / 48;             // number of base-field coordinates
template<class T> static std::vector<fp> coords(const T& a) { std::vector<fp> r(NC<T>); for (size_t i = 0; i < NC<T>; i++) memcpy((void*)&r[i], (const char*)&a + 48 * i, 48); return r; }
// documented order: little-endian lowest coordinate first, big-endian highest first
template<class T> static Bytes enc(const std::vector<Z>& v, bool le) { Bytes o; size_t n = v.size(); for (size_t i = 0; i < n; i++) { Bytes b = ref::zbytes(v[le ? i : n - 1 - i], 48); if (le) std::reverse(b.begin(), b.end()); o.insert(o.end(), b.begin(), b.end()); } return o; }
template<class T> static std::optional<T> dec(const Bytes& b, bool le, B::conv_opt o) { std::array<u8, 48 * NC<T>> a; memcpy(a.data(), b.data(), a.size()); return le ? T::fromBytesLE(a, o) : T::fromBytesBE(a, o); }
static std::string hx(const Bytes& b) { return mc::hex(b.data(), b.size()); }
static const Z M384 = Z(1) << 384;
template<class T> static void decode(mc::Ctx& c, const char* nm, const std::vector<Z>& v) {
    bool valid = true; for (auto& z : v) valid = valid && z < ref::ZP; u64 h = 0; for (auto& z : v) h = mc::mix(h, H(z)); c.state(h);
    for (int le = 0; le < 2; le++) { Bytes in = enc<T>(v, le); auto what = [&] { return std::string(nm) + (le ? " LE " : " BE ") + hx(in); }; if (c.verbose && !le) c.note = what();
        for (int mont = 0; mont < 2; mont++) { auto r = dec<T>(in, le, {.check_valid = true, .to_mont = (bool)mont}); c.check(r.has_value() == valid, [&] { return what() + " to_mont=" + std::to_string(mont) + ": validated decode " + (valid ? "rejected" : "accepted"); }); if (!valid) { std::array<u8, 48 * NC<T>> ia; memcpy(ia.data(), in.data(), ia.size()); c.check(!(le ? T::fromBytesLE(ia) : T::fromBytesBE(ia)), [&] { return what() + ": accepted with default options"; }); auto n = dec<T>(in, le, {.check_valid = false, .to_mont = (bool)mont}); c.check(n.has_value(), [&] { return what() + " to_mont=" + std::to_string(mont) + ": unvalidated decode rejected"; }); if (n && !mont) { auto k = coords(*n); for (size_t i = 0; i < v.size(); i++) c.check(ref::rawz(R(k[i])) == v[i], [&] { return what() + ": coordinate " + std::to_string(i) + " changed by a raw unvalidated decode"; }); } continue; } if (!r) return;
            auto k = coords(*r); for (size_t i = 0; i < v.size(); i++) c.check(ref::rawz(R(k[i])) == (mont ? ref::rawz(ref::fromz(v[i])) : v[i]), [&] { return what() + ": coordinate " + std::to_string(i) + " decoded wrongly, to_mont=" + std::to_string(mont); });
            auto r2 = dec<T>(in, le, {.check_valid = false, .to_mont = (bool)mont}); c.check(r2 && bits(*r, *r2), [&] { return what() + ": unvalidated decode differs"; });
            std::array<u8, 48 * NC<T>> o, a; o.fill(0xa5); auto fm = mont ? B::from_mont::yes : B::from_mont::no; T x = *r; if (le) { x.toBytesLE(o, fm); a = x.toBytesLE(fm); } else { x.toBytesBE(o, fm); a = x.toBytesBE(fm); }
            c.check(Bytes(o.begin(), o.end()) == in && Bytes(a.begin(), a.end()) == in, [&] { return what() + ": re-encoding differs, from_mont=" + std::to_string(mont) + " got " + hx(Bytes(o.begin(), o.end())); }); c.check(bits(x, *r), "encoding modified its operand");
            // the other option reads the other representation
            if (mont) { std::vector<Z> raws; for (auto& z : v) raws.push_back(ref::rawz(ref::fromz(z))); auto q = le ? Bytes([&] { auto t = x.toBytesLE(B::from_mont::no); return Bytes(t.begin(), t.end()); }()) : Bytes([&] { auto t = x.toBytesBE(B::from_mont::no); return Bytes(t.begin(), t.end()); }()); c.check(q == enc<T>(raws, le), [&] { return what() + ": raw encoding wrong"; }); auto d = le ? x.toBytesLE() : x.toBytesBE(); c.check(Bytes(d.begin(), d.end()) == in, [&] { return what() + ": default encoding wrong"; }); std::array<u8, 48 * NC<T>> o2; o2.fill(0x3c); if (le) x.toBytesLE(o2); else x.toBytesBE(o2); c.check(Bytes(o2.begin(), o2.end()) == in, [&] { return what() + ": default encoding into a span wrong"; }); auto r3 = le ? T::fromBytesLE(o) : T::fromBytesBE(o); c.check(r3 && bits(*r3, *r), [&] { return what() + ": default decode wrong"; }); } } }
}
static std::vector<Z> A384, BND = {0, 1, ref::ZP - 1, ref::ZP, ref::ZP + 1, M384 - 1, 2 * ref::ZP, ref::ZP + (Z(1) << 320), ref::ZP - (Z(1) << 320), Z(1) << 381};
template<class T> static std::vector<Z> base() { std::vector<Z> v; for (size_t i = 0; i < NC<T>; i++) v.push_back(ref::toz(hfield<Fe>(900 + i))); return v; }
template<class T> static void tower(mc::Explorer& E, const char* nm) { std::string s = nm; size_t n = NC<T>;
    E.add(s + "-positions", "boundary values on both sides of p in every pair of coordinate positions", {n, n, BND.size(), BND.size()}, [nm](mc::Ctx& c, const mc::Idx& v) { auto b = base<T>(); b[v[1]] = BND[v[3]]; b[v[0]] = BND[v[2]]; decode<T>(c, nm, b); });
    E.add(s + "-bytes", "every byte position set to 0x01, 0x80 and 0xff alone, both byte orders", {48 * n, 3}, [nm](mc::Ctx& c, const mc::Idx& v) { static const unsigned by[] = {1, 0x80, 0xff}; std::vector<Z> b(NC<T>, Z(0)); b[v[0] / 48] = Z(by[v[1]]) << (8 * (v[0] % 48)); decode<T>(c, nm, b); }); }
template<size_t N> static void words(mc::Ctx& c, const Z& z) { if (z >= (Z(1) << (64 * N))) return; auto w = W<N>(z); Bytes be = ref::zbytes(z, 8 * N), le(be.rbegin(), be.rend()); std::array<u8, 8 * N> o, p; auto what = [&] { return std::to_string(N) + " words " + S(z); };
    o.fill(0x5a); p.fill(0x5a); B::scalar::toBytesBE<N>(w, std::span<u8, 8 * N>(o)); B::scalar::toBytesLE<N>(w, std::span<u8, 8 * N>(p)); auto o2 = B::scalar::toBytesBE<N>(w); auto p2 = B::scalar::toBytesLE<N>(w);
    c.check(!memcmp(o.data(), be.data(), 8 * N) && o2 == o, [&] { return "toBytesBE " + what(); }); c.check(!memcmp(p.data(), le.data(), 8 * N) && p2 == p, [&] { return "toBytesLE " + what(); });
    std::array<u64, N> x, y; x.fill(7); y.fill(7); B::scalar::fromBytesBE<N>(std::span<const u8, 8 * N>(o), x); B::scalar::fromBytesLE<N>(std::span<const u8, 8 * N>(p), y); c.check(x == w && B::scalar::fromBytesBE<N>(std::span<const u8, 8 * N>(o)) == w, [&] { return "fromBytesBE " + what(); }); c.check(y == w && B::scalar::fromBytesLE<N>(std::span<const u8, 8 * N>(p)) == w, [&] { return "fromBytesLE " + what(); }); c.state(H(z) ^ N); if (c.verbose) c.note = what(); }
static std::string refhex(const Bytes& b) { return "0x" + hx(b); }
static Bytes dyn(const std::string& s) { auto v = B::hexToBytes(std::string_view(s)); return Bytes(v.begin(), v.end()); }
static std::string cut(const std::string& s) { return s.size() < 900 ? s : s.substr(0, 60) + "... (" + std::to_string(s.size()) + " characters)"; }
static void hexone(mc::Ctx& c, const Bytes& b) { std::string s = refhex(b); if (c.verbose) c.note = cut(s); c.check(B::bytesToHex(std::span<const u8>(b.data(), b.size())) == s, [&] { return "bytesToHex of " + cut(s); });
    std::string up = s; for (size_t i = 2; i < up.size(); i++) up[i] = toupper(up[i]); std::string mixd = s; for (size_t i = 2; i < mixd.size(); i += 2) mixd[i] = toupper(mixd[i]);
    for (auto& t : {s, up, mixd}) { c.check(dyn(t) == b, [&] { return "hexToBytes(" + cut(t) + ")"; }); c.check(dyn(t.substr(2)) == b, [&] { return "hexToBytes(" + cut(t.substr(2)) + ")"; }); if (t.size() > 2) { c.check(dyn(t.substr(0, t.size() - 1)).empty() && dyn(t + "0").empty() && dyn(t.substr(3)).empty(), [&] { return "odd-length hex not rejected near " + cut(t); }); } } c.state(H(b)); }
template<size_t N> static void hexfix(mc::Ctx& c, const Bytes& b) { if (b.size() != N) return; std::string s = refhex(b), up = s; for (size_t i = 2; i < up.size(); i++) up[i] = toupper(up[i]); std::array<u8, N> a; memcpy(a.data(), b.data(), N); c.check(B::bytesToHex<N>(std::span<const u8, N>(a)) == s, [&] { return "bytesToHex<N> " + s; }); for (auto& t : {s, up}) { c.check(B::hexToBytes<N>(t) == a && B::hexToBytes<N>(t.substr(2)) == a, [&] { return "hexToBytes<" + std::to_string(N) + ">(" + t + ")"; }); std::array<u8, N> o; o.fill(0x11); B::hexToBytes<N>(t, std::span<u8, N>(o)); c.check(o == a, [&] { return "hexToBytes<N>(s,out) " + t; }); } c.state(H(b)); }
int main(int argc, char** argv) {
    mc::Explorer E; E.parse(argc, argv); ref::selftest(); bool T = E.thorough();
    A384 = raw_alphabet(T ? 2 : 1, M384); for (int d = -20; d <= 20; d++) A384.push_back(ref::ZP + d); for (int i = 0; i < 384; i++) { A384.push_back(Z(1) << i); Z z = ref::ZP ^ (Z(1) << i); A384.push_back(z); }
    { u64 h[6]; memcpy(h, ref::P, 48); for (int m = 0; m < 729; m++) { u64 d[6]; int t = m; for (int i = 0; i < 6; i++) { int k = t % 3; d[i] = k == 0 ? h[i] : k == 1 ? h[i] - 1 : h[i] + 1; t /= 3; } A384.push_back(ref::zfrom(d, 6)); } for (int m = 0; m < 64; m++) { u64 d[6]; for (int i = 0; i < 6; i++) d[i] = (m >> i & 1) ? ~0ULL : 0; A384.push_back(ref::zfrom(d, 6)); } } uniq(A384);
    E.add("fp", "boundary 384-bit integers: every word combination equal to or next to the modulus, every power of two", {A384.size()}, [](mc::Ctx& c, const mc::Idx& v) { decode<fp>(c, "fp", {A384[v[0]]}); });
    E.add("fp2-pairs", "pairs of such integers", {A384.size(), T ? 60ull : 12ull}, [](mc::Ctx& c, const mc::Idx& v) { const Z& a = A384[v[0]]; const Z& b = A384[(v[1] * 97 + v[0]) % A384.size()]; decode<fp2>(c, "fp2", {a, b}); decode<fp2>(c, "fp2", {b, a}); });
    tower<fp>(E, "fp"); tower<fp2>(E, "fp2"); tower<fp6>(E, "fp6"); tower<fp12>(E, "fp12");
    E.add("word-bytes", "integers of 1..12 words: every byte position with every value", {96, 256}, [](mc::Ctx& c, const mc::Idx& v) { Z z = Z((unsigned)v[1]) << (8 * v[0]); words<1>(c, z); words<2>(c, z); words<3>(c, z); words<4>(c, z); words<5>(c, z); words<6>(c, z); words<7>(c, z); words<8>(c, z); words<10>(c, z); words<12>(c, z); });
    E.add("word-patterns", "structured integers of 1..12 words", {A384.size()}, [](mc::Ctx& c, const mc::Idx& v) { Z z = A384[v[0]]; words<6>(c, z); words<8>(c, z << 77); words<12>(c, z * z); words<4>(c, z >> 128); words<2>(c, z >> 256); words<1>(c, z >> 320); });
    static std::vector<Bytes> HB; for (int l = 0; l <= (T ? 400 : 130); l++) for (int k = 0; k < 3; k++) { Bytes b(l); for (int i = 0; i < l; i++) b[i] = k == 0 ? (u8)(i * 37 + l) : k == 1 ? 0xff : (u8)(0x9a + i); HB.push_back(b); }
    E.add("hex-lengths", "byte strings of every length, with and without prefix, three letter cases, odd truncations and extensions", {HB.size()}, [](mc::Ctx& c, const mc::Idx& v) { hexone(c, HB[v[0]]); hexfix<1>(c, HB[v[0]]); hexfix<2>(c, HB[v[0]]); hexfix<31>(c, HB[v[0]]); hexfix<32>(c, HB[v[0]]); hexfix<48>(c, HB[v[0]]); hexfix<96>(c, HB[v[0]]); });
    static std::vector<size_t> HL; for (size_t b : {200, 256, 384, 512, 1000, 1024, 2000, 2048, 4096, 8192, 10000, 16384, 32768, 65536, 100000, 131072, 262144, 1 << 20}) { int w = b <= 4096 || T ? 3 : 1; for (int d = -w; d <= w; d++) HL.push_back(b + d); }
    E.add("hex-long", "long byte strings, of lengths around powers of two, and a malformed length next to each", {HL.size(), 2}, [](mc::Ctx& c, const mc::Idx& v) { Bytes b(HL[v[0]]); u64 x = 88172645463325252ull + v[1]; for (auto& y : b) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; y = v[1] ? 0xab : (u8)x; } hexone(c, b); });
    E.add("hex-values", "every two-byte string, and every byte value at every position of a 5-byte string", {256, 256}, [](mc::Ctx& c, const mc::Idx& v) { hexone(c, Bytes{(u8)v[0], (u8)v[1]}); hexfix<2>(c, Bytes{(u8)v[0], (u8)v[1]}); if (v[0] < 5) { Bytes b = {1, 0x23, 0xab, 0xcd, 0xef}; b[v[0]] = v[1]; hexone(c, b); } });
    E.add("hex-text", "every text of up to 4 hex digits (both cases), with and without the prefix", {2, 5, 22, 22, 22, 22}, [](mc::Ctx& c, const mc::Idx& v) { static const char* D = "0123456789abcdefABCDEF"; std::string s; for (size_t i = 0; i < v[1]; i++) s += D[v[2 + i]]; for (size_t i = v[1]; i < 4; i++) if (v[2 + i]) return; Bytes w; if (s.size() % 2 == 0) for (size_t i = 0; i < s.size(); i += 2) w.push_back((u8)strtoul(s.substr(i, 2).c_str(), nullptr, 16)); std::string t = (v[0] ? "0x" : "") + s; c.check(dyn(t) == w, [&] { return "hexToBytes(" + t + ")"; }); c.state(mc::hash_bytes(t.data(), t.size())); if (c.verbose) c.note = t; });
    return E.run();
}
