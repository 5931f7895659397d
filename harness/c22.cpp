// C22: memory safety.  Exhaustive enumeration of lengths, list shapes, powers, shift amounts and rejection paths of every interface,
// with every buffer flush against an inaccessible page (before or behind), monitored by AddressSanitizer, UndefinedBehaviorSanitizer,
// an allocation counter (leaks) or, in another configuration, by Valgrind's definedness tracking.
#include "../lib/sigs.hpp"
#include "sha256.hpp"
#include <climits>
#include <set>
using namespace lx;
namespace pr = bls12_381::pairing;
using namespace bls12_381;
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
static const bool ASAN = true;
static volatile bool counting; static volatile long live;
static void onMalloc(const volatile void*, size_t) { if (counting) live = live + 1; }
static void onFree(const volatile void* p) { if (counting && p) live = live - 1; }
static void hooks() { __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree); }
extern "C" const char* __asan_default_options() { return "detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:handle_segv=1:max_allocation_size_mb=2048:malloc_fill_byte=165:max_malloc_fill_size=1048576:strict_string_checks=1:check_initialization_order=1:detect_invalid_pointer_pairs=0"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1"; }
#define POISON(p, n) __asan_poison_memory_region(p, n)
#define UNPOISON(p, n) __asan_unpoison_memory_region(p, n)
#else
static const bool ASAN = false; static volatile bool counting; static volatile long live; static void hooks() {}
#define POISON(p, n) (void)0
#define UNPOISON(p, n) (void)0
#endif
// ---- guarded buffers: flush with the end (or the start) of a mapping between inaccessible pages; the rest of the mapping is poisoned
struct Slot { u8* lo = nullptr; size_t cap = 0; };
static Slot slots[16]; static int nslot; static int side;                 // side 0: flush with the end, 1: flush with the start
static u8* place(const void* src, size_t n, size_t al = 1) {
    Slot& s = slots[nslot++]; if (nslot > 16) abort();
    if (s.cap < n || !s.lo) { if (s.lo) { UNPOISON(s.lo, s.cap); munmap(s.lo - 4096, s.cap + 8192); } s.cap = ((n + 4095) & ~4095ul) + 4096; u8* m = (u8*)mmap(nullptr, s.cap + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); s.lo = m + 4096; mprotect(s.lo, s.cap, PROT_READ | PROT_WRITE); }
    UNPOISON(s.lo, s.cap); u8* p = side ? s.lo : s.lo + s.cap - n; if ((uintptr_t)p % al) p -= (uintptr_t)p % al;
    if (p > s.lo) memset(s.lo, 0xC3, p - s.lo); memset(p + n, 0xC3, s.lo + s.cap - p - n); if (src) memcpy(p, src, n); else memset(p, 0x3C, n);
    POISON(s.lo, (p - s.lo) & ~7ul); if (side) { size_t o = (p + n - s.lo + 7) & ~7ul; POISON(s.lo + o, s.cap - o); } return p;
}
static const Slot& lastSlot() { return slots[nslot - 1]; }
// bytes around the buffer unchanged
static bool intact(const u8* p, size_t n) { for (auto& s : slots) if (s.lo && p >= s.lo && p <= s.lo + s.cap) { UNPOISON(s.lo, s.cap); for (const u8* q = s.lo; q < p; q++) if (*q != 0xC3) return false; for (const u8* q = p + n; q < s.lo + s.cap; q++) if (*q != 0xC3) return false; return true; } return false; }
static Bytes pat(size_t n, int kind = 2) { Bytes b(n); for (size_t i = 0; i < n; i++) b[i] = kind == 0 ? 0 : kind == 1 ? 0xff : (u8)(i * 37 + 11 + (i >> 8)); return b; }
static u8* placeB(const Bytes& b) { return place(b.data(), b.size()); }
template<class T> static std::span<const T> placeV(const std::vector<T>& v) { return {(const T*)place((const void*)v.data(), v.size() * sizeof(T), 8), v.size()}; }
template<class T> static const T& placeO(const T& t) { return *(const T*)place(&t, sizeof t, 8); }
static volatile u64 sink; template<class T> static void use(const T& t) { const u8* b = (const u8*)&t; u64 h = 0; for (size_t i = 0; i < sizeof t; i++) h = h * 31 + b[i]; if (h == 12345) sink = h + sink; }   // reads and branches on every byte: uninitialised output is seen by Valgrind
template<class T> static void useo(const std::optional<T>& t) { if (t) use(*t); }
static void useb(const u8* b, size_t n) { u64 h = 0; for (size_t i = 0; i < n; i++) h = h * 31 + b[i]; if (h == 12345) sink = h + sink; }
// runs library calls; allocations must balance, exceptions of the documented kinds are an answer
template<class F> static bool lib(mc::Ctx& c, F&& f) { c.op(); live = 0; counting = true; bool threw = false; try { f(); } catch (const std::bad_alloc&) { threw = true; } catch (const std::invalid_argument&) { threw = true; } counting = false; c.check(live == 0, [&] { return "leak: " + std::to_string(live) + " blocks outstanding after the call"; }); return !threw; }
static std::vector<u64> lens(u64 dense, std::initializer_list<u64> more) { std::vector<u64> v; for (u64 i = 0; i <= dense; i++) v.push_back(i); for (u64 x : more) if (x > dense) v.push_back(x); return v; }
typedef std::array<u64, 4> SK;
static SK key(int i) { static const SK k[] = {{1, 0, 0, 0}, {0x0123456789abcdef, 0xfedcba9876543210, 0x1111111122222222, 0x3333333344444444}, {0, 0, 0, 0}, {~0ull, ~0ull, ~0ull, ~0ull}, {0xffffffff00000000, 0x53bda402fffe5bfe, 0x3339d80809a1d805, 0x73eda753299d7d48}, {0, 0, 0, 1ull << 63}, {~0ull, 0, 0, 0}, {0xffffffff00000001, 0x53bda402fffe5bfe, 0x3339d80809a1d805, 0x73eda753299d7d48}}; return k[i % 8]; }
template<class G> static void decode(mc::Ctx& c, int which, const u8* b, conv_opt o) {
    lib(c, [&] { switch (which) {
    case 0: useo(g1::fromCompressedBytesBE(std::span<const u8, 48>(b, 48))); break; case 1: useo(g2::fromCompressedBytesBE(std::span<const u8, 96>(b, 96))); break;
    case 2: useo(g1::fromAffineBytesBE(std::span<const u8, 96>(b, 96), o)); break; case 3: useo(g1::fromAffineBytesLE(std::span<const u8, 96>(b, 96), o)); break;
    case 4: useo(g2::fromAffineBytesBE(std::span<const u8, 192>(b, 192), o)); break; case 5: useo(g2::fromAffineBytesLE(std::span<const u8, 192>(b, 192), o)); break;
    case 6: useo(g1::fromJacobianBytesBE(std::span<const u8, 144>(b, 144), o)); break; case 7: useo(g1::fromJacobianBytesLE(std::span<const u8, 144>(b, 144), o)); break;
    case 8: useo(g2::fromJacobianBytesBE(std::span<const u8, 288>(b, 288), o)); break; case 9: useo(g2::fromJacobianBytesLE(std::span<const u8, 288>(b, 288), o)); break;
    case 10: useo(fp::fromBytesBE(std::span<const u8, 48>(b, 48), o)); break; case 11: useo(fp::fromBytesLE(std::span<const u8, 48>(b, 48), o)); break;
    case 12: useo(fp2::fromBytesBE(std::span<const u8, 96>(b, 96), o)); break; case 13: useo(fp2::fromBytesLE(std::span<const u8, 96>(b, 96), o)); break;
    case 14: useo(fp6::fromBytesBE(std::span<const u8, 288>(b, 288), o)); break; case 15: useo(fp6::fromBytesLE(std::span<const u8, 288>(b, 288), o)); break;
    case 16: useo(fp12::fromBytesBE(std::span<const u8, 576>(b, 576), o)); break; case 17: useo(fp12::fromBytesLE(std::span<const u8, 576>(b, 576), o)); break; } });
}
static const size_t DLEN[18] = {48, 96, 96, 96, 192, 192, 144, 144, 288, 288, 48, 48, 96, 96, 288, 288, 576, 576};
static Bytes good(int which) {
    Bytes b(DLEN[which]); g1 p = g1::one().dbl(); g2 q = g2::one().dbl(); fp12 t; std::vector<std::tuple<g1, g2>> v; u8* d = b.data();
    switch (which) { case 0: p.toCompressedBytesBE(std::span<u8, 48>(d, 48)); break; case 1: q.toCompressedBytesBE(std::span<u8, 96>(d, 96)); break; case 2: p.toAffineBytesBE(std::span<u8, 96>(d, 96)); break; case 3: p.toAffineBytesLE(std::span<u8, 96>(d, 96)); break; case 4: q.toAffineBytesBE(std::span<u8, 192>(d, 192)); break; case 5: q.toAffineBytesLE(std::span<u8, 192>(d, 192)); break;
    case 6: p.toJacobianBytesBE(std::span<u8, 144>(d, 144)); break; case 7: p.toJacobianBytesLE(std::span<u8, 144>(d, 144)); break; case 8: q.toJacobianBytesBE(std::span<u8, 288>(d, 288)); break; case 9: q.toJacobianBytesLE(std::span<u8, 288>(d, 288)); break; default: for (size_t i = 0; i < b.size(); i++) b[i] = (u8)(i * 7 % 23); }
    return b;
}
// ---- calling convention: the routine must preserve callee-saved registers, the stack pointer and the direction flag
extern "C" void abi_call(void* f, void* a, void* b, void* c, u64* out);
asm(R"(
.text
.globl abi_call
.type abi_call,@function
abi_call:
 pushq %rbp; pushq %rbx; pushq %r12; pushq %r13; pushq %r14; pushq %r15; pushq %r8
 movq %rdi,%rax; movq %rsi,%rdi; movq %rdx,%rsi; movq %rcx,%rdx
 movq $0x1111222233334444,%rbx; movq $0x5555666677778888,%rbp; movq $0x9999aaaabbbbcccc,%r12; movq $0x1234123412341234,%r13; movq $0x4321432143214321,%r14; movq $0x7777333377773333,%r15
 movq %rsp,abi_sp(%rip)
 call *%rax
 movq %rsp,abi_sp2(%rip)
 movq abi_sp(%rip),%rsp
 movq 0(%rsp),%r8
 movq %rbx,0(%r8); movq %rbp,8(%r8); movq %r12,16(%r8); movq %r13,24(%r8); movq %r14,32(%r8); movq %r15,40(%r8)
 pushfq; popq %rax; movq %rax,48(%r8)
 popq %r8; popq %r15; popq %r14; popq %r13; popq %r12; popq %rbx; popq %rbp
 movq abi_sp2(%rip),%rax; subq abi_sp(%rip),%rax; movq %rax,56(%r8)
 ret
.size abi_call,.-abi_call
.bss
.align 8
abi_sp: .skip 8
abi_sp2: .skip 8
.text
)");
int main(int argc, char** argv) {
    mc::Explorer E; E.parse(argc, argv); bool VG = E.opt.config.find("valgrind") != std::string::npos; if (!VG) ref::selftest(); hooks(); bool T = E.thorough(); int lvl = VG ? (T ? 2 : 1) : (T ? 3 : 2);   // 0,1: Valgrind; 2,3: sanitizers
    auto begin = [](mc::Ctx&, int s) { nslot = 0; side = s; };
    // ---- hash and key-derivation functions
    static auto xl = lvl >= 2 ? lens(lvl == 3 ? 300 : 130, {159, 160, 161, 255, 256, 257, 512, 1000, 8127, 8128, 8129, 8159, 8160, 8161, 8192, 65535, 65536, 1u << 20}) : lens(4, {31, 32, 33, 63, 64, 65, 256, 8160, 8161});
    static auto dl = lvl >= 2 ? lens(lvl == 3 ? 300 : 70, {119, 120, 127, 128, 191, 253, 254, 255, 256, 257, 300, 65536}) : lens(1, {43, 63, 64, 255, 256});
    static std::vector<u64> il = lvl >= 2 ? std::vector<u64>{0, 1, 54, 55, 56, 63, 64, 65, 119, 128, 200} : std::vector<u64>{0, 1, 64, 119};
    E.add("xmd", "expand_message: output length x tag length x input length", {xl.size(), dl.size(), il.size(), 2}, [=](mc::Ctx& c, const mc::Idx& v) { begin(c, v[3]); u64 n = xl[v[0]], d = dl[v[1]], i = il[v[2]]; if (n > 300 && i > 1 && d > 1) return; u8* o = place(nullptr, n); u8* in = placeB(pat(i)); u8* ds = placeB(pat(d, 1)); int r = 0; if (c.verbose) c.note = "out " + std::to_string(n) + " tag " + std::to_string(d) + " in " + std::to_string(i); lib(c, [&] { r = xmd_sh256(o, (int)n, in, i, ds, (int)d); }); if (r == 0) useb(o, n); c.check(intact(o, n), "wrote outside the output"); c.state(n * 1000003 + d * 1009 + i); });
    E.add("xmd-refused", "output lengths that are negative or too large: nothing is written", {8, il.size()}, [=](mc::Ctx& c, const mc::Idx& v) { static const int L[] = {-1, -31, -32, -33, -8160, INT_MIN, INT_MAX, INT_MAX - 31}; begin(c, 0); u8* o = place(nullptr, 1); u8* in = placeB(pat(il[v[1]])); int r = 0; lib(c, [&] { r = xmd_sh256(o, L[v[0]], in, il[v[1]], in, 0); }); c.check(r != 0 && *o == 0x3C, "accepted"); });
    static auto hk = lvl >= 2 ? lens(lvl == 3 ? 260 : 140, {191, 192, 255, 256, 1000, 65536}) : lens(2, {31, 32, 33, 63, 64, 65, 66, 129});
    E.add("hmac", "HMAC: input length x key length", {hk.size(), hk.size(), 2}, [=](mc::Ctx& c, const mc::Idx& v) { begin(c, v[2]); u8* m = place(nullptr, 32); u8* in = placeB(pat(hk[v[0]])); u8* k = placeB(pat(hk[v[1]], 1)); lib(c, [&] { hkdf256_hmac(m, in, hk[v[0]], k, hk[v[1]]); }); useb(m, 32); c.check(intact(m, 32), "wrote outside the output"); c.state(hk[v[0]] * 65537 + hk[v[1]]); });
    static auto el = lvl >= 2 ? lens(lvl == 3 ? 600 : 200, {1000, 4096, 8127, 8128, 8129, 8159, 8160}) : lens(2, {31, 32, 33, 64, 100, 8160});
    static std::vector<u64> nf = lvl >= 2 ? std::vector<u64>{0, 1, 2, 22, 23, 31, 32, 33, 54, 55, 64, 100, 300, 1000} : std::vector<u64>{0, 2, 31, 100};
    E.add("expand", "HKDF-Expand: output length x info length", {el.size(), nf.size(), 2}, [=](mc::Ctx& c, const mc::Idx& v) { begin(c, v[2]); u64 n = el[v[0]]; u8* o = place(nullptr, n); u8* k = placeB(pat(32)); u8* i = placeB(pat(nf[v[1]])); int r = 0; lib(c, [&] { r = hkdf256_expand(o, n, k, i, nf[v[1]]); }); if (!r) useb(o, n); c.check((r == 0) == (n > 0) && intact(o, n), "wrong result or wrote outside"); c.state(n * 65537 + nf[v[1]]); });
    E.add("expand-refused", "refused output lengths: nothing is read or written", {7, 3}, [=](mc::Ctx& c, const mc::Idx& v) { static const u64 L[] = {0, 8161, 8192, 65536, 1ull << 32, ~0ull, ~0ull - 30}; begin(c, 0); u8* o = place(nullptr, 0); u8* k = placeB(pat(32)); u8* i = placeB(pat(v[1])); int r = 0; lib(c, [&] { r = hkdf256_expand(o, L[v[0]], k, i, v[1]); }); c.check(r != 0 && intact(o, 0), "accepted"); lib(c, [&] { r = hkdf256_extract_expand(o, L[v[0]], k, 32, i, v[1], i, v[1]); }); c.check(r != 0 && intact(o, 0), "accepted"); });
    static std::vector<u64> ee = lvl >= 2 ? std::vector<u64>{0, 1, 20, 31, 32, 33, 63, 64, 65, 100, 200} : std::vector<u64>{0, 33, 65};
    E.add("extract-expand", "HKDF: key x salt x info x output lengths", {ee.size(), ee.size(), ee.size(), 6}, [=](mc::Ctx& c, const mc::Idx& v) { static const u64 L[] = {1, 32, 33, 48, 64, 8160}; begin(c, v[3] & 1); u8* o = place(nullptr, L[v[3]]); u8 *k = placeB(pat(ee[v[0]])), *s = placeB(pat(ee[v[1]])), *i = placeB(pat(ee[v[2]])); u8* p = place(nullptr, 32); lib(c, [&] { hkdf256_extract(p, s, ee[v[1]], k, ee[v[0]]); hkdf256_extract_expand(o, L[v[3]], k, ee[v[0]], s, ee[v[1]], i, ee[v[2]]); }); useb(o, L[v[3]]), useb(p, 32); c.check(intact(o, L[v[3]]) && intact(p, 32), "wrote outside"); });
    u64 sp_ = lvl == 3 ? 200 : lvl == 2 ? 132 : lvl == 1 ? 67 : 12; E.add("sha256", "SHA-256 fed in two pieces of every length, then a string", {sp_, sp_, 2}, [=](mc::Ctx& c, const mc::Idx& v) { begin(c, v[2]); u64 f = lvl == 0 ? 6 : 1; u8* a = placeB(pat(v[0] * f)); u8* b = placeB(pat(v[1] * f)); u8* d = place(nullptr, 32); lib(c, [&] { sha256 h; h.update(a, v[0] * f); h.update(b, v[1] * f); h.update(std::string(v[0] & 3, 'x')); h.digest(d); use(h.digest()); }); useb(d, 32); c.check(intact(d, 32), "wrote outside"); });
    // ---- every length: each variable-length argument in turn, the others fixed, on both page sides
    static std::vector<u64> eln; if (lvl >= 2) { for (u64 i = 0; i <= (lvl == 3 ? 4200u : 1100u); i++) eln.push_back(i); for (u64 k = 2048; k <= (1u << 20); k *= 2) for (u64 x : {k - 9, k - 8, k - 1, k, k + 1, k + 8}) if (x > eln.back()) eln.push_back(x); }
    if (lvl >= 2) E.add("every-length", "each variable-length argument at every length (others fixed), both page sides", {eln.size(), 17, 2}, [=](mc::Ctx& c, const mc::Idx& v) { begin(c, v[2]); u64 n = eln[v[0]]; if ((v[1] == 11 || v[1] == 12 || v[1] == 13 || v[1] == 9) && v[0] % 4 && n > 300 && lvl == 2) return; if (v[1] == 13 && v[2]) return; if (c.verbose) c.note = "argument " + std::to_string(v[1]) + " length " + std::to_string(n);
        u8* a = placeB(pat(n)); u8* k = placeB(pat(32, 1)); u8* o = nullptr; u64 on = 0; auto out = [&](u64 m) { on = m; o = place(nullptr, m); }; std::span<const u8> s(a, n); const SK& sk = placeO(key(1));
        switch (v[1]) {
        case 0: out(32); lib(c, [&] { hkdf256_hmac(o, a, n, k, 32); }); break; case 1: out(32); lib(c, [&] { hkdf256_hmac(o, k, 32, a, n); }); break;
        case 2: out(100); lib(c, [&] { hkdf256_expand(o, 100, k, a, n); }); break; case 3: out(33); lib(c, [&] { hkdf256_expand(o, 33, k, a, n); }); break; case 4: out(32); lib(c, [&] { hkdf256_extract(o, a, n, k, 32); }); break; case 5: out(32); lib(c, [&] { hkdf256_extract(o, k, 32, a, n); }); break;
        case 6: out(65); lib(c, [&] { hkdf256_extract_expand(o, 65, k, 32, k, 4, a, n); }); break; case 7: out(65); lib(c, [&] { hkdf256_extract_expand(o, 65, a, n, k, 4, k, 2); hkdf256_extract_expand(o, 65, k, 32, a, n, k, 2); }); break;
        case 8: out(256); lib(c, [&] { xmd_sh256(o, 256, a, n, k, 32); if (n <= 255) xmd_sh256(o, 256, k, 32, a, (int)n); }); break; case 9: lib(c, [&] { use(fromMessage(s, "TAG")); }); break; case 10: { std::string t(n, 'D'); lib(c, [&] { use(fromMessage(std::span<const u8>(k, 3), t)); }); break; }
        case 11: lib(c, [&] { use(secret_key(s)); }); break; case 12: lib(c, [&] { use(sign(sk, s)); }); break; case 13: lib(c, [&] { std::vector<Bytes> ms = {Bytes(a, a + n), Bytes{7}}; bool r = verify(g1::one(), s, g2::one()); r ^= aggregate_verify(std::array{g1::one(), g1::one()}, ms, g2::one(), true); use(r); }); break;
        case 14: out(32); lib(c, [&] { sha256 h; h.update(a, n); h.digest(o); sha256 g; g.update(k, 7); g.update(std::string((const char*)a, n)); use(g.digest()); }); break;
        case 15: if (n > 4300) return; out(8160); lib(c, [&] { ikm_to_lamport_sk(o, a, n, k, 4); ikm_to_lamport_sk(o, k, 32, a, n); }); break;
        default: { Bytes h(n); for (u64 i = 0; i < n; i++) h[i] = "0123456789abcdefABCDEF"[(i * 5) % 22]; if (n > 1 && (n & 4)) h[0] = '0', h[1] = 'x'; u8* p = placeB(h); lib(c, [&] { auto r = hexToBytes(std::string_view((const char*)p, n)); useb(r.data(), r.size()); std::string t = bytesToHex(s); useb((const u8*)t.data(), t.size()); }); } }
        if (o) { useb(o, on); c.check(intact(o, on), "wrote outside the output"); } c.state(v[1] * 2000003 + n); });
    // ---- text
    u64 hl = lvl == 3 ? 600 : lvl == 2 ? 200 : 20; E.add("hex-text", "hex text of every length with and without prefix, valid and invalid characters", {hl, 6, 2}, [=](mc::Ctx& c, const mc::Idx& v) { begin(c, v[2]); Bytes s(v[0]); for (size_t i = 0; i < s.size(); i++) s[i] = v[1] == 4 ? (u8)(128 + i * 11) : v[1] == 5 ? (u8)(i * 29) : "0123456789abcdefABCDEF"[(i * 5 + v[1]) % 22]; if ((v[1] & 1) && s.size() > 0) s[0] = '0'; if ((v[1] == 1 || v[1] == 5) && s.size() > 1) s[1] = 'x'; u8* p = placeB(s); lib(c, [&] { auto r = hexToBytes(std::string_view((const char*)p, s.size())); useb(r.data(), r.size()); std::string h = bytesToHex(std::span<const u8>(p, s.size())); useb((const u8*)h.data(), h.size()); }); c.state(v[0] * 7 + v[1]); });
    if (lvl >= 2) E.add("hex-pairs", "every two-character text", {256, 256}, [=](mc::Ctx& c, const mc::Idx& v) { begin(c, 0); Bytes s = {(u8)v[0], (u8)v[1]}; u8* p = placeB(s); lib(c, [&] { auto r = hexToBytes(std::string_view((const char*)p, 2)); useb(r.data(), r.size()); }); });
    E.add("hex-fixed", "fixed-size hex conversions", {3, 3}, [=](mc::Ctx& c, const mc::Idx& v) { begin(c, 0); auto go = [&]<size_t N>() { u8* o = place(nullptr, N); u8* in = placeB(pat(N, v[1])); std::string s = std::string(v[1] ? "0x" : "") + std::string(2 * N, v[1] == 2 ? 'f' : '3'); s.shrink_to_fit(); lib(c, [&] { hexToBytes<N>(s, std::span<u8, N>(o, N)); use(hexToBytes<N>(s)); std::string h = bytesToHex<N>(std::span<const u8, N>(in, N)); useb((const u8*)h.data(), h.size()); }); useb(o, N); c.check(intact(o, N), "wrote outside"); }; if (v[0] == 0) go.operator()<1>(); else if (v[0] == 1) go.operator()<48>(); else go.operator()<96>(); });
    // ---- keys
    static auto sl = lvl >= 2 ? lens(lvl == 3 ? 600 : 200, {255, 256, 1000, 4096, 65536, 1u << 20}) : lens(1, {31, 32, 33, 63, 64, 65, 130}); E.add("seed", "key generation: every seed length", {sl.size(), 3, 2}, [=](mc::Ctx& c, const mc::Idx& v) { begin(c, v[2]); u8* p = placeB(pat(sl[v[0]], v[1])); lib(c, [&] { use(secret_key(std::span<const u8>(p, sl[v[0]]))); }); c.state(sl[v[0]] * 3 + v[1]); });
    E.add("derive", "child keys: key x index", {8, 6}, [=](mc::Ctx& c, const mc::Idx& v) { static const uint32_t ix[] = {0, 1, 255, 0x7fffffff, 0x80000000, 0xffffffff}; if (lvl == 0 && v[1] > 1) return; begin(c, 0); const SK& k = placeO(key(v[0])); u8* o = place(nullptr, 32); bool red = ref::zfrom(k.data(), 4) < ref::ZR; lib(c, [&] { use(derive_child_sk(k, ix[v[1]])); parent_sk_to_lamport_pk(o, k, ix[v[1]]); g1 pk = public_key(k); use(pk); use(derive_child_g1_unhardened(pk, ix[v[1]])); if (red) use(derive_child_sk_unhardened(k, ix[v[1]])); use(sk_to_bytes(k)); auto b = sk_to_bytes(k); use(sk_from_bytes(b, true)); use(sk_from_bytes(b, false)); if (lvl >= 2) use(derive_child_g2_unhardened(g2::one().scale(k), ix[v[1]])); }); useb(o, 32); c.check(intact(o, 32), "wrote outside"); });
    static auto ik = lvl >= 2 ? lens(70, {100, 200}) : lens(0, {32, 65}); E.add("lamport", "Lamport expansion: key and salt lengths", {ik.size(), lvl >= 2 ? 4u : 1u}, [=](mc::Ctx& c, const mc::Idx& v) { static const u64 S[] = {4, 0, 64, 65}; begin(c, v[1] & 1); u8* o = place(nullptr, 8160); u8 *k = placeB(pat(ik[v[0]])), *s = placeB(pat(S[v[1]])); lib(c, [&] { ikm_to_lamport_sk(o, k, ik[v[0]], s, S[v[1]]); }); useb(o, 8160); c.check(intact(o, 8160), "wrote outside"); });
    // ---- messages and signatures
    static auto ml = lvl >= 2 ? lens(lvl == 3 ? 270 : 135, {255, 256, 1000, 65536}) : lens(0, {1, 55, 64, 200}); static std::vector<u64> tl = lvl >= 2 ? std::vector<u64>{0, 1, 43, 254, 255, 256, 300, 1000} : std::vector<u64>{0, 255, 256};
    E.add("hash-to-curve", "message length x tag length", {ml.size(), tl.size()}, [=](mc::Ctx& c, const mc::Idx& v) { begin(c, v[0] & 1); u8* m = placeB(pat(ml[v[0]])); std::string d(tl[v[1]], 'D'); lib(c, [&] { use(fromMessage(std::span<const u8>(m, ml[v[0]]), d)); }); c.state(ml[v[0]] * 1009 + tl[v[1]]); });
    E.add("sign-verify", "message length x keys: sign, verify, proofs", {ml.size(), 3}, [=](mc::Ctx& c, const mc::Idx& v) { if (v[1] && v[0] % 16) return; begin(c, 0); u8* m = placeB(pat(ml[v[0]])); std::span<const u8> s(m, ml[v[0]]); const SK& k = placeO(key(v[1] + 1)); lib(c, [&] { g2 sg = sign(k, s); use(sg); g1 pk = public_key(k); bool r = verify(pk, s, sg); use(r); if (v[1] == 0 && v[0] % 16 == 0) { g2 p = pop_prove(k); use(p); bool q = pop_verify(pk, p); use(q); } }); });
    // ---- points: every candidate through every operation and every verification path
    static std::vector<Cand<Fe>> c1; static std::vector<Cand<F2>> c2;
    if (!VG) { c1 = variants<Fe>("P", ref::smul(ref::G1(), Z(5)), T); c2 = variants<F2>("Q", ref::smul(ref::G2(), Z(5)), T); }
    else { g1 p = g1::one().dbl(), i1 = g1::zero(), b1 = p; b1.y = b1.x; g2 q = g2::one().dbl(), i2 = g2::zero(), b2 = q; b2.y = b2.x; for (auto& x : {p, i1, b1, p.affine()}) c1.push_back({"p", x, true, true, ref::pinf<Fe>()}); for (auto& x : {q, i2, b2, q.affine()}) c2.push_back({"q", x, true, true, ref::pinf<F2>()}); }
    auto pt = [=](mc::Ctx& c, auto p, auto q) { lib(c, [&] { typedef decltype(p) G; use(p.add(q)); use(p.dbl()); use(p.subtract(q)); use(p.negate()); use(p.affine()); G r = p; r.addAssign(q); r.doubleAssign(); r.subtractAssign(p); use(r); bool b[] = {p.isZero(), p.isOnCurve(), p.isAffine(), p.equal(q), p.inCorrectSubgroup()}; use(b); use(p.clearCofactor()); use(p.scale(key(1))); use(p.toCompressedBytesBE()); use(p.toAffineBytesBE()); use(p.toAffineBytesLE(from_mont::no)); use(p.toJacobianBytesBE()); use(p.toJacobianBytesLE(from_mont::no)); bool o = p < q; use(o); }); };
    E.add("g1-points", "all operations of every G1 candidate (on and off the curve, infinity, small order) with a second one", {c1.size(), lvl >= 2 ? (u64)c1.size() : 2}, [=](mc::Ctx& c, const mc::Idx& v) { if (lvl == 2 && v[1] % 7 != v[0] % 7 && v[0] != v[1]) return; begin(c, 0); pt(c, c1[v[0]].g, c1[v[1]].g); lib(c, [&] { use(c1[v[0]].g.glvEndomorphism()); }); });
    E.add("g2-points", "all operations of every G2 candidate with a second one", {c2.size(), lvl >= 2 ? (u64)c2.size() : 2}, [=](mc::Ctx& c, const mc::Idx& v) { if (lvl == 2 && v[1] % 11 != v[0] % 11 && v[0] != v[1]) return; begin(c, 0); pt(c, c2[v[0]].g, c2[v[1]].g); lib(c, [&] { use(c2[v[0]].g.psi()); use(c2[v[0]].g.isogenyMap()); }); });
    E.add("verify-paths", "verification with every candidate key and every candidate signature (all rejection paths)", {c1.size() + c2.size(), 3}, [=](mc::Ctx& c, const mc::Idx& v) { if (lvl == 0 && v[1] == 2) return; begin(c, 0); g1 p = v[0] < c1.size() ? c1[v[0]].g : g1::one(); g2 q = v[0] < c1.size() ? g2::one() : c2[v[0] - c1.size()].g; Bytes m = pat(5); u8* mm = placeB(m); lib(c, [&] { bool r; std::span<const u8> s(mm, 5); if (v[1] == 0) r = verify(p, s, q); else if (v[1] == 1) r = pop_verify(p, q); else { std::vector<Bytes> ms = {Bytes{1}, Bytes{}}; r = aggregate_verify(std::array{g1::one(), p}, ms, q, v[0] & 1); } use(r); }); });
    // ---- lists
    static std::vector<Bytes> msgs = {{}, {1}, {1, 2}, pat(64), pat(65), {1}}; u64 nk = lvl >= 2 ? 5 : 3;
    E.add("aggregate-verify", "number of keys x number of messages x duplicate check x which member is bad", {nk, nk, 2, 4}, [=](mc::Ctx& c, const mc::Idx& v) { if (lvl == 0 && v[3] > 1) return; begin(c, 0); std::vector<g1> k; for (u64 i = 0; i < v[0]; i++) { g1 p = public_key(key(i & 1)); if (v[3] == i + 1) p.y = p.x; k.push_back(p); } std::vector<Bytes> m(msgs.begin(), msgs.begin() + v[1]); if (v[1] > 2 && v[3] == 3) m[2] = m[1]; auto ks = placeV(k); lib(c, [&] { bool r = aggregate_verify(ks, m, g2::one(), v[2]); use(r); }); });
    u64 al = lvl == 3 ? 70 : lvl == 2 ? 24 : 4; E.add("aggregate", "aggregation and fast verification of every list size, infinities at every position", {al, 3}, [=](mc::Ctx& c, const mc::Idx& v) { begin(c, v[1] & 1); std::vector<g1> k; std::vector<g2> s; std::vector<SK> z; for (u64 i = 0; i < v[0]; i++) { bool inf = v[1] == 1 && i % 2; k.push_back(inf ? g1::zero() : v[1] == 2 ? g1::one().dbl() : g1::one()); s.push_back(inf ? g2::zero() : g2::one()); z.push_back(key(v[1] == 1 ? 4 : i & 1)); } auto ks = placeV(k); auto ss = placeV(s); auto zs = placeV(z); u8* m = placeB(pat(3)); lib(c, [&] { use(aggregate_public_keys(ks)); use(aggregate_signatures(ss)); use(aggregate_secret_keys(zs)); use(aggregate_public_keys(ks, [](const g1& x) { return x; }, [](const g1&, size_t i) { return i % 3 != 1; })); use(aggregate_signatures(ss, [](const g2& x) { return x; })); bool r = pop_fast_aggregate_verify(ks, std::span<const u8>(m, 3), g2::one()); use(r); }); });
    static std::vector<u64> wl; wl = lvl == 3 ? lens(40, {63, 64, 65, 90, 91, 127, 128, 129, 148, 149, 244, 245, 403, 404, 665, 1096, 1097}) : lvl == 2 ? lens(9, {15, 16, 17, 31, 32, 33, 54, 55, 63, 64, 65, 148, 149, 404}) : lens(2, {31, 33}); if (lvl == 1) wl = lens(3, {31, 32, 33, 40, 65});
    static const g1 PT1[] = {g1::one(), g1::zero(), g1::one().dbl(), g1::one().negate()}; static const g2 PT2[] = {g2::one(), g2::zero(), g2::one().dbl(), g2::one().negate()};
    E.add("weighted-sum", "number of points x number of scalars x scalar kind x yield callback, both groups", {wl.size(), wl.size(), 5, 2}, [=](mc::Ctx& c, const mc::Idx& v) { u64 n = wl[v[0]], m = wl[v[1]]; if (n != m && (std::max(n, m) > 70 || v[3])) return; if (lvl < 2 && (n != m || (v[2] && v[2] != 3)) && (n > 2 || m > 2 || v[2] > 1)) return; if (n > 100 && v[2] != 3 && v[2] != 1) return; begin(c, v[0] & 1); std::vector<g1> p; std::vector<g2> q; for (u64 i = 0; i < n; i++) p.push_back(PT1[i % 4]), q.push_back(PT2[i % 4]); std::vector<SK> s; for (u64 i = 0; i < m; i++) s.push_back(v[2] < 4 ? key((int[]){2, 3, 5, 1}[v[2]]) : key(i)); auto ps = placeV(p); auto qs = placeV(q); auto ss = placeV(s); std::function<void()> y; long cnt = 0; if (v[3]) y = [&] { cnt++; }; lib(c, [&] { use(g1::weightedSum(ps, ss, y)); use(g2::weightedSum(qs, ss, y)); }); c.state(n * 7919 + m * 13 + v[2]); }, 120);
    static std::vector<u64> pl = lvl >= 2 ? lens(lvl == 3 ? 40 : 10, {33, 64, 70}) : lens(2, {}); E.add("pairing", "pairing lists of every size, with infinities and a callback", {pl.size(), 4}, [=](mc::Ctx& c, const mc::Idx& v) { begin(c, 0); lib(c, [&] { std::vector<std::tuple<g1, g2>> l; for (u64 i = 0; i < pl[v[0]]; i++) pr::add_pair(l, PT1[(i + v[1]) % 4], PT2[(i * (v[1] + 1)) % 4]); long k = 0; fp12 r = v[1] & 1 ? pr::calculate(l, [&] { k++; }) : pr::calculate(l); use(r); bool b = r.isGtValid(); use(b); }); });
    // ---- numeric arguments
    static std::vector<u64> fpw = lens(lvl >= 2 ? 60 : 13, {63, 64, 127, 128, 255, 256, 1000, 1u << 16, 0x7fffffff, 0x80000000ull, 0xffffffffull, 1ull << 32, (1ull << 63) - 1, 1ull << 63, ~0ull, ~0ull - 1, ~0ull - 11});
    E.add("frobenius", "Frobenius maps of every level for every power to 60 and around word boundaries", {fpw.size(), 2}, [=](mc::Ctx& c, const mc::Idx& v) { begin(c, 0); u64 k = fpw[v[0]]; fp2 a = g2::BASE.x, b = g2::BASE.y; fp6 s({a, b, v[1] ? fp2::zero() : a}); fp12 t({s, fp6({b, a, b})}); lib(c, [&] { use(a.frobeniusMap(k)); use(s.frobeniusMap(k)); use(t.frobeniusMap(k)); fp2 x = a; x.frobeniusMapAssign(k); fp6 y = s; y.frobeniusMapAssign(k); fp12 z = t; z.frobeniusMapAssign(k); use(x), use(y), use(z); if (k < 64) use(g2::BASE.frobeniusMap((int64_t)k)); }); c.state(k); });
    static std::vector<u64> sh = lens(lvl >= 2 ? 520 : 70, {1000, 1u << 31, 0xffffffffull, 1ull << 32, 1ull << 63, ~0ull, ~0ull - 63, ~0ull - 64}); auto rshN = [=]<size_t N>(mc::Ctx& c, u64 s, int kind) { begin(c, kind & 1); std::vector<u64> w(N); for (size_t i = 0; i < N; i++) w[i] = kind ? ~0ull : i * 0x9e3779b97f4a7c15ull; auto& in = *(const std::array<u64, N>*)place(w.data(), N * 8, 8); auto& out = *(std::array<u64, N>*)place(nullptr, N * 8, 8); lib(c, [&] { scalar::rsh<N>(out, in, s); u64 l = scalar::bitLength(in); use(l); use(scalar::toBytesLE<N>(in)); use(scalar::toBytesBE<N>(in)); bool e = scalar::equal(in, out); auto cm = scalar::cmp(in, out) < 0; use(e), use(cm); }); useb((const u8*)&out, N * 8); c.check(intact((const u8*)&out, N * 8), "wrote outside"); };
    E.add("shift", "word-array shift by every amount to beyond the size", {sh.size(), 5, 2}, [=](mc::Ctx& c, const mc::Idx& v) { u64 s = sh[v[0]]; switch (v[1]) { case 0: rshN.operator()<1>(c, s, v[2]); break; case 1: rshN.operator()<3>(c, s, v[2]); break; case 2: rshN.operator()<4>(c, s, v[2]); break; case 3: rshN.operator()<6>(c, s, v[2]); break; default: rshN.operator()<8>(c, s, v[2]); } });
    static const u64 WV[] = {0, 1, ~0ull, 1ull << 63, 0x8000000000000001ull}; auto divNM = [=]<size_t N, size_t M>(mc::Ctx& c, u64 ai, u64 bi) { begin(c, 0); std::vector<u64> a(N), b(M); for (size_t i = 0; i < N; i++, ai /= 3) a[i] = WV[(ai % 3) + (i == N - 1 && ai % 3 == 1)]; for (size_t i = 0; i < M; i++, bi /= 4) b[i] = WV[bi % 4]; if (!b[M - 1]) b[M - 1] = 1; auto& A = *(std::array<u64, N>*)place(a.data(), N * 8, 8); auto& Bm = *(std::array<u64, M>*)place(b.data(), M * 8, 8); auto& q = *(std::array<u64, N>*)place(nullptr, N * 8, 8); auto& r = *(std::array<u64, M>*)place(nullptr, M * 8, 8); lib(c, [&] { bn_divn_safe(q, r, A, Bm); }); useb((u8*)&q, N * 8), useb((u8*)&r, M * 8); c.check(intact((u8*)&q, N * 8) && intact((u8*)&r, M * 8) && intact((u8*)&A, N * 8) && intact((u8*)&Bm, M * 8), "wrote outside"); };
    u64 d1 = lvl >= 2 ? 256 : 16; E.add("divide", "long division over extreme words, four size combinations", {81, d1, 4}, [=](mc::Ctx& c, const mc::Idx& v) { switch (v[2]) { case 0: divNM.operator()<4, 4>(c, v[0], v[1]); break; case 1: divNM.operator()<6, 4>(c, v[0] * 9 + 4, v[1]); break; case 2: divNM.operator()<8, 6>(c, v[0] * 81 + 50, v[1] * 16 + 9); break; default: divNM.operator()<12, 6>(c, v[0] * 6561 + 1234, v[1] * 16 + 6); } });
    if (lvl >= 2) E.add("divide-full", "six-by-four-word and eight-by-four-word long division over every combination of extreme words", {729, 256, 2}, [=](mc::Ctx& c, const mc::Idx& v) { if (v[2]) { if (lvl == 2 && v[0] % 3) return; divNM.operator()<8, 4>(c, v[0] * 9 + v[0] % 9, v[1]); } else divNM.operator()<6, 4>(c, v[0], v[1]); });
    auto expN = [=]<size_t N>(mc::Ctx& c, int kind) { begin(c, 0); std::vector<u64> w(N, kind == 0 ? 0 : kind == 1 ? ~0ull : 0); if (kind == 2) w[N - 1] = 1ull << 63; if (kind == 3) w[0] = 1; auto& s = *(const std::array<u64, N>*)place(w.data(), N * 8, 8); fp2 a = g2::BASE.x; fp6 x({a, a, a}); fp12 t({x, x}); lib(c, [&] { use(a.c0.exp(s)); use(a.exp(s)); use(g1::BASE.scale(s)); if (N <= 4) { use(x.exp(s)); use(t.exp(s)); use(t.cyclotomicExp(s)); use(g2::BASE.scale(s)); } if constexpr (N >= 6) use(fp::modPrime<N>(s)); }); };
    E.add("exponents", "exponents and scalars of one to ten words: zero, one, top bit, all ones", {6, 4}, [=](mc::Ctx& c, const mc::Idx& v) { switch (v[0]) { case 0: expN.operator()<1>(c, v[1]); break; case 1: expN.operator()<2>(c, v[1]); break; case 2: expN.operator()<4>(c, v[1]); break; case 3: expN.operator()<6>(c, v[1]); break; case 4: expN.operator()<8>(c, v[1]); break; default: expN.operator()<10>(c, v[1]); } });
    E.add("word-arithmetic", "word-array addition and multiplication over extreme words, results that fit and results that do not", {81, 81}, [=](mc::Ctx& c, const mc::Idx& v) { begin(c, 0); SK a, b; u64 x = v[0], y = v[1]; for (int i = 0; i < 4; i++, x /= 3, y /= 3) a[i] = WV[x % 3], b[i] = WV[y % 3]; const SK &A = placeO(a), &Bb = placeO(b); lib(c, [&] { use(scalar::add<4, 4, 4>(A, Bb)); }); lib(c, [&] { use(scalar::add<5, 4, 4>(A, Bb)); use(scalar::multiply<8, 4, 4>(A, Bb)); use(scalar::add<6, 4, 2>(A, {b[0], b[1]})); use(scalar::multiply<8, 4, 2>(A, {b[0], b[1]})); }); lib(c, [&] { use(scalar::add<3, 4, 4>(A, Bb)); }); if (lvl >= 2) lib(c, [&] { auto [s0, s1] = Add64(a[0], b[0], a[1] & 1); auto [t0, t1] = Sub64(a[0], b[0], a[1] & 1); auto [u0, u1] = Mul64(a[0], b[0]); use(s0 ^ s1 ^ t0 ^ t1 ^ u0 ^ u1); }); });
    // ---- field elements of every level, canonical boundary values
    static std::vector<fp> fv; { u64 m[6]; memcpy(m, fp::MODULUS.d.data(), 48); auto put = [&](std::array<u64, 6> d) { fp f(d); if (f.isValid()) fv.push_back(f); }; put({0, 0, 0, 0, 0, 0}); put({1, 0, 0, 0, 0, 0}); put({m[0] - 1, m[1], m[2], m[3], m[4], m[5]}); put({~0ull, ~0ull, ~0ull, ~0ull, ~0ull, m[5] - 1}); put({0, 0, 0, 0, 0, m[5]}); put({0, 0, 0, 1, 0, 0}); put(fp::R1.d); put(fp::R2.d); put(fp::B.d); put({5, 6, 7, 8, 9, 10}); put({~0ull, 0, ~0ull, 0, ~0ull, 0}); put(fp::twoInv.d); }
    E.add("fields", "every operation of every field level over boundary values", {fv.size(), fv.size(), lvl >= 2 ? 6u : 1u}, [=](mc::Ctx& c, const mc::Idx& v) { begin(c, 0); const fp& a = placeO(fv[v[0]]); const fp& b = placeO(fv[v[1]]); lib(c, [&] { fp r; use(a.add(b)), use(a.subtract(b)), use(a.multiply(b)), use(a.square()), use(a.dbl()), use(a.negate()), use(a.toMont()), use(a.fromMont()), use(a.inverse()), use(a.phi()); bool k = a.sqrt(r); use(r); k ^= a.isQuadraticNonResidue(); k ^= a.isLexicographicallyLargest(); k ^= a.sign(); use(k); fp d = a; d.div2(v[2] & 1); use(d); u64 cy = d.mul2(); use(cy); use(a.toBytesBE()), use(a.toBytesLE(from_mont::no)); });
        lib(c, [&] { fp2 p({a, b}), q({b, fv[v[2]]}), r; use(p.add(q)), use(p.subtract(q)), use(p.multiply(q)), use(p.square()), use(p.inverse()), use(p.mulByNonResidue()), use(p.mulByB()), use(p.mulByFq(a)), use(p.conjugate()), use(p.negate()), use(p.dbl()); bool k = p.sqrt(r); use(r); k ^= p.isQuadraticNonResidue(); k ^= p.isLexicographicallyLargest(); k ^= p.sign(); use(k); use(p.toBytesBE()); fp6 x({p, q, p}), y({q, q, fp2::zero()}); use(x.add(y)), use(x.multiply(y)), use(x.square()), use(x.inverse()), use(x.mulBy01(p, q)), use(x.mulBy1(q)), use(x.mulByNonResidue()), use(x.mulByBaseField(p)); x.mulBy01Assign(q, q); use(x); fp12 s({x, y}), t({y, x}); use(s.multiply(t)), use(s.square()), use(s.inverse()), use(s.cyclotomicSquare()), use(s.conjugate()); s.mulBy014Assign(p, q, p); use(s); bool g = s.isGtValid(); use(g); auto f4 = fp12::fp4Square(p, q); use(std::get<0>(f4)); use(std::get<1>(f4)); use(t.toBytesLE()); use(x.toBytesBE()); }); });
    E.add("map-to-curve", "maps from boundary field elements", {fv.size(), fv.size()}, [=](mc::Ctx& c, const mc::Idx& v) { begin(c, 0); lib(c, [&] { if (v[1] == 0) use(g1::mapToCurve(fv[v[0]])); use(g2::mapToCurve(fp2({fv[v[0]], fv[v[1]]}))); }); });
    // ---- decoders
    u64 nmut = lvl == 3 ? 600 : lvl == 2 ? 240 : 6; static std::vector<Bytes> gd; for (int i = 0; i < 18; i++) gd.push_back(good(i));
    E.add("decode", "every decoder: valid encodings, every byte changed, extreme contents, all options", {18, nmut + 12, 4}, [=](mc::Ctx& c, const mc::Idx& v) { begin(c, v[2] & 1); Bytes b = gd[v[0]]; u64 k = v[1]; if (k < 12) { if (k == 1) b.assign(b.size(), 0); else if (k == 2) b.assign(b.size(), 0xff); else if (k >= 3) { static const u8 F[] = {0x00, 0x20, 0x40, 0x60, 0x80, 0xa0, 0xc0, 0xe0, 0x9f}; if (k & 1) std::fill(b.begin(), b.end(), 0); b[0] = F[k - 3]; } } else { u64 i = (k - 12); if (i >= b.size()) return; b[i] ^= 1u << (i * 5 % 8); } u8* p = placeB(b); decode<g1>(c, v[0], p, {.check_valid = !(v[2] & 2), .to_mont = !(v[2] & 1)}); c.state(v[0] * 100003 + k); });
    E.add("encode", "every encoder into an exactly sized buffer", {18, 2}, [=](mc::Ctx& c, const mc::Idx& v) { begin(c, v[1]); size_t n = DLEN[v[0]]; u8* o = place(nullptr, n); g1 p = g1::one().dbl(); g2 q = g2::one().dbl(); fp12 t = fp12::one(); lib(c, [&] { switch (v[0]) { case 0: p.toCompressedBytesBE(std::span<u8, 48>(o, 48)); break; case 1: q.toCompressedBytesBE(std::span<u8, 96>(o, 96)); break; case 2: p.toAffineBytesBE(std::span<u8, 96>(o, 96)); break; case 3: p.toAffineBytesLE(std::span<u8, 96>(o, 96)); break; case 4: q.toAffineBytesBE(std::span<u8, 192>(o, 192)); break; case 5: q.toAffineBytesLE(std::span<u8, 192>(o, 192)); break; case 6: p.toJacobianBytesBE(std::span<u8, 144>(o, 144)); break; case 7: p.toJacobianBytesLE(std::span<u8, 144>(o, 144)); break; case 8: q.toJacobianBytesBE(std::span<u8, 288>(o, 288)); break; case 9: q.toJacobianBytesLE(std::span<u8, 288>(o, 288)); break; case 10: fp::R2.toBytesBE(std::span<u8, 48>(o, 48)); break; case 11: fp::R2.toBytesLE(std::span<u8, 48>(o, 48)); break; case 12: q.x.toBytesBE(std::span<u8, 96>(o, 96)); break; case 13: q.x.toBytesLE(std::span<u8, 96>(o, 96)); break; case 14: t.c0.toBytesBE(std::span<u8, 288>(o, 288)); break; case 15: t.c0.toBytesLE(std::span<u8, 288>(o, 288)); break; case 16: t.toBytesBE(std::span<u8, 576>(o, 576)); break; case 17: t.toBytesLE(std::span<u8, 576>(o, 576)); break; } }); useb(o, n); c.check(intact(o, n), "wrote outside the output"); });
    // ---- low-level routines: operands flush with inaccessible pages on either side, all aliasings, calling convention
    static void* FN[] = {(void*)(void (*)(fp*, const fp*, const fp*)) & _add, (void*)(void (*)(fp*, const fp*, const fp*)) & _subtract, (void*)(void (*)(fp*, const fp*, const fp*)) & _multiply, (void*)(void (*)(fp*, const fp*, const fp*)) & _ladd, (void*)(void (*)(fp*, const fp*, const fp*)) & _lsubtract, (void*)(void (*)(fp*, const fp*)) & _double, (void*)(void (*)(fp*, const fp*)) & _negate, (void*)(void (*)(fp*, const fp*)) & _square, (void*)(void (*)(fp*, const fp*)) & _ldouble};
    E.add("operand-bounds", "every low-level routine, each operand at either side of an inaccessible page, every aliasing: exactly 48 bytes touched, inputs unchanged, registers and stack preserved", {9, 8, 5, fv.size(), fv.size()}, [=](mc::Ctx& c, const mc::Idx& v) { bool un = v[0] >= 5; int al = v[2]; if (un && (al > 1 || v[4] || (v[1] & 4))) return; begin(c, 0); side = v[1] & 1; fp* z = (fp*)place(nullptr, 48, 8); side = v[1] >> 1 & 1; fp* x = (fp*)place(&fv[v[3]], 48, 8); side = v[1] >> 2; fp* y = (fp*)place(&fv[v[4]], 48, 8); if (al == 1 || al == 4) { memcpy((void*)z, x, 48); x = z; } if (al == 2) { memcpy((void*)z, y, 48); y = z; } if (al == 3) y = x; if (al == 4) y = z; fp x0 = *x, y0 = *y; u64 out[8];
        abi_call(FN[v[0]], z, x, y, out); c.op(); useb((u8*)z, 48); static const u64 want[] = {0x1111222233334444, 0x5555666677778888, 0x9999aaaabbbbcccc, 0x1234123412341234, 0x4321432143214321, 0x7777333377773333};
        c.check(!memcmp(out, want, sizeof want), "a callee-saved register was changed"); c.check(!(out[6] & 0x400), "direction flag set"); c.check(out[7] == 0, "stack pointer changed"); c.check(intact((u8*)z, 48) && intact((u8*)x, 48) && intact((u8*)y, 48), "wrote outside the result"); if (x != z) c.check(x->equal(x0), "first operand changed"); if (!un && y != z) c.check(y->equal(y0), "second operand changed"); });
    // the portable arithmetic differs from the native build only below the field interface: quick runs keep the families that exercise it
    if (!T && E.opt.config.find("portable") != std::string::npos) { static const std::set<std::string> keep = {"fields", "operand-bounds", "exponents", "frobenius", "word-arithmetic", "shift", "map-to-curve", "encode", "pairing", "g1-points", "derive"}; std::vector<mc::Family> k; for (auto& f : E.fams) if (keep.count(f.name)) { if (f.name == "fields") f.dims[2] = 2; if (f.name == "g1-points") f.dims[1] = 3; k.push_back(f); } E.fams.swap(k); }
    return E.run();
}
