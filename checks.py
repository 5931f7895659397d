"""Registry: which harness, build variants and configurations decide each property."""
V = __import__("os").path.dirname(__import__("os").path.abspath(__file__))
SAN = "-O1 -g -fsanitize=address,undefined -fno-sanitize=nonnull-attribute,vptr -fno-sanitize-recover=all -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS".split()
VARIANTS = {
    "native": {},
    # native library and the portable C++ arithmetic (renamed namespace) linked into one executable
    "dual": {"libs": ["", "portable"], "shims": [("shim.cpp", ["-DPFX=nat_"], "shim_native.o"), ("shim.cpp", ["-DPFX=port_", "-include", "@V@/lib/portable_prelude.hpp"], "shim_portable.o")]},
    # library and operation table in a shared object, loaded by an explorer that interposes malloc and locks
    # instrumented builds: sanitizers over the native library (its assembly is covered by guard pages) and over the portable arithmetic
    "asan": {"lib": SAN, "harness": SAN, "link": ["-fsanitize=address,undefined"]},
    "asan-portable": {"lib": SAN, "harness": SAN + ["-include", V + "/lib/portable_prelude.hpp"], "link": ["-fsanitize=address,undefined"], "libs": ["portable"]},
    "dbg": {"lib": ["-g", "-O1"], "harness": ["-g", "-O1"]},
    "vinit": {"lib": ["-fPIC"], "so": ["ops.cpp", "vinit.cpp"], "vinit": True, "link": ["-rdynamic"]},
    "native-ops": {"extra": ["ops.cpp"]},
    "so": {"lib": ["-fPIC"], "so": ["ops.cpp"], "link": ["-rdynamic"]},
}
BMI = dict(name="bmi2-adx", variant="native")
BASE = dict(name="baseline-asm", variant="native", env={"BLS_DISABLE_BMI2": "1"})
TBASE = dict(name="baseline-asm", variant="native", env={"BLS_DISABLE_BMI2": "1"}, thorough_only=True)
GB = "all ordered pairs of ~38 (60) named curve points in 6x6 (9x9) Jacobian representatives including six of infinity, and in representatives whose z is word-wise close to one or zero; the whole addition table of the subgroup of order %s; all two-register operation sequences to depth 4 (5)"
CHECKS = {
    "C01": dict(src="c01.cpp", configs=[BMI, BASE], bounds="operands from structured 384-bit limb-pattern alphabets (all ordered pairs), all alias patterns, values differing in one bit or one word, all operation sequences to the stated depth"),
    "C02": dict(src="c02.cpp", configs=[dict(name="bmi2-adx+portable", variant="dual"), dict(name="baseline-asm+portable", variant="dual", env={"BLS_DISABLE_BMI2": "1"})],
                bounds="three back ends (BMI2/ADX, baseline assembly, portable C++) on the same structured operand alphabets and carry-boundary pairs, plus 160 (thorough 4000) deterministic inputs per whole-library computation"),
    "C03": dict(src="c03.cpp", configs=[BMI], bounds="operand widths 1..12 words; every word of every operand from a boundary alphabet (all tuples up to 4 words, two/three-letter alphabets above); divisors with every top-word bit length; every shift amount"),
    "C04": dict(src="c04.cpp", configs=[BMI, dict(name="baseline-asm", variant="native", env={"BLS_DISABLE_BMI2": "1"}, thorough_only=True)], bounds="coordinates from boundary alphabets; every zero/one/dense coordinate pattern of the sextic and twelfth-degree fields; comparisons of elements differing in one word of one coordinate; Frobenius powers 0..40 and around 2^32/2^63/2^64; all two-register operation sequences to depth 3 (4)"),
    "C05": dict(src="c05.cpp", configs=[BMI, dict(name="baseline-asm", variant="native", env={"BLS_DISABLE_BMI2": "1"}, thorough_only=True)], bounds="boundary representations and values, their squares and non-squares; every value within 4000 (60000) of zero and p; every word combination around (p-1)/2; extension elements over coordinate alphabets and the full -20..20 (-80..80) square"),
    "C06": dict(src="c06.cpp", configs=[BMI, TBASE], bounds=GB % ("3*11", )),
    "C07": dict(src="c07.cpp", configs=[BMI, TBASE], bounds=GB % ("13*23", )),
    "C08": dict(src="c08.cpp", configs=[BMI, TBASE], bounds="named points x boundary scalars at widths 1..8 words; every scalar 0..300 (4096); every list of up to 3 points/scalars over small alphabets; every list length 0..72 (300) and the window boundaries to 8193 (65536); every digit of every window for window widths 3..5 (6)"),
    "C09": dict(src="c09.cpp", configs=[BMI, TBASE], bounds="~60 named points in 7..9 representatives, four of them in every representative with z word-wise close to one or zero; every point of E[l] for the two smallest cofactor primes, generators and endomorphism eigenlines for all small cofactor primes (every line of the mid-size one when thorough); multiples 0..200 (2000) and r-200..r of the generator; 120 (1200) hashed curve points; all coordinate triples over an 11-letter alphabet and every perturbation of named points; psi powers 0..40 (120)"),
    "C10": dict(src="c10.cpp", configs=[BMI, TBASE], bounds="all word combinations equal/adjacent to the modulus, every power of two; boundary values in every pair of coordinate positions of every tower level; every byte position; integers of 1..12 words with every byte value; hex text of every length to 130 (400) bytes and around powers of two to 1 MiB, every two-byte string, every text of up to four digits"),
    "C11": dict(src="c11.cpp", configs=[BMI, TBASE], bounds="~38 (60) named points in 7..9 representatives, four of them with z word-wise close to one or zero, both layouts, both byte orders, raw/Montgomery, with and without curve check; boundary values around p in every pair of coordinate positions; congruent coordinates; all small coordinate tuples; every single-bit change of valid encodings"),
    "C12": dict(src="c12.cpp", configs=[BMI, TBASE], bounds="named points in all representatives, four of them with z word-wise close to one or zero, 300 (3000) multiples; all flag combinations over boundary payloads below and above p; every single-bit change and every first byte of ~38 encodings; every infinity payload byte; the x-coordinates within 500 (4000) of 0 and p"),
    "C13": dict(src="c13.cpp", configs=[BMI, TBASE], bounds="message lengths around every power of two to 16 MiB (thorough 128 MiB); message expansion: every message length 0..329 (2199), every tag length 0..300, every output length 0..8400 and boundary refusals, boundary-length products; hashing: every message length to 1099 (4499) and around powers of two to 1 MiB (16 MiB), every tag length to 269 (1099) and to 65537; maps: zero, both exceptional and all 16 kernel elements of G1, boundary elements, every integer within 1500 (20000) of zero, all coordinate pairs over boundary alphabets and a 17x17 (61x61) square for G2"),
    "C14": dict(src="c14.cpp", configs=[BMI], bounds="lengths around every power of two to 16 MiB (thorough 128 MiB); every key length x message length (and salt x ikm) below 260 (520); every message and key length to 2000 (9000); every output length 0..8400 and boundary refusals to 2^64-1; every info length to 329 (1099); boundary-length products; every byte value at every position; messages crossing 2^29 (2^32) bytes"),
    "C15": dict(src="c15.cpp", configs=[BMI, TBASE], bounds="every seed length 0..1499 (8999) and around powers of two to 4 MiB (64 MiB), every byte value at every position of 32/33-byte seeds; boundary parents x indices with every single bit set; every derivation path to depth 3-4 (6) over hardened and unhardened steps; named parent points in every representative; secret-key parsing over every word combination around the order and everything within 300 of 0, r, 2r, 2^256"),
    "C16": dict(src="c16.cpp", configs=[BMI, TBASE], bounds="all pairs of boundary scalars; every representative of six points on each side; every ordered list of up to 3 (4) pairs over 8 (10) pairs with infinities and inverses; every list length to 139 (259) and around powers of two to 1025, with and without yield; lists of repeated pairs, of cancelling pairs and of pairs sharing a member to length 129 (299), 69 (129) and 44 (129); an infinity at every position of every length to 25 (48); target-group membership over ~150 classified elements"),
    "C17": dict(src="c17.cpp", configs=[BMI, TBASE], bounds="boundary secret keys; every message length to 1099 (4499) and around powers of two to 256 KiB (4 MiB); the full table of 8x5 (13x7) key/message pairs against the signatures of all of them; all pairs of secrets below 12 (26) of either sign; ~45 candidate keys x ~60 candidate signatures around correct ones (small-order shifts, endomorphism images, other curves, six infinities, all representatives); every single-bit coordinate change"),
    "C18": dict(src="c18.cpp", configs=[BMI, TBASE], bounds="every list of up to 4 (5) secret keys over 16 boundary values, all pairs of ~120 (600); every list of up to 3 (4) points in several representatives; every filter mask to 8 (10) entries (also as a predicate with a state); every list length to 299 (999) and around powers of two to 65537; lists repeating one or two entries to length 39 (139); aggregate verification of every list of up to 2 (3) entries over 16 (25) key/message pairs with correct and wrong signatures, every length to 33 (129) and around 64, 128, 256, repeated and negated keys to length 33 (59), all length mismatches to 5 (8), a duplicate at every pair of positions, invalid keys at every position"),
    "C19": dict(src="c19.cpp", configs=[BMI, TBASE], bounds="boundary secret keys; every key against every other key's proof in every representative; ~45 candidate keys and ~60 candidate proofs around correct ones; every single-bit coordinate change; every list of up to 3 (4) keys over five secrets with correct and wrong signatures; every key count to 139 (299) and around powers of two to 1025, repeated keys to 39 (139), message length to 129 (599)"),
    "C20": dict(src="c20.cpp", configs=[dict(name="controlled-scheduler", variant="so")], technique="stateless model checking of the real library under a controlled scheduler: page-protection-based dependence tracking, then exhaustive schedules up to a switch bound",
        bounds="175 operations of the public interface on fixed inputs. Dependence: every write to static memory, to memory allocated at load time and to heap blocks that outlive a call is trapped; operations that touch no such memory commute, so one schedule per ordered pair covers all interleavings. When such memory exists: every schedule of every ordered pair (of class representatives) with one and two switches at accesses to it, the same after earlier calls of either or both (two switches in order of position, three switches for pairs of one class), three-thread schedules with two stopped threads; a shared block freed twice ends the run. Independently of the dependence result: one preemption at the first execution of every basic block of every operation, another operation run to completion there. After each schedule both calls are repeated and compared with results obtained in fresh processes. Thorough: two occurrences per access instruction, more representatives, more preempting operations.",
        assumptions=["sequentially consistent memory at the granularity of single instructions (weak-memory effects are not explored; the clean tree has no shared writes)", "operations synchronising through the intercepted primitives (pthread mutex, once, C++ local-static guards, sched_yield) or spinning are scheduled fairly", "inputs are fixed per operation: dependence of another input on static memory would be seen by the same code path only if that path runs"]),
    "C21": dict(src="c21.cpp", configs=[dict(name="bmi2-adx", variant="so"), dict(name="baseline-asm", variant="so", env={"BLS_DISABLE_BMI2": "1"}, thorough_only=True)], technique="explicit-state model checking: breadth-first search over hashed hidden state of the real library with all operations as transitions, plus bounded exhaustive operation sequences",
        bounds="175 operations; hidden state = writable static memory, load-time allocations, thread-local memory and surviving heap blocks. Search to closure (the unchanged tree has one reachable state, so the search covers histories of any length) or to 30 (400) states / depth 4 (6). Sequences: every ordered pair followed by the first again; every operation 40 (400) times; every operation under 16 combinations of prior stack and heap contents; every ordered pair of near-equal inputs in one family alternating with other operations between; pairs of rejected calls followed by every operation; every byte-string function (62) alternating a base input with each small change of it (every bit of every byte, exchanged words, equal word sums and exclusive-ors, other lengths), at separate addresses and at one, compared with fresh processes, and all its changed inputs one after the other at one address in 2 (6) orders; each of these functions on up to 140000 different inputs (as many as half a second, thorough 20 s, allows) forwards in one process and backwards in another; every operation repeated up to 140000 times (same time limits); thorough: every ordered triple of family representatives and the baseline-assembly back end. SSE/x87 control words and direction flag compared after every call.",
        assumptions=["inputs are fixed per operation (175 combinations, chosen as near-collisions within each family), varied only in the byte-string functions", "kernel-side state (open files, locale) is not part of the hidden state"]),
    "C22": dict(src="c22.cpp", configs=[dict(name="sanitizers, bmi2-adx", variant="asan"), dict(name="sanitizers, baseline-asm", variant="asan", env={"BLS_DISABLE_BMI2": "1"}, thorough_only=True), dict(name="sanitizers, portable arithmetic", variant="asan-portable"), dict(name="valgrind", variant="dbg", wrap=["valgrind", "-q", "--error-exitcode=97", "--exit-on-first-error=yes", "--leak-check=no", "--child-silent-after-fork=no"])],
        technique="exhaustive bounded enumeration of argument shapes (lengths, list sizes, powers, shifts, rejection paths) on the real library with guard pages, address/undefined-behaviour sanitizers, allocation balance and Valgrind as monitors",
        bounds="Every argument buffer is placed flush with an inaccessible page (after or before it) with poisoned surroundings. All lengths around block boundaries for messages, tags, HMAC/HKDF inputs, seeds, hex text (all lengths to 200, thorough 600); each variable-length argument of every such function at every length to 1100 (thorough 4200) and around powers of two to 1 MiB; all Frobenius powers 0..60 plus word boundaries; all shifts 0..520; long division of all combinations of extreme words up to 8 by 4; every decoder under every single-byte change; every list size to 24 (thorough 70) with infinities; all aggregate_verify list shapes up to 5x5; multi-scalar sums over list-size pairs around every window-size change; low-level routines under all operand aliasings and page sides with callee-saved registers checked. Both the native and the portable arithmetic are run; Valgrind runs a reduced set for uninitialised data.",
        assumptions=["null pointers with length zero passed to memcpy are not counted (nonnull-attribute)", "negative destination lengths, raw field values at or above the modulus and zero top divisor words are preconditions, not inputs", "assembly is not instrumented by the sanitizers: it is covered by guard pages and register checks"]),
    "C23": dict(src="c23.cpp", level="fault_enumeration", configs=[dict(name="allocation-faults", variant="so")],
        technique="exhaustive fault enumeration on the real library: an interposed allocator refuses every chosen set of allocations, results compared with fault-free runs",
        rule="for every operation: each single allocation, each suffix of the allocation sequence, every pair of the first 24 (thorough 300), every subset of the first 7 (14), every size threshold",
        bounds="175 operations of the public interface on fixed inputs; every allocation made by the call fails once / from then on; every pair among the first 24 (thorough 300) allocations; every subset of the first 7 (thorough 14); every request of at least each size. After every failing call the same call and follow-up calls (thorough: every operation) run with memory available and must return the fault-free result; leaks are detected as growth over six repeated failing calls.",
        assumptions=["allocations made by the dynamic loader (thread-local storage) and by the C library itself are never failed", "inputs are fixed per operation"]),
    "C24": dict(src="c24.cpp", configs=[dict(name="start-up and exit", variant="vinit")], technique="explicit-state exploration of the real library's start-up and exit: static initialisers run in every order by the explorer, operations called in every intermediate state",
        bounds="175 operations of the public interface called after every prefix of every order of the library's static initialisers (all orders up to 4 initialisers, thorough 5; rotations in both directions above), repeated after start-up, and called from exit handlers registered after every prefix, with released memory overwritten. A library without static initialisers has one state.",
        assumptions=["the C++ runtime itself is initialised (calls before libstdc++'s own initialisation are not explored)", "initialisers with an explicit priority run before those of the caller", "a call interrupted half-way by exit in another thread is represented by a call begun at each stage of exit"]),
    "C25": dict(src="c25.cpp", configs=[dict(name="callbacks", variant="native-ops")], technique="bounded exhaustive exploration of the real code: every invocation of a callback is a choice point (return, throw, call back into the library)",
        bounds="Both multi-scalar sums (0..257 points, thorough 0..600), pairing products (0..21 and 130 pairs, thorough 64), aggregation with accessor and filter (0..5, thorough 16). The callback throws (six kinds of exception object) at every invocation (quick: the first 24, the last 4 and every 7th), re-enters every callback-taking function with the same and other shapes (also nested twice, and with the inner call throwing), and calls each of the 175 public operations at the first, middle, last and at every invocation.",
        assumptions=["the callback does not modify the inputs of the call it interrupts"]),
    "C26": dict(src="c26.cpp", configs=[dict(name="bmi2-adx", variant="so"), dict(name="baseline-asm, variables set at load", variant="so", env={"BLS_DISABLE_BMI2": "1"}, thorough_only=True)],
        technique="exhaustive exploration of ambient process configurations, calling contexts, interruption points and memory placements with the real library under a controller that sets the state, answers environment queries and traps system calls",
        bounds="175 operations and 62 byte-string functions. 45 ambient configurations in 15 groups (errno, SSE/x87 modes, C and C++ locales including German, Turkish and Hindi, environment, interposed getenv and clocks, directories, descriptors, limits, signal masks/dispositions/pending signals, random state, handlers, stream state) x 6 calling contexts, all operations; every pair of configurations of different groups with about 32 operations each (thorough: all operations). After every call about 40 items of process state are compared. Inputs at every offset of a cache line the types allow. Lists to 20000-200000 members and texts to 4 MB (thorough 16 MB) on 256 KB stacks. 65 system calls trapped. A signal handler run after each of the first 150000 (4000000) instructions of every operation. Low-level routines under all 64 status-flag combinations x 4 register contents x 8 alignments.",
        assumptions=["C++ locales use groups of three digits, as real locales do", "objects are aligned as their types require (8 bytes)", "the caller honours the calling convention (direction flag clear, stack 16-byte aligned)", "changes of errno and of sticky floating-point flags are not counted as effects", "read-only opens under /proc, /sys and of random devices are not counted as effects"]),
}
