// Bounded-exhaustive explorer used by every check.
//
// A check is a list of *families*.  A family is a finite, mixed-radix-indexed space of cases; each case runs a trace of
// operations of the real library in lockstep with a reference model.  The explorer enumerates every index of every family
// (no sampling), in forked worker processes so that a crash or a hang in the code under test is attributed to its case.
// Measured on every run: cases executed, operations compared (transitions), distinct model states seen (64-bit hashes).
#pragma once
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <csignal>
#include <functional>
#include <string>
#include <vector>
#include <unordered_set>
#include <algorithm>
#include <sstream>
#include <fstream>
#include <iostream>
#include <ctime>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>

namespace mc {

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; return h;
}
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 0x1234567) {
    const uint8_t* b = static_cast<const uint8_t*>(p);
    while (n >= 8) { uint64_t v; memcpy(&v, b, 8); h = mix(h, v); b += 8; n -= 8; }
    uint64_t v = n; for (size_t i = 0; i < n; i++) v = (v << 8) | b[i];
    return mix(h, v);
}
inline std::string hex(const void* p, size_t n) {
    static const char* d = "0123456789abcdef"; std::string s; s.reserve(2 * n);
    for (size_t i = 0; i < n; i++) { uint8_t c = static_cast<const uint8_t*>(p)[i]; s += d[c >> 4]; s += d[c & 15]; }
    return s;
}
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

struct Failure { int family; uint64_t index; std::string msg; };

struct Ctx {
    uint64_t transitions = 0, compares = 0;
    std::unordered_set<uint64_t>* states = nullptr;
    uint64_t famsalt = 0;
    bool failed = false;
    std::string msg;
    bool verbose = false;
    std::string note;                       // human readable description of the case, filled on demand
    // one operation of the implementation performed and compared
    void op(uint64_t n = 1) { transitions += n; }
    // a model state was reached
    void state(uint64_t h) { if (states) states->insert(mix(famsalt, h)); }
    void state(const void* p, size_t n) { state(hash_bytes(p, n)); }
    void fail(const std::string& m) { if (!failed) { failed = true; msg = m; } }
    bool check(bool ok, const char* what) { transitions++; if (!ok) fail(what); return ok; }
    bool check(bool ok, const std::string& what) { transitions++; if (!ok) fail(what); return ok; }
    template<class F> bool check(bool ok, F&& mk) requires std::is_invocable_v<F> { transitions++; if (!ok) fail(mk()); return ok; }
};

using Idx = std::vector<uint64_t>;
struct Family {
    std::string name;
    std::vector<uint64_t> dims;
    std::function<void(Ctx&, const Idx&)> run;
    std::string what;                       // one line: what this family enumerates
    double slow = 0;                        // per-case time limit override (s)
    uint64_t size() const { uint64_t n = 1; for (auto d : dims) n *= d; return n; }
    Idx decode(uint64_t i) const {          // first dimension is the slowest
        Idx v(dims.size());
        for (size_t k = dims.size(); k-- > 0;) { v[k] = i % dims[k]; i /= dims[k]; }
        return v;
    }
};

struct Shared {
    std::atomic<uint64_t> next;             // next global chunk
    int stop;                               // set after several cases that did not end
    struct W { volatile int family; volatile uint64_t index; volatile double started; volatile int active; uint64_t cases, transitions; } w[64];
};

struct Options { std::string tier = "quick", out, replay; int jobs = 8; double case_limit = 40; double budget = 1e9; std::string config; };

// Explore all families; returns process exit code. The JSON written to opt.out is consumed by run.py.
class Explorer {
public:
    std::vector<Family> fams;
    Options opt;
    bool thorough() const { return opt.tier == "thorough"; }
    void add(std::string name, std::string what, std::vector<uint64_t> dims, std::function<void(Ctx&, const Idx&)> run, double slow = 0) {
        Family f; f.name = std::move(name); f.what = std::move(what); f.dims = std::move(dims); f.run = std::move(run); f.slow = slow;
        for (auto d : f.dims) if (d == 0) { fprintf(stderr, "empty dimension in %s\n", f.name.c_str()); exit(3); }
        fams.push_back(std::move(f));
    }
    static std::string esc(const std::string& s) {
        std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o;
    }
    static std::string idxs(const Idx& v) { std::string s; for (size_t i = 0; i < v.size(); i++) { if (i) s += ","; s += std::to_string(v[i]); } return s; }

    void parse(int argc, char** argv) {
        for (int i = 1; i < argc; i++) {
            std::string a = argv[i];
            auto val = [&] { if (i + 1 >= argc) { fprintf(stderr, "missing value for %s\n", a.c_str()); exit(3); } return std::string(argv[++i]); };
            if (a == "--tier") opt.tier = val(); else if (a == "--out") opt.out = val(); else if (a == "--jobs") opt.jobs = atoi(val().c_str());
            else if (a == "--replay") opt.replay = val(); else if (a == "--case-limit") opt.case_limit = atof(val().c_str()); else if (a == "--budget") opt.budget = atof(val().c_str());
            else if (a == "--config") opt.config = val();
            else { fprintf(stderr, "unknown argument %s\n", a.c_str()); exit(3); }
        }
        if (opt.jobs > 60) opt.jobs = 60;
    }
    // run one case in this process
    void run_case(Ctx& c, int f, uint64_t i) {
        c.famsalt = hash_bytes(fams[f].name.data(), fams[f].name.size());
        try { fams[f].run(c, fams[f].decode(i)); }
        catch (const std::exception& e) { c.fail(std::string("unexpected exception: ") + e.what()); }
        catch (...) { c.fail("unexpected exception"); }
    }
    int run() {
        if (!opt.replay.empty()) return do_replay();
        double t0 = now();
        // chunk table
        struct Chunk { int f; uint64_t lo, hi; };
        std::vector<Chunk> chunks; uint64_t total = 0;
        for (size_t f = 0; f < fams.size(); f++) {
            uint64_t n = fams[f].size(); total += n;
            uint64_t step = std::max<uint64_t>(1, std::min<uint64_t>(n / (opt.jobs * 8) + 1, 20000));
            for (uint64_t lo = 0; lo < n; lo += step) chunks.push_back({(int)f, lo, std::min(n, lo + step)});
        }
        Shared* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        memset((void*)sh, 0, sizeof *sh);
        std::string tmp = opt.out + ".w";
        struct Proc { pid_t pid; int k; };
        std::vector<Proc> procs; std::vector<Failure> failures; std::vector<uint64_t> famfail(fams.size(), 0);
        uint64_t* fc = static_cast<uint64_t*>(mmap(nullptr, 8 * fams.size() * 4 + 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)); // per family: cases, transitions, fails
        auto worker = [&](int k, Chunk resume) {
            std::unordered_set<uint64_t> states; states.reserve(1 << 16);
            FILE* ff = fopen((tmp + std::to_string(k) + ".fail").c_str(), "a");
            Shared::W& w = sh->w[k];
            auto do_chunk = [&](const Chunk& c) {
                for (uint64_t i = c.lo; i < c.hi; i++) {
                    uint64_t* st = fc + 4 * c.f;
                    if (__atomic_load_n(st + 2, __ATOMIC_RELAXED) >= 16) return;     // enough counterexamples in this family
                    if (now() - t0 > opt.budget || __atomic_load_n(&sh->stop, __ATOMIC_RELAXED)) { __atomic_fetch_add(st + 3, c.hi - i, __ATOMIC_RELAXED); return; }
                    w.family = c.f; w.index = i; w.started = now(); w.active = 1;
                    Ctx x; x.states = &states;
                    run_case(x, c.f, i);
                    w.active = 0;
                    __atomic_fetch_add(st, 1, __ATOMIC_RELAXED); __atomic_fetch_add(st + 1, x.transitions, __ATOMIC_RELAXED);
                    if (x.failed) {
                        __atomic_fetch_add(st + 2, 1, __ATOMIC_RELAXED);
                        std::string m = x.msg; for (auto& ch : m) if (ch == '\n') ch = ' ';
                        fprintf(ff, "%d %llu %s\n", c.f, (unsigned long long)i, m.c_str()); fflush(ff);
                    }
                }
            };
            // the rest of the chunk of a crashed predecessor is redone by the parent-provided resume chunk
            if (resume.hi > resume.lo) do_chunk(resume);
            for (;;) {
                uint64_t c = sh->next.fetch_add(1);
                if (c >= chunks.size()) break;
                do_chunk(chunks[c]);
            }
            fclose(ff);
            FILE* sf = fopen((tmp + std::to_string(k) + ".states").c_str(), "ab");
            std::vector<uint64_t> v(states.begin(), states.end());
            fwrite(v.data(), 8, v.size(), sf); fclose(sf);
            fflush(nullptr);
            _exit(0);
        };
        auto spawn = [&](int k, Chunk resume) {
            sh->w[k].active = 0;
            pid_t p = fork();
            if (p == 0) { worker(k, resume); }
            procs.push_back({p, k});
        };
        for (int k = 0; k < opt.jobs; k++) { unlink((tmp + std::to_string(k) + ".fail").c_str()); unlink((tmp + std::to_string(k) + ".states").c_str()); }
        fflush(nullptr);
        for (int k = 0; k < opt.jobs; k++) spawn(k, {0, 0, 0});
        int crashes = 0, hangs = 0;
        while (!procs.empty()) {
            int st; pid_t p = waitpid(-1, &st, WNOHANG);
            if (p == 0) {
                usleep(3000);
                for (auto& pr : procs) {
                    auto& w = sh->w[pr.k];
                    if (w.active) {
                        double lim = fams[w.family].slow > 0 ? fams[w.family].slow : opt.case_limit;
                        if (now() - w.started > lim) { kill(pr.pid, SIGKILL); }
                    }
                }
                continue;
            }
            if (p < 0) { if (errno == EINTR) continue; break; }
            size_t j = 0; while (j < procs.size() && procs[j].pid != p) j++;
            if (j == procs.size()) continue;
            int k = procs[j].k; procs.erase(procs.begin() + j);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
            auto& w = sh->w[k];
            int f = w.family; uint64_t i = w.index;
            std::ostringstream os;
            if (WIFSIGNALED(st)) { if (WTERMSIG(st) == SIGKILL) os << "TIMEOUT-OR-KILLED"; else os << "CRASH signal " << WTERMSIG(st); }
            else os << "CRASH exit code " << WEXITSTATUS(st);
            failures.push_back({f, i, os.str()});
            __atomic_fetch_add(fc + 4 * f + 2, 1, __ATOMIC_RELAXED);
            __atomic_fetch_add(fc + 4 * f, 1, __ATOMIC_RELAXED);
            Chunk res{0, 0, 0};
            for (auto& c : chunks) if (c.f == f && c.lo <= i && i < c.hi) { res = {f, i + 1, c.hi}; break; }
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && ++hangs >= 6) sh->stop = 1; // cases that do not end: enough of them
            if (++crashes < 200) spawn(k, res);
        }
        // collect
        std::vector<uint64_t> all;
        for (int k = 0; k < opt.jobs; k++) {
            std::string sfn = tmp + std::to_string(k) + ".states", ffn = tmp + std::to_string(k) + ".fail";
            if (FILE* f = fopen(sfn.c_str(), "rb")) { uint64_t b[4096]; size_t n; while ((n = fread(b, 8, 4096, f)) > 0) all.insert(all.end(), b, b + n); fclose(f); }
            std::ifstream in(ffn); std::string line;
            while (std::getline(in, line)) { std::istringstream is(line); int f; uint64_t i; is >> f >> i; std::string m; std::getline(is, m); failures.push_back({f, i, m.empty() ? m : m.substr(1)}); }
            unlink(sfn.c_str()); unlink(ffn.c_str());
        }
        std::sort(all.begin(), all.end());
        uint64_t nstates = std::unique(all.begin(), all.end()) - all.begin();
        std::sort(failures.begin(), failures.end(), [](const Failure& a, const Failure& b) { return a.family != b.family ? a.family < b.family : a.index < b.index; });
        std::ofstream o(opt.out);
        uint64_t cases = 0, trans = 0, skipped = 0;
        o << "{\n \"families\": [\n";
        for (size_t f = 0; f < fams.size(); f++) {
            cases += fc[4 * f]; trans += fc[4 * f + 1]; skipped += fc[4 * f + 3];
            o << "  {\"name\": \"" << esc(fams[f].name) << "\", \"what\": \"" << esc(fams[f].what) << "\", \"dims\": [" << idxs(fams[f].dims) << "], \"size\": " << fams[f].size()
              << ", \"explored\": " << fc[4 * f] << ", \"transitions\": " << fc[4 * f + 1] << ", \"failures\": " << fc[4 * f + 2] << ", \"skipped\": " << fc[4 * f + 3] << ", \"limit\": " << (fams[f].slow > 0 ? fams[f].slow : opt.case_limit) << "}" << (f + 1 < fams.size() ? "," : "") << "\n";
        }
        o << " ],\n \"cases\": " << cases << ", \"total\": " << total << ", \"transitions\": " << trans << ", \"states\": " << nstates << ", \"skipped\": " << skipped << ", \"wall_s\": " << (now() - t0) << ",\n \"failures\": [\n";
        for (size_t j = 0; j < failures.size(); j++)
            o << "  {\"family\": \"" << esc(fams[failures[j].family].name) << "\", \"index\": " << failures[j].index << ", \"dims\": [" << idxs(fams[failures[j].family].decode(failures[j].index)) << "], \"msg\": \"" << esc(failures[j].msg) << "\"}" << (j + 1 < failures.size() ? "," : "") << "\n";
        o << " ]\n}\n";
        o.close();
        return failures.empty() ? 0 : 1;
    }
    int do_replay() {
        // NAME:INDEX, run alone in this process with full messages
        auto c = opt.replay.rfind(':'); std::string nm = opt.replay.substr(0, c); uint64_t idx = strtoull(opt.replay.c_str() + c + 1, nullptr, 10);
        for (size_t f = 0; f < fams.size(); f++) if (fams[f].name == nm) {
            if (idx >= fams[f].size()) { fprintf(stderr, "index out of range\n"); return 3; }
            Ctx x; x.verbose = true; std::unordered_set<uint64_t> st; x.states = &st;
            run_case(x, (int)f, idx);
            printf("family %s index %llu dims [%s]\n%s\n", nm.c_str(), (unsigned long long)idx, idxs(fams[f].decode(idx)).c_str(), x.note.c_str());
            printf("%s %s\n", x.failed ? "FAILED:" : "held", x.msg.c_str());
            return x.failed ? 1 : 0;
        }
        fprintf(stderr, "no family %s\n", nm.c_str());
        return 3;
    }
};

} // namespace mc
