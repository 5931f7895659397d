#!/usr/bin/env python3
"""Driver of every check.

  run.py check ID [--tier quick|thorough]     build from /repo's working tree, explore, write evidence/ID.json
  run.py replay FILE                          re-execute one recorded counterexample against the current tree
  run.py setup                                verify the tool chain (no network, nothing installed)
Exit: 0 held, 1 violation (VIOLATION line printed), 2 the check itself failed (build or harness error)."""
import sys, os, subprocess, json, time, hashlib, glob, re, shutil, tempfile, concurrent.futures as cf

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, "build")
JOBS = os.cpu_count() or 8
INC = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(V, "lib"), "-I" + os.path.join(REPO, "src")]
LIBFLAGS = "-std=c++20 -O3 -DNDEBUG -g0".split()
HARNESSFLAGS = "-std=c++20 -O2 -g0 -w".split()
sys.path.insert(0, V)
from checks import CHECKS, VARIANTS


class BuildError(Exception):
    pass


def tree_hash(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f: h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def repo_files():
    out = []
    for d in ("include", "src"):
        for r, _, fs in os.walk(os.path.join(REPO, d)):
            out += [os.path.join(r, f) for f in fs]
    return out


def lib_files():
    out = []
    for d in ("lib", "harness"):
        for r, _, fs in os.walk(os.path.join(V, d)): out += [os.path.join(r, f) for f in fs]
    return out


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    return r.returncode, r.stdout


def build(harness, variant):
    """-> path of the executable; compiled objects are cached under a hash of every input file"""
    va = VARIANTS[variant]
    cxx = va.get("cxx", "g++")
    libf = LIBFLAGS + va.get("lib", [])
    rh = tree_hash(repo_files() + [os.path.join(V, "lib", "portable_prelude.hpp")], json.dumps([cxx, libf, VARIANTS[variant]], sort_keys=True))
    objdir = os.path.join(BUILD, "lib-" + rh)
    hfiles = [os.path.join(V, "harness", h) for h in ([harness] if isinstance(harness, str) else harness)]
    eh = tree_hash(hfiles + repo_files() + glob.glob(os.path.join(V, "lib", "*")) + [os.path.join(V, "harness", x) for x in va.get("extra", []) + va.get("so", []) + [y[0] for y in va.get("shims", [])] + (["shim.hpp"] if va.get("shims") else [])], rh + json.dumps(va, sort_keys=True))
    exe = os.path.join(BUILD, "bin-" + eh, "harness")
    if os.path.exists(exe): return exe
    os.makedirs(objdir, exist_ok=True); os.makedirs(os.path.dirname(exe), exist_ok=True)
    jobs, objs = [], []

    def comp(src, out, flags):
        objs.append(out)
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            jobs.append((["timeout", "600", cxx] + flags + ["-c", src, "-o", tmp], tmp, out))
    srcs = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True) + glob.glob(os.path.join(REPO, "src", "**", "*.cc"), recursive=True) + glob.glob(os.path.join(REPO, "src", "**", "*.c"), recursive=True))
    tag = lambda s: re.sub(r"[^A-Za-z0-9]", "_", os.path.relpath(s, os.path.join(REPO, "src")))
    for lv in va.get("libs", [""]):                        # "" = native library, "portable" = C++ arithmetic in another namespace
        if lv == "":
            for s in srcs: comp(s, os.path.join(objdir, tag(s) + ".o"), libf + INC)
            for s in sorted(glob.glob(os.path.join(REPO, "src", "**", "*.s"), recursive=True) + glob.glob(os.path.join(REPO, "src", "**", "*.S"), recursive=True)):
                comp(s, os.path.join(objdir, tag(s) + ".o"), [])
        else:
            pf = ["-include", os.path.join(V, "lib", "portable_prelude.hpp")]
            for s in srcs: comp(s, os.path.join(objdir, "P" + tag(s) + ".o"), libf + INC + pf)
    sol = None
    if va.get("so"):                                       # library and operation table go into ops.so beside the explorer
        sol = list(objs) + [os.path.join(os.path.dirname(exe), os.path.basename(h) + ".so.o") for h in va["so"]]; del objs[:]
        for h, o in zip(va["so"], sol[-len(va["so"]):]): comp(os.path.join(V, "harness", h), o, LIBFLAGS + va.get("lib", []) + INC + ["-w"])
        del objs[:]
    for h in hfiles + [os.path.join(V, "harness", x) for x in va.get("extra", [])]:
        comp(h, os.path.join(os.path.dirname(exe), os.path.basename(h) + ".o"), HARNESSFLAGS + va.get("harness", []) + INC)
    for src, flags, name in va.get("shims", []):
        comp(os.path.join(V, "harness", src), os.path.join(os.path.dirname(exe), name), LIBFLAGS + [f.replace("@V@", V) for f in flags] + INC + ["-w"])
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for (cmd, tmp, out), (rc, txt) in zip(jobs, ex.map(lambda j: sh(j[0]), jobs)):
            if rc: raise BuildError("%s\n%s" % (" ".join(cmd), txt[-6000:]))
            os.replace(tmp, out)
    if sol:
        so = os.path.join(os.path.dirname(exe), "ops.so")
        if va.get("vinit"):                                # start-up code of the library is collected in a table the explorer runs itself
            names, out = [], []
            for o in sol:
                if not o.startswith(objdir): out.append(o); continue
                rc, txt = sh(["objdump", "-h", o])
                if rc: raise BuildError(txt)
                secs = re.findall(r"^\s*\d+ (\.(?:init_array|ctors)\S*)\s+([0-9a-f]+)", txt, re.M)
                v = os.path.join(os.path.dirname(exe), "v-" + os.path.basename(o)); args = []
                for n, size in secs:
                    prio = re.search(r"\.(\d+)$", n)            # priority initialisers run before all others, in link order here
                    args += ["--rename-section", n + ("=vprio" if prio else "=vinit")]
                    if not prio: names += [os.path.basename(o)] * (int(size, 16) // 8)
                rc, txt = sh(["objcopy"] + args + [o, v])
                if rc: raise BuildError(txt)
                out.append(v)
            sol = out
            with open(os.path.join(os.path.dirname(exe), "vinit.txt"), "w") as f: f.write("".join(n + "\n" for n in names))
        rc, txt = sh([cxx, "-shared", "-Wl,-z,now", "-Wl,-z,relro", "-Wl,-Bsymbolic"] + sol + ["-o", so + ".tmp"])
        if rc: raise BuildError(txt[-6000:])
        os.replace(so + ".tmp", so)
    rc, txt = sh([cxx] + va.get("link", []) + objs + ["-o", exe + ".tmp", "-lgmpxx", "-lgmp", "-lpthread", "-ldl"])
    if rc: raise BuildError(txt[-6000:])
    os.replace(exe + ".tmp", exe)
    prune()
    return exe


def prune(keep=60):
    ds = sorted(glob.glob(os.path.join(BUILD, "lib-*")) + glob.glob(os.path.join(BUILD, "bin-*")), key=os.path.getmtime)
    for d in ds[:-keep]:
        if time.time() - os.path.getmtime(d) > 3600: shutil.rmtree(d, ignore_errors=True)


def known_findings(prop):
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)$", l)
            if m and m.group(1) == prop: out.append((re.compile(m.group(2)), m.group(3)))
    return out


def runenv(cfg):
    e = dict(os.environ); e.pop("BLS_DISABLE_BMI2", None)
    e.update(cfg.get("env", {})); e["VERIF_HARNESS_DIR"] = V
    return e


def replay_case(cfg, exe, tier, fam, idx, limit):
    try:
        r = subprocess.run(cfg.get("wrap", []) + [exe, "--config", cfg["name"], "--tier", tier, "--replay", "%s:%d" % (fam, idx)] + cfg.get("args", []), env=runenv(cfg), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=limit)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "no result within %d s" % limit


def check(prop, tier):
    t0 = time.time(); ck = CHECKS[prop]; deadline = t0 + (780 if tier == "quick" else 10 ** 9)
    runs, viol, known = [], [], {}
    tmpd = tempfile.mkdtemp(prefix="run-", dir=BUILD) if os.path.isdir(BUILD) or not os.makedirs(BUILD, exist_ok=True) else None
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], exhaustive=True, bounds=ck.get("bounds", ""), configurations=[])
    rc = 0; kf = known_findings(prop)
    cfgs = [c for c in ck["configs"] if tier == "thorough" or not c.get("thorough_only")]
    try:
        exes = {}
        keys = {(json.dumps(c.get("src", ck["src"])), c["variant"]): c for c in cfgs}
        with cf.ThreadPoolExecutor(4) as ex:
            for key, exe in zip(keys, ex.map(lambda c: build(c.get("src", ck["src"]), c["variant"]), keys.values())): exes[key] = exe
        tb = time.time() - t0
        for cfg in cfgs:
            exe = exes[(json.dumps(cfg.get("src", ck["src"])), cfg["variant"])]
            out = os.path.join(tmpd, "out.json")
            if os.path.exists(out): os.unlink(out)
            budget = ["--budget", str(int(max(30, deadline - time.time() - 120)))]      # on a slow machine: an answer about what was explored
            ctier = cfg.get("tier", tier)
            r = subprocess.run(cfg.get("wrap", []) + [exe, "--config", cfg["name"], "--tier", ctier, "--out", out, "--jobs", str(JOBS)] + budget + cfg.get("args", []), env=runenv(cfg), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode not in (0, 1) or not os.path.exists(out):
                print(r.stdout[-4000:]); print("ERROR: harness %s [%s] ended with %s" % (ck["src"], cfg["name"], r.returncode)); return 2
            d = json.load(open(out)); cov["states"] += d["states"]; cov["transitions"] += d["transitions"]; cov["traces_validated_against_impl"] += d["cases"]
            if d["skipped"]: cov["exhaustive"] = False
            cov["configurations"].append(dict(name=cfg["name"], cases=d["cases"], of=d["total"], states=d["states"], transitions=d["transitions"], wall_s=round(d["wall_s"], 2), families=[dict(name=f["name"], what=f["what"], size=f["size"], explored=f["explored"], transitions=f["transitions"]) for f in d["families"]]))
            seen = set()
            for fl in sorted(d["failures"], key=lambda f: "TIMEOUT" in f["msg"]):
                if len(viol) >= 6: break
                label = "%s [%s] %s" % (fl["family"], cfg["name"], fl["msg"])
                hit = next((w for rx, w in kf if rx.search(label)), None)
                if hit: known[hit] = known.get(hit, 0) + 1; continue
                if (fl["family"], cfg["name"]) in seen: continue
                hung = "TIMEOUT" in fl["msg"]
                if hung and viol: continue                                             # one confirmed violation is enough to fail; do not wait for more cases to hang
                lim = min(600, 3 * next((f.get("limit", 200) for f in d["families"] if f["name"] == fl["family"]), 200)) if hung else 300
                lim = max(30, min(lim, deadline - time.time()))
                c, txt = replay_case(cfg, exe, ctier, fl["family"], fl["index"], lim)
                if c == 0:
                    # not reproduced alone: replay the exploration order is history-dependent; keep as a note, never as a verdict
                    print("note: %s did not reproduce alone (%s)" % (label, txt.strip()[-200:])); continue
                if c == 3: print(txt); return 2
                seen.add((fl["family"], cfg["name"]))
                rp = os.path.join(V, "evidence", "%s-%d.replay.json" % (prop, len(viol) + 1))
                json.dump(dict(property=prop, config=cfg["name"], tier=ctier, family=fl["family"], index=fl["index"], dims=fl["dims"], msg=fl["msg"], output=txt[-8000:], how="python3 run.py replay %s" % os.path.relpath(rp, V)), open(rp, "w"), indent=1)
                viol.append((label, rp))
            # unreproduced failures of a history-dependent kind: re-run the whole exploration of that configuration once
            if d["failures"] and not viol and not known:
                r2 = subprocess.run(cfg.get("wrap", []) + [exe, "--config", cfg["name"], "--tier", ctier, "--out", out, "--jobs", str(JOBS)] + ["--budget", str(int(max(30, deadline - time.time() - 60)))] + cfg.get("args", []), env=runenv(cfg), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                d2 = json.load(open(out))
                both = {(f["family"], f["index"]) for f in d["failures"] if "TIMEOUT" not in f["msg"]} & {(f["family"], f["index"]) for f in d2["failures"]}
                if both:
                    fm, ix = sorted(both)[0]; fl = next(f for f in d["failures"] if (f["family"], f["index"]) == (fm, ix))
                    rp = os.path.join(V, "evidence", "%s-%d.replay.json" % (prop, len(viol) + 1))
                    json.dump(dict(property=prop, config=cfg["name"], tier=ctier, family=fm, index=ix, msg=fl["msg"], whole=True, how="fails only after earlier cases ran in the same process; replay repeats the whole exploration"), open(rp, "w"), indent=1)
                    viol.append(("%s [%s] %s" % (fm, cfg["name"], fl["msg"]), rp))
            # samples: one actual case of the first families, written out
            if not viol:
                for f in d["families"][:4]:
                    if len(cov["samples"]) >= 8: break
                    _, txt = replay_case(cfg, exe, ctier, f["name"], f["size"] * 5 // 8, 120)
                    cov["samples"].append("[%s] %s" % (cfg["name"], txt.strip()[:900]))
            if viol: break
    except BuildError as e:
        print("ERROR: build failed\n" + str(e)); return 2
    finally:
        shutil.rmtree(tmpd, ignore_errors=True)
    cov["build_s"] = round(tb, 2)
    if not cov["samples"]: cov["samples"] = [v[0] for v in viol] or ["none"]
    level = ck.get("level", "model_checking")
    if level != "model_checking":
        cov["evaluations"] = cov.pop("traces_validated_against_impl"); cov["distinct_nontrivial"] = cov.pop("states"); cov["rule"] = ck["rule"]
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=level, coverage=cov, assumptions=ck.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    for k, n in known.items(): print("KNOWN-FINDING: property=%s %s (%d cases)" % (prop, k, n))
    for label, rp in viol:
        print("counterexample: " + label[:1500]); print("VIOLATION property=%s replay=%s" % (prop, rp)); rc = 1
    n = cov.get("traces_validated_against_impl", cov.get("evaluations"))
    print("%s %s: %s; cases=%d transitions=%d states=%d build=%.1fs wall=%.1fs" % (prop, tier, "VIOLATED" if rc else "held", n, cov["transitions"], cov.get("states", cov.get("distinct_nontrivial")), tb, time.time() - t0))
    return rc


def replay(path):
    d = json.load(open(path)); ck = CHECKS[d["property"]]; cfg = next(c for c in ck["configs"] if c["name"] == d["config"])
    try: exe = build(cfg.get("src", ck["src"]), cfg["variant"])
    except BuildError as e: print(e); return 2
    if d.get("whole"): return check(d["property"], d["tier"])
    c, txt = replay_case(cfg, exe, d["tier"], d["family"], d["index"], 600)
    print(txt)
    if c not in (0, 3): print("VIOLATION property=%s replay=%s" % (d["property"], path)); return 1
    return 0 if c == 0 else 2


def main():
    if len(sys.argv) < 2: print(__doc__); return 2
    if sys.argv[1] == "setup":
        rc, o = sh(["g++", "--version"]); print(o.splitlines()[0]); os.makedirs(BUILD, exist_ok=True); os.makedirs(os.path.join(V, "evidence"), exist_ok=True); return rc
    if sys.argv[1] == "replay": return replay(sys.argv[2])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    return check(sys.argv[2], tier)


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
