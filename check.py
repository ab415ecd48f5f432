#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo by symbolic execution of its code.

Builds /repo's current sources together with harness/PROPERTY.cpp into LLVM bitcode, executes every entry of the
harness symbolically (engine/), replays solver models against the real build (g++, sanitizers), writes
evidence/PROPERTY.json. Exit 0: held within the stated bounds. Exit 1: VIOLATION. Exit 2: no answer.
  check.py PROPERTY --entry NAME   only that entry          check.py --replay FILE   run one recorded counterexample
"""
import sys, os, re, json, subprocess, time, glob, shutil, signal
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
PUB = REPO + "/src/korin/core/public"
PRIV = REPO + "/src/korin/core/private"
B = V + "/build"
SYMX = B + "/symx"
DEFS = ["-std=c++17", "-mavx2", "-DBUILD_DEBUG", "-DPLATFORM_LINUX=1", "-DKORIN_VERIF", "-I", PUB, "-I", V + "/harness", "-w"]
BC = ["-fno-exceptions", "-fno-threadsafe-statics", "-ffp-contract=off", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-emit-llvm"]
SAN = ["-fsanitize=address,return,unreachable,bounds,integer-divide-by-zero", "-fno-sanitize-recover=all"]
WRAP = ["-Wl,--wrap=" + f for f in ("malloc", "free", "calloc", "realloc", "posix_memalign", "aligned_alloc", "memalign", "malloc_usable_size")]
TIER = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
BUDGET = float(os.environ.get("SX_BUDGET", "780" if TIER == "quick" else "7200"))
JOBS = os.cpu_count() or 4
T0 = time.time()

def say(*a):
    print(*a); sys.stdout.flush()

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def build_engine():
    os.makedirs(B, exist_ok=True)
    import fcntl
    with open(B + "/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = run(["make", "-s", "-j4", "-C", V + "/engine", "OUT=" + B])
        if r.returncode:
            say(r.stdout); say("engine build failed"); sys.exit(2)

def parse_header(path):
    cfg = dict(src=[], entries=[], bound=[], outside=[], assume=[], flags=[])
    for l in open(path):
        m = re.match(r"\s*// @(\w+)\s+(.*)", l)
        if not m: continue
        k, t = m.group(1), m.group(2).strip()
        if k == "src": cfg["src"] += t.split()
        elif k == "flags": cfg["flags"] += t.split()
        elif k == "entry":
            w = t.split(); e = dict(name=w[0], cover=[], params={}, opts=[], real=False, known=None, threads=False)
            for x in w[1:]:
                if x == "real": e["real"] = True
                elif x == "threads": e["threads"] = True
                elif x == "thorough-only": e["thorough_only"] = True
                elif x.startswith("known="): e["known"] = x[6:]
                elif x.startswith("cover="): e["cover"] = x[6:].split(",")
                elif x.startswith("steps="): e["opts"].append("--max-steps=" + x[6:])
                elif x.startswith("enum="): e["opts"].append("--max-enum=" + x[5:])
                elif x.startswith("depth="): e["opts"].append("--max-depth=" + x[6:])
                elif x.startswith("query="): e["opts"].append("--query-ms=" + x[6:])
                elif x.startswith("quick:") or x.startswith("thorough:"):
                    tier, kvs = x.split(":", 1)
                    for kv in kvs.split(","):
                        n, v = kv.split("=")
                        if tier == TIER or (tier == "quick" and n not in e["params"]): e["params"][n] = int(v)
                else:
                    n, v = x.split("="); e["params"].setdefault(n, int(v))
            cfg["entries"].append(e)
        elif k in cfg: cfg[k].append(t)
    return cfg

def must(cmd, what):
    r = run(cmd)
    if r.returncode:
        say(r.stdout[-6000:]); say("cannot %s" % what); sys.exit(2)

def build_bitcode(pid, cfg, d):
    jobs = [(["clang++-18"] + DEFS + BC + cfg["flags"] + ["-c", V + "/harness/%s.cpp" % pid, "-o", d + "/h.bc"], "translate the harness")]
    outs = [d + "/h.bc", d + "/rt.bc"]
    for s in cfg["src"]:
        o = d + "/" + s.replace("/", "_") + ".bc"; outs.append(o)
        jobs.append((["clang++-18"] + DEFS + BC + cfg["flags"] + ["-c", PRIV + "/" + s, "-o", o], "translate " + s))
    jobs.append((["clang-18", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-builtin", "-w", "-emit-llvm", "-c", V + "/harness/rt.c", "-o", d + "/rt.bc"], "translate rt.c"))
    with ThreadPoolExecutor(8) as ex: list(ex.map(lambda j: must(*j), jobs))
    must(["llvm-link-18"] + outs + ["-o", d + "/all.bc"], "link bitcode")
    must(["opt-18", "-passes=sroa", d + "/all.bc", "-o", d + "/prog.bc"], "prepare bitcode")
    return d + "/prog.bc"

class Native:
    """The harness linked with the real code, built with g++."""
    def __init__(self, pid, cfg, d): self.pid, self.cfg, self.d, self.bins = pid, cfg, d, {}
    def binary(self, kind):
        if kind in self.bins: return self.bins[kind]
        o = self.d + "/native-" + kind
        fl = {"asan": ["-O0", "-g"] + SAN, "plain": ["-O0", "-g"], "opt": ["-O2", "-g"]}[kind]
        src = [V + "/harness/%s.cpp" % self.pid, V + "/harness/native.cpp"] + [PRIV + "/" + s for s in self.cfg["src"]]
        objs = []
        def one(i):
            ob = "%s/%s-%d.o" % (self.d, kind, i)
            f = fl if not src[i].endswith("native.cpp") else (["-O1", "-g"] + (["-fsanitize=address"] if kind == "asan" else []))
            must(["g++"] + DEFS + f + self.cfg["flags"] + ["-c", src[i], "-o", ob], "compile " + src[i]); return ob
        with ThreadPoolExecutor(8) as ex: objs = list(ex.map(one, range(len(src))))
        must(["g++"] + fl + objs + WRAP + ["-rdynamic", "-ldl", "-lpthread", "-o", o], "link the native replay")
        self.bins[kind] = o
        return o
    def run(self, kind, path, timeout=20, fill=None, stress=None, valgrind=False):
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:detect_odr_violation=0:detect_stack_use_after_return=1:allow_user_segv_handler=0", UBSAN_OPTIONS="halt_on_error=1")
        if fill: env["SX_FILL"] = fill
        if stress: env["SX_STRESS"] = str(stress)
        cmd = [self.binary(kind), path]
        if valgrind: cmd = ["valgrind", "-q", "--error-exitcode=98", "--exit-on-first-error=yes"] + cmd
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=env)
            return r.returncode, r.stdout
        except subprocess.TimeoutExpired as e:
            return "timeout", ""
    def fails(self, path, threads=False, uninit=False):
        """Does the real code fail on these inputs? Returns a description or None."""
        tries = [("asan", None), ("asan", "0"), ("asan", "0xff"), ("opt", None)]
        if threads:
            tries = [("plain", None)]
        diverged = None
        for kind, fill in tries:
            rc, out = self.run(kind, path, fill=fill, timeout=60 if threads else 20, stress=30 if threads else None)
            if rc == "timeout": return "%s build: no end within the time limit" % kind
            if rc in (3, 4): diverged = out.strip().splitlines()[-1:]; continue
            if rc != 0:
                ls = [l for l in out.splitlines() if "ERROR" in l or "failed" in l or "runtime error" in l or "memory:" in l] or out.strip().splitlines()[-1:] or ["signal"]
                return "%s build: exit %s: %s" % (kind, rc, ls[-1][:200])
        if uninit and not threads:
            rc, out = self.run("plain", path, timeout=60, valgrind=True)
            if rc not in (0, 3, 4, "timeout"): return "valgrind: " + (out.splitlines() or ["error"])[0][:200]
        if diverged: say("   replay diverged:", diverged)
        return None

def write_case(path, e, inputs):
    with open(path, "w") as f:
        f.write("entry %s\n" % e["name"])
        if e["real"]: f.write("mode real\n")
        for k, v in e["params"].items(): f.write("param %s %d\n" % (k, v))
        for n, v in inputs: f.write("in %s %d\n" % (n.replace(" ", "_"), v))

def merge(out):
    tot = None
    for f in [out] + sorted(glob.glob(out + ".*")):
        try: d = json.load(open(f))
        except Exception: return None
        if tot is None: tot = d; tot["fn"] = {}; new = d["functions"]
        else:
            for k in ("paths", "sympaths", "forks", "steps", "assert_sym", "assert_conc", "infeasible", "queries", "z3calls", "cachehits", "sat", "unsat", "unknown", "solver_s"): tot[k] += d[k]
            for k in ("maxpath", "solver_max_s"): tot[k] = max(tot[k], d[k])
            for k in ("covers", "asserts"):
                for a, b in d[k].items(): tot[k][a] = tot[k].get(a, 0) + b
            for k in ("incomplete", "samples", "violations"): tot[k] += d[k]
            new = d["functions"]
        for f in new:
            key = (f["f"], f["file"], f["line"])
            o = tot["fn"].get(key)
            tot["fn"][key] = f["cov"] if o is None else "".join("1" if x == "1" or y == "1" else "0" for x, y in zip(o, f["cov"]))
    tot["incomplete"] = sorted(set(tot["incomplete"]))
    return tot

def load_known():
    known = []
    p = V + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) entry=(\S+) (.*)", l)
            if m: known.append((m.group(1), m.group(2), m.group(3).strip()))
    return known

def replay_file(path):
    pid = os.path.basename(path).split("-")[0]
    build_engine(); cfg = parse_header(V + "/harness/%s.cpp" % pid)
    d = B + "/run-replay"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    e = [l.split()[1] for l in open(path) if l.startswith("entry")][0]
    th = any(x["name"] == e and x["threads"] for x in cfg["entries"])
    r = Native(pid, cfg, d).fails(path, th, True)
    say("reproduced: " + r if r else "not reproduced"); sys.exit(1 if r else 0)

def main():
    if sys.argv[1] == "--replay": replay_file(sys.argv[2])
    pid = sys.argv[1]
    only = sys.argv[sys.argv.index("--entry") + 1] if "--entry" in sys.argv else None
    build_engine()
    cfg = parse_header(V + "/harness/%s.cpp" % pid)
    d = "%s/run-%s" % (B, pid)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    prog = build_bitcode(pid, cfg, d)
    nat = Native(pid, cfg, d)
    pool = ThreadPoolExecutor(1)
    pre = pool.submit(nat.binary, "asan")   # sampled paths are replayed natively as well
    entries = [e for e in cfg["entries"] if (not only or e["name"] == only) and (TIER == "thorough" or not e.get("thorough_only"))]
    known = load_known()
    per, confirmed, unconfirmed, problems, knownhit = [], [], [], [], []
    validated = 0; vsamples = []
    rdir = V + "/replays"; os.makedirs(rdir, exist_ok=True)
    for f in glob.glob("%s/%s-*" % (rdir, pid)): os.unlink(f)
    for e in entries:
        left = BUDGET - (time.time() - T0)
        if left < 5: problems.append("%s: not run, time budget used up" % e["name"]); continue
        out = "%s/%s.json" % (d, e["name"])
        t1 = time.time()
        cmd = [SYMX, "--entry=" + e["name"], "--out=" + out, "--repo=" + REPO, "--time=%d" % (left - 3), "--jobs=%d" % JOBS, "--seed=%d" % SEED, "--samples=%d" % (0 if e["threads"] else 4)] \
            + e["opts"] + (["--real"] if e["real"] else []) + ["-p%s=%d" % kv for kv in e["params"].items()] + [prog]
        try: r = run(cmd, timeout=left + 60); rc, txt = r.returncode, r.stdout
        except subprocess.TimeoutExpired: rc, txt = -9, "engine overran its time limit"
        m = merge(out) if os.path.exists(out) else None
        if m is None or rc:
            problems.append("%s: engine ended with %s: %s" % (e["name"], rc, txt[-400:]))
            if m is None: continue
        m["wall"] = time.time() - t1
        per.append((e, m))
        say("%-28s paths %d (%d symbolic) asserts %d queries %d solver %.1fs wall %.1fs violations %d%s" % (e["name"], m["paths"], m["sympaths"], m["assert_sym"] + m["assert_conc"], m["queries"], m["solver_s"], m["wall"], len(m["violations"]), " INCOMPLETE" if m["incomplete"] else ""))
        if m["incomplete"]: problems.append("%s: %s" % (e["name"], "; ".join(m["incomplete"][:5])))
        # violations: replay each distinct one against the real code
        seen = set(); ok_one = False
        for v in m["violations"]:
            key = (v["kind"], v["msg"], v["loc"])
            if key in seen or len(seen) >= 6: continue
            seen.add(key)
            f = "%s/%s-%s-%d.case" % (rdir, pid, e["name"], len(seen))
            write_case(f, e, v["inputs"])
            open(f, "a").write("# %s: %s at %s\n" % key + "".join("#   %s\n" % s for s in v["stack"]))
            pre.result()
            how = nat.fails(f, e["threads"], v["uninit"])
            line = "%s: %s at %s [%s]" % (e["name"], v["msg"], v["loc"], v["kind"])
            if e["known"] and how:
                k = [x for x in known if x[0] == pid and x[1] == e["name"]]
                if k and e["known"].replace("_", " ") in (v["msg"], v["kind"]): knownhit.append((k[0], line)); continue
            if how: confirmed.append((f, line, how)); ok_one = True
            else: unconfirmed.append((f, line))
            say("   %s %s -- %s" % ("VIOLATED" if how else "unconfirmed", line, how or "not reproduced natively"))
        # vacuity: the labels the harness declares must have been reached
        if not m["violations"] and not m["incomplete"]:
            for c in e["cover"]:
                if not m["covers"].get(c): problems.append("%s: label %s was never reached (vacuous)" % (e["name"], c))
            if not m["paths"]: problems.append("%s: no complete path" % e["name"])
        # sampled solver models of complete paths are run through the real build
        if not m["violations"]:
            for i, s in enumerate(m["samples"][:16]):
                if time.time() - T0 > BUDGET + 60: break
                f = "%s/val-%s-%d.case" % (d, e["name"], i)
                write_case(f, e, s["inputs"])
                pre.result()
                rc, o = nat.run("asan", f, timeout=30)
                if rc == 0:
                    validated += 1
                    if len(vsamples) < 12 and i < 3: vsamples.append(dict(entry=e["name"], inputs=["%s=%d" % tuple(x) for x in s["inputs"]][:60], path=s["about"]))
                elif e["real"]: pass   # rounding may take another branch
                elif rc in (3, 4): problems.append("%s: native replay of a sampled path diverged: %s" % (e["name"], o.strip()[-200:]))
                else:
                    g = "%s/%s-%s-s%d.case" % (rdir, pid, e["name"], i); shutil.copy(f, g)
                    confirmed.append((g, e["name"] + ": the real build fails on a solver-generated input", "exit %s %s" % (rc, o.strip()[-200:])))
                    say("   VIOLATED (native replay of a sampled path) %s" % o.strip()[-300:]); break
        if ok_one and not os.environ.get("SX_ALL"): break
    # evidence
    fns = {}
    for e, m in per:
        for k, c in m["fn"].items():
            o = fns.get(k); fns[k] = c if o is None or len(o) != len(c) else "".join("1" if x == "1" or y == "1" else "0" for x, y in zip(o, c))
    tot = lambda k: sum(m[k] for _, m in per)
    cov = dict(
        states=tot("paths"), transitions=tot("steps"), traces_validated_against_impl=validated,
        samples=vsamples[:8] or ["no complete path was sampled"],
        rule="states: complete symbolic paths (each stands for every input satisfying its path condition); transitions: LLVM instructions of the real code and harness executed symbolically; traces_validated: solver models of sampled paths run through the real g++ build",
        entries=[dict(entry=e["name"], bounds=e["params"], arithmetic="real arithmetic" if e["real"] else "bit-precise", paths=m["paths"], symbolic_paths=m["sympaths"], forks=m["forks"], pruned_by_assumption=m["infeasible"],
                      instructions=m["steps"], longest_path=m["maxpath"], assertions_decided_by_solver=m["assert_sym"], assertions_decided_on_constants=m["assert_conc"], queries=m["queries"], solver_calls=m["z3calls"],
                      cache_hits=m["cachehits"], sat=m["sat"], unsat=m["unsat"], unknown=m["unknown"], solver_s=round(m["solver_s"], 2), slowest_query_s=round(m["solver_max_s"], 2), wall_s=round(m["wall"], 1),
                      reached=m["covers"], assertions=m["asserts"], incomplete=m["incomplete"][:5]) for e, m in per],
        functions_encoded=len(fns), functions=sorted({"%s (%s:%d) blocks %d/%d" % (k[0][:110], k[1].replace(REPO + "/", ""), k[2], c.count("1"), len(c)) for k, c in fns.items()}),
        queries=tot("queries"), solver_calls=tot("z3calls"), solver_s=round(tot("solver_s"), 2),
        bounds=cfg["bound"], outside=cfg["outside"], exhaustive=False, problems=problems[:20],
        known_findings=[k[1] for k in knownhit])
    ev = dict(property=pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level="model_checking", coverage=cov,
              assumptions=cfg["assume"] + ["memory model: separate objects never adjoin, allocation never fails, malloc_usable_size is the requested size", "clang 18 -O0 translation of the sources; sequentially consistent atomics"],
              wall_s=round(time.time() - T0, 1), violations=len(confirmed))
    if not only:
        os.makedirs(V + "/evidence", exist_ok=True)
        json.dump(ev, open(V + "/evidence/%s.json" % pid, "w"), indent=1)
    for k, line in {x[1]: x for x in knownhit}.values(): say("KNOWN-FINDING: property=%s %s" % (pid, k[2]))
    pre.exception()   # the build of the replay binary must not outlive its directory
    if not os.environ.get("SX_KEEP"): shutil.rmtree(d, ignore_errors=True)
    if confirmed:
        for f, line, how in confirmed: say("VIOLATION property=%s replay=%s  %s (%s)" % (pid, f, line, how))
        sys.exit(1)
    if unconfirmed:
        for f, line in unconfirmed: say("UNCONFIRMED %s (%s)" % (line, f))
        sys.exit(2)
    if problems:
        for p in problems: say("NO ANSWER: " + p)
        sys.exit(2)
    say("held: %s (%d paths, %d queries, %.1fs)" % (pid, cov["states"], cov["queries"], time.time() - T0))
    sys.exit(0)
main()
