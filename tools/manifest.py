# Writes MANIFEST.json (python3 tools/manifest.py): one check per property that has a harness.
import json, os, subprocess, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
p = V + "/tools/not_applicable.json"
if os.path.exists(p): NA = json.load(open(p))
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    d = json.loads(l); pid = d["id"]; h = V + "/harness/%s.cpp" % pid
    if os.path.exists(h):
        t = open(h).read()
        real = bool(re.search(r"// @entry .* real\b", t)); thr = bool(re.search(r"// @entry .* threads\b", t))
        tech = "symbolic execution of the compiled C++ (LLVM IR) with Z3, bounded"
        if real: tech += "; floating-point identities over the reals"
        if thr: tech += "; all interleavings enumerated symbolically"
        note = "Bounded: " + " ".join(re.findall(r"// @bound (.*)", t)) + ". Outside: " + " ".join(re.findall(r"// @outside (.*)", t)) + ". Trusted: clang's translation to IR, the engine in engine/, Z3; counterexamples are replayed on the g++ build."
        checks.append(dict(property=pid, quick_cmd="python3 check.py " + pid, thorough_cmd="python3 check.py %s --thorough" % pid, evidence_file="evidence/%s.json" % pid, technique=tech, level="model_checking", level_note=note))
    else: na.append(dict(property=pid, reason=NA.get(pid, "no check has been built yet")))
hook = [l.split()[0] for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines() if " hook:" in l]
json.dump(dict(version=1, setup_cmd="make -s -j4 -C engine", hooks=dict(guard="KORIN_VERIF", enable="-DKORIN_VERIF", source_commits=hook), checks=checks, not_applicable=na,
               notes="See DESIGN.md. Every check regenerates its encoding from /repo's working tree."), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "without")
