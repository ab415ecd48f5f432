# plant.py SPEC.py [ID...]: confirms planted bugs in a scratch copy of /repo and keeps the confirmed ones in /verif/seeded.
# SPEC defines BUGS: list of dict(id, property, file, edits=[(old, new[, nth])], needs, breaks, demo (C++ main body or program), asan=False)
import sys, os, subprocess, json, shutil, tempfile, runpy, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE = "src/korin/core/"
BASE = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).split()[0]
MINE = set(l.split()[0] for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H %s"], text=True).splitlines() if " fix:" in l or " hook:" in l)
DEMO = """#!/bin/sh
# Run in the repository's root. Exit 0: the behaviour is right.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -g -w -mavx2 %s -DBUILD_DEBUG -DPLATFORM_LINUX=1 -I src/korin/core/public "$d/demo.cpp" src/korin/core/private/*/*.cpp -lpthread -o "$t/demo" || exit 3
ASAN_OPTIONS=detect_leaks=%d timeout 120 "$t/demo" || exit 1
"""
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def main():
    spec = runpy.run_path(sys.argv[1])["BUGS"]; only = sys.argv[2:]
    work = tempfile.mkdtemp(prefix="plant"); repo = work + "/repo"
    sh("cp -a /repo %s" % repo)
    try:
        for b in spec:
            if only and b["id"] not in only: continue
            sh("git -C %s checkout -q -- . " % repo)
            d = work + "/" + b["id"]; os.makedirs(d)
            demo = b["demo"]
            if "int main" not in demo: demo = '#include <cstdio>\n#include <cstdlib>\n#include <cstring>\n#include <new>\n#include "core_types.h"\n' + "".join('#include "%s"\n' % h for h in b.get("inc", [])) + "#define CK(c) do { if (!(c)) { fprintf(stderr, \"wrong: %s (line %d)\\n\", #c, __LINE__); return 1; } } while (0)\n" + b.get("pre", "") + "\nint main()\n{\n" + demo + "\n\treturn 0;\n}\n"
            open(d + "/demo.cpp", "w").write(demo)
            san = b.get("asan", False)
            open(d + "/demo.sh", "w").write(DEMO % ("-fsanitize=address -fno-sanitize-recover=all" if san else b.get("opt", "-O1"), 1 if san == "leak" else 0)); os.chmod(d + "/demo.sh", 0o755)
            r = sh("sh %s/demo.sh" % d, cwd=repo)
            if r.returncode: print(b["id"], "DEMO FAILS UNCHANGED", r.stdout[-900:]); continue
            bad = None
            for e in b["edits"]:
                f = b["file"] if len(e) < 4 else e[3]
                p = repo + "/" + CORE + f; s = open(p).read(); n = s.count(e[0]); nth = e[2] if len(e) > 2 else None
                if n == 0 or (n > 1 and nth is None): bad = "%d matches of %r" % (n, e[0]); break
                if nth is None: s = s.replace(e[0], e[1])
                else:
                    i = -1
                    for _ in range(nth + 1): i = s.index(e[0], i + 1)
                    s = s[:i] + e[1] + s[i + len(e[0]):]
                open(p, "w").write(s)
            if bad: print(b["id"], "EDIT", bad); continue
            diff = subprocess.check_output(["git", "-C", repo, "diff"], text=True)
            # the removed lines must not all be mine
            own = 0; tot = 0
            for f in set([b["file"]] + [e[3] for e in b["edits"] if len(e) > 3]):
                h = subprocess.check_output(["git", "-C", repo, "diff", "-U0", CORE + f], text=True)
                for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))?", h, re.M):
                    n = int(m.group(2) or 1)
                    if n:
                        for l in subprocess.check_output(["git", "-C", repo, "blame", "-l", "-L%s,+%d" % (m.group(1), n), "HEAD", "--", CORE + f], text=True).splitlines():
                            tot += 1; own += l.split()[0].lstrip("^") in MINE or any(c.startswith(l.split()[0].lstrip("^")) for c in MINE)
            if own: print(b["id"], "note: %d of %d changed lines are mine" % (own, tot))
            if own and own == tot: print(b["id"], "REJECTED all lines mine"); continue
            r = sh("sh %s/demo.sh" % d, cwd=repo)
            if r.returncode == 0: print(b["id"], "DEMO PASSES WITH THE BUG"); continue
            if r.returncode == 3 or "error:" in r.stdout: print(b["id"], "DEMO DOES NOT COMPILE", r.stdout[-600:]); continue
            open(d + "/patch.diff", "w").write(diff)
            # build and tests, with the copy in place of /repo
            r = sh("unshare -m sh -c 'mount --bind %s /repo && bash /opt/vp/build.sh >/dev/null 2>&1 && bash /opt/vp/test.sh %s/t.json >/dev/null 2>&1'" % (repo, work))
            if r.returncode:  # no mount privileges: build in place
                g = sh("git -C /repo apply %s/patch.diff && bash /opt/vp/build.sh && bash /opt/vp/test.sh %s/t.json; git -C /repo checkout -q -- ." % (d, work)); 
            try: t = json.load(open(work + "/t.json")); os.unlink(work + "/t.json")
            except Exception: print(b["id"], "BUILD OR TESTS FAIL"); continue
            base = json.load(open("/opt/vp/BASELINE.json")); names = base.get("stable") or base.get("tests") or base.get("passed") or []
            passed = t.get("passed") or [k for k, v in t.get("tests", {}).items() if v in ("pass", "passed", True)]
            miss = [n for n in names if n not in passed]
            if miss: print(b["id"], "TESTS FAIL", miss[:4]); continue
            json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
            out = V + "/seeded/" + b["id"]; shutil.rmtree(out, ignore_errors=True); os.makedirs(V + "/seeded", exist_ok=True); shutil.copytree(d, out)
            print(b["id"], "ok")
    finally: shutil.rmtree(work, ignore_errors=True); sh("bash /opt/vp/build.sh")
main()
