#!/usr/bin/env python3
# mutate.py N SEED [FILE-SUBSTRING]: small random changes to copies of korin; prints those that no check of the file's
# properties notices and that the unit tests accept as well. A tool for finding gaps, not a check.
import os, random, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")
FILES = {
 "public/hal/malloc_pool.h": "M01 M02", "private/hal/malloc_pool.cpp": "M01 M02", "public/hal/malloc_binned.h": "M03", "private/hal/malloc_binned.cpp": "M03",
 "private/hal/malloc_ansi.cpp": "M04", "public/hal/malloc_object.h": "M04 C03 L02", "public/generic/generic_platform_memory.h": "M05 C02",
 "public/containers/array.h": "C02 C01 C03", "public/containers/list.h": "L02 L01 C03", "public/containers/tree.h": "T01 T02 C03 K01", "public/containers/map.h": "K01 C03",
 "public/containers/set.h": "K02 K03 C03", "public/containers/string.h": "S01 S02 S03 S04 C03", "public/containers/pair.h": "U01 K01", "public/containers/tuple.h": "U01 F01",
 "public/templates/array.h": "U01", "public/templates/optional.h": "O01", "public/templates/function.h": "F01", "public/templates/atomic.h": "X01", "public/unix/unix_platform_atomics.h": "X01",
 "public/math/vec2.h": "V01 V02 V03", "public/math/vec3.h": "V01 V02 V03", "public/math/vec4.h": "V01 V02 V03", "public/math/simd_float.h": "V04", "public/math/quat.h": "Q01", "public/math/mat4.h": "N01",
 "public/generic/generic_platform_math.h": "P01", "public/generic/generic_platform_strings.h": "S03", "public/algorithm/sort.h": "A01 A02", "public/templates/functional.h": "U01",
 "public/regex/regex.h": "R01 R03", "public/regex/executor.h": "R03 R01 R02", "public/regex/state.h": "R03 R01 R02", "public/regex/automaton.h": "R03 R01 R02", "private/regex/regex.cpp": "R03 R01 R02",
 "public/templates/utility.h": "U02", "public/templates/name.h": "U02",
}
SWAP = [(r"<=", "<"), (r">=", ">"), (r"(?<= )<(?= )", "<="), (r"(?<= )>(?= )", ">="), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r"\+\+", "--"), (r"--", "++"),
        (r"(?<!\+)\+(?![+=])", "-"), (r"(?<!-)-(?![->=])", "+"), (r"\+=", "-="), (r"-=", "+="), (r"\bleft\b", "right"), (r"\bright\b", "left"), (r"\bprev\b", "next"), (r"\bnext\b", "prev"),
        (r"\bfirst\b", "second"), (r"\bsecond\b", "first"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b2\b", "1"), (r"!(?=[\w(])", ""), (r"\bx\b", "y"), (r"\by\b", "z"), (r"\bz\b", "x"), (r"\bw\b", "x"),
        (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\bmove\(", "("), (r"\bother\b", "(*this)"), (r"\bbegin\b", "end"), (r"\bcount\b", "size"), (r"\bsize\b", "count"), (r"\bhead\b", "tail"), (r"\btail\b", "head"), (r"(?<= )&(?= )", "|"), (r"(?<= )\*(?= )", "+")]
def strip(src):   # blanks out comments and strings, keeping offsets
    return re.sub(r'/\*.*?\*/|//[^\n]*|"(\\.|[^"\\\n])*"|#[^\n]*', lambda m: re.sub(r"[^\n]", " ", m.group()), src, flags=re.S)
def mutants(f):
    src = open(REPO + "/src/korin/core/" + f).read(); code = strip(src); out = []
    for pat, new in SWAP:
        for m in re.finditer(pat, code):
            ln = code.rfind("\n", 0, m.start()) + 1; line = code[ln:code.find("\n", m.start())]
            if "CHECK" in line or re.match(r"\s*(template|using|class|struct|friend|typedef|static_assert)", line): continue
            if re.match(r"\s*(static |constexpr |explicit |virtual )*FORCE_INLINE\b", line) and not re.search(r"[;}]\s*$", line): continue   # a signature
            if m.group() in "*&" and re.search(r"([A-Z]\w*(<[^;]*>)?|void|char|int|\bauto|64|32|16|8) $", code[ln:m.start()]): continue      # a declarator
            out.append((src[:m.start()] + new + src[m.end():], src.count("\n", 0, m.start()) + 1, "%s -> %s" % (m.group(), new or "(dropped)")))
    off = 0
    for i, line in enumerate(code.split("\n")):
        t = line.strip()
        if "CHECK" in t: off += len(line) + 1; continue
        if re.match(r"^[\w*(+\-][^{}]*;$", t) and not re.match(r"(return|using|template|static|constexpr|const|friend|typedef|case|default|break|public|private|protected|else|explicit|virtual|for|if|while|do)\b", t) and ("(" in t or "=" in t or "++" in t or "--" in t):
            n = off + line.index(t); out.append((src[:n] + ";" + src[n + len(t):], i + 1, "dropped"))
        off += len(line) + 1
    return [(f,) + m for m in out]
def run(f, text, ln, what):
    d = tempfile.mkdtemp(prefix="mx.", dir="/tmp"); r = d + "/repo"
    try:
        shutil.copytree(REPO, r, ignore=shutil.ignore_patterns("_build", ".git"))
        open(r + "/src/korin/core/" + f, "w").write(text)
        res = []; t0 = time.time()
        for p in FILES[f].split():
            c = subprocess.run(["timeout", "400", "python3", "check.py", p], cwd=V, env=dict(os.environ, SX_REPO=r), capture_output=True, text=True)
            if c.returncode == 1: return "caught by %s (%.0fs)" % (p, time.time() - t0)
            if c.returncode == 2 and re.search(r"error:|does not compile|translate", c.stdout + c.stderr): return "does not compile"
            if c.returncode not in (0, 1): res.append("%s rc=%d" % (p, c.returncode))
        o = subprocess.run(["bash", V + "/tools/testcopy.sh", r], capture_output=True, text=True).stdout
        if "error" in o or "FAILED" in o or "Segm" in o: return "TESTS-KILL " + " ".join(res)
        return "SURVIVED " + " ".join(res)
    finally: shutil.rmtree(d)
if __name__ == "__main__":
    n, seed = int(sys.argv[1]), int(sys.argv[2]); rnd = random.Random(seed)
    fs = [f for f in FILES if len(sys.argv) < 4 or sys.argv[3] in f]; allm = []
    for f in fs:
        m = mutants(f); rnd.shuffle(m); allm += [(i / (len(m) ** 0.6), x) for i, x in enumerate(m)]   # fewer per line from big files
    allm.sort(key=lambda a: a[0]); done = 0
    for _, (f, text, ln, what) in allm:
        r = run(f, text, ln, what)
        print("%s:%d %s | %s | %s" % (f, ln, what, text.split("\n")[ln - 1].strip()[:110], r), flush=True)
        if "compile" not in r: done += 1
        if done >= n: break
