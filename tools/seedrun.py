# seedrun.py [ID...]: runs each planted bug's own check against a scratch copy of /repo with the bug, and says which are caught.
import sys, os, subprocess, json, shutil, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
work = tempfile.mkdtemp(prefix="seedrun"); repo = work + "/repo"
subprocess.run(["cp", "-a", "/repo", repo])
try:
    for i in ids:
        d = V + "/seeded/" + i; p = json.load(open(d + "/meta.json"))["property"]
        subprocess.run("git -C %s checkout -q -- . && git -C %s apply %s/patch.diff" % (repo, repo, d), shell=True, check=True)
        t = time.time()
        r = subprocess.run(["python3", V + "/check.py", p], env=dict(os.environ, SX_REPO=repo), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        print("%-26s %s rc=%d %4ds %s" % (i, p, r.returncode, time.time() - t, next((l for l in r.stdout.splitlines() if "VIOLATION" in l), r.stdout[-300:] if r.returncode else "MISSED")), flush=True)
finally: shutil.rmtree(work, ignore_errors=True)
