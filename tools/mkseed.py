"""mkseed.py ID: plants the change described in seeded/ID/spec (python dict on stdin):
id, property, needs, breaks, dirs, edits [(file, old, new)], demo (C++ text)."""
import os, shutil, subprocess, sys, json
H = os.path.dirname(os.path.abspath(__file__))
spec = eval(sys.stdin.read())
d = os.path.join(H, "../seeded", spec["id"])
d = os.path.abspath(d)
os.makedirs(d, exist_ok=True)
shutil.copy(H + "/seedlib/build_lib.sh", d)
if os.path.exists(d + "/stubs"):
    shutil.rmtree(d + "/stubs")
shutil.copytree(H + "/seedlib/stubs", d + "/stubs")
t = open(H + "/seedlib/demo.sh").read().replace("@DIRS@", spec["dirs"])
open(d + "/demo.sh", "w").write(t)
open(d + "/demo.cpp", "w").write(spec["demo"])
json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(d + "/meta.json", "w"), indent=1)
R = "/tmp/seedw"
if not os.path.isdir(R):
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "--detach", R, "HEAD"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
run = lambda *a, **k: subprocess.run(a, **k)
run("git", "-C", R, "checkout", "-q", "--detach", subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip(), check=True)
run("git", "-C", R, "checkout", "-q", "--", ".", check=True)
for f, old, new in spec["edits"]:
    p = os.path.join(R, f)
    s = open(p).read()
    n = s.count(old)
    assert n == 1, (f, n)
    open(p, "w").write(s.replace(old, new))
patch = subprocess.check_output(["git", "-C", R, "diff"], text=True)
open(d + "/patch.diff", "w").write(patch)
import time
t0 = time.time()
bad = run("bash", d + "/demo.sh", cwd=R).returncode
run("git", "-C", R, "checkout", "-q", "--", ".", check=True)
good = run("bash", d + "/demo.sh", cwd=R).returncode
print(spec["id"], "patched rc", bad, "clean rc", good, "%.0fs" % (time.time() - t0), "OK" if bad not in (0, 3) and good == 0 else "BAD")
