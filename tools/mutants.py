"""A campaign of small changes to the compiler: for each, do the named checks notice, and do the tests?
  python3 tools/mutants.py [-t] [NAME-PREFIX...]     (-t: run the tests as well, on those no check notices always)
Everything happens in scratch copies under $PLANT_DIR (default /tmp/mu)."""
import json, os, shutil, subprocess, sys, time
os.environ.setdefault("PLANT_DIR", "/tmp/mu")
import plant
from mutant_list import M
from mutant_list1 import M as M1
from mutant_list2 import M as M2
from mutant_list3 import M as M3
M = M + M1 + M2 + M3
W = plant.W


def one(name, props, edits, tests):
    d = os.path.join(W, "wt")
    if not os.path.exists(d): plant.scratch("wt")
    plant.sh(["git", "-C", d, "checkout", "-q", "."])
    for f, old, new in edits:
        p = os.path.join(d, f)
        with open(p) as fp: t = fp.read()
        if t.count(old) != 1: print(name, "EDIT of", f, "matches", t.count(old), repr(old[:60]), flush=True); return
        with open(p, "w") as fp: fp.write(t.replace(old, new))
    rc, o = plant.sh(["bash", W + "/build.sh"], cwd=d)
    if rc: print(name, "BUILD fails", o[-600:], flush=True); return
    caught, res = False, []
    for p in props:
        t0 = time.time()
        rc, o = plant.sh([sys.executable, plant.V + "/checks/run.py", p, "--seed", "1"], env=dict(os.environ, SIM_REPO=d, SIM_BUILD=W + "/b", SIM_EVIDENCE=W + "/ev", SIM_REPLAYS=W + "/rp"))
        v = [l for l in o.split("\n") if l.strip() and not l.startswith("check ")]
        res.append("%s rc %d %.0fs %s" % (p, rc, time.time() - t0, (v[0] if v else "")[:110] if rc else ""))
        if rc == 1: caught = True; break
    lost = ""
    if tests or not caught:
        plant.sh(["bash", W + "/test.sh", W + "/o.json"], cwd=d)
        with open(W + "/o.json") as fp: r = json.load(fp)
        base = json.load(open("/opt/vp/BASELINE.json"))
        base = base.get("stable", base.get("passed")) if isinstance(base, dict) else base
        l = set(base) - set(r["passed"])
        lost = "tests lost %d" % len(l) if l else "tests pass"
    shutil.rmtree(W + "/b", ignore_errors=True)
    print(name, "caught" if caught else "MISSED", lost, "|", " | ".join(res), flush=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    tests = "-t" in a
    a = [x for x in a if x != "-t"]
    for name, props, *edits in M:
        if not a or any(name.startswith(x) for x in a): one(name, props.split(), edits, tests)
