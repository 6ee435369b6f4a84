"""Builds and confirms a planted bug: plant(id, property, edits, demo, files, needs, breaks).
Everything happens in scratch copies under /tmp/plant."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("PLANT_DIR", "/tmp/plant")


def sh(cmd, timeout=900, **kw):
    try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
    except subprocess.TimeoutExpired as e: return 124, (e.stdout or b"").decode(errors="replace")
    return p.returncode, p.stdout.decode(errors="replace")


def scratch(name):
    d = os.path.join(W, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(W, exist_ok=True)
    sh(["cp", "-a", "/repo", d])
    for f in ("build.sh", "test.sh"):
        with open("/opt/vp/" + f) as fp: t = fp.read()
        t = t.replace("/repo", d).replace("bash /opt/vp/build.sh", "bash %s/build.sh" % W)
        with open(os.path.join(W, f), "w") as fp: fp.write(t)
    return d


def plant(id, prop, edits, demo, files={}, needs="", breaks="", check=True, keep=True, tests=True, seeds=(1,)):
    d = scratch("wt")
    for f, old, new in edits:
        p = os.path.join(d, f)
        with open(p) as fp: t = fp.read()
        if t.count(old) != 1: print(id, "EDIT of", f, "matches", t.count(old), repr(old[:50])); return False
        with open(p, "w") as fp: fp.write(t.replace(old, new))
    rc, diff = sh(["git", "-C", d, "diff"])
    sd = os.path.join(V, "seeded", id)
    shutil.rmtree(sd, ignore_errors=True); os.makedirs(sd)
    with open(sd + "/patch.diff", "w") as fp: fp.write(diff)
    with open(sd + "/demo.sh", "w") as fp: fp.write(demo if demo.startswith("#!") else "#!/bin/bash\n" + demo)
    os.chmod(sd + "/demo.sh", 0o755)
    for f, t in files.items():
        with open(os.path.join(sd, f), "w") as fp: fp.write(t)
    with open(sd + "/meta.json", "w") as fp: json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), fp, indent=1); fp.write("\n")
    return confirm(id, d, check, tests, keep, seeds)


def confirm(id, d=None, check=True, tests=True, keep=True, seeds=(1,)):
    sd = os.path.join(V, "seeded", id)
    with open(sd + "/meta.json") as fp: prop = json.load(fp)["property"]
    if d is None:
        d = scratch("wt")
        rc, o = sh(["git", "-C", d, "apply", sd + "/patch.diff"])
        if rc: print(id, "PATCH does not apply", o[-300:]); return False
    rc, o = sh(["bash", W + "/build.sh"], cwd=d)
    if rc: print(id, "BUILD fails\n", o[-1500:]); return False
    ok = True
    if tests:
        rc, o = sh(["bash", W + "/test.sh", W + "/o.json"], cwd=d)
        with open(W + "/o.json") as fp: r = json.load(fp)
        base = json.load(open("/opt/vp/BASELINE.json"))
        base = base.get("stable", base.get("passed")) if isinstance(base, dict) else base
        lost = sorted(set(base) - set(r["passed"]))
        if lost: print(id, "TESTS lost:", len(lost), lost[:6]); ok = False
    a, ao = sh(["bash", sd + "/demo.sh"], cwd="/repo", timeout=300)
    b, bo = sh(["bash", sd + "/demo.sh"], cwd=d, timeout=300)
    if a != 0: print(id, "DEMO fails on the unchanged tree", a, ao[-600:]); ok = False
    if b == 0: print(id, "DEMO passes with the patch", bo[-600:]); ok = False
    res = []
    if check:
        for s in seeds:
            rc, o = sh([sys.executable, V + "/checks/run.py", prop, "--seed", str(s)], env=dict(os.environ, SIM_REPO=d, SIM_BUILD=W + "/b", SIM_EVIDENCE=W + "/ev", SIM_REPLAYS=W + "/rp"))
            v = [l for l in o.split("\n") if l.strip() and not l.startswith("check ")]
            res.append("seed %d rc %d %s" % (s, rc, (v[0] if v else "")[:230]))
    print(id, prop, "OK" if ok else "NOT-OK", "caught" if all(" rc 1" in x for x in res) and res else "MISSED" if res else "", " | ".join(res), flush=True)
    return ok


if __name__ == "__main__":
    ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
    for i in ids: confirm(i, tests="NOTESTS" not in os.environ)
