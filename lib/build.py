"""Builds the simulators from /repo's current working tree, in a scratch
directory keyed by the tree's contents, shared by concurrent checks."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))


class BuildError(Exception):
    pass


def sources():
    fs = sorted(glob.glob(REPO + "/src/*.c") + glob.glob(REPO + "/src/*/*.c"))
    return fs


def tree_key():
    h = hashlib.sha256()
    fs = []
    for d in ("src", "include", "tests"):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs.sort()
            for f in sorted(files): fs.append(os.path.join(root, f))
    fs.append(os.path.join(REPO, "config.def.h"))
    fs.append(os.path.join(VERIF, "lib", "build.py"))
    for f in ("simcc.c", "runexe.c"): fs.append(os.path.join(VERIF, "sim1", f))
    for f in sorted(glob.glob(VERIF + "/sim2/*.c") + glob.glob(VERIF + "/sim2/*.S") + glob.glob(VERIF + "/sim2/*.h")): fs.append(f)
    for f in fs:
        h.update(f.encode()); h.update(b"\0")
        try:
            with open(f, "rb") as fp: h.update(fp.read())
        except OSError: pass
        h.update(b"\0")
    return h.hexdigest()[:24]


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-3000:]))
    return p.stdout


def write_config(d):
    with open(os.path.join(REPO, "config.def.h")) as f: text = f.read()
    text = text.replace('\t"/usr/include/",', '\t"/usr/include/",\n\t"/usr/include/x86_64-linux-gnu/",')
    p = os.path.join(d, "config.h")
    with open(p, "w") as f: f.write(text)
    return p


CFLAGS = ["-O1", "-g", "-w", "-fno-builtin", "-fno-stack-protector", "-std=gnu17"]


# The environment the compiler asks for by name is the simulator's to choose.
SEAM = ["-Dmain=cc_main", "-Dgetenv=sim_getenv", "-Dsecure_getenv=sim_getenv"]


def compile_host(d, cfg, sub, flags):
    os.makedirs(os.path.join(d, sub), exist_ok=True)
    jobs = []
    for s in sources():
        o = os.path.join(d, sub, os.path.relpath(s, REPO + "/src").replace("/", "_") + ".o")
        jobs.append((["gcc"] + flags + ["-I" + d, "-I" + REPO + "/src", "-I" + REPO, '-DCONFIG_PATH="config.h"', "-c", s, "-o", o], o))
    with ThreadPoolExecutor(8) as ex: list(ex.map(lambda j: run(j[0]), jobs))
    return [o for _, o in jobs]


def build_all(d):
    cfg = write_config(d)
    # 1: host-compiled compiler inside the simulator; 0: the plain compiler
    plain = compile_host(d, cfg, "o0", ["-O1", "-w", "-std=gnu17"])
    run(["gcc", "-o", d + "/cc"] + plain)
    objs = compile_host(d, cfg, "o1", CFLAGS + SEAM)
    run(["gcc", "-O2", "-g", "-Wall", "-fno-stack-protector", "-c", VERIF + "/sim1/simcc.c", "-o", d + "/simcc.o"])
    run(["gcc", "-static", "-no-pie", "-o", d + "/simcc", d + "/simcc.o"] + objs)
    # 2: self-compiled compiler inside the simulator
    try:
        os.makedirs(d + "/o2", exist_ok=True)
        jobs = []
        for s in sources():
            o = os.path.join(d, "o2", os.path.relpath(s, REPO + "/src").replace("/", "_") + ".o")
            jobs.append(([d + "/cc", "-I" + d, "-I" + REPO + "/src", "-I" + REPO, '-DCONFIG_PATH="config.h"', *SEAM, "-c", s, "-o", o], o))
        with ThreadPoolExecutor(8) as ex: list(ex.map(lambda j: run(j[0], cwd=REPO), jobs))
        run(["gcc", "-static", "-no-pie", "-o", d + "/simcc2", d + "/simcc.o"] + [o for _, o in jobs])
    except BuildError as e:
        with open(d + "/simcc2.err", "w") as f: f.write(str(e))
    run(["gcc", "-O1", "-static", "-no-pie", "-Wl,-Ttext-segment=0x70000000", "-o", d + "/runexe", VERIF + "/sim1/runexe.c"])
    run(["gcc", "-O2", "-fno-stack-protector", "-static", "-no-pie", "-Wl,-Ttext-segment=0x70000000", "-o", d + "/machine", VERIF + "/sim2/machine.c"])
    for sub in ("o0", "o1", "o2"): shutil.rmtree(os.path.join(d, sub), ignore_errors=True)


def get():
    """Returns the build directory for the current tree, building if needed."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = tree_key()
        d = os.path.join(BUILD, key)
        if not os.path.exists(d + "/done"):
            # keep only the newest few builds
            old = sorted([x for x in glob.glob(BUILD + "/*") if os.path.isdir(x)], key=os.path.getmtime)
            for x in old[:-2]: shutil.rmtree(x, ignore_errors=True)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            build_all(d)
            open(d + "/done", "w").close()
        os.utime(d)
    return d


if __name__ == "__main__":
    t = time.time()
    print(get(), "%.1fs" % (time.time() - t))
