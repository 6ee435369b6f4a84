"""Workloads for SIM-1 and the fault-free reference run every oracle compares with."""
import json, os, subprocess, tempfile
import projects, sim1
from sim1 import FdTrack, ERR, SimError
from gen_c import Gen, FEATURES

BUDGET = 4000000


def small(rng):
    return rng.choice([0.15, 0.2, 0.3, 0.4, 0.4, 0.6, 1.0, 1.0, 2.0])


def workload(rng, ctx=None, modes=None, p_repo=0.12, size=None, pre=None):
    """A command on a tree: dict(base, files, argv, outs, so, mode)."""
    modes = modes or (projects.MODES + ["exe", "multi", "multis", "link", "dump", "pp"])
    mode = rng.choice(modes)
    size = size or small(rng)
    if mode == "exe":
        pr = projects.link_project(rng)
        argv = ["cc"] + pr["mains"]
        outs = ["/w/a.out"]
        if rng.random() < 0.7: argv += ["-o", "prog"]; outs = ["/w/prog"]
        so = False
    elif mode == "link":
        pr = projects.link_project(rng)
        objs = compile_objects(ctx, pr, gas=[i for i in range(len(pr["mains"])) if rng.random() < 0.5] if rng.random() < 0.3 else ())
        if objs is None: return workload(rng, ctx, ["obj"], p_repo, size, pre)
        pr = dict(pr, files=objs, mains=[m[:-2] + ".o" for m in pr["mains"]])
        argv = ["cc"] + pr["mains"] + ["-o", "prog"]; outs = ["/w/prog"]; so = False
    elif mode in ("multi", "multis"):
        pr = projects.gen_project(rng, nmain=rng.choice([2, 3]), size=min(size, 0.6))
        argv = ["cc", "-c" if mode == "multi" else "-S"] + ["-I" + i for i in pr["incs"]] + ["-D" + d for d in pr["defs"]] + pr["mains"]
        if rng.random() < 0.4: argv.insert(1, "-MD")
        e = ".o" if mode == "multi" else ".s"
        outs = ["/w/" + os.path.basename(m)[:-2] + e for m in pr["mains"]]
        if "-MD" in argv: outs += [o[:-2] + ".d" for o in outs]
        so = False
    else:
        pr = projects.any_project(rng, p_repo, 0.0) if rng.random() < p_repo else projects.gen_project(rng, size=size)
        if mode == "dump":
            argv, outs, so = projects.command(rng, pr, "obj")
            argv = argv + ["-fdump-ir=ir.dot"]; outs = outs + ["/w/ir.dot"]
        else: argv, outs, so = projects.command(rng, pr, mode)
    files = dict(pr["files"])
    for o in outs:
        d = os.path.dirname(o)
        if d != "/w" and not any(p.startswith(d + "/") for p in files): files.setdefault(d, [2, 0o755, ""])
    pre = rng.random() < 0.5 if pre is None else pre
    if pre:
        for k, o in enumerate(outs): files[o] = rng.choice(["", "old contents\n", "stale " * 4000, "\x7fELF\x02\x01\x01" + "\0" * 200, "o" * rng.choice([1, 511, 512, 4095, 4096, 8192]), "x" * 262144])
    return dict(base=pr["base"], files=files, argv=argv, outs=outs, so=so, mode=mode)


def assemble(text):
    """The object the system's assembler makes of an assembly text, or None."""
    with tempfile.TemporaryDirectory() as d:
        q = subprocess.run(["as", "-o", d + "/x.o", "-"], input=text, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if q.returncode: return None
        with open(d + "/x.o", "rb") as f: return f.read()


def compile_objects(ctx, pr, flags=(), gas=()):
    """Objects of a project's sources, compiled by fault-free simulated runs; those whose positions
    are in gas are compiled to assembly by a simulated run and assembled by the system's assembler
    (its objects have symbols for sections, gaps between sections and the headers at the end)."""
    objs = {}
    for i, m in enumerate(pr["mains"]):
        if i in gas:
            r = ctx.sim(pr["base"], pr["files"], [dict(argv=["cc", "-S", m, "-o", "x.s"] + list(flags) + ["-I" + i for i in pr["incs"]] + ["-D" + d for d in pr["defs"]])])
            if r.p["kind"] != "exit" or r.p["code"]: return None
            b = assemble(ctx.outfile("/w/x.s"))
            if b is None: return None
            objs["/w/" + m[:-2] + ".o"] = b.decode("latin-1")
            continue
        r = ctx.sim(pr["base"], pr["files"], [dict(argv=["cc", "-c", m, "-o", "x.o"] + list(flags) + ["-I" + i for i in pr["incs"]] + ["-D" + d for d in pr["defs"]])])
        if r.p["kind"] != "exit" or r.p["code"]: return None
        objs["/w/" + m[:-2] + ".o"] = ctx.outfile("/w/x.o").decode("latin-1")
    return objs


PLAIN = ("argv", "env", "cwd", "out", "err")


class Ref:
    """What a fault-free run of the scenario's command does."""

    def __init__(self, ctx, base, files, proc, outs, which="A"):
        q = {k: proc[k] for k in PLAIN if k in proc}
        self.r = ctx.sim(base, files, [q], which=which, log=True, wantout=True)
        p = self.r.p
        self.kind, self.code = p["kind"], p["code"]
        self.ok = self.kind == "exit" and self.code == 0
        self.states = {o: state(self.r, files, o) for o in outs}
        self.out, self.err = p["out"], p["err"]
        self.stdout, self.stderr = p["stdout"], p["stderr"]
        self.nalloc, self.nsys = p["nalloc"], p["nsys"]
        self.track = FdTrack(self.r.log, 0, proc.get("cwd", "/w"))
        self.ops = self.track.ops


def ref(ctx, sc, k=0, which="A", files=None, argv=None):
    """Cached reference of process k of a scenario."""
    pr = dict(sc["procs"][k])
    if argv: pr["argv"] = argv
    files = sc["files"] if files is None else files
    key = json.dumps([which, sc["base"], sorted(files.items()), {a: pr[a] for a in PLAIN if a in pr}, sc.get("outs")], sort_keys=True)
    import hashlib
    key = hashlib.sha1(key.encode("latin-1", "replace")).digest()
    if key in ctx.refs:
        ctx.refs.move_to_end(key)
        return ctx.refs[key]
    x = Ref(ctx, sc["base"], files, pr, sc.get("outs") or [], which)
    ctx.refs[key] = x
    if len(ctx.refs) > 64: ctx.refs.popitem(last=False)
    return x


def state(r, files, path):
    """('absent',) / ('prior',) untouched / ('same', size, hash) rewritten with the old contents / ('new', size, hash)"""
    if path in r.files:
        st, mode, size, h = r.files[path]
        if st == "d": return ("absent",)
        return ("same" if st == "s" else "new", size, h)
    return ("prior",) if path in files else ("absent",)


def same_content(a, b):
    """Whether two states hold the same bytes (both rewritten)."""
    return a[0] in ("same", "new") and b[0] in ("same", "new") and a[1:] == b[1:]


def complete(r, files, rf, outs):
    """The outputs that do not hold the reference's contents."""
    bad = []
    for o in outs:
        s = state(r, files, o)
        if not same_content(s, rf.states[o]) and not (s == ("prior",) and rf.states[o][0] in ("same", "prior")):
            bad.append((o, s, rf.states[o]))
    return bad


OPENW_ERR = ["EACCES", "ENOSPC", "EMFILE", "EROFS", "EIO", "EINTR", "ENFILE", "EDQUOT", "EPERM", "EISDIR", "EBUSY", "ELOOP", "ENOMEM", "ENXIO"]
WRITE_ERR = ["ENOSPC", "EIO", "EDQUOT", "EFBIG", "EINTR", "ENOMEM", "EPIPE", "EPERM", "EAGAIN"]
CLOSE_ERR = ["EIO", "ENOSPC", "EDQUOT", "EINTR"]
READ_ERR = ["EIO", "EINTR", "ESTALE", "EISDIR", "EAGAIN", "ENOMEM"]
OPENR_ERR = ["EACCES", "EMFILE", "ENFILE", "EIO", "EINTR", "ELOOP", "ENOMEM", "EPERM", "ESTALE", "EOVERFLOW", "ENXIO"]
SEEK_ERR = ["EIO", "EINVAL", "EOVERFLOW", "ESTALE"]
STAT_ERR = ["EIO", "ENOMEM", "EOVERFLOW", "EACCES"]
REMOVE_ERR = ["EACCES", "EPERM", "EIO", "EROFS", "EBUSY"]


def write_fault(rng, op):
    """A fault for one operation on the output side."""
    i, name, cls, path, rec = op
    n = rec[6]
    if name == "open": return [[i, "err", ERR[rng.choice(OPENW_ERR)]]]
    if name in ("write", "writev", "pwrite"):
        k = rng.random()
        if k < 0.45: return [[i, "err", ERR[rng.choice(WRITE_ERR)]]]
        cut = rng.choice([0, 1, 7, 16, n // 2, n - 1, rng.randrange(max(1, n))]) if n > 0 else 1
        if k < 0.65: return [[i, "short", max(1, cut)]]
        return [[i, "short", max(1, cut)], [i + 1, "err", ERR[rng.choice(WRITE_ERR)]]]
    if name == "close":
        if rng.random() < 0.6: return [[i, "lose", ERR[rng.choice(CLOSE_ERR)], rng.choice([0, 1, 64, 100, 512, 4096, 1 << 30])]]
        return [[i, "err", ERR[rng.choice(CLOSE_ERR)]]]
    if name == "lseek": return [[i, "err", ERR[rng.choice(SEEK_ERR)]]]
    if name == "fstat" or name == "stat": return [[i, "err", ERR[rng.choice(STAT_ERR)]]]
    if name in ("rename", "unlink"): return [[i, "err", ERR[rng.choice(REMOVE_ERR)]]]
    return [[i, "err", ERR["EIO"]]]


def read_fault(rng, op, trunc=True):
    i, name, cls, path, rec = op
    n = rec[6]
    if name == "open": return [[i, "err", ERR[rng.choice(OPENR_ERR)]]]
    if name in ("read", "readv", "pread"):
        k = rng.random()
        if k < 0.45: return [[i, "err", ERR[rng.choice(READ_ERR)]]]
        cut = rng.choice([1, 2, n // 2, n - 1, rng.randrange(max(1, n))]) if n > 1 else 1
        if k < 0.60: return [[i, "short", max(1, cut)]]
        if k < 0.75: return [[i, "short", max(1, cut)], [i + 1, "err", ERR[rng.choice(READ_ERR)]]]
        if trunc: return [[i, "trunc", rng.choice([0, max(0, cut), max(0, n - 1)])]]
        return [[i, "err", ERR["EIO"]]]
    if name == "lseek": return [[i, "err", ERR[rng.choice(SEEK_ERR)]]]
    if name in ("fstat", "stat"): return [[i, "err", ERR[rng.choice(STAT_ERR)]]]
    if name == "close": return [[i, "err", ERR["EIO"]]]
    return [[i, "err", ERR["EIO"]]]


def any_fault(rng, op):
    return write_fault(rng, op) if op[2] in ("out", "stdout", "stderr") else read_fault(rng, op)


def rand_env(rng):
    e = {"TZ": "UTC0"}
    pool = dict(LANG=["C", "de_DE.UTF-8", ""], LC_ALL=["C", "tr_TR.UTF-8", "POSIX"], HOME=["/", "/root"], PATH=["", "/bin:/usr/bin"], CPATH=["/w/inc", ":"], C_INCLUDE_PATH=["/usr/include"],
                TMPDIR=["/tmp", "/nonexistent"], SOURCE_DATE_EPOCH=["0", "1234567890"], PWD=["/w", "/elsewhere"], COLUMNS=["1"], TERM=["dumb"], POSIXLY_CORRECT=["1"], CC=["gcc"], CFLAGS=["-O3"],
                DEPENDENCIES_OUTPUT=["x.d"], LIBRARY_PATH=["."], INCLUDE=["."], XX=["y" * 3000], MALLOC_PERTURB_=["165"], OLDPWD=["/"], USER=["u"])
    for k in sorted(pool):
        if rng.random() < 0.3: e[k] = rng.choice(pool[k])
    if rng.random() < 0.6: e["SIM_ENVSEED"] = "%d" % rng.randrange(1 << 20)   # and whatever else the compiler asks for
    return e


def rand_heap(rng):
    return [rng.choice([0, 1, 1, 2, 2, 3, 4, 4]), rng.randrange(1 << 30), rng.choice([0, 1, 2, 3, 4, 4, 5])]


def rand_stack(rng):
    return [rng.randrange(0, 1 << 18), rng.randrange(1, 1 << 30) if rng.random() < 0.8 else 0]
