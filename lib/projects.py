"""Workloads: small C projects, the repository's tests and its own sources."""
import os
from gen_c import Gen, FEATURES
from rich import rich
import sim1


def gen_project(rng, nmain=None, size=1.0, dirs=True):
    """A generated multi-file project.
    Returns dict(files={path: text}, mains=[relative .c paths], incs=[-I dirs], defs=[...])."""
    files = {}
    incs = []
    ndirs = rng.randrange(0, 4) if dirs else 0
    for i in range(ndirs):
        incs.append(rng.choice(["inc%d", "lib/inc%d", "a/b/c%d"]) % i)
    hdrs = []      # (spelling, quoted?)
    g = Gen(rng, size=size)
    # headers with macros, types and inline data, including each other
    for i in range(rng.randrange(0, 5)):
        where = rng.choice([""] + incs)
        name = "h%d.h" % i
        path = os.path.join(where, name)
        lines = []
        guard = rng.random()
        if guard < 0.6: lines += ["#ifndef G%d_H" % i, "#define G%d_H" % i]
        elif guard < 0.8: lines.append("#pragma once")
        if hdrs and rng.random() < 0.5:
            h = rng.choice(hdrs)
            if h[1] == where or h[1] != "": lines.append('#include "%s"' % h[0] if h[1] == where or rng.random() < .5 else "#include <%s>" % h[0])
        save = len(g.out)
        if "macros" in g.f:
            for _ in range(rng.randrange(1, 4)): lines += g.macro()
        if "structs" in g.f and guard < 0.8:
            for _ in range(rng.randrange(0, 3)): lines += g.struct()
        if rng.random() < 0.5: lines.append("/* %s */" % ("pad " * rng.choice([1, 10, 300, 1200])))
        if rng.random() < 0.4: lines += ["#if defined(X%d) && X%d > 2" % (i, i), "extern int in_h%d;" % i, "#else", "extern long in_h%d;" % i, "#endif"]
        if guard < 0.6: lines.append("#endif")
        files[path] = "\n".join(lines) + ("\n" if rng.random() < 0.95 else "")
        hdrs.append((name, where))
    n = nmain if nmain is not None else rng.choice([1, 1, 1, 2, 3])
    mains = []
    for k in range(n):
        sub = rng.choice(["", "", "s/"]) if dirs else ""
        path = "%sm%d.c" % (sub, k)
        lines = []
        for name, where in hdrs:
            if rng.random() < 0.8 and (where != "" or sub == ""):
                lines.append('#include "%s"' % name if rng.random() < 0.6 or where == "" else "#include <%s>" % name)
        gm = Gen(rng, size=size, features=set(g.f), prefix="t%d_" % k)
        # use macros and types only of headers that are surely included
        text = gm.tu()
        text += gm.checksum("chk%d" % k)
        if rng.random() < 0.4:
            t = rich(rng, "t%d_" % k, rng.choice([1, 2, 3, 5, 8]))
            text = t + text if rng.random() < 0.5 else text + t
        if k == 0: text += "int main(void) { return (int)chk0(); }\n"
        if rng.random() < 0.2: text += "const char *fn%d = __FILE__; int ln%d = __LINE__;\n" % (k, k)
        files[path] = "\n".join(lines) + "\n" + text
        mains.append(path)
    defs = ["X%d=%d" % (rng.randrange(5), rng.randrange(6)) for _ in range(rng.randrange(0, 3))]
    return dict(files={"/w/" + p: t for p, t in files.items()}, mains=mains, incs=incs, defs=defs, base="min")


_names = None


def repo_project(rng, big=False):
    """One of the repository's own tests, or (big) one of its sources."""
    global _names
    if _names is None:
        t = sorted(p[3:] for p in sim1.std_files() if p.startswith("/w/tests/") and p.endswith(".c") and "should_fail" not in p)
        s = sorted(p[3:] for p in sim1.std_files() if p.startswith("/w/src/") and p.endswith(".c"))
        _names = (t, s)
    if big and _names[1]:
        return dict(files={}, mains=[rng.choice(_names[1])], incs=["src", "."], defs=['CONFIG_PATH="config.h"'], base="std")
    return dict(files={}, mains=[rng.choice(_names[0])], incs=[], defs=[], base="std")


def any_project(rng, p_repo=0.15, p_big=0.02, **kw):
    k = rng.random()
    if k < p_big: return repo_project(rng, True)
    if k < p_big + p_repo: return repo_project(rng)
    return gen_project(rng, size=rng.choice([0.4, 1.0, 1.0, 2.0, 4.0]), **kw)


MODES = ["obj", "objdef", "asm", "asmdef", "pp", "ms", "msasm", "md", "mdmf", "mdasm", "large"]


def command(rng, pr, mode, main=None):
    """Returns (argv, outputs, stdout_is_output) for a single-file command."""
    m = main or pr["mains"][0]
    base = os.path.basename(m)[:-2]
    argv = ["cc"]
    flags = []
    for i in pr["incs"]: flags.append("-I" + i) if rng.random() < 0.7 else flags.extend(["-I", i])
    for d in pr["defs"]: flags.append("-D" + d)
    if rng.random() < 0.2: flags.append("-Wall")
    if rng.random() < 0.1: flags.append("-O2")
    if rng.random() < 0.1: flags.append("-std=c11")
    outs, so = [], False
    o = rng.choice(["out.o", "build/x.o", "/w/abs.o", "long-name-of-the-output.o"])
    op = lambda p: p if p.startswith("/") else "/w/" + p
    if mode in ("obj", "large", "ms"):
        flags += ["-c", "-o", o]; outs = [op(o)]
        if mode == "ms": flags.append("-fabi=ms")
        if mode == "large": flags.append("-fcmodel=large")
    elif mode == "objdef": flags.append("-c"); outs = ["/w/%s.o" % base]
    elif mode in ("asm", "msasm"):
        s = o[:-2] + ".s"; flags += ["-S", "-o", s]; outs = [op(s)]
        if mode == "msasm": flags.append("-fabi=ms")
    elif mode == "asmdef": flags.append("-S"); outs = ["/w/%s.s" % base]
    elif mode == "pp":
        flags.append("-E"); so = True
        if rng.random() < 0.4:
            i = o[:-2] + ".i"; flags += ["-o", i]; outs = [op(i)]; so = False
        if rng.random() < 0.2: flags.append("-MD"); outs = outs + ["/w/%s.d" % base]
    elif mode == "md": flags += ["-c", "-MD", "-o", o]; outs = [op(o), op(o[:-2] + ".d")]
    elif mode == "mdmf":
        flags += ["-MD", "-c", "-o", o, "-MF", "deps.mk"]; outs = [op(o), "/w/deps.mk"]
        if rng.random() < 0.5: flags += ["-MT", "some-target"]
    elif mode == "mdasm":
        s = o[:-2] + ".s"; flags += ["-MD", "-S", "-o", s]; outs = [op(s), op(s[:-2] + ".d")]
    elif mode == "exe":
        flags += ["-o", "prog"] if rng.random() < 0.7 else []
        outs = ["/w/prog" if flags[-1:] == ["prog"] else "/w/a.out"]
    if rng.random() < 0.5: argv += flags + [m]
    else: argv += [m] + flags
    return argv, outs, so


def link_project(rng, n=None):
    """Sources that the built-in linker can link: no library, entry _start."""
    n = n or rng.randrange(1, 4)
    files = {}
    mains = []
    feats = {f for f in FEATURES if rng.random() < 0.5} - {"floats"}
    chks = []
    for k in range(n):
        g = Gen(rng, size=rng.choice([0.5, 1.0]), features=feats, prefix="t%d_" % k)
        t = g.tu() + g.checksum("chk%d" % k)
        if rng.random() < 0.4: t += rich(rng, "t%d_" % k, rng.choice([1, 2, 4, 7]), link=True)
        if rng.random() < 0.1:   # far apart: references over more than 15 bits
            t = "unsigned char t%d_far[%d] = { 1 };\n" % (k, rng.choice([33000, 70000, 140000])) + t if rng.random() < 0.6 else \
                "int t%d_farc(int x) { %s return x; }\n" % (k, "".join("x = x * %d + (x >> %d); " % (j + 3, j % 9) for j in range(1500))) + t
        chks.append("chk%d" % k)
        files["/w/l%d.c" % k] = t
        mains.append("l%d.c" % k)
    files["/w/l0.c"] += "".join("unsigned long %s(void);\n" % c for c in chks[1:])
    files["/w/l0.c"] += "unsigned long _start(void) { return %s; }\n" % " ^ ".join("%s()" % c for c in chks)
    return dict(files=files, mains=mains, incs=[], defs=[], base="min")
