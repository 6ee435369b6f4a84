"""Properties decided with SIM-1, the compiler in a simulated operating system."""
import os, random, re, struct, subprocess
import projects, sim1, work
from engine import Prop, fired, h64
from gen_c import Gen, FEATURES
from sim1 import ERR, ERRNAME, SimError, FdTrack, numbered
from work import (workload, ref, state, same_content, complete, write_fault, read_fault, any_fault, rand_env, rand_heap, rand_stack, small)

READS = ("read", "readv", "pread")
WRITES = ("write", "writev", "pwrite")


def scen(w, proc, **kw):
    """Scenario of one process on workload w."""
    q = dict(argv=w["argv"], budget=work.BUDGET); q.update(proc)
    s = dict(base=w["base"], files=w["files"], outs=w["outs"], so=w["so"], mode=w["mode"], procs=[q]); s.update(kw)
    return s


def run(ctx, sc, **kw):
    return ctx.sim(sc["base"], sc["files"], sc["procs"], quota=sc.get("quota"), **kw)


def text(s, n=300):
    return s if len(s) <= n else "..." + s[-n:]


def describe(q):
    return "exit status %d" % q["code"] if q["kind"] == "exit" else "%s %d" % (q["kind"], q["code"])


def faulted_std(sc, rf_r, k=0):
    """Whether the scenario breaks the process's own standard output or error."""
    q = sc["procs"][k]
    if q.get("out") in ("full", "null") or q.get("err") in ("full",): return True
    idx = {f[0] for f in q.get("faults", [])}
    for i, rec in numbered(rf_r.log, k):
        if i in idx and rec[2] and rec[1] in WRITES + ("close", "fstat") and rec[3] in (1, 2): return True
    return False


class C01(Prop):
    id = "C01"; title = "exit 0 means every output is complete"; level = "exploration"
    budget = dict(quick=(4500, 240.0), thorough=(400000, 800.0))
    rule = ("a case is a generated or repository program, a command form (object, assembly, COFF, dependency file, preprocess to stdout, link, several files) and 10 fault plans on the output side "
            "(open/write/short write/close/lost write-back/seek errors at an operation the fault-free run performs, disk quota, full or closed standard output, persistent errors); "
            "non-trivial when at least one configured fault actually fired")

    def cases(self, ctx, rng):
        w = workload(rng, ctx)
        sc0 = scen(w, {})
        yield sc0
        rf = ref(ctx, sc0)
        if not rf.ok: return
        ops = [o for o in rf.ops if o[2] == "out" or (w["so"] and o[2] == "stdout")]
        total = sum(o[4][6] for o in ops if o[1] in WRITES and o[2] == "out")
        for _ in range(10):
            p, kw = {}, {}
            k = rng.random()
            if ops and k < 0.62:
                # the last operations (flush at close, exit) deserve most attention
                op = ops[-1 - min(len(ops) - 1, int(rng.expovariate(0.5)))] if rng.random() < 0.5 else rng.choice(ops)
                p["faults"] = write_fault(rng, op)
                if rng.random() < 0.1: p["faults"] += write_fault(rng, rng.choice(ops))
            elif k < 0.80 and total: kw["quota"] = rng.choice([0, 1, rng.randrange(total), total - 1, total // 2, max(0, total - 4096)])
            elif k < 0.86 and ops: p["sticky"] = [[rng.choice(["openw", "write", "close", "seek"]), rng.choice(ops)[0], ERR[rng.choice(work.WRITE_ERR)]]]
            elif k < 0.94 and w["so"]: p["out"] = "full"
            else: p["chunk"] = rng.randrange(1, 1 << 30)
            if rng.random() < 0.15: p["chunk"] = rng.randrange(1, 1 << 30)
            yield scen(w, p, **kw)

    def judge(self, ctx, sc):
        rf = ref(ctx, sc)
        q0 = sc["procs"][0]
        if not rf.ok: return None
        missing = [o for o in sc["outs"] if rf.states[o][0] not in ("new", "same")]
        if missing: return dict(kind="output-not-written", what="the command succeeds without any fault but does not write %s" % ", ".join(missing), argv=q0["argv"])
        if not any(k in q0 for k in ("faults", "sticky", "out", "chunk")) and sc.get("quota") is None: return None
        r = run(ctx, sc)
        q = r.p
        if fired(q) or q0.get("out") == "full": ctx.nontrivial(r)
        if q["kind"] != "exit" or q["code"] != 0: return None
        bad = complete(r, sc["files"], rf, sc["outs"])
        if sc["so"] and q["out"] != rf.out and q0.get("out", "file") != "null": bad.append(("standard output", q["out"], rf.out))
        if bad:
            return dict(kind="silent-loss", what="exit status 0 although %s is not what a fault-free run writes" % ", ".join(b[0] for b in bad),
                        argv=q0["argv"], faults=q0.get("faults"), got=str(bad[0][1]), want=str(bad[0][2]))
        return None


class C02(Prop):
    id = "C02"; title = "no read fault becomes a successful compile of other text"
    budget = dict(quick=(4500, 240.0), thorough=(400000, 800.0))
    rule = ("a case is a program with its include graph and a command form, and 10 fault plans on the input side (errors and short counts of open, read, seek and stat on sources, headers and objects; "
            "a file cut by someone else between its size being taken and its being read; persistent errors; random splitting of reads), mostly with fresh memory that holds zeros, newlines, semicolons or whatever was there before; non-trivial when a configured fault actually fired")

    def cases(self, ctx, rng):
        w = workload(rng, ctx)
        sc0 = scen(w, {})
        rf = ref(ctx, sc0)
        if not rf.ok: return
        ops = [o for o in rf.ops if o[2] == "in" and not (o[1] == "open" and o[4][6] < 0)]
        if not ops: return
        reads = [o for o in ops if o[1] in READS] or ops
        for _ in range(10):
            p = {}
            k = rng.random()
            if k < 0.85:
                p["faults"] = read_fault(rng, rng.choice(reads if rng.random() < 0.6 else ops))
                if rng.random() < 0.1: p["faults"] += read_fault(rng, rng.choice(ops), trunc=False)
            elif k < 0.93: p["sticky"] = [[rng.choice(["read", "seek", "stat", "openr"]), rng.choice(ops)[0], ERR[rng.choice(work.READ_ERR)]]]
            else: p["chunk"] = rng.randrange(1, 1 << 30)
            if rng.random() < 0.15: p["chunk"] = rng.randrange(1, 1 << 30)
            # memory that was never written to often reads as something that compiles
            if rng.random() < 0.6: p["heap"] = [rng.choice([0, 1, 2, 3, 4]), rng.randrange(1 << 30), rng.choice([0, 0, 5, 6, 6, 7])]
            yield scen(w, p)

    def judge(self, ctx, sc):
        rf = ref(ctx, sc)
        q0 = sc["procs"][0]
        if not rf.ok: return None
        r = run(ctx, sc, log=True)
        q = r.p
        if fired(q): ctx.nontrivial(r)
        if q["kind"] != "exit" or q["code"] != 0: return None
        bad = complete(r, sc["files"], rf, sc["outs"])
        if sc["so"] and q["out"] != rf.out: bad.append(("standard output", q["out"], rf.out))
        if not bad: return None
        # files that were cut while being read may count as what was left of them
        tr = FdTrack(r.log, 0, q0.get("cwd", "/w"))
        cut, opens = {}, {}
        for i, name, cls, path, rec in tr.ops:
            if name == "open" and rec[6] >= 0: opens[path] = opens.get(path, 0) + 1
            if rec[2] == 3 and name in READS: cut[path] = True
        if cut:
            files = dict(sc["files"])
            for p in cut:
                if opens.get(p, 0) != 1: return None
                whole = ctx_file(ctx, sc, p)
                st = r.files.get(p)
                files[p] = whole[:st[2]] if st else whole
            alt = ref(ctx, sc, files=files)
            if alt.ok and not complete(r, files, alt, sc["outs"]) and (not sc["so"] or q["out"] == alt.out): return None
        return dict(kind="compiled-other-text", what="exit status 0 after a fault on an input, but %s differs from the fault-free run%s" % (", ".join(b[0] for b in bad), " and from a run on the shortened file" if cut else ""),
                    argv=q0["argv"], faults=q0.get("faults"), got=str(bad[0][1]), want=str(bad[0][2]))


def ctx_file(ctx, sc, path):
    v = sc["files"].get(path)
    if v is None: v = sim1.Server.STD[path][2].decode("latin-1") if sc["base"] == "std" and path in sim1.Server.STD else ""
    return v[2] if isinstance(v, (list, tuple)) else v


BAD_SNIPS = ["int f( { }", "int x = ;", "#include \"nowhere.h\"", "struct { int a", "int g(void) { return 1 }", "#error stop", "#if 1\nint a;", "int h(void) { undeclared_name++; }", "}", "int a[3;", "#include <absent/none.h>",
             "int q(void) { goto; }", "char *s = \"abc", "typedef int;;= 3", "int z = 08x;", "@", "int main(void) { if (1 }",
             "#if 0", "#ifdef NOPE\n#if 1\n#else", "#if 0\n#elif 0", "#endif", "#else", "#elif 1", "#if", "#ifdef", "#define", "#define 3", "#define F(", "#define F(x", "#define F(x,", "#undef", "#include \"", "#include <", "#if 1 +", "#if (", "#if 1/0",
             "#line", "#line x", "#pragma", "#pragma pack(", "#frob", "/* no end", "'", "int c = 'ab", "#define F(x) #y\nF(1)", "#define A(x, y) x\nint z = A(1);", "#define A(x) x\nint z = A(1, 2);", "#define A(x) x\nint z = A(1", "#define E E\n#if E\n#endif", "# 12", "_Pragma(", "#error",
             "#define C(a, b) a ## b\nint v = C(+, /);", "#define H ## x", "#define H(x) x ##", "#if defined", "#if defined(", "#if 1 ? 2", "#if 0x", "#if 1 2", "#if \"a\"", "#if 1.5", "int v = _Generic(1, char: 2);", "_Static_assert(0, \"no\");", "_Static_assert(", "int w[] = { [1 } ;", "long double complex q;"]


def break_source(rng, w, argv_main):
    """Makes the main source invalid; returns new files."""
    files = dict(w["files"])
    p = argv_main if argv_main.startswith("/") else "/w/" + argv_main
    t = files.get(p)
    if not isinstance(t, str): return None
    lines = t.split("\n")
    k = rng.random()
    if k < 0.6: lines.insert(rng.randrange(len(lines) + 1), rng.choice(BAD_SNIPS))
    elif k < 0.8: return dict(files, **{p: t[:rng.randrange(len(t) + 1)]})
    else:
        i = rng.randrange(len(lines)); l = lines[i]
        if l:
            j = rng.randrange(len(l)); lines[i] = l[:j] + rng.choice(["", ";", ")", "{", "@", "#", "\\", "\"", "0x"]) + l[j + 1:]
    return dict(files, **{p: "\n".join(lines)})


def main_of(argv):
    return [a for a in argv[1:] if a.endswith((".c", ".o")) and not a.startswith("-")]


class C03(Prop):
    id = "C03"; title = "any failing call or allocation ends in a clean, diagnosed failure"
    budget = dict(quick=(5500, 240.0), thorough=(400000, 800.0))
    rule = ("a case is a program (valid, invalid or truncated), a command form and 12 plans mixing failing system calls of every kind at any call of the run, failing allocations (one, several, all from the n-th on, "
            "all beyond a byte limit), descriptor limits, quotas and full devices; non-trivial when a fault fired; a run may take at most 4 million calls and 10 s of processor time")

    def cases(self, ctx, rng):
        w = workload(rng, ctx)
        if rng.random() < 0.25:
            m = main_of(w["argv"])
            f = break_source(rng, w, m[-1]) if m and m[-1].endswith(".c") else None
            if f: w = dict(w, files=f)
        if rng.random() < 0.06: w = dict(w, argv=odd_argv(rng, w))
        sc0 = scen(w, {})
        rf = ref(ctx, sc0)
        yield sc0
        ops = rf.ops
        for _ in range(12):
            p, kw = {}, {}
            k = rng.random()
            if k < 0.40 and ops:
                op = rng.choice(ops)
                p["faults"] = any_fault(rng, op)
                if rng.random() < 0.2: p["faults"] += any_fault(rng, rng.choice(ops))
            elif k < 0.75 and rf.nalloc:
                n = min(rf.nalloc, 400) if rng.random() < 0.4 else rf.nalloc
                m = rng.random()
                if m < 0.6: p["allocfail"] = [rng.randrange(n)]
                elif m < 0.75: p["allocfail"] = sorted(rng.randrange(n) for _ in range(3))
                elif m < 0.9: p["allocsticky"] = rng.randrange(n)
                else: p["allocmax"] = rng.choice([1000, 10000, 100000, 1000000])
                if rng.random() < 0.15 and ops: p["faults"] = any_fault(rng, rng.choice(ops))
            elif k < 0.82: p["maxfd"] = rng.choice([3, 3, 4, 5])
            elif k < 0.89: kw["quota"] = rng.choice([0, 1, 63, 64, 100, 1000, 5000])
            elif k < 0.96 and ops: p["sticky"] = [[rng.choice(["openw", "openr", "write", "read", "close", "seek", "stat"]), rng.choice(ops)[0], ERR[rng.choice(["EIO", "ENOSPC", "EINTR", "EMFILE", "ENOMEM"])]]]
            else: p["out"] = rng.choice(["full", "null", "pipe", "tty"])
            if rng.random() < 0.2: p["heap"] = rand_heap(rng)
            yield scen(w, p, **kw)

    def judge(self, ctx, sc):
        r = run(ctx, sc, log=True, wantout=True)
        q = r.p
        q0 = sc["procs"][0]
        if fired(q): ctx.nontrivial(r)
        info = dict(argv=q0["argv"], faults=q0.get("faults"), stdout=text(q.get("stdout", "")), stderr=text(q.get("stderr", "")))
        if q["kind"] == "signal": return dict(kind="signal", what="the compiler died from signal %d (at %s)" % (q["code"], q["rip"]), **info)
        if q["kind"] == "heap": return dict(kind="heap", what="invalid use of the allocator (code %d)" % q["code"], **info)
        if q["kind"] in ("budget", "cpu"): return dict(kind="hang", what="the compiler did not stop within its budget (%s, %d calls)" % (q["kind"], q["nsys"]), **info)
        if q["kind"] != "exit": return None
        if q["code"] not in (0, 1): return dict(kind="status", what="exit status %d" % q["code"], **info)
        if q["code"] == 1 and not faulted_std(sc, r):
            said = q["stdout"] + q["stderr"]
            if sc.get("so") and not q["stderr"]:
                # the preprocessed text alone is not a diagnostic
                rf = ref(ctx, sc)
                if rf.stdout.startswith(q["stdout"]) and rf.ok: said = ""
            if not said.replace("Warning! Emitting executables is still work in progress.\n", "").strip():
                return dict(kind="silent-failure", what="exit status 1 without any message", **info)
        if q["code"] == 0 and not any(f[1] in ("trunc",) for f in q0.get("faults", [])) and "allocmax" not in q0:
            rf = ref(ctx, sc)
            if rf.ok and q0.get("out") in (None, "pipe") and (q0.get("allocfail") or q0.get("allocsticky") is not None):
                bad = complete(r, sc["files"], rf, sc["outs"])
                if bad or (sc["so"] and q["out"] != rf.out):
                    return dict(kind="partial-success", what="exit status 0 after a failed allocation, but an output differs from the fault-free run", **info)
        return None


def odd_argv(rng, w):
    a = list(w["argv"])
    k = rng.randrange(5)
    if k == 0: return [x for x in a if x not in main_of(a)] or a
    if k == 1: return a + ["missing.c"]
    if k == 2: return [x if not x.endswith(".c") or x.startswith("-") else "none/" + x for x in a]
    if k == 3: return a + ["-I", "m0.c"]
    return a + ["-o", "no/such/dir/x.o"] if "-c" in a or "-S" in a else a + ["."]


class C04(Prop):
    id = "C04"; title = "only named outputs change; rejected sources leave them alone"
    budget = dict(quick=(4500, 240.0), thorough=(400000, 800.0))
    rule = ("a case is a command with and without existing outputs, run 8 times under mixed faults (all kinds, allocation failures, kills at any call), checking every path of the simulated file system, "
            "plus 4 variants whose source is broken (syntax error, missing or unreadable header, unreadable or truncated source), checking that no output was touched; non-trivial when a fault fired or the source was rejected")

    def cases(self, ctx, rng):
        w = workload(rng, ctx)
        sc0 = scen(w, {})
        rf = ref(ctx, sc0)
        yield sc0
        for _ in range(8 if rf.ok else 2):
            p, kw = {}, {}
            k = rng.random()
            if k < 0.6 and rf.ops:
                p["faults"] = [f for f in any_fault(rng, rng.choice(rf.ops)) if f[1] != "trunc"]
                if rng.random() < 0.3: p["faults"] += [f for f in any_fault(rng, rng.choice(rf.ops)) if f[1] != "trunc"]
            elif k < 0.75 and rf.nalloc: p["allocfail"] = [rng.randrange(rf.nalloc)]
            elif k < 0.85: p["faults"] = [[rng.randrange(rf.nsys + 1), "crash", rng.choice([0, 1, 100])]]
            elif k < 0.95: kw["quota"] = rng.choice([0, 10, 1000])
            else: p["maxfd"] = rng.choice([3, 4])
            yield scen(w, p, **kw)
        if w["mode"] in ("multi", "multis", "link"): return
        m = main_of(w["argv"])
        for _ in range(4):
            f = None
            if rng.random() < 0.7 and m:
                f = break_source(rng, w, m[-1])
                if f: yield scen(dict(w, files=f), {}, rejected=True)
            elif rf.ops:
                ins = [o for o in rf.ops if o[2] == "in" and o[1] == "open" and o[4][6] >= 0]
                if ins: yield scen(w, dict(faults=[[rng.choice(ins)[0], "err", ERR[rng.choice(["EACCES", "EIO", "EMFILE"])]]]), rejected=True)

    def judge(self, ctx, sc):
        r = run(ctx, sc, wantout=True)
        q = r.p
        q0 = sc["procs"][0]
        if fired(q) or (sc.get("rejected") and q["kind"] == "exit" and q["code"]): ctx.nontrivial(r)
        wrong = sorted(p for p in r.files if p not in sc["outs"])
        if wrong: return dict(kind="other-file-changed", what="the run changed %s, which its command line does not name as an output (%s)" % (", ".join(wrong), describe(q)), argv=q0["argv"], faults=q0.get("faults"))
        if sc.get("rejected") and q["kind"] == "exit" and q["code"] != 0 and not codegen_error(q):
            t = [p for p in sc["outs"] if p in r.files and r.files[p][0] != "s"]
            if t: return dict(kind="output-touched", what="the source was rejected but %s was changed" % ", ".join(t), argv=q0["argv"], stdout=text(q["stdout"]))
        return None


def codegen_error(q):
    """A failure raised while or after generating code (not a rejection of the source)."""
    return bool(re.search(r"src/(codegen|assembler|linker|abi|arch|ir|optimize)/", q["stdout"] + q["stderr"]))


class C05(Prop):
    id = "C05"; title = "a failed run leaves no partial output"
    budget = dict(quick=(3750, 240.0), thorough=(400000, 800.0))
    rule = ("a case is a command with and without existing outputs and 10 fault plans chosen to make it fail once outputs are open (write-side faults, quotas, allocation failures late in the run, a later input failing, "
            "code generation errors); non-trivial when the run ended with a non-zero status after a fault fired")

    def cases(self, ctx, rng):
        w = workload(rng, ctx)
        if rng.random() < 0.15 and w["mode"] in ("asm", "asmdef", "mdasm", "multis"):
            # a construct the code generator does not support, after valid functions
            m = main_of(w["argv"])[-1]
            p = "/w/" + m
            if isinstance(w["files"].get(p), str):
                w = dict(w, files=dict(w["files"], **{p: w["files"][p] + rng.choice(CODEGEN_FAIL)}))
        sc0 = scen(w, {})
        rf = ref(ctx, sc0)
        yield sc0
        if not rf.ok: return
        outops = [o for o in rf.ops if o[2] == "out"]
        total = sum(o[4][6] for o in outops if o[1] in WRITES)
        first = min([o[0] for o in outops], default=0)
        for _ in range(10):
            p, kw = {}, {}
            k = rng.random()
            if k < 0.5 and outops:
                p["faults"] = write_fault(rng, rng.choice(outops))
                if rng.random() < 0.15: p["faults"] += [f for f in any_fault(rng, rng.choice(rf.ops)) if f[1] != "trunc"]
            elif k < 0.7 and total: kw["quota"] = rng.choice([0, 1, rng.randrange(total), rng.randrange(total), total - 1, max(0, total - 4096)])
            elif k < 0.82 and rf.nalloc:
                p["allocfail"] = [max(0, rf.nalloc - 1 - int(rng.expovariate(1 / 60.0)))] if rng.random() < 0.6 else [rng.randrange(rf.nalloc)]
            elif k < 0.88 and outops: p["sticky"] = [[rng.choice(["write", "openw", "close", "openr", "read"]), rng.choice(outops)[0], ERR[rng.choice(["EIO", "ENOSPC", "EDQUOT"])]]]
            else:
                late = [o for o in rf.ops if o[0] > first and o[2] == "in"] or rf.ops
                p["faults"] = [f for f in any_fault(rng, rng.choice(late)) if f[1] != "trunc"]
            yield scen(w, p, **kw)

    def judge(self, ctx, sc):
        rf = ref(ctx, sc)
        r = run(ctx, sc, wantout=True, log=True)
        q = r.p
        q0 = sc["procs"][0]
        if q["kind"] != "exit" or q["code"] == 0: return None
        if fired(q): ctx.nontrivial(r)
        # a second fault that hits the removal itself leaves nothing the compiler could still do
        if any(rec[2] and rec[1] in ("stat", "unlink", "rename", "access") for rec in r.log): return None
        bad = []
        for o in sc["outs"]:
            s = state(r, sc["files"], o)
            if s[0] in ("absent", "prior", "same"): continue
            if rf.ok and same_content(s, rf.states[o]): continue
            bad.append((o, s, rf.states[o]))
        if bad and not rf.ok:
            # a later file fails by itself: what the files before it write is complete
            ms = main_of(q0["argv"])
            for k in range(1, len(ms)):
                drop = set(ms[k:])
                pre = ref(ctx, sc, argv=[a for a in q0["argv"] if a not in drop])
                if not pre.ok: break
                bad = [b for b in bad if not same_content(b[1], pre.states[b[0]])]
            # the graph is written in full before code is generated
            bad = [b for b in bad if not (b[0].endswith(".dot") and graph_complete(ctx.outfile(b[0])))]
        if bad:
            return dict(kind="partial-output", what="%s left %s in place, holding %d bytes that are neither the old contents nor a complete output" % (describe(q), bad[0][0], bad[0][1][1]),
                        argv=q0["argv"], faults=q0.get("faults"), stdout=text(q["stdout"]))
        return None


def graph_complete(data):
    return data.startswith(b"digraph") and data.endswith(b"}\n") and data.count(b"{") == data.count(b"}")


CODEGEN_FAIL = ["\nlong double cg_ld(long double a) { return a * 2; }\n", "\nstruct cg_s { float a; double b; long c; }; struct cg_t { double a; int b; }; struct cg_t cg_f(struct cg_t x) { struct cg_t y = x; return y; }\n",
                "\nint cg_v(int n, ...) { __builtin_va_list ap; __builtin_va_start(ap, n); float f = __builtin_va_arg(ap, float); return f; }\n"]


class C06(Prop):
    id = "C06"; title = "a crash at any instant never affects a later run"; level = "exploration"
    budget = dict(quick=(3000, 240.0), thorough=(400000, 800.0))
    rule = ("a case is a command (with and without existing outputs) and 8 kill plans: the process is killed at a call of the run, or after part of a write reached the file, possibly twice in a row or after another fault; "
            "the file system left behind is the starting point of a fault-free rerun; non-trivial when the kill happened after an output had been opened or changed")

    def cases(self, ctx, rng):
        w = workload(rng, ctx)
        rf = ref(ctx, scen(w, {}))
        if not rf.ok: return
        outops = [o for o in rf.ops if o[2] == "out"] or rf.ops
        if not rf.ops: return
        for _ in range(8):
            crashes = []
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                op = rng.choice(outops) if rng.random() < 0.8 else rng.choice(rf.ops)
                n = op[4][6]
                f = [op[0], "crash", 0]
                if op[1] in WRITES and n > 0: f = [op[0], "crash", rng.choice([0, 1, n - 1, n, rng.randrange(n + 1), rng.randrange(n + 1)])]
                pl = dict(faults=[f])
                if rng.random() < 0.1: pl["faults"] = [x for x in any_fault(rng, rng.choice(rf.ops)) if x[1] != "trunc"] + [f]
                if rng.random() < 0.2: pl["chunk"] = rng.randrange(1, 1 << 30)
                crashes.append(pl)
            yield scen(w, {}, crashes=crashes)

    def judge(self, ctx, sc):
        rf = ref(ctx, sc)
        if not rf.ok: return None
        img = None
        touched = False
        for pl in sc["crashes"]:
            q0 = dict(sc["procs"][0]); q0.update(pl)
            r = ctx.sim(sc["base"], sc["files"], [q0], img=img, save=True)
            img = r.saved
            if r.p["kind"] == "crash" and any(o in r.files for o in sc["outs"]): touched = True
        if img is None: return None
        r = ctx.sim(sc["base"], sc["files"], sc["procs"], img=img, wantout=True)
        if touched: ctx.nontrivial(r)
        q = r.p
        if q["kind"] != "exit" or q["code"] != 0:
            return dict(kind="rerun-fails", what="after a kill the same command ends with %s" % describe(q), argv=sc["procs"][0]["argv"], crashes=sc["crashes"], stdout=text(q["stdout"]))
        bad = []
        for o in sc["outs"]:
            s = state(r, {o: ""}, o)
            if not same_content(s, rf.states[o]): bad.append((o, s, rf.states[o]))
        if sc["so"] and q["out"] != rf.out: bad.append(("standard output", q["out"], rf.out))
        if bad:
            return dict(kind="rerun-differs", what="after a kill the same command writes a different %s than on a clean tree" % bad[0][0], argv=sc["procs"][0]["argv"], crashes=sc["crashes"], got=str(bad[0][1]), want=str(bad[0][2]))
        return None

    def idents(self, ctx, sc):
        out, img = [], None
        for pl in sc["crashes"]:
            q0 = dict(sc["procs"][0]); q0.update(pl)
            r = ctx.sim(sc["base"], sc["files"], [q0], img=img, save=True)
            img = r.saved; out.append(r.ident())
        out.append(ctx.sim(sc["base"], sc["files"], sc["procs"], img=img).ident())
        return out

    def reductions(self, sc):
        for i in range(len(sc["crashes"])):
            if len(sc["crashes"]) > 1: yield dict(sc, crashes=sc["crashes"][:i] + sc["crashes"][i + 1:])
        for i, pl in enumerate(sc["crashes"]):
            if "chunk" in pl: yield dict(sc, crashes=sc["crashes"][:i] + [{k: v for k, v in pl.items() if k != "chunk"}] + sc["crashes"][i + 1:])
            for j in range(len(pl["faults"])):
                if len(pl["faults"]) > 1: yield dict(sc, crashes=sc["crashes"][:i] + [dict(pl, faults=pl["faults"][:j] + pl["faults"][j + 1:])] + sc["crashes"][i + 1:])
        yield from Prop.reductions(self, sc)

    def trace(self, ctx, sc):
        out = []
        img = None
        for pl in sc["crashes"]:
            q0 = dict(sc["procs"][0]); q0.update(pl)
            r = ctx.sim(sc["base"], sc["files"], [q0], img=img, save=True, log=True)
            img = r.saved
            out += ["killed run: %s %d" % (r.p["kind"], r.p["code"])] + ["%s fault=%d fd=%d %d %d -> %d %s" % (b, c, d, e, f, g, h or "") for a, b, c, d, e, f, g, h in r.log[-60:]]
        r = ctx.sim(sc["base"], sc["files"], sc["procs"], img=img, log=True)
        out += ["rerun: %s %d" % (r.p["kind"], r.p["code"])] + ["%s fd=%d %d %d -> %d %s" % (b, d, e, f, g, h or "") for a, b, c, d, e, f, g, h in r.log[-60:]]
        return out


class C07(Prop):
    id = "C07"; title = "outputs depend only on inputs and command line"
    budget = dict(quick=(4500, 240.0), thorough=(400000, 800.0))
    rule = ("a case is a command on a valid, broken or mutated source and 7 other worlds for it: allocator placement (bump, reuse, several arenas in both directions, guard pages), fill of fresh and freed memory, stack position and contents, "
            "process id, environment variables, clock, splitting of reads and writes; every world must give the same outputs, messages and status; non-trivial when the world differs in allocator or stack and the run allocated memory")

    def cases(self, ctx, rng):
        w = workload(rng, ctx)
        if rng.random() < 0.3:
            m = main_of(w["argv"])
            f = break_source(rng, w, m[-1]) if m and m[-1].endswith(".c") else None
            if f: w = dict(w, files=f)
        elif rng.random() < 0.06:
            names = sorted(p for p in sim1.std_files() if p.startswith("/w/tests/should_fail/"))
            if names: w = dict(base="std", files={}, argv=["cc", "-c", rng.choice(names)[3:], "-o", "x.o"], outs=["/w/x.o"], so=False, mode="fail")
        for _ in range(7):
            p = {}
            if rng.random() < 0.85: p["heap"] = rand_heap(rng)
            if rng.random() < 0.6: p["stack"] = rand_stack(rng)
            if rng.random() < 0.4: p["env"] = rand_env(rng)
            if rng.random() < 0.3: p["pid"] = rng.randrange(2, 1 << 22)
            if rng.random() < 0.3: p["chunk"] = rng.randrange(1, 1 << 30)
            if rng.random() < 0.2: p["err"] = rng.choice(["tty", "pipe", "null"])
            if rng.random() < 0.3: p["clock"] = [rng.randrange(0, 4000000000), rng.randrange(1000000000), rng.choice([0, 1000, 10 ** 9])]
            yield scen(w, p)

    def judge(self, ctx, sc):
        q0 = sc["procs"][0]
        base = dict(argv=q0["argv"], budget=work.BUDGET)
        sc0 = dict(sc, procs=[base])
        rf = ref(ctx, sc0)
        if uses_clock(sc): sc = dict(sc, procs=[{k: v for k, v in q0.items() if k != "clock"}])
        r = run(ctx, sc, wantout=True)
        q = r.p
        if ("heap" in q0 or "stack" in q0) and q["nalloc"]: ctx.nontrivial(r)
        if rf.kind in ("cpu",) or q["kind"] == "cpu": return None
        diff = []
        if (q["kind"], q["code"]) != (rf.kind, rf.code): diff.append("%s instead of %s" % (describe(q), describe(rf.r.p)))
        elif q["kind"] == "exit":
            if q["out"] != rf.out: diff.append("standard output")
            if q["err"] != rf.err and "err" not in q0: diff.append("standard error")
            for o in sc["outs"]:
                s = state(r, sc["files"], o)
                if s[0] == "same" and rf.states[o][0] == "same": continue
                if not (s == rf.states[o]): diff.append(o)
        if diff:
            return dict(kind="differs", what="the same command gives a different result in another environment: %s" % ", ".join(diff), argv=q0["argv"],
                        world={k: v for k, v in q0.items() if k not in ("argv", "budget")}, stdout=text(q.get("stdout", "")), reference=text(rf.stdout))
        return None


def uses_clock(sc):
    for v in sc["files"].values():
        t = v if isinstance(v, str) else v[2]
        if "__DATE__" in t or "__TIME__" in t: return True
    if sc["base"] == "std": return True
    return False


def out_names(rng, n):
    """Names for the outputs of n compilers in one directory: apart, but often nearly the same."""
    k = rng.random()
    if k < 0.3: return [lambda ext, i=i: "out%d%s" % (i, ext) for i in range(n)]
    if k < 0.65:
        exts = ["", ".lo", ".obj", ".pic" , ".2"]
        rng.shuffle(exts)
        stem = rng.choice(["out", "m0", "a.long.name.that.fills.a.short.buffer.easily"])
        # the same name up to the last dot, or after it
        if rng.random() < 0.3: return [lambda ext, e=e: stem + e.replace(".", "") + ext for e in exts[:n]]
        return [lambda ext, e=e: stem + (e or ext) for e in exts[:n]]
    if k < 0.8: return [lambda ext, i=i: "out%s%s" % (ext, ["", "~", "2", ".tmp", ".bak"][i]) for i in range(n)]
    return [lambda ext, i=i: ["", "t/", "t/t/", "tt/", "t.o/"][i] + "out" + ext for i in range(n)]


class C08(Prop):
    id = "C08"; title = "concurrent compilers do not disturb each other"
    budget = dict(quick=(3000, 240.0), thorough=(400000, 800.0))
    rule = ("a case is 2 to 5 compilers on one simulated file system (sharing sources and headers, different outputs, or identical commands racing on one output), run under 6 seeded schedules that interleave them at every system call, "
            "some with faults, allocation failures or kills in part of the processes; each undisturbed process is compared with its run alone; non-trivial when the schedule switched processes at least 4 times")
    measure = "distinct hashes of (schedule, all processes' system call sequences with data)"

    def cases(self, ctx, rng):
        race = rng.random() < 0.3
        n = rng.choice([2, 2, 3, 4, 5])
        if race:
            w = workload(rng, ctx, modes=["obj", "asm", "ms", "md", "mdmf", "exe", "objdef", "pp"], size=rng.choice([0.2, 0.4, 1.0]))
            procs = [dict(argv=w["argv"], outs=w["outs"], so=w["so"]) for _ in range(min(n, 3))]
            files, base = w["files"], w["base"]
        else:
            procs, files = [], {}
            base = "min"
            ws = []
            for k in range(n):
                w = workload(rng, ctx, modes=["obj", "asm", "ms", "md", "mdmf", "exe", "asmdef", "objdef", "pp", "multi"], size=rng.choice([0.2, 0.4, 1.0]), p_repo=0)
                if k and rng.random() < 0.4: w = dict(ws[0])
                ws.append(w)
            for k, w in enumerate(ws):
                # each works in its own directory on shared or own files
                d = "/w/p%d" % k
                for p, v in w["files"].items(): files[d + p[2:]] = v
                procs.append(dict(argv=[a.replace("/w/", d + "/") for a in w["argv"]], cwd=d, outs=[d + o[2:] for o in w["outs"]], so=w["so"]))
            if rng.random() < 0.5:
                # one tree, outputs apart
                w = next((x for x in ws if x["mode"] in ("obj", "asm", "ms")), None)
                if w:
                    procs, files = [], dict(w["files"])
                    for o in w["outs"]: files.pop(o, None)
                    names = out_names(rng, n)
                    for k in range(n):
                        a = list(w["argv"]); i = a.index("-o")
                        a[i + 1] = names[k](os.path.splitext(a[i + 1])[1])
                        if k and rng.random() < 0.3: a.append("-DEXTRA%d" % k)
                        procs.append(dict(argv=a, outs=["/w/" + a[i + 1]], so=False))
        for _ in range(6):
            ps = []
            for p in procs:
                q = dict(argv=p["argv"], budget=work.BUDGET)
                if "cwd" in p: q["cwd"] = p["cwd"]
                q["pid"] = rng.randrange(2, 30000)
                while any(q["pid"] == o["pid"] for o in ps): q["pid"] += 1
                if rng.random() < 0.5: q["heap"] = rand_heap(rng)
                ps.append(q)
            if rng.random() < 0.35 and not race:
                k = rng.randrange(len(ps))
                m = rng.random()
                if m < 0.4: ps[k]["faults"] = [[rng.randrange(60), "crash", rng.choice([0, 5, 500])]]
                elif m < 0.7: ps[k]["faults"] = [[rng.randrange(60), "err", ERR[rng.choice(["EIO", "ENOSPC", "EACCES", "EMFILE"])]]]
                else: ps[k]["allocfail"] = [rng.randrange(3000)]
            yield dict(base=base, files=files, procs=ps, outs=None, pouts=[p["outs"] for p in procs], so=[p["so"] for p in procs], race=race,
                       sched=rng.randrange(1, 1 << 60), stick=rng.choice([0, 0, 30, 60, 90, 97]))

    def judge(self, ctx, sc):
        n = len(sc["procs"])
        kw = dict(schedlist=sc["schedlist"]) if sc.get("schedlist") is not None else dict(sched=sc["sched"], stick=sc["stick"])
        r = ctx.sim(sc["base"], sc["files"], sc["procs"], wantout=True, log=True, **kw)
        s = r.sched or ""
        if sum(1 for a, b in zip(s, s[1:]) if a != b) >= 4: ctx.nontrivial(r)
        clean = [not any(k in p for k in ("faults", "allocfail", "sticky")) for p in sc["procs"]]
        owners = {}
        for k in range(n):
            for o in sc["pouts"][k]: owners.setdefault(o, set()).add(k)
        for k in range(n):
            if not clean[k]: continue
            one = dict(base=sc["base"], files=sc["files"], outs=sc["pouts"][k], procs=[{a: b for a, b in sc["procs"][k].items() if a in ("argv", "cwd", "budget")}])
            rf = ref(ctx, one)
            q = r.procs[k]
            info = dict(process=k, argv=sc["procs"][k]["argv"], stdout=text(q["stdout"]), schedule=text(s, 400))
            if (q["kind"], q["code"]) != (rf.kind, rf.code): return dict(kind="status-differs", what="process %d ends with %s, alone with %s" % (k, describe(q), describe(rf.r.p)), **info)
            if q["out"] != rf.out or q["err"] != rf.err: return dict(kind="messages-differ", what="process %d prints something else than alone" % k, **info)
            if not rf.ok: continue
            for o in sc["pouts"][k]:
                if not all(clean[j] for j in owners[o]): continue
                st = state(r, sc["files"], o)
                if not same_content(st, rf.states[o]): return dict(kind="output-differs", what="%s differs from what process %d writes alone" % (o, k), got=str(st), want=str(rf.states[o]), **info)
        allouts = set(owners)
        wrong = sorted(p for p in r.files if p not in allouts)
        if any(f[1] == "crash" for p in sc["procs"] for f in p.get("faults", ())): wrong = []   # who is killed cannot remove a temporary file
        if wrong: return dict(kind="other-file-changed", what="concurrent runs changed %s, which none of them names as an output" % ", ".join(wrong), argv=sc["procs"][0]["argv"])
        return None

    def reductions(self, sc):
        if len(sc["procs"]) > 2:
            for k in range(len(sc["procs"])):
                f = lambda l: l[:k] + l[k + 1:]
                yield dict(sc, procs=f(sc["procs"]), pouts=f(sc["pouts"]), so=f(sc["so"]))
        if sc.get("schedlist") is None:
            for st in (97, 90, 60):
                if sc["stick"] < st: yield dict(sc, stick=st)
        yield from Prop.reductions(self, sc)


# ---------------------------------------------------------------- C09
def canon_names():
    m = {}

    def f(name):
        if re.fullmatch(r"\.L[A-Za-z]*\d+[A-Za-z_0-9]*", name) is None: return name
        k = re.match(r"\.L[A-Za-z]*?(?=\d)", name).group(0)
        if name not in m: m[name] = "%s#%d" % (k, len(m))
        return m[name]
    return f


def canon_asm(t):
    f = canon_names()
    t = re.sub(r"(?m)^[ \t]*#.*\n?", "", t)      # comments
    return re.sub(r"\.L[A-Za-z]*\d+[A-Za-z_0-9]*", lambda x: f(x.group(0)), t)


def elf_canon(b):
    """Sections, symbols and relocations of an ELF object with generated local labels renamed in order."""
    if b[:4] != b"\x7fELF": return ("raw", b)
    shoff, = struct.unpack_from("<Q", b, 40)
    shentsize, shnum, shstrndx = struct.unpack_from("<HHH", b, 58)
    sh = [struct.unpack_from("<IIQQQQIIQQ", b, shoff + i * shentsize) for i in range(shnum)]
    so = sh[shstrndx][4]
    cstr = lambda off: b[off:b.index(b"\0", off)].decode("latin-1")
    names = [cstr(so + s[0]) for s in sh]
    f = canon_names()
    out = []
    syms = []
    for i, s in enumerate(sh):
        if s[1] == 2:
            st = sh[s[6]][4]
            for o in range(s[4], s[4] + s[5], 24):
                n, info, other, shndx, val, size = struct.unpack_from("<IBBHQQ", b, o)
                syms.append((f(cstr(st + n)), info, other, names[shndx] if shndx < len(names) else shndx, val, size))
    for i, s in enumerate(sh):
        if s[1] in (2, 3): continue
        if s[1] == 4:
            rel = []
            for o in range(s[4], s[4] + s[5], 24):
                off, info, add = struct.unpack_from("<QQq", b, o)
                rel.append((off, info & 0xffffffff, syms[info >> 32] if (info >> 32) < len(syms) else None, add))
            out.append((names[i], s[1], rel))
        else: out.append((names[i], s[1], s[2], s[8], b[s[4]:s[4] + s[5]] if s[1] != 8 else s[5]))
    return (out, syms)


def coff_canon(b):
    try:
        nsec, = struct.unpack_from("<H", b, 2)
        symoff, nsym = struct.unpack_from("<II", b, 8)
        opt, = struct.unpack_from("<H", b, 16)
        stro = symoff + 18 * nsym
        f = canon_names()

        def nm(o):
            if b[o:o + 4] == b"\0\0\0\0":
                p = stro + struct.unpack_from("<I", b, o + 4)[0]
                return b[p:b.index(b"\0", p)].decode("latin-1")
            return b[o:o + 8].rstrip(b"\0").decode("latin-1")
        syms, i = [], 0
        while i < nsym:
            o = symoff + 18 * i
            val, sec, typ, cls, aux = struct.unpack_from("<IhHBB", b, o + 8)
            syms.append((f(nm(o)), val, sec, typ, cls, b[o + 18:o + 18 + 18 * aux]))
            for _ in range(aux): syms.append(None)
            i += 1 + aux
        out = []
        for k in range(nsec):
            o = 20 + opt + 40 * k
            name = b[o:o + 8]
            vs, va, rs, rp, relp, lp, nrel, nl, ch = struct.unpack_from("<IIIIIIHHI", b, o + 8)
            rel = [struct.unpack_from("<IIH", b, relp + 10 * j) for j in range(nrel)]
            out.append((name, b[rp:rp + rs], [(a, syms[s] if s < len(syms) else None, t) for a, s, t in rel], ch))
        return (out, syms)
    except (struct.error, ValueError, IndexError):
        return ("raw", b)


# what one file leaves behind, and what the next would notice
LEAVE = [
    ("#define PV 1\n#pragma push_macro(\"PV\")\n", "#define PV 2\n#pragma pop_macro(\"PV\")\nint pv_@ = PV;\n"),
    ("#define PV 1\n#pragma push_macro(\"PV\")\n#undef PV\n", "#pragma pop_macro(\"PV\")\n#ifdef PV\nint pv_@ = PV;\n#endif\nint pvend_@;\n"),
    ("#pragma pack(push, 1)\n", "struct pk_@ { char a; long b; }; int pks_@ = sizeof(struct pk_@);\n"),
    ("#pragma pack(2)\n", "struct pk_@ { char a; long b; }; int pks_@ = sizeof(struct pk_@);\n"),
    ("#pragma pack(push, 1)\n#pragma pack(push, 2)\n", "#pragma pack(pop)\nstruct pk_@ { char a; long b; }; int pks_@ = sizeof(struct pk_@);\n"),
    ("#line 500 \"other.y\"\n", "int ln_@ = __LINE__; const char *fl_@ = __FILE__;\n"),
    ("#line 500\n", "int ln_@ = __LINE__;\n"),
    ("#line 7000000\n", "int ln_@ = __LINE__;\n"),
    ("#define FM(x) x##_l\n", "int FM_@;\n#ifdef FM\nint FM(a);\n#endif\nint FM(int x);\n"),
    ("#undef __STDC_VERSION__\n", "#ifdef __STDC_VERSION__\nlong sv_@ = __STDC_VERSION__;\n#endif\n"),
    ("#include \"once.h\"\n", "#include \"once.h\"\nint once_@ = ONCE;\n"),
    ("#include \"once.h\"\n#undef ONCE\n#define ONCE 5\n", "#include \"once.h\"\nint once_@ = ONCE;\n"),
    ("typedef long tdef;\n", "int tdef; int utd_@(void) { return sizeof tdef; }\n"),
    ("enum { ECON = 4 };\n", "int ECON_@; char ECON; int ueco_@(void) { return sizeof(ECON); }\n"),
    ("struct tag { long a; int b; };\n", "struct tag; struct tag *tg_@; struct tag { char c; }; int tgs_@ = sizeof(struct tag);\n"),
    ("union tag { long a; };\n", "struct tag { char c; }; int tgs_@ = sizeof(struct tag);\n"),
    ("struct tag { long a; int b; };\n", "int tgs_@ = sizeof(struct tag *); struct tag *tp_@;\n"),
    ("int obj; int *uobj = &obj;\n", "static char obj; int uob_@(void) { return obj++; }\n"),
    ("static int fun(void) { return 3; } int cfun(void) { return fun(); }\n", "long fun(int a, int b); long ufun_@(void) { return fun(1, 2); }\n"),
    ("static int fun(void) { return 3; } int cfun(void) { return fun(); }\n", "static int fun(void) { return 4; } int ufun_@(void) { return fun(); }\n"),
    ("int gf(int n) { static int s = 5; again: s++; if (n--) goto again; return s; }\n", "int ugf_@(int n) { static int s = 6; again: s++; if (n--) goto again; return s; }\n"),
    ("const char *st(void) { return \"one string\"; }\n", "const char *ust_@(void) { return \"one string\"; } const char *ust2_@(void) { return \"string\"; }\n"),
    ("double dbl(void) { return 1.5; } float flt(void) { return 2.5f; }\n", "double udb_@(void) { return 1.5; } float ufl_@(void) { return 1.5f; }\n"),
    ("extern int ex; int uex(void) { return ex; }\n", "int uex_@(void) { extern int ex; return ex; }\n"),
    ("int tent; long tent2;\n", "int tent; int utent_@(void) { return tent; }\n"),
    ("int sw(int a) { switch (a) { case 1: return 2; case 9: return 4; default: return 5; } }\n", "int usw_@(int a) { switch (a) { default: return 1; case 3: return 8; } }\n"),
    ("int vla(int n) { int a[n]; a[0] = n; return a[n - 1]; }\n", "int uvl_@(int n) { int a[n]; a[0] = n; return a[0]; } int nvl_@(int n) { return n; }\n"),
    ("int va(int n, ...) { __builtin_va_list l; __builtin_va_start(l, n); n = __builtin_va_arg(l, int); __builtin_va_end(l); return n; }\n", "int uva_@(int n, ...) { __builtin_va_list l; __builtin_va_start(l, n); long m = __builtin_va_arg(l, long); __builtin_va_end(l); return m; } int vls_@ = sizeof(__builtin_va_list);\n"),
    ("_Alignas(64) char al; struct { char a; _Alignas(32) char b; } als;\n", "char ual_@; struct { char a; char b; } uals_@;\n"),
    ("#define REC REC2\n#define REC2 REC\nint REC;\n", "int REC; int REC2;\n"),
    ("#define SELF(x) #x\nconst char *sl = SELF(a   b);\n", "#define SELF(x) x x\nint sl_@ SELF(;)\n"),
    ("#if 1\n", "int aft_@;\n"), ("#if 0\n#else\n#if 1\n#endif\n", "#else\nint aft_@;\n#endif\n"),
]


def shared_state_project(rng):
    """Sources built to leave something behind in a compiler that forgets to reset."""
    pr = projects.gen_project(rng, nmain=rng.choice([2, 2, 3, 4]), size=rng.choice([0.15, 0.3, 0.6]))
    files = dict(pr["files"])
    same = rng.random() < 0.5
    for k, m in enumerate(pr["mains"]):
        p = "/w/" + m
        pre, post = [], []
        for _ in range(rng.randrange(0, 8)):
            c = rng.randrange(24)
            n = rng.randrange(3)
            if c == 0: pre.append("#define LEAK%d %d\n" % (n, k))
            elif c == 1: pre.append("#ifdef LEAK%d\nint leaked%d_%d = LEAK%d + 0;\n#else\nint clean%d_%d;\n#endif\n" % (n, n, k, n, n, k))
            elif c == 2: pre.append("#undef LEAK%d\n" % n)
            elif c == 3: pre.append("typedef %s ty%d; ty%d tv%d_%d;\n" % (rng.choice(["int", "long", "char *"]), n, n, n, k)) if not any("typedef" in x and "ty%d" % n in x for x in pre) else None
            elif c == 4: pre.append("struct sx%d { %s a; char b; }; struct sx%d sv%d_%d;\n" % (n, rng.choice(["int", "long", "short"]), n, n, k)) if not any("struct sx%d {" % n in x for x in pre) else None
            elif c == 5: post.append("static const char *str%d_%d(void) { return \"%s\"; }\nconst char *ustr%d_%d(void) { return str%d_%d(); }\n" % (n, k, rng.choice(["one", "two", "shared"]), n, k, n, k)) if not any("ustr%d_" % n in x for x in post) else None
            elif c == 6: post.append("int cnt%d_%d(void) { static int z = %d; return z++; }\n" % (n, k, rng.randrange(9))) if not any("cnt%d_" % n in x for x in post) else None
            elif c == 7: post.append("extern int ext%d; int useext%d_%d(void) { return ext%d; }\n" % (n, n, k, n)) if not any("useext%d_" % n in x for x in post) else None
            elif c == 8: pre.append("#include \"once.h\"\n")
            elif c == 9: pre.append("#pragma once\n")
            elif c == 10: pre.append("enum en%d { EA%d = %d, EB%d }; int ev%d_%d = EB%d;\n" % (n, n, rng.randrange(50), n, n, k, n)) if not any("enum en%d" % n in x for x in pre) else None
            elif c == 11: post.append("const char *dt%d_%d = __FILE__; int dl%d_%d = __LINE__;\n" % (n, k, n, k)) if not any("dt%d_" % n in x for x in post) else None
            elif c == 12: pre.append("#line %d \"%s\"\n" % (rng.choice([rng.randrange(1, 900), 40000, 2000000000]), rng.choice(["a.y", "s/b.y", "once.h"])))
            elif c == 13: post.append("#if 1\n#if 0\n#else\nint cond%d_%d;\n#endif\n%s" % (n, k, "#endif\n"))
            elif c == 14: pre.append("%s#pragma push_macro(\"LEAK%d\")\n%s" % (rng.choice(["", "#define LEAK%d %d\n" % (n, 60 + k)]), n, rng.choice(["", "#undef LEAK%d\n" % n, "#define LEAK%d %d\n" % (n, 70 + k)])))
            elif c in (15, 16): pre.append("#pragma pop_macro(\"LEAK%d\")\n#ifdef LEAK%d\nint popped%d_%d_%d = LEAK%d + 0;\n#else\nint unpopped%d_%d_%d;\n#endif\n" % (n, n, n, k, len(pre), n, n, k, len(pre)))
            elif c == 17: post.append("#pragma pack(%s)\n" % rng.choice(["1", "2", "push, 1", "push, 2", "push", "pop", "4"]))
            elif c == 18: pre.append("struct pk%d_%d { char a; long b; short c; }; int pks%d_%d = sizeof(struct pk%d_%d);\n" % (len(pre), k, len(pre), k, len(pre), k))
            elif c == 19: post.append("static int helper%d(int x) { lab: if (x > %d) { x--; goto lab; } return x; } int callhelper%d_%d(void) { return helper%d(%d); }\n" % (n, k, n, k, n, k + 9)) if not any("helper%d(" % n in x for x in post) else None
            elif c == 20: post.append("#define FN%d(a, ...) a##%d\nint FN%d(fnv%d_, x);\n" % (n, k, n, n)) if not any("FN%d(" % n in x for x in post) else None
            elif c == 21: pre.append("#ifdef FN%d\nint fnleak%d_%d;\n#endif\n#undef %s\n" % (n, n, k, rng.choice(["__STDC__", "NULL", "__x86_64__", "FN%d" % n])))
            elif c == 22: pre.append("%s tent%d;\n" % (rng.choice(["int", "long", "char"]), n)) if not any(" tent%d;" % n in x for x in pre) else None
            elif c == 23: post.append("struct cl%d { int a[3]; }; int ucl%d_%d(int v) { return ((struct cl%d) { { v, 2, %d } }).a[v & 1]; }\n" % (n, n, k, n, k)) if not any("struct cl%d {" % n in x for x in post) else None
        if rng.random() < 0.08: post.append(rng.choice(["#if 1\n", "#if 0\n", "#ifdef X0\n", "#endif\n", "#else\n", "#pragma pack(push, 1)\n", "/* open", "\"open", "int unfinished"]))
        if same and k: pre = pre[:1]
        t = files[p]
        files[p] = "".join(x for x in pre if x) + t + "".join(x for x in post if x)
    ms = pr["mains"]
    for _ in range(rng.randrange(0, 4)):
        a, b = rng.choice(LEAVE)
        i = rng.randrange(len(ms))
        if a.strip() not in files["/w/" + ms[i]]: files["/w/" + ms[i]] = a + files["/w/" + ms[i]] if rng.random() < 0.3 else files["/w/" + ms[i]] + a
        for j in range(len(ms)):
            t = b.replace("@", "q%d" % j)
            if j != i and rng.random() < 0.7 and t not in files["/w/" + ms[j]]:
                files["/w/" + ms[j]] = t + files["/w/" + ms[j]] if rng.random() < 0.5 else files["/w/" + ms[j]] + t
    files["/w/once.h"] = "#pragma once\nint from_once_h;\n#define ONCE 1\n"
    if any('"once.h"' in files["/w/" + m] for m in pr["mains"]):
        for m in pr["mains"]:
            d = os.path.dirname(m)
            if d: files["/w/%s/once.h" % d] = files["/w/once.h"]
    return dict(pr, files=files)


CLOCK0 = [1600000000, 0, 0]      # a clock that stands still


class C09(Prop):
    id = "C09"; title = "files of one invocation do not influence each other"
    budget = dict(quick=(5000, 240.0), thorough=(400000, 800.0))
    rule = ("a case is 2 to 4 sources (generated, repository tests, sources that define, test, include-once, redefine or repeat the same names, the same file twice), one output form, and 3 orders or selections of them; "
            "each output of the joint run, with generated local labels renamed in order of appearance, must equal that of a run on the single file; some cases add allocator and stack worlds; non-trivial when the joint run compiled at least 2 files")

    def cases(self, ctx, rng):
        if rng.random() < 0.2:
            prs = [projects.repo_project(rng) for _ in range(rng.choice([2, 3]))]
            pr = dict(prs[0]); pr["mains"] = []
            for x in prs:
                if os.path.basename(x["mains"][0]) not in [os.path.basename(m) for m in pr["mains"]]: pr["mains"] = pr["mains"] + x["mains"]
        else: pr = shared_state_project(rng)
        base = dict(flags=["-I" + i for i in pr["incs"]] + ["-D" + d for d in pr["defs"]] + (["-UX%d" % rng.randrange(5)] if rng.random() < 0.2 else []))
        for _ in range(3):
            mode = rng.choice(["-c", "-S", "-S", "-E", "-MD -c", "-MD -S", "-c -fabi=ms", "-S -fabi=ms", "-c -fcmodel=large"])
            if mode == "-E": base["flags"] = [f for f in base["flags"] if not f.startswith("-U")]
            ms = list(pr["mains"]); rng.shuffle(ms)
            if rng.random() < 0.25: ms.append(rng.choice(ms))
            proc = {}
            if rng.random() < 0.3: proc["heap"] = rand_heap(rng)
            yield dict(base=pr["base"], files=pr["files"], flags=mode.split() + base["flags"], mains=ms, procs=[dict(argv=["cc"] + mode.split() + base["flags"] + ms, budget=work.BUDGET, clock=CLOCK0, **proc)], outs=None)

    def outs(self, sc, m):
        b = "/w/" + os.path.basename(m)[:-2]
        o = []
        if "-c" in sc["flags"]: o.append(b + ".o")
        if "-S" in sc["flags"]: o.append(b + ".s")
        if "-MD" in sc["flags"]: o.append(b + ".d")
        return o

    def canon(self, path, data):
        if path.endswith(".s"): return canon_asm(data.decode("latin-1"))
        if path.endswith(".o"): return elf_canon(data) if data[:4] == b"\x7fELF" else coff_canon(data)
        return data

    def judge(self, ctx, sc):
        mains = [m for m in sc["procs"][0]["argv"][1:] if m.endswith(".c") and not m.startswith("-")]
        single = {}
        for m in mains:
            argv = ["cc"] + sc["flags"] + [m]
            r = ctx.sim(sc["base"], sc["files"], [dict(argv=argv, budget=work.BUDGET, clock=CLOCK0)], wantout=True)
            q = r.p
            d = {o: self.canon(o, ctx.outfile(o)) for o in self.outs(sc, m) if o in r.files} if q["kind"] == "exit" and q["code"] == 0 else {}
            single[m] = (q["kind"], q["code"], q["stdout"], d)
        r = run(ctx, sc, wantout=True)
        q = r.p
        if len(mains) > 1: ctx.nontrivial(r)
        want_code, want_out = 0, ""
        ok = []
        for m in mains:
            want_out += single[m][2]
            if single[m][0] != "exit": return None
            if single[m][1]: want_code = single[m][1]; break
            ok.append(m)
        info = dict(argv=sc["procs"][0]["argv"], stdout=text(q["stdout"]), alone=text(want_out))
        if (q["kind"], q["code"]) != ("exit", want_code): return dict(kind="status-differs", what="the joint run ends with %s, the single runs predict exit status %d" % (describe(q), want_code), **info)
        if q["stdout"] != want_out:
            x, y = q["stdout"], want_out
            i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
            return dict(kind="messages-differ", what="the joint run prints something else than the single runs one after the other", at=i, joint=x[max(0, i - 60):i + 60], single=y[max(0, i - 60):i + 60], **info)
        last = {}
        for m in ok:
            for o in self.outs(sc, m): last[o] = m
        for o, m in sorted(last.items()):
            if o not in single[m][3]: return dict(kind="not-written", what="%s is not written by the single run" % o, **info)
            got = ctx.outfile(o) if o in r.files and r.files[o][0] != "d" else None
            if want_code and got is None: continue
            if got is None: return dict(kind="output-differs", what="%s is not written by the joint run" % o, **info)
            if self.canon(o, got) != single[m][3][o]:
                return dict(kind="output-differs", what="%s differs from the output of compiling %s alone" % (o, m), diff=first_diff(self.canon(o, got), single[m][3][o]), **info)
        return None

    def reductions(self, sc):
        ms = [m for m in sc["procs"][0]["argv"][1:] if m.endswith(".c") and not m.startswith("-")]
        for i in range(len(ms)):
            if len(ms) > 2:
                k = ms[:i] + ms[i + 1:]
                yield dict(sc, mains=k, procs=[dict(sc["procs"][0], argv=["cc"] + sc["flags"] + k)])
        for f in sc["flags"]:
            if f.startswith(("-I", "-D", "-U")): fl = [x for x in sc["flags"] if x != f]; yield dict(sc, flags=fl, procs=[dict(sc["procs"][0], argv=["cc"] + fl + ms)])
        yield from Prop.reductions(self, dict(sc, procs=sc["procs"]))


def first_diff(a, b):
    if isinstance(a, str):
        x, y = a.split("\n"), b.split("\n")
        for i in range(max(len(x), len(y))):
            u = x[i] if i < len(x) else None; v = y[i] if i < len(y) else None
            if u != v: return "line %d: joint %r, single %r" % (i + 1, u, v)
    if isinstance(a, tuple):
        for u, v in zip(a, b):
            if u != v:
                if isinstance(u, list) and len(u) == len(v):
                    for p, q in zip(u, v):
                        if p != q: return "joint %r single %r" % (str(p)[:300], str(q)[:300])
                return "joint has %s entries, single %s" % (len(u), len(v))
    return "?"


# ---------------------------------------------------------------- C10, C11
def include_world(rng, markers=True):
    """A tree of headers with the same names in several places.
    Returns files, main, -I list; every header announces itself with a marker."""
    dirs = ["/w", "/w/s", "/w/s/t", "/w/i0", "/w/i1", "/w/i2", "/w/i0/sub", "/w/i1/sub", "/usr/include", "/w/include/linux", "/w/s/sub", "/w/t", "/usr/include/sub"]
    names = ["a.h", "b.h", "c.h", "sub/d.h", "sub/a.h", "e.h", "t/f.h"][:rng.randrange(2, 8)]
    if rng.random() < 0.1: names.append(rng.choice([".h", ".x.h", "sub/.y.h", ".t/z.h", "u./v.h"]))
    if rng.random() < 0.15: names.append(rng.choice(["a b.h", "x#y.h", "d$x.h", "sub/p q.h", "tab\tx.h", "$$.h", "h.h,v", "~h.h", "b\\ c.h", "x\\y.h", "q$(v).h", "w\\\\ z.h", "\\ l.h", "$(a b).h", "t\\\t.h", "%.h", "a:b.h", "\\\\.h"]))
    files = {}
    k = [0]
    prob = rng.choice([0.15, 0.25, 0.4, 0.6])
    where = []
    for n in names:
        for d in dirs:
            if rng.random() < prob: where.append((d, n))
        if not any(x[1] == n for x in where) and rng.random() < 0.85: where.append((rng.choice(dirs), n))
    paths = []
    for d, n in where:
        p = os.path.normpath(os.path.join(d, n))
        if p in files: continue
        files[p] = None; paths.append(p)

    def incs(depth, maxn):
        out = []
        for _ in range(rng.randrange(0, maxn + 1)):
            n = rng.choice(names)
            if rng.random() < 0.12: n = rng.choice(["../" + n, "./" + n, "s/../" + n, "sub/../" + n])
            elif rng.random() < 0.06: n = rng.choice(where)[0] + "/" + n if where else n
            elif rng.random() < 0.03: n = rng.choice(names) + "/" + n
            out.append(n if rng.random() < 0.5 else "<%s>" % n)
        return out
    for p in paths:
        k[0] += 1
        t = []
        mid = k[0]
        guard = rng.random()
        if guard < 0.5: t += ["#ifndef G%d" % mid, "#define G%d" % mid]
        elif guard < 0.6: t += ["#pragma once"]
        else: t += ["#if DEPTH%d < 1" % mid, "#undef DEPTH%d" % mid, "#define DEPTH%d 1" % mid]
        t += ["MK(%d)" % mid] if rng.random() < 0.93 else []
        for n in incs(0, 2):
            s = "#include %s" % (n if n[0] == "<" else '"%s"' % n)
            if rng.random() < 0.1: t += ["#ifdef NOPE", s, "#endif"]
            else: t.append(s)
        if guard < 0.5 or guard >= 0.6: t.append("#endif")
        if rng.random() < 0.1: t = []          # an empty header
        files[p] = "\n".join(t) + ("\n" if t else "")
    main = rng.choice(["m.c", "s/m.c", "s/t/m.c", "./s/m.c", "/w/m.c", "t/../m.c"])
    if rng.random() < 0.06: main = main[:-3] + rng.choice(["m m.c", "m#.c", "$m.c", "m  .c", "m$$#.c", "m\\ m.c", "m$(x).c", "m\\m.c", "m\\\\ #.c"])
    mp = os.path.normpath(os.path.join("/w", main))
    t = ["#define MK(x) int mk_##x;" if False else "#define MK(x) extern int mk_ ## x;"]
    for n in incs(0, 5) or ['a.h']:
        t.append("#include %s" % (n if n[0] == "<" else '"%s"' % n))
    t.append("int done;")
    files[mp] = "\n".join(t) + "\n"
    ilist = [x for x in rng.sample(["i0", "i1", "i2", "i0/sub", "/w/i1", "./i2", "s", "t", "nodir", "i1/", "/", mp, mp + "/.."], rng.randrange(0, 6))]
    if rng.random() < 0.08:                    # many directories, most of them without the headers
        ilist = ["n%d" % x for x in range(rng.randrange(3, 40))] + ilist
        rng.shuffle(ilist)
    if where and rng.random() < 0.1: ilist.insert(0, rng.choice(paths))
    if rng.random() < 0.12:                    # plain files where directories are searched
        d = rng.choice(["/w/i0", "/w/i1/sub", "/w/s/sub", "/w/i2", "/w/sub", "/w/nodir", "/usr/include/sub"])
        if not any(p.startswith(d + "/") for p in files): files[d] = rng.choice(["", "MK(9999)\n"])
    for d in ("/w/t", "/w/s", "/w/sub", "/w/s/sub", "/w/s/s"):
        if rng.random() < 0.7 and not any(d.startswith(p + "/") and not isinstance(v, list) for p, v in files.items()): files.setdefault(d, [2, 0o755, ""])
    return files, main, ilist


class IncModel:
    """Reference model of header search over a file map: which files are read, in order."""

    def __init__(self, files, main, ilist, defaults, cwd="/w"):
        self.files, self.cwd = files, cwd
        self.paths = list(ilist) + list(defaults)
        self.order = []          # (spelled path, real path) of every file read
        self.cands = []          # candidates tried, in order: (real path, exists)
        self.once = set()
        self.macros = {}
        self.markers = []
        self.fail = None
        self.steps = 0
        self.dirs = {"/"}
        for p, v in files.items():
            d = p if isinstance(v, (list, tuple)) and v[0] == 2 else os.path.dirname(p)
            while d != "/": self.dirs.add(d); d = os.path.dirname(d)
        try: self.include(main, ".", False)
        except RecursionError: self.fail = "too deep"

    def real(self, p):
        """Resolves a path component by component; None if a component is missing, 'notdir' if one is a file."""
        cur = "/" if p.startswith("/") else self.cwd
        comps = [c for c in p.split("/") if c]
        for i, c in enumerate(comps):
            if cur not in self.dirs: return "notdir" if cur in self.files else None
            if c == ".": continue
            if c == "..": cur = os.path.dirname(cur) or "/"; continue
            cur = cur.rstrip("/") + "/" + c
        if p.endswith("/") and cur not in self.dirs: return "notdir" if cur in self.files else None
        return cur

    def exists(self, p):
        q = self.real(p)
        if q == "notdir": return "notdir", None
        if q is None: return None, None
        v = self.files.get(q)
        if q in self.dirs: return "dir", q
        if v is None: return None, q
        if isinstance(v, (list, tuple)) and not (v[1] & 0o400): return "unreadable", q
        return "file", q

    def include(self, name, parent, system):
        self.steps += 1
        if self.steps > 3000: self.fail = self.fail or "too deep"; return False
        cands = []
        if name[0] == "/": cands.append(name)
        else:
            if not system: cands.append(parent[:parent.rfind("/") + 1] + name)
            cands += ["%s/%s" % (p, name) for p in self.paths]
        hit = None
        for c in cands:
            e, q = self.exists(c)
            self.cands.append((c, q, e))
            if e in (None, "notdir"): continue
            hit = (c, q, e); break
        if not hit: self.fail = "not found: %s" % name; return False
        c, q, e = hit
        if e != "file": self.fail = "%s: %s" % (e, c); return False
        if c in self.once: return True
        self.order.append((c, q))
        v = self.files[q]
        t = v if isinstance(v, str) else v[2]
        return self.scan(t, c)

    def scan(self, t, path):
        stack = []           # active flags
        for l in t.split("\n"):
            w = l.split()
            if not w: continue
            act = all(stack)
            if w[0] == "#ifndef": stack.append(w[1] not in self.macros)
            elif w[0] == "#ifdef": stack.append(w[1] in self.macros)
            elif w[0] == "#if": stack.append(self.macros.get(w[1], 0) < 1)
            elif w[0] == "#endif": stack.pop()
            elif not act: continue
            elif w[0] == "#define":
                self.macros[w[1]] = int(w[2]) if len(w) > 2 and w[2].isdigit() else 0
            elif w[0] == "#undef": self.macros.pop(w[1], None)
            elif w[0] == "#pragma": self.once.add(path)
            elif w[0] == "#include":
                n = l[9:]
                if not self.include(n[1:-1], path, n[0] == "<"): return False
            elif l.startswith("MK("): self.markers.append(int(l[3:-1]))
        return True


def default_dirs():
    """Include directories of the configuration the simulators are built with."""
    import build
    with open(os.path.join(build.REPO, "config.def.h")) as f: t = f.read()
    m = re.search(r"default_include\[\]\s*=\s*\{(.*?)\}", t, re.S)
    ds = re.findall(r'"([^"]*)"', m.group(1))
    out = []
    for d in ds:
        out.append(d)
        if d == "/usr/include/": out.append("/usr/include/x86_64-linux-gnu/")
    return out


def read_set(r, sc, cwd="/w"):
    """Files whose contents the run read: opened for reading and read or mapped, or opened when empty."""
    tr = FdTrack(r.log, 0, cwd)
    return {path for i, name, cls, path, rec in tr.ops if cls == "in" and rec[6] >= 0 and path and path.startswith("/") and (name in READS + ("mmap",) or name == "open" and empty_file(sc, path))}


def make_words(t):
    """The file names in part of a make rule, unquoted as make reads them."""
    out, cur, i = [], "", 0
    while i < len(t):
        c = t[i]
        if c == "\\":
            n = 0
            while i + n < len(t) and t[i + n] == "\\": n += 1
            nx = t[i + n:i + n + 1]
            if nx and nx in " \t#":
                cur += "\\" * (n // 2)
                if n % 2: cur += nx; i += n + 1
                else: i += n
            else: cur += "\\" * n; i += n
            continue
        if c in " \t":
            if cur: out.append(cur); cur = ""
        elif c == "#": break
        elif c == "$":
            if t[i + 1:i + 2] == "$": i += 1; cur += "$"
            else: cur += "$(?"
        else: cur += c
        i += 1
    return out + [cur] if cur else out


class C10(Prop):
    id = "C10"; title = "the dependency file names exactly the files read"
    budget = dict(quick=(6250, 240.0), thorough=(400000, 800.0))
    rule = ("a case is an include graph (same names in many directories, guards, include-once, conditional, empty, repeated and computed-path includes; or generated and repository programs), dependency options, possibly several sources; "
            "3 worlds each, with short reads or faults that the run survives; the prerequisites of the dependency file are compared with the files the system call log shows being read; non-trivial when more than one file was read")

    def cases(self, ctx, rng):
        for _ in range(3):
            if rng.random() < 0.7:
                files, main, il = include_world(rng)
                argv = ["-I" + i for i in il]; mains = [main]; base = "min"
                if rng.random() < 0.15: argv.append("-DNOPE")
            else:
                pr = projects.any_project(rng, 0.4, 0.02)
                files, mains, base = pr["files"], pr["mains"], pr["base"]
                argv = ["-I" + i for i in pr["incs"]] + ["-D" + d for d in pr["defs"]]
            multi = len(mains) > 1 and rng.random() < 0.6
            how = rng.choice(["-S", "-S", "-c", "-c", "-c", "-E"])
            if multi and how == "-E": how = "-c"
            ext = ".s" if how == "-S" else ".o"
            argv = ["cc", how, "-MD"] + argv
            deps = []
            if multi:
                argv += mains
                for m in mains: b = os.path.basename(m)[:-2]; deps.append((m, "/w/%s.d" % b, [b + ext]))
            else:
                m = mains[0]; argv.append(m)
                o = os.path.basename(m)[:-2] + ext
                raw = False
                if how == "-E":
                    if rng.random() < 0.5: argv += ["-o", rng.choice(["o.i", "b/q"])]
                elif rng.random() < 0.7: o = rng.choice(["o", "/w/x.y", "out-1", "b/q", "a b", "x#", "d$", "a\\ b", "$(x)", "a\\b", "x\\\\ y"]) + ext; argv += ["-o", o]
                tgt, d = o, o[:-2] + ".d"
                if rng.random() < 0.3: d = rng.choice(["deps", "/w/z.mk", "b/y.d"]); argv += ["-MF", d] if rng.random() < 0.8 else ["-MF" + d]
                if rng.random() < 0.3: raw = True; tgt = rng.choice(["target", "dir/a.o", "x.o", "$(OBJ)/x.o", "a.o b.o"]); argv += ["-MT", tgt] if rng.random() < 0.8 else ["-MT" + tgt]
                deps.append((m, d if d.startswith("/") else "/w/" + d, tgt if raw else [tgt]))
            files = dict(files); files.setdefault("/w/b", [2, 0o755, ""])
            p = {}
            if rng.random() < 0.3: p["chunk"] = rng.randrange(1, 1 << 30)
            elif rng.random() < 0.3: p["faults"] = [[rng.randrange(30), rng.choice(["short", "err"]), rng.choice([1, 5, 13, 4])] for _ in range(rng.choice([1, 2]))]
            if rng.random() < 0.2: p["heap"] = rand_heap(rng)
            yield dict(base=base, files=files, outs=None, deps=deps, procs=[dict(argv=argv, budget=work.BUDGET, **p)])

    def judge(self, ctx, sc):
        r = run(ctx, sc, log=True, wantout=True)
        q = r.p
        if q["kind"] != "exit" or q["code"] != 0: return None
        info = dict(argv=sc["procs"][0]["argv"], faults=sc["procs"][0].get("faults"))
        # split the log per source: a source is the first file read of its part
        reads = self.reads_per_source(r, sc)
        if reads is None: return None
        if any(len(s) > 1 for s in reads): ctx.nontrivial(r)
        for (m, dpath, tgt), want in zip(sc["deps"], reads):
            if dpath not in r.files or r.files[dpath][0] == "d": return dict(kind="no-dependency-file", what="%s was not written" % dpath, **info)
            t = ctx.outfile(dpath).decode("latin-1").replace("\\\n", " ")
            lines = [l for l in t.split("\n") if l.strip()]
            head, sep, rest = (lines[0] if lines else "").partition(":")
            if not sep or (head.strip() != tgt if isinstance(tgt, str) else make_words(head) != list(tgt)): return dict(kind="rule", what="%s is not a rule for %s" % (dpath, tgt), text=text(t), **info)
            if any(l.partition(":")[2].strip() for l in lines[1:]): return dict(kind="rule", what="%s holds more than one rule with prerequisites" % dpath, text=text(t), **info)
            got = set()
            for x in make_words(rest):
                y = resolve(sc, x)
                got.add(y)
            # reading an empty file may take no read call; opening one counts instead
            got = {x for x in got if x in want or not empty_file(sc, x)}
            if got != want:
                return dict(kind="set-differs", what="%s: %s" % (dpath, "; ".join(filter(None, ["missing " + ", ".join(sorted(want - got)) if want - got else "", "listed but not read " + ", ".join(sorted(got - want)) if got - want else ""]))), **info)
        return None

    def reads_per_source(self, r, sc):
        if len(sc["deps"]) == 1: return [read_set(r, sc)]
        # several sources: attribute reads up to each dependency file's opening
        tr = FdTrack(r.log, 0, "/w")
        out, cur, k = [], set(), 0
        for i, name, cls, path, rec in tr.ops:
            if cls == "in" and path and rec[6] >= 0 and path.startswith("/") and (name in READS + ("mmap",) or name == "open" and empty_file(sc, path)): cur.add(path)
            if name == "open" and cls == "out" and k < len(sc["deps"]) and path == sc["deps"][k][1] and rec[6] >= 0:
                out.append(cur); cur = set(); k += 1
        # a run that reads everything before writing anything cannot be attributed this way
        return out if k == len(sc["deps"]) and all(out) else None


def empty_file(sc, x):
    v = sc["files"].get(x)
    return v is not None and (v == "" or (isinstance(v, (list, tuple)) and v[0] == 1 and not v[2]))


def resolve(sc, x):
    m = IncModel.__new__(IncModel)
    m.files = sc["files"]; m.cwd = "/w"; m.dirs = {"/"}
    for p, v in list(sc["files"].items()):
        d = p if isinstance(v, (list, tuple)) and v[0] == 2 else os.path.dirname(p)
        while d != "/": m.dirs.add(d); d = os.path.dirname(d)
    if sc["base"] == "std":
        for p, v in sim1.Server.STD.items():
            if v[0] == sim1.DIR: m.dirs.add(p)
    q = m.real(x)
    return q if q not in (None, "notdir") else "?" + x


class C11(Prop):
    shrink_lines = shrink_files = False
    id = "C11"; title = "header search takes the first candidate and hides no fault"
    budget = dict(quick=(24000, 240.0), thorough=(400000, 800.0))
    rule = ("a case is a tree with headers of the same names in the including file's directories, the -I directories and the default directories, and 4 worlds: fault-free, with unreadable files or directories in place of headers, "
            "and with errors injected when a candidate is opened or read; a reference model of the documented search order predicts which headers are used in which order (each announces itself) or that the run must fail; "
            "non-trivial when a name had more than one existing candidate or a candidate was faulty")

    def cases(self, ctx, rng):
        files, main, il = include_world(rng)
        if rng.random() < 0.35:
            hs = [p for p in files if p.endswith(".h") and isinstance(files[p], str)]
            for p in rng.sample(hs, min(len(hs), rng.choice([1, 1, 2]))):
                files = dict(files)
                if rng.random() < 0.7: files[p] = [1, 0, files[p]]
                else: files[p] = [2, 0o755, ""]
        E = rng.random() < 0.8
        argv = ["cc"] + (["-E"] if E else ["-S", "-o", "o.s"]) + ["-I" + i for i in il] + [main]
        sc = dict(base="min", files=files, main=main, il=il, E=E, outs=[] if E else ["/w/o.s"], so=E, procs=[dict(argv=argv, budget=work.BUDGET)])
        yield sc
        r = run(ctx, sc, log=True)
        ops = [o for o in FdTrack(r.log, 0).ops if o[2] == "in"]
        hits = [o for o in ops if o[1] == "open" and o[4][6] >= 0]
        for _ in range(3):
            p = {}
            k = rng.random()
            if hits and k < 0.6: p["faults"] = [[rng.choice(hits)[0], "err", ERR[rng.choice(work.OPENR_ERR)]]]
            elif k < 0.8 and ops:
                rd = [o for o in ops if o[1] in READS]
                if rd: p["faults"] = [[rng.choice(rd)[0], "err", ERR[rng.choice(work.READ_ERR)]]]
            elif k < 0.9: p["maxfd"] = rng.choice([3, 3, 4])
            elif hits: p["sticky"] = [["openr", rng.choice(hits)[0], ERR[rng.choice(["EMFILE", "EIO", "EACCES", "ENFILE"])]]]
            if rng.random() < 0.2: p["chunk"] = rng.randrange(1, 1 << 30)
            if p: yield dict(sc, procs=[dict(argv=argv, budget=work.BUDGET, **p)])

    def judge(self, ctx, sc):
        import functools
        m = IncModel(sc["files"], sc["main"], sc["il"], default_dirs())
        r = run(ctx, sc, log=True, wantout=True)
        q = r.p
        if q["kind"] != "exit": return None
        if m.fail == "too deep": return None
        info = dict(argv=sc["procs"][0]["argv"], faults=sc["procs"][0].get("faults"), stdout=text(q["stdout"]))
        faultrec = [rec for i, rec in numbered(r.log) if rec[2] == 1]
        if len({c for c, p, e in m.cands if e}) > 1 or m.fail or faultrec: ctx.nontrivial(r)
        if m.fail:
            if q["code"] == 0: return dict(kind="should-fail", what="the run succeeds although the header search must end with: %s" % m.fail, **info)
            return None
        if faultrec:
            # an existing candidate could not be opened, or an opened file could not be read
            real = [rec for rec in faultrec if (rec[1] == "open" and rec[7] in self.existing(sc) and not (rec[4] & 3)) or rec[1] in READS]
            real = [rec for rec in real if rec[1] == "open" or rec[3] > 2]
            if real and q["code"] == 0 and not self.harmless(ctx, sc, r, real, m):
                return dict(kind="fault-hidden", what="exit status 0 although %s failed" % ", ".join("%s %s" % (x[1], x[7] or "fd %d" % x[3]) for x in real), **info)
            if q["code"]: return None
        if q["code"] and not any(fired(x) for x in r.procs):
            return dict(kind="should-succeed", what="the run fails although every header is found", **info)
        if q["code"]: return None
        got = self.markers(ctx, sc, q)
        if got is not None and got != m.markers:
            return dict(kind="wrong-header", what="the headers used were not the first candidates", want=m.markers, got=got, order=[c for c, p in m.order], **info)
        return None

    def reductions(self, sc):
        for c in Prop.reductions(self, sc):
            if c["procs"][0]["argv"] == sc["procs"][0]["argv"]: yield c

    def existing(self, sc):
        return {p for p, v in sc["files"].items() if not (isinstance(v, (list, tuple)) and v[0] == 2)}

    def harmless(self, ctx, sc, r, real, m):
        """A failed call that was retried, or whose data was not needed, hides nothing."""
        for x in real:
            at = next(i for i, y in enumerate(r.log) if y is x)
            if x[1] == "open" and not any(y[1] == "open" and y[7] == x[7] and y[6] >= 0 for y in r.log[at + 1:]): return False
        rf = ref(ctx, dict(sc, procs=[dict(argv=sc["procs"][0]["argv"], budget=work.BUDGET)]))
        return rf.ok and not complete(r, sc["files"], rf, sc["outs"]) and (not sc["so"] or r.p["stdout"] == rf.stdout)

    def markers(self, ctx, sc, q):
        if sc["E"]: t = q["stdout"]
        else: return None
        return [int(x) for x in re.findall(r"\bmk_(\d+)\b", t)]


# ---------------------------------------------------------------- C12
ZONES = ["UTC0", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "<+0545>-5:45", "NZST-12NZDT,M9.5.0,M4.1.0/3", "<-03>3", "XXX12:34:56", "<+14>-14", "AEST-10AEDT,M10.1.0,M4.1.0/3", "IST-5:30", "<-0930>9:30", "GMT0BST,M3.5.0/1,M10.5.0"]


def civil(days):
    days += 719468
    era = days // 146097; doe = days - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    y = yoe + era * 400; doy = doe - (365 * yoe + yoe // 4 - yoe // 100); mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1; m = mp + 3 if mp < 10 else mp - 9
    return y + (m <= 2), m, d


def days_of(y, m, d):
    y -= m <= 2
    era = y // 400; yoe = y - era * 400; doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468


def hms(s):
    sg = -1 if s[:1] == "-" else 1
    p = [int(x) for x in s.lstrip("+-").split(":")] + [0, 0]
    return sg * (p[0] * 3600 + p[1] * 60 + p[2])


def rule_time(rule, year):
    spec, _, t = rule.partition("/")
    m, w, d = [int(x) for x in spec[1:].split(".")]
    first = days_of(year, m, 1)
    wd = (first + 4) % 7
    day = first + (d - wd) % 7 + (w - 1) * 7
    nm = days_of(year + (m == 12), m % 12 + 1, 1)
    while day >= nm: day -= 7
    return day * 86400 + (hms(t) if t else 7200)


def local_date_time(tz, t, dst=None):
    """__DATE__ and __TIME__ text for instant t in the POSIX zone tz."""
    off = 0
    if tz:
        m = re.match(r"(<[^>]*>|[A-Za-z]+)([-+0-9:]+)(.*)$", tz)
        if m:
            off = -hms(m.group(2))
            rest = m.group(3)
            if rest:
                m2 = re.match(r"(<[^>]*>|[A-Za-z]+)([-+0-9:]*),(.*),(.*)$", rest)
                doff = -hms(m2.group(2)) if m2.group(2) else off + 3600
                year = civil((t + off) // 86400)[0]
                a = rule_time(m2.group(3), year) - off; b = rule_time(m2.group(4), year) - doff
                if dst if dst is not None else (a <= t < b) if a < b else not (b <= t < a): off = doff
    s = t + off
    y, mo, d = civil(s // 86400)
    h = s % 86400
    return ("%s %2d %04d" % ("Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()[mo - 1], d, y), "%02d:%02d:%02d" % (h // 3600, h // 60 % 60, h % 60))


def asm_data(t):
    """Assembly text with each run of .byte/.word/.long/.quad numbers replaced by the bytes they stand for."""
    out, run_ = [], b""
    for l in t.split("\n"):
        m = re.match(r"\s*\.(byte|short|word|long|quad)\s+(-?\d+)\s*$", l)
        if m:
            n = {"byte": 1, "short": 2, "word": 2, "long": 4, "quad": 8}[m.group(1)]
            run_ += (int(m.group(2)) & (1 << 8 * n) - 1).to_bytes(n, "little")
            continue
        if run_: out.append(run_.decode("latin-1")); run_ = b""
        out.append(l)
    return "\n".join(out + [run_.decode("latin-1")])


class C12(Prop):
    shrink_lines = shrink_files = False
    id = "C12"; title = "date and time macros show one correct instant"
    budget = dict(quick=(24000, 240.0), thorough=(400000, 800.0))
    rule = ("a case is a source using the date and time macros at several places (directly, through macros, headers, stringising, conditionals) or not at all, and 6 clocks: random instants from 1902 to 9999 and instants around midnight, new year, "
            "29 February and daylight saving changes, in 12 zones or none, advancing by up to a day per system call, jumping forwards and backwards between clock reads; non-trivial when the clock moved between start and end of the run or a zone other than UTC applied")

    def cases(self, ctx, rng):
        headers = {"/w/now.h": "char hd[] = __DATE__; char ht[] = __TIME__;\n#define STAMP __DATE__ \" \" __TIME__\n"}
        k = rng.random()
        lines = []
        used = k < 0.75
        nm = rng.choice([1, 1, 1, 2, 3])
        files, mains = {}, []
        for j in range(nm):
            t = []
            if used:
                for n in range(rng.randrange(1, 5)):
                    c = rng.randrange(6)
                    pad = "/* %s */" % ("x" * rng.choice([0, 0, 5000, 20000]))
                    if c == 0: t.append("const char *d%d_%d = __DATE__; %s" % (n, j, pad))
                    elif c == 1: t.append("const char *t%d_%d = __TIME__;" % (n, j))
                    elif c == 2: t.append("char both%d_%d[] = __DATE__ \" \" __TIME__;" % (n, j))
                    elif c == 3: t.append("#define W%d(x) x\nconst char *w%d_%d = W%d(__TIME__), *v%d_%d = W%d(__DATE__);" % (n, n, j, n, n, j, n))
                    elif c == 4: t.append("#include \"pad%d.h\"\nint s%d_%d = sizeof(__DATE__) * 100 + sizeof(__TIME__);" % (n, n, j)); headers["/w/pad%d.h" % n] = "/* %s */\n" % ("p" * rng.choice([1, 9000]))
                    elif c == 5: t.append("#include \"now.h\"\nconst char *st%d_%d = STAMP;" % (n, j)) if not any("now.h" in x for x in t) else None
            else:
                g = Gen(rng, size=0.3, prefix="z%d_" % j); t.append(g.tu())
            files["/w/c%d.c" % j] = "\n".join(x for x in t if x) + "\nint last%d;\n" % j
            mains.append("c%d.c" % j)
        files.update(headers)
        for _ in range(6):
            form = rng.choice(["-E", "-S", "-c"]) if used else rng.choice(["-S", "-c", "-E"])
            m = rng.random()
            if m < 0.35: t = rng.randrange(-2145916800, 253402300799 - 86400 * 400)
            elif m < 0.6: t = rng.randrange(0, 4102444800)
            else:
                y = rng.choice([1999, 2000, 2024, 2025, 2038, 2100, 1970, rng.randrange(1971, 2400)])
                t = rng.choice([days_of(y, 1, 1), days_of(y, 3, 1), days_of(y, 12, 31), days_of(y, rng.randrange(1, 13), rng.choice([1, 9, 10, 28]))]) * 86400 + rng.choice([0, -1, 1, 3599, 36000, 86399])
                if rng.random() < 0.4: t = rule_time(rng.choice(["M3.2.0", "M11.1.0", "M3.5.0", "M10.5.0/3"]), y) + rng.choice([0, -1, 1, 3600, 7200, -3600, 18000, -39600])
            env = {"TZ": rng.choice(ZONES)}
            if rng.random() < 0.1: env = {"PATH": "/"}
            p = dict(clock=[t, rng.randrange(10 ** 9), rng.choice([0, 10 ** 6, 10 ** 8, 10 ** 9, 61 * 10 ** 9, 3600 * 10 ** 9, 86400 * 10 ** 9 // 7])], env=env)
            if rng.random() < 0.5: p["jumps"] = [[rng.randrange(1, 6), rng.choice([1, -1, 3600, -86400, 86400 * 366, -7])] for _ in range(rng.choice([1, 2]))]
            out = [] if form == "-E" else ["/w/%s%s" % (m[:-2], ".s" if form == "-S" else ".o") for m in mains]
            yield dict(base="min", files=files, used=used, form=form, mains=mains, outs=out, so=form == "-E", procs=[dict(argv=["cc", form] + mains, budget=work.BUDGET, **p)])

    def judge(self, ctx, sc):
        p0 = sc["procs"][0]
        r = run(ctx, sc, log=True, wantout=True)
        q = r.p
        clock = p0.get("clock", [0, 0, 0])
        if q["simns"] > 10 ** 9 or p0.get("env", {}).get("TZ") not in (None, "UTC0"): ctx.nontrivial(r)
        info = dict(argv=p0["argv"], clock=p0.get("clock"), env=p0.get("env"), jumps=p0.get("jumps"))
        if q["kind"] != "exit" or q["code"] != 0:
            rf = ref(ctx, dict(sc, procs=[dict(argv=p0["argv"], budget=work.BUDGET)]))
            if rf.ok: return dict(kind="clock-fails", what="the run fails at this clock reading only", stdout=text(q["stdout"]), **info)
            return None
        if not sc["used"]:
            rf = ref(ctx, dict(sc, procs=[dict(argv=p0["argv"], budget=work.BUDGET)]))
            bad = complete(r, sc["files"], rf, sc["outs"])
            if bad or q["out"] != rf.out: return dict(kind="depends-on-clock", what="a source without date and time macros gives other output at another time", **info)
            return None
        # candidate instants: everything the run read from the clock
        times = [rec[4] for rec in r.log if rec[1] == "clock"]
        if not times: times = []
        tz = p0.get("env", {}).get("TZ", "")
        # the C library applies daylight saving rules to years before 1970 only roughly
        cands = {local_date_time(tz, t, d) for t in times for d in ((None,) if t > 2 * 31536000 else (False, True))}
        texts = []
        if sc["form"] == "-E":
            # split per source at the final declarations
            parts, rest = [], q["stdout"]
            for j in range(len(sc["mains"])):
                i = rest.find("last%d" % j)
                parts.append(rest[:i]); rest = rest[i:]
            texts = parts
        else:
            texts = [asm_data(ctx.outfile(o).decode("latin-1")) if sc["form"] == "-S" else ctx.outfile(o).decode("latin-1") for o in sc["outs"]]
        DR = r"(?:Jan|Feb|Mar|Apr|May|Jun|Jul|Aug|Sep|Oct|Nov|Dec) [ 0-9]\d \d{4}"
        for t, m in zip(texts, sc["mains"]):
            t = t.replace("\\0", "\0")
            ds = set(re.findall(DR, t)); ts = set(re.findall(r"(?<!\d)\d\d:\d\d:\d\d(?!\d)", t))
            src = sc["files"]["/w/" + m]
            has_d = re.search(r"= __DATE__|W\d\(__DATE__\)|now\.h", src); has_t = re.search(r"= __TIME__|W\d\(__TIME__\)|\" \" __TIME__|now\.h", src)
            if sc["form"] == "-E":
                if has_d and not ds: return dict(kind="format", what="no date in the format of the C standard in the expansion", text=text(t), **info)
                if has_t and not ts: return dict(kind="format", what="no time in the format of the C standard in the expansion", text=text(t), **info)
            elif (has_d and not ds) or (has_t and not ts):
                return dict(kind="format", what="no date or time in the format of the C standard in the output", **info)
            if len(ds) > 1 or len(ts) > 1: return dict(kind="inconsistent", what="one translation unit shows %d dates and %d times" % (len(ds), len(ts)), dates=sorted(ds), times=sorted(ts), **info)
            ok = any((not ds or d in ds) and (not ts or x in ts) for d, x in cands)
            if (ds or ts) and not ok:
                return dict(kind="wrong-instant", what="the date and time shown are not the local time of any instant the run read", shown=[sorted(ds), sorted(ts)], read=sorted(cands)[:6], **info)
        return None

    def reductions(self, sc):
        yield from Prop.reductions(self, sc)
        p = sc["procs"][0]
        if p.get("clock", [0, 0, 0])[2]: yield dict(sc, procs=[dict(p, clock=[p["clock"][0], 0, 0])])


# ---------------------------------------------------------------- C13
class C13(Prop):
    id = "C13"; title = "the self-compiled compiler behaves like the host-compiled one"; level = "exploration"
    budget = dict(quick=(2250, 240.0), thorough=(400000, 800.0))
    rule = ("a case is a command on a valid, broken or mutated source (generated, repository tests, the compiler's own sources) and 6 worlds mixing system call faults, allocator and stack worlds, split reads, quotas; "
            "the same plan drives the compiler built by the host compiler and the compiler built by itself; everything observable must be equal; non-trivial when a fault fired or the world was not the default one")
    real = Prop.real + ["the compiler compiled by itself from /repo/src (all files), linked with the same libc"]

    def prepare(self, d):
        if os.path.exists(d + "/simcc2"): return None
        err = open(d + "/simcc2.err").read() if os.path.exists(d + "/simcc2.err") else "?"
        return (dict(base="min", files={}, procs=[], selfbuild=True), dict(kind="self-build-fails", what="the compiler cannot build itself: " + err[:1500], static=True))

    def cases(self, ctx, rng):
        k = rng.random()
        if k < 0.06:
            pr = projects.repo_project(rng, True)
            argv, outs, so = projects.command(rng, pr, rng.choice(["obj", "asm", "md", "pp", "ms", "large"]))
            w = dict(base="std", files={o: "" for o in outs if os.path.dirname(o) != "/w"}, argv=argv, outs=outs, so=so, mode="self")
        else: w = workload(rng, ctx)
        if rng.random() < 0.3:
            m = main_of(w["argv"])
            f = break_source(rng, w, m[-1]) if m and m[-1].endswith(".c") else None
            if f: w = dict(w, files=f)
        sc0 = scen(w, {})
        yield sc0
        rf = ref(ctx, sc0)
        for _ in range(1 if w["mode"] == "self" else 6):
            p, kw = {}, {}
            if rng.random() < 0.5 and rf.ops:
                p["faults"] = any_fault(rng, rng.choice(rf.ops))
                if rng.random() < 0.3: p["faults"] += any_fault(rng, rng.choice(rf.ops))
            # (the order of allocations inside one expression is the building compiler's choice, so no allocation faults here)
            if rng.random() < 0.5: p["heap"] = rand_heap(rng)
            if rng.random() < 0.4: p["stack"] = rand_stack(rng)
            if rng.random() < 0.2: p["chunk"] = rng.randrange(1, 1 << 30)
            if rng.random() < 0.2: p["env"] = rand_env(rng)
            if rng.random() < 0.1: kw["quota"] = rng.choice([0, 100, 1000, 5000])
            if rng.random() < 0.1: p["maxfd"] = rng.choice([3, 4, 5])
            if rng.random() < 0.2: p["clock"] = [rng.randrange(0, 4000000000), 5, 1000000]
            yield scen(w, p, **kw)

    def judge(self, ctx, sc):
        if sc.get("selfbuild"): return None
        a = run(ctx, sc, wantout=True, log=True)
        b = ctx.sim(sc["base"], sc["files"], sc["procs"], which="B", quota=sc.get("quota"), wantout=True, log=True)
        x, y = a.p, b.p
        if fired(x) or any(k in sc["procs"][0] for k in ("heap", "stack", "env", "chunk", "clock")): ctx.nontrivial(a)
        info = dict(argv=sc["procs"][0]["argv"], host=text(x.get("stdout", "")), self=text(y.get("stdout", "")), faults=sc["procs"][0].get("faults"))
        if "cpu" in (x["kind"], y["kind"]):
            if x["kind"] != y["kind"]: return dict(kind="status-differs", what="host-built: %s, self-built: %s" % (describe(x), describe(y)), **info)
            return None
        if (x["kind"], x["code"]) != (y["kind"], y["code"]): return dict(kind="status-differs", what="host-built: %s, self-built: %s" % (describe(x), describe(y)), **info)
        if x["kind"] in ("signal", "heap"): return None
        if (x["out"], x["err"]) != (y["out"], y["err"]): return dict(kind="messages-differ", what="the two compilers print different text", **info)
        fa = {p: v for p, v in a.files.items()}; fb = {p: v for p, v in b.files.items()}
        if fa != fb: return dict(kind="output-differs", what="the two compilers leave different files: %s" % ", ".join(sorted(p for p in set(fa) | set(fb) if fa.get(p) != fb.get(p))), **info)
        la = [l[1:] for l in a.log]; lb = [l[1:] for l in b.log]
        if la != lb:
            i = next((i for i in range(min(len(la), len(lb))) if la[i] != lb[i]), min(len(la), len(lb)))
            return dict(kind="calls-differ", what="the sequences of file operations differ at call %d" % i, host_call=str(la[i:i + 1]), self_call=str(lb[i:i + 1]), **info)
        return None

    def idents(self, ctx, sc):
        return [run(ctx, sc).ident(), ctx.sim(sc["base"], sc["files"], sc["procs"], which="B", quota=sc.get("quota")).ident()]


# ---------------------------------------------------------------- C14
def link_checks(rng):
    """A freestanding program of several objects in which every reference is checked by value.
    Returns files, mains, expected result of _start."""
    n = rng.choice([2, 2, 3, 4])
    files = [[] for _ in range(n)]
    checks = []        # expressions over global names with expected values
    ids = 0
    hides = [set() for _ in range(n)]    # global names that a static name of the file hides
    visible = lambda k, e: not (set(re.findall(r"\w+", e)) & hides[k])
    for k in range(n):
        # what follows is far from what is referred to
        if rng.random() < 0.05:
            ids += 1
            if rng.random() < 0.7:
                # jumps over all of it, and back
                files[k].append("int leap%d(int x) { int n = 0; while (n < x) { if (n++) continue; %s } return n + %d; }" % (ids, "x = x * 2 - x; " * rng.choice([300, 1000, 2500]), ids))
                checks.append(("int leap%d(int x);" % ids, "leap%d(2)" % ids, ids + 2))
            else: files[k].append("char far%d[%d] = { [%d] = 1 };" % (ids, 70000, 69990))
        # unrelated material shifts the positions of what follows
        for _ in range(rng.randrange(0, 4)):
            ids += 1
            c = rng.randrange(6)
            if c == 0: files[k].append("static int pad%d[%d] = { %d };" % (ids, rng.randrange(1, 40), ids))
            elif c == 1: files[k].append("static long same_name = %d; long get%d_same(void) { return same_name; }" % (1000 + k, k)) if not any("same_name" in x for x in files[k]) else None
            elif c == 2: files[k].append("static int helper(int x) { return x + %d; } int call%d_helper(int x) { return helper(x); }" % (k * 7, k)) if not any("call%d_helper" % k in x for x in files[k]) else None
            elif c == 3: files[k].append("const char *txt%d(void) { return \"%s\"; }" % (ids, "s" * rng.randrange(1, 20)))
            elif c == 4: files[k].append("char gap%d = %d;" % (ids, ids % 100))
            elif c == 5: files[k].append("int bss%d[%d];" % (ids, rng.randrange(1, 30)))
            if c == 1: e = ("long get%d_same(void);" % k, "get%d_same()" % k, 1000 + k)
            elif c == 2: e = ("int call%d_helper(int x);" % k, "call%d_helper(5)" % k, 5 + k * 7)
            elif c == 4: e = ("extern char gap%d;" % ids, "gap%d" % ids, ids % 100)
            elif c == 5: e = ("extern int bss%d[];" % ids, "bss%d[0]" % ids, 0)
            else: continue
            if e not in checks: checks.append(e)
        for _ in range(rng.randrange(1, 4)):
            ids += 1
            c = rng.randrange(5)
            v = 10000 + ids * 17
            if c == 4:
                z = rng.choice([40, 130, 300, 9000])
                files[k].append("long a%d[%d] = { 1, %d, [%d] = 7 };\nlong *end%d = &a%d[%d];" % (ids, z, v, z - 1, ids, ids, z - 1))
                checks.append(("extern long a%d[];" % ids, "a%d[1]" % ids, v)); checks.append(("extern long *end%d;" % ids, "*end%d" % ids, 7))
            if c == 0: files[k].append("int f%d(void) { return %d; }" % (ids, v)); checks.append(("int f%d(void);" % ids, "f%d()" % ids, v))
            elif c == 1: files[k].append("int g%d = %d;" % (ids, v)); checks.append(("extern int g%d;" % ids, "g%d" % ids, v))
            elif c == 2: files[k].append("long a%d[4] = { 1, %d, 3, 4 };" % (ids, v)); checks.append(("extern long a%d[4];" % ids, "a%d[1]" % ids, v))
            elif c == 3: files[k].append("struct { char c; int v; } st%d = { 1, %d }; int *pst%d(void) { return &st%d.v; }" % (ids, v, ids, ids)); checks.append(("int *pst%d(void);" % ids, "*pst%d()" % ids, v))
    # static things named like global ones of other files
    for d, e, v in rng.sample(checks, min(len(checks), rng.randrange(0, 4))):
        x = re.match(r"[fga]\d+|gap\d+|bss\d+", e)
        k = rng.randrange(n)
        if not x or re.search(r"\b%s\b" % x.group(0), "\n".join(files[k])): continue
        hid = x.group(0); ids += 1; w = 20000 + ids
        files[k].insert(rng.randrange(len(files[k]) + 1), rng.choice(["static int %s(void) { return %d; } int own%d(void) { return %s(); }", "static int %s = %d; int own%d(void) { return %s; }"]) % (hid, w, ids, hid))
        hides[k].add(hid)
        checks.append(("int own%d(void);" % ids, "own%d()" % ids, w))
    # references across objects held in data
    m = 0
    base = list(checks)
    for d, e, v in rng.sample(base, min(len(base), rng.randrange(0, 5))):
        k = rng.randrange(n); m += 1
        if not visible(k, e): continue
        own = "\n".join(files[k])
        if e.startswith("f"):
            files[k].append("%s\nint (*pf%d)(void) = %s;" % (d, m, e[:-2])); checks.append(("extern int (*pf%d)(void);" % m, "pf%d()" % m, v))
        elif e.startswith("g") and not e.startswith(("gap", "get")):
            files[k].append("%s\nint *pg%d = &%s;" % (d, m, e)); checks.append(("extern int *pg%d;" % m, "*pg%d" % m, v))
        elif e.startswith("a"):
            files[k].append("%s\nlong *pa%d = %s + 1;" % (d, m, e[:-3])); checks.append(("extern long *pa%d;" % m, "*pa%d" % m, v))
        elif e.startswith("bss"):
            files[k].append("%s\nint *pb%d = &%s;" % (d, m, e)); checks.append(("extern int *pb%d;" % m, "*pb%d" % m, v))
    rng.shuffle(checks)
    # every object also calls into the others
    for k in range(n):
        vis = [c for c in checks if visible(k, c[1])]
        pick = rng.sample(vis, min(len(vis), rng.randrange(1, 6)))
        own = "\n".join(files[k])
        body, exp = [], 0
        for j, (d, e, v) in enumerate(pick):
            body.append("r = r * 31 + %s;" % e); exp = (exp * 31 + v) & 0xffffffffffffffff
        ds = "\n".join(sorted({d for d, e, v in pick if d not in own and not own_defines(own, d)}))
        files[k].append("%s\nunsigned long sum%d(void) { unsigned long r = 0; %s return r; }" % (ds, k, " ".join(body)))
        checks.append(("unsigned long sum%d(void);" % k, "sum%d()" % k, exp))
    s = rng.randrange(n)
    own = "\n".join(files[s])
    body, exp = [], 0
    checks = [c for c in checks if visible(s, c[1])]
    for d, e, v in checks: body.append("r = r * 31 + %s;" % e); exp = (exp * 31 + v) & 0xffffffffffffffff
    ds = "\n".join(sorted({d for d, e, v in checks if d not in own and not own_defines(own, d)}))
    files[s].insert(rng.choice([len(files[s])]), "%s\nunsigned long _start(void) { unsigned long r = 0; %s return r; }" % (ds, "\n".join(body)))
    mains = ["k%d.c" % k for k in range(n)]
    texts = ["\n".join(x for x in f if x) + "\n" for f in files]
    if rng.random() < 0.3:                     # long names that differ at their ends only
        long = rng.choice(["name_", "n" * 20 + "_", "name_of_a_function_or_variable_of_this_large_program_"])
        texts = [re.sub(r"\b(f|g|a|pf|pg|pa|own|sum|end)(\d+)\b", lambda x: x.group(1) + long + x.group(2), t) for t in texts]
    return {"/w/" + m: t for m, t in zip(mains, texts)}, mains, exp


def own_defines(own, d):
    """Whether the file already defines what declaration d names."""
    n = re.search(r"(\w+)(?:\(|;|\[|\)\()", d.replace("(*", "")).group(1)
    return bool(re.search(r"^(?!extern)[^\n]*\b%s\b[^\n;(]*(=|\{)|^[^\n]*\b%s\([^)\n]*\) \{|^int %s\[|^char %s =" % (n, n, n, n), own, re.M)) or ("pst" in n and n + "(void) {" in own)


FOREIGN = [(4, 1), (4, 0), (4, 7), (5, 2), (5, 0), (6, 0), (6, 2), (7, 3), (7, 9), (7, 255), (8, 1), (18, 0x28), (18, 3), (18, 0xb7), (19, 1), (20, 0), (20, 2), (48, 1), (52, 52), (52, 0), (58, 40), (58, 0)]


def grow(b, count):
    """The same object (a string of bytes) with more local symbols in front of its global ones."""
    b = b.encode("latin1")
    shoff, = struct.unpack_from("<Q", b, 40)
    shentsize, shnum, shstr = struct.unpack_from("<HHH", b, 58)
    sh = [list(struct.unpack_from("<IIQQQQIIQQ", b, shoff + i * shentsize)) for i in range(shnum)]
    data = [b[h[4]:h[4] + h[5]] for h in sh]
    k = next(i for i in range(shnum) if sh[i][1] == 2)
    st, loc = sh[k][6], sh[k][7]
    add, names = b"", data[st]
    for i in range(count):
        if i % 64 == 0:
            name = len(names); names += b"grown%d\0" % i
        add += struct.pack("<IBBHQQ", name, 0, 0, 1, 0, 0)
    data[k] = data[k][:24 * loc] + add + data[k][24 * loc:]
    data[st] = names
    sh[k][7] += count
    for i in range(shnum):
        if sh[i][1] != 4: continue
        d = bytearray(data[i])
        for o in range(0, len(d), 24):
            info, = struct.unpack_from("<Q", d, o + 8)
            if info >> 32 >= loc: struct.pack_into("<Q", d, o + 8, info + (count << 32))
        data[i] = bytes(d)
    out = bytearray(b[:64])
    struct.pack_into("<Q", out, 40, 64)
    pos = 64 + 64 * shnum
    for i in range(shnum):
        sh[i][5] = len(data[i])
        if i: sh[i][4] = pos; pos += len(data[i])
        out += struct.pack("<IIQQQQIIQQ", *sh[i])
    for i in range(1, shnum): out += data[i]
    return bytes(out).decode("latin1")


class C14(Prop):
    shrink_lines = shrink_files = False
    id = "C14"; title = "building in steps through stored objects equals one step"
    budget = dict(quick=(2200, 240.0), thorough=(400000, 800.0))
    rule = ("a case is a freestanding program of 2 to 4 files whose references to each other (calls, data, addresses in data, equal static names) are checked by value, built in one step, in steps through stored objects in 2 orders, "
            "(now and then with up to 140000 more local symbols in the objects) and with 8 damaged or faulted variants of the link: an object cut at a byte, empty, of a foreign kind, not an object, or reads that fail or come short; the linked image is loaded at its address and entered; "
            "non-trivial when the image ran, or an object was damaged or a fault fired")
    real = Prop.real + ["the linked image itself, executed natively in a forked process"]

    def cases(self, ctx, rng):
        if rng.random() < 0.8: files, mains, exp = link_checks(rng)
        else:
            pr = projects.link_project(rng); files, mains, exp = pr["files"], pr["mains"], None
        flags = rng.choice([[], [], ["-fcmodel=large"]])
        order = list(range(len(mains)))
        sc = dict(base="min", files=files, mains=mains, expect=exp, flags=flags, order=order, proc={}, damage=None)
        yield dict(sc, form="one")
        for _ in range(2):
            o = list(order); rng.shuffle(o)
            p = {}
            if rng.random() < 0.3: p["chunk"] = rng.randrange(1, 1 << 30)
            if rng.random() < 0.3: p["heap"] = rand_heap(rng)
            yield dict(sc, form="steps", order=o, proc=p)
        if rng.random() < 0.3: yield dict(sc, form="mixed", order=order)
        if rng.random() < 0.5:
            gas = [k for k in order if rng.random() < 0.7]
            sc = dict(sc, gas=gas)
            o = list(order); rng.shuffle(o)
            yield dict(sc, form="steps", order=o, proc=dict(chunk=rng.randrange(1, 1 << 30)) if rng.random() < 0.3 else {})
        if rng.random() < 0.04: yield dict(sc, form="steps", grow=[rng.choice([0, 1, 200, 3000, 30000, 65500, 65536, 70000]) for _ in mains])
        for _ in range(8):
            k = rng.random()
            if k < 0.7: yield dict(sc, form="steps", damage=[rng.randrange(len(mains)), rng.choice(["cut", "cut", "cut", "cut", "cuttail", "cuthead", "empty", "text", "zerohead", "foreign", "foreign", "garbage"]), rng.random()])
            else: yield dict(sc, form="steps", proc=rng.choice([dict(faults=[[rng.randrange(60), "err", 5]]), dict(faults=[[rng.randrange(60), "short", 3], [rng.randrange(60), "short", 1]]), dict(allocfail=[rng.randrange(400)]), dict(chunk=rng.randrange(1, 1 << 30))]))

    def build(self, ctx, sc):
        """Returns (result, image bytes or None, objects)."""
        mains = [sc["mains"][i] for i in sc["order"]]
        if sc["form"] == "one":
            r = ctx.sim(sc["base"], sc["files"], [dict(argv=["cc"] + sc["flags"] + mains + ["-o", "prog"], budget=work.BUDGET, **sc["proc"])], wantout=True)
            return r, ctx.outfile("/w/prog") if r.p["kind"] == "exit" and r.p["code"] == 0 else None, None
        objs = work.compile_objects(ctx, dict(base=sc["base"], files=sc["files"], mains=mains, incs=[], defs=[]), sc["flags"], [k for k, i in enumerate(sc["order"]) if i in sc.get("gas", [])])
        if objs is None: return None, None, None
        names = [m[:-2] + ".o" for m in mains]
        if sc.get("damage"):
            k, how, x = sc["damage"]
            p = "/w/" + names[k % len(names)]
            b = objs[p]
            n = int(x * len(b))
            if how == "cut": b = b[:n]
            elif how == "cuttail": b = b[:len(b) - 1 - int(x * 200)]
            elif how == "cuthead": b = b[:int(x * 120)]
            elif how == "empty": b = ""
            elif how == "text": b = ("this is not an object\n" * 40)[:n + 1]
            elif how == "zerohead": b = "\0" * 16 + b[16:]
            elif how == "foreign":  # An object of another class, byte order, machine or version.
                off, v = FOREIGN[int(x * 4096) % len(FOREIGN)]
                b = b[:off] + chr(v) + b[off + 1:]
            elif how == "garbage":
                g = random.Random(n)
                b = b[:g.choice([4, 5, 6, 7, 8, 16])] + "".join(chr(g.randrange(256)) for _ in range(n % 4096))
            objs[p] = b
        if sc.get("grow"):
            for k, c in enumerate(sc["grow"]): objs["/w/" + names[k % len(names)]] = grow(objs["/w/" + names[k % len(names)]], c)
        files = dict(objs)
        args = list(names)
        if sc["form"] == "mixed":
            files[("/w/" + mains[0])] = sc["files"]["/w/" + mains[0]]; args[0] = mains[0]
        r = ctx.sim(sc["base"], files, [dict(argv=["cc"] + sc["flags"] + args + ["-o", "prog"], budget=work.BUDGET, **sc["proc"])], wantout=True, log=True)
        return r, ctx.outfile("/w/prog") if r.p["kind"] == "exit" and r.p["code"] == 0 else None, objs

    def judge(self, ctx, sc):
        r, img, objs = self.build(ctx, sc)
        if r is None: return None
        q = r.p
        info = dict(form=sc["form"], order=sc["order"], damage=sc.get("damage"), proc=sc["proc"], stdout=text(q["stdout"]))
        faulty = bool(sc.get("damage") or any(k in sc["proc"] for k in ("faults", "allocfail")))
        if faulty: ctx.nontrivial(r)
        if q["kind"] != "exit": return dict(kind="link-crash", what="the link ends with %s" % describe(q), **info)
        if q["code"]:
            if not faulty and sc["expect"] is not None: return dict(kind="link-fails", what="the link fails on complete objects", **info)
            if not q["stdout"].replace("Warning! Emitting executables is still work in progress.", "").strip() and not q["stderr"].strip():
                return dict(kind="silent-failure", what="the link fails without a message", **info)
            return None
        if img is None: return dict(kind="no-image", what="exit status 0 but no executable", **info)
        good = dict(sc, damage=None, proc={})
        if sc.get("damage"):
            r2, img2, _ = self.build(ctx, good)
            if img2 != img: return dict(kind="damaged-accepted", what="a damaged object (%s) was linked into a different program" % (sc["damage"],), **info)
            return None
        if faulty:
            r2, img2, _ = self.build(ctx, good)
            if img2 is not None and img2 != img: return dict(kind="fault-accepted", what="a fault while linking was turned into a different program", **info)
            return None
        ctx.nontrivial(r)
        res = runimage(ctx, img)
        if sc["expect"] is not None:
            if res != "%016x" % sc["expect"]: return dict(kind="wrong-reference", what="the linked program computes %s, its references should give %016x" % (res, sc["expect"]), **info)
        else:
            r1, one, _ = self.build(ctx, dict(sc, form="one", order=list(range(len(sc["mains"]))), proc={}))
            if one is None: return None
            res1 = runimage(ctx, one)
            if res != res1: return dict(kind="steps-differ", what="built in steps the program computes %s, in one step %s" % (res, res1), **info)
        return None

    determinism = False

    def reductions(self, sc):
        if sc["proc"]: yield dict(sc, proc={})
        for k in range(len(sc.get("grow") or [])):
            if sc["grow"][k]: yield dict(sc, grow=sc["grow"][:k] + [0] + sc["grow"][k + 1:])
        if sc["order"] != sorted(sc["order"]): yield dict(sc, order=sorted(sc["order"]))
        if sc["flags"]: yield dict(sc, flags=[])
        for k in sc.get("gas", []): yield dict(sc, gas=[x for x in sc["gas"] if x != k])

    def trace(self, ctx, sc):
        r, img, objs = self.build(ctx, sc)
        if r is None: return []
        return ["%s fault=%d fd=%d %d %d -> %d %s" % (b, c, d, e, f, g, h or "") for a, b, c, d, e, f, g, h in r.log[-200:]] + [describe(r.p)]


def runimage(ctx, img):
    """Loads a linked image and calls its entry; returns 16 hex digits or a description."""
    p = subprocess.run([ctx.d + "/runexe"], input=img, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
    return p.stdout.decode().strip() if p.returncode == 0 else "abnormal end %d" % p.returncode


ALL = {c.id: c for c in (C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13, C14)}
