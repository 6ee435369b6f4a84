"""Properties of compiled code, decided in SIM-2."""
import hashlib, json, os, random, re
import abi, engine, objload, sim2
from stress import stress
from longrun import Long, PERIOD
from shared import Shared
from vol import Vol
from jumps import Jumps
from bounds import Bounds
from gen_c import Gen, FEATURES
from sim1 import SimError
from engine import h64


class Refused(Exception):
    """The compiler refuses a program the reference compiler accepts."""


class Prop2(engine.Prop):
    shrink_lines = shrink_files = False
    rule = "a run in which at least one injected event took effect"
    measure = "distinct hashes of the run's complete record: logs, results, memory dumps, program counters at which events took effect"
    real = ["the whole compiler (/repo/src), compiling the program inside SIM-1", "the compiled machine code, executed by the processor instruction by instruction"]
    stub = ["the C library and the kernel's signal delivery (emulated gates)", "threads (green threads of the simulator)", "devices", "loader"]
    assumptions = ["the reference compiler (gcc) compiles the foreign halves and reference programs correctly"]

    def machine(self, ctx):
        if "machine" not in ctx.srv: ctx.srv["machine"] = sim2.Machine(ctx.d + "/machine")
        return ctx.srv["machine"]

    def mrun(self, ctx, image, threads, **kw):
        r = self.machine(ctx).run(image, threads, **kw)
        st = ctx.st
        st.c["runs"] += 1
        st.c["instructions"] += r["steps"]
        st.c["simns"] += r["steps"]          # one simulated nanosecond per stepped instruction
        for k, nm in enumerate(("junk", "signal", "switch", "longjmp", "abi_call", "abi_return", "device", "thread_switch")):
            n = r.get("n", [0] * 8)[k]
            if n: st.fired[nm] += n
        st.kinds[r["st"]] += 1
        h = h64(r["hash"])
        st.traces.add(h)
        if sum(r.get("n", [])): st.distinct.add(h)
        self.ids.append(r["hash"])
        return r

    ids = []

    def idents(self, ctx, sc):
        self.ids = []
        self.judge(ctx, sc)
        return list(self.ids)

    def cc(self, ctx, src, flags=()):
        o, r = sim2.cc(ctx, src, flags)
        if o is None:
            ms = "-fabi=ms" in flags
            if sim2.gcc(ctx, src, ["-O0", "-fwrapv"] + (["-mabi=ms"] if ms else [])) is not None:
                raise Refused("the compiler ends with %s %s on a program the reference compiler accepts: %s" % (r["kind"], r["code"], " ".join(r["out"].split())[-300:]))
            ctx.st.probes["rejected by both compilers"] += 1
        return o

    def judge(self, ctx, sc):
        try: return self.decide(ctx, sc)
        except Refused as e: return dict(kind="refused", what=str(e))


    def trace(self, ctx, sc):
        out = []
        self.tracing = out
        try: self.judge(ctx, sc)
        except Exception as e: out.append("trace: %r" % e)
        finally: self.tracing = None
        return [x[:6000] for x in out][:40]

    tracing = None

    def note(self, s):
        if self.tracing is not None: self.tracing.append(s)


def outcome(r):
    """What a run shows: how it ended, its log and its threads' results."""
    if r["st"] == "fault": return "fault signal %d at address %s, instruction %s" % (r["fault"][0], r["fault"][1], r["fault"][2])
    return r["st"]


def logdiff(a, b):
    x, y = a.split(), b.split()
    for i, (p, q) in enumerate(zip(x, y)):
        if p != q: return "entry %d of the log is %s, expected %s" % (i, p, q)
    if len(x) != len(y): return "log has %d entries, expected %d" % (len(x), len(y))
    return None


# ---------------------------------------------------------------- C17, C18
class Interop(Prop2):
    ms = False
    budget = dict(quick=(4000, 200.0), thorough=(200000, 800.0))

    def cases(self, ctx, rng):
        sc = abi.generate(rng, self.ms)
        sc["seed"] = rng.getrandbits(32)
        yield sc

    def image(self, ctx, sc, comp):
        P = abi.Program(sc)
        fl = ["-mabi=ms"] if self.ms else []
        objs = []
        for side in (0, 1):
            src = P.source(side)
            if comp and side == 0: o = self.cc(ctx, src, ["-fabi=ms"] if self.ms else [])
            else: o = sim2.gcc(ctx, src, fl)
            if o is None: return None, side
            objs.append((o, comp and side == 0))
        syms = {"f%d_x" % j: sim2.gate(sim2.THUNK0 + j) for j in range(len(sc["funcs"]))}
        im = sim2.Image(objs, lambda name, k: syms.get(name))
        im.thunks = [abi.descriptor(P.T, f, sim2.THUNK0 + j, im.sym("f%d" % j, f["side"])) for j, f in enumerate(sc["funcs"])]
        return im, None

    def decide(self, ctx, sc):
        ref, bad = self.image(ctx, sc, False)
        if ref is None: raise SimError("the reference compiler rejects the program: %s" % ctx.tmp.get("gccerr", "")[-600:])
        opts = dict(ms=1) if self.ms else {}
        seed = sc["seed"]
        a = self.mrun(ctx, ref, [(ref.sym("start", 1), [])], seed=seed, **opts)
        if a["st"] != "done" or a["viol"]: raise SimError("the reference run fails: %s %s" % (outcome(a), a["viol"]))
        try: im, bad = self.image(ctx, sc, True)
        except objload.LoadError as e: return dict(kind="object", what="the object does not load: %s" % e)
        if im is None: return None
        for k in range(2):
            r = self.mrun(ctx, im, [(im.sym("start", 1), [])], seed=seed + k, **opts)
            self.note("run with seed %d: %s log %s" % (seed + k, outcome(r), r["log"]))
            if r["st"] != "done": return dict(kind="fault", what="compiled and foreign code calling each other: %s" % outcome(r))
            if r["viol"]: return dict(kind="convention", what="; ".join(r["viol"][:4]))
            d = logdiff(r["log"], a["log"])
            if d:
                v = dict(kind="value", what="a value did not arrive intact: " + d)
                if sc.get("finding"): v["key"] = sc["finding"] + ": " + d
                return v
        return None

    @staticmethod
    def calls(sc):
        st = [op for f in sc["funcs"] for op in f["ops"] if op[0] == "call"]
        while st:
            op = st.pop(); yield op
            st += [a for a in op[3] if isinstance(a, list) and a[0] == "C"]

    def delarg(self, sc, j, i):
        for op in list(self.calls(sc)):
            if op[1] == j: del op[3][i]

    def reductions(self, sc):
        F = sc["funcs"]
        for k, op in enumerate(self.calls(sc)):
            for i, a in enumerate(op[3]):
                if isinstance(a, list) and a[0] == "C":
                    c = json.loads(json.dumps(sc)); list(self.calls(c))[k][3][i] = 5; yield c
        for j, f in enumerate(F):
            for i in range(len(f["ops"])):
                c = json.loads(json.dumps(sc)); del c["funcs"][j]["ops"][i]; yield c
        for j, f in enumerate(F):
            if not f["ops"] and (f.get("pass") is None) and not any(op[1] == j for op in self.calls(sc)) and f["params"] and "V" not in f["params"]:
                c = json.loads(json.dumps(sc)); c["funcs"][j].update(params=[], ret=None, fl=[]); c["funcs"][j].pop("vseq", None); c["funcs"][j].pop("pass", None); yield c
            for x in f["fl"]:
                c = json.loads(json.dumps(sc)); c["funcs"][j]["fl"].remove(x); yield c
            if f.get("pass") is not None:
                c = json.loads(json.dumps(sc)); c["funcs"][j].pop("pass"); yield c
            if f["ret"]:
                c = json.loads(json.dumps(sc)); c["funcs"][j]["ret"] = None; yield c
            if f.get("vseq") is not None:
                for i in range(len(f["vseq"])):
                    if any(g.get("vaseq") == f["vseq"] for g in F): break
                    c = json.loads(json.dumps(sc)); del c["funcs"][j]["vseq"][i]
                    self.delarg(c, j, len(f["params"]) + i); yield c
            for i in range(len(f["params"])):
                if f["params"][i] == "V" or (f.get("vseq") is not None and i == len(f["params"]) - 1) or "V" in f["params"]: continue
                c = json.loads(json.dumps(sc)); del c["funcs"][j]["params"][i]
                self.delarg(c, j, i); yield c
        for t in sc["types"]:
            for i in range(len(sc["types"][t])):
                if len(sc["types"][t]) > 1:
                    c = json.loads(json.dumps(sc)); del c["types"][t][i]; yield c

    def trace(self, ctx, sc):
        P = abi.Program(sc)
        return super().trace(ctx, sc) + ["compiled half:\n" + P.source(0), "foreign half:\n" + P.source(1)]


class C17(Interop):
    id = "C17"; title = "System V code interoperates with any conforming foreign code"
    rule = ("a case is 2 to 8 functions on alternating sides of the System V boundary, with random parameter and result types (integers, _Bool, floating point, pointers, structures and unions, nested, with arrays and bit-fields, up to 200 bytes; variadic tails and va_list arguments), " +
            "calling each other through gates that overwrite everything the convention lets a callee change (caller-saved registers, unused parts of argument and result registers, padding, the red zone of the caller), place arguments against unmapped pages, and check on return what a callee keeps; non-trivial when a call crossed the boundary; " +
            "the values each side sees must equal those of the same program compiled wholly by the reference compiler")


class C18(Interop):
    id = "C18"; title = "Microsoft ABI code interoperates with any conforming foreign code"
    rule = ("as for C17 with the Microsoft convention (-fabi=ms): shadow space overwritten by the callee's side, aggregates of other sizes by reference to copies that may be overwritten, rsi, rdi and xmm6 to 15 kept, results by hidden pointer; non-trivial when a call crossed the boundary")
    ms = True


# ---------------------------------------------------------------- C15
SIMDECL = "typedef unsigned long long W; extern void sim_log(W), sim_bytes(void *, W), sim_hlog(W);\n"


def protos(funcs): return "".join("unsigned long %s(%s);\n" % (f, ", ".join(ts) or "void") for f, ts in funcs)


def pure(rng, p):
    """A translation unit without static state: (text, functions other units may call)."""
    g = Gen(rng, size=0.5, features={f for f in FEATURES if f not in ("static",) and rng.random() < 0.6}, prefix=p + "_")
    t = g.tu(nglobals=0, nfuncs=rng.randrange(1, 3))
    s, fs = stress(rng, p + "_s")
    return SIMDECL + t + s, [f for f in g.funcs] + fs, g


def calls(rng, g, funcs, n):
    """Statements that call functions with constant arguments and log their results."""
    o = []
    for _ in range(n):
        f, ts = rng.choice(funcs)
        o.append("\tsim_log(%s);" % g.call(f, ts, g.new_env(), 2))
    return o


def stateful(rng, p, shared, size=0.7):
    """A unit with globals that calls the shared functions too; the generator and its text."""
    g = Gen(rng, size=size, prefix=p + "_")
    t = SIMDECL + protos(shared) + g.tu()
    own = list(g.funcs)
    if rng.random() < 0.5:
        s, fs = stress(rng, p + "_s")
        t += s; own += fs
    return g, t, own


def writable(image, k):
    """Dumps of the writable segments of object k, which lies at its own place."""
    lo = sim2.CODE + 0x1000000 * k
    return [(a, len(d)) for kind, a, d, prot in image.segs if lo <= a < lo + 0x1000000 and prot == 3]


class C15(Prop2):
    id = "C15"; title = "A compiled program is not disturbed by asynchronous signal delivery"
    rule = ("a case is a program of 2 to 4 compiled units (generated code with globals, calls, aggregates, floating point, variable arrays; or compiled code calling through the System V gate) with 1 or 2 compiled signal handlers that share re-entrant functions with it, and 4 plans: " +
            "every byte below the red zone overwritten before every instruction, and three with up to 40 signals delivered before chosen instructions (spread or in bursts, handlers nested or not), the kernel's frame and registers emulated; " +
            "non-trivial when a signal was delivered or bytes were overwritten; a run is compared with the undisturbed one (log, final memory of the program, and each handler's memory with the handler run alone as often)")
    budget = dict(quick=(400, 200.0), thorough=(100000, 800.0))
    maxlen = 60000

    def cases(self, ctx, rng):
        sh, fs, g0 = pure(rng, "p")
        src = {"p.c": sh}
        if rng.random() < 0.35:
            a = abi.generate(rng, False)
            P = abi.Program(a)
            src["m.c"] = P.source(0) + "void start(void) { f0_x(); }\n"
            src["n.c"] = P.source(1).replace("void start(void) { f0_x(); }", "")
            prog = a
        else:
            g, t, own = stateful(rng, "m", fs)
            t += g.checksum("m_chk")
            t += "void start(void)\n{\n" + "\n".join(calls(rng, g, own + fs, rng.randrange(2, 5))) + "\n\tsim_log(m_chk());\n}\n"
            src["m.c"] = t
            prog = None
        nh = rng.choice([1, 1, 2])
        for h in range(nh):
            g, t, own = stateful(rng, "h%d" % h, fs, 0.3)
            pick = rng.sample(own + fs, min(len(own + fs), 2))
            t += "unsigned long h%d_n, h%d_acc; double h%d_d;\n" % (h, h, h)
            t += "void h%d(int sig)\n{\n\th%d_n++; h%d_d = h%d_d * 0.5 + sig;\n" % (h, h, h, h)
            for f, ts in pick: t += "\th%d_acc = h%d_acc * 31 + %s;\n" % (h, h, g.call(f, ts, g.new_env(), 2))
            t += "}\nvoid h%d_run(unsigned long n) { while (n--) h%d(%d); }\n" % (h, h, 10 + h)
            src["h%d.c" % h] = t
        sc = dict(src=src, prog=prog, nh=nh, seed=rng.getrandbits(31))
        sc["plans"] = []
        try: im = self.image(ctx, sc)
        except Refused: yield sc; return
        if im is None: return
        r = self.ref(ctx, sc, im)
        n = r["steps"]
        if r["st"] != "done" or n > self.maxlen: ctx.st.probes["program too long"] += 1; return
        sc["plans"] = [dict(junk=[0, n + 1], ev=[], nest=0)]
        for k in range(3):
            m = rng.choice([1, 3, 10, 40])
            nest = int(rng.random() < 0.4)
            if rng.random() < 0.5: at = [rng.randrange(1, n + 1) for _ in range(m)]
            else:
                b = rng.randrange(1, n + 1)
                at = [b + i * rng.randrange(1, 4) for i in range(m)]
            ev, used = [], set()
            for s in at:
                for j in range(2 if nest and nh > 1 else 1):
                    x = s + j * rng.randrange(1, 60)
                    if x not in used: used.add(x); ev.append([x, "H", rng.randrange(nh)])
            sc["plans"].append(dict(junk=[0, 0], ev=sorted(ev), nest=nest))
        yield sc

    def image(self, ctx, sc):
        objs = []
        for n in sorted(sc["src"]):
            o = self.cc(ctx, sc["src"][n])
            if o is None: return None
            objs.append((o, True))
        order = sorted(sc["src"])
        fx = {}
        if sc["prog"]:
            for j, f in enumerate(sc["prog"]["funcs"]): fx["f%d_x" % j] = ("f%d" % j, order.index("m.c" if f["side"] == 0 else "n.c"))
        im = sim2.Image(objs, lambda name, k: sim2.gate(sim2.THUNK0 + int(name[1:-2])) if name in fx else None)
        if fx:
            T = abi.Types(sc["prog"]["types"], False)
            im.thunks = [abi.descriptor(T, f, sim2.THUNK0 + j, im.sym(*fx["f%d_x" % j])) for j, f in enumerate(sc["prog"]["funcs"])]
        im.order = order
        im.mem = [(n, d) for k, n in enumerate(order) for d in writable(im, k)]
        return im

    def ref(self, ctx, sc, im):
        return self.mrun(ctx, im, [(im.sym("start"), [])], dumps=[d for n, d in im.mem], seed=sc["seed"], step=1, maxsteps=self.maxlen + 1)

    def decide(self, ctx, sc):
        im = self.image(ctx, sc)
        if im is None: return None
        a = self.ref(ctx, sc, im)
        if a["st"] != "done": return None
        alone = {}
        for plan in sc["plans"]:
            kw = dict(junkevery=1, jfrom=plan["junk"][0], jto=plan["junk"][1]) if plan["junk"][1] else {}
            if plan["nest"]: kw["stephandlers"] = 1
            r = self.mrun(ctx, im, [(im.sym("start"), [])], dumps=[d for n, d in im.mem], events=plan["ev"], handlers=[im.sym("h%d" % h) for h in range(sc["nh"])], seed=sc["seed"], step=1, maxsteps=a["steps"] + 2000000 if plan["nest"] else a["steps"] + 10000, **kw)
            self.note("plan %s: %s after %d instructions, %s handlers, violations %s" % (json.dumps(plan), outcome(r), r["steps"], r["hk"] if "hk" in r else "", r["viol"]))
            if r["st"] == "maxsteps" and plan["nest"]: ctx.st.probes["nested handlers too long"] += 1; continue
            if r["st"] != "done": return dict(kind="interrupted", what="with signals delivered at instructions %s and junk below the red zone at %s: %s" % (self.at(plan), plan["junk"], outcome(r)))
            new = [v for v in r["viol"] if v not in a["viol"]]
            if new: return dict(kind="state", what="with signals delivered at instructions %s: %s" % (self.at(plan), new[0]))
            d = logdiff(r["log"], a["log"])
            if d: return dict(kind="result", what="with signals delivered at instructions %s and junk below the red zone at %s: %s" % (self.at(plan), plan["junk"], d))
            for (n, (ad, ln)), x, y in zip(im.mem, r["mem"], a["mem"]):
                if n[0] == "h":
                    h = int(n[1]); k = r["hk"][h]
                    if (h, k) not in alone:
                        q = self.mrun(ctx, im, [(im.sym("h%d_run" % h), [k])], dumps=[d for m, d in im.mem if m == n], seed=sc["seed"])
                        alone[h, k] = q
                    q = alone[h, k]
                    if q["st"] != "done": raise SimError("handler alone: " + outcome(q))
                    y = q["mem"][[d for m, d in im.mem if m == n].index((ad, ln))]
                if x != y:
                    i = next(i for i in range(0, len(x), 2) if x[i:i + 2] != y[i:i + 2]) // 2
                    return dict(kind="memory", what="with signals delivered at instructions %s: byte %d of the data of %s is %s, expected %s" % (self.at(plan), i, n, x[2 * i:2 * i + 2], y[2 * i:2 * i + 2]))
        return None

    @staticmethod
    def at(plan): return [e[0] for e in plan["ev"]][:12]

    def reductions(self, sc):
        for k in range(len(sc["plans"])):
            if len(sc["plans"]) > 1: c = json.loads(json.dumps(sc)); c["plans"] = [c["plans"][k]]; yield c
        for k, p in enumerate(sc["plans"]):
            lo, hi = p["junk"]
            if hi - lo > 1:
                for a, b in ((lo, (lo + hi) // 2), ((lo + hi) // 2, hi)):
                    c = json.loads(json.dumps(sc)); c["plans"][k]["junk"] = [a, b]; yield c
            ev = p["ev"]
            n = max(1, len(ev) // 2)
            while n >= 1 and ev:
                for i in range(0, len(ev), n):
                    if len(ev) - n < 1 and hi == 0: continue
                    c = json.loads(json.dumps(sc)); c["plans"][k]["ev"] = ev[:i] + ev[i + n:]; yield c
                if n == 1: break
                n //= 2

    def trace(self, ctx, sc): return super().trace(ctx, sc) + ["%s:\n%s" % x for x in sorted(sc["src"].items())]


# ---------------------------------------------------------------- C16
class C16(Prop2):
    id = "C16"; title = "Compiled code is reentrant and writes only the memory its source assigns"
    rule = ("a case is 2 to 4 green threads running compiled functions that share one structure, in which every thread owns places between and inside other threads' places (struct members, array elements, nested aggregates, neighbouring globals; automatic objects and compound literals), " +
            "and 4 schedules that switch threads before chosen instructions (every one to every 200 on average); non-trivial when a switch happened; each thread's log and every place must end as when the thread runs alone, and a thread alone changes no place it does not own")
    budget = dict(quick=(500, 200.0), thorough=(100000, 800.0))
    maxlen = 60000

    def cases(self, ctx, rng):
        n = rng.choice([2, 2, 3, 4])
        pt, pf, g = pure(rng, "p")
        pt = pt.replace(SIMDECL, "")
        S = Shared(rng, n)
        src = S.source(pt, pf, lambda f, ts: g.call(f, ts, g.new_env(), 2))
        sc = dict(src=src, n=n, owners=[p[3] for p in S.places], names=[p[0] for p in S.places], seed=rng.getrandbits(31), scheds=[])
        try: im = self.image(ctx, sc)
        except Refused: yield sc; return
        if not isinstance(im, sim2.Image):
            yield sc; return
        r = self.threads(ctx, sc, im, range(n), step=1, maxsteps=self.maxlen)
        i = self.threads(ctx, sc, im, [], step=1, maxsteps=self.maxlen)
        if r["st"] != "done" or i["st"] != "done":
            ctx.st.probes["program too long"] += 1
            if r["st"] == "maxsteps": return
            yield sc; return
        hi = r["steps"] - i["steps"]
        for k in range(4):
            mean = rng.choice([1.3, 2, 4, 9, 30, 200])
            ev = []
            at = rng.randrange(1, max(2, int(mean * 3)))
            budget = 4000
            while at < hi and budget:
                ev.append([at, "T", 1 + rng.randrange(n)])
                at += 1 + int(rng.expovariate(1 / mean)); budget -= 1
            sc["scheds"].append(ev)
        yield sc

    def image(self, ctx, sc):
        o = self.cc(ctx, sc["src"])
        if o is None: return None
        try: return sim2.Image([(o, True)])
        except objload.LoadError as e: return str(e)

    def threads(self, ctx, sc, im, which, **kw):
        """init, then the threads, then the verifier when all are done."""
        ths = [(im.sym("init"), [im.sym("sh")])] + [(im.sym("thread%d" % k), [im.sym("sh")]) for k in which] + [(im.sym("verify"), [im.sym("sh")])]
        kw.setdefault("last", len(ths) - 1)
        return self.mrun(ctx, im, ths, seed=sc["seed"], **kw)

    @staticmethod
    def parts(r, n):
        """Logs of threads 1.., groups of the verifier."""
        logs = {k: [] for k in range(n + 2)}
        groups = []
        for x in r["log"].split():
            k, v = x.split(":", 1)
            t = int(k[1:])
            if k[0] == "H": groups.append([])
            elif t == n + 1: groups[-1].append(v)
            else: logs[t].append(v)
        return logs, groups

    def decide(self, ctx, sc):
        im = self.image(ctx, sc)
        if im is None: return None
        if isinstance(im, str): return dict(kind="object", what="the object does not load: " + im)
        n = sc["n"]
        b = self.threads(ctx, sc, im, [])
        if b["st"] != "done": return None
        base = self.parts(b, 0)[1]
        alone, want = [], list(base)
        for t in range(n):
            r = self.threads(ctx, sc, im, [t])
            if r["st"] != "done": return None
            logs, gr = self.parts(r, 1)
            alone.append(logs[1])
            for j, w in enumerate(sc["owners"]):
                if w == t: want[j] = gr[j]
                elif gr[j] != base[j]: return dict(kind="foreign write", what="thread %d running alone changes %s, which its source does not assign: %s, was %s" % (t, sc["names"][j], gr[j], base[j]))
        # init has the same length in every run; switches count from there
        i0 = self.initlen(ctx, sc, im) if sc["scheds"] else 0
        for ev in sc["scheds"]:
            e2 = [[i0 + a, k, t] for a, k, t in ev]
            r = self.threads(ctx, sc, im, range(n), step=1, events=e2, maxsteps=400000)
            self.note("schedule of %d switches: %s after %d instructions, log %s" % (len(ev), outcome(r), r["steps"], r["log"]))
            if r["st"] != "done": return dict(kind="interleaved", what="threads switched at %d points: %s" % (len(ev), outcome(r)))
            logs, gr = self.parts(r, n)
            for t in range(n):
                if logs[t + 1] != alone[t]:
                    k = next((k for k, (x, y) in enumerate(zip(logs[t + 1], alone[t])) if x != y), min(len(logs[t + 1]), len(alone[t])))
                    return dict(kind="thread result", what="thread %d logs %s as entry %d, alone %s; switches at %s" % (t, logs[t + 1][k:k + 1], k, alone[t][k:k + 1], [e[0] for e in ev][:20]))
            for j, w in enumerate(sc["owners"]):
                if gr[j] != want[j]: return dict(kind="lost update", what="%s, assigned by thread %d only, ends as %s, expected %s; switches at %s" % (sc["names"][j], w, gr[j], want[j], [e[0] for e in ev][:20]))
            if r["viol"]: return dict(kind="state", what=r["viol"][0])
        return None

    def initlen(self, ctx, sc, im):
        r = self.mrun(ctx, im, [(im.sym("init"), [im.sym("sh")])], seed=sc["seed"], step=1)
        return r["steps"]

    def reductions(self, sc):
        for k in range(len(sc["scheds"])):
            if len(sc["scheds"]) > 1: c = json.loads(json.dumps(sc)); c["scheds"] = [c["scheds"][k]]; yield c
        for k, ev in enumerate(sc["scheds"]):
            n = max(1, len(ev) // 2)
            while ev:
                for i in range(0, len(ev), n):
                    c = json.loads(json.dumps(sc)); c["scheds"][k] = ev[:i] + ev[i + n:]; yield c
                if n == 1: break
                n //= 2

    def trace(self, ctx, sc): return super().trace(ctx, sc) + [sc["src"]]


# ---------------------------------------------------------------- C19
class C19(Prop2):
    id = "C19"; title = "Every volatile access happens exactly once, in order, at its full width"
    rule = ("a case is a program whose volatile objects (scalars of every type, pointers, members, array elements, elements through computed addresses) lie in a device region where every access faults into the simulator, which records offset, width and bytes and answers reads with seeded values that change at every read; accesses stand in conditions, loops " +
            "(also endless ones), discarded expressions, compound assignments, arguments, initialisers and dead-looking code; 3 devices each; non-trivial when the device was accessed; the record must equal that of the reference compiler's unoptimised code")
    budget = dict(quick=(4000, 200.0), thorough=(300000, 800.0))

    def cases(self, ctx, rng):
        g = Vol(rng, sim2.DEV)
        src = g.source()
        yield dict(src=src, endless=g.endless, syms=g.syms, len=(g.at + 4095) & ~4095, devs=[rng.getrandbits(40) for _ in range(3)])

    def decide(self, ctx, sc):
        res = lambda name, k: sc["syms"].get(name)
        g = sim2.gcc(ctx, sc["src"], ["-O0", "-DREF"])
        if g is None: raise SimError("the reference compiler rejects the program: " + ctx.tmp.get("gccerr", "")[-500:])
        o = self.cc(ctx, sc["src"])
        if o is None: return None
        ref = sim2.Image([(g, False)], res, extra=[("v", sim2.DEV, sc["len"], 0)])
        try: im = sim2.Image([(o, True)], res, extra=[("v", sim2.DEV, sc["len"], 0)])
        except objload.LoadError as e: return dict(kind="object", what="the object does not load: %s" % e)
        kw = lambda d: dict(devbase=sim2.DEV, devlen=sc["len"], devseed=d)
        for d in sc["devs"]:
            a = self.mrun(ctx, ref, [(ref.sym("start"), [])], **kw(d))
            if a["st"] != "done": raise SimError("reference: " + outcome(a))
            want = "done"
            if sc.get("endless"):
                want = "maxsteps"; ctx.st.kinds["endless loop"] += 1
                for n in (20000, 400000):
                    r = self.mrun(ctx, im, [(im.sym("start"), [])], step=1, maxsteps=n, **kw(d))
                    if r["st"] != want or not logdiff(r["log"], a["log"]): break
            else: r = self.mrun(ctx, im, [(im.sym("start"), [])], **kw(d))
            self.note("device %x: %s\nlog      %s\nexpected %s" % (d, outcome(r), r["log"], a["log"]))
            if r["st"] != want: return dict(kind="fault", what="device seed %x: %s" % (d, outcome(r)))
            m = logdiff(r["log"], a["log"])
            if m:
                return dict(kind="access", what="device seed %x: %s (R offset:width is a read of the device, W offset:width:bytes a write, L a value computed)" % (d, m))
        return None

    def reductions(self, sc):
        if len(sc["devs"]) > 1:
            for d in sc["devs"]: c = dict(sc, devs=[d]); yield c
        L = sc["src"].split("\n")
        n = max(1, len(L) // 4)
        while n:
            for i in range(0, len(L), n):
                if any(x in "\n".join(L[i:i + n]) for x in ("start(void)", "typedef unsigned long long W", "return", "#", "goto", "for (;;)", "while (1)")): continue
                yield dict(sc, src="\n".join(L[:i] + L[i + n:]))
            n //= 2

    def trace(self, ctx, sc): return super().trace(ctx, sc) + [sc["src"]]


class C20(Prop2):
    id = "C20"; title = "Non-local jumps out of compiled code keep every value the standard promises"
    rule = ("a case is a program of nested calls with setjmp sites (in conditions, switches, loops, through pointers) and locals of all kinds (volatile, unchanged since setjmp, variable arrays, parameters) and 20 jump plans: 10 where a callee jumps after a number of calls, with other values and to other sites, 10 where the simulator forces the jump before a chosen instruction, as from a signal handler; " +
            "both conventions; non-trivial when a jump happened; values the standard promises must equal those of the reference compiler's unoptimised code jumping at the same progress, and all kept registers must be restored")
    budget = dict(quick=(500, 200.0), thorough=(100000, 800.0))
    maxlen = 60000
    GATES = dict(setjmp="sim_setjmp", _setjmp="sim_setjmp", sigsetjmp="sim_setjmp", __sigsetjmp="sim_setjmp", longjmp="sim_longjmp", _longjmp="sim_longjmp", siglongjmp="sim_longjmp")

    def images(self, ctx, sc):
        ms = sc["ms"]
        g = sim2.gcc(ctx, sc["src"], ["-O0", "-fwrapv"] + (["-mabi=ms"] if ms else []))
        if g is None: raise SimError("the reference compiler rejects the program: " + ctx.tmp.get("gccerr", "")[-500:])
        o = self.cc(ctx, sc["src"], ["-fabi=ms"] if ms else [])
        if o is None: return None
        res = lambda name, k: sim2.gate(sim2.G[self.GATES[name]]) if name in self.GATES else None
        return sim2.Image([(g, False)], res), sim2.Image([(o, True)], res)

    def go(self, ctx, sc, im, stops, asy, ev=(), **kw):
        a = [0xffff if i >= len(stops) else stops[i][0] | stops[i][1] << 16 | stops[i][2] << 20 for i in range(3)]
        r = self.mrun(ctx, im, [(im.sym("start"), a + [sc["n"] | asy << 8])], events=ev, seed=sc["seed"], ms=sc["ms"], **kw)
        r["vis"] = " ".join(x for x in r["log"].split() if x[0] not in "HJ")
        return r

    def cases(self, ctx, rng):
        sc = dict(src=Jumps(rng).source(), n=rng.randrange(1, 20), ms=int(rng.random() < .2), seed=rng.getrandbits(31), plans=[])
        try: ims = self.images(ctx, sc)
        except Refused: yield sc; return
        if ims is None: return
        ref = self.go(ctx, sc, ims[0], [], 0)
        r = self.go(ctx, sc, ims[1], [], 1, step=1, maxsteps=self.maxlen)
        if r["st"] == "maxsteps": ctx.st.probes["program too long"] += 1; return
        n = max(r["steps"], 2)
        last = 40
        for k in range(10):
            st = []
            for i in range(rng.choice([1, 1, 2, 3])):
                # what is left of the program after a jump is not known, most positions are early
                st.append([min(rng.randrange(1, 40) if rng.random() < .7 else rng.randrange(1, 300), 0xfffe), rng.randrange(2), rng.choice([0, 1, 1, 2, 3, 4, 5, 0xffffffff])])
            sc["plans"].append(dict(stops=st))
        for k in range(10):
            a = rng.randrange(1, n)
            ev = [[a, "L", rng.randrange(1, 6)]]
            if rng.random() < .4: ev.append([a + rng.randrange(1, n), "L", rng.randrange(1, 6)])
            sc["plans"].append(dict(ev=ev))
        yield sc

    def decide(self, ctx, sc):
        ims = self.images(ctx, sc)
        if ims is None: return None
        cache = {}

        def ref(stops, asy):
            key = (tuple(map(tuple, stops)), asy)
            if key not in cache:
                r = self.go(ctx, sc, ims[0], stops, asy)
                if r["st"] != "done": raise SimError("reference: " + outcome(r))
                cache[key] = r["vis"]
            return cache[key]
        for p in sc["plans"]:
            if "stops" in p:
                r = self.go(ctx, sc, ims[1], p["stops"], 0)
                self.note("jumps %s: %s\nlog      %s\nexpected %s" % (p["stops"], outcome(r), r["log"], ref(p["stops"], 0)))
                if r["st"] != "done": return dict(kind="fault", what="jumps after steps %s: %s" % (p["stops"], outcome(r)))
                if r["viol"]: return dict(kind="abi", what="jumps after steps %s: %s" % (p["stops"], r["viol"][0]))
                m = logdiff(r["vis"], ref(p["stops"], 0))
                if m: return dict(kind="values", what="jumps after steps %s: %s" % (p["stops"], m))
                continue
            r = self.go(ctx, sc, ims[1], [], 1, p["ev"], step=1, maxsteps=10 * self.maxlen)
            if r["st"] != "done": return dict(kind="fault", what="forced jumps %s: %s" % (p["ev"], outcome(r)))
            if r["viol"]: return dict(kind="abi", what="forced jumps %s: %s" % (p["ev"], r["viol"][0]))
            # J: the simulator forced a jump (which landed at the next H)
            at = [int(x.split(":")[1], 16) >> 4 for x in r["log"].split() if x[0] == "H"]
            if len(at) > 2: raise SimError("more landings than jumps")
            vals = [e[2] for e in p["ev"]]
            import itertools
            # an event that came while nothing was armed had no effect
            def hyps():
                vs = list(itertools.combinations(vals, len(at)))
                for v in vs:
                    for c in itertools.product(*[[(k, w) for k in ((x, x - 1) if x > 1 else (x,)) for w in (0, 1)] for x in at]): yield [[k, w, y] for (k, w), y in zip(c, v)]
            best = None
            for h in hyps():
                m = logdiff(r["vis"], ref(h, 1))
                if not m: best = None; break
                if best is None or int(re.search(r"\d+", m).group()) > int(re.search(r"\d+", best).group()): best = m
            self.note("forced jumps %s: %s\nlog      %s\nhypotheses %s" % (p["ev"], outcome(r), r["log"], ["%s: %s" % (h, ref(h, 1)) for h in hyps()][:4]))
            if best: return dict(kind="values", what="forced jumps %s (progress %s): %s" % (p["ev"], at, best))
        return None

    def reductions(self, sc):
        if len(sc["plans"]) > 1:
            for p in sc["plans"]: yield dict(sc, plans=[p])
        for i, p in enumerate(sc["plans"]):
            k = "stops" if "stops" in p else "ev"
            if len(p[k]) > 1:
                for j in range(len(p[k])): yield dict(sc, plans=sc["plans"][:i] + [{k: p[k][:j] + p[k][j + 1:]}] + sc["plans"][i + 1:])
        L = sc["src"].split("\n")
        keep = ("return", "#", "{", "}", "setjmp", "live", "arm", "case", "default", "goto", "break", "void", "typedef", "extern", "first", "once", "land(", "t = 3", "unsigned", "sim_hlog", "sim_arm", "longjmp")
        for i in range(len(L)):
            if any(x in L[i] for x in keep) or not L[i].strip(): continue
            yield dict(sc, src="\n".join(L[:i] + L[i + 1:]))

    def trace(self, ctx, sc): return super().trace(ctx, sc) + [sc["src"]]


class C21(Prop2):
    id = "C21"; title = "Compiled code touches only the bytes of the objects its source names"
    rule = ("a case is a program on 3 to 13 foreign objects (scalars, arrays, structures, unions, bit-fields, flexible tails) accessed by loads, stores, copies, initialisers, arguments, results, sizeof and addresses, each object placed to end or to start exactly at an unmapped page (4 placements), mapped read-only when only read and not at all when not evaluated; both conventions; " +
            "non-trivial when a call crossed the boundary; no access may fault and the final bytes must equal those of the reference compiler's code")
    budget = dict(quick=(4000, 200.0), thorough=(300000, 800.0))

    def cases(self, ctx, rng):
        ms = rng.random() < .3
        b = Bounds(rng, ms)
        objs = []
        for n, t, l in b.objs: objs.append([n, b.T.size(t) * (l or 1), b.use[n], b.contents(t, l, rng.getrandbits(30)).hex()])
        # placements: a bit for each object, 0 ends at and 1 starts at an unmapped page
        m = (1 << len(objs)) - 1
        yield dict(src=b.src, ms=int(ms), objs=objs, plans=[0, m] + [rng.getrandbits(len(objs)) for _ in range(2)], seed=rng.getrandbits(31))

    def image(self, ctx, sc, plan, comp):
        fl = ["-mabi=ms"] if sc["ms"] else []
        o = [self.cc(ctx, sc["src"][0], ["-fabi=ms"] if sc["ms"] else [])] if comp else [sim2.gcc(ctx, sc["src"][0], ["-O0", "-fwrapv"] + fl)]
        o.append(sim2.gcc(ctx, sc["src"][1], ["-O0", "-fwrapv"] + fl))
        if o[0] is None and comp: return None
        if None in o: raise SimError("the reference compiler rejects the program: " + ctx.tmp.get("gccerr", "")[-500:])
        at, extra = {}, []
        for i, (n, sz, use, data) in enumerate(sc["objs"]):
            a = sim2.OBJS + 0x40000 * i + 0x20000
            if not plan >> i & 1: a -= sz
            at[n] = a
            # an object that is not evaluated is not there at all; one that is only read cannot be written
            extra.append(("d", a, bytes.fromhex(data), 0 if not use else 3 if use & 2 else 1))
        return sim2.Image([(o[0], comp), (o[1], False)], lambda name, k: at.get(name), extra=extra, flush=bool(plan & 1))

    def where(self, sc, plan, r):
        a = int(r["fault"][1], 16)
        i = (a - sim2.OBJS) >> 18
        if not 0 <= i < len(sc["objs"]): return ""
        n, sz, use, data = sc["objs"][i]
        s = sim2.OBJS + 0x40000 * i + (0x20000 if plan >> i & 1 else 0x20000 - sz)
        return " (byte %d of the %d byte object %s%s)" % (a - s, sz, n, "" if use & 2 else ", which is only read" if use else ", which is not evaluated")

    def decide(self, ctx, sc):
        for plan in sc["plans"]:
            ref = self.image(ctx, sc, plan, False)
            try: im = self.image(ctx, sc, plan, True)
            except objload.LoadError as e: return dict(kind="object", what="the object does not load: %s" % e)
            if im is None: return None
            th = lambda x: [(x.sym("start"), []), (x.sym("final"), [])]
            a = self.mrun(ctx, ref, th(ref), seed=sc["seed"], ms=sc["ms"], last=1)
            if a["st"] != "done": raise SimError("reference: " + outcome(a) + (self.where(sc, plan, a) if a["st"] == "fault" else ""))
            r = self.mrun(ctx, im, th(im), seed=sc["seed"], ms=sc["ms"], last=1)
            ctx.st.fired["guarded object"] += len(sc["objs"])
            self.note("placement %x: %s\nlog      %s\nexpected %s" % (plan, outcome(r), r["log"], a["log"]))
            if r["st"] == "fault": return dict(kind="fault", what="placement %x: %s%s" % (plan, outcome(r), self.where(sc, plan, r)))
            if r["st"] != "done": return dict(kind="fault", what="placement %x: %s" % (plan, outcome(r)))
            m = logdiff(r["log"], a["log"])
            if m: return dict(kind="value", what="placement %x: %s" % (plan, m))
        return None

    def reductions(self, sc):
        if len(sc["plans"]) > 1:
            for p in sc["plans"]: yield dict(sc, plans=[p])
        A = sc["src"][0].split("\n")
        i = next(k for k, l in enumerate(A) if l == "void start(void)") + 2
        for k in range(i, len(A)):
            if "\top" in A[k]: yield dict(sc, src=["\n".join(A[:k] + A[k + 1:]), sc["src"][1]])
        for k, l in enumerate(A):
            if l.startswith("\t") and "op" not in l: yield dict(sc, src=["\n".join(A[:k] + A[k + 1:]), sc["src"][1]])

    def trace(self, ctx, sc): return super().trace(ctx, sc) + ["compiled half:\n" + sc["src"][0], "foreign half:\n" + sc["src"][1]]




# ---------------------------------------------------------------- C27
class C27(Prop2):
    id = "C27"; title = "Compiled programs run for any time in the stack their deepest moment needs"
    rule = ("a case is a program of two halves, one or both compiled by the compiler under test (System V or Microsoft convention), that runs rounds of calls of every shape in both directions, variable arrays left by continue, break, goto and the end of their scope, recursion, compound literals, over-aligned objects and longjmp out of deeper frames; " +
            "the stack needed by the first rounds is measured, then thousands of rounds run on a stack limited to that size plus a seeded slack of less than two pages; non-trivial when the limited run executed more than 100 times as many rounds; the results must equal the reference compiler's")
    measure = "distinct hashes of the record of a run (results, stack needed)"
    budget = dict(quick=(1500, 60.0), thorough=(100000, 800.0))
    FEW, MANY = 4 * PERIOD, 3000

    GATES = dict(setjmp="sim_setjmp", longjmp="sim_longjmp")

    def cases(self, ctx, rng):
        ms = int(rng.random() < .4)
        src = Long(rng, ms).sources()
        yield dict(src=src, ms=ms, own=rng.choice([[1, 0], [1, 1], [1, 0], [0, 1]]), slack=rng.choice([64, 1024, 4096]), many=rng.choice([2000, self.MANY, 6000]), seed=rng.getrandbits(31))

    def image(self, ctx, sc, own):
        objs = []
        for k in (0, 1):
            if own[k]: o = self.cc(ctx, sc["src"][k], ["-fabi=ms"] if sc["ms"] else [])
            else:
                o = sim2.gcc(ctx, sc["src"][k], ["-O0", "-fwrapv"] + (["-mabi=ms"] if sc["ms"] else []))
                if o is None: raise SimError("the reference compiler rejects the program: " + ctx.tmp.get("gccerr", "")[-500:])
            if o is None: return None
            objs.append((o, bool(own[k])))
        res = lambda name, k: sim2.gate(sim2.G[self.GATES[name]]) if name in self.GATES else None
        tabs = None
        def both(name, k):
            v = res(name, k)
            return v
        return sim2.Image(objs, both)

    def decide(self, ctx, sc):
        try:
            ref = self.image(ctx, sc, [0, 0])
            im = self.image(ctx, sc, sc["own"])
        except objload.LoadError as e: return dict(kind="object", what="the objects do not load: %s" % e)
        if im is None: return None
        go = lambda i, n, **kw: self.mrun(ctx, i, [(i.sym("start"), [n])], seed=sc["seed"], ms=sc["ms"], **kw)
        want = {}
        for n in (self.FEW, sc["many"]):
            r = go(ref, n, low=1)
            if r["st"] != "done": raise SimError("reference: " + outcome(r))
            want[n] = r
        if want[self.FEW]["low"] != want[sc["many"]]["low"]: ctx.st.probes["reference needs more stack for more rounds"] += 1; return None
        a = go(im, self.FEW, low=1)
        self.note("%d rounds: %s, %d bytes of stack\nlog      %s\nexpected %s" % (self.FEW, outcome(a), a.get("low", 0), a["log"], want[self.FEW]["log"]))
        if a["st"] != "done": return dict(kind="fault", what="%d rounds: %s" % (self.FEW, outcome(a)))
        m = logdiff(a["log"], want[self.FEW]["log"])
        if m: return dict(kind="result", what="%d rounds: %s" % (self.FEW, m))
        size = (a["low"] + sc["slack"] + 4095) & ~4095
        ctx.st.fired["stack limit"] += 1
        r = go(im, sc["many"], stklen=size)
        ctx.st.distinct.add(h64(r["hash"]))
        self.note("%d rounds on %d bytes of stack: %s\nlog      %s\nexpected %s" % (sc["many"], size, outcome(r), r["log"], want[sc["many"]]["log"]))
        if r["st"] == "fault": return dict(kind="stack", what="%d rounds need %d bytes of stack, %d rounds fail with %d bytes: %s" % (self.FEW, a["low"], sc["many"], size, outcome(r)))
        if r["st"] != "done": return dict(kind="fault", what="%d rounds: %s" % (sc["many"], outcome(r)))
        m = logdiff(r["log"], want[sc["many"]]["log"])
        if m: return dict(kind="result", what="%d rounds on %d bytes of stack: %s" % (sc["many"], size, m))
        return None

    def reductions(self, sc):
        for k in (0, 1):
            if sum(sc["own"]) > 1: yield dict(sc, own=[int(k == 0), int(k == 1)])
        for k in (0, 1):
            L = sc["src"][k].split("\n")
            n = max(1, len(L) // 4)
            while n:
                for i in range(0, len(L), n):
                    if any(x in "\n".join(L[i:i + n]) for x in ("start(unsigned", "typedef unsigned long long W", "return", "#", "work(")): continue
                    t = list(sc["src"]); t[k] = "\n".join(L[:i] + L[i + n:])
                    yield dict(sc, src=t)
                n //= 2

    def trace(self, ctx, sc): return super().trace(ctx, sc) + sc["src"]

ALL = dict(C15=C15, C16=C16, C17=C17, C18=C18, C19=C19, C20=C20, C21=C21, C27=C27)
