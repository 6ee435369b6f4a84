"""Seeded search over simulated runs: workers, gating, minimisation, replay files and evidence."""
import collections, hashlib, json, multiprocessing as mp, os, random, signal, sys, time, traceback
import build, sim1
from sim1 import SimError

VERIF = build.VERIF
FAULTKEYS = ("f_err", "f_short", "f_trunc", "f_lose", "f_crash", "f_sticky", "f_alloc", "f_chunk", "f_quota", "f_maxfd")
REPLAYS = os.environ.get("SIM_REPLAYS", os.path.join(VERIF, "replays"))
EVIDENCE = os.environ.get("SIM_EVIDENCE", os.path.join(VERIF, "evidence"))


def h64(s):
    return int.from_bytes(hashlib.blake2b(s if isinstance(s, bytes) else s.encode("latin-1", "replace"), digest_size=8).digest(), "little")


class Stats:
    def __init__(self):
        self.c = collections.Counter()      # runs, syscalls, simns, cases, scenarios, ...
        self.fired = collections.Counter()
        self.kinds = collections.Counter()  # outcome kinds
        self.distinct = set()               # distinct non-trivial traces
        self.traces = set()                 # distinct traces
        self.probes = collections.Counter() # rare conditions reached
        self.det = 0                        # runs compared with a rerun in a fresh server

    def merge(self, o):
        self.c += o.c; self.fired += o.fired; self.kinds += o.kinds; self.probes += o.probes
        self.distinct |= o.distinct; self.traces |= o.traces; self.det += o.det


class Ctx:
    """One worker's simulators, caches and counters."""

    def __init__(self, d, cpu=None):
        self.d, self.cpu = d, cpu
        self.srv = {}
        self.st = Stats()
        self.refs = collections.OrderedDict()
        self.tmp = {}
        self.last = None

    def server(self, which="A"):
        if which not in self.srv:
            self.srv[which] = sim1.Server(self.d + {"A": "/simcc", "B": "/simcc2"}[which], self.cpu)
        return self.srv[which]

    def fresh(self):
        for s in self.srv.values():
            try: s.close()
            except Exception: pass
        self.srv = {}
        self.refs.clear()

    def close(self): self.fresh()

    def sim(self, base, files, procs, which="A", img=None, **kw):
        """One simulated execution."""
        s = self.server(which)
        if img is None: img = s.image(base, files)
        r = s.run(img, procs, **kw)
        st = self.st
        st.c["runs"] += 1
        h = 0
        for q in r.procs:
            st.c["procs"] += 1; st.c["syscalls"] += q["nsys"]; st.c["simns"] += q["simns"]; st.c["allocs"] += q["nalloc"]
            st.kinds[q["kind"] + (str(q["code"]) if q["kind"] == "exit" else "")] += 1
            for k in FAULTKEYS:
                if q[k]: st.fired[k[2:]] += q[k]
            if not q["unmod"].startswith("0:"): st.probes["unmodelled syscall " + q["unmod"].split(":")[1]] += 1
            h = h64("%x %s %s %d" % (h, q["hash"], q["kind"], q["code"]))
        if r.schedhash: h ^= int(r.schedhash, 16)
        r.tracehash = h
        st.traces.add(h)
        return r

    def nontrivial(self, r):
        self.st.distinct.add(r.tracehash)

    def outfile(self, path, which="A"):
        return self.server(which).get(path)


def fired(q):
    return sum(q[k] for k in FAULTKEYS)


# ---------------------------------------------------------------- workers
W = {}


def _winit(d, prop, seed, counter):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    with counter.get_lock():
        k = counter.value; counter.value += 1
    W.update(ctx=Ctx(d, k), prop=prop, seed=seed)


def case_rng(seed, pid, i):
    return random.Random("%d/%s/%d" % (seed, pid, i))


def judge_gated(prop, ctx, sc):
    """Judges sc; a violation must come out identically in two sets of fresh simulators."""
    v = prop.judge(ctx, sc)
    if v is None: return None, None
    js = json.dumps(sc, sort_keys=True)
    for _ in range(2):
        c2 = Ctx(ctx.d, ctx.cpu)
        try: w = prop.judge(c2, json.loads(js))
        finally: c2.close()
        if w is None or w["kind"] != v["kind"]:
            return None, "verdict did not reproduce: %s / %s" % (v["kind"], w and w["kind"])
    return v, None


def _wcase(i):
    ctx, prop, seed = W["ctx"], W["prop"], W["seed"]
    ctx.st = Stats()
    ctx.st.c["cases"] = 1
    out = dict(i=i, viol=[], err=[], samples=[], known=[])
    try:
        rng = case_rng(seed, prop.id, i)
        for n, sc in enumerate(prop.cases(ctx, rng)):
            ctx.st.c["scenarios"] += 1
            sc = json.loads(json.dumps(sc))
            v, e = judge_gated(prop, ctx, sc)
            if e: out["err"].append(e); continue
            if v:
                k = prop.known(sc, v)
                if k: out["known"].append(k); continue
                out["viol"].append((sc, v)); break
            if n == 0 and i < 6: out["samples"].append(brief(sc))
            if i % 16 == 0 and n == 0 and prop.determinism:
                a = prop.idents(ctx, sc)
                c2 = Ctx(ctx.d, ctx.cpu)
                try: b = prop.idents(c2, sc)
                finally: c2.close()
                ctx.st.det += len(a)
                if a != b: out["err"].append("two runs of one scenario differ (case %d)" % i)
    except SimError as e:
        out["err"].append("case %d: %s" % (i, e)); ctx.fresh()
    except Exception:
        out["err"].append("case %d: %s" % (i, traceback.format_exc()[-1500:])); ctx.fresh()
    out["st"] = ctx.st
    return out


def brief(sc):
    """A scenario written out for the evidence file, with file contents abridged."""
    s = dict(sc)
    if "files" in s: s["files"] = {p: (v if not isinstance(v, str) or len(v) < 160 else v[:160] + "...(%d bytes)" % len(v)) for p, v in list(s["files"].items())[:6]}
    for k in list(s):
        s[k] = abridge(s[k])
    return s


def abridge(v, most=1500):
    """A value of a scenario, with long strings and lists cut."""
    if isinstance(v, str): return v if len(v) <= most else v[:most] + "...(%d bytes)" % len(v)
    if isinstance(v, (list, tuple)):
        o = [abridge(x, most // 2) for x in v[:24]]
        return o + ["...(%d items)" % len(v)] if len(v) > 24 else o
    if isinstance(v, dict): return {k: abridge(x, most // 2) for k, x in list(v.items())[:24]}
    return v


# ---------------------------------------------------------------- minimisation
def minimise(prop, ctx, sc, v, limit=45.0):
    t0 = time.time()
    steps = 0

    def bad(c):
        nonlocal steps
        if time.time() - t0 > limit: return False
        steps += 1
        try: w = prop.judge(ctx, json.loads(json.dumps(c)))
        except SimError: ctx.fresh(); return False
        except Exception: return False
        return w is not None and w["kind"] == v["kind"]

    cur = json.loads(json.dumps(sc))
    progress = True
    while progress and time.time() - t0 < limit:
        progress = False
        for c in prop.reductions(cur):
            if bad(c): cur = c; progress = True; break
    # file contents, by lines
    for path in [] if not prop.shrink_lines else sorted(cur.get("files", {}), key=lambda p: -len(cur["files"][p]) if isinstance(cur["files"][p], str) else 0):
        if not isinstance(cur["files"][path], str): continue
        lines = cur["files"][path].split("\n")
        n = max(1, len(lines) // 2)
        while n >= 1 and time.time() - t0 < limit:
            i = 0; hit = False
            while i < len(lines) and time.time() - t0 < limit:
                c = dict(cur); c["files"] = dict(cur["files"]); c["files"][path] = "\n".join(lines[:i] + lines[i + n:])
                if bad(c): cur = c; lines = lines[:i] + lines[i + n:]; hit = True
                else: i += n
            if n == 1 and not hit: break
            n = n // 2 if n > 1 else (1 if hit else 0)
    return cur, steps


def generic_reductions(sc, files=True):
    """Simpler scenarios: fewer files, processes' faults and environment details."""
    for k, pr in enumerate(sc.get("procs", [])):
        def alt(**kw):
            c = dict(sc); c["procs"] = list(sc["procs"]); q = dict(pr)
            for a, b in kw.items():
                if b is None: q.pop(a, None)
                else: q[a] = b
            c["procs"][k] = q
            return c
        for f in ("chunk", "maxfd", "stack", "heap", "jumps", "allocmax", "pid", "env", "clock", "allocsticky", "out", "err"):
            if f in pr: yield alt(**{f: None})
        for f in ("faults", "sticky", "allocfail"):
            for i in range(len(pr.get(f, []))):
                if len(pr[f]) > 1 or True: yield alt(**{f: pr[f][:i] + pr[f][i + 1:]})
        for i in range(1, len(pr.get("argv", []))):
            a = pr["argv"][i]
            if a.startswith(("-I", "-D", "-W", "-O", "-std")) and a not in ("-I", "-D"): yield alt(argv=pr["argv"][:i] + pr["argv"][i + 1:])
    if sc.get("quota") is not None:
        c = dict(sc); c["quota"] = None; yield c
    if files and len(sc.get("files", {})) > 1:
        for p in sorted(sc["files"]):
            c = dict(sc); c["files"] = {a: b for a, b in sc["files"].items() if a != p}; yield c
    if sc.get("schedlist"):
        s = sc["schedlist"]
        n = len(s) // 2
        while n >= 4:
            for i in range(0, len(s), n):
                c = dict(sc); c["schedlist"] = s[:i] + s[i + n:]; yield c
            n //= 2


# ---------------------------------------------------------------- known findings
def findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    with open(p) as f: return [x for x in json.load(f)["findings"] if x["property"] == pid]


# ---------------------------------------------------------------- the check
def write_replay(prop, seed, case, sc, v, extra=None):
    os.makedirs(REPLAYS, exist_ok=True)
    body = dict(property=prop.id, seed=seed, case=case, violation=v, scenario=sc)
    if extra: body.update(extra)
    key = hashlib.sha1(json.dumps([prop.id, sc, v["kind"]], sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(REPLAYS, "%s-%s.json" % (prop.id, key))
    with open(path, "w") as f: json.dump(body, f, indent=1)
    return path


def replay(prop, path):
    with open(path) as f: body = json.load(f)
    d = build.get()
    prop.prepare(d)
    res = []
    for _ in range(2):
        ctx = Ctx(d)
        try: res.append(prop.judge(ctx, json.loads(json.dumps(body["scenario"]))))
        finally: ctx.close()
    if (res[0] or {}).get("kind") != (res[1] or {}).get("kind"):
        print("error: two replays differ"); return 2
    if res[0]:
        print("%s: %s" % (res[0]["kind"], res[0]["what"]))
        for k, val in res[0].items():
            if k not in ("kind", "what"): print("  %s: %s" % (k, str(val)[:2000]))
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
        return 1
    print("replay of %s: no violation" % path)
    return 0


def main(prop, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--tier" in argv: tier = argv[argv.index("--tier") + 1]
    if "--seed" in argv: seed = int(argv[argv.index("--seed") + 1])
    if "--replay" in argv: return replay(prop, argv[argv.index("--replay") + 1])
    t0 = time.time()
    print("check %s (%s) seed=%d tier=%s" % (prop.id, prop.title, seed, tier), flush=True)
    try: d = build.get()
    except build.BuildError as e:
        print("error: the simulator does not build:\n%s" % e); return 2
    if tier not in ("quick", "thorough"): tier = "quick"
    ncases, cap = prop.budget[tier]
    if "--cases" in argv: ncases = int(argv[argv.index("--cases") + 1])
    if "--cap" in argv: cap = float(argv[argv.index("--cap") + 1])
    total = Stats()
    viol, errs, samples, knownhits = [], [], [], collections.Counter()
    v0 = prop.prepare(d)
    if v0: viol.append((-1, v0[0], v0[1]))
    # listed findings first: each is replayed from its own scenario
    kf = [f for f in findings(prop.id) if f.get("status") != "fixed"]
    if kf and not viol:
        ctx = Ctx(d)
        for f in kf:
            try: v = prop.judge(ctx, json.loads(json.dumps(f["scenario"]))) if "scenario" in f else None
            except SimError as e: errs.append("finding %s: %s" % (f["id"], e)); ctx.fresh(); continue
            if v and prop.known(f["scenario"], v): print("KNOWN-FINDING: property=%s %s" % (prop.id, f["what"]), flush=True)
            elif v: viol.append((-1, f["scenario"], v))
        total.merge(ctx.st); ctx.close()
    nw = int(os.environ.get("SIM_WORKERS", min(8, os.cpu_count() or 1)))
    done = 0
    if not viol:
        counter = mp.Value("i", 0)
        pool = mp.get_context("fork").Pool(nw, _winit, (d, prop, seed, counter))
        try:
            it = pool.imap_unordered(_wcase, range(ncases), chunksize=1)
            for o in it:
                done += 1
                total.merge(o["st"]); errs += o["err"]; knownhits.update(o["known"])
                if len(samples) < 4: samples += o["samples"]
                for sc, v in o["viol"]: viol.append((o["i"], sc, v))
                if viol or len(errs) > 5 or time.time() - t0 > cap: break
        finally:
            pool.terminate(); pool.join()
    paths = []
    if viol:
        case, sc, v = viol[0]
        steps = 0
        ctx = Ctx(d)
        try:
            if case >= 0 and "--raw" not in argv: sc, steps = minimise(prop, ctx, sc, v, prop.minlimit)
            w = prop.judge(ctx, json.loads(json.dumps(sc))) if not v.get("static") else v
            if w and w["kind"] == v["kind"]: v = w
            trace = prop.trace(ctx, sc) if not v.get("static") else []
        finally: ctx.close()
        p = write_replay(prop, seed, case, sc, v, dict(minimisation_steps=steps, trace=trace))
        print("%s: %s" % (v["kind"], v["what"]))
        print("VIOLATION property=%s replay=%s" % (prop.id, p), flush=True)
        paths.append(p)
    wall = time.time() - t0
    runs = total.c["runs"]
    nontriv = len(total.distinct)
    ev = dict(property=prop.id, tier=tier, seed=seed, level=prop.level, wall_s=round(wall, 2), violations=len(viol),
              coverage=dict(
                  evaluations=runs, distinct_nontrivial=nontriv, rule=prop.rule, samples=samples[:4],
                  cases=done, scenarios=total.c["scenarios"], simulated_processes=total.c["procs"],
                  runs_per_hour=int(runs / max(wall, .01) * 3600), seeds_per_hour=int(done / max(wall, .01) * 3600),
                  simulated_seconds=round(total.c["simns"] / 1e9, 3), system_calls=total.c["syscalls"], allocations=total.c["allocs"],
                  faults_fired=dict(total.fired), outcomes=dict(total.kinds), probes=dict(total.probes),
                  distinct_traces=len(total.traces), distinct_measure=prop.measure, other_counts={k: v for k, v in total.c.items() if k not in ("runs", "cases", "scenarios", "procs", "syscalls", "simns", "allocs")},
                  determinism_reruns_identical=total.det, known_finding_hits=dict(knownhits),
                  unreproducible=errs[:5], real_components=prop.real, stub_components=prop.stub, workers=nw,
                  complete=done == ncases, replays=paths),
              assumptions=prop.assumptions)
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = os.path.join(EVIDENCE, ".%s.%d" % (prop.id, os.getpid()))
    with open(tmp, "w") as f: json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(EVIDENCE, prop.id + ".json"))
    print("%s: %d cases, %d simulated runs, %d distinct non-trivial, faults %s, outcomes %s, %.1fs" %
          (prop.id, done, runs, nontriv, dict(total.fired), dict(total.kinds), wall))
    if errs:
        print("error: %d simulator errors, first: %s" % (len(errs), errs[0]))
    if viol: return 1
    if errs: return 2
    return 0


class Prop:
    id = "?"; title = "?"; level = "exploration"; rule = ""; measure = "distinct hashes of the full sequence of system calls, arguments, results and data of all processes of a run (with the schedule)"
    budget = dict(quick=(200, 200.0), thorough=(6000, 3000.0))
    determinism = True
    minlimit = 45.0
    shrink_lines = shrink_files = True   # whether removing lines or files keeps a scenario one the judge can judge
    real = ["the whole compiler (/repo/src: driver, preprocessor, parser, IR, optimiser, code generator, assembler, object writers, linker), unmodified", "libc (stdio, strings, time zone code), statically linked"]
    stub = ["file system, descriptors and standard streams", "allocator", "clock", "process environment, stack and pid"]
    assumptions = ["the simulated file system follows POSIX semantics for the calls the compiler makes; calls it does not model return ENOSYS and are counted"]

    def prepare(self, d): return None
    def cases(self, ctx, rng): raise NotImplementedError
    def judge(self, ctx, sc): raise NotImplementedError
    def idents(self, ctx, sc):
        r = ctx.sim(sc["base"], sc["files"], sc["procs"], quota=sc.get("quota"), sched=sc.get("sched"), stick=sc.get("stick", 0), schedlist=sc.get("schedlist"))
        return [r.ident()]
    def known(self, sc, v):
        for f in findings(self.id):
            if f.get("status") != "fixed" and v.get("key") is not None and f.get("key") == v["key"]: return f["id"]
        return None
    def reductions(self, sc): return generic_reductions(sc, self.shrink_files)
    def trace(self, ctx, sc):
        try: r = ctx.sim(sc["base"], sc["files"], sc["procs"], log=True, wantout=True, quota=sc.get("quota"), sched=sc.get("sched"), stick=sc.get("stick", 0), schedlist=sc.get("schedlist"))
        except Exception: return []
        out = ["p%d %s fault=%d fd=%d %d %d -> %d %s" % (a, b, c, d, e, f, g, h or "") for a, b, c, d, e, f, g, h in r.log[-400:]]
        for k, q in enumerate(r.procs): out.append("p%d: %s %d stdout=%r stderr=%r" % (k, q["kind"], q["code"], q.get("stdout", "")[-500:], q.get("stderr", "")[-500:]))
        return out
