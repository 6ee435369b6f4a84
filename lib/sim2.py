"""SIM-2: client of the simulated machine that runs compiled programs."""
import hashlib, json, os, subprocess, tempfile
import objload
from sim1 import SimError

G = dict(sim_log=16, sim_bytes=17, sim_setjmp=18, sim_longjmp=19, sim_abort=20, sim_arm=21, sim_disarm=22, sim_hlog=23)
GT = dict(sim_log=1, sim_bytes=2, sim_setjmp=6, sim_longjmp=7, sim_abort=9, sim_arm=10, sim_disarm=11, sim_hlog=12)
GATE0 = 0x1f000000
THUNK0 = 64
CODE, FOREIGN, STACKS, DEV, OBJS = 0x10000000, 0x18000000, 0x20000000, 0x30000000, 0x31000000
STKLEN = 0x80000


def gate(i): return GATE0 + 16 * i


def gates(): return "".join("gate %x %x\n" % (G[k], GT[k]) for k in G)


class Machine:
    def __init__(self, path):
        self.path = path
        self.p = None
        self.start()

    def start(self):
        # no address space randomisation: wild values are the same in every run
        self.p = subprocess.Popen(["setarch", "-R", self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env={})
        self.cur = None

    def close(self):
        if self.p:
            try: self.p.stdin.close()
            except OSError: pass
            self.p.kill(); self.p.wait()
            self.p.stdout.close()
            self.p = None

    def run(self, image, threads, events=(), handlers=(), dumps=(), stklen=STKLEN, **opts):
        """image: an Image; threads: [(entry, [args])]"""
        o = []
        w = self.p.stdin
        try:
            if self.cur is not image:
                w.write(b"clear\n" + image.text())
                self.cur = image
            o.append("thrclear\nevclear")
            for i, (e, args) in enumerate(threads):
                o.append("thread %x %x %x %x %s" % (e, STACKS + i * 2 * STKLEN, stklen, len(args), " ".join("%x" % (a & (2**64 - 1)) for a in args)))
            for h in handlers: o.append("handler %x" % h)
            for a, n in dumps: o.append("dump %x %x" % (a, n))
            for k, v in opts.items(): o.append("opt %s %x" % (k, v))
            for e in events: o.append("ev %x %s %x" % (e[0], e[1], e[2] if len(e) > 2 else 0))
            o.append("run\n")
            w.write("\n".join(o).encode())
            w.flush()
            l = self.p.stdout.readline()
        except OSError as e:
            raise SimError("machine: %s" % e)
        if not l: raise SimError("the machine died")
        r = json.loads(l)
        if r["st"] in ("mapfail", "harness", "died", "undecoded") : raise SimError("machine: %s %s" % (r["st"], r.get("viol") or r.get("sig")))
        r["hash"] = hashlib.blake2b(l, digest_size=8).hexdigest()
        r.setdefault("log", ""); r.setdefault("viol", []); r.setdefault("steps", 0)
        h = [v for v in r["viol"] if v.startswith("H ")]
        if h: raise SimError("machine: " + h[0])
        return r


class Image:
    """Loaded objects, thunks and extra memory."""
    def __init__(self, objs, resolve=None, thunks=(), extra=(), flush=False):
        """objs: [(bytes, is_compiled)], thunks: [(index, desc text with target as %x of a symbol name tuple)], extra: [(kind, addr, bytes or length, prot)]"""
        def res(name, k):
            if resolve:
                v = resolve(name, k)
                if v is not None: return v
            return gate(G[name]) if name in G else None
        base = {True: CODE, False: FOREIGN}
        lst = []
        for b, comp in objs:
            lst.append((b, base[comp], comp))
            base[comp] += 0x1000000
        self.segs, self.tabs = objload.place(lst, res, flush)
        self.segs = list(self.segs) + list(extra)
        self.thunks = list(thunks)
        self._t = None

    def sym(self, name, k=None):
        for i, t in enumerate(self.tabs):
            if (k is None or i == k) and name in t: return t[name]
        raise objload.LoadError("no symbol " + name)

    def text(self):
        if self._t is None:
            out = []
            for kind, a, d, prot in self.segs:
                if isinstance(d, int): out.append(b"seg %s %x %x %x 0\n" % (kind.encode(), a, d, prot))
                else: out.append(b"seg %s %x %x %x 1\n" % (kind.encode(), a, len(d), prot) + bytes(d))
            out.append(gates().encode())
            for t in self.thunks: out.append(t.encode())
            self._t = b"".join(out)
        return self._t


GCCFLAGS = ["-O1", "-w", "-fno-pic", "-fno-pie", "-fno-stack-protector", "-fcf-protection=none", "-fno-asynchronous-unwind-tables",
            "-mno-red-zone", "-std=gnu17", "-fno-builtin", "-fno-strict-aliasing", "-fno-ipa-ra", "-mno-avx"]


def gcc(ctx, src, flags=()):
    """Object bytes of a source compiled by the reference compiler, or None."""
    key = hashlib.sha1(("\0".join(flags) + "\1" + src).encode("latin-1")).digest()
    c = ctx.tmp.setdefault("gcc", {})
    if key not in c:
        if len(c) > 200: c.clear()
        fd, out = tempfile.mkstemp(prefix="sim2-")
        os.close(fd)
        try:
            p = subprocess.run(["gcc"] + GCCFLAGS + list(flags) + ["-x", "c", "-c", "-", "-o", out], input=src.encode("latin-1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode: c[key] = None; ctx.tmp["gccerr"] = p.stdout.decode(errors="replace")
            else:
                with open(out, "rb") as f: c[key] = f.read()
        finally: os.unlink(out)
    return c[key]


def cc(ctx, src, flags=()):
    """(object bytes or None, the run) of a source compiled by the compiler under test."""
    key = hashlib.sha1(("\0".join(flags) + "\1" + src).encode("latin-1")).digest()
    c = ctx.tmp.setdefault("cc", {})
    if key not in c:
        if len(c) > 200: c.clear()
        r = ctx.sim("min", {"/w/a.c": src}, [dict(argv=["cc", "-c"] + list(flags) + ["a.c", "-o", "a.o"])], wantout=True)
        p = r.p
        c[key] = (ctx.outfile("/w/a.o") if p["kind"] == "exit" and p["code"] == 0 else None, dict(kind=p["kind"], code=p["code"], out=(p.get("stdout") or "")[-400:]))
    return c[key]
