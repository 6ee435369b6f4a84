"""Client side of SIM-1: the simcc server, plans, results and shared images."""
import glob, hashlib, os, re, subprocess, threading
import build

FILE, DIR, NULL, FULL = 1, 2, 3, 4
ERR = dict(EPERM=1, ENOENT=2, EINTR=4, EIO=5, ENXIO=6, EAGAIN=11, ENOMEM=12, EACCES=13, EBUSY=16, EISDIR=21, EINVAL=22,
           ENFILE=23, EMFILE=24, EFBIG=27, ENOSPC=28, EROFS=30, EPIPE=32, ENAMETOOLONG=36, ELOOP=40, EOVERFLOW=75, ESTALE=116, EDQUOT=122)
ERRNAME = {v: k for k, v in ERR.items()}

SYS = {0: "read", 1: "write", 2: "open", 3: "close", 4: "stat", 5: "fstat", 6: "lstat", 8: "lseek", 9: "mmap", 16: "ioctl", 17: "pread", 18: "pwrite",
       19: "readv", 20: "writev", 21: "access", 72: "fcntl", 76: "truncate", 77: "ftruncate", 82: "rename", 83: "mkdir", 85: "creat",
       87: "unlink", 228: "clock", 231: "exit", 257: "open", 262: "stat", 263: "unlink", 264: "rename", 269: "access", 316: "rename",
       318: "getrandom", 332: "stat", 439: "access"}


class SimError(Exception):
    """The simulator itself failed (never a verdict about the compiler)."""


def std_files():
    """The read-only world: the repository's sources, tests and headers and the
    system headers they reach."""
    files = {}
    R = build.REPO
    for root in ("src", "tests", "include/linux"):
        for d, dirs, fs in os.walk(os.path.join(R, root)):
            dirs.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                with open(p, "rb") as fp: files["/w/" + os.path.relpath(p, R)] = fp.read()
    with open(os.path.join(R, "config.def.h"), "rb") as fp:
        files["/w/config.h"] = fp.read().replace(b'\t"/usr/include/",', b'\t"/usr/include/",\n\t"/usr/include/x86_64-linux-gnu/",')
    todo = []
    rx = re.compile(rb'^[ \t]*#[ \t]*include(?:_next)?[ \t]*[<"]([^>"\n]+)[>"]', re.M)
    seen = set()
    roots = ["/usr/include", "/usr/include/x86_64-linux-gnu"]
    for data in list(files.values()): todo += rx.findall(data)
    todo += [b"stdc-predef.h", b"features.h"]
    while todo:
        n = todo.pop().decode(errors="replace")
        if n in seen or n.startswith("/") or ".." in n: continue
        seen.add(n)
        for r in roots:
            p = os.path.join(r, n)
            if os.path.isfile(p):
                with open(p, "rb") as fp: d = fp.read()
                files[p] = d
                todo += rx.findall(d)
                # quoted includes relative to the header's own directory
                for q in rx.findall(d):
                    todo.append(os.path.join(os.path.dirname(n), q.decode(errors="replace")).encode())
    return files


def with_dirs(files):
    """Adds every parent directory of the given paths: {path: (type, mode, data)}"""
    out = {"/": (DIR, 0o755, b"")}
    for p, v in files.items():
        if not isinstance(v, tuple): v = (FILE, 0o644, v if isinstance(v, bytes) else v.encode("latin-1"))
        d = os.path.dirname(p)
        todo = []
        while d not in out and d != "/":
            todo.append(d); d = os.path.dirname(d)
        for x in reversed(todo): out[x] = (DIR, 0o755, b"")
        if p in out and v[0] == DIR: continue
        out[p] = v
    return out


def esc(s):
    return "".join(c if "!" <= c <= "~" and c != "%" else "".join("%%%02x" % b for b in c.encode("latin-1")) for c in s)


def unesc(s):
    return re.sub(r"%([0-9a-f]{2})", lambda m: chr(int(m.group(1), 16)), s)


class Result:
    def __init__(self):
        self.procs = []
        self.files = {}    # path -> (status, mode, size, hash)
        self.log = []      # (proc, sysname, fault, fd, a, b, ret, path)
        self.sched = None
        self.schedhash = None

    @property
    def p(self): return self.procs[0]

    def state(self, path, before):
        """Contents identity of path after the run: None if absent, else (size, hash); `before` if unchanged."""
        if path not in self.files: return before
        st, mode, size, h = self.files[path]
        return None if st == "d" else (size, h)

    def ident(self):
        """Everything observable about the run, for determinism comparisons."""
        return (tuple((q["kind"], q["code"], q["hash"], q["out"], q["err"], q["nalloc"], q["nsys"]) for q in self.procs),
                tuple(sorted(self.files.items())), self.schedhash)


DEFAULT_ENV = {"TZ": "UTC0", "PATH": "/bin"}


def proc_text(pr):
    o = ["proc"]
    for a in pr["argv"]: o.append("arg " + esc(a))
    for k, v in sorted(pr.get("env", DEFAULT_ENV).items()): o.append("env " + esc("%s=%s" % (k, v)))
    if "cwd" in pr: o.append("cwd " + esc(pr["cwd"]))
    if "out" in pr: o.append("out " + pr["out"])
    if "err" in pr: o.append("err " + pr["err"])
    if "heap" in pr: o.append("heap %d %d %d" % tuple(pr["heap"]))
    if "stack" in pr: o.append("stack %d %d" % tuple(pr["stack"]))
    if "pid" in pr: o.append("pid %d" % pr["pid"])
    if "clock" in pr: o.append("clock %d %d %d" % tuple(pr["clock"]))
    for k, d in pr.get("jumps", []): o.append("jump %d %d" % (k, d))
    for f in pr.get("faults", []): o.append("fault %d %s %d %d" % (f[0], f[1], f[2], f[3] if len(f) > 3 else 0))
    for s in pr.get("sticky", []): o.append("sticky %s %d %d" % tuple(s))
    for n in pr.get("allocfail", []): o.append("allocfail %d" % n)
    if pr.get("allocsticky") is not None: o.append("allocsticky %d" % pr["allocsticky"])
    if pr.get("allocmax"): o.append("allocmax %d" % pr["allocmax"])
    if pr.get("maxfd"): o.append("maxfd %d" % pr["maxfd"])
    if pr.get("chunk"): o.append("chunk %d" % pr["chunk"])
    if pr.get("budget"): o.append("budget %d" % pr["budget"])
    return o


class Server:
    STD = None

    def __init__(self, exe, cpu=None):
        self.exe = exe
        self.cpu = cpu
        self.p = None
        self.start()

    def start(self):
        env = {"PATH": "/usr/bin:/bin"}
        if self.cpu is not None: env["SIM_CPU"] = str(self.cpu)
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd="/")
        self.i, self.o = self.p.stdin, self.p.stdout
        self.cache = {}
        self.next = 10
        self.bytes = 0
        if Server.STD is None: Server.STD = with_dirs(std_files())
        self._img(1, 0, Server.STD)
        self._img(2, 0, with_dirs({"/w": (DIR, 0o755, b"")}))

    def close(self):
        if self.p:
            try: self.i.close()
            except OSError: pass
            self.p.wait()
            self.o.close()
            self.p = None

    def _img(self, id, base, files):
        parts = [b"IMG %d %d %d\n" % (id, base, len(files))]
        for p, (t, m, d) in files.items():
            b = p.encode("latin-1")
            parts.append(b"%d %d %d %d\n" % (t, m, len(b), len(d))); parts.append(b); parts.append(d)
        blob = b"".join(parts)
        self.bytes += len(blob)
        self.i.write(blob)

    def image(self, base, files):
        """files: {path: str|bytes|(type, mode, bytes)|None}; returns an image id."""
        norm = {}
        for p in sorted(files):
            v = files[p]
            if isinstance(v, list): v = (v[0], v[1], v[2].encode("latin-1"))
            if v is None: v = (0, 0, b"")
            norm[p] = v
        key = (base, hashlib.sha1(repr(sorted(norm.items())).encode()).digest())
        if key in self.cache: return self.cache[key]
        if self.next > 3000 or self.bytes > (300 << 20):
            self.close(); self.start()
        id = self.next; self.next += 1
        removed = {p: v for p, v in norm.items() if isinstance(v, tuple) and v[0] == 0}
        wd = with_dirs({p: v for p, v in norm.items() if p not in removed})
        # do not replace directories of the base image by new ones (same anyway)
        wd.update(removed)
        self._img(id, 1 if base == "std" else 2, wd)
        self.cache[key] = id
        return id

    def run(self, img, procs, log=False, wantout=False, save=False, quota=None, sched=None, schedlist=None, stick=0):
        o = ["img %d" % img]
        if log: o.append("log 1")
        if wantout: o.append("wantout 1")
        sid = None
        if save:
            sid = self.next; self.next += 1
            o.append("save %d" % sid)
        if quota is not None: o.append("quota %d" % quota)
        if sched is not None: o.append("sched %d" % sched)
        if stick: o.append("stick %d" % stick)
        if schedlist is not None: o.append("schedlist " + schedlist)
        for pr in procs: o += proc_text(pr)
        b = ("\n".join(o) + "\n").encode("latin-1")
        try:
            self.i.write(b"RUN %d\n" % len(b)); self.i.write(b); self.i.flush()
        except BrokenPipeError:
            raise SimError("simcc died before the run: %r" % self.p.wait())
        r = Result(); r.saved = sid
        while True:
            l = self.o.readline()
            if not l: raise SimError("simcc died (status %r) on plan:\n%s" % (self.p.wait(), b.decode("latin-1")[:2000]))
            if l == b"END\n": break
            c = l[:1]
            if c == b"P":
                t = l.decode().split()
                d = {"kind": t[2], "code": int(t[3])}
                for kv in t[4:]:
                    k, v = kv.split("=")
                    d[k] = v if k in ("hash", "out", "err", "rip", "addr", "unmod") else int(v)
                r.procs.append(d)
            elif c == b"O":
                _, i, a, e = l.split()
                r.procs[int(i)]["stdout"] = self.o.read(int(a)).decode("latin-1")
                r.procs[int(i)]["stderr"] = self.o.read(int(e)).decode("latin-1")
            elif c == b"F":
                _, st, mode, size, h, p = l.decode().rstrip("\n").split(" ")
                r.files[unesc(p)] = (st, int(mode), int(size), h)
            elif c == b"S":
                t = l.decode().rstrip("\n").split(" ")
                r.schedhash = t[2]; r.sched = t[3]
            elif c == b"L":
                t = l.decode().rstrip("\n").split(" ")
                nr = int(t[2])
                r.log.append((int(t[1]), SYS.get(nr, "sys%d" % nr), int(t[3]), int(t[4]), int(t[5]), int(t[6]), int(t[7]), None if t[8] == "-" else unesc(t[8])))
            else: raise SimError("bad reply %r" % l)
        return r

    def get(self, path):
        b = path.encode("latin-1")
        self.i.write(b"GET %d\n" % len(b) + b); self.i.flush()
        l = self.o.readline().split()
        if len(l) != 2: raise SimError("bad GET reply")
        n = int(l[1])
        return None if n < 0 else self.o.read(n)


def numbered(log, proc=0):
    """The numbered system calls of one process: list of (idx, rec). Clock reads made
    through libc are logged without a number; everything else is numbered in order."""
    out = []
    i = 0
    for rec in log:
        if rec[0] != proc: continue
        if rec[1] == "clock": continue
        out.append((i, rec)); i += 1
    return out


class FdTrack:
    """Follows descriptors through a log to tell which path each call is about."""

    def __init__(self, log, proc=0, cwd="/w"):
        self.ops = []       # (idx, name, cls, path, rec)  cls: in / out / stdout / stderr / other
        fds = {0: ("<stdin>", "in"), 1: ("<stdout>", "stdout"), 2: ("<stderr>", "stderr")}
        for i, rec in numbered(log, proc):
            _, name, fault, fd, a, b, ret, path = rec
            if name in ("open", "creat"):
                cls = "out" if (a & 3) or name == "creat" else "in"
                self.ops.append((i, "open", cls, path, rec))
                if ret >= 0: fds[ret] = (path, cls)
            elif fd >= 0:
                p, cls = fds.get(fd, ("?", "other"))
                self.ops.append((i, name, cls, p, rec))
                if name == "close": fds.pop(fd, None)
            else:
                self.ops.append((i, name, "other", path, rec))
