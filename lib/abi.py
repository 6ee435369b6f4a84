"""Types, layouts and calling sequences of the System V and Microsoft x86-64 ABIs, and generated
programs of two halves that call each other in both directions."""
import random

INT = {"char": (1, True), "signed char": (1, True), "unsigned char": (1, False), "short": (2, True), "unsigned short": (2, False),
       "int": (4, True), "unsigned": (4, False), "long": (8, True), "unsigned long": (8, False), "long long": (8, True), "unsigned long long": (8, False),
       "_Bool": (1, False), "void *": (8, False)}
FLT = {"float": 4, "double": 8}


def is_struct(t): return t.startswith(("S", "U")) and t[1:].isdigit()


class Types:
    def __init__(self, table, ms, padding=False):
        self.padding = padding           # treat unnamed bit-fields as values
        self.t, self.ms = table, ms      # {tag: [[name, type, length, bits]]}; bit-fields may be unnamed, bits -1 is width zero
        self.cache = {}

    def scalar(self, t):
        if t in FLT: return FLT[t]
        return INT[t][0]

    def layout(self, t):
        """(size, align, leaves [(offset, size, is_float, path, bits)])"""
        if not is_struct(t): n = self.scalar(t); return n, n, [(0, n, t in FLT, "", 0)]
        if t in self.cache: return self.cache[t]
        union = t[0] == "U"
        bit, align, leaves, size = 0, 1, [], 0
        for name, mt, ln, bits in self.t[t]:
            s, a, lv = self.layout(mt)
            if name or not bits: align = max(align, a)
            if bits == -1: bit = 0 if union else -(-bit // (s * 8)) * s * 8
            elif bits:
                if not union and bit // (s * 8) != (bit + bits - 1) // (s * 8): bit = -(-bit // (s * 8)) * s * 8
                if union: bit = 0
                lo, hi = bit // 8, (bit + bits - 1) // 8
                if name or self.padding: leaves.append((lo, hi - lo + 1, False, "." + name, bits))
                bit += bits
            else:
                if union: bit = 0
                off = -(-(-(-bit // 8)) // a) * a
                for k in range(ln or 1):
                    for lo, sz, fl, path, b in lv: leaves.append((off + k * s + lo, sz, fl, "." + name + ("[%d]" % k if ln else "") + path, b))
                bit = (off + s * (ln or 1)) * 8
            size = max(size, -(-bit // 8))
        size = -(-size // align) * align
        self.cache[t] = (size, align, leaves)
        return self.cache[t]

    def size(self, t): return self.layout(t)[0]

    def mask(self, t):
        """Bytes of the object that carry values."""
        n, _, lv = self.layout(t)
        m = [False] * n
        for lo, sz, *_ in lv:
            for k in range(sz): m[lo + k] = True
        return m

    def visible(self, t):
        """Leaves whose values can be set and read independently (only the first member of a union)."""
        if not is_struct(t): return [("", t, 0)]
        out = []
        ms = self.t[t][:1] if t[0] == "U" else self.t[t]
        for name, mt, ln, bits in ms:
            if not name: continue
            for k in range(ln or 1):
                for path, lt, b in self.visible(mt): out.append(("." + name + ("[%d]" % k if ln else "") + path, lt, bits or b))
        return out

    def classify(self, t):
        """Classes of the eightbytes, or None for memory."""
        n, _, lv = self.layout(t)
        if n > 16: return None
        c = [None] * -(-n // 8)
        for lo, sz, fl, *_ in lv:
            for e in range(lo // 8, (lo + sz - 1) // 8 + 1):
                c[e] = "I" if not fl or c[e] == "I" else "S"
        return [x or "S" for x in c]

    def define(self):
        o = []
        for tag, ms in self.t.items():
            o.append("%s %s {" % ("union" if tag[0] == "U" else "struct", tag))
            for name, mt, ln, bits in ms: o.append("\t%s %s%s;" % (self.c(mt), name, "[%d]" % ln if ln else " : %d" % max(bits, 0) if bits else ""))
            o.append("};")
        return o

    def c(self, t):
        if t == "F": return "fp"
        if is_struct(t): return ("union " if t[0] == "U" else "struct ") + t
        return t


def mbits(m): return sum(1 << i for i, b in enumerate(m) if b)


def promote(t):
    if t == "float": return "double"
    if t in INT and INT[t][0] < 4: return "int"
    return t


def descriptor(T, f, idx, target):
    """The thunk line of a function: what the ABI defines at its calls and returns."""
    ms = T.ms
    params = [("void *" if t in ("F", "V") else t) for t in f["params"]] + [promote(t) for t in f.get("vseq") or []]
    rmask, xmask, stk = [0] * 6, [0] * 8, []
    variadic = 1 if f.get("vseq") is not None else 0
    memret = 0
    rax = rdx = x0 = x1 = 0
    dup = 0
    ret = f["ret"]
    nx = 0
    if ms:
        slot = 0
        if ret:
            n = T.size(ret)
            if is_struct(ret) and n not in (1, 2, 4, 8): memret = 1; rmask[0] = 255; slot = 1; rax = 255
            elif ret in FLT: x0 = (1 << n) - 1
            else: rax = mbits(T.mask(ret))
        for i, t in enumerate(params):
            n = T.size(t)
            byref = is_struct(t) and n not in (1, 2, 4, 8)
            m = [True] * 8 if byref else T.mask(t) + [False] * (8 - n)
            if slot < 4:
                if t in FLT:
                    xmask[slot] = mbits(m)
                    if i >= len(f["params"]): rmask[slot] = mbits(m); dup |= 1 << slot
                else: rmask[slot] = mbits(m)
            else: stk += m
            slot += 1
    else:
        g = 0
        if ret:
            c = T.classify(ret)
            if c is None: memret = 1; rmask[0] = 255; g = 1; rax = 255
            else:
                m = T.mask(ret)
                gi = xi = 0
                for k, cl in enumerate(c):
                    part = mbits(m[8 * k:8 * k + 8])
                    if cl == "S":
                        if xi == 0: x0 = part
                        else: x1 = part
                        xi += 1
                    else:
                        if gi == 0: rax = part
                        else: rdx = part
                        gi += 1
        for t in params:
            c = T.classify(t)
            m = T.mask(t)
            if c is None or g + c.count("I") > 6 or nx + c.count("S") > 8:
                stk += m + [False] * (-len(m) % 8)
                continue
            for k, cl in enumerate(c):
                part = mbits(m[8 * k:8 * k + 8])
                if cl == "S": xmask[nx] = part; nx += 1
                else: rmask[g] = part; g += 1
    return "thunk %x %x %x %x %x %s %s %x %x %x %x %x %x %s\n" % (idx, target, variadic, nx, memret, " ".join("%x" % x for x in rmask), " ".join("%x" % x for x in xmask), rax, rdx, x0, x1, dup, len(stk), "".join("1" if b else "0" for b in stk))


# ---------------------------------------------------------------- programs
class Program:
    """sc: dict(types, funcs, ms).  Function 0 is called by the driver; a function calls only later ones."""

    def __init__(self, sc):
        self.sc = sc
        self.T = Types(sc["types"], sc["ms"])

    def value(self, t, v, bits=0):
        if t in FLT: return "(%s)%r" % (t, (v % 4096 - 2048) * 0.125)
        if t == "void *": return "(void *)0x%xull" % (v & (2**48 - 1))
        if t == "_Bool": return str(v & 1)
        n, sg = INT[t]
        v &= (1 << (bits or n * 8)) - 1
        return "(%s)0x%xull" % (t, v)

    def ptype(self, t): return "__builtin_va_list" if t == "V" else self.T.c(t)

    def proto(self, j, name, names=True):
        f = self.sc["funcs"][j]
        ps = ["%s%s" % (self.ptype(t), " p%d" % i if names else "") for i, t in enumerate(f["params"])]
        if f.get("vseq") is not None: ps.append("...")
        return "%s %s(%s)" % (self.T.c(f["ret"]) if f["ret"] else "void", name, ", ".join(ps) or "void")

    def logv(self, expr, t, lval=True):
        o = []
        for path, lt, bits in self.T.visible(t):
            if lt in FLT or lt == "void *" and False: o.append("\tsim_bytes(&%s%s, %d);" % (expr, path, FLT[lt]))
            elif lt == "void *": o.append("\tsim_log((W)%s%s);" % (expr, path))
            else: o.append("\tsim_log((W)%s%s);" % (expr, path))
        return o

    def setv(self, name, t, seed):
        o, r = [], random.Random(seed)
        for path, lt, bits in self.T.visible(t): o.append("\t%s%s = %s;" % (name, path, self.value(lt, r.getrandbits(64), bits)))
        return o

    def source(self, side):
        sc, T = self.sc, self.T
        o = ["typedef unsigned long long W;", "typedef void (*fp)(int);", "extern void sim_log(W), sim_bytes(void *, W);"] + T.define()
        used = set()
        for f in sc["funcs"]:
            if f.get("pass") is not None: used.add(f["pass"])
            for op in f["ops"]:
                def walk(g, args):
                    used.add(g)
                    for a in args:
                        if isinstance(a, list) and a[0] == "F": used.add(a[1])
                        elif isinstance(a, list): walk(a[1], a[3])
                if op[0] == "call": walk(op[1], op[3])
        for j, f in enumerate(sc["funcs"]):
            o.append("extern %s;" % self.proto(j, "f%d_x" % j))
            if f["side"] == side and j in used: o.append("%s;" % self.proto(j, "f%d" % j))
        if side == 1: o.append("void start(void) { f0_x(); }")
        for j, f in enumerate(sc["funcs"]):
            if f["side"] == side: o += self.function(j, f, side)
        return "\n".join(o) + "\n"

    def function(self, j, f, side):
        sc, T = self.sc, self.T
        o = [self.proto(j, "f%d" % j), "{"]
        n = 0
        if "alignas" in f["fl"]: o.append("\t_Alignas(%d) unsigned char al[%d];" % (f["al"], f["al"] + 3))
        if "vla" in f["fl"]: o.append("\tint vn = %d; unsigned char vla[vn];" % f["vla"])
        if "keep" in f["fl"]:
            for k in range(3): o.append("\tW k%d = 0x%xull; double kd%d = %d.5;" % (k, 0x123456789abcdef1 * (j + k + 1) & (2**64 - 1), k, j * 3 + k))
        if "alignas" in f["fl"]: o.append("\tsim_log((W)al %% %dull); al[0] = 7; al[%d] = 9;" % (f["al"], f["al"] + 2))
        if "vla" in f["fl"]: o.append("\tvla[0] = 5; vla[vn - 1] = 6;")
        for i, t in enumerate(f["params"]):
            if t == "F": o.append("\tp%d(%d);" % (i, 1000 + j * 10 + i))
            elif t == "V": o += self.readva("p%d" % i, f["vaseq"], "q")
            else: o += self.logv("p%d" % i, t)
        for i, t in enumerate(f["params"]):
            if "mod" in f["fl"] and t not in "FV": o += self.setv("p%d" % i, t, j * 100 + i)
        if f.get("vseq") is not None and f["last"]:
            o.append("\t__builtin_va_list ap; __builtin_va_start(ap, p%d);" % (len(f["params"]) - 1))
            if f.get("pass") is not None:
                g = f["pass"]
                o.append("\t%s(3, ap);" % (("f%d" if sc["funcs"][g]["side"] == side else "f%d_x") % g))
            else:
                if "copy" in f["fl"]:
                    k = len(f["vseq"]) // 2
                    o += self.readva("ap", f["vseq"][:k], "v")
                    o.append("\t__builtin_va_list aq; __builtin_va_copy(aq, ap);")
                    o += self.readva("ap", f["vseq"][k:], "w")
                    o += self.readva("aq", f["vseq"][k:], "x")
                    o.append("\t__builtin_va_end(aq);")
                elif "loop" in f["fl"] and len(set(f["vseq"])) == 1:
                    t = promote(f["vseq"][0])
                    o.append("\tfor (int i = 0; i < %d; i++) { %s y = __builtin_va_arg(ap, %s);" % (len(f["vseq"]), T.c(t), T.c(t)))
                    o += self.logv("y", t) + ["\t}"]
                else: o += self.readva("ap", f["vseq"], "v")
            o.append("\t__builtin_va_end(ap);")
        for op in f["ops"]:
            if op[0] != "call": continue
            _, g, how, args, use = op
            cal = sc["funcs"][g]
            o.append("\t{")
            vs = []
            call = self.call(side, o, vs, g, how, args)
            if cal["ret"] and use == "init": o.append("\t%s r = %s;" % (T.c(cal["ret"]), call)); o += self.logv("r", cal["ret"])
            elif cal["ret"] and use == "assign": o.append("\t%s r; r = %s;" % (T.c(cal["ret"]), call)); o += self.logv("r", cal["ret"])
            elif cal["ret"] and use == "arr": o.append("\t%s r[3]; r[1] = %s;" % (T.c(cal["ret"]), call)); o += self.logv("r[1]", cal["ret"])
            else: o.append("\t%s;" % call)
            for v, t in vs: o += self.logv(v, t)                       # the callee owns only its copy
            o.append("\t}")
        if "keep" in f["fl"]:
            for k in range(3): o.append("\tsim_log(k%d); sim_bytes(&kd%d, 8);" % (k, k))
        if "alignas" in f["fl"]: o.append("\tsim_log(al[0] + al[%d]);" % (f["al"] + 2))
        if "vla" in f["fl"]: o.append("\tsim_log(vla[0] + vla[vn - 1]);")
        if f["ret"]:
            t = f["ret"]
            if is_struct(t) or t in FLT or "retvar" in f["fl"]:
                o.append("\t%s rv;" % T.c(t))
                o += self.setv("rv", t, j * 7919 + f["rs"])
                o.append("\treturn rv;")
            else: o.append("\treturn %s;" % self.value(t, f["rs"]))
        o.append("}")
        return o

    def call(self, side, o, vs, g, how, args):
        """A call expression; declarations it needs are appended to o."""
        T, cal = self.T, self.sc["funcs"][g]
        name = ("f%d" if cal["side"] == side and how != "x" else "f%d_x") % g
        pts = cal["params"] + (cal.get("vseq") or [])
        ex = []
        for i, t in enumerate(pts):
            a = args[i] if i < len(args) else 1
            if t == "F": ex.append("f%d_x" % a[1])
            elif isinstance(a, list): ex.append(self.call(side, o, vs, a[1], a[2], a[3]))
            elif is_struct(t):
                v = "a%d" % len(vs)
                way = a % 4
                o.append("\t%s %s%s;" % (T.c(t), v, "" if way < 2 else "[2]"))
                e = v if way < 2 else v + "[1]"
                if way == 1: o.append("\t%s *q%s = &%s;" % (T.c(t), v, v))
                vs.append((e, t))
                o += self.setv(e, t, a)
                ex.append(e if way != 1 else "*q" + v)
            else: ex.append(self.value(t, a))
        if how == "ptr":
            n = "fq%d" % len(o)
            o.append("\t%s = %s;" % (self.proto(g, "(*%s)" % n, False), name))
            name = n
        return "%s(%s)" % (name, ", ".join(ex))

    def readva(self, ap, seq, p):
        o = []
        for i, t in enumerate(seq):
            t = promote(t)
            o.append("\t%s %s%d = __builtin_va_arg(%s, %s);" % (self.T.c(t), p, i, ap, self.T.c(t)))
            o += self.logv("%s%d" % (p, i), t)
        return o


def bitfield(rng, ints, k, plain=0.3):
    """(type, width): width 0 no bit-field, -1 zero width, over 100 unnamed."""
    if rng.random() < plain: return rng.choice(["char", "short", "int", "float", "double", "long long", "unsigned", "unsigned char"]), 0
    t = rng.choice(["unsigned", "unsigned", "int", "_Bool", "char", "unsigned char", "short", "unsigned short"] + [x for x in ints if x != "void *"])
    mx = 1 if t == "_Bool" else INT[t][0] * 8
    c = rng.random()
    if k and c < 0.08: return t, -1
    w = rng.choice([1, 3, 7, 8, 11, 16, 24, 31, 32, 33, 48, 63, 64, mx, rng.randrange(1, 65)])
    w = 1 + (w - 1) % mx
    return t, (100 + w if k and c < 0.16 else w)


def tidy(table, tag, ms_):
    """Compilers differ in whether unnamed bit-fields have a class: drop them where it matters."""
    if not any(m[0] for m in ms_): ms_ = [["m0", "int", 0, 0]] + ms_
    if tag[0] == "U": ms_ = [m for m in ms_ if m[0]]
    a, b = (Types({**table, tag: ms_}, False, p) for p in (False, True))
    if a.size(tag) <= 16 and a.classify(tag) != b.classify(tag): ms_ = [m for m in ms_ if m[0] or m[3] < 0]
    a, b = (Types({**table, tag: ms_}, False, p) for p in (False, True))
    if a.size(tag) <= 16 and a.classify(tag) != b.classify(tag): ms_ = [[n, "int" if is_struct(t) else t, ln, bits] for n, t, ln, bits in ms_]
    return ms_


def generate(rng, ms):
    ints = [t for t in INT if not (ms and t in ("long", "unsigned long"))]
    table = {}
    scal = lambda: rng.choice(ints) if rng.random() < 0.65 else rng.choice(["float", "double"])
    style = rng.random()
    for i in range(rng.randrange(1, 6)):
        tag = ("U" if rng.random() < 0.15 else "S") + str(i)
        ms_ = []
        only = rng.choice([None, None, "int", "flt", "small"] + ["bits", "bits"])
        for k in range(rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 7])):
            t = scal()
            if only == "int": t = rng.choice(ints)
            if only == "flt": t = rng.choice(["float", "double"])
            if only == "small": t = rng.choice(["char", "unsigned char", "short", "unsigned short", "float", "int"])
            if rng.random() < 0.12 and table and only != "bits": t = rng.choice(list(table))
            ln, bits = 0, 0
            if only == "bits": t, bits = bitfield(rng, ints, k)
            if bits < 0 or bits > 99: ms_.append(["", t, 0, bits % 100 if bits > 0 else -1]); continue
            if bits: pass
            elif rng.random() < 0.2: ln = rng.randrange(1, 5)
            ms_.append(["m%d" % k, t, ln, bits])
        table[tag] = tidy(table, tag, ms_)
    T = Types(table, ms)
    tags = [t for t in table if T.size(t) <= 200]

    def ty(p=0.3):
        if tags and rng.random() < p: return rng.choice(tags)
        if style < 0.2: return rng.choice(["float", "double"])
        return scal()
    n = rng.randrange(2, 9)
    funcs = []
    for j in range(n):
        np = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 13])
        f = dict(side=rng.randrange(2), params=[ty() for _ in range(np)], ret=None if rng.random() < 0.25 else ty(0.45), ops=[], fl=[], rs=rng.getrandbits(60))
        for fl, p in (("mod", 0.5), ("keep", 0.4), ("alignas", 0.1), ("vla", 0.1), ("retvar", 0.5), ("copy", 0.2), ("loop", 0.5)):
            if rng.random() < p: f["fl"].append(fl)
        f["al"] = rng.choice([16, 32, 64]); f["vla"] = rng.randrange(1, 60)
        if rng.random() < 0.3:
            if not f["params"] or f["params"][-1] in ("float", "char", "signed char", "unsigned char", "short", "unsigned short", "_Bool"): f["params"].append(rng.choice(["int", "double", "long long"]))
            k = rng.choice([0, 1, 2, 3, 5, 8, 12])
            same = ty(0.1) if rng.random() < 0.3 else None
            f["vseq"] = [same or ty(0.2) for _ in range(k)]
            f["last"] = True
        if rng.random() < 0.12: f["params"].insert(rng.randrange(len(f["params"]) + 1), "F") if f.get("vseq") is None else None
        funcs.append(f)
    funcs[0].update(params=[], ret=None); funcs[0].pop("vseq", None)
    cb = None
    if any("F" in f["params"] for f in funcs):
        cb = len(funcs)
        for side in (0, 1): funcs.append(dict(side=side, params=["int"], ret=None, ops=[], fl=[], rs=0, al=16, vla=3))
    # functions that read a va_list of others
    for j in range(n):
        f = funcs[j]
        if f.get("vseq") and rng.random() < 0.3:
            funcs.append(dict(side=rng.randrange(2), params=["int", "V"], ret=None, ops=[], fl=[], rs=0, al=16, vla=3, vaseq=list(f["vseq"])))
            f["pass"] = len(funcs) - 1

    def arg(t):
        if t == "F": return ["F", cb + rng.randrange(2)]
        return rng.getrandbits(63)

    def args(j, g, nest):
        """Arguments of a call in function j; at most one of them is itself a call, so the order of
        evaluation shows nowhere."""
        pts = funcs[g]["params"] + (funcs[g].get("vseq") or [])
        out = [arg(t) for t in pts]
        if rng.random() < nest:
            can = [(i, h) for i, t in enumerate(pts) if t != "F" for h in range(j + 1, n) if funcs[h]["ret"] == t or (funcs[h]["ret"] and not is_struct(t) and not is_struct(funcs[h]["ret"]) and t in INT and funcs[h]["ret"] in INT and "void *" not in (t, funcs[h]["ret"]))]
            same = [c for c in can if funcs[c[1]]["ret"] == pts[c[0]]]
            if can:
                i, h = rng.choice(same or can)
                if i < len(funcs[g]["params"]) or funcs[h]["ret"] == pts[i]: out[i] = ["C", h, rng.choice(["d", "x", "ptr"]), args(j, h, 0.3)]
        return out
    for j in range(n):
        later = list(range(j + 1, n))
        k = rng.randrange(1, 4) if j == 0 else rng.choice([0, 0, 1, 2])
        for _ in range(k):
            if not later: break
            g = rng.choice(later)
            funcs[j]["ops"].append(["call", g, rng.choice(["d", "d", "x", "ptr"]), args(j, g, 0.35), rng.choice(["init", "assign", "arr", "drop", "init"])])
    # every function is called from somewhere
    called = {op[1] for f in funcs for op in f["ops"]}
    for g in range(1, n):
        if g not in called:
            cal = funcs[g]
            funcs[rng.randrange(g)]["ops"].append(["call", g, "d", [arg(t) for t in cal["params"] + (cal.get("vseq") or [])], "init"])
    return dict(types=table, funcs=funcs, ms=ms)
