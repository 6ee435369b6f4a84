"""Programs whose objects lie next to unmapped pages."""
import random
from abi import Types, Program, INT, FLT, is_struct, promote, bitfield, tidy

SCAL = [t for t in INT] + list(FLT)


class Bounds:
    """src: the compiled unit, the foreign unit; objs: [name, type, length (0: no array)];
    use: bits 1 read, 2 written by the program."""

    def __init__(self, rng, ms):
        self.rng, self.ms = rng, ms
        self.ints = [t for t in INT if not (ms and t in ("long", "unsigned long"))]
        self.table = self.types()
        self.T = Types(self.table, ms)
        self.P = Program(dict(types=self.table, ms=ms, funcs=[]))
        vis = self.full = self.T.visible
        self.P.T = self.few = Types(self.table, ms)       # long arrays: only some of their elements
        self.few.visible = lambda t: vis(t) if len(vis(t)) < 30 else vis(t)[:6] + vis(t)[14::37] + vis(t)[-6:]
        tags = list(self.table)
        self.objs = []
        for i in range(rng.randrange(3, 9)):
            t = rng.choice(tags) if tags and rng.random() < 0.65 else rng.choice(self.ints + ["float", "double", "char", "short"])
            self.objs.append(["o%d" % i, t, rng.choice([0, 0, 0, 1, 2, 3, 5, rng.randrange(1, 40)])])
        for t in tags:                   # something to copy from and to
            if sum(o[1] == t for o in self.objs) == 1 or rng.random() < 0.3: self.objs.append(["o%d" % len(self.objs), t, rng.choice([0, 0, 2])])
        self.use = {o[0]: 0 for o in self.objs}
        self.side = {0: [], 1: []}
        self.made = {}
        self.protos = []
        self.nv = 0
        self.writable = set(rng.sample([o[0] for o in self.objs], rng.randrange(1, len(self.objs) + 1)))
        self.body = []
        self.nops = rng.randrange(4, 14)
        fs = []
        for k in range(self.nops):
            b = self.op()
            if b is None: continue
            fs.append((k, b))
        o = []
        for k, b in fs: o += ["void op%d(int z)" % k, "{"] + ["\t" + x for x in b] + ["}"]
        o += ["void start(void)", "{"] + ["\top%d(0);" % k for k, b in fs] + ["}"]
        head = ["typedef unsigned long long W;", "typedef unsigned long long usz;", "extern void sim_log(W), sim_bytes(void *, W);"] + self.T.define()
        ext = ["extern %s %s%s;" % (self.T.c(t), n, "[%d]" % l if l and rng.random() < .8 else "[]" if l else "") for n, t, l in self.objs]
        ext1 = ["extern %s %s%s;" % (self.T.c(t), n, "[%d]" % l if l else "") for n, t, l in self.objs]
        fin = ["void final(void)", "{"]
        for n, t, l in self.objs:
            if not self.use[n]: continue
            for k in range(l or 1): fin += self.P.logv(n + ("[%d]" % k if l else ""), t)
        fin.append("}")
        self.src = ["\n".join(head + ext + self.protos + self.side[0] + o) + "\n", "\n".join(head + ext1 + self.protos + self.side[1] + fin) + "\n"]

    def types(self):
        r = self.rng
        table = {}
        for i in range(r.randrange(1, 5)):
            tag = ("U" if r.random() < 0.15 else "S") + str(i)
            only = r.choice(["any", "any", "small", "chars", "chars", "flt", "short", "bits", "bits", "big"])
            m = []
            for k in range(r.choice([1, 1, 2, 2, 3, 4, 6])):
                ln = bits = 0
                t = r.choice(self.ints + ["float", "double"])
                if only == "small": t = r.choice(["char", "unsigned char", "short", "unsigned short", "float", "int", "_Bool"])
                if only == "chars": t = r.choice(["char", "unsigned char", "signed char"]); ln = r.choice([0, r.randrange(1, 24)])
                if only == "short": t = "short"; ln = r.choice([0, r.randrange(1, 12)])
                if only == "flt": t = r.choice(["float", "float", "double"])
                if only == "bits":
                    t, bits = bitfield(r, self.ints, k)
                    if bits < 0 or bits > 99: m.append(["", t, 0, bits % 100 if bits > 0 else -1]); continue
                if only == "any" and r.random() < .2: ln = r.randrange(1, 5)
                if only == "big" and k == 0: ln = r.randrange(20, 700)
                if r.random() < .15 and table and only not in ("bits", "big"):
                    t = r.choice(list(table)); ln = r.choice([0, 0, 2])
                m.append(["m%d" % k, t, ln, bits])
            table[tag] = tidy(table, tag, m)
        T = Types(table, self.ms)
        for t in list(table):
            if T.size(t) > 3000: del table[t]
        while True:
            bad = [t for t in table if any(is_struct(m[1]) and m[1] not in table for m in table[t])]
            if not bad: return table
            for t in bad: del table[t]

    # -------------------------------------------------------- lvalues
    def paths(self, t, top=True):
        """[(path, type, bits)] of the sub-objects that can be named."""
        out = [("", t, 0)]
        if is_struct(t):
            for name, mt, ln, bits in (self.table[t][:1] if t[0] == "U" else self.table[t]):
                if not name: continue
                for k in ([0, ln // 2, ln - 1] if ln else [None]):
                    for p, lt, b in self.paths(mt, False): out.append(("." + name + ("" if k is None else "[%d]" % k) + p, lt, bits or b))
        return out

    def lv(self, pre, t=None, want=None, mode=1, notbits=False):
        """An lvalue (expression, type, bits); pre collects declarations.  mode: 1 read, 2 written, 0 only named."""
        r = self.rng
        cand = []
        for n, ot, l in self.objs:
            if mode & 2 and n not in self.writable: continue
            for p, lt, b in self.paths(ot):
                if t is not None and lt != t: continue
                if want == "scalar" and is_struct(lt): continue
                if want == "struct" and not is_struct(lt): continue
                if want == "int" and (is_struct(lt) or lt in FLT or lt == "void *"): continue
                if notbits and b: continue
                cand.append((n, ot, l, p, lt, b))
        if not cand: return None
        # every object alike, then every part
        n = r.choice(sorted({c[0] for c in cand}))
        n, ot, l, p, lt, b = r.choice([c for c in cand if c[0] == n])
        self.use[n] |= mode
        c = self.T.c(ot)
        self.nv += 1
        v = "v%d" % self.nv
        k = r.choice([0, l - 1, l - 1, r.randrange(l)]) if l else 0
        form = r.randrange(7)
        if not l:
            if form < 2: e = n
            elif form < 4: pre.append("%s *%s = &%s;" % (c, v, n)); e = "(*%s)" % v
            elif form == 4: pre.append("%s *%s = &%s + 1;" % (c, v, n)); e = "%s[-1]" % v
            elif form == 5: pre.append("char *%s = (char *)&%s + z;" % (v, n)); e = "(*(%s *)%s)" % (c, v)
            else: pre.append("%s *%s = &%s;" % (c, v, n)); e = "%s[z]" % v
        else:
            if form < 1: e = "%s[%d]" % (n, k)
            elif form == 1: e = "%s[z + %d]" % (n, k)
            elif form == 2: pre.append("%s *%s = %s + %d;" % (c, v, n, k)); e = "(*%s)" % v
            elif form == 3: pre.append("%s *%s = &%s[%d];" % (c, v, n, l)); e = "%s[%d]" % (v, k - l)
            elif form == 4: pre.append("%s *%s = %s;" % (c, v, n)); e = "(*(%s + z + %d))" % (v, k)
            elif form == 5: pre.append("%s (*%s)[%d] = &%s;" % (c, v, l, n) if False else "%s *%s = %s;" % (c, v, n)); e = "%s[%d]" % (v, k)
            else: pre.append("long long i%s = %d; %s *%s = %s;" % (v, k, c, v, n)); e = "%s[i%s]" % (v, v)
        if p and e.startswith("(*v") and e.endswith(")") and r.random() < .7 and p[0] == "." and e[2:-1].isalnum(): return e[2:-1] + "->" + p[1:], lt, b
        if p and not b and r.random() < .25:
            pre.append("%s *m%s = &%s%s;" % (self.T.c(lt), v, e, p)); return "(*m%s)" % v, lt, b
        return e + p, lt, b

    # -------------------------------------------------------- helpers in either unit
    def helper(self, kind, t, *x):
        key = (kind, t) + x
        if key in self.made: return self.made[key]
        r, T = self.rng, self.T
        name = "%s%d" % (kind, len(self.made))
        self.made[key] = name
        s = r.randrange(2)
        o = []
        c = T.c(t)
        if kind == "take":
            pos, after = x
            ps = ["%s a%d" % (("int", "double")[i % 2 if pos > 6 else 0], i) for i in range(pos)] + ["%s s" % c] + ["%s b%d" % (("int", "double", "char")[i % 3], i) for i in range(after)]
            pr = "void %s(%s)" % (name, ", ".join(ps))
            o = [pr, "{"] + self.P.logv("s", t) + ["\tsim_log(a%d);" % i for i in range(pos) if not (pos > 6 and i % 2)] + ["\tsim_log((W)(long long)b%d);" % i for i in range(after)]
            if r.random() < .5: o += self.P.setv("s", t, 5) + self.P.logv("s", t)
            o.append("}")
        elif kind == "vtake":
            pt = promote(t)
            pr = "void %s(int n, ...)" % name
            o = [pr, "{", "\t__builtin_va_list ap;", "\t__builtin_va_start(ap, n);", "\twhile (n--) (void)__builtin_va_arg(ap, int);", "\t%s s = __builtin_va_arg(ap, %s);" % (T.c(pt), T.c(pt))] + self.P.logv("s", pt) + ["\t__builtin_va_end(ap);", "}"]
        elif kind == "vget":       # stores an argument into an object
            pr = "void %s(%s *d, ...)" % (name, c)
            pt = promote(t)
            o = [pr, "{", "\t__builtin_va_list ap;", "\t__builtin_va_start(ap, d);", "\t*d = __builtin_va_arg(ap, %s);" % T.c(pt), "\t__builtin_va_end(ap);", "}"]
            s = 0
        elif kind == "give":
            pr = "%s %s(%s *p)" % (c, name, c)
            o = [pr, "{", "\treturn *p;", "}"]
        elif kind == "store":
            pos, = x
            pr = "void %s(%s%s v, %s *p)" % (name, "".join("int a%d, " % i for i in range(pos)), c, c)
            o = [pr, "{", "\t*p = v;", "}"]
            s = 0
        elif kind == "make":
            pr = "%s %s(int k)" % (c, name)
            o = [pr, "{", "\t%s s = {0};" % c] + self.P.setv("s", t, 77) + ["\tsim_log(k);", "\treturn s;", "}"]
        self.protos.append(pr + ";")
        self.side[s] += o
        return name

    def value(self, t, bits=0): return self.P.value(t, self.rng.getrandbits(62), bits)

    def ints_(self, n): return ["%d" % self.rng.randrange(100) for _ in range(n)]

    # -------------------------------------------------------- operations
    def op(self):
        r, T, P = self.rng, self.T, self.P
        for _ in range(8):
            k = r.choice(["read", "read", "write", "write", "rmw", "copy", "copy", "copyin", "copyout", "take", "take", "take", "vtake", "vtake", "vget", "give", "give", "givem", "store", "make", "cond", "comma", "walk", "lit", "init", "addr", "conv", "cmp", "chain", "uneval", "sret", "byref", "shadow", "fnptr", "local", "local", "local"])
            pre = []
            b = getattr(self, "o_" + k)(pre)
            if b is not None: return pre + b
        return None

    def log(self, e, t, bits=0):
        self.nv += 1
        return ["%s r%d = %s;" % (self.T.c(t), self.nv, e)] + [x.strip() for x in self.P.logv("r%d" % self.nv, t)]

    def o_read(self, pre):
        x = self.lv(pre, want="scalar")
        return x and (self.log(x[0], x[1]) if self.rng.random() < .6 or x[1] in FLT else ["sim_log((W)%s);" % x[0]])

    def o_write(self, pre):
        x = self.lv(pre, want="scalar", mode=3)
        return x and ["%s = %s;" % (x[0], self.value(x[1], x[2]))]

    def o_rmw(self, pre):
        x = self.lv(pre, want="scalar", mode=3)
        if not x or x[1] == "void *": return None
        e, t, b = x
        r = self.rng
        if t == "_Bool": return ["%s %s 1;" % (e, r.choice(["|=", "&=", "^="]))]
        if t in FLT: return ["%s %s %d.5;" % (e, r.choice(["+=", "-="]), r.randrange(9))] if r.random() < .7 else ["%s++;" % e]
        if INT[t][1]: return ["%s %s %d;" % (e, r.choice(["&=", "|=", "^="]), r.randrange(60))]
        return [r.choice(["%s %s %d;" % (e, r.choice(["+=", "-=", "*=", "&=", "|=", "^=", "/=", "%=", "<<=", ">>="]), r.randrange(1, 7)), "%s++;" % e, "--%s;" % e, "sim_log(%s++);" % e, "sim_log(--%s);" % e])]

    def o_copy(self, pre):
        x = self.lv(pre, mode=3, want="struct" if self.rng.random() < .8 else None)
        if not x: return None
        y = self.lv(pre, t=x[1])
        if x[0] == y[0]: return None
        # overlapping copies are undefined: both the same element or different ones
        return ["%s = %s;" % (x[0], y[0])]

    def o_copyin(self, pre):
        x = self.lv(pre, notbits=True)
        return x and self.log(x[0], x[1])

    def o_copyout(self, pre):
        x = self.lv(pre, mode=3, notbits=True)
        if not x: return None
        return ["%s t = {0};" % self.T.c(x[1])] + [y.strip() for y in self.P.setv("t", x[1], 3)] + ["%s = t;" % x[0]]

    def args(self, pos, e, after): return ", ".join([("%d" if not (pos > 6 and i % 2) else "%d.5") % self.rng.randrange(50) for i in range(pos)] + [e] + ["%d" % self.rng.randrange(100) for i in range(after)])

    def o_take(self, pre):
        x = self.lv(pre, want="struct" if self.rng.random() < .85 else "scalar")
        if not x: return None
        pos, after = self.rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 9, 14]), self.rng.choice([0, 0, 1, 3])
        return ["%s(%s);" % (self.helper("take", x[1], pos, after), self.args(pos, x[0], after))]

    def o_vtake(self, pre):
        x = self.lv(pre, want="struct" if self.rng.random() < .85 else "scalar")
        if not x: return None
        n = self.rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 7])
        return ["%s(%s);" % (self.helper("vtake", x[1]), ", ".join(["%d" % n] + self.ints_(n) + [("(%s)" % self.T.c(x[1]) if x[2] else "") + x[0]]))]

    def o_vget(self, pre):
        x = self.lv(pre, want="struct", mode=3)
        if not x: return None
        y = self.lv(pre, t=x[1])
        return ["%s(&%s, %s);" % (self.helper("vget", x[1]), x[0], y[0])] if x[0] != y[0] else None

    def o_give(self, pre):
        x = self.lv(pre, notbits=True, want="struct" if self.rng.random() < .8 else None)
        if not x: return None
        g = "%s(&%s)" % (self.helper("give", x[1]), x[0])
        if self.rng.random() < .6:
            y = self.lv(pre, t=x[1], mode=3)
            if y: return ["%s = %s;" % (y[0], g)]
        return self.log(g, x[1])

    def o_givem(self, pre):
        x = self.lv(pre, want="struct")
        if not x: return None
        p, t, b = self.rng.choice(self.few.visible(x[1]))
        return self.log("%s(&%s)%s" % (self.helper("give", x[1]), x[0], p), t)

    def o_store(self, pre):
        x = self.lv(pre, notbits=True, mode=3)
        if not x: return None
        y = self.lv(pre, t=x[1])
        if x[0] == y[0]: return None
        n = self.rng.choice([0, 1, 2, 4, 5, 7])
        return ["%s(%s);" % (self.helper("store", x[1], n), ", ".join(self.ints_(n) + [y[0], "&" + x[0]]))]

    def o_make(self, pre):
        x = self.lv(pre, want="struct", mode=3)
        return x and ["%s = %s(%d);" % (x[0], self.helper("make", x[1]), self.rng.randrange(99))]

    def o_cond(self, pre):
        x = self.lv(pre, notbits=True)
        if not x: return None
        w = self.rng.randrange(2)
        y = self.lv(pre, t=x[1], mode=0, notbits=True)       # not evaluated
        e = "(z ? %s : %s)" % (y[0], x[0]) if w else "(!z ? %s : %s)" % (x[0], y[0])
        return self.log(e, x[1])

    def o_comma(self, pre):
        x = self.lv(pre, notbits=True, want="struct")
        if not x: return None
        return ["%s(%s);" % (self.helper("take", x[1], 0, 0), "(sim_log(4), %s)" % x[0])]

    def o_walk(self, pre):
        r = self.rng
        arr = [o for o in self.objs if o[2]]
        if not arr: return None
        n, t, l = r.choice(arr)
        p, lt, b = r.choice([x for x in self.paths(t) if not is_struct(x[1])])
        wr = n in self.writable and r.random() < .5 and lt not in ("void *",)
        self.use[n] |= 3 if wr else 1
        c = self.T.c(t)
        act = ["q->%s" % p[1:] if p else "*q"][0]
        st = "%s = %s;" % (act, self.value(lt, b)) if wr else "{ %s h = %s; sim_bytes(&h, sizeof(h)); }" % (lt, act)
        return [r.choice(["for (%s *q = %s; q < %s + %d; q++) %s" % (c, n, n, l, st), "for (%s *q = %s + %d; q-- > %s; ) %s" % (c, n, l, n, st), "{ %s *q = %s; int k = %d; do { %s q++; } while (--k); }" % (c, n, l, st),
                          "for (int k = 0; k < %d; k++) { %s *q = &%s[k]; %s }" % (l, c, n, st), "for (int k = %d; k--; ) { %s *q = %s + k; %s }" % (l, c, n, st)])]

    def o_lit(self, pre):
        x = self.lv(pre, want="struct", mode=3)
        if not x: return None
        t = x[1]
        des = ", ".join("%s = %s" % (p, self.value(lt, b)) for p, lt, b in self.few.visible(t)[:40])
        if self.rng.random() < .5 and len(self.few.visible(t)) > 1: des = des[:des.index(", .")] if ", ." in des else des
        return ["%s = (%s){%s};" % (x[0], self.T.c(t), des)]

    def o_init(self, pre):
        x = self.lv(pre, want="struct")
        if not x: return None
        out = [(t, m) for t in self.table for m in self.table[t] if m[1] == x[1] and not m[2] and t[0] == "S"]
        self.nv += 1
        c = self.T.c(x[1])
        if out and self.rng.random() < .6:
            t, m = self.rng.choice(out)
            return ["%s w%d = {.%s = %s};" % (self.T.c(t), self.nv, m[0], x[0])] + [y.strip() for y in self.P.logv("w%d" % self.nv, t)]
        return ["%s w%d[2] = {[1] = %s};" % (c, self.nv, x[0])] + [y.strip() for y in self.P.logv("w%d[1]" % self.nv, x[1])]

    def o_addr(self, pre):
        x = self.lv(pre, mode=0, notbits=True)
        return x and ["sim_log((usz)&%s);" % x[0]]

    def o_uneval(self, pre):
        x = self.lv(pre, mode=0, notbits=True)
        if not x: return None
        e = x[0]
        return [self.rng.choice(["sim_log(sizeof(%s));" % e, "if (z) { %s u; u = %s; sim_bytes(&u, 1); }" % (self.T.c(x[1]), e), "while (z) { %s = %s; z--; }" % (e, e), "%s *u = 0; if (z) u = &%s; sim_log(u ? ((unsigned char *)u)[0] : 3);" % (self.T.c(x[1]), e)])]

    def o_conv(self, pre):
        x = self.lv(pre, want="scalar")
        if not x or x[1] == "void *": return None
        to = self.rng.choice([t for t in self.ints + ["float", "double"] if t not in ("void *",) and not (x[1] in FLT and t in INT and INT[t][0] < 4 and t != "_Bool") and not (x[1] in FLT and t in INT and not INT[t][1] and t != "_Bool")])
        return self.log("(%s)%s" % (to, x[0]), to)

    def o_cmp(self, pre):
        x = self.lv(pre, want="scalar")
        if not x: return None
        e = x[0]
        return [self.rng.choice(["sim_log(!%s);" % e, "if (%s) sim_log(8);" % e, "sim_log(%s && z);" % e, "sim_log(z || %s);" % e, "sim_log(%s ? 5 : 6);" % e, "sim_log(%s == %s);" % (e, self.value(x[1], x[2]))])]

    def o_chain(self, pre):
        x = self.lv(pre, mode=3)
        if not x: return None
        y = self.lv(pre, t=x[1], mode=3)
        z = self.lv(pre, t=x[1])
        if not y or not z or len({x[0], y[0], z[0]}) < 3 or x[2] or y[2] or z[2]: return None
        return ["%s = %s = %s;" % (x[0], y[0], z[0])]

    def inmem(self, t):
        n = self.T.size(t)
        return n not in (1, 2, 4, 8) if self.ms else n > 16

    def o_sret(self, pre):
        """The foreign side calls a compiled function whose result goes straight into an object."""
        tags = [t for t in self.table if self.inmem(t)]
        if not tags: return None
        x = self.lv(pre, t=self.rng.choice(tags), mode=3)
        if not x: return None
        t = x[1]
        if ("sret", t) not in self.made:
            n = len(self.made)
            self.made["sret", t] = "sret%d" % n
            c = self.T.c(t)
            how = self.rng.randrange(3)
            body = {0: ["\t%s s = {0};" % c] + self.P.setv("s", t, 31) + ["\treturn s;"], 1: ["\treturn *p;"], 2: ["\treturn z ? *p : *p;"]}[how]
            self.side[0] += ["%s sretf%d(%s *p, int z)" % (c, n, c), "{"] + body + ["}"]
            self.side[1] += ["void *sretf%d(%s *d, %s *p, int z);" % (n, c, c), "void sret%d(%s *d, %s *p) { sim_log(sretf%d(d, p, 0) == d); }" % (n, c, c, n)]
            self.protos.append("void sret%d(%s *d, %s *p);" % (n, c, c))
        y = self.lv(pre, t=t)
        if x[0] == y[0]: return None
        return ["%s(&%s, &%s);" % (self.made["sret", t], x[0], y[0])]

    def o_byref(self, pre):
        """Microsoft ABI: the foreign side passes an object that the callee owns."""
        if not self.ms: return None
        tags = [t for t in self.table if self.inmem(t)]
        if not tags: return None
        x = self.lv(pre, t=self.rng.choice(tags), mode=3)
        if not x: return None
        t, c = x[1], self.T.c(x[1])
        if ("byref", t) not in self.made:
            n = len(self.made)
            pos = self.rng.choice([0, 1, 3, 4, 5])
            self.made["byref", t] = "byref%d" % n
            ints = "".join("int a%d, " % i for i in range(pos))
            # whether the callee changes its copy in place shows: the object is set again afterwards
            self.side[0] += ["void byreff%d(%s%s s)" % (n, ints, c), "{"] + self.P.logv("s", t) + ["}"]
            self.side[1] += ["void byreff%d(%s%s *s);" % (n, ints, c), "void byref%d(%s *d) { byreff%d(%sd); }" % (n, c, n, "".join("%d, " % i for i in range(pos)))]
            self.protos.append("void byref%d(%s *d);" % (n, c))
        return ["%s(&%s);" % (self.made["byref", t], x[0])]

    def o_shadow(self, pre):
        """Byte-wise reads of a whole object."""
        n, t, l = self.rng.choice(self.objs)
        if not is_struct(t) and t in FLT: pass
        self.use[n] |= 1
        sz = self.T.size(t) * (l or 1)
        return ["{ unsigned char *q = (unsigned char *)&%s; W h = 0; for (usz k = 0; k < %d; k++) h = h * 31 + (q[k] & 0); sim_log(h); }" % (n, sz)]

    def o_fnptr(self, pre):
        x = self.lv(pre, want="struct")
        if not x: return None
        f = self.helper("take", x[1], 0, 0)
        return ["void (*fq)(%s) = %s; fq(%s);" % (self.T.c(x[1]), f, x[0])]

    def o_local(self, pre):
        """Local objects between others that must keep their bytes."""
        r, P, T = self.rng, self.P, self.T
        o, logs = [], []

        def near():
            self.nv += 1
            n, l = "n%d" % self.nv, r.choice([1, 2, 3, 4, 5, 7, 8, 9, 13, 16, 19])
            c = r.choice(["unsigned char", "unsigned char", "char", "short"])
            o.append("%s %s[%d]; { int k; for (k = 0; k < %d; k++) %s[k] = k + %d; }" % (c, n, l, l, n, r.randrange(1, 90)))
            logs.append("sim_bytes(%s, sizeof %s);" % (n, n))
        near()
        for _ in range(r.randrange(1, 4)):
            self.nv += 1
            x = "x%d" % self.nv
            k = r.randrange(9)
            n = r.randrange(1, 20)
            ch = lambda m: "".join(r.choice("abcxyz019 ") for _ in range(m))
            tag = r.choice(list(self.table)) if self.table else None
            if tag and T.size(tag) > 64: tag = None
            if k < 2 or not tag:
                c, pf = r.choice([("char", ""), ("unsigned char", ""), ("signed char", ""), ("unsigned short", "u"), ("unsigned", "U")])
                o.append("%s %s[%d] = %s\"%s\";" % (c, x, n, pf, ch(r.choice([n, n, n - 1, r.randrange(n + 1)]))))
                logs.append("sim_bytes(%s, sizeof %s);" % (x, x))
            elif k == 2:
                m = r.randrange(1, 9)
                o.append("struct { char a[%d], b[%d]; short s; } %s = { \"%s\", %s, .s = %d };" % (n, m, x, ch(n), r.choice(['"%s"' % ch(m), "{ 1 }"]), r.randrange(99)))
                logs += ["sim_bytes(%s.a, %d);" % (x, n), "sim_bytes(%s.b, %d);" % (x, m), "sim_log(%s.s);" % x]
            elif k == 3:
                t = r.choice(["char", "short", "int", "long long", "float", "double"])
                o.append("%s %s[%d] = { %s%d };" % (t, x, n, r.choice(["", "[%d] = " % (n - 1)]), r.randrange(99)))
                if r.random() < .5: o.append("%s[%d] += %s[%d] + 1;" % (x, n - 1, x, r.randrange(n)))
                logs.append("sim_bytes(%s, sizeof %s);" % (x, x))
            else:
                c = T.c(tag)
                h = r.randrange(5)
                if h == 0: o.append("%s %s = %s(%d);" % (c, x, self.helper("make", tag), r.randrange(99)))
                elif h == 1: o += ["%s %s = {0};" % (c, x)] + [q.strip() for q in P.setv(x, tag, r.randrange(99))]
                elif h == 2: o += ["%s a%s = {0}, %s;" % (c, x, x)] + [q.strip() for q in P.setv("a" + x, tag, r.randrange(99))] + ["%s = a%s;" % (x, x)]
                elif h == 3: o += ["%s a%s = {0}, %s = {0};" % (c, x, x)] + [q.strip() for q in P.setv("a" + x, tag, r.randrange(99))] + ["%s(&%s, a%s);" % (self.helper("vget", tag), x, x)]
                else: o += ["%s a%s = {0};" % (c, x)] + [q.strip() for q in P.setv("a" + x, tag, r.randrange(99))] + ["%s %s[2] = { [1] = %s(&a%s) };" % (c, x, self.helper("give", tag), x)]
                logs += [q.strip() for q in P.logv(x + ("[1]" if h == 4 else ""), tag)]
            if r.random() < .5: near()
        return ["{"] + o + r.sample(logs, len(logs)) + ["}"]

    # -------------------------------------------------------- contents
    def contents(self, t, l, seed):
        """Initial bytes of an object."""
        import struct
        r = random.Random(seed)
        n = self.T.size(t)
        out = bytearray()
        for _ in range(l or 1):
            b = bytearray(r.getrandbits(8) for _ in range(n))
            self.fill(b, 0, t, r)
            out += b
        return bytes(out)

    def fill(self, b, at, t, r):
        import struct
        off = {path: (lo, bits) for lo, sz, fl, path, bits in reversed(self.T.layout(t)[2])}
        for path, lt, bits in self.full(t):
            lo = at + off[path][0]
            if bits: continue
            if lt in FLT: struct.pack_into("<f" if lt == "float" else "<d", b, lo, (r.randrange(4096) - 2048) * 0.125)
            elif lt == "_Bool": b[lo] = r.randrange(2)
