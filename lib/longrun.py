"""Programs that run for long: rounds of calls of every shape, variable arrays left in every way, jumps.

What round i does depends on i modulo PERIOD only as far as the stack is concerned, so the rounds after
the first few need no more stack than those.  The program is two halves, compiled by different compilers."""

PERIOD = 4
HEAD = """typedef unsigned long long W;
#define long long long
extern void sim_log(W), sim_bytes(void *, W);
typedef unsigned long JB[8];
extern int setjmp(JB); extern void longjmp(JB, int);
#define U(x) ((unsigned long)(x))
struct A { unsigned char b[%(a)d]; }; struct B { long x; double y; }; struct C { unsigned long v[%(c)d]; }; struct D { float x, y; }; struct E { unsigned short s; unsigned char c; };
"""
ST = ["A", "B", "C", "D", "E"]


class Long:
    def __init__(self, rng, ms):
        self.r, self.ms = rng, ms
        self.na, self.nc = rng.choice([1, 2, 3, 5, 7, 8, 9, 12, 16, 17, 24, 40]), rng.randrange(2, 12)
        self.uid = 0

    def sig(self):
        r = self.r
        n = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 20])
        ts = [r.choice(["int", "unsigned", "long", "unsigned char", "short", "double", "float", "A", "B", "C", "D", "E", "long", "double"]) for _ in range(n)]
        va = []
        if r.random() < .25:
            if not ts: ts = ["int"]
            va = [r.choice(["int", "long", "double", "int"] + (["A", "B", "E"] if not self.ms else [])) for _ in range(r.randrange(0, 12))]
        return dict(ret=r.choice(["void", "long", "int", "double", "float", "unsigned char", "long"] + ST), ts=ts, va=va, isva=bool(va))

    def t(self, x): return "struct " + x if x in ST else x

    def proto(self, n, s):
        return "%s %s(%s%s)" % (self.t(s["ret"]), n, ", ".join("%s p%d" % (self.t(x), i) for i, x in enumerate(s["ts"])) or "void", ", ..." if s["isva"] else "")

    def h(self, t, e):
        """A hash of an object, as unsigned long."""
        if t == "A": return "U(%s.b[0] + %s.b[%d] * 3u)" % (e, e, self.na - 1)
        if t == "B": return "(U(%s.x) + U((long)(%s.y * 4.0)))" % (e, e)
        if t == "C": return "(%s.v[0] + %s.v[%d] * 7u)" % (e, e, self.nc - 1)
        if t == "D": return "U((long)(%s.x * 4.0f) + (long)(%s.y * 8.0f))" % (e, e)
        if t == "E": return "U(%s.s * 5u + %s.c)" % (e, e)
        if t in ("float", "double"): return "U((long)(%s * 4))" % e
        return "U(%s)" % e

    def mk(self, t, e):
        """A value made from an unsigned long expression."""
        if t in ST: return "mk%s(%s)" % (t, e)
        if t in ("float", "double"): return "(%s)((%s) & 255u) * %s" % (t, e, "0.5f" if t == "float" else "0.25")
        return "(%s)(%s)" % (t, e)

    def body(self, n, s, side):
        r = self.r
        o = [self.proto(n, s), "{", "\tunsigned long h = %du;" % r.randrange(1, 99)]
        for i, t in enumerate(s["ts"]): o.append("\th = h * 31u + %s;" % self.h(t, "p%d" % i))
        if s["isva"]:
            o.append("\t__builtin_va_list ap; __builtin_va_start(ap, p%d);" % (len(s["ts"]) - 1))
            for t in s["va"]: o.append("\t{ %s v = __builtin_va_arg(ap, %s); h = h * 31u + %s; }" % (self.t(t), self.t(t), self.h(t, "v")))
            o.append("\t__builtin_va_end(ap);")
        if r.random() < .25: o.append("\tunsigned char z[phase * %du + 1u]; z[phase] = h; h += z[phase];" % r.randrange(1, 60))
        if r.random() < .3 and self.cb: o.append("\th += %s;" % self.call(r.choice(self.cb), "h", "h"))
        if s["ret"] != "void": o.append("\treturn %s;" % self.mk(s["ret"], "h"))
        else: o.append("\tsink += h;")
        return o + ["}"]

    def call(self, f, i, h):
        """An expression of type unsigned long."""
        n, s = f
        a = []
        for k, t in enumerate(s["ts"] + s["va"]):
            e = self.r.choice(["%s + %du" % (i, k), "%s * %du" % (h, k + 1), h, i, "%du" % self.r.randrange(200)])
            a.append(self.mk(t, e))
        c = "%s(%s)" % (n, ", ".join(a))
        if s["ret"] == "void": return "(%s, %s)" % (c, h)
        if s["ret"] in ST:
            m = {"A": "b[0]", "B": "x", "C": "v[1]", "D": "y", "E": "c"}[s["ret"]]
            return "U(%s.%s)" % (c, m) if s["ret"] != "D" else "U((long)%s.%s)" % (c, m)
        return self.h(s["ret"], c)

    def stmt(self, d, ind):
        r = self.r
        p = "\t" * ind
        self.uid += 1
        u = self.uid
        k = r.randrange(18)
        i = "i"
        C = lambda: self.call(r.choice(self.fs), "i", "h")
        if k < 5: return [p + "h = h * 3u + %s;" % C()]
        if k == 5: return [p + "if ((i & %du) == %du) {" % (r.choice([1, 2, 3]), r.randrange(3))] + self.block(d, ind + 1) + [p + "}"]
        if k in (6, 7, 8):
            t = r.choice(["unsigned char", "unsigned", "unsigned long"])
            e = r.choice([m for m in self.exits] + ["", ""])
            o = [p + "{ %s v%d[(i & %du) * %du + %du]; v%d[0] = h; v%d[sizeof v%d / sizeof *v%d - 1] = i;" % (t, u, r.choice([1, 3]), r.randrange(1, 40), r.randrange(1, 5), u, u, u, u)]
            o += self.block(d, ind + 1) if r.random() < .6 else []
            if e: o.append(p + "\tif ((i & 3u) == %du) %s;" % (r.randrange(4), e))
            return o + [p + "\th = h * 5u + v%d[0] + v%d[sizeof v%d / sizeof *v%d - 1]; }" % (u, u, u, u)]
        if k == 9: return [p + "{ struct C *q = &(struct C) { { h, i } }; h ^= q->v[0] * 3u + q->v[1] + q->v[%d]; }" % (self.nc - 1)]
        if k == 10: return [p + "{ _Alignas(%d) unsigned char w[%d]; w[%d] = i; h += w[%d] + (U(w) & %du); }" % ((a := r.choice([16, 32, 64])), (n := r.randrange(1, 70)), n - 1, n - 1, a - 1)]
        if k == 11 and d > 0:
            ex = self.exits
            self.exits = ex[:0] + ["break", "continue"]
            o = [p + "for (unsigned j%d = 0; j%d < (i & 3u); j%d++) {" % (u, u, u)] + self.block(d - 1, ind + 1) + [p + "}"]
            self.exits = ex
            return o
        if k == 12 and d > 0:
            ex = self.exits
            self.exits = [x for x in ex if x.startswith("goto") or x == "continue"]
            o = [p + "switch ((i + %du) & 3u) {" % r.randrange(4)]
            for c in r.sample(range(4), r.randrange(1, 4)): o += [p + "case %d: {" % c] + self.block(d - 1, ind + 1) + [p + "}"] + ([p + "\tbreak;"] if r.random() < .6 else [])
            self.exits = ex
            return o + [p + "}"]
        if k == 13:
            ex = self.exits
            self.exits = ex + ["goto again%d" % u] if False else ex
            o = [p + "{ unsigned k%d = 0; again%d: k%d++; {" % (u, u, u), p + "\tunsigned char g%d[(i & 3u) * %du + k%d]; g%d[k%d - 1] = h;" % (u, r.randrange(0, 30), u, u, u)]
            if r.random() < .6: o += self.block(d - 1, ind + 1)
            o += [p + "\th += g%d[k%d - 1]; if (k%d < (i & 3u)) goto again%d; } }" % (u, u, u, u)]
            self.exits = ex
            return o
        if k == 14 and self.jumps: return [p + "{ volatile unsigned long k%d = h; if (setjmp(env) == 0) { k%d = h * 3u; thrower(i & 3u, h); k%d = 5; } h = h * 3u + k%d; }" % (u, u, u, u)]
        if k == 15: return [p + "h += deep(i & %du, h);" % r.choice([1, 3])]
        if k == 16: return [p + "h += (i & 1u ? %s : %s);" % (C(), C())]
        if k == 17: return [p + "h ^= %s + %s;" % (C(), C())] if not any(f[1]["ret"] == "void" or f[1]["isva"] for f in self.fs) else [p + "h = h * 3u + %s;" % C()]
        return [p + "h ^= h >> 7; h = h * 3u + i;"]

    def block(self, d, ind):
        if d <= 0: return ["\t" * ind + "h = h * 7u + i;"]
        o = []
        for _ in range(self.r.randrange(1, 4)): o += self.stmt(d - 1, ind)
        return o

    def sources(self):
        r = self.r
        self.jumps = r.random() < .4
        head = HEAD % dict(a=self.na, c=self.nc)
        D, S = [], [[], []]
        self.cb = []
        D.append("extern unsigned long sink; extern unsigned phase; extern JB env;")
        for t in ST: D.append("extern struct %s mk%s(unsigned long);" % (t, t))
        inits = {"A": "struct A x = { { e } }; x.b[%d] = e >> 3; return x;" % (self.na - 1), "B": "struct B x = { e & 0xffff, (double)(e & 63u) }; return x;", "C": "struct C x = { { e, e * 3u } }; x.v[%d] = ~e; return x;" % (self.nc - 1),
                 "D": "struct D x = { (float)(e & 15u), (float)(e & 7u) }; return x;", "E": "struct E x = { e, e >> 5 }; return x;"}
        for t in ST: S[r.randrange(2)].append("struct %s mk%s(unsigned long e) { %s }" % (t, t, inits[t]))
        S[0].append("unsigned long sink; unsigned phase; JB env;")
        fs = []
        n = r.randrange(2, 6)
        bod = []
        for k in range(n):
            f = ("f%d" % k, self.sig())
            side = r.randrange(2)
            D.append("extern " + self.proto(*f) + ";")
            bod.append((side, f, list(fs)))
            fs.append(f)
        for side, f, prev in bod:
            self.cb = prev
            S[side].append("\n".join(self.body(f[0], f[1], side)))
        self.fs = fs
        S[r.randrange(2)].append("unsigned long deep(unsigned n, unsigned long h) { unsigned char z[n * %du + 1u]; z[n] = h; if (n) { h += deep(n - 1, h * 3u); h += %s; } return h + z[n]; }" % (r.randrange(1, 50), self.call(r.choice(fs), "n", "h")))
        S[r.randrange(2)].append("void thrower(unsigned n, unsigned long h) { unsigned char z[n * %du + 1u]; z[n] = h; sink += z[n]; if (n) thrower(n - 1, h); if (n == 0) longjmp(env, 1); }" % r.randrange(1, 50))
        D.append("extern unsigned long deep(unsigned, unsigned long); extern void thrower(unsigned, unsigned long);")
        lk = r.randrange(4)
        self.exits = ["continue", "break"][:1] if lk < 3 else ["goto next"]
        b = []
        for _ in range(r.randrange(2, 6)): b += self.stmt(2, 2)
        if lk == 0: w = ["\tfor (unsigned i = 0; i < n; i++) {", "\t\tphase = i & 3u;"] + b + ["\t}"]
        elif lk == 1: w = ["\tunsigned i = 0; while (i++ < n) {", "\t\tphase = i & 3u;"] + b + ["\t}"]
        elif lk == 2: w = ["\tunsigned i = 0; if (n) do {", "\t\tphase = i & 3u;"] + b + ["\t} while (++i < n);"]
        else: w = ["\tunsigned i = 0; top: {", "\t\tphase = i & 3u;"] + b + ["\t} next: i++; if (i < n) goto top;"]
        S[0].append("unsigned long work(unsigned n)\n{\n\tunsigned long h = 1;\n" + "\n".join(w) + "\n\treturn h;\n}")
        S[0].append("void start(unsigned long n)\n{\n\tunsigned long h = work((unsigned)n); sim_log(h); sim_log(sink);\n\th = work(3); sim_log(h);\n}")
        out = []
        for k in (0, 1): out.append(head + "\n".join(D) + "\n" + "\n".join(S[k]) + "\n")
        return out
