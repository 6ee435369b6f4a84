"""Generator of C programs in the subset of the language the compiler accepts.

Programs avoid undefined behaviour: unsigned arithmetic or bounded signed
values, masked shifts and indices, non-zero divisors, initialised objects and
bounded loops.  Everything is a function of the random.Random passed in.
"""

INTS = ["char", "signed char", "unsigned char", "short", "unsigned short", "int",
        "unsigned", "long", "unsigned long", "long long", "unsigned long long"]
U = ["unsigned char", "unsigned short", "unsigned", "unsigned long"]
BITS = {"char": 8, "signed char": 8, "unsigned char": 8, "short": 16, "unsigned short": 16,
        "int": 32, "unsigned": 32, "long": 64, "unsigned long": 64, "long long": 64, "unsigned long long": 64}

FEATURES = ["floats", "structs", "unions", "bitfields", "strings", "switch", "goto", "fnptr", "vla",
            "compound", "desig", "macros", "static", "variadic", "recursion", "ternary", "comma", "enum", "multiarr"]


class Gen:
    def __init__(self, rng, size=1.0, features=None, prefix="", volatile_p=0.0):
        self.r = rng
        self.size = size
        self.prefix = prefix
        self.vol = volatile_p
        if features is None:
            features = {f for f in FEATURES if rng.random() < 0.6}
        self.f = set(features)
        self.n = 0
        self.structs = []      # (name, [(member, type, len, bits)])
        self.globals = []      # (name, type, len)
        self.funcs = []        # (name, [types])
        self.macros = []       # (name, nargs)
        self.enums = []
        self.out = []

    def name(self, p):
        self.n += 1
        return "%s%s%d" % (self.prefix, p, self.n)

    def const(self, t="unsigned long"):
        r = self.r
        k = r.random()
        if k < 0.3: v = r.randrange(0, 10)
        elif k < 0.6: v = r.randrange(0, 256)
        elif k < 0.8: v = r.randrange(0, 1 << 31)
        else: v = r.getrandbits(64)
        v &= (1 << BITS.get(t, 32)) - 1
        if r.random() < 0.1 and self.enums: return r.choice(self.enums)
        if v >> 31: return "0x%xul" % v
        if v > 15: return r.choice(["%du", "%dul", "0x%xu", "0x%xUL", "%dU"]) % v   # no signed overflow
        s = r.random()
        if s < 0.6: return "%d" % v
        if s < 0.8: return "0x%x" % v
        if s < 0.9: return "%du" % v
        return "'%c'" % r.choice("abcxyzABC019+-*/")

    # ---- expressions: all integer expressions are of an unsigned type
    def leaf(self, env):
        r = self.r
        c = r.random()
        if c < 0.5 and env["vars"]:
            n, t = r.choice(env["vars"])
            return n if t in U else "(unsigned)%s" % n
        if c < 0.62 and env["arrs"]:
            n, t, l = r.choice(env["arrs"])
            return "%s[(%s) %% %du]" % (n, self.idx(env), l)
        if c < 0.72 and env["fields"]:
            return "(unsigned)%s" % r.choice(env["fields"])
        if c < 0.78 and env["dbls"]:
            return "(unsigned)(%s > %s)" % (r.choice(env["dbls"]), self.fconst())
        return self.const()

    def idx(self, env):
        r = self.r
        if env["vars"] and r.random() < 0.6:
            n, t = r.choice(env["vars"])
            return n if t in U else "(unsigned)%s" % n
        return "%du" % r.randrange(0, 32)

    def fconst(self):
        return self.r.choice(["0.5", "1.0", "2.25", "3.", "1e3", ".125", "7.75", "100.0"])

    def fexpr(self, env, d):
        r = self.r
        if d <= 0 or r.random() < 0.3:
            if env["dbls"] and r.random() < 0.6: return r.choice(env["dbls"])
            if r.random() < 0.4: return "(double)((%s) & 0xffffu)" % self.expr(env, 1)
            return self.fconst()
        op = r.choice(["+", "-", "*"])
        return "(%s %s %s)" % (self.fexpr(env, d - 1), op, self.fexpr(env, d - 1))

    def expr(self, env, d=3):
        r = self.r
        if d <= 0 or r.random() < 0.2: return self.leaf(env)
        k = r.random()
        a = lambda: self.expr(env, d - 1)
        if k < 0.35: return "(%s %s %s)" % (a(), r.choice(["+", "-", "*", "^", "&", "|"]), "(unsigned long)" + a() if r.random() < .3 else a())
        if k < 0.42: return "((unsigned)%s %s ((%s) | 1u))" % (a(), r.choice(["/", "%"]), a())
        if k < 0.50: return "((unsigned long)%s %s ((%s) & 31))" % (a(), r.choice(["<<", ">>"]), a())
        if k < 0.58: return "(unsigned)(%s %s %s)" % (a(), r.choice(["<", ">", "<=", ">=", "==", "!="]), a())
        if k < 0.64: return "(unsigned)(%s %s %s)" % (a(), r.choice(["&&", "||"]), a())
        if k < 0.70: return "(~(unsigned)%s)" % a()
        if k < 0.74: return "(-(unsigned long)%s)" % a()
        if k < 0.78: return "(unsigned)!%s" % a()
        if k < 0.83: return "(%s)(%s)" % (r.choice(U), a())
        if k < 0.88 and "ternary" in self.f: return "(%s ? (unsigned long)%s : (unsigned long)%s)" % (a(), a(), a())
        if k < 0.91 and "comma" in self.f: return "(%s, %s)" % (a(), a())
        if k < 0.96 and env["calls"] and d >= 2:
            f, ts = r.choice(env["calls"])
            return self.call(f, ts, env, d)
        if self.macros and "macros" in self.f:
            m, n = r.choice(self.macros)
            if n == 0: return m
            return "%s(%s)" % (m, ", ".join(self.expr(env, d - 2) for _ in range(n)))
        return self.leaf(env)

    def call(self, f, ts, env, d):
        args = []
        for t in ts:
            if t == "double": args.append(self.fexpr(env, 1))
            elif t == "float": args.append("(float)" + self.fexpr(env, 1))
            else: args.append(self.expr(env, d - 2))
        return "%s(%s)" % (f, ", ".join(args))

    # ---- statements
    def lv(self, env):
        r = self.r
        c = r.random()
        w = env["wvars"]
        if c < 0.55 and w: return r.choice(w)[0]
        if c < 0.75 and env["warrs"]:
            n, t, l = r.choice(env["warrs"])
            return "%s[(%s) %% %du]" % (n, self.idx(env), l)
        if env["wfields"]: return r.choice(env["wfields"])
        return w[0][0] if w else None

    def stmt(self, env, d, ind):
        r = self.r
        pad = "\t" * ind
        k = r.random()
        o = []
        if k < 0.40 or d <= 0:
            l = self.lv(env)
            if l: o.append("%s%s %s %s;" % (pad, l, r.choice(["=", "=", "+=", "-=", "^=", "|=", "&=", "*="]), self.expr(env, 2)))
        elif k < 0.47:
            l = self.lv(env)
            if l: o.append("%s%s;" % (pad, r.choice(["%s++", "++%s", "%s--", "--%s"]) % l))
        elif k < 0.58:
            o.append("%sif (%s) {" % (pad, self.expr(env, 2)))
            o += self.block(env, d - 1, ind + 1)
            if r.random() < 0.5:
                o.append("%s} else {" % pad)
                o += self.block(env, d - 1, ind + 1)
            o.append("%s}" % pad)
        elif k < 0.70:
            i = self.name("i")
            n = r.randrange(1, 6)
            e2 = dict(env); e2["vars"] = env["vars"] + [(i, "unsigned")]
            form = r.random()
            if form < 0.6:
                o.append("%sfor (unsigned %s = 0; %s < %d; %s++) {" % (pad, i, i, n, i))
                e2["loop"] = True
                o += self.block(e2, d - 1, ind + 1)
                o.append("%s}" % pad)
            elif form < 0.8:
                o.append("%s{ unsigned %s = %d; while (%s--) {" % (pad, i, n, i))
                e2["loop"] = True
                o += self.block(e2, d - 1, ind + 1)
                o.append("%s} }" % pad)
            else:
                o.append("%s{ unsigned %s = 0; do {" % (pad, i))
                e2["loop"] = False
                o += self.block(e2, d - 1, ind + 1)
                o.append("%s} while (++%s < %d); }" % (pad, i, n))
        elif k < 0.77 and "switch" in self.f:
            o.append("%sswitch ((%s) %% 5u) {" % (pad, self.expr(env, 2)))
            e2 = dict(env); e2["loop"] = False
            for c in r.sample(range(5), r.randrange(1, 5)):
                o.append("%scase %d:" % (pad, c))
                o += self.block(e2, d - 1, ind + 1)
                if r.random() < 0.7: o.append("%s\tbreak;" % pad)
            if r.random() < 0.5:
                o.append("%sdefault:" % pad)
                o += self.block(e2, d - 1, ind + 1)
            o.append("%s}" % pad)
        elif k < 0.80 and env.get("loop"):
            o.append("%sif (%s) %s;" % (pad, self.expr(env, 1), r.choice(["break", "continue"])))
        elif k < 0.84 and env["wdbls"]:
            o.append("%s%s = %s;" % (pad, r.choice(env["wdbls"]), self.fexpr(env, 2)))
        elif k < 0.88 and "goto" in self.f and not env.get("nogoto"):
            l = self.name("L")
            e2 = dict(env); e2["nogoto"] = True
            o.append("%sif (%s) goto %s;" % (pad, self.expr(env, 1), l))
            o += self.block(e2, d - 1, ind)
            o.append("%s%s:;" % (pad, l))
        elif k < 0.93 and env["structvars"]:
            n, s = r.choice(env["structvars"])
            others = [x for x, t in env["structvars"] if t == s and x != n]
            if others: o.append("%s%s = %s;" % (pad, n, r.choice(others)))
        elif k < 0.97:
            o.append("%s{" % pad)
            e2 = {kk: (list(v) if isinstance(v, list) else v) for kk, v in env.items()}
            o += self.decls(e2, ind + 1, r.randrange(1, 3))
            o += self.block(e2, d - 1, ind + 1)
            o.append("%s}" % pad)
        else:
            o.append("%s(void)(%s);" % (pad, self.expr(env, 2)))
        return o

    def block(self, env, d, ind):
        o = []
        for _ in range(self.r.randrange(1, 4)): o += self.stmt(env, d, ind)
        return o

    def decls(self, env, ind, n):
        r = self.r
        pad = "\t" * ind
        o = []
        for _ in range(n):
            k = r.random()
            v = self.name("v")
            q = "volatile " if r.random() < self.vol else ""
            if k < 0.5:
                t = r.choice(INTS)
                o.append("%s%s%s %s = %s;" % (pad, q, t, v, self.expr(env, 2)))
                env["vars"].append((v, t)); env["wvars"].append((v, t)) if t in U else None
            elif k < 0.65:
                t = r.choice(U); l = r.randrange(1, 9)
                o.append("%s%s%s %s[%d] = { %s };" % (pad, q, t, v, l, ", ".join(self.const(t) for _ in range(r.randrange(1, l + 1)))))
                env["arrs"].append((v, t, l)); env["warrs"].append((v, t, l))
            elif k < 0.75 and "floats" in self.f:
                o.append("%s%sdouble %s = %s;" % (pad, q, v, self.fexpr(env, 1)))
                env["dbls"].append(v); env["wdbls"].append(v)
            elif k < 0.9 and self.structs:
                s, ms = r.choice(self.structs)
                init = self.struct_init(ms, env)
                o.append("%s%s %s = %s;" % (pad, s, v, init))
                self.add_fields(env, v, ms, True)
                env["structvars"].append((v, s))
            elif "compound" in self.f:
                o.append("%sunsigned *%s = (unsigned[]) { %s };" % (pad, v, ", ".join("(unsigned)" + self.expr(env, 1) for _ in range(4))))
                env["arrs"].append((v, "unsigned", 4)); env["warrs"].append((v, "unsigned", 4))
            else:
                o.append("%sunsigned %s = %s;" % (pad, v, self.const("unsigned")))
                env["vars"].append((v, "unsigned")); env["wvars"].append((v, "unsigned"))
        return o

    def struct_init(self, ms, env):
        r = self.r
        items = []
        for m, t, l, b in ms:
            if t in ("double", "float"): x = self.fconst()
            elif l: x = "{ %s }" % ", ".join(self.const(t) for _ in range(r.randrange(1, l + 1)))
            elif b: x = str(r.randrange(0, 1 << min(b, 12)))
            else: x = self.const(t)
            items.append(".%s = %s" % (m, x) if "desig" in self.f else x)
        if "desig" in self.f: r.shuffle(items)
        return "{ %s }" % ", ".join(items)

    def add_fields(self, env, v, ms, w, arrow=False):
        op = "->" if arrow else "."
        for m, t, l, b in ms:
            if t in ("double", "float"):
                env["dbls"].append("%s%s%s" % (v, op, m))
                if w: env["wdbls"].append("%s%s%s" % (v, op, m))
            elif l:
                env["arrs"].append(("%s%s%s" % (v, op, m), t, l))
                if w: env["warrs"].append(("%s%s%s" % (v, op, m), t, l))
            else:
                env["fields"].append("%s%s%s" % (v, op, m))
                if w: env["wfields"].append("%s%s%s" % (v, op, m))

    def new_env(self):
        e = {k: [] for k in ("vars", "wvars", "arrs", "warrs", "fields", "wfields", "dbls", "wdbls", "calls", "structvars")}
        e["loop"] = False
        return e

    def global_env(self):
        e = self.new_env()
        for n, t, l in self.globals:
            if l: e["arrs"].append((n, t, l)); e["warrs"].append((n, t, l))
            elif t == "double": e["dbls"].append(n); e["wdbls"].append(n)
            else: e["vars"].append((n, t)); e["wvars"].append((n, t)) if t in U else None
        e["calls"] = list(self.funcs)
        return e

    # ---- top level
    def struct(self):
        r = self.r
        s = self.name("S")
        ms = []
        for _ in range(r.randrange(1, 6)):
            m = self.name("m"); k = r.random()
            if k < 0.15 and "floats" in self.f: ms.append((m, "double", 0, 0))
            elif k < 0.3 and "bitfields" in self.f: ms.append((m, "unsigned", 0, r.randrange(1, 32)))
            elif k < 0.45: ms.append((m, r.choice(U), r.randrange(1, 5), 0))
            else: ms.append((m, r.choice(U), 0, 0))
        o = ["typedef struct %s_t {" % s]
        for m, t, l, b in ms:
            o.append("\t%s %s%s;" % (t, m, "[%d]" % l if l else (" : %d" % b if b else "")))
        o.append("} %s;" % s)
        self.structs.append((s, ms))
        return o

    def glob(self, static=False):
        r = self.r
        g = self.name("g"); k = r.random()
        q = "static " if static else ""
        if k < 0.5:
            t = r.choice(U)
            self.globals.append((g, t, 0))
            return ["%s%s %s = %s;" % (q, t, g, self.const(t)) if r.random() < 0.7 else "%s%s %s;" % (q, t, g)]
        if k < 0.8:
            t = r.choice(U); l = r.randrange(1, 17)
            self.globals.append((g, t, l))
            return ["%s%s %s[%d] = { %s };" % (q, t, g, l, ", ".join(self.const(t) for _ in range(r.randrange(1, l + 1))))]
        if "strings" in self.f:
            s = "".join(r.choice("abcdefgh XYZ0123\\n\\t") for _ in range(r.randrange(3, 40))).replace("\\", "")
            self.globals.append((g, "unsigned char", len(s) + 1))
            return ['%sunsigned char %s[%d] = "%s";' % (q, g, len(s) + 1, s)]
        self.globals.append((g, "unsigned", 0))
        return ["%sunsigned %s = %s;" % (q, g, self.const("unsigned"))]

    def macro(self):
        r = self.r
        m = self.name("M"); n = r.randrange(0, 3)
        ps = ["a%d" % i for i in range(n)]
        if n == 0: body = "(%s)" % self.const()
        elif n == 1: body = "((%s) %s %s)" % (ps[0], r.choice("+^&|"), self.const())
        else: body = "((%s) %s (%s))" % (ps[0], r.choice("+^&|*"), ps[1])
        self.macros.append((m, n))
        return ["#define %s%s %s" % (m, "(%s)" % ", ".join(ps) if n else "", body)]

    def function(self, static=False, proto_only=False):
        r = self.r
        f = self.name("f")
        ts = []
        for _ in range(r.randrange(0, 8)):
            ts.append("double" if "floats" in self.f and r.random() < 0.2 else r.choice(U))
        ps = ["p%d" % i for i in range(len(ts))]
        sig = "%sunsigned long %s(%s)" % ("static " if static else "", f, ", ".join("%s %s" % x for x in zip(ts, ps)) or "void")
        env = self.global_env()
        for p, t in zip(ps, ts):
            if t == "double": env["dbls"].append(p); env["wdbls"].append(p)
            else: env["vars"].append((p, t)); env["wvars"].append((p, t))
        o = [sig + " {"]
        o += self.decls(env, 1, r.randrange(1, 5))
        for _ in range(max(1, int(r.randrange(2, 8) * self.size))):
            o += self.stmt(env, 2, 1)
        o.append("\treturn %s;" % self.expr(env, 3))
        o.append("}")
        self.funcs.append((f, ts))
        return o, sig

    def tu(self, nfuncs=None, nglobals=None, nstructs=None):
        """A whole translation unit; returns (text, checksum function or None)."""
        r = self.r
        o = []
        nf = nfuncs if nfuncs is not None else max(1, int(r.randrange(1, 6) * self.size))
        if "enum" in self.f:
            e = [self.name("E") for _ in range(3)]
            o.append("enum { %s, %s = %d, %s };" % (e[0], e[1], r.randrange(1, 100), e[2])); self.enums += e
        if "macros" in self.f:
            for _ in range(r.randrange(1, 5)): o += self.macro()
        if "structs" in self.f:
            for _ in range(nstructs if nstructs is not None else r.randrange(1, 4)): o += self.struct()
        for _ in range(nglobals if nglobals is not None else r.randrange(1, 7)): o += self.glob("static" in self.f and r.random() < .4)
        for _ in range(nf):
            t, _s = self.function("static" in self.f and r.random() < .3)
            o += t
        return "\n".join(o) + "\n"

    def checksum(self, name):
        """A function that calls everything and hashes the globals."""
        o = ["unsigned long %s(void) {" % name, "\tunsigned long h = 0x1234567;"]
        env = self.new_env()
        for f, ts in self.funcs:
            o.append("\th = h * 31 + %s;" % self.call(f, ts, env, 2))
        for n, t, l in self.globals:
            if l: o.append("\tfor (unsigned i = 0; i < %du; i++) h = h * 31 + %s[i];" % (l, n))
            elif t != "double": o.append("\th = h * 31 + %s;" % n)
        o += ["\treturn h;", "}"]
        return "\n".join(o) + "\n"
