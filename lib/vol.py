"""Programs that drive a device through volatile lvalues.

Between two sequence points there is at most one volatile access, or several whose order follows from
the data, or several reads of one object combined symmetrically: so the access sequence is determined."""

T = {"char": 1, "signed char": 1, "unsigned char": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned": 4, "long": 8, "unsigned long": 8, "unsigned long long": 8, "float": 4, "double": 8, "_Bool": 1}
PT = ["char", "short", "int", "unsigned long", "double", "struct T12", "void *"]
UN = [t for t in T if t.startswith("unsigned")]


class Vol:
    def __init__(self, rng, base):
        self.r = rng
        self.base = base
        self.at = self.lab = 0
        self.syms = {}
        self.decl = ["typedef unsigned long long W; extern void sim_log(W), sim_bytes(void *, W);", "struct T12 { char c[12]; }; typedef volatile unsigned vu32; typedef volatile unsigned short vu16;"]
        self.arrs = []      # (name, type, length)
        self.objs = []      # (expression, type, readable, writable)
        self.ptrs = []      # (pointer expression, type) for helpers
        self.loc = []       # local declarations of pointers, the same in every function
        r = rng
        for k in range(r.randrange(3, 9)):
            t = r.choice(list(T))
            c = r.random()
            if c < 0.25:
                a = self.place(T[t]); n = "d%d" % k
                q = r.choice(["volatile %s", "%s volatile"])
                if t == "unsigned" and r.random() < .5: q = "vu32"
                if t == "unsigned short" and r.random() < .5: q = "vu16"
                self.decl.append("extern %s %s;" % (q % t if "%" in q else q, n)); self.syms[n] = a
                self.add(n, t)
            elif c < 0.45:
                a = self.place(T[t]); n = "p%d" % k
                c2 = r.randrange(5)
                if c2 == 0: self.add("(*(volatile %s *)0x%xul)" % (t, a), t); self.ptrs.append(("(volatile %s *)0x%xul" % (t, a), t))
                elif c2 == 1: self.decl.append("#define %s (*(%s volatile *)0x%xul)" % (n, t, a)); self.add(n, t)
                elif c2 == 2: self.decl.append("static volatile %s *const %s = (volatile %s *)0x%xul;" % (t, n, t, a)); self.add("*" + n, t); self.ptrs.append((n, t))
                else:
                    self.loc.append("volatile %s *%s = (volatile %s *)0x%xul;" % (t, n, t, a)); self.add("*" + n, t)
                    self.ptrs.append((n, t))
            elif c < 0.65:
                s = "R%d" % k
                ms = []
                self.at = (self.at + 7) & ~7
                off = 0
                body = ""
                inner = r.random() < 0.5
                for i in range(r.randrange(2, 6)):
                    mt = r.choice([x for x in T if x != "_Bool"])
                    off = -(-off // T[mt]) * T[mt] + T[mt]
                    body += " %s%s m%d;" % ("volatile " if inner else "", mt, i)
                    ms.append(("m%d" % i, mt))
                a = self.base + self.at; self.at += (off + 7) & ~7
                self.decl.append("struct %s {%s };" % (s, body))
                if r.random() < .5:
                    n = "q%d" % k
                    self.loc.append("%sstruct %s *%s = (void *)0x%xul;" % ("" if inner else "volatile ", s, n, a))
                    for m, mt in ms: self.add("%s->%s" % (n, m), mt)
                else:
                    n = "e%d" % k
                    self.decl.append("extern %sstruct %s %s;" % ("" if inner else "volatile ", s, n)); self.syms[n] = a
                    for m, mt in ms: self.add("%s.%s" % (n, m), mt)
            elif c < 0.85:
                l = r.randrange(2, 9); n = "v%d" % k
                a = self.place(T[t], l)
                self.decl.append("extern volatile %s %s[%d];" % (t, n, l)); self.syms[n] = a
                self.arrs.append((n, t, l))
                for _ in range(2): self.add("%s[%s]" % (n, r.choice([str(r.randrange(l)), "a %% %du" % l, "b %% %du" % l])), t)
            else:
                a = self.place(T[t]); n = "c%d" % k
                self.decl.append("extern const volatile %s %s;" % (t, n)); self.syms[n] = a
                if t != "_Bool": self.objs.append((n, t, True, False))
        self.pobjs = []     # (expression, pointee): volatile objects that hold a pointer
        for k in range(r.choice([0, 0, 1, 2])):
            t = r.choice(list(PT)); n = "w%d" % k
            a = self.place(8)
            c = r.randrange(3)
            if c == 0: self.decl.append("extern %s *volatile %s;" % (t, n)); self.syms[n] = a
            elif c == 1: self.decl.append("#define %s (*(%s *volatile *)0x%xul)" % (n, t, a))
            else:
                self.decl.append("struct W%d { %s *p; };" % (k, t)); self.loc.append("volatile struct W%d *g%d = (void *)0x%xul;" % (k, k, a)); n = "g%d->p" % k
            self.pobjs.append((n, t))
        if not any(o[2] and o[1] in UN for o in self.objs):
            a = self.place(4); self.decl.append("extern volatile unsigned dz;"); self.syms["dz"] = a; self.add("dz", "unsigned")

    def place(self, n, l=1):
        self.at = -(-self.at // n) * n
        a = self.base + self.at
        self.at += n * l
        return a

    def add(self, e, t):
        self.objs.append((e, t, t != "_Bool", True))      # a _Bool object holds 0 or 1 only, devices don't know

    def rd(self, ints=True):
        c = [o for o in self.objs if o[2] and (not ints or o[1] not in ("float", "double"))]
        return self.r.choice(c) if c else None

    def V(self):
        """An integer volatile read, converted."""
        e, t, _, _ = self.rd()
        return "%s" % e if t in UN else "(unsigned long)(%s)" % e

    def U(self):
        """A readable object of unsigned type."""
        return self.r.choice([o for o in self.objs if o[2] and o[1] in UN])[0]

    def x(self):
        r = self.r
        return r.choice(["a", "b", "c", "a + b", "b * 3u", "c ^ a", "%du" % r.randrange(0, 100), "0x%xul" % r.getrandbits(40)])

    def stmt(self, d, ind, fs):
        r = self.r
        p = "\t" * ind
        V, x = self.V, self.x
        v = r.choice("abc")
        if self.pobjs and r.random() < 0.12:
            e, t = r.choice(self.pobjs); e2, t2 = r.choice(self.pobjs)
            q = lambda: "(%s *)(0x1000ul + (%s) %% 64u * 8u)" % (t, x())
            n = r.randrange(1, 9)
            l = r.choice([
                "%s;" % e, "(void)%s;" % e, "%s = (unsigned long)%s;" % (v, e), "%s = %s;" % (e, q()), "%s = %s;" % (e, e), "%s = (void *)%s;" % (e, e2),
                "%s += %d;" % (e, n), "%s -= %s & 7u;" % (e, v), "%s++;" % e, "--%s;" % e, "%s = (unsigned long)(%s += %d);" % (v, e, n), "%s = (unsigned long)%s%s;" % (v, e, r.choice(["++", "--"])),
                "%s = (unsigned long)%s%s;" % (v, r.choice(["++", "--"]), e), "%s = (unsigned long)(%s = %s);" % (v, e, q()), "if (%s) %s = %s;" % (e, v, x()), "%s = !%s;" % (v, e),
                "%s = %s && %s;" % (v, e, x()), "%s = %s %s (%s *)0x%xul;" % (v, e, r.choice(["==", "!=", "<", ">="]), t, r.getrandbits(30)), "{ %s *lp; %s = (unsigned long)(lp = %s); %s ^= (unsigned long)lp; }" % (t, v, e, v),
                "{ %s *lp; %s = (void *)(lp = (void *)%s); %s ^= (unsigned long)lp; }" % (t, e, e2, v), "%s = (unsigned long)(%s ? %s : %s);" % (v, v, e, q()), "%s = (unsigned long)&%s[%d];" % (v, e, n), "%s = (unsigned long)(%s + %d);" % (v, e, n),
                "%s = (%s, %s);" % (v, e, x()), "%s = (void *)(%s, %s);" % (e, e, q()), "while (%s) { if (%s++ & 1u) break; }" % (e, v), "for (; %s; ) break;" % e])
            return [p + l]
        k = r.randrange(54)
        if k == 0: return [p + "%s = %s;" % (v, V())]
        if k == 1: return [p + "%s += %s;" % (v, V())]
        if k == 2: return [p + "%s;" % V()] if r.random() < .5 else [p + "%s;" % self.rd(False)[0]]
        if k == 3: return [p + "(void)%s;" % self.rd(False)[0]]
        if k == 4: return [p + "%s = %s ? %s : %s;" % (v, V(), x(), x())]
        if k == 5: return [p + "%s = (%s, %s);" % (v, V(), x())]
        if k == 6: return [p + "%s = %s %s %s;" % (v, x(), r.choice(["&&", "||"]), V())]
        if k == 7: return [p + "%s = (%s & 1u) %s (%s & 2u);" % (v, V(), r.choice(["&&", "||"]), V())]
        if k == 8: return [p + "%s = (%s & 1u) ? %s : %s;" % (v, r.choice("abc"), V(), V())]
        if k == 9: return [p + "%s = (%s & 1u) ? %s : %s;" % (v, V(), V(), V())]
        if k == 10: return [p + "%s = %s %s 0u;" % (v, V(), r.choice(["*", "&"]))]
        if k == 11:
            e = self.U(); o = r.choice(["^", "+", "&", "|", "*"])
            return [p + "%s = %s %s %s;" % (v, e, o, e)]
        if k == 12: return [p + "{ unsigned long t = %s; }" % V()]
        if k == 13: return [p + "if (%s %s %s) {" % (V(), r.choice(["<", ">", "!=", "=="]), x())] + self.block(d, ind + 1, fs) + ([p + "} else {"] + self.block(d, ind + 1, fs) if r.random() < .5 else []) + [p + "}"]
        if k == 14: return [p + "{ unsigned n%d = 0; while (n%d++ < %du && (%s & %du)) {" % (ind, ind, r.randrange(2, 6), V(), r.choice([1, 3, 7, 255]))] + self.block(d, ind + 1, fs) + [p + "} }"]
        if k == 15: return [p + "for (unsigned i%d = 0; i%d < %du && (%s & %du); i%d++) {" % (ind, ind, r.randrange(2, 5), V(), r.choice([3, 7, 255]), ind)] + self.block(d, ind + 1, fs) + [p + "}"]
        if k == 16: return [p + "{ unsigned n%d = 0; do {" % ind] + self.block(d, ind + 1, fs) + [p + "} while (++n%d < %du && (%s & %du)); }" % (ind, r.randrange(2, 5), V(), r.choice([3, 15, 255]))]
        if k == 17: return [p + "switch (%s & 3u) {" % V()] + sum(([p + "case %du:" % i] + self.block(d, ind + 1, fs) + ([p + "\tbreak;"] if r.random() < .7 else []) for i in r.sample(range(4), r.randrange(1, 4))), []) + [p + "}"]
        if k == 18: return [p + "z[%s & 7u] = %s;" % (V(), x())]
        if k == 19: return [p + "%s = z[%s & 7u];" % (v, V())]
        if k == 40: return [p + "%s = %s(%s);" % (v, r.choice("!~-+"), V())]
        if k == 41: return [p + "%s = %s(%s)%s;" % (v, r.choice(["(unsigned char)", "(signed char)", "(short)", "(unsigned)", "(_Bool)", "(unsigned long)(double)(int)"]), self.U(), r.choice(["", " + 1u", " == 0u"]))]
        if k == 42 and self.arrs:
            n, t, l = r.choice(self.arrs)
            m = r.randrange(1, l + 1)
            if t in UN: e = r.choice(["*w++ = %s" % x(), "%s += *w++" % v, "*w++ ^= %s" % x(), "z[*w++ & 7u] += 1u", "(*w++)++"])
            elif t not in ("float", "double", "_Bool"): e = r.choice(["*w++ = %s" % x(), "%s += (unsigned long)*w++" % v])
            elif t != "_Bool": e = r.choice(["*w++ = fd", "fd = *w++"])
            else: e = "*w++ = %s" % x()
            return [p + "{ volatile %s *w = %s; unsigned n%d = 0; for (; n%d < %du; n%d++) %s; }" % (t, n, ind, ind, m, ind, e)]
        if k == 43 and self.arrs:
            n, t, l = r.choice(self.arrs)
            if t not in ("float", "double", "_Bool"):
                i = "n%d" % ind
                e = r.choice(["%s[%s] = %s[%s %% %du]" % (n, i, n, i + " + 1u", l), "%s += (unsigned long)%s[%s]" % (v, n, i), "%s += (unsigned long)*(%s + %s)" % (v, n, i), "(&%s[%d])[-(int)%s] = %s" % (n, l - 1, i, x()), "%s[%s] = %s" % (n, i, i)])
                return [p + "for (unsigned %s = 0; %s < %du; %s++) %s;" % (i, i, r.randrange(1, l + 1), i, e)]
        if k == 44:
            e = self.U()
            return [p + "%s = %s %s %s ? %s : %s;" % (v, e, r.choice("+^&"), e, x(), V())]
        if k == 45: return [p + "%s = z[0] + (%s, %s);" % (v, V(), V())]
        if k == 46: return [p + "{ unsigned long t[2] = { %s, %s }; %s = t[%s & 1u]; }" % (V(), x(), v, v)]
        if k == 47: return [p + "%s = *(z + (%s & 3u)) %s;" % (v, V(), r.choice(["", "+ 1u"]))]
        if k == 48:         # a loop of one basic block
            self.lab += 1; l = "l%d" % self.lab
            e = r.choice(["h = h * 31u + %s" % V(), "h ^= %s, h *= 3u" % V(), "h += n * %s" % V(), "h = %s + z[n & 7u]" % V()])
            m = r.choice(["", "", " && (%s & 3u)", " & %s"]); m = m % V() if m else m
            return [p + "{ unsigned n = 0; unsigned long h = %s, q = 1; %s: q = h; %s; n++; if (n < %du%s) goto %s; %s ^= h + q * 5u; }" % (x(), l, e, r.randrange(2, 6), m, l, v)]
        if k == 49:
            self.lab += 1; l = "l%d" % self.lab
            es = [o for o in self.objs if o[3] and o[1] not in ("float", "double")]
            if not es: return []
            e = r.choice(es)[0]
            return [p + "{ unsigned n = %du; unsigned long s = %s, t = %s; %s: %s = s; { unsigned long u = s; s = t; t = u + n; } if (--n) goto %s; %s = s; }" % (r.randrange(1, 6), x(), x(), l, e, l, v)]
        if k in (50, 51) and self.arrs:         # Duff's device
            n, t, l = r.choice(self.arrs)
            if t not in ("float", "double", "_Bool"):
                e = r.choice(["%s[i] = %s + i" % (n, v), "%s += %s[i] & 255" % (v, n), "z[i & 7u] ^= (unsigned long)%s[i]" % n])
                m = r.randrange(1, l + 1)
                if t != "unsigned" and "&" in e: e = "%s += (unsigned long)%s[i]" % (v, n)
                return [p + "{ unsigned i = 0, k = (%du + 3u) / 4u; switch (%du %% 4u) { case 0: do { %s; i++; case 3: %s; i++; case 2: %s; i++; case 1: %s; i++; } while (--k); } }" % (m, m, e, e, e, e)]
        if k == 52: return [p + "for (unsigned i%d = 0; i%d < %du; i%d++) { switch (%s & 3u) { case 0: continue; case 1: %s += %s; break; case 2: if (%s & 1u) break; default: %s ^= %s; continue; } %s++; }" % (ind, ind, r.randrange(1, 5), ind, V(), v, V(), v, v, V(), v)]
        if k == 53: return [p + "{ unsigned long y[%s + 1u]; y[0] = %s; y[(%s) %% (sizeof y / 8u)] = %s; %s = y[0] + sizeof y; }" % ("(%s & 3u)" % V(), V(), x(), x(), v)]
        if k == 20: return [p + "sim_log(%s);" % V()]
        if k == 21 and fs:
            f = r.choice(fs)
            return [p + "%s = %s(%s, %s);" % (v, f, *( (V(), x()) if r.random() < .5 else (x(), V())))]
        w = [o for o in self.objs if o[3]]
        if not w: return []
        e, t, rdb, _ = r.choice(w)
        fl = t in ("float", "double")
        if k < 25: return [p + "%s = %s;" % (e, x() if not fl else r.choice(["fd", "1.5", "fd + 0.25"]))]
        if k == 25: return [p + "%s = %s;" % (e, 7)] * r.randrange(2, 4)          # stores that look redundant
        if k == 26:
            f, ft, _, _ = self.rd(fl)
            if fl: f, ft = r.choice([(o[0], o[1]) for o in self.objs if o[2] and o[1] in ("float", "double")] or [("fd", "double")])
            elif ft in ("float", "double"): return []
            return [p + "%s = %s;" % (e, f)]
        if k == 27 and rdb: return [p + "%s = %s;" % (e, e)]
        if k in (28, 29, 30, 31, 32, 33) and rdb and fl:
            return [p + r.choice(["%s += 1.5;", "%s -= 0.25;", "%s *= 0.5;", "%s++;", "--%s;", "%s = %s;", "fd = %s++;", "fd = (%s += 2);", "a = (%s -= 1) < 3.0;", "if (%s) b++;", "c = !%s;", "a = %s && b;"]).replace("%s", "(%s)" % e)]
        if k in (28, 29, 30, 31, 32, 33) and rdb and t in ("char", "signed char", "short"):
            return [p + r.choice(["%s += 3;", "%s -= @;", "%s *= 5;", "%s <<= 1;", "%s /= 3;", "%s %%= 7;", "%s >>= 1;", "%s ^= @;", "%s |= 0x41;", "%s++;", "--%s;", "$ = %s++;", "$ = --%s;", "$ = (%s += 2);", "$ = (%s = @);", "$ = (%s &= @);"]).replace("%%", "%").replace("%s", "(%s)" % e).replace("@", x()).replace("$", v)]
        if k in (28, 29) and rdb and not fl and t in UN: return [p + "%s %s %s;" % (e, r.choice(["+=", "-=", "^=", "|=", "&=", "*="]), x())]
        if k == 30 and rdb and not fl and t in UN: return [p + r.choice(["(%s)++;", "(%s)--;", "++(%s);", "--(%s);"]) % e]
        if k == 31 and rdb and not fl and t in UN: return [p + "%s = (%s)%s;" % (v, e, r.choice(["++", "--"]))]
        if k == 32 and rdb and not fl and t in UN: return [p + "%s = %s + 1u;" % (e, e)]
        if k == 33 and rdb and not fl and t in UN: return [p + "%s %s ((%s) & 7u);" % (e, r.choice(["<<=", ">>="]), x())]
        if k == 34:
            es = [o for o in w if o[1] not in ("float", "double")]
            if len(es) >= 2:
                e1, e2 = r.choice(es)[0], r.choice(es)[0]
                return [p + r.choice(["(%s & 1u) ? (void)(%s = %s) : (void)(%s = %s);" % (v, e1, x(), e2, x()), "%s = %s, %s = %s;" % (e1, x(), e2, x()), "%s = %s = %s;" % (r.choice("abc"), v, V()), "(%s & 1u) ? %s : %s;" % (v, V(), V())])]
        if k == 35 and fs and not fl: return [p + "%s = %s(%s, %s);" % (e, r.choice(fs), V(), x())]
        if k == 36 and self.rd(False):
            f = [o for o in self.objs if o[2] and o[1] in ("float", "double")]
            if f: return [p + "fd = %s;" % r.choice(f)[0]]
        if k == 37: return [p + "%s = sizeof(%s);" % (v, e)]
        if k == 38: return [p + "{ volatile unsigned long t = %s; t += %s; %s = t; }" % (V(), x(), v)]
        if k == 39 and not fl and t in UN:
            # a pointer to a volatile object walks
            return [p + "{ volatile %s *w = &%s; *w = %s; %s = *w; }" % (t, e, x(), v)]
        return [p + "%s = %s ^ %s;" % (v, v, x())]

    def block(self, d, ind, fs):
        if d <= 0: return ["\t" * ind + "%s = %s;" % (self.r.choice("abc"), self.V())]
        o = []
        for _ in range(self.r.randrange(1, 4)): o += self.stmt(d - 1, ind, fs)
        return o

    def source(self):
        r = self.r
        o, fs = [], []
        for k in range(r.randrange(0, 3)):
            f = "fn%d" % k
            o.append("%sunsigned long %s(unsigned long a, unsigned long b)\n{\n\tunsigned long c = 3, z[8] = { 1, 2 }; double fd = 0.5;" % (r.choice(["", "static "]), f))
            o += ["\t" + l for l in self.loc]
            for _ in range(r.randrange(1, 4)): o += self.stmt(2, 1, fs)
            o.append("\treturn %s;\n}" % (self.V() if r.random() < .4 else "a + b + c"))
            fs.append(f)
        for k, (n, t) in enumerate(self.ptrs[:2]):
            if t in UN:
                pass
        o.append("void start(void)\n{\n\tunsigned long a = 1, b = 2, c = 3, z[8] = { 0 }; double fd = 2.5; unsigned k;")
        o += ["\t" + l for l in self.loc]
        for _ in range(r.randrange(4, 14)): o += self.stmt(2, 1, fs)
        self.endless = r.random() < 0.12
        if self.endless:
            # the device has seen everything when the program stops doing anything else
            e = r.choice(["for (;;) ;", "while (1) a++;", "l: goto l;", "do { b ^= a; if (b == a) c++; } while (1);", "for (k = 0; ; k++) if (c == 0) a = k;", "l: if (a) { b++; goto l; } c++; goto l;"])
            o.append("#ifdef REF\n\treturn;\n#else\n\t%s\n#endif" % ("if (a | 1u) { %s }" % e if r.random() < .4 else e))
        o.append("\tsim_log(a); sim_log(b); sim_log(c); sim_bytes(&fd, 8); for (k = 0; k < 8u; k++) sim_log(z[k]);\n}")
        return "\n".join(self.decl + o) + "\n"
