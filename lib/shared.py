"""Programs of several threads that assign distinct members of shared objects."""

SC = ["char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "float", "double", "_Bool", "void *"]
FL = ("float", "double")


def const(rng, t, bits=0):
    if t in FL: return "%d.%s" % (rng.randrange(0, 4000), rng.choice(["0", "5", "25"]))
    if t == "void *": return "(void *)0x%xul" % rng.getrandbits(47)
    if t == "_Bool": return str(rng.randrange(2))
    n = bits or {"c": 7, "s": 15, "i": 31, "l": 63}[t.split()[-1][0] if not t.startswith("unsigned") or " " in t else "i"]
    if "signed" in t and "un" not in t and t.endswith("char"): n = 7
    return "0x%xul" % rng.getrandbits(n)


class Shared:
    def __init__(self, rng, nthr):
        r = self.r = rng
        self.n = nthr
        self.o, self.places, self.helpers = [], [], []     # places: (expression, type, bits, owner)
        self.subs = []
        for i in range(r.randrange(1, 4)):      # small structures, assigned as a whole
            kind = r.choice(["bytes", "bytes", "mixed", "shorts"])
            if kind == "bytes": ms = [("b", "unsigned char", r.choice([1, 2, 3, 5, 6, 7, 9, 11, 13, 15, 17, 21, 33]))]
            elif kind == "shorts": ms = [("b", "unsigned short", r.randrange(1, 10))]
            else: ms = [("m%d" % k, r.choice(SC), 0) for k in range(r.randrange(1, 5))]
            self.o.append("struct X%d { %s };" % (i, " ".join("%s %s%s;" % (t, n, "[%d]" % l if l else "") for n, t, l in ms)))
            self.subs.append(("X%d" % i, ms))
        body = []
        places = []
        for k in range(r.randrange(3, 14)):
            m = "f%d" % k
            c = r.random()
            if c < 0.45:
                t = r.choice(SC[:6] if r.random() < .6 else SC)
                body.append("%s %s;" % (t, m)); places.append((m, t, 0, self.own()))
            elif c < 0.60:
                w = self.own()
                t = r.choice(["unsigned", "unsigned", "int", "unsigned char", "unsigned short", "unsigned long"])
                mx = {"unsigned": 32, "int": 32, "unsigned char": 8, "unsigned short": 16, "unsigned long": 64}[t]
                for b in range(r.randrange(1, 4)):
                    bits = r.randrange(1, mx + 1)
                    body.append("%s %sb%d : %d;" % (t, m, b, bits)); places.append(("%sb%d" % (m, b), t, bits, w))
                # the next bit-field belongs to the same memory location unless something lies between
                if r.random() < 0.25: body.append("%s : 0;" % t); continue
                body.append("%s %ss;" % (r.choice(["unsigned char", "unsigned short", "unsigned"]), m)); places.append((m + "s", body[-1].rsplit(" ", 1)[0], 0, self.own()))
            elif c < 0.8:
                t = r.choice(SC[:7]); l = r.randrange(2, 7)
                body.append("%s %s[%d];" % (t, m, l))
                for i in range(l): places.append(("%s[%d]" % (m, i), t, 0, self.own()))
            elif c < 0.9:
                x, ms = r.choice(self.subs)
                body.append("struct %s %s;" % (x, m)); places.append((m, x, 0, self.own()))
            else:
                x, ms = r.choice(self.subs); l = r.randrange(2, 5)
                body.append("struct %s %s[%d];" % (x, m, l))
                for i in range(l): places.append(("%s[%d]" % (m, i), x, 0, self.own()))
        self.o.append("struct S { %s };" % " ".join(body))
        self.o.append("struct S sh[2]; struct S one;")
        self.places = [("s->" + p[0],) + p[1:] for p in places]
        if r.random() < 0.5: self.places += [("one." + p[0],) + p[1:3] + (self.own(),) for p in self.ungroup(places)]
        for k in range(r.randrange(0, 6)):
            t = r.choice(SC[:6] + [x for x, _ in self.subs])
            g = "g%d" % k
            self.o.append("%s%s %s;" % (r.choice(["", "static "]), self.cty(t), g))
            self.places.append((g, t, 0, self.own()))
        for k in range(r.randrange(0, 2)):
            t = r.choice(SC[:6]); l = r.randrange(3, 9)
            self.o.append("%s ga%d[%d];" % (t, k, l))
            for i in range(l): self.places.append(("ga%d[%d]" % (k, i), t, 0, self.own()))

    def own(self): return self.r.randrange(self.n)

    @staticmethod
    def ungroup(places):
        """Copies without the bit-fields: their owners must stay together."""
        return [p for p in places if not p[2]]

    def cty(self, t): return "struct " + t if t.startswith("X") else t

    def sub(self, t): return dict(self.subs)[t]

    def setx(self, dst, t, x):
        """Statements that fill a structure from the variable x."""
        o = []
        for n, mt, l in self.sub(t):
            for i in range(l or 1):
                e = "%s.%s%s" % (dst, n, "[%d]" % i if l else "")
                o.append("%s = %s;" % (e, self.val(mt, "(%s + %d)" % (x, i * 5))))
        return o

    @staticmethod
    def val(t, x):
        if t in FL: return "(%s)(%s %% 4096u)" % (t, x)
        if t == "void *": return "(void *)(%s)" % x
        if t == "_Bool": return "(_Bool)(%s & 1u)" % x
        return "(%s)(%s)" % (t, x)

    def show(self, e, t, bits=0):
        if t.startswith("X"):
            o = []
            for n, mt, l in self.sub(t):
                for i in range(l or 1): o += self.show("%s.%s%s" % (e, n, "[%d]" % i if l else ""), mt)
            return o
        if t in FL: return ["sim_bytes(&%s, %d);" % (e, 4 if t == "float" else 8)]
        return ["sim_log((W)%s);" % e]

    def source(self, pure_text, pure_funcs, gcall):
        r = self.r
        o = ["typedef unsigned long long W; extern void sim_log(W), sim_bytes(void *, W), sim_hlog(W);"] + [pure_text] + self.o
        for t in sorted({p[1] for p in self.places if p[1].startswith("X")}):
            o.append("struct %s mk%s(unsigned long x)\n{\n\tstruct %s v;\n\t%s\n\treturn v;\n}" % (t, t, t, "\n\t".join(self.setx("v", t, "x"))))
            o.append("void cp%s(struct %s *d, struct %s v) { *d = v; }" % (t, t, t))
        for t in SC: o.append("void put_%s(%s *p, unsigned long x) { *p = %s; }" % (t.replace(" ", "_").replace("*", "p"), t, self.val(t, "x")))
        o.append("void init(struct S *s)\n{\n\tunsigned long x = %s;" % const(r, "unsigned long"))
        for e, t, bits, w in self.places:
            o.append("\tx = x * 6364136223846793005ul + 1442695040888963407ul;")
            o += ["\t" + l for l in (self.setx(e, t, "(x >> 33)") if t.startswith("X") else ["%s = %s;" % (e, self.val(t, "(x >> 33)"))])]
        o.append("}")
        # one verifier log entry group per place
        o.append("void verify(struct S *s)\n{")
        for e, t, bits, w in self.places: o += ["\tsim_hlog(0);"] + ["\t" + l for l in self.show(e, t)]
        o.append("}")
        for k in range(self.n):
            mine = [p for p in self.places if p[3] == k]
            o.append("void thread%d(struct S *s)\n{\n\tunsigned long x = %s; unsigned i;" % (k, const(r, "unsigned long")))
            o.append("\tfor (i = 0; i < %du; i++) {" % r.randrange(1, 4))
            for _ in range(r.randrange(4, 12)):
                o.append("\t\tx = x * 2862933555777941757ul + 3037000493ul;")
                if pure_funcs and r.random() < 0.15:
                    f, ts = r.choice(pure_funcs)
                    o.append("\t\tx = x ^ %s;" % gcall(f, ts)); continue
                if not mine: continue
                e, t, bits, w = r.choice(mine)
                c = r.random()
                v = "(x >> 20)"
                if t.startswith("X"):
                    if c < 0.25: o.append("\t\t%s = mk%s(x);" % (e, t))
                    elif c < 0.45: o.append("\t\tcp%s(&%s, mk%s(x));" % (t, e, t))
                    elif c < 0.65: o.append("\t\t{ struct %s v; %s %s = v; }" % (t, " ".join(self.setx("v", t, "x")), e))
                    elif c < 0.75:
                        z = ", ".join("{ %s }" % ", ".join(const(r, mt) if mt != "_Bool" else "1" for _ in range(l)) if l else const(r, mt) for n, mt, l in self.sub(t))
                        o.append("\t\t%s = (struct %s) { %s };" % (e, t, z))
                    else: o += ["\t\t" + l for l in self.setx(e, t, "x")]
                elif bits:
                    if c < 0.5: o.append("\t\t%s = %s;" % (e, v))
                    elif c < 0.8: o.append("\t\t%s %s %s;" % (e, r.choice(["+=", "^=", "|=", "&="]), v) if t != "int" else "\t\t%s = %s & 0xffu;" % (e, v))
                    elif t != "int": o.append("\t\t%s%s;" % (e, r.choice(["++", "--"])))
                elif t in FL or t in ("void *", "_Bool"):
                    if c < 0.3: o.append("\t\tput_%s(&%s, x);" % (t.replace(" ", "_").replace("*", "p"), e))
                    elif c < 0.6 and t in FL: o.append("\t\t%s = %s * (%s)0.5 + (%s)1.25;" % (e, e, t, t))
                    else: o.append("\t\t%s = %s;" % (e, self.val(t, v)))
                else:
                    if c < 0.25: o.append("\t\tput_%s(&%s, x);" % (t.replace(" ", "_"), e))
                    elif c < 0.5: o.append("\t\t%s = %s;" % (e, self.val(t, v)))
                    elif c < 0.8 and t.startswith("unsigned"): o.append("\t\t%s %s %s;" % (e, r.choice(["+=", "-=", "^=", "|=", "&=", "*="]), v))
                    elif t.startswith("unsigned"): o.append("\t\t%s%s;" % (e, r.choice(["++", "--"])))
                    else: o.append("\t\t{ %s *q = &%s; *q = %s; }" % (t, e, self.val(t, v)))
                if r.random() < 0.4 and not t.startswith("X"):
                    if t not in FL and t != "void *": o.append("\t\tx = x ^ (unsigned long)%s;" % e)
                    else: o += ["\t\t" + l for l in self.show(e, t)]
            o.append("\t}\n\tsim_log(x);")
            for e, t, bits, w in mine[:6]: o += ["\t" + l for l in self.show(e, t)]
            o.append("}")
        return "\n".join(o) + "\n"
