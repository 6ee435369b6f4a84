"""Programs that leave compiled code by longjmp.

Every change of an object whose value is promised after a jump, and every output, is a numbered step; the
program can be told to jump after any step.  A jump the simulator forces at an arbitrary instruction must
therefore look like one of the two jumps around it that the program can make itself."""

HEAD = """typedef unsigned long long W;
#define long long long
extern void sim_log(W), sim_bytes(void *, W), sim_hlog(W), sim_arm(void *), sim_disarm(void);
typedef unsigned long JB[8];
extern int setjmp(JB), _setjmp(JB), sigsetjmp(JB, int), __sigsetjmp(JB, int);
extern void longjmp(JB, int), _longjmp(JB, int), siglongjmp(JB, int);
JB env[2]; volatile unsigned P, ep, live[2], pad; unsigned long stop[4]; int async;
volatile long vg; volatile unsigned char vc; volatile double vd; volatile unsigned va[4];
long g; short gs; double gd; unsigned ga[5]; struct G { int a; char b; long c; } gt;
void jump(void)
{
	unsigned w = stop[ep] >> 16 & 1;
	if (!live[w]) w = 0;
	if (!live[w]) return;
	%s(env[w], (int)(stop[ep] >> 20));
}
#define S(x) { P++; x; if (P == (stop[ep] & 0xffff)) jump(); }
#define L(x) S(sim_log(x))
void land(unsigned id)
{
	if (id == 0) live[1] = 0;
	sim_hlog(P << 4 | id); sim_log(0xace00 + id);
	P = 0; ep++;
}
void globals(void)
{
	unsigned i;
	sim_log(vg); sim_log(vc); { double d = vd; sim_bytes(&d, 8); } for (i = 0; i < 4u; i++) sim_log(va[i]);
	if (!async) { sim_log(g); sim_log(gs); sim_bytes(&gd, 8); sim_bytes(ga, sizeof ga); sim_log(gt.a); sim_log(gt.b); sim_log(gt.c); }
}
"""

INT = ["int", "unsigned", "long", "unsigned char", "short", "unsigned long", "signed char", "_Bool"]
VT = ["int", "unsigned", "long", "unsigned char", "short", "double"]


class Jumps:
    def __init__(self, rng):
        self.r = rng

    # integer expression over names
    def e(self, names, d=2):
        r = self.r
        if d == 0 or r.random() < .3: return r.choice(names) if names and r.random() < .75 else "%d" % r.randrange(1, 100)
        o = r.choice(["+", "-", "*", "^", "&", "|", "+", "<", "?:", "~", "cast"])
        a, b = self.e(names, d - 1), self.e(names, d - 1)
        if o == "?:": return "(%s ? %s : %s)" % (self.e(names, d - 1), a, b)
        if o == "~": return "~(%s)" % a
        if o == "cast": return "(%s)(%s)" % (r.choice(["unsigned char", "short", "long", "unsigned"]), a)
        return "(%s %s %s)" % (a, o, b)

    def gstep(self, names, ind):
        """A step that changes one scalar of the globals."""
        r = self.r
        p = "\t" * ind
        x = "(unsigned)(%s)" % self.e(names)
        k = r.randrange(14)
        t = ["vg = %s" % x, "vg += %s" % x, "vc ^= %s" % x, "vd = vd * 0.5 + (int)(%s & 255)" % x, "va[%s & 3] = %s" % (x, x), "va[1]++",
             "g = g * 3 + %s" % x, "gs += %s" % x, "gd = (int)(%s & 1023)" % x, "ga[%s %% 5u] ^= %s" % (x, x), "gt.c = %s" % x, "gt.b = %s" % x, "sim_log(%s)" % x, "gt.a++"][k]
        return p + "S(%s)" % t

    def deep(self, name, lower):
        """A function below the one that called setjmp."""
        r = self.r
        o = ["%slong %s(int n, long *p, volatile int *q, double f)" % (r.choice(["", "static "]), name), "{", "\tlong t = n * 7 + 1; unsigned i; long arr[3] = { n, 2, 3 };"]
        ns = ["n", "t", "*p", "arr[n & 1]", "*q"]
        for _ in range(r.randrange(2, 6)):
            k = r.randrange(10)
            if k < 3: o.append(self.gstep(ns, 1))
            elif k == 8: o.append("\t{ unsigned c = 0, h = t, y = %s; l%d: { unsigned u = h; h = y * 31u + c; y = u; } c++; if (c < %du) goto l%d; S(*q ^= h + y) }" % (self.e(ns), len(o), r.randrange(2, 6), len(o)))
            elif k == 9: o.append("\t{ unsigned long v[(n & 7) + 1]; v[n & 7] = t; v[0] += %s; S(*q += v[n & 7]) t += sizeof v; }" % self.e(ns))
            elif k == 3: o.append("\tS(*q %s %s)" % (r.choice(["=", "+=", "^="]), "(int)(%s & 0xfff)" % self.e(ns)))
            elif k == 4: o.append("\tS(*p = *p * 5 + %s)" % self.e(["n", "t"]))
            elif k == 5: o.append("\tt %s %s;" % (r.choice(["+=", "^=", "="]), self.e(ns)))
            elif k == 6: o += ["\tfor (i = 0; i < %du; i++) {" % r.randrange(1, 4), self.gstep(ns + ["i"], 2), "\t}"]
            elif lower: o.append("\tt += %s;" % self.call(r.choice(lower), "n + 1", "p", "q", "f + 1"))
        if r.random() < .4: o.append("\tif (n < 3) t += %s(n + 1, %s, q, f * 0.5);" % (name, r.choice(["p", "&t", "arr + 1"])))
        o += ["\treturn t + (f > 2.0);", "}"]
        return o

    def call(self, f, *a):
        if f.startswith("host"): return "%s(%s, %s, (char)(%s), %s)" % (f, a[0], a[3], a[0], a[1])
        return "%s(%s)" % (f, ", ".join(a))

    def host(self, k, lower):
        r = self.r
        name = "host%d" % k
        o = ["%slong %s(int a, double f, char b, long *op)" % (r.choice(["", "static "]) if k else "", name), "{"]
        U, V = [], []       # (name, type, log form); U: not modified after setjmp
        names = ["a", "b"]
        o.append("\tunsigned i, j; long t = 3; volatile unsigned first = 1, vz = 2;")
        logs = ["sim_log(a)", "sim_bytes(&f, 8)" if r.random() < .5 else "sim_log((long)(f * 16))", "sim_log(b)", "sim_log(op != 0)"]
        for n in range(r.randrange(2, 7)):
            c = r.randrange(12)
            u = "u%d" % n
            if c < 4:
                t = r.choice(INT)
                o.append("\t%s%s %s = %s;" % (r.choice(["", "", "const ", "register "]), t, u, self.e(names))); names.append(u); logs.append("sim_log(%s)" % u)
            elif c == 4:
                o.append("\tint %s; if (%s) %s = %s; else %s = %s;" % (u, self.e(names), u, self.e(names), u, self.e(names))); names.append(u); logs.append("sim_log(%s)" % u)
            elif c == 5:
                o.append("\t%s %s = f * %d + %s;" % (r.choice(["double", "float"]), u, r.randrange(1, 5), "(int)(%s & 63)" % self.e(names))); logs.append("sim_log((long)(%s * 4))" % u)
            elif c == 6:
                o.append("\tlong %s[%d] = { %s, %s };" % (u, r.randrange(2, 6), self.e(names), self.e(names))); names.append("%s[%d]" % (u, r.randrange(2))); logs.append("sim_bytes(%s, sizeof %s)" % (u, u))
            elif c == 7:
                o.append("\tstruct { %s; } %s = { %s, %s };" % (r.choice(["int x; int y", "char x; long y", "long x, y, z", "short x; char y"]), u, self.e(names), self.e(names)))
                names.append(u + ".x"); logs += ["sim_log(%s.x)" % u, "sim_log(%s.y)" % u]
            elif c == 10:
                o.append("\tunsigned %s[(a & 3) + 2]; %s[0] = %s; %s[1] = 7; %s[(a & 3) + 1] = %s;" % (u, u, self.e(names), u, u, self.e(names))); names.append(u + "[0]"); logs += ["sim_log(%s[0])" % u, "sim_log(%s[(a & 3) + 1])" % u, "sim_log(sizeof %s)" % u]
            elif c == 11:
                o.append("\tint %s = 1; j = 0; { int y = %s; g%s: { int z = %s; %s = y * 3 + j; y = z; } j++; if (j < %du) goto g%s; }" % (u, self.e(names), u, u, u, r.randrange(2, 5), u)); names.append(u); logs.append("sim_log(%s)" % u)
            elif c == 8:
                o.append("\tint %s = 0; for (j = 0; j < %du; j++) %s += j * %s;" % (u, r.randrange(1, 5), u, self.e(names, 1))); names.append(u); logs.append("sim_log(%s)" % u)
            else:
                n0 = r.choice([x for x in names])
                o.append("\tlong %s = %s; long *%sp = &%s;" % (u, n0, u, u)); names.append("*%sp" % u); logs += ["sim_log(*%sp)" % u, "sim_log(%s)" % u]
        vn = []
        for n in range(r.randrange(1, 4)):
            v = "v%d" % n
            c = r.randrange(5)
            if c == 0: o.append("\tstruct { int p; volatile int x; } %s = { 1, 2 };" % v); v += ".x"
            elif c == 1: o.append("\tvolatile int %s[3] = { 1, %s };" % (v, self.e(names))); v += "[1]"
            else: o.append("\tvolatile int %s = %s;" % (v, self.e(names)))
            vn.append(v); logs.append("sim_log(%s)" % v)
        vt = r.choice(VT)
        o.append("\tvolatile %s w = 5;" % vt)
        logs.append("{ double d = w; sim_bytes(&d, 8); }")
        outer = "op"
        allv = names + vn
        loop = r.random() < .45
        ind = 1
        if loop:
            m = r.randrange(2, 6)
            o.append("\tint c0 = 0, once = 1; long c1 = 1; double c2 = 0;")
            o.append("\tfor (i = 0; i < %du; i++) {" % m)
            ind = 2
            p = "\t\t"
            o.append(p + "t += i * %d;" % r.randrange(1, 9))
            o.append(p + "if (i >= %du && once) {" % r.randrange(m))
            ind = 3; p = "\t\t\t"
            o.append(p + "once = 0; c0 = i * %d + %s; c1 = t * 3 - i; c2 = i + f;" % (r.randrange(1, 50), self.e(["a", "b"])))
            logs += ["sim_log(c0)", "sim_log(c1)", "sim_log((long)(c2 * 8))"]
        p = "\t" * ind

        def body(ind, again):
            q = "\t" * ind
            b = [q + "live[%d] = 1;" % k, q + "S(vg ^= 1)", q + "sim_arm(env[%d]);" % k]
            for _ in range(r.randrange(2, 7)):
                c = r.randrange(12)
                if c < 2: b.append(self.gstep(allv, ind))
                elif c == 2: b.append(q + "S(%s %s (int)(%s & 0xffff))" % (r.choice(vn), r.choice(["=", "+=", "^=", "-="]), self.e(allv)))
                elif c == 3: b.append(q + "S(w %s (int)(%s & 0xff))" % (r.choice(["=", "+="]), self.e(allv)))
                elif c == 4: b += [q + "for (j = 0; j < %du; j++) {" % r.randrange(1, 4), self.gstep(allv + ["j"], ind + 1), q + "\tS(%s += j)" % r.choice(vn), q + "}"]
                elif c == 5: b += [q + "if (%s) {" % self.e(allv), self.gstep(allv, ind + 1), q + "} else {", self.gstep(allv, ind + 1), q + "}"]
                elif c == 6: b.append(q + "S(*%s += %s)" % (outer, self.e(names)))
                elif c == 7: b.append(q + "t = %s;" % self.e(allv + ["t"]))
                else:
                    f = r.choice(lower)
                    b.append(q + "t += %s;" % self.call(f, "a + %d" % r.randrange(3), r.choice([outer, "&t"]), "&" + vn[0], "f"))
                    if r.random() < .5: b.append(q + "S(%s ^= (int)t)" % r.choice(vn))
            if not again and loop: return b
            return b + self.fin(ind, k)

        def landed(ind, again):
            q = "\t" * ind
            b = [q + "land(%d);" % k] + [q + l + ";" for l in r.sample(logs, len(logs))] + [q + "globals();"]
            if again: b += [q + "t = 3;"] + body(ind, True)
            return b + [q + "live[%d] = 0;" % k] if not again else b
        again = r.random() < .5
        sj = r.choice(["setjmp(env[%d])", "_setjmp(env[%d])", "sigsetjmp(env[%d], 1)", "__sigsetjmp(env[%d], 0)", "setjmp(env[%d])"]) % k
        c = r.randrange(7)
        I = ind + 1
        brk = [p + "\tbreak;"] if loop else []
        if c == 0: o += [p + "if (%s) {" % sj] + landed(I, again) + brk + [p + "} else {"] + body(I, False) + [p + "}"]
        elif c == 1: o += [p + "if (%s%s%s) {" % (("!", sj, "") if r.random() < .5 else ("", sj, " == 0"))] + body(I, False) + [p + "} else {"] + landed(I, again) + brk + [p + "}"]
        elif c == 2:
            o += [p + "switch (%s) {" % sj, p + "case 0:"] + body(I, False) + [p + "\tbreak;"]
            for n in r.sample([1, 2, 3, 4, -1], r.randrange(0, 4)): o += [p + "case %d: sim_log(%d); goto other%d;" % (n, 700 + n, k)]
            o += [p + "default: sim_log(799); other%d:" % k] + landed(I, again) + ([p + "\tgoto out%d;" % k] if loop else []) + [p + "}"]
        elif c == 3: o += [p + "if (%s > %d) {" % (sj, r.randrange(1, 5)), p + "\tsim_log(800);"] + landed(I, again) + brk + [p + "} else if (first) {", p + "\tfirst = 0;"] + body(I, False) + [p + "} else {", p + "\tsim_log(801);"] + landed(I, again) + brk + [p + "}"]
        elif c == 4: o += [p + r.choice(["%s;", "(void)%s;"]) % sj, p + "if (first) {", p + "\tfirst = 0;"] + body(I, False) + [p + "} else {"] + landed(I, again) + brk + [p + "}"]
        elif c == 5: o += [p + "while (%s == 0) {" % sj] + body(I, False) + [p + "\tfirst = 0;", p + "\tgoto in%d;" % k, p + "}"] + landed(ind, again) + [p + "first = 0;"] + ([p + "break;"] if loop else []) + [p + "in%d:;" % k]
        else: o += [p + "if (%s != %d) {" % (sj, r.randrange(1, 4)), p + "\tif (first) {", p + "\t\tfirst = 0;"] + body(I + 1, False) + [p + "\t} else {"] + landed(I + 1, again) + (["\t" + p + "\tbreak;"] if loop else []) + [p + "\t}", p + "} else {", p + "\tsim_log(900);"] + landed(I, again) + brk + [p + "}"]
        if loop:
            o.append("\t\t}")
            for _ in range(r.randrange(1, 4)): o.append(self.gstep(names + ["i"], 2))
            if r.random() < .5: o.append("\t\tS(%s += i)" % vn[0])
            o.append("\t\tt += %s;" % self.call(r.choice(lower), "(int)i", "&t", "&" + vn[0], "f"))
            o += ["\t}"]
            o += ["\tout%d:;" % k] + self.fin(1, k)
        if c == 2 and not loop: pass
        o += ["\tpad++;"] + ["\tL(%s)" % l[8:-1] for l in logs if l.startswith("sim_log")]
        o += ["\treturn %s;" % self.e(names), "}"]
        return o

    def fin(self, ind, k):
        q = "\t" * ind
        if k == 0: return [q + "live[0] = 0; sim_disarm();"]
        # a step in front, so that the program can make every jump that can be forced after this
        return [q + "S(vg ^= 1)", q + "if (live[0]) sim_arm(env[0]); else sim_disarm();", q + "live[1] = 0;"]

    def source(self):
        r = self.r
        o = [HEAD % r.choice(["longjmp", "_longjmp", "siglongjmp"])]
        lower = []
        for k in range(r.randrange(1, 4)):
            o += self.deep("deep%d" % k, lower); lower.append("deep%d" % k)
        if r.random() < .6:
            o += self.host(1, lower); lower.append("host1")
            if r.random() < .5: o += self.deep("via", lower); lower.append("via")
        o += self.host(0, lower)
        o += ["void start(unsigned long a, unsigned long b, unsigned long c, unsigned long na)", "{", "\tint n = na & 255, as = na >> 8;",
              "\tstop[0] = a; stop[1] = b; stop[2] = c; stop[3] = 0xffff; async = as;",
              "\tlong x = n * 3, y = n ^ 5, arr[4] = { n, 1, 2, 3 }; double d = n * 0.25; unsigned char ch = n; int i; struct { long a, b, c; } s = { n, 2, 3 };",
              "\tfor (i = 0; i < %d; i++) {" % r.randrange(1, 3),
              "\t\tlong z = x * (i + 1), m = 1;",
              "\t\ty += host0((int)x + i, d, ch, %s);" % r.choice(["&m", "&m", "arr + 2"]),
              "\t\tif (!async) { sim_log(m); sim_log(arr[2]); }",
              "\t\tsim_log(z); sim_log(x); sim_bytes(&d, 8); sim_log(ch); sim_bytes(&s, sizeof s); sim_log(arr[0]); sim_log(i);",
              "\t}", "\tsim_log(y); globals();", "}"]
        return "\n".join(o) + "\n"
