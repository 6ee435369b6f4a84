"""Pieces of C that use more of the language than gen_c's arithmetic: data of all shapes, jumps, types, calls.
Each fragment is a template; @ is replaced by a fresh prefix, and {a} {b} {n} {s} by numbers and text."""

FRAGMENTS = [
    # static data: large, partly initialised, odd sizes, designators, labels
    "static struct {{ char n[{n}]; int v; char tail[{b}]; }} @tab[{a}] = {{ {{ \"{s}\", 1 }}, [1] = {{ .v = 2 }} }}; int @fn(int i) {{ return @tab[i].v + @tab[i].n[0]; }}",
    "struct @odd {{ char c[{n}]; }}; struct @odd @o1 = {{ \"{s}\" }}, @o2, @oa[{a}] = {{ [{a} - 1] = {{ {{ 1 }} }} }}; static struct @odd @o3; struct @odd @of(void) {{ @o3 = @o1; return @o3; }}",
    "char @buf[{n}{n}] = {{ [{n}] = 1 }}; char @b2[{n}] = \"{s}\"; short @b3[{n}] = {{ 1, 2, 3 }}; int @bf(void) {{ return @buf[{n}] + @b2[0] + @b3[1]; }}",
    "static const char *@names[] = {{ \"{s}\", \"b{s}\", \"{s}\" \"x\", \"\", 0, [{a} + 6] = \"end\" }}; const char *@nf(unsigned i) {{ return @names[i % (sizeof @names / sizeof *@names)]; }}",
    "int @x1, @x2[{a}]; int *@p[] = {{ &@x1, @x2, @x2 + 1, &@x2[{a} - 1], 0 }}; char *@pc = (char *)@x2 + 3; struct {{ int *a; char b; int **c; }} @pp = {{ &@x1, 'b', @p + 2 }};",
    "int @g1(int x) {{ return x + {n}; }} static int @g2(int x) {{ return x * {n}; }} int (*@gt[])(int) = {{ @g1, @g2, 0, @g1 }}; int @gc(int i) {{ return @gt[i & 1](i) + (i > 5 ? @g1 : @g2)(i); }}",
    "union @u {{ char c; short s[3]; int i; double d; char b[{n}]; }}; union @u @ua = {{ 1 }}, @ub = {{ .d = {n}.5 }}, @uc[2] = {{ {{ .i = {n} }}, {{ .b = \"{s}\" }} }}; int @uf(void) {{ union @u l = @ua; l.s[1] = 3; return l.c + @uc[1].b[0]; }}",
    "struct @bf {{ unsigned a : 3, b : 7; int : 0; int c : 11; unsigned long long d : 33; signed char e : 4; _Bool f : 1; char g[{a}]; }}; static struct @bf @bv[] = {{ {{ 1, 2, 3, 4, 5, 1, \"\" }}, {{ .c = -1 }} }}; long @bfun(struct @bf *p) {{ p->c += 3; p->d = p->a << 3; p->b ^= 5; return p->e + @bv[1].c; }}",
    "#pragma pack(1)\nstruct @pk {{ char a; int b; short c; double d; char e[{n}]; }};\n#pragma pack()\nstruct @pk @pv = {{ 1, 2, 3, 4.5, \"{s}\" }}, @pw[3]; int @pf(void) {{ @pw[1] = @pv; @pw[2].b++; return @pw[1].b; }}",
    "int *@cl = (int []){{ 1, 2, {n} }}; struct @cs {{ int x, *y; }} *@cp = &(struct @cs){{ {n}, 0 }}; char *@cc = (char [{n}]){{ 'a', 'b' }};",
    "float @f1 = {n}.25f, @f2[{a}] = {{ 1, -2.5f }}; double @d1 = -{n}e3, @d2 = 1.0 / 3; double @ff(float a, double b) {{ return a < b ? -a : b * @f1 + (int)b + (unsigned char)a; }}",
    "static _Alignas(64) char @al[{n}]; _Alignas(32) int @al2 = 3; int @alf(int n) {{ _Alignas(64) char l[{n}]; l[0] = n; return l[0] + _Alignof(double) + ((unsigned long)l & 63); }}",
    "#include <stddef.h>\nint @w1 = sizeof(wchar_t); unsigned short @w2[] = u\"{s}\"; unsigned @w3[] = U\"a{s}\"; char @w4[] = u8\"\\u00e5{s}\\x41\\101\\n\"; int @w5 = L'\\u20ac' + '\\'' + 'ab';",
    "enum @en {{ @A, @B = {n}, @C, @D = -5 }}; int @ea[@C] = {{ [@B] = @D, [0] = @A }}; enum @en @ef(enum @en e) {{ switch (e) {{ case @A: return @B; case @B ... @C: return @D; default: return @A; }} }}".replace("case @B ... @C:", "case @B: case @C:"),
    "struct @l {{ struct @l *next; long v; }}; static struct @l @l1, @l2 = {{ &@l1, {n} }}; static struct @l @l1 = {{ &@l2, 2 }}; long @lf(struct @l *p, int n) {{ long s = 0; while (n--) {{ s += p->v; p = p->next; }} return s; }}",
    "struct @v3 {{ float x, y, z; }}; struct @v2 {{ double x; int y; }}; struct @big {{ long q[{n}]; }}; struct @v3 @va(struct @v3 a, struct @v2 b, struct @big c, char d) {{ a.x += b.x; a.y = c.q[0]; a.z = d; return a; }} struct @big @vb(int i) {{ struct @big r = {{ {{ i }} }}; struct @v2 z = {{ 1, 2 }}; r.q[1] = @va((struct @v3){{ 1 }}, z, r, i).x; return r; }}",
    "#include <stdarg.h>\nlong @sum(int n, ...) {{ va_list ap, aq; va_start(ap, n); va_copy(aq, ap); long s = 0; for (int i = 0; i < n; i++) s += va_arg(ap, int); double d = va_arg(aq, double); va_end(aq); va_end(ap); return s + (long)d; }} long @cal(void) {{ return @sum({a}, 1, 2, 3.5, {n}L, \"x\", (char)4, 5, 6, 7, 8, 9, 10); }}",
    "int @vla(int n, int m) {{ int s = 0; for (int i = 1; i < n; i++) {{ char a[i + 1], *p = a; int b[i][m + 1]; b[i - 1][m] = i; a[i] = 1; s += sizeof a + sizeof b + p[i] + b[i - 1][m]; if (s > {n}00) goto out; }} out: return s; }}",
    "int @sw(int x) {{ switch (x) {{ case 0: x = 3; case {n}: x++; break; case -1: for (;;) {{ if (x++ > {n}) break; if (x & 1) continue; switch (x) {{ default: x += 2; case 7: ; }} }} break; default: goto l; case 1000 + {n}: l: return x; }} return -x; }}",
    "int @duff(char *t, const char *f, int n) {{ int r = (n + 3) / 4; switch (n % 4) {{ case 0: do {{ *t++ = *f++; case 3: *t++ = *f++; case 2: *t++ = *f++; case 1: *t++ = *f++; }} while (--r > 0); }} return r; }}",
    "int @goto(int n) {{ int i = 0, s = 0; top: if (i >= n) goto end; {{ int k = i; if (k % 3 == 0) goto next; s += k; }} next: i++; goto top; end: return s; }}",
    "long @gen(void) {{ int i; char *p; return _Generic(i, int: {n}, char *: 2, default: 3) + _Generic(p, int: 1, char *: 20, default: 3) + _Generic(1.0f, float: 5, default: 0) + sizeof(int [{n}]) + sizeof(struct {{ char c; long l; }}); }} _Static_assert({n} > 0, \"{s}\");",
    "unsigned long @ops(unsigned long a, int b, signed char c) {{ a += b; a -= c; a *= 3; a /= (b | 1); a %= 1000; a <<= (c & 7); a >>= 1; a &= ~7ul; a |= b; a ^= c; a = !a + -b + ~c + (b > 0 && c < 5 || a) + (b ? c : a); return a++ + --b + (c--, ++a); }}",
    "volatile int @vi; volatile char @vc[{a}]; int @vol(volatile short *p) {{ @vi; @vi++; *p; *p = *p + 1; @vc[1] |= 4; return @vi + (@vc[0] = *p); }}",
    "static int @st(void) {{ static int n = {n}; static char b[{n}]; static struct {{ int x; char *p; }} q = {{ 1, b + 1 }}; b[n % {n}]++; return n++ + q.x; }} int @st2(void) {{ static int n; return @st() + n++; }}",
    "typedef int @fnt(int, char *); typedef @fnt *@fpt; static @fnt @impl; @fpt @table[2][2] = {{ {{ @impl }}, {{ 0, @impl }} }}; static int @impl(int a, char *b) {{ return a + *b; }} int (*@ret(int i))(int, char *) {{ return @table[i & 1][i & 1]; }}",
    "#define @CAT(a, b) a ## b\n#define @STR(x) #x\n#define @XS(x) @STR(x)\n#define @V(f, ...) f(__VA_ARGS__)\nint @CAT(@m, 1) = {n}; char @ms[] = @XS(@CAT(a, {n})) __FILE__ @STR( \"q\\n\"  'c' + x ); int @ml = __LINE__; int @mv = @V(@CAT, 1, 2);",
    "extern int @ext[]; extern void @efn(int, ...); int @use(int i) {{ @efn(i, 1.5, @ext[i], &@ext[2]); return @ext[{n}]; }} inline int @inl(int x) {{ return x; }} static inline int @sinl(int x) {{ return x + @inl(x); }} int @useinl(void) {{ return @sinl(3); }}",
    "int @cmp(const void *a, const void *b) {{ const struct {{ int k; char v[{n}]; }} *x = a, *y = b; return x->k < y->k ? -1 : x->k > y->k; }} _Noreturn void @nr(void) {{ for (;;) ; }} int @deep(int a, int b) {{ return ((((((a + b) * (a - b)) ^ ((a & b) | (a ^ b))) << 1) % ((a | 1))) + ((a ? b : a) ? (b ? 1 : 2) : 3)); }}",
    "struct @anon {{ int a; union {{ int b; struct {{ short c, d; }}; char e[{a}]; }}; struct {{ int f; }} g; }}; struct @anon @an = {{ 1, {{ 2 }}, {{ 3 }} }}, @am = {{ .d = 4, .g.f = 5 }}; int @anf(struct @anon *p) {{ return p->c + p->g.f + (&*p)->e[1]; }}",
    "struct @fl {{ int n; char data[]; }}; int @flf(struct @fl *p) {{ return p->data[p->n] + sizeof *p; }} int @arr[2][3][{a}] = {{ {{ {{ 1 }}, {{ 2, 3 }} }}, {{ [2] = {{ [{a} - 1] = 9 }} }} }}; int @arf(int (*p)[3][{a}], int i) {{ return p[i][1][0] + *(*(*(p + 1) + 2) + i); }}",
]


def numbers(rng, p):
    """Constant expressions whose values take all bits of their types: what the compiler computes itself."""
    def lit(f):
        if f == "f": return "%.8ef" % (rng.uniform(1, 10) * 10.0 ** rng.randrange(-12, 12)) if rng.random() < 0.9 else "%d.0f" % rng.randrange(1 << 24)
        if f == "d": return "%.17e" % (rng.uniform(1, 10) * 10.0 ** rng.choice([0, 0, 0, 3, -5, 40, -70])) if rng.random() < 0.9 else "%d.5" % rng.randrange(1 << 30)
        return "%d%s" % (rng.getrandbits(rng.choice([8, 31, 32, 63, 64])), "ull")

    def ex(f, depth):
        if depth == 0 or rng.random() < 0.1: return lit(f)
        x, y = ex(f, depth - 1), ex(f, depth - 1)
        if f == "u":
            op = rng.choice(["+", "-", "*", "&", "|", "^", "<<", ">>", "/", "%"])
            if op in "/%": y = "(%s | 1)" % y
            if op in "<<>>": y = "(%s & 63)" % y
        else: op = rng.choice(["+", "-", "*", "/"])
        r = "(%s %s %s)" % (x, op, y)
        return rng.choice(["-", ""]) + r if f != "u" else rng.choice(["~", "", ""]) + r
    o = []
    for f, ty in (("f", "float"), ("d", "double"), ("u", "unsigned long long")):
        o.append("%s %s%s[] = { %s };" % (ty, p, f, ", ".join(ex(f, rng.choice([1, 1, 2])) for _ in range(rng.choice([2, 20, 60])))))
    o.append("double %sx(double d) { return d * %s + (float)%s - %s; } int %sc = %s < %s ? 1 : 2; unsigned long long %sz = (unsigned long long)%s ^ (unsigned)%s;"
             % (p, ex("d", 2), lit("d"), ex("f", 1), p, ex("d", 1), ex("d", 1), p, "%d.75" % rng.randrange(1 << 40), "%d.5f" % rng.randrange(1 << 23)))
    return " ".join(o)


LINKABLE = [f for f in FRAGMENTS if "extern " not in f]


def rich(rng, prefix, count, link=False):
    o = []
    for k in range(count):
        if rng.random() < 0.12: o.append(numbers(rng, "%sr%d_" % (prefix, k))); continue
        n = rng.choice([8, 9, 11, 13, 17, 24, 33, 41, 67, 97])
        s = "".join(rng.choice("abcdefgh XYZ0123") for _ in range(rng.randrange(0, 7)))
        o.append(rng.choice(LINKABLE if link else FRAGMENTS).format(a=rng.randrange(3, 9), b=rng.randrange(1, 40), n=n, s=s).replace("@", "%sr%d_" % (prefix, k)))
    return "\n".join(o) + "\n"
