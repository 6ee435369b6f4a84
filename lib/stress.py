"""Parametrised C functions without static state that use frames in unusual ways: structures by
value, recursion, variable length arrays, variadic calls, over-aligned locals, many arguments."""


def stress(rng, p):
    """(text, [(function, argument types)]); all return unsigned long."""
    N, M, K = rng.choice([1, 2, 3, 5, 7, 8, 9, 12, 16, 17, 24, 31, 33, 40, 65, 120]), rng.choice([3, 8, 13, 20, 48]), rng.randrange(2, 9)
    al = rng.choice([16, 32, 64])
    t = rng.choice(["unsigned char", "unsigned short", "unsigned", "unsigned long"])
    d = dict(p=p, N=N, M=M, K=K, al=al, t=t, D=rng.randrange(1, 9), s=rng.getrandbits(31), L=rng.choice([4, 9, 20, 36, 66, 130, 300]), V=rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 15, 16, 17, 23]))
    parts = [
        ("rec", ["unsigned"], """
struct %(p)sB { unsigned char b[%(N)d]; };
unsigned long %(p)ssum(struct %(p)sB b) { unsigned long h = %(s)du; for (unsigned i = 0; i < %(N)du; i++) h = h * 33 + b.b[i]; return h; }
struct %(p)sB %(p)smk(unsigned s) { struct %(p)sB b; for (unsigned i = 0; i < %(N)du; i++) b.b[i] = s + i * 7; return b; }
unsigned long %(p)srec2(struct %(p)sB b, unsigned d) { if (!d) return %(p)ssum(b); struct %(p)sB c = b; c.b[d %% %(N)du] += d; return %(p)srec2(c, d - 1) * 3 + %(p)ssum(b) + %(p)ssum(%(p)smk(d)); }
unsigned long %(p)srec(unsigned a) { return %(p)srec2(%(p)smk(a), %(D)du) + %(p)smk(a + 1).b[0]; }
"""),
        ("vla", ["unsigned"], """
unsigned long %(p)svla(unsigned a) { unsigned long h = a; unsigned n = %(M)du + a %% 5u; for (unsigned i = 0; i < %(K)du; i++) { %(t)s v[n + i]; for (unsigned j = 0; j < n + i; j++) v[j] = h + j * i; for (unsigned j = 0; j < n + i; j++) h = h * 31 + v[j]; } return h; }
"""),
        ("va", ["unsigned"], """
unsigned long %(p)sva2(int n, ...) { unsigned long h = n; __builtin_va_list ap; __builtin_va_start(ap, n); for (int i = 0; i < n; i++) h = h * 17 + __builtin_va_arg(ap, unsigned long); __builtin_va_end(ap); return h; }
unsigned long %(p)sva(unsigned a) { return %(p)sva2(%(K)d, """ + ", ".join("(unsigned long)a * %du" % (rng.randrange(1, 999)) for _ in range(K)) + """) + %(p)sva2(1, (unsigned long)a); }
"""),
        ("al", ["unsigned"], """
unsigned long %(p)sal2(unsigned a, unsigned b, unsigned c, unsigned d, unsigned e, unsigned f, unsigned g, unsigned char h, unsigned short i, double j) { _Alignas(%(al)d) unsigned v[%(M)d]; for (unsigned k = 0; k < %(M)du; k++) v[k] = a * k + b * 3 + c * 5 + d * 7 + e * 11 + f * 13 + g * 17 + h * 19 + i * 23; unsigned long r = (unsigned long)v %% %(al)dul; for (unsigned k = 0; k < %(M)du; k++) r = r * 37 + v[k]; return r + (unsigned long)j; }
unsigned long %(p)sal(unsigned a) { return %(p)sal2(a, a + 1, a + 2, a + 3, a + 4, a + 5, a + 6, a + 7, a + 8, 2.5 * (a %% 1000u)); }
"""),
        ("fl", ["unsigned"], """
struct %(p)sF { double x; float y; unsigned z; };
struct %(p)sF %(p)sfs(struct %(p)sF f, double k) { struct %(p)sF r; r.x = f.x * k + f.y; r.y = f.y + 0.5; r.z = f.z + 1; return r; }
unsigned long %(p)sfl(unsigned a) { struct %(p)sF f; f.x = a %% 1000u; f.y = 1.5; f.z = a; for (unsigned i = 0; i < %(K)du; i++) f = %(p)sfs(f, 0.25 + i); return (unsigned long)(unsigned)f.x * 31 + f.z + (unsigned)f.y; }
"""),
        ("ptr", ["unsigned"], """
struct %(p)sN { struct %(p)sN *next; %(t)s v; unsigned char pad[%(N)d]; };
unsigned long %(p)swalk(struct %(p)sN *n) { unsigned long h = 0; for (; n; n = n->next) h = h * 29 + n->v + n->pad[%(N)d - 1]; return h; }
unsigned long %(p)schain(struct %(p)sN *prev, unsigned a, unsigned d) { struct %(p)sN n; n.next = prev; n.v = a; n.pad[%(N)d - 1] = a * d; if (!d) return %(p)swalk(&n); unsigned long h = %(p)schain(&n, a * 3 + d, d - 1); return h * 7 + n.v + n.pad[%(N)d - 1]; }
unsigned long %(p)sptr(unsigned a) { return %(p)schain(0, a, %(K)du); }
"""),
        ("sw", ["unsigned"], """
unsigned long %(p)ssw(unsigned a) { unsigned long h = 1; %(t)s m[3][%(M)d]; for (unsigned i = 0; i < 3u; i++) for (unsigned j = 0; j < %(M)du; j++) { switch ((a + i + j) %% 4u) { case 0: m[i][j] = h; break; case 1: m[i][j] = i * j; case 2: h += j; m[i][j] = a; break; default: m[i][j] = 9; } h = h * 5 + m[i][j]; } unsigned c[4] = { a, a / 3u, 5 }; for (unsigned i = 0; i < 4u; i++) h = c[i] > h ? h ^ c[i] : h + c[i] * (h / ((c[i] | 1u))); return h; }
"""),
        ("vn", ["unsigned"], """
unsigned long %(p)svn2(unsigned a, unsigned d, %(t)s *prev) { unsigned n = %(K)du + (a + d) %% 7u; %(t)s v[n]; unsigned long h = prev ? prev[1] : a; for (unsigned i = 0; i < n; i++) v[i] = h + i * 3; if (d & 1u) { %(t)s w[n * 2u + d]; for (unsigned i = 0; i < n * 2u + d; i++) w[i] = v[i %% n] + i; { %(t)s u[3][n]; for (unsigned i = 0; i < n * 3u; i++) u[i / n][i %% n] = w[i %% (n * 2u)] ^ i; for (unsigned i = 0; i < 3u; i++) h = h * 31 + u[i][n - 1]; } for (unsigned i = 0; i < n * 2u + d; i++) h = h * 5 + w[i]; } else { unsigned char w[d + 1]; w[d] = a; h += w[d]; } if (d) h ^= %(p)svn2(a + 1, d - 1, v); for (unsigned i = 0; i < n; i++) h = h * 7 + v[i]; return h + sizeof v; }
unsigned long %(p)svn(unsigned a) { return %(p)svn2(a, %(D)du %% 5u, 0); }
"""),
        ("duff", ["unsigned"], """
unsigned long %(p)sduff(unsigned a) { unsigned char f[%(M)d], t[%(M)d + 1]; unsigned char *s = f, *d = t; for (unsigned i = 0; i < %(M)du; i++) f[i] = a * i + 5; unsigned n = %(M)du, k = (n + 3u) / 4u; t[n] = 77; switch (n %% 4u) { case 0: do { *d++ = *s++; case 3: *d++ = *s++; case 2: *d++ = *s++; case 1: *d++ = *s++; } while (--k > 0u); } unsigned long h = t[n]; for (unsigned i = 0; i < n; i++) { switch ((a + i) %% 5u) { case 0: continue; case 1: h += i; if (h & 1u) continue; break; default: { unsigned v[(i & 3u) + 1]; v[i & 3u] = h; if (h & 4u) continue; h += v[i & 3u]; } } h = h * 31 + t[i]; } return h; }
"""),
        ("self", ["unsigned"], """
struct %(p)sL { struct %(p)sL *n, *p; %(t)s v[%(N)d]; };
unsigned long %(p)sself2(struct %(p)sL *h, unsigned a, unsigned d) { struct %(p)sL x = { h, &x, { a } }; x.v[%(N)d - 1] += d; void *q = &q; x.p = h->p; h->p->n = &x; h->p = &x; unsigned long r = q == (void *)&q; if (d) r += %(p)sself2(h, a * 3 + 1, d - 1); else for (struct %(p)sL *y = h->n; y != h; y = y->n) r = r * 31 + y->v[0] + y->v[%(N)d - 1]; x.p->n = x.n; x.n->p = x.p; return r * 3 + x.v[0]; }
unsigned long %(p)sself(unsigned a) { struct %(p)sL h = { &h, &h }; unsigned long r = %(p)sself2(&h, a, %(D)du); return r * 2 + (h.n == &h) + (h.p == &h) + h.v[0]; }
"""),
        ("sva", ["unsigned"], """
struct %(p)sV { unsigned char b[%(V)d]; };
struct %(p)sW { %(t)s x; unsigned char b[%(V)d]; };
struct %(p)sV %(p)smv(unsigned a) { struct %(p)sV v; for (unsigned i = 0; i < %(V)du; i++) v.b[i] = a + i * 11; return v; }
struct %(p)sW %(p)smw(unsigned a) { struct %(p)sW w = { a, { 1 } }; w.b[%(V)d - 1] = a + 9; return w; }
unsigned long %(p)ssva2(int n, ...) { __builtin_va_list ap; unsigned long h = n; __builtin_va_start(ap, n); for (int i = 0; i < n; i++) { struct { unsigned char g0[5]; struct %(p)sV v; unsigned char g1[9]; struct %(p)sW w; unsigned char g2[7]; } k; for (unsigned j = 0; j < 9u; j++) { if (j < 5u) k.g0[j] = 1; k.g1[j] = 2; if (j < 7u) k.g2[j] = 3; } k.v = __builtin_va_arg(ap, struct %(p)sV); h = h * 31 + __builtin_va_arg(ap, int); k.w = __builtin_va_arg(ap, struct %(p)sW); h += (unsigned long)__builtin_va_arg(ap, double); for (unsigned j = 0; j < 9u; j++) h = h * 3 + k.g1[j] + (j < 5u ? k.g0[j] : 0) + (j < 7u ? k.g2[j] : 0); for (unsigned j = 0; j < %(V)du; j++) h = h * 7 + k.v.b[j]; h += k.w.x + k.w.b[%(V)d - 1]; } __builtin_va_end(ap); return h; }
unsigned long %(p)ssva(unsigned a) { return %(p)ssva2(%(K)d %% 3, %(p)smv(a), a & 255u, %(p)smw(a), 2.5, %(p)smv(a + 1), 7, %(p)smw(a * 3), a %% 100u + 0.5) + %(p)ssva2(1, %(p)smv(1), 2, %(p)smw(3), 4.0); }
"""),
        ("lit", ["unsigned"], """
struct %(p)sP { %(t)s x, y; struct { short a; unsigned char c[%(V)d]; } in; };
static unsigned long %(p)sone(const struct %(p)sP *q) { unsigned long h = q->x * 3 + q->y; for (unsigned i = 0; i < %(V)du; i++) h = h * 5 + q->in.c[i]; return h + q->in.a; }
static unsigned long %(p)stwo(const struct %(p)sP *q) { return %(p)sone(q) ^ 0x55; }
static struct %(p)sP %(p)sby(struct %(p)sP q, unsigned k) { q.in.c[k %% %(V)du]++; return k & 1u ? q : (struct %(p)sP) { .y = q.x, .in = q.in }; }
unsigned long %(p)slit(unsigned a) { unsigned long (*f[3])(const struct %(p)sP *) = { %(p)sone, %(p)stwo, %(p)sone }; unsigned long h = 0; unsigned i = 0;
	again: { struct %(p)sP q = { .in = { .c = { [%(V)d - 1] = a + i }, .a = i }, .x = a }; q = %(p)sby(%(p)sby(q, i), i + a); h = h * 31 + f[i %% 3u](&q) + f[(a + i) %% 3u](&(struct %(p)sP) { a, i, { 1, { 2 } } }); }
	if (++i < %(K)du) goto again; return h; }
"""),
        ("bit", ["unsigned"], """
struct %(p)sQ { unsigned a : 3, b : 13; int c : 9; unsigned long d : 40; unsigned char e; _Bool f : 1; };
unsigned long %(p)sbit(unsigned a) { struct %(p)sQ q[3] = { { a, a }, { .d = a } }; unsigned long h = 0; for (unsigned i = 0; i < %(K)du * 3u; i++) { struct %(p)sQ *r = &q[i %% 3u]; r->a += i; r->b ^= h; r->c -= (int)i; r->d = r->d * 77u + a; r->e++; r->f = h & 4u; struct %(p)sQ s = *r; h = h * 31 + s.a + s.b + (unsigned)s.c + s.d + s.e + s.f; } return h; }
"""),
        ("cl", ["unsigned"], """
struct %(p)sT { %(t)s v[%(L)d]; struct %(p)sT *up; unsigned n; };
static unsigned long %(p)scl3(const %(t)s *a, const unsigned long *b, struct %(p)sT *t) { unsigned long h = a[0] + a[%(L)d - 1] * 3u + b[0] * 5u + b[%(L)d - 1] * 7u; for (; t; t = t->up) h = h * 31 + t->v[0] + t->v[%(L)d - 1] + t->n; return h; }
static struct %(p)sT %(p)scl4(unsigned a, struct %(p)sT *up) { struct %(p)sT t = { { a, 1 }, up, a }; t.v[%(L)d - 1] = a * 3u; return t; }
unsigned long %(p)scl2(unsigned a, unsigned d, struct %(p)sT *up) { %(t)s *l = (%(t)s [%(L)d]) { a, a + d }; const unsigned long k[%(L)d] = { d, [%(L)d - 1] = a }; struct %(p)sT *q = &(struct %(p)sT) { .n = d, .up = up, .v = { [1] = 5, [0] = a } }; char s[] = "text %(p)s"; struct %(p)sT u[2] = { %(p)scl4(a, q), { { d } } }; unsigned long raw[%(L)d];
	raw[0] = a; raw[%(L)d - 1] = d; l[%(L)d - 1] += a * 5u; q->v[%(L)d - 1] = a ^ 9u; s[d & 3u] += a; u[1].n = a; u[1].up = &u[0];
	unsigned long h = %(p)scl3(l, k, &u[1]); if (d) h = h * 3 + %(p)scl2(a * 7u + 1, d - 1, &u[1]); h = h * 31 + %(p)scl3(l, k, q) + l[1] + q->v[1] + s[d & 3u] + raw[0] * 3u + raw[%(L)d - 1] + u[0].n; return h + %(p)scl4(a + 1, 0).v[%(L)d - 1]; }
unsigned long %(p)scl(unsigned a) { return %(p)scl2(a, %(K)du %% 4u, 0); }
"""),
    ]
    n = rng.randrange(2, 8)
    use = rng.sample(parts, n)
    return "".join(x[2] % d for x in use), [(p + x[0], x[1]) for x in use]
