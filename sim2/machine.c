/* SIM-2: a simulated machine for compiled programs.
 *
 * A run maps compiled (and foreign) code at fixed low addresses in a fresh
 * process and executes it on the real processor under this file's control:
 * every instruction of compiled code can be single-stepped, and at each step
 * the schedule given by the caller may switch green threads, deliver a
 * simulated signal, scribble over the stack below the red zone or jump out of
 * the running code.  Everything the program calls is a gate in an unexecutable
 * range, emulated here: logging, setjmp/longjmp, and thunks through which all
 * calls between compiled and foreign code pass, which fill whatever the ABI
 * leaves undefined with junk and check what it promises.  Device pages have no
 * access rights, so that every access to them is seen, decoded and answered.
 *
 * Commands on stdin, one JSON line per run on stdout.  Nothing but the
 * commands determines a run. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <signal.h>
#include <ucontext.h>
#include <unistd.h>
#include <stdarg.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>

typedef uint64_t u64;
typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;

#define GATE0 0x1f000000ul
#define NGATE 4096
#define MAXSEG 64
#define MAXTHR 8
#define TF 0x100ul
#define DF 0x400ul

enum { G_NONE, G_LOG, G_BYTES, G_RET, G_THUNK, G_THUNKRET, G_SETJMP, G_LONGJMP, G_SIGRET, G_ABORT, G_ARM, G_DISARM, G_CALLH };

struct seg { char kind; u64 addr, len; int prot; u8 *data; };
struct desc {
	u64 target;
	int variadic, nxmm, memret, nstk, dup;
	u8 rmask[6]; u16 xmask[8]; u8 *stk;
	u8 raxmask, rdxmask; u16 x0mask, x1mask;
};
struct gate { int type; u64 a; struct desc d; };
struct ev { u64 step; char type; u64 a, b; };
struct ctx { u64 r[18]; u8 fx[416]; };        /* REG_R8..REG_EFL, fxsave up to xmm15 */
struct frame { u64 ret, rsp, saved[8], memptr; u8 xmm[160]; u32 mxcsr; u16 cw; struct desc *d; int g; };
struct thread {
	u64 entry, stk, stklen, arg[6]; int narg;
	struct ctx c; int started, done; u64 ret, ret2; u8 xret[32];
	struct frame fr[256]; int nfr;
};
struct jb { u64 addr, rbx, rbp, r12, r13, r14, r15, rsp, rip, rdi, rsi; u8 xmm[160]; u32 mxcsr; u16 cw; int nfr, thr; };

static struct seg segs[MAXSEG]; static int nseg;
static struct gate gates[NGATE];
static struct thread thr[MAXTHR]; static int nthr;
static u64 handlers[8]; static int nhandler;
static struct ev *evs; static size_t nev, capev;
static struct { u64 addr, len; } dumps[64]; static int ndump;
static u64 o_step, o_seed = 1, o_maxsteps = 2000000, o_junkevery, o_ms, o_devbase, o_devlen, o_devseed, o_stephandlers, o_pcs, o_jfrom, o_jto = ~0ul, o_last = ~0ul, o_low;
static u64 hcount[8];
static void optreset(void) { o_step = 0; o_seed = 1; o_maxsteps = 2000000; o_junkevery = o_ms = o_devbase = o_devlen = o_devseed = o_stephandlers = o_pcs = o_jfrom = o_low = 0; o_jto = o_last = ~0ul; }

/* ---- output */
static char *out; static size_t outn; static const size_t outcap = 64u << 20;
static void emit(const char *f, ...) {
	va_list ap; va_start(ap, f);
	if (outn + 4096 < outcap) outn += vsnprintf(out + outn, outcap - outn, f, ap);
	va_end(ap);
}
static char *logb; static size_t logn; static const size_t logcap = 8u << 20;
static void lg(const char *f, ...) {
	va_list ap; va_start(ap, f);
	if (logn + 4096 < logcap) logn += vsnprintf(logb + logn, logcap - logn, f, ap);
	va_end(ap);
}
static char viol[65536]; static size_t violn; static int nviol;
static void vi(const char *f, ...) {
	va_list ap; va_start(ap, f);
	if (nviol++ < 40) { if (nviol > 1) violn += snprintf(viol + violn, 4, ","); violn += snprintf(viol + violn, 2, "\""); violn += vsnprintf(viol + violn, 300, f, ap); violn += snprintf(viol + violn, 2, "\""); }
	va_end(ap);
}

/* ---- seeded junk */
static u64 js;
static u64 mix(u64 z) { z += 0x9e3779b97f4a7c15ul; z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ul; z = (z ^ z >> 27) * 0x94d049bb133111ebul; return z ^ z >> 31; }
static u64 junk(void) { return mix(js++); }
static void fill(u64 a, u64 n) { for (u64 i = 0; i < n; i++) { static u64 v; if (i % 8 == 0) v = junk(); ((u8 *)a)[i] = v >> (i % 8 * 8); } }

/* ---- state of a run */
static int cur, boot;
static u64 steps, evi, counts[16];
static struct { struct ctx c; int h; u64 rsp; int t; } sigs[8]; static int nsig; static int hactive[8];
static struct jb jbs[32]; static int njb;
static u64 armed;
static struct { int on; u64 addr; int width, rd, wr; u64 rip; } pend;
static u64 ndev, nswitch;
static u64 pcs_hash = 0;

static int incomp(u64 a) { for (int i = 0; i < nseg; i++) if (segs[i].kind == 'c' && a >= segs[i].addr && a < segs[i].addr + segs[i].len) return 1; return 0; }
static int ingate(u64 a) { return a >= GATE0 && a < GATE0 + NGATE * 16; }
static int mapped(u64 a, u64 n) {
	for (int i = 0; i < nseg; i++) if (segs[i].kind != 'g' && segs[i].kind != 'v' && a >= segs[i].addr && a + n <= segs[i].addr + segs[i].len) return 1;
	for (int i = 0; i < nthr; i++) if (a >= thr[i].stk && a + n <= thr[i].stk + thr[i].stklen) return 1;
	return 0;
}
static void junkbelow(u64 rsp, u64 n) {   /* [rsp-n, rsp) as far as the stack reaches */
	struct thread *t = &thr[cur];
	if (rsp < t->stk || rsp > t->stk + t->stklen) return;
	u64 lo = rsp - n; if (lo < t->stk) lo = t->stk;
	if (rsp > lo) fill(lo, rsp - lo);
}

static const char *st = "?";
static u64 f_addr, f_rip, f_rsp; static int f_sig, f_err;

static void finish(const char *what) {
	st = what;
	emit("{\"st\":\"%s\",\"steps\":%lu,\"thr\":[", st, steps);
	for (int i = 0; i < nthr; i++) emit("%s{\"done\":%d,\"rax\":\"%lx\"}", i ? "," : "", thr[i].done, thr[i].ret);
	emit("],\"viol\":[%s],\"nviol\":%d", viol, nviol);
	emit(",\"fault\":[%d,\"%lx\",\"%lx\",%d,%d]", f_sig, f_addr, f_rip, f_err, cur);
	emit(",\"n\":[%lu,%lu,%lu,%lu,%lu,%lu,%lu,%lu],\"pcs\":\"%lx\"", counts[0], counts[1], counts[2], counts[3], counts[4], counts[5], ndev, nswitch, pcs_hash);
	emit(",\"hk\":[%lu,%lu,%lu,%lu]", hcount[0], hcount[1], hcount[2], hcount[3]);
	if (o_low) {    /* how deep the first thread's stack was written */
		u64 a = thr[0].stk;
		while (a < thr[0].stk + thr[0].stklen && *(u8 *)a == 0xa5) a++;
		emit(",\"low\":%lu", thr[0].stk + thr[0].stklen - a);
	}
	emit(",\"mem\":[");
	for (int i = 0; i < ndump; i++) {
		emit("%s\"", i ? "," : "");
		if (mapped(dumps[i].addr, dumps[i].len)) for (u64 k = 0; k < dumps[i].len; k++) emit("%02x", ((u8 *)dumps[i].addr)[k]);
		emit("\"");
	}
	emit("],\"log\":\"");
	if (outn + logn + 64 < outcap) { memcpy(out + outn, logb, logn); outn += logn; }
	emit("\"}");
	_exit(0);
}

static void getctx(ucontext_t *u, struct ctx *c) {
	memcpy(c->r, u->uc_mcontext.gregs, sizeof c->r);
	c->r[REG_EFL] &= ~TF;
	memcpy(c->fx, u->uc_mcontext.fpregs, sizeof c->fx);
}
static void fpdirty(ucontext_t *u) {
	u32 *fx = (u32 *)u->uc_mcontext.fpregs;
	if (fx[464 / 4] == 0x46505853u) *(u64 *)((u8 *)fx + 512) |= 3;
}
static void setctx(ucontext_t *u, const struct ctx *c) {
	memcpy(u->uc_mcontext.gregs, c->r, sizeof c->r);
	memcpy(u->uc_mcontext.fpregs, c->fx, sizeof c->fx);
	fpdirty(u);
}
static u8 *fxof(ucontext_t *u) { return (u8 *)u->uc_mcontext.fpregs; }
static u8 *xmm(ucontext_t *u, int i) { return fxof(u) + 160 + 16 * i; }
static u32 mxcsr(ucontext_t *u) { u32 v; memcpy(&v, fxof(u) + 24, 4); return v & 0xffc0; }
static u16 x87cw(ucontext_t *u) { u16 v; memcpy(&v, fxof(u), 2); return v; }
static void xjunk(ucontext_t *u, int i, int keep) {   /* keep: mask of bytes left alone */
	u8 *x = xmm(u, i);
	for (int k = 0; k < 16; k++) if (!(keep >> k & 1)) x[k] = junk();
}
static u64 rjunk(u64 v, int keep) { for (int k = 0; k < 8; k++) if (!(keep >> k & 1)) v = (v & ~(0xfful << 8 * k)) | (junk() & 0xff) << 8 * k; return v; }
static void flagsjunk(greg_t *g) { g[REG_EFL] = (g[REG_EFL] & ~(0x8d5ul | DF)) | (junk() & 0x8d5); }

#define R(x) (g[REG_##x])
static const int sysvargs[] = { REG_RDI, REG_RSI, REG_RDX, REG_RCX, REG_R8, REG_R9 };
static const int msargs[] = { REG_RCX, REG_RDX, REG_R8, REG_R9 };
#define ARG(i) ((u64)g[o_ms ? msargs[i] : sysvargs[i]])

/* What a callee may leave behind on return; stack pointer already popped. */
static void clobber(ucontext_t *u, u64 entryrsp) {
	greg_t *g = u->uc_mcontext.gregs;
	R(RAX) = junk(); R(RCX) = junk(); R(RDX) = junk(); R(R8) = junk(); R(R9) = junk(); R(R10) = junk(); R(R11) = junk();
	if (!o_ms) { R(RDI) = junk(); R(RSI) = junk(); }
	for (int i = 0; i < (o_ms ? 6 : 16); i++) xjunk(u, i, 0);
	fpdirty(u);
	flagsjunk(g);
	junkbelow(entryrsp + 8, 1024);
	if (o_ms && mapped(entryrsp + 8, 32)) fill(entryrsp + 8, 32);
}

static void startthread(int t, ucontext_t *u) {
	greg_t *g = u->uc_mcontext.gregs;
	struct thread *th = &thr[t];
	for (int i = 0; i < 17; i++) if (i != REG_RIP) g[i] = junk();
	for (int i = 0; i < 16; i++) xjunk(u, i, 0);
	u8 *fx = fxof(u);
	u32 mx = 0x1f80; u16 cw = 0x37f;
	memset(fx, 0, 160); memcpy(fx + 24, &mx, 4); memcpy(fx, &cw, 2);
	u32 mask = 0xffff; memcpy(fx + 28, &mask, 4);
	fpdirty(u);
	u64 rsp = th->stk + th->stklen - 4096 - 8;
	u64 ret = GATE0 + 16 * 1;
	memcpy((void *)rsp, &ret, 8);
	R(RSP) = rsp; R(RIP) = th->entry; R(EFL) = 0x202 | (junk() & 0x8d5);
	for (int i = 0; i < th->narg; i++) g[o_ms ? msargs[i] : sysvargs[i]] = th->arg[i];
	th->started = 1; cur = t;
}
static void switchto(int t, ucontext_t *u) {
	if (t == cur) return;
	nswitch++;
	if (!thr[cur].done) getctx(u, &thr[cur].c);
	if (!thr[t].started) startthread(t, u);
	else { cur = t; setctx(u, &thr[t].c); }
}

static void jump(ucontext_t *u, u64 buf, u64 val) {
	greg_t *g = u->uc_mcontext.gregs;
	struct jb *j = NULL;
	for (int i = 0; i < njb; i++) if (jbs[i].addr == buf && jbs[i].thr == cur) j = &jbs[i];
	if (!j) { vi("H longjmp to an unknown buffer %lx", buf); finish("harness"); }
	u64 old = R(RSP);
	clobber(u, R(RSP) - 8);
	R(RBX) = j->rbx; R(RBP) = j->rbp; R(R12) = j->r12; R(R13) = j->r13; R(R14) = j->r14; R(R15) = j->r15;
	if (o_ms) { R(RDI) = j->rdi; R(RSI) = j->rsi; memcpy(xmm(u, 6), j->xmm, 160); }
	R(RSP) = j->rsp; R(RIP) = j->rip;
	R(RAX) = (junk() << 32) | (u32)(val ? val : 1);
	if (j->rsp > old) junkbelow(j->rsp, 4096);
	thr[cur].nfr = j->nfr;
	armed = 0;
	counts[3]++;
}

static void deliver(ucontext_t *u, int h) {
	greg_t *g = u->uc_mcontext.gregs;
	if (hactive[h] || nsig >= 8 || h >= nhandler) return;
	getctx(u, &sigs[nsig].c); sigs[nsig].h = h; sigs[nsig].t = cur; hactive[h] = 1;
	u64 top = R(RSP) - (o_ms ? 0 : 128);
	u64 rsp = ((top - 1024) & ~15ul) - 8;
	if (rsp < thr[cur].stk + 8192) { hactive[h] = 0; return; }
	fill(rsp - 1024, top - rsp + 1024);
	u64 ret = GATE0 + 16 * 2;
	memcpy((void *)rsp, &ret, 8);
	sigs[nsig].rsp = rsp; nsig++;
	for (int i = 0; i < 17; i++) if (i != REG_RIP && i != REG_RSP) g[i] = junk();
	for (int i = 0; i < 16; i++) xjunk(u, i, 0);
	fpdirty(u); flagsjunk(g);
	R(RSP) = rsp; R(RIP) = handlers[h];
	if (o_ms) R(RCX) = 10 + h; else { R(RDI) = 10 + h; R(RSI) = rsp + 64; R(RDX) = rsp + 256; }
	counts[1]++; hcount[h]++;
}

/* Runs the gate at rip: an emulated call. */
static void rungate(ucontext_t *u) {
	greg_t *g = u->uc_mcontext.gregs;
	int n = (R(RIP) - GATE0) / 16;
	struct gate *ga = &gates[n];
	u64 rsp = R(RSP), ret = 0;
	if (ga->type == G_NONE) { f_sig = SIGILL; f_addr = f_rip = R(RIP); finish("fault"); }
	if (!mapped(rsp, 8)) { f_sig = SIGSEGV; f_addr = rsp; f_rip = R(RIP); finish("fault"); }
	memcpy(&ret, (void *)rsp, 8);
	if (ga->type != G_RET && ga->type != G_SIGRET && ga->type != G_THUNKRET && incomp(ret)) {
		if (rsp % 16 != 8) vi("stack not aligned at the call returning to %lx", ret);
		if (R(EFL) & DF) vi("direction flag set at the call returning to %lx", ret);
		if (o_ms && !mapped(rsp + 8, 32)) vi("no shadow space at the call returning to %lx", ret);
	}
	switch (ga->type) {
	case G_LOG: lg("L%d:%lx ", cur, ARG(0)); break;
	case G_BYTES: {
		u64 p = ARG(0), len = ARG(1);
		if (len > 4096 || !mapped(p, len)) { vi("bad pointer %lx+%lu passed by the call returning to %lx", p, len, ret); break; }
		lg("B%d:", cur);
		for (u64 i = 0; i < len; i++) lg("%02x", ((u8 *)p)[i]);
		lg(" ");
		break;
	}
	case G_RET:
		if (rsp != thr[cur].stk + thr[cur].stklen - 4096) vi("thread returned with a wrong stack pointer %lx", rsp);
		if (R(EFL) & DF) vi("direction flag set at return of the thread");
		thr[cur].done = 1; thr[cur].ret = R(RAX);
		for (int i = 1; i <= nthr; i++) { int t = (cur + i) % nthr; if (!thr[t].done && t != (int)o_last) { switchto(t, u); return; } }
		if (o_last < (u64)nthr && !thr[o_last].done) { switchto(o_last, u); return; }
		finish("done");
		return;
	case G_SIGRET: {
		if (!nsig) { vi("H stray signal return"); finish("harness"); }
		nsig--;
		if (rsp != sigs[nsig].rsp + 8) vi("handler returned with a wrong stack pointer");
		if (R(EFL) & DF) vi("handler returned with the direction flag set");
		hactive[sigs[nsig].h] = 0;
		setctx(u, &sigs[nsig].c);
		/* what the handler's frames held is left below the red zone */
		return;
	}
	case G_CALLH: lg("H%d:%lx ", cur, ARG(0)); break;
	case G_ABORT: lg("A%d:%lx ", cur, ARG(0)); finish("abort"); return;
	case G_SETJMP: {
		struct jb *j = NULL;
		for (int i = 0; i < njb; i++) if (jbs[i].addr == ARG(0)) j = &jbs[i];
		if (!j) { if (njb == 32) { vi("H too many jump buffers"); finish("harness"); } j = &jbs[njb++]; }
		*j = (struct jb) { ARG(0), R(RBX), R(RBP), R(R12), R(R13), R(R14), R(R15), rsp + 8, ret, R(RDI), R(RSI), .mxcsr = mxcsr(u), .cw = x87cw(u), .nfr = thr[cur].nfr, .thr = cur };
		memcpy(j->xmm, xmm(u, 6), 160);
		clobber(u, rsp);
		R(RAX) = junk() << 32;
		R(RSP) = rsp + 8; R(RIP) = ret;
		return;
	}
	case G_LONGJMP: { u64 b = ARG(0), v = (u32)ARG(1); R(RSP) = rsp + 8; jump(u, b, v); return; }
	case G_ARM: armed = ARG(0); break;
	case G_DISARM: armed = 0; break;
	case G_THUNK: {
		struct desc *d = &ga->d;
		struct thread *t = &thr[cur];
		if (t->nfr == 256) { vi("H call depth"); finish("harness"); }
		struct frame *f = &t->fr[t->nfr++];
		f->ret = ret; f->rsp = rsp; f->d = d; f->g = n;
		u64 sv[8] = { R(RBX), R(RBP), R(R12), R(R13), R(R14), R(R15), R(RDI), R(RSI) };
		memcpy(f->saved, sv, sizeof sv); memcpy(f->xmm, xmm(u, 6), 160);
		f->mxcsr = mxcsr(u); f->cw = x87cw(u); f->memptr = ARG(0);
		if (f->mxcsr != 0x1f80 || f->cw != 0x37f) vi("floating point control words changed at the call returning to %lx", ret);
		u64 rg = GATE0 + 16 * 3;
		if (d->memret && !mapped(f->memptr, 1)) vi("hidden result pointer is %lx at call %d", f->memptr, n);
		if (!o_ms && d->variadic) {
			unsigned al = R(RAX) & 0xff;
			if (al < (unsigned)d->nxmm || al > 8) vi("al is %u at a variadic call with %d vector arguments", al, d->nxmm);
			R(RAX) = (junk() & ~0xfful) | (d->nxmm + junk() % (9 - d->nxmm));
		} else R(RAX) = junk();
		R(R10) = junk(); R(R11) = junk();
		if (o_ms) {
			for (int i = 0; i < 4; i++) if (d->dup >> i & 1) {
				u64 v = g[msargs[i]]; int nb = d->xmask[i] == 0xf ? 4 : 8;
				if (incomp(ret) && memcmp(&v, xmm(u, i), nb)) vi("vector argument %d of variadic function %d is not in both registers", i, n);
			}
			for (int i = 0; i < 4; i++) { g[msargs[i]] = rjunk(g[msargs[i]], d->rmask[i]); xjunk(u, i, d->xmask[i]); }
			xjunk(u, 4, 0); xjunk(u, 5, 0);
			fill(rsp + 8, 32);
		} else {
			for (int i = 0; i < 6; i++) g[sysvargs[i]] = rjunk(g[sysvargs[i]], d->rmask[i]);
			for (int i = 0; i < 16; i++) xjunk(u, i, i < 8 ? d->xmask[i] : 0);
		}
		fpdirty(u); flagsjunk(g);
		u64 sa = rsp + 8 + (o_ms ? 32 : 0);
		for (int i = 0; i < d->nstk; i++) if (!d->stk[i]) ((u8 *)sa)[i] = junk();
		junkbelow(rsp, 1024);
		memcpy((void *)rsp, &rg, 8);
		R(RIP) = d->target;
		counts[4]++;
		return;
	}
	case G_THUNKRET: {
		struct thread *t = &thr[cur];
		if (!t->nfr) { vi("H stray return"); finish("harness"); }
		struct frame *f = &t->fr[--t->nfr];
		struct desc *d = f->d;
		const char *who = incomp(d->target) ? "" : "H ";
		static const char *nm[] = { "rbx", "rbp", "r12", "r13", "r14", "r15", "rdi", "rsi" };
		u64 now[8] = { R(RBX), R(RBP), R(R12), R(R13), R(R14), R(R15), R(RDI), R(RSI) };
		if (rsp != f->rsp + 8) vi("%sfunction %d returned with the stack pointer off by %ld", who, f->g, (long)(rsp - f->rsp - 8));
		for (int i = 0; i < (o_ms ? 8 : 6); i++) if (now[i] != f->saved[i]) vi("%sfunction %d returned with %s changed", who, f->g, nm[i]);
		if (o_ms && memcmp(f->xmm, xmm(u, 6), 160)) vi("%sfunction %d returned with one of xmm6 to xmm15 changed", who, f->g);
		if (R(EFL) & DF) vi("%sfunction %d returned with the direction flag set", who, f->g);
		if (mxcsr(u) != f->mxcsr || x87cw(u) != f->cw) vi("%sfunction %d changed the floating point control words", who, f->g);
		if (d->memret && (u64)R(RAX) != f->memptr) vi("%sfunction %d did not return its result's address in rax", who, f->g);
		u64 rax = R(RAX), rdx = R(RDX); u8 x0[16], x1[16];
		memcpy(x0, xmm(u, 0), 16); memcpy(x1, xmm(u, 1), 16);
		u64 top = f->rsp + 8;
		R(RSP) = top - 8; clobber(u, top - 8);
		R(RSP) = top;
		R(RAX) = rjunk(rax, d->raxmask);
		if (!o_ms) R(RDX) = rjunk(rdx, d->rdxmask);
		for (int k = 0; k < 16; k++) { if (d->x0mask >> k & 1) xmm(u, 0)[k] = x0[k]; if (d->x1mask >> k & 1) xmm(u, 1)[k] = x1[k]; }
		if (d->nstk) fill(top + (o_ms ? 32 : 0), d->nstk);
		R(RIP) = f->ret;
		counts[5]++;
		return;
	}
	}
	R(RSP) = rsp + 8; clobber(u, rsp); R(RIP) = ret;
}

/* Width and direction of the memory access of the instruction at p; 0 if unknown. */
static int decode(const u8 *p, int *rd, int *wr) {
	int opsz = 0, rep = 0, rex = 0;
	*rd = *wr = 0;
	for (;; p++) {
		if (*p == 0x66) opsz = 1; else if (*p == 0xf2 || *p == 0xf3) rep = *p;
		else if (*p == 0x2e || *p == 0x36 || *p == 0x3e || *p == 0x26 || *p == 0x64 || *p == 0x65 || *p == 0x67) ; else break;
	}
	if ((*p & 0xf0) == 0x40) rex = *p++;
	int w = rex & 8 ? 8 : opsz ? 2 : 4, op = *p++;
#define LD(n) return *rd = 1, n
#define ST(n) return *wr = 1, n
#define RW(n) return *rd = *wr = 1, n
	if (op == 0x0f) {
		int o = *p++;
		if (o == 0xb6 || o == 0xbe) LD(1);
		if (o == 0xb7 || o == 0xbf) LD(2);
		if (o == 0x10 || o == 0x12) LD(rep == 0xf3 ? 4 : rep == 0xf2 ? 8 : o == 0x12 ? 8 : 16);
		if (o == 0x11 || o == 0x13) ST(rep == 0xf3 ? 4 : rep == 0xf2 ? 8 : o == 0x13 ? 8 : 16);
		if (o == 0x28 || (o == 0x6f && (opsz || rep))) LD(16);
		if (o == 0x29 || (o == 0x7f && (opsz || rep))) ST(16);
		if (o == 0x6e) LD(rex & 8 ? 8 : 4);
		if (o == 0x7e) { if (rep == 0xf3) LD(8); ST(rex & 8 ? 8 : 4); }
		if (o == 0xd6) ST(8);
		if (o == 0x2a) LD(rex & 8 ? 8 : 4);
		if (o == 0x2c || o == 0x2d || o == 0x51 || (o >= 0x58 && o <= 0x5f)) LD(rep == 0xf3 ? 4 : rep == 0xf2 ? 8 : 16);
		if (o == 0x2e || o == 0x2f) LD(opsz ? 8 : 4);
		if (o == 0xaf || (o >= 0x40 && o <= 0x4f)) LD(w);
		if (o >= 0x90 && o <= 0x9f) ST(1);
		if (o == 0xba) { if ((p[0] >> 3 & 7) == 4) LD(w); RW(w); }
		if (o == 0xb0 || o == 0xc0) RW(1);
		if (o == 0xb1 || o == 0xc1) RW(w);
		return 0;
	}
	int reg = p[0] >> 3 & 7;
	if (op < 0x40) {
		int k = op & 7, cmp = op >> 3 == 7;
		if (k == 0) { if (cmp) LD(1); RW(1); }
		if (k == 1) { if (cmp) LD(w); RW(w); }
		if (k == 2) LD(1);
		if (k == 3) LD(w);
		return 0;
	}
	switch (op) {
	case 0x88: case 0xc6: ST(1);
	case 0x89: case 0xc7: ST(w);
	case 0x8a: LD(1);
	case 0x8b: LD(w);
	case 0x63: LD(4);
	case 0x80: if (reg == 7) LD(1); RW(1);
	case 0x81: case 0x83: if (reg == 7) LD(w); RW(w);
	case 0x84: LD(1);
	case 0x85: LD(w);
	case 0x86: RW(1);
	case 0x87: RW(w);
	case 0xf6: if (reg == 2 || reg == 3) RW(1); LD(1);
	case 0xf7: if (reg == 2 || reg == 3) RW(w); LD(w);
	case 0xfe: RW(1);
	case 0xff: if (reg <= 1) RW(w); LD(reg == 6 || reg == 2 || reg == 4 ? (opsz ? 2 : 8) : w);
	case 0xd0: case 0xd2: case 0xc0: RW(1);
	case 0xd1: case 0xd3: case 0xc1: RW(w);
	case 0x69: case 0x6b: LD(w);
	case 0x8f: ST(8);
	case 0xa4: RW(1);
	case 0xa5: RW(w);
	case 0xaa: ST(1);
	case 0xab: ST(w);
	}
	return 0;
}

static void devopen(int on) { mprotect((void *)o_devbase, o_devlen, on ? PROT_READ | PROT_WRITE : PROT_NONE); }

static void on_sig(int sig, siginfo_t *si, void *vu) {
	ucontext_t *u = vu;
	greg_t *g = u->uc_mcontext.gregs;
	if (boot) { boot = 0; startthread(0, u); goto go; }
	if (sig == SIGSEGV) {
		u64 a = (u64)si->si_addr, rip = R(RIP);
		if (o_devlen && a >= o_devbase && a < o_devbase + o_devlen && !pend.on && rip != a) {
			pend.width = decode((u8 *)rip, &pend.rd, &pend.wr);
			if (!pend.width) { lg("?%lx ", rip); f_addr = a; f_rip = rip; finish("undecoded"); }
			devopen(1);
			pend.on = 1; pend.addr = a; pend.rip = rip;
			for (int i = 0; i < (int)o_devlen; i += 8) { u64 v = mix(o_devseed + 77 + i); memcpy((void *)(o_devbase + i), &v, 8); }
			if (pend.rd) {
				u64 v = mix(o_devseed ^ ++ndev << 20 ^ (a - o_devbase));
				for (int i = 0; i < pend.width && a + i < o_devbase + o_devlen; i++) ((u8 *)a)[i] = v >> (i % 8 * 8);
				lg("R%lx:%d ", a - o_devbase, pend.width);
			}
			R(EFL) |= TF;
			return;
		}
		f_sig = sig; f_addr = a; f_rip = rip; f_err = (R(ERR) & 2) != 0; f_rsp = R(RSP);
		finish("fault");
	}
	if (sig != SIGTRAP) { f_sig = sig; f_addr = (u64)si->si_addr; f_rip = R(RIP); finish("fault"); }
	if (pend.on) {
		if (pend.wr) {
			lg("W%lx:%d:", pend.addr - o_devbase, pend.width);
			for (int i = 0; i < pend.width && pend.addr + i < o_devbase + o_devlen; i++) lg("%02x", ((u8 *)pend.addr)[i]);
			lg(" ");
			ndev++;
		}
		devopen(0); pend.on = 0;
		R(EFL) &= ~TF;
	}
	if (si->si_code == SI_KERNEL && ingate(R(RIP) - 1)) R(RIP)--;
go:
	for (;;) {
		while (ingate(R(RIP))) rungate(u);
		u64 rip = R(RIP);
		if (!incomp(rip)) { R(EFL) &= ~TF; return; }
		if (!o_step || (nsig && !o_stephandlers)) { R(EFL) &= ~TF; return; }
		break;
	}
	/* an instruction of compiled code is about to execute */
	{
		u64 rip = R(RIP), rsp = R(RSP);
		steps++;
		if (o_pcs) pcs_hash = mix(pcs_hash ^ rip ^ (u64)cur << 40);
		if (steps > o_maxsteps) finish("maxsteps");
		if (R(EFL) & DF) { /* allowed inside a function */ }
		if (o_junkevery && steps % o_junkevery == 0 && steps >= o_jfrom && steps < o_jto) { u64 save = js; js = mix(o_seed ^ steps << 1); junkbelow(rsp - 128, 512); js = save; counts[0]++; }
		int moved = 0;
		while (evi < nev && evs[evi].step <= steps) {
			struct ev *e = &evs[evi++];
			if (e->step < steps) continue;
			u64 save = js; js = mix(o_seed * 31 + e->step * 7 + e->type);
			switch (e->type) {
			case 'J': junkbelow(R(RSP) - 128, 1024); counts[0]++; break;
			case 'H': deliver(u, e->a); moved = 1; break;
			case 'T': {
				int w = e->a % nthr, t = cur;
				for (int i = 0; i < nthr; i++) { int k = (w + i) % nthr; if (!thr[k].done && k != (int)o_last) { t = k; break; } }
				if (t != cur && !nsig && t != (int)o_last) { counts[2]++; pcs_hash = mix(pcs_hash ^ rip * 31 ^ t); switchto(t, u); moved = 1; }
				break;
			}
			case 'L': if (armed && !nsig) { junkbelow(R(RSP) - 128, 2048); pcs_hash = mix(pcs_hash ^ rip * 37); lg("J%d ", cur); R(RSP) -= 256; /* the handler that calls longjmp has a frame */ jump(u, armed, e->a); moved = 1; } break;
			}
			js = save;
			if (moved) break;
		}
		if (moved) {
			if (ingate(R(RIP))) goto go;
			if (nsig && !o_stephandlers) { R(EFL) &= ~TF; return; }
			/* the step number stays with the instruction that was about to run */
		}
		R(EFL) |= TF;
	}
}

static u8 altstack[1 << 18] __attribute__((aligned(64)));

static void child(void) {
	for (int i = 0; i < nseg; i++) {
		struct seg *s = &segs[i];
		u64 a = s->addr & ~4095ul, e = (s->addr + s->len + 4095) & ~4095ul;
		if (mmap((void *)a, e - a, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != (void *)a) { emit("{\"st\":\"mapfail\",\"addr\":\"%lx\"}", a); _exit(0); }
		if (s->data) memcpy((void *)s->addr, s->data, s->len);
		if (s->prot != 3) mprotect((void *)a, e - a, s->prot);
	}
	js = mix(o_seed);
	for (int i = 0; i < nthr; i++) {
		if (mmap((void *)thr[i].stk, thr[i].stklen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != (void *)thr[i].stk) { emit("{\"st\":\"mapfail\"}"); _exit(0); }
		u64 n = thr[i].stklen; if (n > 40960) n = 40960;
		if (o_low) memset((void *)thr[i].stk, 0xa5, thr[i].stklen);
		else fill(thr[i].stk + thr[i].stklen - n, n);
	}
	if (mmap((void *)GATE0, NGATE * 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != (void *)GATE0) { emit("{\"st\":\"mapfail\"}"); _exit(0); }
	memset((void *)GATE0, 0xcc, NGATE * 16);
	mprotect((void *)GATE0, NGATE * 16, PROT_READ | PROT_EXEC);
	gates[1].type = G_RET; gates[2].type = G_SIGRET; gates[3].type = G_THUNKRET;
	logb = mmap(NULL, logcap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	struct itimerval it = { { 0, 0 }, { 25, 0 } };
	setitimer(ITIMER_PROF, &it, NULL);
	stack_t ss = { .ss_sp = altstack, .ss_size = sizeof altstack };
	sigaltstack(&ss, NULL);
	struct sigaction sa = { .sa_sigaction = on_sig, .sa_flags = SA_SIGINFO | SA_ONSTACK };
	sigaddset(&sa.sa_mask, SIGTRAP); sigaddset(&sa.sa_mask, SIGSEGV);
	int s[] = { SIGTRAP, SIGSEGV, SIGBUS, SIGILL, SIGFPE };
	for (int i = 0; i < 5; i++) sigaction(s[i], &sa, NULL);
	boot = 1;
	__asm__ volatile("int3");
	_exit(1);
}

static void clear(void) {
	for (int i = 0; i < nseg; i++) free(segs[i].data);
	nseg = 0;
	for (int i = 0; i < NGATE; i++) { free(gates[i].d.stk); }
	memset(gates, 0, sizeof gates);
	memset(thr, 0, sizeof thr); nthr = nhandler = 0; nev = 0; ndump = 0;
	optreset();
}

static int cmpev(const void *a, const void *b) { const struct ev *x = a, *y = b; return x->step < y->step ? -1 : x->step > y->step; }

int main(void) {
	static char line[1 << 20];
	out = mmap(NULL, outcap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	u64 *plen = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	(void)plen;
	clear();
	while (fgets(line, sizeof line, stdin)) {
		char *p = line;
		char cmd[32]; int k = 0;
		while (*p && *p != ' ' && *p != '\n' && k < 31) cmd[k++] = *p++;
		cmd[k] = 0;
#define NUM() strtoull(p, &p, 16)
		if (!strcmp(cmd, "seg")) {
			while (*p == ' ') p++;
			char kind = *p++;
			struct seg *s = &segs[nseg++];
			s->kind = kind; s->addr = NUM(); s->len = NUM(); s->prot = NUM();
			int has = NUM();
			s->data = NULL;
			if (has) { s->data = malloc(s->len + 1); if (fread(s->data, 1, s->len, stdin) != s->len) return 1; }
		} else if (!strcmp(cmd, "gate")) {
			int i = NUM(); gates[i].type = NUM();
		} else if (!strcmp(cmd, "thunk")) {
			int i = NUM();
			struct desc *d = &gates[i].d;
			gates[i].type = G_THUNK;
			d->target = NUM(); d->variadic = NUM(); d->nxmm = NUM(); d->memret = NUM();
			for (int j = 0; j < 6; j++) d->rmask[j] = NUM();
			for (int j = 0; j < 8; j++) d->xmask[j] = NUM();
			d->raxmask = NUM(); d->rdxmask = NUM(); d->x0mask = NUM(); d->x1mask = NUM(); d->dup = NUM();
			d->nstk = NUM();
			free(d->stk); d->stk = malloc(d->nstk + 1);
			while (*p == ' ') p++;
			for (int j = 0; j < d->nstk; j++) d->stk[j] = p[j] == '1';
		} else if (!strcmp(cmd, "thread")) {
			struct thread *t = &thr[nthr++];
			t->entry = NUM(); t->stk = NUM(); t->stklen = NUM(); t->narg = NUM();
			for (int j = 0; j < t->narg; j++) t->arg[j] = NUM();
		} else if (!strcmp(cmd, "handler")) handlers[nhandler++] = NUM();
		else if (!strcmp(cmd, "ev")) {
			if (nev == capev) { capev = capev ? capev * 2 : 1024; evs = realloc(evs, capev * sizeof *evs); }
			struct ev *e = &evs[nev++];
			e->step = NUM(); while (*p == ' ') p++; e->type = *p++; e->a = NUM(); e->b = NUM();
		} else if (!strcmp(cmd, "evclear")) nev = 0;
		else if (!strcmp(cmd, "thrclear")) { memset(thr, 0, sizeof thr); nthr = nhandler = ndump = 0; optreset(); }
		else if (!strcmp(cmd, "dump")) { dumps[ndump].addr = NUM(); dumps[ndump++].len = NUM(); }
		else if (!strcmp(cmd, "opt")) {
			while (*p == ' ') p++;
			char nm[32]; k = 0;
			while (*p && *p != ' ' && k < 31) nm[k++] = *p++;
			nm[k] = 0;
			u64 v = NUM();
			if (!strcmp(nm, "step")) o_step = v; else if (!strcmp(nm, "seed")) o_seed = v; else if (!strcmp(nm, "maxsteps")) o_maxsteps = v;
			else if (!strcmp(nm, "junkevery")) o_junkevery = v; else if (!strcmp(nm, "ms")) o_ms = v; else if (!strcmp(nm, "devbase")) o_devbase = v;
			else if (!strcmp(nm, "devlen")) o_devlen = v; else if (!strcmp(nm, "devseed")) o_devseed = v; else if (!strcmp(nm, "stephandlers")) o_stephandlers = v;
			else if (!strcmp(nm, "pcs")) o_pcs = v; else if (!strcmp(nm, "jfrom")) o_jfrom = v; else if (!strcmp(nm, "jto")) o_jto = v;
			else if (!strcmp(nm, "last")) o_last = v; else if (!strcmp(nm, "low")) o_low = v; else return 2;
		} else if (!strcmp(cmd, "clear")) clear();
		else if (!strcmp(cmd, "run")) {
			qsort(evs, nev, sizeof *evs, cmpev);
			out[0] = 0; out[outcap - 1] = 0;
			memset(out, 0, 64);
			pid_t pid = fork();
			if (pid == 0) { outn = 0; child(); }
			int ws = 0;
			while (waitpid(pid, &ws, 0) < 0 && errno == EINTR) ;
			if (WIFSIGNALED(ws)) printf("{\"st\":\"%s\",\"sig\":%d}\n", WTERMSIG(ws) == SIGPROF ? "hang" : "died", WTERMSIG(ws));
			else if (!out[0]) printf("{\"st\":\"died\",\"sig\":0}\n");
			else { fputs(out, stdout); putchar('\n'); }
			madvise(out, outcap, MADV_REMOVE);
			fflush(stdout);
		} else if (!strcmp(cmd, "quit")) return 0;
		else if (k) { fprintf(stderr, "bad command %s\n", cmd); return 3; }
	}
	return 0;
}
