// SIM-1: runs the real compiler (all of /repo/src, linked in with main renamed
// to cc_main) inside a simulated operating system.  See ../DESIGN.md.
//
// A server process keeps file-system images and forks one child per simulated
// compiler process.  In the child every system call is trapped (seccomp ->
// SIGSYS) and carried out against a simulated file system in shared memory;
// the allocator, the clock, the stack, the environment and the process id are
// supplied by the simulator.  All choices come from the plan text of the run.
#define _GNU_SOURCE
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <time.h>
#include <unistd.h>
#include <ucontext.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <linux/filter.h>
#include <linux/futex.h>
#include <linux/seccomp.h>
#include <linux/audit.h>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64; typedef int32_t i32;

int cc_main(int argc, char **argv);

// ---------------------------------------------------------------- raw syscall
long real_syscall(long nr, long a, long b, long c, long d, long e, long f);
extern char real_syscall_begin[], real_syscall_end[];
__asm__(
".text\n.global real_syscall\n.global real_syscall_begin\n.global real_syscall_end\n"
"real_syscall:\nreal_syscall_begin:\n"
"mov %rdi,%rax\nmov %rsi,%rdi\nmov %rdx,%rsi\nmov %rcx,%rdx\nmov %r8,%r10\nmov %r9,%r8\nmov 8(%rsp),%r9\n"
"syscall\nret\n"
"real_syscall_end: nop\n");

// ---------------------------------------------------------------- shared state
#define SHARED_BASE ((char *)0x100000000000ul)
#define SHARED_SIZE (320ul << 20)
#define HEAP_BASE   0x200000000000ul
#define HEAP_ARENA  (1ul << 32)
#define NARENA      8
#define FENCE_BASE  0x240000000000ul
#define MMAP_BASE   0x280000000000ul
#define STACK_BASE  0x300000000000ul
#define STACK_SIZE  (64ul << 20)
#define ALT_BASE    0x310000000000ul
#define ALIAS_BASE  0x400000000000ul    // heap mode 4: blocks whose address has 32 zero bits

enum { T_NONE, T_FILE, T_DIR, T_NULL, T_FULL, T_PIPE, T_TTY };
struct inode { u8 type, owned; u16 mode; u32 nlink; const u8 *data; u64 size, cap; u64 written; };
struct dent { const char *path; u64 h; i64 ino; };      // ino < 0: does not exist
struct fdent { i64 ino; u64 off; i64 eof_at; int flags; u8 used, wrote; };

enum { K_ERR = 1, K_SHORT, K_TRUNC, K_LOSE, K_CRASH };
struct fault { u32 idx; u32 kind; i64 a, b; u32 fired; };
enum { C_OPENR, C_OPENW, C_READ, C_WRITE, C_CLOSE, C_SEEK, C_STAT, C_REMOVE, C_RENAME, C_OTHER, C_NCLASS };
static const char *class_names[] = { "openr", "openw", "read", "write", "close", "seek", "stat", "remove", "rename", "other" };
struct sticky { u32 cls, from; int err; u32 fired; };
struct jump { u32 k; i64 delta; };

#define MAXINO 4096
#define MAXFD 64
#define MAXFAULT 64
#define MAXPROC 8
#define MAXLOG 400000
#define DIRTAB 16384

struct logrec { u32 proc; u16 nr; u16 fault; i32 fd; i32 pathid; i64 a, b, ret; u64 h; };

enum { X_RUNNING, X_EXIT, X_SIGNAL, X_CRASH, X_BUDGET, X_CPU, X_HEAP };
struct proc {
	// plan
	char *argv[128]; int argc;
	char *env[64]; int nenv;
	char cwd[512];
	int outtype, errtype;
	u32 heap_mode; u64 heap_seed; u32 heap_fill;
	u64 stack_off, stack_seed;
	int pid;
	i64 clock_s, clock_ns, tick_ns;
	struct jump jumps[16]; int njump;
	struct fault faults[MAXFAULT]; int nfault;
	struct sticky stickies[8]; int nsticky;
	u32 allocfail[16]; int nallocfail; u32 allocsticky; u64 allocmax;
	int maxfd;
	u64 chunk_seed; u32 budget;
	// state
	struct fdent fds[MAXFD];
	u32 nsys, ntime; u64 nalloc, allocbytes, allocfired, chunkfired, quotafired, maxfdfired;
	u64 hash; i64 skew;
	u32 umask_;
	u64 rng;
	i64 outino, errino;
	int xkind, xcode; u64 xrip, xaddr;
	u64 unmodelled; i32 unmodelled_nr;
	i64 last_time;
	volatile u32 turn;       // 0: must wait, 1: may go
	volatile u32 waiting;    // 1: blocked at a scheduling point
	int real_pid;
};
struct shared {
	struct inode ino[MAXINO]; u32 nino;
	struct dent dent[MAXINO]; u32 ndent;
	i32 dtab[DIRTAB];
	struct proc p[MAXPROC]; int nproc; int multi;
	i64 quota;              // <0: unlimited
	volatile u32 parent_futex;
	u32 nlog; int logon;
	struct logrec log[MAXLOG];
	u64 arena_used, arena_size;
};
static struct shared *S;
static char *arena;         // data arena in shared memory, after struct shared
static int me;              // process number in the child
static int in_child;
static struct proc *P;

static inline u64 mix64(u64 x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdul; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ul; x ^= x >> 33; return x; }
static inline u64 rnd(u64 *s) { u64 z = (*s += 0x9e3779b97f4a7c15ul); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ul; z = (z ^ (z >> 27)) * 0x94d049bb133111ebul; return z ^ (z >> 31); }
static u64 hash_bytes(u64 h, const void *vp, u64 n) {
	const u8 *p = vp; u64 w;
	h ^= n * 0x9e3779b97f4a7c15ul;
	for (; n >= 8; n -= 8, p += 8) { memcpy(&w, p, 8); h = (h ^ w) * 0x9fb21c651e98df25ul; h ^= h >> 29; }
	w = 0; if (n) { memcpy(&w, p, n); h = (h ^ w) * 0x9fb21c651e98df25ul; h ^= h >> 29; }
	return mix64(h);
}

static void die(const char *msg) { dprintf(2, "simcc: %s (errno %d)\n", msg, errno); _exit(99); }

static void *arena_alloc(u64 n) {
	n = (n + 15) & ~15ul;
	if (S->arena_used + n > S->arena_size) return NULL;
	void *p = arena + S->arena_used; S->arena_used += n; return p;
}

// ---------------------------------------------------------------- allocator
// Interposes malloc and friends for the compiler and for libc.
struct hdr { u64 size; u32 magic, kind; u64 base; u64 span; };
#define HMAGIC 0x51a3c0deu
#define HFREED 0xdeadf4eeu
static char *par_cur, *par_end;
struct arena_ { u64 lo, hi; } arenas[NARENA];
static u64 fence_cur = FENCE_BASE; static u32 nfence, nalias;
static u64 hrng;
struct freeblk { struct freeblk *next; u64 size; };
static struct freeblk *freelists[64];
static void child_fatal(int kind, int code);

static int size_class(u64 n) { int c = 63 - __builtin_clzl(n | 16); return c; }

static void *parent_malloc(u64 n) {
	u64 need = (n + sizeof(struct hdr) + 31) & ~15ul;
	if (par_cur + need > par_end) {
		u64 chunk = need > (64ul << 20) ? need : (64ul << 20);
		par_cur = mmap(NULL, chunk, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (par_cur == MAP_FAILED) _exit(98);
		par_end = par_cur + chunk;
	}
	char *q = (char *)(((u64)par_cur + sizeof(struct hdr) + 15) & ~15ul);
	par_cur = q + n;
	par_cur = (char *)(((u64)par_cur + 15) & ~15ul);
	struct hdr h = { n, HMAGIC, 9, 0, 0 };
	memcpy(q - sizeof h, &h, sizeof h);
	return q;
}

static void fill(void *p, u64 n) {
	u64 v, *q; u8 *b = p;
	switch (P->heap_fill) {
	case 0: memset(p, 0, n); return;
	case 1: memset(p, 0xa5, n); return;
	case 2: memset(p, 0xff, n); return;
	case 3: memset(p, 1, n); return;
	case 5: return;         // whatever was there
	case 6: memset(p, '\n', n); return;
	case 7: memset(p, ';', n); return;
	}
	u64 s = hrng ^ n;
	for (q = (u64 *)b; n >= 8; n -= 8, q++) { v = rnd(&s); memcpy(q, &v, 8); }
	v = rnd(&s); memcpy(q, &v, n);
}

static void *child_malloc(u64 n, u64 align, int zero) {
	u64 idx = P->nalloc++;
	for (int i = 0; i < P->nallocfail; i++)
		if (P->allocfail[i] == idx) goto fail;
	if (P->allocsticky != ~0u && idx >= P->allocsticky) goto fail;
	if (P->allocmax && P->allocbytes + n > P->allocmax) goto fail;
	if (n > (1ul << 30) || P->allocbytes + n > (3ul << 30)) { errno = ENOMEM; return NULL; }
	if (idx > 60000000) child_fatal(X_BUDGET, 2);
	P->allocbytes += n;
	u64 mode = P->heap_mode;
	u8 *p = NULL; struct hdr h = { n, HMAGIC, 0, 0, 0 };
	if (align < 16) align = 16;
	if (mode == 3 && nfence < 12000 && align == 16 && n && n < (1 << 20) && rnd(&hrng) % 3 == 0) {
		u64 low = n & -n; if (low > 16) low = 16;
		u64 pages = (n + sizeof h + 4095) / 4096;
		u64 base = fence_cur; fence_cur += (pages + 1) * 4096;
		if (real_syscall(SYS_mmap, base, pages * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0) == (long)base) {
			nfence++;
			p = (u8 *)(base + pages * 4096 - n);
			h.kind = 3; h.base = base; h.span = pages * 4096;
			goto got;
		}
	}
	if (mode == 4 && nalias < 800 && align == 16 && n && n < (1 << 20) && rnd(&hrng) % (2 << P->heap_seed % 8) == 0) {
		u64 pages = 1 + (n + 4095) / 4096;
		u64 base = ALIAS_BASE + ((u64)nalias << 32) - 4096;
		if (real_syscall(SYS_mmap, base, pages * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0) == (long)base) {
			nalias++;
			p = (u8 *)(base + 4096);
			h.kind = 3; h.base = base; h.span = pages * 4096;
			goto got;
		}
	}
	int c = size_class(n + sizeof h);
	int big = n >= 2048;    // large blocks are always recycled, to bound the footprint
	if ((mode == 1 || big || (mode >= 2 && (rnd(&hrng) & 1))) && align == 16) {
		struct freeblk **pp = &freelists[c];
		for (int k = 0; *pp && k < 4; k++, pp = &(*pp)->next)
			if ((*pp)->size >= n) {
				p = (u8 *)*pp; h.span = (*pp)->size; h.kind = 1; *pp = (*pp)->next;
				goto got;
			}
	}
	u64 room = (n + 15) & ~15ul; if (!room) room = 16;
	if (big) { u64 step = (1ul << (63 - __builtin_clzl(n))) / 8; room = (room + step - 1) / step * step; }
	u64 pad = mode >= 2 ? (rnd(&hrng) & 3) * 16 : 0;
	int a = mode >= 2 ? rnd(&hrng) % NARENA : 0;
	struct arena_ *ar = &arenas[a];
	if (a & 1) {
		u64 q = ar->hi - room - pad; q &= ~(align - 1);
		p = (u8 *)q; ar->hi = q - sizeof h;
	} else {
		u64 q = ar->lo + sizeof h + pad; q = (q + align - 1) & ~(align - 1);
		p = (u8 *)q; ar->lo = q + room;
	}
	if (ar->lo + 65536 > ar->hi) { errno = ENOMEM; return NULL; }
	h.kind = 1; h.span = room;
got:
	memcpy(p - sizeof h, &h, sizeof h);
	if (zero) memset(p, 0, n); else fill(p, n);
	return p;
fail:
	P->allocfired++;
	errno = ENOMEM;
	return NULL;
}

void free(void *vp) {
	if (!vp) return;
	struct hdr h; u8 *p = vp;
	memcpy(&h, p - sizeof h, sizeof h);
	if (!in_child || h.kind == 9) return;
	if (h.magic != HMAGIC) child_fatal(X_HEAP, h.magic == HFREED ? 2 : 1);
	h.magic = HFREED; memcpy(p - sizeof h, &h, sizeof h);
	if (h.kind == 3) { P->allocbytes -= h.size; real_syscall(SYS_mprotect, h.base, h.span, PROT_NONE, 0, 0, 0); return; }
	if (P->heap_fill != 5) fill(p, h.size < 65536 ? h.size : 65536);
	P->allocbytes -= h.size;
	if ((P->heap_mode >= 1 || h.size >= 2048) && h.span >= 16) {
		struct freeblk *b = vp; int c = size_class(h.span + sizeof h);
		b->next = freelists[c]; b->size = h.span; freelists[c] = b;
	}
}
void *malloc(size_t n) { return in_child ? child_malloc(n, 16, 0) : parent_malloc(n); }
void *calloc(size_t a, size_t b) {
	u64 n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
	if (in_child) return child_malloc(n, 16, 1);
	void *p = parent_malloc(n); memset(p, 0, n); return p;
}
void *realloc(void *vp, size_t n) {
	if (!vp) return malloc(n);
	struct hdr h; memcpy(&h, (u8 *)vp - sizeof h, sizeof h);
	if (in_child && h.kind != 9 && h.magic != HMAGIC) child_fatal(X_HEAP, 3);
	if (in_child && n == 0) { free(vp); return NULL; }
	// sometimes shrink or grow in place, as allocators do
	if (in_child && h.kind == 1 && n <= h.span && (P->heap_mode == 1 || (h.size >= 2048 && n >= 2048 && (P->heap_mode < 2 || rnd(&hrng) % 16)) || (P->heap_mode >= 2 && (rnd(&hrng) & 1)))) {
		u64 idx = P->nalloc++;
		for (int i = 0; i < P->nallocfail; i++)
			if (P->allocfail[i] == idx) { P->allocfired++; errno = ENOMEM; return NULL; }
		if (P->allocsticky != ~0u && idx >= P->allocsticky) { P->allocfired++; errno = ENOMEM; return NULL; }
		if (n > h.size) fill((u8 *)vp + h.size, n - h.size);
		P->allocbytes += n - h.size;
		h.size = n; memcpy((u8 *)vp - sizeof h, &h, sizeof h);
		return vp;
	}
	void *q = malloc(n);
	if (!q) return NULL;
	memcpy(q, vp, h.size < n ? h.size : n);
	free(vp);
	return q;
}
void *memalign(size_t al, size_t n) { return in_child ? child_malloc(n, al, 0) : NULL; }
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **r, size_t al, size_t n) { void *p = memalign(al, n); if (!p) return ENOMEM; *r = p; return 0; }
void *valloc(size_t n) { return memalign(4096, n); }
void *pvalloc(size_t n) { return memalign(4096, (n + 4095) & ~4095ul); }
size_t malloc_usable_size(void *vp) { struct hdr h; if (!vp) return 0; memcpy(&h, (u8 *)vp - sizeof h, sizeof h); return h.size; }
void cfree(void *p) { free(p); }

// ---------------------------------------------------------------- simulated fs
static u64 hash_str(const char *s) { return hash_bytes(1, s, strlen(s)); }

static int dent_find(const char *path) {
	u64 h = hash_str(path);
	for (u32 i = h % DIRTAB;; i = (i + 1) % DIRTAB) {
		i32 d = S->dtab[i];
		if (d < 0) return -1;
		if (S->dent[d].h == h && strcmp(S->dent[d].path, path) == 0) return d;
	}
}
static int dent_add(const char *path, int copy) {       // finds or makes the entry
	int d = dent_find(path);
	if (d >= 0) return d;
	if (S->ndent >= MAXINO) return -1;
	const char *s = path;
	if (copy) { char *c = arena_alloc(strlen(path) + 1); if (!c) return -1; strcpy(c, path); s = c; }
	u64 h = hash_str(path);
	d = S->ndent++;
	S->dent[d] = (struct dent){ s, h, -1 };
	u32 i = h % DIRTAB; while (S->dtab[i] >= 0) i = (i + 1) % DIRTAB;
	S->dtab[i] = d;
	return d;
}
static i64 ino_new(int type, int mode) {
	if (S->nino >= MAXINO) return -1;
	i64 i = S->nino++;
	S->ino[i] = (struct inode){ .type = type, .mode = mode, .nlink = 1 };
	return i;
}
static int ino_reserve(struct inode *n, u64 cap) {      // makes data writable with at least cap bytes
	if (n->owned && n->cap >= cap) return 0;
	u64 nc = n->cap * 2; if (nc < cap) nc = cap; if (nc < 4096) nc = 4096;
	u8 *d = arena_alloc(nc); if (!d) return -1;
	if (n->size) memcpy(d, n->data, n->size);
	n->data = d; n->cap = nc; n->owned = 1;
	return 0;
}

static int normalise(const char *path, char *out) {     // absolute, no . .. //; 0 or errno
	char tmp[1400]; u64 l = strlen(path);
	if (!l) return ENOENT;
	if (l > 800) return ENAMETOOLONG;
	if (path[0] == '/') strcpy(tmp, path);
	else { strcpy(tmp, P->cwd); strcat(tmp, "/"); strcat(tmp, path); }
	u64 o = 0; char *s = tmp; int dirwanted = l && path[l - 1] == '/';
	while (*s) {
		while (*s == '/') s++;
		if (!*s) break;
		char *e = s; while (*e && *e != '/') e++;
		u64 n = e - s;
		if (n > 255) return ENAMETOOLONG;
		if (s[0] == '.' && (n == 1 || (n == 2 && s[1] == '.')) && o) { // only a directory has . and ..
			out[o] = 0; int d = dent_find(out);
			if (d < 0 || S->dent[d].ino < 0) return ENOENT;
			if (S->ino[S->dent[d].ino].type != T_DIR) return ENOTDIR;
		}
		if (n == 1 && s[0] == '.') ;
		else if (n == 2 && s[0] == '.' && s[1] == '.') { while (o && out[--o] != '/') ; }
		else { // the directory so far must exist
			if (o) { out[o] = 0; int d = dent_find(out); if (d < 0 || S->dent[d].ino < 0) return ENOENT; if (S->ino[S->dent[d].ino].type != T_DIR) return ENOTDIR; }
			out[o++] = '/'; memcpy(out + o, s, n); o += n;
		}
		s = e;
	}
	if (!o) out[o++] = '/';
	out[o] = 0;
	if (dirwanted) { int d = dent_find(out); if (d >= 0 && S->dent[d].ino >= 0 && S->ino[S->dent[d].ino].type != T_DIR) return ENOTDIR; }
	return 0;
}

static struct logrec *logadd(int nr, int fd, int pathid, i64 a, i64 b, i64 ret, u64 h, int fault) {
	P->hash = hash_bytes(P->hash, (i64[]){ nr, fd, pathid, a, b, ret, h, fault }, 64);
	if (S->nlog >= MAXLOG) return NULL;
	struct logrec *r = &S->log[S->nlog++];
	*r = (struct logrec){ me, nr, fault, fd, pathid, a, b, ret, h };
	return r;
}

static void futex_wake(volatile u32 *f) { real_syscall(SYS_futex, (long)f, FUTEX_WAKE, 16, 0, 0, 0); }
static void child_exit_real(void) {
	__atomic_store_n(&P->waiting, 2, __ATOMIC_SEQ_CST);
	__atomic_add_fetch(&S->parent_futex, 1, __ATOMIC_SEQ_CST);
	futex_wake(&S->parent_futex);
	for (;;) real_syscall(SYS_exit_group, 0, 0, 0, 0, 0, 0);
}
static void child_fatal(int kind, int code) { P->xkind = kind; P->xcode = code; child_exit_real(); }

static void sched_point(void) {
	if (!S->multi) return;
	P->turn = 0;
	__atomic_store_n(&P->waiting, 1, __ATOMIC_SEQ_CST);
	__atomic_add_fetch(&S->parent_futex, 1, __ATOMIC_SEQ_CST);
	futex_wake(&S->parent_futex);
	while (!__atomic_load_n(&P->turn, __ATOMIC_SEQ_CST))
		real_syscall(SYS_futex, (long)&P->turn, FUTEX_WAIT, 0, 0, 0, 0);
}

static i64 sim_now_ns(void) {
	return P->clock_s * 1000000000l + P->clock_ns + (i64)P->nsys * P->tick_ns + P->skew;
}
static i64 clock_read(void) {
	P->ntime++;
	for (int i = 0; i < P->njump; i++) if (P->jumps[i].k == P->ntime) P->skew += P->jumps[i].delta * 1000000000l;
	i64 t = sim_now_ns();
	P->last_time = t;
	return t;
}
static i64 floordiv(i64 a, i64 b) { i64 q = a / b; if (a % b < 0) q--; return q; }
static int clock_logged(struct timespec *ts) {
	if (!in_child) { ts->tv_sec = 0; ts->tv_nsec = 0; return 0; }
	i64 t = clock_read();
	ts->tv_sec = floordiv(t, 1000000000l); ts->tv_nsec = t - ts->tv_sec * 1000000000l;
	logadd(SYS_clock_gettime, -1, -1, ts->tv_sec, ts->tv_nsec, 0, 0, 0);
	return 0;
}
time_t time(time_t *t) { struct timespec ts; clock_logged(&ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
int clock_gettime(clockid_t c, struct timespec *ts) { (void)c; return clock_logged(ts); }
int gettimeofday(struct timeval *restrict tv, void *restrict tz) { (void)tz; struct timespec ts; clock_logged(&ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
int timespec_get(struct timespec *ts, int base) { clock_logged(ts); return base; }
clock_t clock(void) { struct timespec ts; clock_logged(&ts); return (clock_t)(P->nsys * 10); }

static int fd_alloc(int min) {
	int lim = P->maxfd ? P->maxfd : MAXFD;
	for (int i = min; i < lim; i++) if (!P->fds[i].used) return i;
	if (P->maxfd) P->maxfdfired++;
	return -1;
}
static struct fdent *fd_get(int fd) { return fd >= 0 && fd < MAXFD && P->fds[fd].used ? &P->fds[fd] : NULL; }

static void fill_stat(struct stat *st, i64 ino) {
	struct inode *n = &S->ino[ino];
	memset(st, 0, sizeof *st);
	st->st_ino = ino + 100; st->st_nlink = n->nlink; st->st_dev = 1; st->st_blksize = 4096;
	static const mode_t m[] = { 0, S_IFREG, S_IFDIR, S_IFCHR, S_IFCHR, S_IFIFO, S_IFCHR };
	st->st_mode = m[n->type] | n->mode;
	st->st_size = n->type == T_FILE ? (i64)n->size : n->type == T_DIR ? 4096 : 0;
	st->st_blocks = (st->st_size + 511) / 512;
	if (n->type == T_NULL) st->st_rdev = 0x103;
	if (n->type == T_FULL) st->st_rdev = 0x107;
	if (n->type == T_TTY) st->st_rdev = 0x8800;
	st->st_mtim.tv_sec = st->st_ctim.tv_sec = st->st_atim.tv_sec = 1600000000;
}
static void stat_to_statx(struct statx *x, struct stat *st) {
	memset(x, 0, sizeof *x);
	x->stx_mask = STATX_BASIC_STATS; x->stx_blksize = st->st_blksize; x->stx_nlink = st->st_nlink; x->stx_mode = st->st_mode;
	x->stx_ino = st->st_ino; x->stx_size = st->st_size; x->stx_blocks = st->st_blocks; x->stx_mtime.tv_sec = st->st_mtim.tv_sec;
}

// Reads or writes at *off; the caller has applied the limit of the fault.
static i64 do_read(struct fdent *f, u8 *buf, u64 n, u64 off) {
	struct inode *in = &S->ino[f->ino];
	if (in->type == T_DIR) return -EISDIR;
	if ((f->flags & O_ACCMODE) == O_WRONLY) return -EBADF;
	if (in->type == T_FULL) { memset(buf, 0, n); return n; }
	if (in->type != T_FILE) return 0;
	u64 size = in->size;
	if (off >= size) return 0;
	if (n > size - off) n = size - off;
	memcpy(buf, in->data + off, n);
	return n;
}
static i64 do_write(struct fdent *f, const u8 *buf, u64 n, u64 off) {
	struct inode *in = &S->ino[f->ino];
	if ((f->flags & O_ACCMODE) == O_RDONLY) return -EBADF;
	if (in->type == T_NULL) return n;
	if (in->type == T_FULL) return n ? -ENOSPC : 0;
	if (in->type == T_DIR) return -EISDIR;
	if (in->type == T_PIPE || in->type == T_TTY) off = in->size;
	if (off > (48ul << 20) || n > (48ul << 20)) return -EFBIG;
	u64 end = off + n;
	if (S->quota >= 0 && in->type == T_FILE && end > in->size) {
		i64 grow = end - in->size;
		if (grow > S->quota) {
			P->quotafired++;
			i64 cut = grow - S->quota;
			if ((u64)cut >= n) return -ENOSPC;
			n -= cut; end -= cut; grow = S->quota;
		}
		S->quota -= grow;
	}
	if (ino_reserve(in, end)) return -ENOSPC;
	u8 *d = (u8 *)in->data;
	if (off > in->size) memset(d + in->size, 0, off - in->size);
	memcpy(d + off, buf, n);
	if (end > in->size) in->size = end;
	in->written += n;
	f->wrote = 1;
	return n;
}
static i64 do_truncate(i64 ino, u64 size) {
	struct inode *in = &S->ino[ino];
	if (in->type == T_DIR) return -EISDIR;
	if (in->type != T_FILE) return 0;
	if (size > (48ul << 20)) return -EFBIG;
	if (size <= in->size) {
		if (S->quota >= 0) S->quota += in->size - size;
		if (size == 0) { in->data = NULL; in->cap = 0; in->owned = 0; }
		in->size = size;
		return 0;
	}
	if (ino_reserve(in, size)) return -ENOSPC;
	memset((u8 *)in->data + in->size, 0, size - in->size);
	in->size = size;
	return 0;
}

static i64 do_open(const char *path, int flags, int mode, int *pathid) {
	char norm[1600];
	*pathid = -1;
	int e = normalise(path, norm);
	if (e) { int d = dent_add(e == ENAMETOOLONG ? "<long>" : path, 1); *pathid = d; return -e; }
	int d = dent_add(norm, 1);
	*pathid = d;
	if (d < 0) return -ENOSPC;
	int acc = flags & O_ACCMODE;
	int fd = fd_alloc(0);
	if (fd < 0) return -EMFILE;
	if (S->dent[d].ino < 0) {
		if (!(flags & O_CREAT)) return -ENOENT;
		// the parent directory must be writable
		char par[1600]; strcpy(par, norm); char *s = strrchr(par, '/'); if (s == par) s[1] = 0; else *s = 0;
		int pd = dent_find(par);
		if (pd < 0 || S->dent[pd].ino < 0) return -ENOENT;
		if (!(S->ino[S->dent[pd].ino].mode & 0200)) return -EACCES;
		i64 ino = ino_new(T_FILE, mode & 0777 & ~P->umask_);
		if (ino < 0) return -ENOSPC;
		S->dent[d].ino = ino;
	} else {
		struct inode *in = &S->ino[S->dent[d].ino];
		if ((flags & (O_CREAT | O_EXCL)) == (O_CREAT | O_EXCL)) return -EEXIST;
		if (in->type == T_DIR && (acc != O_RDONLY || (flags & O_CREAT))) return -EISDIR;
		if ((flags & O_DIRECTORY) && in->type != T_DIR) return -ENOTDIR;
		if (acc != O_WRONLY && !(in->mode & 0400)) return -EACCES;
		if (acc != O_RDONLY && !(in->mode & 0200)) return -EACCES;
		if (flags & O_TRUNC) do_truncate(S->dent[d].ino, 0);
	}
	P->fds[fd] = (struct fdent){ S->dent[d].ino, 0, -1, flags, 1, 0 };
	return fd;
}

// What the compiler's own calls of getenv see. With SIM_ENVSEED in the simulated
// environment, any variable somebody might have set is set, or not, to something.
char *sim_getenv(const char *name) {
	size_t n = strlen(name);
	const char *seed = NULL;
	for (char **e = environ; e && *e; e++) {
		if (strncmp(*e, name, n) == 0 && (*e)[n] == '=') return *e + n + 1;
		if (strncmp(*e, "SIM_ENVSEED=", 12) == 0) seed = *e + 12;
	}
	if (!seed || strcmp(name, "TZ") == 0) return NULL;
	u64 h = 1469598103934665603ull;
	for (const char *c = seed; *c; c++) h = (h ^ (u8)*c) * 1099511628211ull;
	for (const char *c = name; *c; c++) h = (h ^ (u8)*c) * 1099511628211ull;
	h ^= h >> 29; h *= 0x9e3779b97f4a7c15ull; h ^= h >> 32;
	static char *values[] = { "", "1", "0", "yes", "/w", "/w/inc", "-1", "all", "x y", "/nonexistent", ":", "100000" };
	return h % 5 < 2 ? NULL : values[(h >> 8) % (sizeof values / sizeof *values)];
}

static i64 do_remove(const char *path, int rmdir, int *pathid) {
	char norm[1600]; int e = normalise(path, norm);
	*pathid = -1;
	if (e) return -e;
	int d = dent_find(norm); *pathid = d;
	if (d < 0 || S->dent[d].ino < 0) return -ENOENT;
	struct inode *in = &S->ino[S->dent[d].ino];
	if (rmdir) { if (in->type != T_DIR) return -ENOTDIR; }
	else if (in->type == T_DIR) return -EISDIR;
	in->nlink = 0; S->dent[d].ino = -1;
	return 0;
}
static i64 do_rename(const char *from, const char *to, int *p1, int *p2) {
	char a[1600], b[1600]; int e;
	*p1 = *p2 = -1;
	if ((e = normalise(from, a)) || (e = normalise(to, b))) return -e;
	int da = dent_find(a); *p1 = da;
	if (da < 0 || S->dent[da].ino < 0) return -ENOENT;
	int db = dent_add(b, 1); *p2 = db;
	if (db < 0) return -ENOSPC;
	if (S->dent[db].ino >= 0 && S->ino[S->dent[db].ino].type == T_DIR) return -EISDIR;
	if (S->ino[S->dent[da].ino].type == T_DIR) return -EINVAL;
	if (da == db) return 0;
	S->dent[db].ino = S->dent[da].ino; S->dent[da].ino = -1;
	return 0;
}

static int syscall_class(long nr, long a1, long a2) {
	switch (nr) {
	case SYS_open: return (a2 & O_ACCMODE) == O_RDONLY ? C_OPENR : C_OPENW;
	case SYS_openat: (void)a1; return -2;
	case SYS_creat: return C_OPENW;
	case SYS_read: case SYS_readv: case SYS_pread64: return C_READ;
	case SYS_write: case SYS_writev: case SYS_pwrite64: return C_WRITE;
	case SYS_close: return C_CLOSE;
	case SYS_lseek: return C_SEEK;
	case SYS_stat: case SYS_fstat: case SYS_lstat: case SYS_newfstatat: case SYS_statx: case SYS_access: case SYS_faccessat: case SYS_faccessat2: return C_STAT;
	case SYS_unlink: case SYS_unlinkat: case SYS_rmdir: case SYS_ftruncate: case SYS_truncate: return C_REMOVE;
	case SYS_rename: case SYS_renameat: case SYS_renameat2: return C_RENAME;
	}
	return C_OTHER;
}

static u64 mmap_cur = MMAP_BASE;

static i64 emulate(long nr, long a1, long a2, long a3, long a4, long a5, long a6) {
	(void)a5; (void)a6;
	// housekeeping calls that go straight through and are not numbered
	switch (nr) {
	case SYS_rt_sigprocmask: if (a3) memset((void *)a3, 0, a4 > 128 ? 8 : a4); return 0;
	case SYS_rt_sigaction: if (a1 == SIGSYS || a1 == SIGSEGV || a1 == SIGBUS) return 0;
		return real_syscall(nr, a1, a2, a3, a4, a5, a6);
	case SYS_sigaltstack: case SYS_set_robust_list: case SYS_rseq: case SYS_set_tid_address:
		return real_syscall(nr, a1, a2, a3, a4, a5, a6);
	case SYS_gettid: case SYS_getpid: return P->pid;
	case SYS_getppid: return 1;
	case SYS_getuid: case SYS_geteuid: case SYS_getgid: case SYS_getegid: return 1000;
	case SYS_tgkill: case SYS_tkill: case SYS_kill: {
		int sig = nr == SYS_tgkill ? a3 : a2;
		if (nr == SYS_kill && a1 != P->pid && a1 != 0) return -ESRCH;
		struct { u64 handler, flags, restorer, mask; } sa = { 0, 0, 0, 0 };
		if (sig == 0) return 0;
		real_syscall(SYS_rt_sigaction, sig, 0, (long)&sa, 8, 0, 0);
		if (sa.handler == (u64)SIG_IGN) return 0;
		if (sa.handler == (u64)SIG_DFL || sig == SIGSEGV || sig == SIGABRT) child_fatal(X_SIGNAL, sig);
		return real_syscall(SYS_tgkill, real_syscall(SYS_getpid, 0, 0, 0, 0, 0, 0), real_syscall(SYS_gettid, 0, 0, 0, 0, 0, 0), sig, 0, 0, 0);
	}
	case SYS_futex: case SYS_madvise: return 0;
	case SYS_munmap: real_syscall(SYS_munmap, a1, a2, 0, 0, 0, 0); return 0;
	case SYS_mprotect: return 0;
	case SYS_brk: return 0;
	}
	sched_point();
	u32 idx = P->nsys++;
	if (idx >= P->budget) child_fatal(X_BUDGET, 1);

	int cls = nr == SYS_openat ? ((a3 & O_ACCMODE) == O_RDONLY ? C_OPENR : C_OPENW) : syscall_class(nr, a1, a2);
	struct fault *ft = NULL;
	for (int i = 0; i < P->nfault; i++) if (P->faults[i].idx == idx) ft = &P->faults[i];
	int fk = ft ? ft->kind : 0; i64 fa = ft ? ft->a : 0, fb = ft ? ft->b : 0;
	for (int i = 0; i < P->nsticky && !fk; i++)
		if (idx >= P->stickies[i].from && P->stickies[i].cls == (u32)cls && !(cls == C_WRITE && (a1 == 1 || a1 == 2))) { fk = K_ERR; fa = P->stickies[i].err; P->stickies[i].fired++; }
	if (fk == K_CRASH && cls != C_WRITE) { ft->fired++; child_fatal(X_CRASH, 0); }
	if (fk == K_SHORT && cls != C_READ && cls != C_WRITE) fk = 0;
	if (fk == K_TRUNC && cls != C_READ) fk = 0;
	if (fk == K_LOSE && cls != C_CLOSE) fk = K_ERR;
	int pathid = -1, fd = -1; i64 la = 0, lb = 0, ret; u64 dh = 0;
	struct fdent *f; char norm[1600]; int e;
	struct stat st;

	switch (nr) {
	case SYS_open: case SYS_creat: case SYS_openat: {
		const char *path = (const char *)(nr == SYS_openat ? a2 : a1);
		int flags = nr == SYS_openat ? a3 : nr == SYS_open ? a2 : (O_CREAT | O_WRONLY | O_TRUNC);
		int mode = nr == SYS_openat ? a4 : nr == SYS_open ? a3 : a2;
		la = flags & (O_ACCMODE | O_CREAT | O_TRUNC | O_EXCL | O_APPEND);
		if (fk == K_ERR) { if (!normalise(path, norm)) pathid = dent_add(norm, 1); ret = -fa; }
		else { ret = do_open(path, flags, mode, &pathid); fk = 0; }
		break; }
	case SYS_close:
		fd = a1; f = fd_get(fd);
		if (!f) { ret = -EBADF; fk = 0; break; }
		f->used = 0; ret = 0;
		if (fk == K_LOSE) {     // write-back failed: only the first fb bytes reached the store
			struct inode *in = &S->ino[f->ino];
			if (in->type == T_FILE && f->wrote) { if ((u64)fb < in->size) in->size = fb; ret = -fa; }
			else { fk = 0; }
		} else if (fk == K_ERR) ret = -fa;
		break;
	case SYS_read: case SYS_pread64: case SYS_readv: {
		fd = a1; f = fd_get(fd);
		if (!f) { ret = -EBADF; fk = 0; break; }
		if (fk == K_ERR) { ret = -fa; break; }
		struct inode *in = &S->ino[f->ino];
		if (fk == K_TRUNC) {    // someone truncates the file behind our back
			if (in->type == T_FILE) { u64 to = f->off + fa; if (to < in->size) in->size = to; else fk = 0; }
		}
		struct iovec one = { (void *)a2, a3 }, *iov = nr == SYS_readv ? (struct iovec *)a2 : &one;
		int cnt = nr == SYS_readv ? a3 : 1;
		u64 lim = ~0ul; if (fk == K_SHORT) lim = fa < 1 ? 1 : fa;
		if (P->chunk_seed && in->type == T_FILE && rnd(&P->rng) % 2) { lim = 1 + rnd(&P->rng) % 700; P->chunkfired++; }
		u64 off = nr == SYS_pread64 ? (u64)a4 : f->off; la = off; ret = 0;
		for (int i = 0; i < cnt && lim; i++) {
			u64 n = iov[i].iov_len < lim ? iov[i].iov_len : lim;
			i64 r = do_read(f, iov[i].iov_base, n, off + ret);
			if (r < 0) { if (!ret) ret = r; break; }
			ret += r; lim -= r; lb += iov[i].iov_len;
			if ((u64)r < iov[i].iov_len) break;
		}
		if (ret > 0 && nr != SYS_pread64) f->off += ret;
		break; }
	case SYS_write: case SYS_pwrite64: case SYS_writev: {
		fd = a1; f = fd_get(fd);
		if (!f) { ret = -EBADF; fk = 0; break; }
		if (fk == K_ERR) { ret = -fa; break; }
		struct inode *in = &S->ino[f->ino];
		struct iovec one = { (void *)a2, a3 }, *iov = nr == SYS_writev ? (struct iovec *)a2 : &one;
		int cnt = nr == SYS_writev ? a3 : 1;
		u64 lim = ~0ul; if (fk == K_SHORT) lim = fa < 1 ? 1 : fa;
		if (fk == K_CRASH) lim = fa;
		if (P->chunk_seed && in->type != T_NULL && rnd(&P->rng) % 2) { lim = 1 + rnd(&P->rng) % 700; P->chunkfired++; }
		if (f->flags & O_APPEND) f->off = in->size;
		u64 off = nr == SYS_pwrite64 ? (u64)a4 : f->off; la = off; ret = 0;
		for (int i = 0; i < cnt; i++) {
			lb += iov[i].iov_len;
			u64 n = iov[i].iov_len < lim ? iov[i].iov_len : lim;
			if (!n) { if (lim == 0) break; continue; }
			dh = hash_bytes(dh, iov[i].iov_base, n);
			i64 r = do_write(f, iov[i].iov_base, n, off + ret);
			if (r < 0) { if (!ret) ret = r; break; }
			ret += r; lim -= r;
			if ((u64)r < iov[i].iov_len) break;
		}
		if (ret > 0 && nr != SYS_pwrite64) f->off += ret;
		if (fk == K_CRASH) { ft->fired++; logadd(nr, fd, -1, la, lb, ret, dh, fk); child_fatal(X_CRASH, 0); }
		break; }
	case SYS_lseek: {
		fd = a1; f = fd_get(fd); la = a2; lb = a3;
		if (!f) { ret = -EBADF; fk = 0; break; }
		struct inode *in = &S->ino[f->ino];
		if (fk == K_ERR) { ret = -fa; break; }
		if (in->type == T_PIPE || in->type == T_TTY) { ret = -ESPIPE; break; }
		i64 base = a3 == SEEK_SET ? 0 : a3 == SEEK_CUR ? (i64)f->off : (i64)in->size;
		if (in->type == T_DIR && a3 == SEEK_END) base = 0x7fffffffffffffff;
		if (in->type == T_NULL || in->type == T_FULL) { ret = 0; break; }
		i64 to = base + a2;
		if (to < 0) { ret = -EINVAL; break; }
		f->off = to; ret = to;
		break; }
	case SYS_fstat:
		fd = a1; f = fd_get(fd);
		if (!f) { ret = -EBADF; fk = 0; break; }
		if (fk == K_ERR) { ret = -fa; break; }
		fill_stat((struct stat *)a2, f->ino); ret = 0;
		break;
	case SYS_stat: case SYS_lstat: case SYS_newfstatat: case SYS_statx: {
		const char *path = (const char *)(nr == SYS_newfstatat || nr == SYS_statx ? a2 : a1);
		i64 ino = -1;
		if (fk == K_ERR) { ret = -fa; break; }
		if ((nr == SYS_newfstatat || nr == SYS_statx) && (!path || !*path)) {
			fd = a1; f = fd_get(fd);
			if (!f) { ret = -EBADF; fk = 0; break; }
			ino = f->ino;
		} else {
			e = normalise(path, norm);
			if (e) { ret = -e; break; }
			pathid = dent_add(norm, 1);
			if (pathid < 0 || S->dent[pathid].ino < 0) { ret = -ENOENT; break; }
			ino = S->dent[pathid].ino;
		}
		ret = 0;
		if (nr == SYS_statx) { fill_stat(&st, ino); stat_to_statx((struct statx *)a5, &st); }
		else fill_stat((struct stat *)(nr == SYS_newfstatat ? a3 : a2), ino);
		break; }
	case SYS_access: case SYS_faccessat: case SYS_faccessat2: {
		const char *path = (const char *)(nr == SYS_access ? a1 : a2); int m = nr == SYS_access ? a2 : a3;
		if (fk == K_ERR) { ret = -fa; break; }
		e = normalise(path, norm);
		if (e) { ret = -e; break; }
		pathid = dent_add(norm, 1); la = m;
		if (pathid < 0 || S->dent[pathid].ino < 0) { ret = -ENOENT; break; }
		struct inode *in = &S->ino[S->dent[pathid].ino];
		ret = ((m & R_OK) && !(in->mode & 0400)) || ((m & W_OK) && !(in->mode & 0200)) || ((m & X_OK) && !(in->mode & 0100)) ? -EACCES : 0;
		break; }
	case SYS_unlink: case SYS_rmdir:
		if (fk == K_ERR) { if (!normalise((char *)a1, norm)) pathid = dent_add(norm, 1); ret = -fa; break; }
		ret = do_remove((char *)a1, nr == SYS_rmdir, &pathid); break;
	case SYS_unlinkat:
		if (fk == K_ERR) { if (!normalise((char *)a2, norm)) pathid = dent_add(norm, 1); ret = -fa; break; }
		ret = do_remove((char *)a2, a3 & AT_REMOVEDIR, &pathid); break;
	case SYS_rename: case SYS_renameat: case SYS_renameat2: {
		int at = nr != SYS_rename, p2;
		const char *x = (const char *)(at ? a2 : a1), *y = (const char *)(at ? a4 : a2);
		if (fk == K_ERR) { if (!normalise(x, norm)) pathid = dent_add(norm, 1); ret = -fa; break; }
		if (nr == SYS_renameat2 && a5) { ret = -EINVAL; break; }
		ret = do_rename(x, y, &pathid, &p2); la = p2;
		break; }
	case SYS_ftruncate:
		fd = a1; f = fd_get(fd); la = a2;
		if (!f) { ret = -EBADF; break; }
		if (fk == K_ERR) { ret = -fa; break; }
		ret = do_truncate(f->ino, a2); break;
	case SYS_truncate:
		if (fk == K_ERR) { ret = -fa; break; }
		e = normalise((char *)a1, norm);
		if (e) { ret = -e; break; }
		pathid = dent_find(norm); la = a2;
		if (pathid < 0 || S->dent[pathid].ino < 0) { ret = -ENOENT; break; }
		ret = do_truncate(S->dent[pathid].ino, a2); break;
	case SYS_mkdir: case SYS_mkdirat: {
		const char *path = (const char *)(nr == SYS_mkdir ? a1 : a2);
		if (fk == K_ERR) { ret = -fa; break; }
		e = normalise(path, norm);
		if (e) { ret = -e; break; }
		pathid = dent_add(norm, 1);
		if (pathid < 0) { ret = -ENOSPC; break; }
		if (S->dent[pathid].ino >= 0) { ret = -EEXIST; break; }
		i64 ino = ino_new(T_DIR, 0755); S->dent[pathid].ino = ino; ret = ino < 0 ? -ENOSPC : 0;
		break; }
	case SYS_fsync: case SYS_fdatasync: case SYS_sync: case SYS_syncfs:
		fd = a1; ret = fk == K_ERR ? -fa : 0; break;
	case SYS_flock: case SYS_fadvise64: case SYS_chmod: case SYS_fchmod: case SYS_fchmodat: case SYS_utimensat: case SYS_fchown: case SYS_chown: {
		ret = 0;
		if (nr == SYS_fchmod && (f = fd_get(a1))) S->ino[f->ino].mode = a2 & 0777;
		if (nr == SYS_chmod || nr == SYS_fchmodat) {
			e = normalise((char *)(nr == SYS_chmod ? a1 : a2), norm);
			int d = e ? -1 : dent_find(norm);
			if (d < 0 || S->dent[d].ino < 0) ret = -ENOENT; else S->ino[S->dent[d].ino].mode = (nr == SYS_chmod ? a2 : a3) & 0777;
		}
		if (fk == K_ERR) ret = -fa;
		break; }
	case SYS_umask: ret = P->umask_; P->umask_ = a1 & 0777; fk = 0; break;
	case SYS_fcntl:
		fd = a1; f = fd_get(fd); la = a2; fk = 0;
		if (!f) { ret = -EBADF; break; }
		switch (a2) {
		case F_GETFL: ret = f->flags; break;
		case F_DUPFD: case F_DUPFD_CLOEXEC: ret = fd_alloc(a3); if (ret < 0) ret = -EMFILE; else P->fds[ret] = *f; break;
		default: ret = 0;
		}
		break;
	case SYS_dup:
		fd = a1; f = fd_get(fd); fk = 0;
		if (!f) { ret = -EBADF; break; }
		ret = fd_alloc(0); if (ret < 0) ret = -EMFILE; else P->fds[ret] = *f;
		break;
	case SYS_dup2: case SYS_dup3:
		fd = a1; f = fd_get(fd); fk = 0; la = a2;
		if (!f || a2 < 0 || a2 >= MAXFD) { ret = -EBADF; break; }
		P->fds[a2] = *f; ret = a2;
		break;
	case SYS_ioctl:
		fd = a1; f = fd_get(fd); la = a2; fk = 0;
		if (!f) { ret = -EBADF; break; }
		if (S->ino[f->ino].type == T_TTY && a2 == 0x5401) { memset((void *)a3, 0, 36); ret = 0; }
		else ret = -ENOTTY;
		break;
	case SYS_getcwd: fk = 0; if ((u64)a2 < strlen(P->cwd) + 1) ret = -ERANGE; else { strcpy((char *)a1, P->cwd); ret = strlen(P->cwd) + 1; } break;
	case SYS_chdir:
		if (fk == K_ERR) { ret = -fa; break; }
		e = normalise((char *)a1, norm);
		if (e) { ret = -e; break; }
		pathid = dent_find(norm);
		if (pathid < 0 || S->dent[pathid].ino < 0) { ret = -ENOENT; break; }
		strcpy(P->cwd, norm); ret = 0; break;
	case SYS_readlink: case SYS_readlinkat: fk = 0; ret = -EINVAL; break;
	case SYS_getrandom: fk = 0; for (long i = 0; i < a2; i++) ((u8 *)a1)[i] = rnd(&P->rng); ret = a2; break;
	case SYS_mmap: {
		u64 len = (a2 + 4095) & ~4095ul; i64 r;
		if (fk == K_ERR) { ret = -fa; break; }
		if (!(a4 & MAP_ANONYMOUS)) {
			fd = a5; f = fd_get(fd);
			if (!f) { ret = -EBADF; break; }
		} else f = NULL;
		if (len == 0 || len > (1ul << 31)) { ret = -ENOMEM; break; }
		u64 at = mmap_cur; mmap_cur += len + 4096;
		r = real_syscall(SYS_mmap, at, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
		if (r < 0) { ret = -ENOMEM; break; }
		if (f) { struct inode *in = &S->ino[f->ino]; u64 off = a6; if (in->type == T_FILE && off < in->size) { u64 n = in->size - off; if (n > (u64)a2) n = a2; memcpy((void *)r, in->data + off, n); lb = n; } la = off; }
		logadd(nr, fd, -1, la, lb, 0, a2, fk);
		return r; }
	case SYS_clock_gettime: { struct timespec *ts = (void *)a2; i64 t = clock_read(); ts->tv_sec = floordiv(t, 1000000000l); ts->tv_nsec = t - ts->tv_sec * 1000000000l; la = ts->tv_sec; lb = ts->tv_nsec; ret = 0; fk = 0; break; }
	case SYS_gettimeofday: { struct timeval *tv = (void *)a1; i64 t = clock_read(); tv->tv_sec = floordiv(t, 1000000000l); tv->tv_usec = (t - tv->tv_sec * 1000000000l) / 1000; la = tv->tv_sec; ret = 0; fk = 0; break; }
	case SYS_time: { i64 t = floordiv(clock_read(), 1000000000l); if (a1) *(time_t *)a1 = t; la = t; ret = t; fk = 0; break; }
	case SYS_nanosleep: { struct timespec *ts = (void *)a1; P->skew += ts->tv_sec * 1000000000l + ts->tv_nsec; ret = 0; break; }
	case SYS_clock_nanosleep: { struct timespec *ts = (void *)a3; P->skew += ts->tv_sec * 1000000000l + ts->tv_nsec; ret = 0; break; }
	case SYS_sched_yield: ret = 0; break;
	case SYS_prlimit64: case SYS_getrlimit: case SYS_sysinfo: case SYS_uname: case SYS_getrusage: ret = real_syscall(nr, a1, a2, a3, a4, a5, a6); break;
	case SYS_exit: case SYS_exit_group:
		logadd(SYS_exit_group, -1, -1, a1 & 0xff, 0, 0, 0, 0);
		child_fatal(X_EXIT, a1 & 0xff);
		return 0;
	default:
		P->unmodelled++; P->unmodelled_nr = nr; fk = 0;
		ret = -ENOSYS;
	}
	if (fk == K_SHORT && !(ret > 0 && ret < lb)) fk = 0;
	if (fk && ft) ft->fired++;
	logadd(nr, fd, pathid, la, lb, ret, dh, fk);
	return ret;
}

static void on_sigsys(int sig, siginfo_t *si, void *uc_) {
	(void)sig; (void)si;
	ucontext_t *uc = uc_;
	greg_t *g = uc->uc_mcontext.gregs;
	int e = errno;
	g[REG_RAX] = emulate(g[REG_RAX], g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]);
	errno = e;
}
static void on_fatal(int sig, siginfo_t *si, void *uc_) {
	ucontext_t *uc = uc_;
	P->xrip = uc->uc_mcontext.gregs[REG_RIP];
	P->xaddr = (u64)si->si_addr;
	child_fatal(sig == SIGXCPU || sig == SIGPROF ? X_CPU : X_SIGNAL, sig);
}

// ---------------------------------------------------------------- child start
static int child_argc; static char **child_argv;
static void __attribute__((noreturn, used)) child_entry(void) {
	exit(cc_main(child_argc, child_argv));
}

static void child_run(int i) {
	me = i; P = &S->p[i];
	hrng = P->heap_seed * 2654435761ul + 12345;
	for (int a = 0; a < NARENA; a++) {
		u64 b = HEAP_BASE + a * HEAP_ARENA;
		u64 off = P->heap_mode ? (rnd(&hrng) & 0xffff) * 4096 : 0;
		arenas[a].lo = b + off; arenas[a].hi = b + HEAP_ARENA - off - 4096;
	}
	P->rng = P->chunk_seed ^ 0x1234567 ^ P->heap_seed;
	// stack
	u64 top = STACK_BASE + STACK_SIZE - 4096 - (P->stack_off & 0xffff0);
	u64 s = P->stack_seed;
	u64 *q = (u64 *)(top - (192 << 10)), *qe = (u64 *)top;
	if (P->stack_seed) for (; q < qe; q++) *q = rnd(&s);
	char *sp = (char *)top;
	char **av = (char **)(sp -= (P->argc + 1) * 8);
	for (int k = 0; k < P->argc; k++) { u64 n = strlen(P->argv[k]) + 1; sp -= n; memcpy(sp, P->argv[k], n); av[k] = sp; }
	av[P->argc] = NULL;
	sp = (char *)((u64)sp & ~15ul);
	char **ev = (char **)(sp -= (P->nenv + 1 + (P->nenv & 1 ? 0 : 1)) * 8);
	for (int k = 0; k < P->nenv; k++) { u64 n = strlen(P->env[k]) + 1; sp -= n; memcpy(sp, P->env[k], n); ev[k] = sp; }
	ev[P->nenv] = NULL;
	environ = ev;
	child_argc = P->argc; child_argv = av;
	sp = (char *)(((u64)sp - 256) & ~15ul);

	stack_t ss = { .ss_sp = (void *)ALT_BASE, .ss_size = 256 << 10 };
	sigaltstack(&ss, NULL);
	struct sigaction sa; memset(&sa, 0, sizeof sa);
	sigemptyset(&sa.sa_mask);
	sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
	sa.sa_sigaction = on_sigsys;
	sigaction(SIGSYS, &sa, NULL);
	sa.sa_sigaction = on_fatal;
	int sigs[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGXCPU, SIGTRAP };
	for (unsigned k = 0; k < sizeof sigs / sizeof *sigs; k++) sigaction(sigs[k], &sa, NULL);
	struct rlimit rl = { 10, 30 };
	setrlimit(RLIMIT_CPU, &rl);
	rl = (struct rlimit){ 0, 0 }; setrlimit(RLIMIT_CORE, &rl);

	u64 lo = (u64)real_syscall_begin, hi = (u64)real_syscall_end;
	struct sock_filter flt[] = {
		BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)),
		BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_rt_sigreturn, 5, 0),
		BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer)),
		BPF_JUMP(BPF_JMP | BPF_JGE | BPF_K, (u32)lo, 0, 4),
		BPF_JUMP(BPF_JMP | BPF_JGT | BPF_K, (u32)hi, 3, 0),
		BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer) + 4),
		BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, 0, 0, 1),
		BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
		BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP),
	};
	struct sock_fprog pr = { sizeof flt / sizeof *flt, flt };
	if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) die("no_new_privs");
	in_child = 1;
	errno = 0;
	if (syscall(SYS_seccomp, SECCOMP_SET_MODE_FILTER, 0, &pr)) die("seccomp");
	__asm__ volatile("movq $0x5ca1ab1e00, %%rax; movq %%rax, %%fs:0x28; mov %0, %%rsp; xor %%ebp, %%ebp; xor %%ebx, %%ebx; xor %%ecx, %%ecx; call child_entry" :: "r"(sp) : "memory", "rax");
	__builtin_unreachable();
}

// ---------------------------------------------------------------- server
struct ifile { char *path; int type, mode; u8 *data; u64 size; };
struct image { int used; u64 id; struct ifile *f; u32 n, cap; };
#define MAXIMG 4096
static struct image images[MAXIMG];

static u8 inbuf[1 << 16]; static u64 inpos, inlen;
static int getc_(void) {
	if (inpos == inlen) { ssize_t r = read(0, inbuf, sizeof inbuf); if (r <= 0) return -1; inlen = r; inpos = 0; }
	return inbuf[inpos++];
}
static int getline_(char *b, int n) {
	int i = 0, c;
	while ((c = getc_()) != '\n') { if (c < 0) return -1; if (i < n - 1) b[i++] = c; }
	b[i] = 0; return i;
}
static void getbytes(void *vp, u64 n) {
	u8 *p = vp;
	while (n) {
		if (inpos == inlen) { ssize_t r = read(0, inbuf, sizeof inbuf); if (r <= 0) _exit(0); inlen = r; inpos = 0; }
		u64 k = inlen - inpos; if (k > n) k = n;
		memcpy(p, inbuf + inpos, k); p += k; n -= k; inpos += k;
	}
}
static char *obuf; static u64 olen, ocap;
static void out_raw(const void *p, u64 n) {
	if (olen + n > ocap) { u64 nc = (olen + n) * 2 + 65536; char *b = mmap(NULL, nc, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); memcpy(b, obuf, olen); if (ocap) munmap(obuf, ocap); obuf = b; ocap = nc; }
	memcpy(obuf + olen, p, n); olen += n;
}
static void outf(const char *fmt, ...) { char b[4096]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap); if (n >= (int)sizeof b) n = sizeof b - 1; out_raw(b, n); }
static void out_flush(void) { u64 o = 0; while (o < olen) { ssize_t r = write(1, obuf + o, olen - o); if (r <= 0) _exit(0); o += r; } olen = 0; }

static struct image *image_find(u64 id) { for (int i = 0; i < MAXIMG; i++) if (images[i].used && images[i].id == id) return &images[i]; return NULL; }
static struct image *image_new(u64 id) {
	struct image *im = image_find(id);
	if (!im) { for (int i = 0; i < MAXIMG; i++) if (!images[i].used) { im = &images[i]; break; } if (!im) die("too many images"); }
	im->used = 1; im->id = id; im->n = 0;
	return im;
}
static void image_put(struct image *im, struct ifile f) {
	for (u32 i = 0; i < im->n; i++) if (strcmp(im->f[i].path, f.path) == 0) {
		if (f.type == T_NONE) { im->f[i] = im->f[--im->n]; } else im->f[i] = f;
		return;
	}
	if (f.type == T_NONE) return;
	if (im->n == im->cap) { u32 nc = im->cap * 2 + 64; struct ifile *nf = malloc(nc * sizeof *nf); if (im->n) memcpy(nf, im->f, im->n * sizeof *nf); im->f = nf; im->cap = nc; }
	im->f[im->n++] = f;
}
// Data of images lives in mmaps of its own so that dropping an image frees it.
static u8 *blob(u64 n) { return malloc(n + 1); }

static struct image *cur_img;

static void fs_load(struct image *im) {
	S->nino = S->ndent = 0; S->arena_used = 0;
	memset(S->dtab, 0xff, sizeof S->dtab);
	for (u32 i = 0; i < im->n; i++) {
		struct ifile *f = &im->f[i];
		int d = dent_add(f->path, 0);
		i64 ino = ino_new(f->type, f->mode);
		if (d < 0 || ino < 0) die("image too big");
		S->ino[ino].data = f->data; S->ino[ino].size = f->size;
		S->dent[d].ino = ino;
	}
	cur_img = im;
}

static u64 inode_hash(struct inode *n) { return hash_bytes(7, n->data, n->size); }

static int unesc(char *s) {     // %xx
	char *o = s;
	for (; *s; s++) {
		if (*s == '%' && s[1] && s[2]) { char h[3] = { s[1], s[2], 0 }; *o++ = strtol(h, NULL, 16); s += 2; }
		else *o++ = *s;
	}
	*o = 0; return 0;
}
static void put_esc(const char *s) { for (; *s; s++) if (*s <= ' ' || *s == '%' || *s == 127) outf("%%%02x", (u8)*s); else out_raw(s, 1); }

static int type_of(const char *s) {
	if (!strcmp(s, "pipe")) return T_PIPE;
	if (!strcmp(s, "file")) return T_FILE;
	if (!strcmp(s, "tty")) return T_TTY;
	if (!strcmp(s, "null")) return T_NULL;
	if (!strcmp(s, "full")) return T_FULL;
	die("bad stdout type"); return 0;
}
static void proc_init(struct proc *p) {
	memset(p, 0, sizeof *p);
	strcpy(p->cwd, "/w");
	p->outtype = T_PIPE; p->errtype = T_PIPE;
	p->pid = 4242; p->clock_s = 1700000000; p->tick_ns = 1000000;
	p->allocsticky = ~0u; p->budget = 200000; p->heap_fill = 4; p->heap_seed = 1; p->stack_seed = 1;
}

static const char *xnames[] = { "running", "exit", "signal", "crash", "budget", "cpu", "heap" };

static void run_plan(char *plan) {
	u64 save_id = 0; int want_log = 0, want_out = 0;
	u64 sched_seed = 0; static u8 schedule[200000]; u32 nsched = 0, sched_list = 0, sched_len = 0; int stick = 0;
	struct image *im = NULL;
	static char strings[1 << 20]; u64 sused = 0;
	S->nproc = 0; S->quota = -1; S->nlog = 0;
	struct proc *p = NULL;
	for (char *line = strtok(plan, "\n"); line; line = strtok(NULL, "\n")) {
		char *sp = strchr(line, ' '); char *v = sp ? sp + 1 : ""; if (sp) *sp = 0;
		if (!strcmp(line, "img")) { im = image_find(strtoull(v, NULL, 10)); if (!im) die("no such image"); }
		else if (!strcmp(line, "save")) save_id = strtoull(v, NULL, 10);
		else if (!strcmp(line, "log")) want_log = atoi(v);
		else if (!strcmp(line, "wantout")) want_out = atoi(v);
		else if (!strcmp(line, "quota")) S->quota = atoll(v);
		else if (!strcmp(line, "sched")) sched_seed = strtoull(v, NULL, 10);
		else if (!strcmp(line, "stick")) stick = atoi(v);
		else if (!strcmp(line, "schedlist")) { sched_list = 1; for (; *v; v++) if (*v >= '0' && *v <= '7') schedule[sched_len++] = *v - '0'; }
		else if (!strcmp(line, "proc")) { if (S->nproc == MAXPROC) die("too many procs"); p = &S->p[S->nproc++]; proc_init(p); }
		else if (!p) die("plan: no proc");
		else if (!strcmp(line, "arg") || !strcmp(line, "env")) {
			u64 n = strlen(v) + 1; if (sused + n > sizeof strings) die("strings");
			char *c = strings + sused; memcpy(c, v, n); sused += n; unesc(c);
			if (line[0] == 'a') { if (p->argc == 127) die("args"); p->argv[p->argc++] = c; } else { if (p->nenv == 63) die("envs"); p->env[p->nenv++] = c; }
		}
		else if (!strcmp(line, "cwd")) { unesc(v); strncpy(p->cwd, v, 511); }
		else if (!strcmp(line, "out")) p->outtype = type_of(v);
		else if (!strcmp(line, "err")) p->errtype = type_of(v);
		else if (!strcmp(line, "heap")) sscanf(v, "%u %lu %u", &p->heap_mode, &p->heap_seed, &p->heap_fill);
		else if (!strcmp(line, "stack")) sscanf(v, "%lu %lu", &p->stack_off, &p->stack_seed);
		else if (!strcmp(line, "pid")) p->pid = atoi(v);
		else if (!strcmp(line, "clock")) sscanf(v, "%ld %ld %ld", &p->clock_s, &p->clock_ns, &p->tick_ns);
		else if (!strcmp(line, "jump")) { struct jump *j = &p->jumps[p->njump++ & 15]; sscanf(v, "%u %ld", &j->k, &j->delta); }
		else if (!strcmp(line, "fault")) {
			if (p->nfault == MAXFAULT) die("faults");
			struct fault *f = &p->faults[p->nfault++]; memset(f, 0, sizeof *f);
			char k[16]; f->b = 0; if (sscanf(v, "%u %15s %ld %ld", &f->idx, k, &f->a, &f->b) < 3) die("fault syntax");
			f->kind = !strcmp(k, "err") ? K_ERR : !strcmp(k, "short") ? K_SHORT : !strcmp(k, "trunc") ? K_TRUNC : !strcmp(k, "lose") ? K_LOSE : !strcmp(k, "crash") ? K_CRASH : 0;
			if (!f->kind) die("fault kind");
		}
		else if (!strcmp(line, "sticky")) {
			struct sticky *s = &p->stickies[p->nsticky++ & 7]; memset(s, 0, sizeof *s);
			char k[16]; sscanf(v, "%15s %u %d", k, &s->from, &s->err); s->cls = C_NCLASS;
			for (int i = 0; i < C_NCLASS; i++) if (!strcmp(class_names[i], k)) s->cls = i;
		}
		else if (!strcmp(line, "allocfail")) { if (p->nallocfail < 16) p->allocfail[p->nallocfail++] = strtoul(v, NULL, 10); }
		else if (!strcmp(line, "allocsticky")) p->allocsticky = strtoul(v, NULL, 10);
		else if (!strcmp(line, "allocmax")) p->allocmax = strtoull(v, NULL, 10);
		else if (!strcmp(line, "maxfd")) p->maxfd = atoi(v);
		else if (!strcmp(line, "chunk")) p->chunk_seed = strtoull(v, NULL, 10);
		else if (!strcmp(line, "budget")) p->budget = strtoul(v, NULL, 10);
		else die(line);
	}
	if (!im || !S->nproc) die("plan incomplete");
	fs_load(im);
	S->multi = S->nproc > 1;
	for (int i = 0; i < S->nproc; i++) {
		p = &S->p[i];
		p->outino = ino_new(p->outtype, 0600); p->errino = ino_new(p->errtype, 0600);
		i64 in = ino_new(T_NULL, 0600);
		p->fds[0] = (struct fdent){ in, 0, -1, O_RDONLY, 1, 0 };
		p->fds[1] = (struct fdent){ p->outino, 0, -1, O_WRONLY, 1, 0 };
		p->fds[2] = (struct fdent){ p->errino, 0, -1, O_WRONLY, 1, 0 };
		p->umask_ = 022; p->turn = 0; p->waiting = 0;
	}
	int alive[MAXPROC]; int nalive = 0;
	for (int i = 0; i < S->nproc; i++) {
		p = &S->p[i];
		int pid = fork();
		if (pid < 0) die("fork");
		if (pid == 0) child_run(i);
		p->real_pid = pid; alive[i] = 1; nalive++;
	}
	u64 srng = sched_seed;
	int last = -1; u32 step = 0;
	if (!S->multi) {
		int st; struct proc *q = &S->p[0];
		while (waitpid(q->real_pid, &st, 0) < 0 && errno == EINTR) ;
		if (q->xkind == X_RUNNING) { q->xkind = X_SIGNAL; q->xcode = WIFSIGNALED(st) ? WTERMSIG(st) : 255; }
	} else while (nalive) {
		// wait until everyone alive is blocked at a scheduling point
		for (;;) {
			u32 v = __atomic_load_n(&S->parent_futex, __ATOMIC_SEQ_CST);
			int busy = 0;
			for (int i = 0; i < S->nproc; i++) if (alive[i]) {
				u32 w = __atomic_load_n(&S->p[i].waiting, __ATOMIC_SEQ_CST);
				if (w == 2) { waitpid(S->p[i].real_pid, NULL, 0); alive[i] = 0; nalive--; }
				else if (!w) busy = 1;
			}
			if (!busy) break;
			struct timespec ts = { 1, 0 };
			syscall(SYS_futex, &S->parent_futex, FUTEX_WAIT, v, &ts, NULL, 0);
			for (int i = 0; i < S->nproc; i++) if (alive[i] && !S->p[i].waiting) {
				int st; if (waitpid(S->p[i].real_pid, &st, WNOHANG) == S->p[i].real_pid) {
					if (S->p[i].xkind == X_RUNNING) { S->p[i].xkind = X_SIGNAL; S->p[i].xcode = WIFSIGNALED(st) ? WTERMSIG(st) : 255; }
					alive[i] = 0; nalive--;
				}
			}
		}
		if (!nalive) break;
		int pick = -1;
		if (sched_list) { while (step < sched_len && !alive[schedule[step]]) step++; if (step < sched_len) pick = schedule[step++]; }
		else if (last >= 0 && alive[last] && stick && (int)(rnd(&srng) % 100) < stick) pick = last;
		if (pick < 0) {
			int k = sched_list ? 0 : rnd(&srng) % nalive;
			for (int i = 0; i < S->nproc; i++) if (alive[i] && k-- == 0) pick = i;
		}
		if (!sched_list && nsched < sizeof schedule) schedule[nsched++] = pick;
		last = pick;
		S->p[pick].waiting = 0;
		__atomic_store_n(&S->p[pick].turn, 1, __ATOMIC_SEQ_CST);
		syscall(SYS_futex, &S->p[pick].turn, FUTEX_WAKE, 16, NULL, NULL, 0);
	}

	// report
	for (int i = 0; i < S->nproc; i++) {
		p = &S->p[i];
		struct inode *o = &S->ino[p->outino], *e = &S->ino[p->errino];
		outf("P %d %s %d nsys=%u nalloc=%lu abytes=%lu ntime=%u simns=%ld hash=%016lx out=%lu:%016lx err=%lu:%016lx rip=%lx addr=%lx unmod=%lu:%d t=%ld",
		     i, xnames[p->xkind], p->xcode, p->nsys, p->nalloc, p->allocbytes, p->ntime, (i64)p->nsys * p->tick_ns, p->hash,
		     o->size, inode_hash(o), e->size, inode_hash(e), p->xrip, p->xaddr, p->unmodelled, p->unmodelled_nr, p->last_time);
		u32 k[8] = { 0 }; for (int j = 0; j < p->nfault; j++) k[p->faults[j].kind] += p->faults[j].fired;
		u32 stf = 0; for (int j = 0; j < p->nsticky; j++) stf += p->stickies[j].fired;
		outf(" f_err=%u f_short=%u f_trunc=%u f_lose=%u f_crash=%u f_sticky=%u f_alloc=%lu f_chunk=%lu f_quota=%lu f_maxfd=%lu\n",
		     k[K_ERR], k[K_SHORT], k[K_TRUNC], k[K_LOSE], k[K_CRASH], stf, p->allocfired, p->chunkfired, p->quotafired, p->maxfdfired);
		if (want_out) { outf("O %d %lu %lu\n", i, o->size, e->size); out_raw(o->data, o->size); out_raw(e->data, e->size); }
	}
	for (u32 d = 0; d < S->ndent; d++) {
		if (d < im->n) {
			struct ifile *f = &im->f[d];
			if (S->dent[d].ino < 0) { outf("F d 0 0 0 "); put_esc(f->path); outf("\n"); continue; }
			struct inode *n = &S->ino[S->dent[d].ino];
			if (n->data == f->data && n->size == f->size && n->type == f->type && n->mode == f->mode) continue;
			if (n->type == T_FILE && f->type == T_FILE && n->size == f->size && memcmp(n->data, f->data, n->size) == 0) { outf("F s %d %lu %016lx ", n->mode, n->size, inode_hash(n)); put_esc(f->path); outf("\n"); continue; }
			outf("F m %d %lu %016lx ", n->mode, n->size, inode_hash(n)); put_esc(f->path); outf("\n");
		} else if (S->dent[d].ino >= 0) {
			struct inode *n = &S->ino[S->dent[d].ino];
			outf("F %c %d %lu %016lx ", n->type == T_DIR ? 'D' : 'c', n->mode, n->size, inode_hash(n)); put_esc(S->dent[d].path); outf("\n");
		}
	}
	if (S->multi) {
		u64 h = hash_bytes(3, schedule, sched_list ? step : nsched);
		outf("S %u %016lx ", sched_list ? step : nsched, h);
		if (want_log) for (u32 i = 0; i < (sched_list ? step : nsched); i++) outf("%c", '0' + schedule[i]);
		outf("\n");
	}
	if (want_log) for (u32 i = 0; i < S->nlog; i++) {
		struct logrec *r = &S->log[i];
		outf("L %u %u %u %d %ld %ld %ld ", r->proc, r->nr, r->fault, r->fd, r->a, r->b, r->ret);
		if (r->pathid >= 0) put_esc(S->dent[r->pathid].path); else outf("-");
		outf("\n");
	}
	if (save_id) {
		struct image *ni = image_new(save_id);
		ni->n = 0;
		for (u32 d = 0; d < S->ndent; d++) if (S->dent[d].ino >= 0) {
			struct inode *n = &S->ino[S->dent[d].ino];
			struct ifile f = { (char *)S->dent[d].path, n->type, n->mode, (u8 *)n->data, n->size };
			if (d >= im->n) { f.path = (char *)blob(strlen(S->dent[d].path)); strcpy(f.path, S->dent[d].path); }
			if (n->owned) { f.data = blob(n->size); memcpy(f.data, n->data, n->size); }
			if (ni->n == ni->cap) { u32 nc = ni->cap * 2 + 64; struct ifile *nf = malloc(nc * sizeof *nf); if (ni->n) memcpy(nf, ni->f, ni->n * sizeof *nf); ni->f = nf; ni->cap = nc; }
			ni->f[ni->n++] = f;
		}
	}
	outf("END\n");
}

int main(int argc, char **argv) {
	(void)argc;
	if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
		personality(ADDR_NO_RANDOMIZE);
		execv("/proc/self/exe", argv);
		die("exec");
	}
	struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
	cpu_set_t cs; sched_getaffinity(0, sizeof cs, &cs);
	if (getenv("SIM_CPU")) { int want = atoi(getenv("SIM_CPU")) % CPU_COUNT(&cs), k = 0; for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &cs) && k++ == want) { cpu_set_t one; CPU_ZERO(&one); CPU_SET(i, &one); sched_setaffinity(0, sizeof one, &one); break; } }
	if (mmap(SHARED_BASE, SHARED_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) != SHARED_BASE) die("shared");
	if (mmap((void *)HEAP_BASE, HEAP_ARENA * NARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) == MAP_FAILED) die("heap");
	if (mmap((void *)STACK_BASE, STACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) == MAP_FAILED) die("stack");
	if (mmap((void *)ALT_BASE, 256 << 10, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED) die("altstack");
	S = (struct shared *)SHARED_BASE;
	arena = SHARED_BASE + ((sizeof *S + 4095) & ~4095ul);
	S->arena_size = SHARED_SIZE - (arena - SHARED_BASE);

	char line[256];
	while (getline_(line, sizeof line) >= 0) {
		if (!strncmp(line, "IMG ", 4)) {
			u64 id, base; u32 n; sscanf(line, "IMG %lu %lu %u", &id, &base, &n);
			struct image *b = base ? image_find(base) : NULL; if (base && !b) die("no base image");
			struct image *im = image_new(id);
			if (b) for (u32 i = 0; i < b->n; i++) { if (im->n == im->cap) { u32 nc = im->cap * 2 + b->n + 16; struct ifile *nf = malloc(nc * sizeof *nf); if (im->n) memcpy(nf, im->f, im->n * sizeof *nf); im->f = nf; im->cap = nc; } im->f[im->n++] = b->f[i]; }
			for (u32 i = 0; i < n; i++) {
				int t; u32 mode; u64 pl, dl;
				getline_(line, sizeof line);
				if (sscanf(line, "%d %u %lu %lu", &t, &mode, &pl, &dl) != 4) die("bad image line");
				struct ifile f = { (char *)blob(pl), t, mode, blob(dl), dl };
				getbytes(f.path, pl); f.path[pl] = 0; getbytes(f.data, dl);
				image_put(im, f);
			}
		} else if (!strncmp(line, "RUN ", 4)) {
			u64 n = strtoull(line + 4, NULL, 10);
			static char plan[1 << 20]; if (n >= sizeof plan) die("plan too long");
			getbytes(plan, n); plan[n] = 0;
			run_plan(plan);
			out_flush();
		} else if (!strncmp(line, "GET ", 4)) {
			static char path[4096]; u64 n = strtoull(line + 4, NULL, 10); if (n >= sizeof path) die("path");
			getbytes(path, n); path[n] = 0;
			int d = dent_find(path);
			if (d < 0 || S->dent[d].ino < 0) outf("D -1\n");
			else { struct inode *in = &S->ino[S->dent[d].ino]; outf("D %lu\n", in->size); out_raw(in->data, in->size); }
			out_flush();
		} else if (!strncmp(line, "DROPALL", 7)) {
			for (int i = 0; i < MAXIMG; i++) images[i].used = 0;
		} else if (!strncmp(line, "DROP ", 5)) {
			struct image *im = image_find(strtoull(line + 5, NULL, 10)); if (im) im->used = 0;
		} else die("bad command");
	}
	return 0;
}
