/* libsim: a simulated operating system underneath the real cryptovampire binary.
 *
 * Preloaded into the binary built from /repo (workspace crates compiled with
 * SanitizerCoverage so that every basic block, load and store is a potential
 * preemption point).  Everything nondeterministic is decided here from the plan
 * file: which thread runs (one at a time, token passing), the clock, random
 * numbers, heap and stack addresses, pipes, child processes (scripted), signals
 * and the faults injected into system calls.  Files are real but live in a scratch
 * directory; writes outside of it are refused.
 *
 * One plan = one execution.  All internal system calls are raw. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <sched.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <link.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define EXPORT __attribute__((visibility("default")))
#define NOSAN
typedef uint64_t u64;
typedef uint32_t u32;
typedef int64_t i64;

/* ------------------------------------------------------------------ raw syscalls */
static inline long rsys(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
#define R0(n) rsys(n, 0, 0, 0, 0, 0, 0)
#define R1(n, a) rsys(n, (long)(a), 0, 0, 0, 0, 0)
#define R2(n, a, b) rsys(n, (long)(a), (long)(b), 0, 0, 0, 0)
#define R3(n, a, b, c) rsys(n, (long)(a), (long)(b), (long)(c), 0, 0, 0)
#define R4(n, a, b, c, d) rsys(n, (long)(a), (long)(b), (long)(c), (long)(d), 0, 0)
#define R6(n, a, b, c, d, e, f) rsys(n, (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))
static inline long ret(long r) {
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

/* ------------------------------------------------------------------ prng */
static u64 mix(u64 x) { x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
typedef struct { u64 s; } prng;
static u64 rnd(prng *p) { p->s += 0x9E3779B97F4A7C15ull; return mix(p->s); }
static u64 rndn(prng *p, u64 n) { return n ? rnd(p) % n : 0; }
static double rndf(prng *p) { return (double)(rnd(p) >> 11) / 9007199254740992.0; }

/* ------------------------------------------------------------------ plan */
enum { C_OPENW, C_OPENR, C_WRITEF, C_READF, C_READIN, C_READP, C_WRITEO, C_WRITEE, C_MKDIR, C_UNLINK, C_STAT, C_SPAWN, C_PIPE, C_THREAD, C_WAIT, C_KILL, C_MALLOC, C_RENAME, C_FSYNC, C_FUTEX, C_SLEEP, C_CLOSE, NCLS };
static const char *clsname[NCLS] = {"openw", "openr", "writef", "readf", "readin", "readp", "writeo", "writee", "mkdir", "unlink", "stat", "spawn", "pipe", "thread", "wait", "kill", "malloc", "rename", "fsync", "futex", "sleep", "close"};
typedef struct { int cls; long nth; int err; long arg; int fired; } faultspec;
#define MAXFAULT 64
static faultspec faults[MAXFAULT]; static int nfaults;
static long clsn[NCLS];
typedef struct { u32 p; long max; u64 seed; } noise; /* p in 1/65536 */
static noise shortio[NCLS], eintr[NCLS];
static long fired_short[NCLS], fired_eintr[NCLS];
typedef struct { char name[32]; int idx; char *script; } solverscript;
#define MAXSCRIPT 1024
static solverscript scripts[MAXSCRIPT]; static int nscripts;
typedef struct { int tid; u64 prog; int to; } pre;
static pre *pres; static int npres, cappres;
typedef struct { int tid; long n; int to; } fch;
static fch *fchs; static int nfchs, capfchs;
static struct {
  u64 seed; int mode; /* 0 random 1 pct 2 run-to-block 3 explicit */
  double gap; double burst; long maxpre; double pcall; double pwake; int pctd; u64 pctlen;
  u64 edge_ns, call_ns; u64 t0; u64 randseed; u64 killlat; int pidreuse; int pidbase; int ncpu, tty; double pstatic;
  u64 heapoff, stackoff; int hpol; int hdown; double hpad; int poison; int alwaysmove;
  long diskcap; u64 maxsteps, maxvt, crash; char *stdin_script; u64 maxmem; int covon;
} P;

/* ------------------------------------------------------------------ log */
static char *logbuf; static size_t logcap, loglen;
static volatile int logdead, closing, logfull;
static void lg(const char *fmt, ...) {
  char b[4096]; va_list ap; va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b - 2, fmt, ap); va_end(ap);
  if (n < 0) return; if (n > (int)sizeof b - 2) n = sizeof b - 2;
  b[n++] = '\n';
  if (!logbuf || logdead) return;
  /* the last 64 KB are kept for the closing lines */
  if (loglen + n > logcap - 8 || (loglen + n > logcap - 65536 && !closing)) { static const char m[] = "LOGFULL\n"; if (loglen + 8 <= logcap && !logfull) { memcpy(logbuf + loglen, m, 8); loglen += 8; } logfull = 1; return; }
  memcpy(logbuf + loglen, b, n); loglen += n;
}
static void hexs(char *o, size_t cap, const char *s) { /* printable quoting without spaces */
  size_t j = 0;
  for (size_t i = 0; s[i] && j + 4 < cap; i++) {
    unsigned char c = s[i];
    if (c > 32 && c < 127 && c != '%') o[j++] = c; else { snprintf(o + j, 4, "%%%02x", c); j += 3; }
  }
  o[j] = 0;
}

/* ------------------------------------------------------------------ threads */
enum { T_FREE, T_RUN, T_BLOCK, T_DONE };
enum { B_NONE, B_FUTEX, B_SLEEP, B_PIPER, B_PIPEW, B_WAIT, B_JOIN, B_POLL };
static const char *bname[] = {"none", "futex", "sleep", "piper", "pipew", "wait", "join", "poll"};
#define MAXT 256
#define STKSZ (8ul << 20)
#define STKSLOT (STKSZ + (1ul << 20))
#define STACK_BASE 0x200000000000ul
#define HEAP_BASE 0x100000000000ul
#define EARLY_BASE 0x0f0000000000ul
#define MISC_BASE 0x210000000000ul
typedef struct dtor { void (*f)(void *); void *a; struct dtor *n; } dtor;
typedef struct thr {
  int id, st, bk; volatile int sem; pthread_t real; int joined, detached, used_real;
  u64 prog; long nforced; int prio;
  u64 deadline; u32 *faddr; u32 fbits; int woken; int bfd; int bpid; struct thr *bj; struct pollfd *pf; int npf;
  void *(*fn)(void *); void *arg; void *retv; int slot; dtor *dt; void *keys[64];
} thr;
static thr T[MAXT]; static int nT; static thr *cur;
static __thread thr *self __attribute__((tls_model("initial-exec")));
static int active; /* simulation running */
static int inited; /* plan read; static constructors may run */
static int slotuse[MAXT];

static long budget = LONG_MAX / 2, bud0 = LONG_MAX / 2;
static u64 now, total, nextpre; static long npre, nforcedtot; static u64 schedhash = 1469598103934665603ull;
static prng rs, rh, rr; /* schedule, heap, random numbers */
static u64 pctpts[64]; static int npct; static int minprio = 0;
static int finishing;

static void finish(int code, const char *why) __attribute__((noreturn));
static void run_due(void);
static u64 next_event(void);

static void hadd(u64 x) { schedhash = (schedhash ^ x) * 1099511628211ull; }
static void park(thr *t) {
  while (!__atomic_exchange_n(&t->sem, 0, __ATOMIC_ACQ_REL)) R6(SYS_futex, &t->sem, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
}
static void unpark(thr *t) { __atomic_store_n(&t->sem, 1, __ATOMIC_RELEASE); R6(SYS_futex, &t->sem, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0); }

static void account(void) {
  long used = bud0 - budget;
  if (used > 0) { cur->prog += used; total += used; now += (u64)used * P.edge_ns; }
  bud0 = budget;
  if (total > P.maxsteps) finish(98, "STEPLIMIT");
  if (P.crash && total >= P.crash) finish(137, "CRASH");   /* killed at an arbitrary point: only the files survive */
  if (now > P.maxvt) finish(98, "TIMELIMIT");
}
static u64 next_gap(void) {
  if (npre >= P.maxpre) return 1ull << 60;
  if (rndf(&rs) < P.burst) return 1 + rndn(&rs, 24);
  double u = rndf(&rs); if (u < 1e-12) u = 1e-12;
  double g = -__builtin_log(u) * P.gap; if (g < 1) g = 1; if (g > 1e15) g = 1e15;
  return (u64)g;
}
static void set_budget(void) {
  u64 b = 1ull << 40;
  u64 e = next_event();
  if (e != UINT64_MAX) { u64 d = e > now ? (e - now + P.edge_ns - 1) / P.edge_ns : 1; if (d < 1) d = 1; if (d < b) b = d; }
  if (P.mode == 0) { u64 d = nextpre > total ? nextpre - total : 1; if (d < b) b = d; }
  else if (P.mode == 1) { for (int i = 0; i < npct; i++) if (pctpts[i] > total) { u64 d = pctpts[i] - total; if (d < b) b = d; } }
  else if (P.mode == 3) {
    for (int i = 0; i < npres; i++) if (pres[i].tid == cur->id && pres[i].prog > cur->prog) { u64 d = pres[i].prog - cur->prog; if (d < b) b = d; }
  }
  u64 l = P.maxsteps > total ? P.maxsteps - total + 1 : 1; if (l < b) b = l;
  if (P.crash) { u64 c = P.crash > total ? P.crash - total : 1; if (c < b) b = c; }
  u64 v = P.maxvt > now ? (P.maxvt - now) / P.edge_ns + 1 : 1; if (v < b) b = v;
  bud0 = budget = (long)b;
}
static int ready(thr *t);
static int runnable(thr *t) { return t->st == T_RUN || (t->st == T_BLOCK && ready(t)); }
static void switch_to(thr *n) {
  if (n == cur) return;
  thr *me = cur; cur = n;
  hadd((u64)me->id << 32 | n->id); hadd(me->prog);
  unpark(n);
  if (me->st != T_DONE) park(me);
}
static int list_runnable(thr **o) { int k = 0; for (int i = 0; i < nT; i++) if (runnable(&T[i])) o[k++] = &T[i]; return k; }
static thr *pick(thr **r, int k) {
  if (P.mode == 1) { thr *b = r[0]; for (int i = 1; i < k; i++) if (r[i]->prio > b->prio) b = r[i]; return b; }
  return r[rndn(&rs, k)];
}
/* a voluntary decision while cur is runnable */
static void preempt_to(thr *n) {
  if (n == cur) return;
  npre++;
  lg("P %d %llu %d", cur->id, (unsigned long long)cur->prog, n->id);
  switch_to(n);
}
static long nstatic; static int longgap;
static void slow(int why) { /* why: 0 budget, 1 libc call */
  if (!active || self != cur || finishing) { budget = bud0 = LONG_MAX / 2; if (active && !finishing && self == cur) set_budget(); return; }
  account();
  run_due();
  thr *r[MAXT]; int k;
  if (P.mode == 3) {
    for (int i = 0; i < npres; i++)
      if (pres[i].tid == cur->id && pres[i].prog == cur->prog) {
        int to = pres[i].to;
        if (to >= 0 && to < nT && runnable(&T[to])) { preempt_to(&T[to]); break; }
      }
  } else if (P.mode == 0) {
    int dec = 0;
    if (total >= nextpre) { dec = 1; nextpre = total + next_gap(); if (longgap) { longgap = 0; nextpre = total + 300 + rndn(&rs, rndn(&rs, 2) ? 3000 : 100000); } }
    if (!dec && npre < P.maxpre) { if (why == 1 && P.pcall > 0 && rndf(&rs) < P.pcall) dec = 1; }
    static int lastk;
    k = list_runnable(r);
    if (!dec && k > lastk && npre < P.maxpre && rndf(&rs) < P.pwake) dec = 1;
    lastk = k;
    if (dec && k > 0) preempt_to(pick(r, k));
  } else if (P.mode == 1) {
    for (int i = 0; i < npct; i++) if (pctpts[i] && pctpts[i] <= total) { pctpts[i] = 0; cur->prio = --minprio; }
    k = list_runnable(r);
    if (k > 0 && npre < P.maxpre) { thr *n = pick(r, k); if (n != cur && n->prio > cur->prio) preempt_to(n); }
  }
  set_budget();
}
/* cur cannot continue (blocked or done): somebody else must */
static void forced(int self_exit) {
  for (;;) {
    run_due();
    thr *r[MAXT]; int k = list_runnable(r);
    if (k > 0) {
      thr *n = r[0];
      if (k > 1) {
        long c = cur->nforced++;
        if (P.mode == 3) {
          for (int i = 0; i < nfchs; i++) if (fchs[i].tid == cur->id && fchs[i].n == c) { int to = fchs[i].to; if (to >= 0 && to < nT && runnable(&T[to])) n = &T[to]; }
        } else if (P.mode != 2) n = pick(r, k);
        nforcedtot++;
        lg("C %d %ld %d", cur->id, c, n->id);
      }
      if (n == cur) return;
      switch_to(n);
      return;
    }
    u64 e = next_event();
    for (int i = 0; i < nT; i++) if (T[i].st == T_BLOCK && T[i].deadline && T[i].deadline < e) e = T[i].deadline;
    if (e == UINT64_MAX) {
      for (int i = 0; i < nT; i++) if (T[i].st == T_BLOCK) lg("BLOCKED %d %s fd=%d pid=%d", i, bname[T[i].bk], T[i].bfd, T[i].bpid);
      finish(97, "DEADLOCK");
    }
    if (e > now) now = e;
    if (now > P.maxvt) finish(98, "TIMELIMIT");
  }
}
static void block(int kind, u64 deadline) {
  account();
  cur->st = T_BLOCK; cur->bk = kind; cur->deadline = deadline;
  thr *me = cur;
  forced(0);
  me->st = T_RUN; me->bk = B_NONE; me->deadline = 0;
  set_budget();
}
/* every intercepted call is a step and a scheduling point */
static void point(void) {
  if (!active || finishing || self != cur) return;
  now += P.call_ns;
  --budget;
  slow(1);
}

/* ------------------------------------------------------------------ coverage callbacks */
static uint8_t *covmap; static u32 covn; static size_t covcap;
EXPORT void __sanitizer_cov_trace_pc_guard_init(u32 *a, u32 *b) { if (a == b || *a) return; while (a < b) *a++ = ++covn; }
EXPORT void __sanitizer_cov_trace_pc_guard(u32 *g) {
  if (covmap && *g < covcap) covmap[*g] = 1;
#ifdef TRACE
  static u32 *tb; static u64 tn; if (active) { if (!tb) { long fd = R4(SYS_openat, AT_FDCWD, "trace", O_RDWR, 0); tb = (u32 *)R6(SYS_mmap, 0, 400ul<<20, 3, MAP_SHARED, fd, 0); } if (tn < (100ul<<20)) tb[tn++] = (u32)(u64)__builtin_return_address(0); }
#endif
  if (__builtin_expect(--budget <= 0, 0)) slow(0);
}
/* Race-directed preemption: global variables of the program that are stored to while several threads
   exist are where check-then-act races live; a preemption is placed shortly after an access to one. */
static u64 st_lo, st_len; static uint8_t *st_map;
static int st_seg(struct dl_phdr_info *i, size_t n, void *a) {
  for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_W)) { st_lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; st_len = i->dlpi_phdr[k].p_memsz; }
  return 1;   /* the first object is the program */
}
static void st_init(void) {
  dl_iterate_phdr(st_seg, 0);
  st_map = (uint8_t *)R6(SYS_mmap, 0, st_len + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
}
static __attribute__((noinline)) void st_hit(u64 off, int store) {
  if (!active || finishing || self != cur || nT < 2) return;
  if (store) st_map[off] = 1; else if (!st_map[off]) return;
  nstatic++;
  if (P.mode != 0 || npre >= P.maxpre || rndf(&rs) >= P.pstatic) return;
  account(); nextpre = total + 1 + rndn(&rs, 30); longgap = 1; set_budget();
}
#define ST(p, w) { u64 o_ = (u64)(p) - st_lo; if (__builtin_expect(o_ < st_len, 0)) st_hit(o_, w); }
#define LS(n) \
  EXPORT void __sanitizer_cov_load##n(void *p) { ST(p, 0) if (__builtin_expect(--budget <= 0, 0)) slow(0); } \
  EXPORT void __sanitizer_cov_store##n(void *p) { ST(p, 1) if (__builtin_expect(--budget <= 0, 0)) slow(0); }
LS(1) LS(2) LS(4) LS(8) LS(16)

/* ------------------------------------------------------------------ faults */
static int fault(int cls, long *arg) {
  if (!active) return 0;
  long n = ++clsn[cls];
  for (int i = 0; i < nfaults; i++)
    if (faults[i].cls == cls && n > faults[i].nth && (faults[i].arg < 0 || n - 1 <= faults[i].nth + faults[i].arg)) {   /* nth counts from 0; arg: how many further calls fail, -1 all */
      faults[i].fired = 1;
      if (arg) *arg = faults[i].arg;
      lg("FAULT %s %ld %d %ld tid=%d t=%llu", clsname[cls], n, faults[i].err, faults[i].arg, cur ? cur->id : -1, (unsigned long long)now);
      if (faults[i].err == 1001) finish(137, "CRASH");
      return faults[i].err;
    }
  if (eintr[cls].p && fired_eintr[cls] < 2500 && (mix(eintr[cls].seed ^ (u64)n * 0x9E37) & 0xffff) < eintr[cls].p) { fired_eintr[cls]++; return EINTR; }
  return 0;
}
static size_t shorten(int cls, size_t n) {
  if (!active || n <= 1 || !shortio[cls].p || fired_short[cls] >= 2500) return n;
  u64 h = mix(shortio[cls].seed ^ (u64)clsn[cls] * 0x85EB);
  if ((h & 0xffff) >= shortio[cls].p) return n;
  u64 m = 1 + (h >> 16) % (u64)shortio[cls].max;
  if (m < n) { fired_short[cls]++; return m; }
  return n;
}

/* ------------------------------------------------------------------ allocator */
typedef struct hdr { u32 magic; u32 cls; u64 size; } hdr; /* 16 bytes before the user pointer */
#define HM 0x51a110cu
#define NC 160
static char *hbase, *hlo, *hhi, *hend; /* remaining bump space [hlo,hhi) */
typedef struct { void **v; u32 n, cap; } flist;
static flist fl[NC];
static char *ebump = (char *)EARLY_BASE, *eend = 0;
static volatile int mlk;
static u64 memused;
static void lockm(void) { while (__atomic_exchange_n(&mlk, 1, __ATOMIC_ACQUIRE)) __builtin_ia32_pause(); }
static void unlockm(void) { __atomic_store_n(&mlk, 0, __ATOMIC_RELEASE); }
static void *rmmap(void *a, size_t n, int extra) { return (void *)R6(SYS_mmap, a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | extra, -1, 0); }
static int sz2c(size_t n, size_t *out) { /* n includes nothing; class capacity in *out */
  if (n == 0) n = 1;
  if (n <= 1024) { int c = (n + 15) / 16; *out = (size_t)c * 16; return c - 1; } /* 0..63 */
  int k = 64; size_t s = 1024;
  for (;;) { for (int q = 5; q <= 8; q++) { size_t z = s * q / 4; if (n <= z) { *out = z; return k; } k++; } s *= 2; if (k >= NC - 4) { *out = (n + 4095) & ~4095ul; return NC - 1; } }
}
static void *early(size_t n, size_t al) {
  lockm();
  if (!eend) { rmmap(ebump, 64ul << 20, MAP_FIXED); eend = ebump + (64ul << 20); }
  char *p = (char *)(((u64)ebump + 16 + al - 1) & ~(al - 1));
  if (p + n > eend) { unlockm(); return 0; }
  ebump = p + ((n + 15) & ~15ul);
  unlockm();
  hdr *h = (hdr *)(p - 16); h->magic = HM; h->cls = 0xffff; h->size = n;
  return p;
}
static char *bump(size_t tot) {
  size_t pad = 0;
  if (P.hpad > 0 && rndf(&rh) < P.hpad) pad = 16 * rndn(&rh, 64);
  if (hlo + tot + pad > hhi) return 0;
  if (P.hdown) { hhi -= tot + pad; return hhi; }
  char *p = hlo + pad; hlo = p + tot; return p;
}
static void *amalloc(size_t n, size_t al) {
  if (!active || self != cur) return early(n, al < 16 ? 16 : al);
  if (n > (1ul << 40)) return 0;
  size_t cap; int c = sz2c(n, &cap);
  char *p = 0;
  if (al <= 16 && c < NC - 1 && fl[c].n && P.hpol != 1) {
    u32 i = fl[c].n - 1;
    if (P.hpol == 2) i = rndn(&rh, fl[c].n);
    p = fl[c].v[i]; fl[c].v[i] = fl[c].v[--fl[c].n];
  } else if (al <= 16 && P.hpol == 1 && fl[c].n > 4096) { p = fl[c].v[0]; fl[c].v[0] = fl[c].v[--fl[c].n]; }
  else {
    size_t tot = cap + 16 + (al > 16 ? al : 0);
    char *b = bump((tot + 15) & ~15ul);
    if (!b) return 0;
    memused += tot;
    p = b + 16;
    if (al > 16) { p = (char *)(((u64)p + al - 1) & ~(al - 1)); c = NC - 1; }
  }
  if (P.maxmem && memused > P.maxmem) { lg("MEMLIMIT %llu", (unsigned long long)memused); finish(96, "MEMLIMIT"); }
  hdr *h = (hdr *)(p - 16); h->magic = HM; h->cls = c; h->size = n;
  if (P.poison) memset(p, 0xCD, n < 512 ? n : 512);
  return p;
}
static int mfail(void) {
  if (!active || self != cur || finishing) return 0;
  static int any = -1;
  if (any < 0) { any = 0; for (int i = 0; i < nfaults; i++) if (faults[i].cls == C_MALLOC) any = 1; }
  if (!any) { clsn[C_MALLOC]++; return 0; }
  return fault(C_MALLOC, 0);
}
EXPORT void *malloc(size_t n) { if (mfail()) { errno = ENOMEM; return 0; } void *p = amalloc(n, 16); if (!p) errno = ENOMEM; return p; }
EXPORT void free(void *p) {
  if (!p) return;
  hdr *h = (hdr *)((char *)p - 16);
  if (h->magic != HM) { if (active) { lg("BADFREE"); finish(95, "BADFREE"); } return; }
  if (h->cls == 0xffff) return;
  if (self != cur || !active) return;
  h->magic = 0xdead;
  if (P.poison) memset(p, 0xDD, h->size < 512 ? h->size : 512);
  int c = h->cls; if (c >= NC - 1) return;
  flist *f = &fl[c];
  if (f->n == f->cap) {
    u32 nc = f->cap ? f->cap * 2 : 256;
    void **nv = (void **)R6(SYS_mmap, 0, nc * sizeof(void *), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (f->n) memcpy(nv, f->v, f->n * sizeof(void *));
    if (f->v) R2(SYS_munmap, f->v, f->cap * sizeof(void *));
    f->v = nv; f->cap = nc;
  }
  f->v[f->n++] = p;
}
EXPORT void *calloc(size_t a, size_t b) {
  size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return 0; }
  if (mfail()) { errno = ENOMEM; return 0; }
  void *p = amalloc(n, 16); if (p) memset(p, 0, n); else errno = ENOMEM; return p;
}
EXPORT void *realloc(void *p, size_t n) {
  if (!p) return malloc(n);
  if (n == 0) { free(p); return 0; }
  hdr *h = (hdr *)((char *)p - 16);
  if (h->magic != HM) { lg("BADREALLOC"); finish(95, "BADFREE"); }
  if (h->cls != 0xffff && h->cls < NC - 1 && !P.alwaysmove) { size_t cap; int c = sz2c(n, &cap); if (c == (int)h->cls) { h->size = n; return p; } }
  void *q = malloc(n); if (!q) return 0;
  memcpy(q, p, h->size < n ? h->size : n);
  free(p); return q;
}
EXPORT int posix_memalign(void **o, size_t al, size_t n) { if (mfail()) return ENOMEM; void *p = amalloc(n, al < 16 ? 16 : al); if (!p) return ENOMEM; *o = p; return 0; }
EXPORT void *aligned_alloc(size_t al, size_t n) { return amalloc(n, al < 16 ? 16 : al); }
EXPORT void *memalign(size_t al, size_t n) { return amalloc(n, al < 16 ? 16 : al); }
EXPORT size_t malloc_usable_size(void *p) { return p ? ((hdr *)((char *)p - 16))->size : 0; }

/* ------------------------------------------------------------------ pipes and fds */
#define PIPECAP 65536
typedef struct { char *buf; size_t r, n; int readers, writers; int used; u64 totalin, totalout; } spipe;
#define MAXPIPE 512
static spipe pipes[MAXPIPE]; static int npipes;
#define MAXFD 1024
typedef struct { int kind; int pipe; int nb; } fdent; /* kind 0 plain, 1 pipe read, 2 pipe write, 3 regular file */
static fdent fds[MAXFD];
static int newpipe(void) {
  if (npipes >= MAXPIPE) { lg("HARNESS too many pipes"); finish(99, "HARNESS"); }
  spipe *p = &pipes[npipes];
  p->buf = (char *)R6(SYS_mmap, 0, PIPECAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  p->used = 1; return npipes++;
}
static int placeholder(void) { return (int)R4(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR | O_CLOEXEC, 0); }
static size_t pput(spipe *p, const char *d, size_t n) {
  size_t k = 0;
  while (k < n && p->n < PIPECAP) { size_t w = (p->r + p->n) % PIPECAP; size_t c = PIPECAP - w; if (c > PIPECAP - p->n) c = PIPECAP - p->n; if (c > n - k) c = n - k; memcpy(p->buf + w, d + k, c); p->n += c; k += c; }
  p->totalin += k; return k;
}
static size_t pget(spipe *p, char *d, size_t n) {
  size_t k = 0;
  while (k < n && p->n) { size_t c = PIPECAP - p->r; if (c > p->n) c = p->n; if (c > n - k) c = n - k; memcpy(d + k, p->buf + p->r, c); p->r = (p->r + c) % PIPECAP; p->n -= c; k += c; }
  p->totalout += k; return k;
}

/* ------------------------------------------------------------------ processes */
enum { PR_RUN, PR_ZOMBIE, PR_REAPED };
typedef struct {
  int pid, st, idx, seq; char name[32]; const char *sc; u64 next; int wait_w; /* blocked on a full pipe */
  int pipe[3]; /* pipe index or -1 */ int inh[3]; char path[512]; int rfd; char *snap; size_t snapn; int havesnap;
  int status; /* wait status */ u64 killat; int killsig; size_t woff, wlen; int wfd; int feeder; long wrote; int hung;
} proc;
#define MAXP 4096
static proc *PR; static int nP; static int nspawned;
static char *blob; static size_t blobn;
static int nextpid;
static int lastreaped;

static void pclose_end(proc *p, int i) { if (p->pipe[i] >= 0) { if (i == 0) pipes[p->pipe[i]].readers--; else pipes[p->pipe[i]].writers--; p->pipe[i] = -1; } p->inh[i] = -2; }
static void pdie(proc *p, int status, const char *how) {
  for (int i = 0; i < 3; i++) pclose_end(p, i);
  if (p->rfd >= 0) { R1(SYS_close, p->rfd); p->rfd = -1; }
  p->status = status; p->st = PR_ZOMBIE; p->next = UINT64_MAX;
  lg("EXITP %d %s %s status=%d t=%llu wrote=%ld", p->seq, p->name, how, status, (unsigned long long)now, p->wrote);
  if (p->feeder) p->st = PR_REAPED;
}
static u64 num(const char **s) { u64 v = 0; while (**s >= '0' && **s <= '9') v = v * 10 + (*(*s)++ - '0'); return v; }
static size_t rdcap;
static int rdall(int fd, char **o, size_t *n) {
  size_t cap = 1 << 20, k = 0; char *b = (char *)R6(SYS_mmap, 0, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  for (;;) {
    if (k == cap) { char *nb = (char *)R6(SYS_mmap, 0, cap * 2, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); memcpy(nb, b, k); R2(SYS_munmap, b, cap); b = nb; cap *= 2; }
    long r = R3(SYS_read, fd, b + k, cap - k); if (r <= 0) break; k += r;
  }
  *o = b; *n = k; rdcap = cap; return 0;
}
static void psnap(proc *p, const char *b, size_t n) {
  char nm[64]; snprintf(nm, sizeof nm, ".s/snap.%d", p->seq);
  long fd = R4(SYS_openat, AT_FDCWD, nm, O_WRONLY | O_CREAT | O_TRUNC, 0600);
  size_t k = 0; while (k < n) { long w = R3(SYS_write, fd, b + k, n - k); if (w <= 0) break; k += w; }
  R1(SYS_close, fd);
}
/* run one script step of p at time now; sets p->next */
static void pstep(proc *p) {
  if (p->killat && now >= p->killat) { pdie(p, p->killsig, "killed"); return; }
  const char *s = p->sc;
  if (p->wlen == 0) {
    while (*s == ' ') s++;
    if (!*s) { p->sc = s; pdie(p, 0, "self"); return; }
    char c = *s++;
    switch (c) {
    case 'd': { u64 d = num(&s); p->sc = s; p->next = now + d; return; }
    case 'o': {
      p->sc = s; long fd = R4(SYS_openat, AT_FDCWD, p->path, O_RDONLY | O_CLOEXEC, 0);
      if (fd >= 0) { long f2 = R3(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 700); R1(SYS_close, fd); p->rfd = (int)f2; lg("SOPEN %d ok t=%llu", p->seq, (unsigned long long)now); }
      else { lg("SOPEN %d err=%ld t=%llu", p->seq, -fd, (unsigned long long)now); }
      p->next = now; return;
    }
    case 'r': {
      p->sc = s; int fd = p->rfd;
      if (fd < 0) { long f = R4(SYS_openat, AT_FDCWD, p->path, O_RDONLY | O_CLOEXEC, 0); fd = f < 0 ? -1 : (int)f; }
      if (fd >= 0) {
        R3(SYS_lseek, fd, 0, SEEK_SET);
        rdall(fd, &p->snap, &p->snapn); p->havesnap = 1; psnap(p, p->snap, p->snapn);
        u64 h = 1469598103934665603ull; for (size_t i = 0; i < p->snapn; i++) h = (h ^ (unsigned char)p->snap[i]) * 1099511628211ull;
        lg("SREAD %d n=%zu h=%016llx t=%llu", p->seq, p->snapn, (unsigned long long)h, (unsigned long long)now);
        R1(SYS_close, fd); p->rfd = -1;
      } else lg("SREAD %d missing t=%llu", p->seq, (unsigned long long)now);
      p->next = now; return;
    }
    case 'e': { /* re-read by path and compare */
      p->sc = s; long fd = R4(SYS_openat, AT_FDCWD, p->path, O_RDONLY | O_CLOEXEC, 0);
      if (fd < 0) lg("SCHECK %d missing t=%llu", p->seq, (unsigned long long)now);
      else { char *b; size_t n; rdall((int)fd, &b, &n); R1(SYS_close, fd); lg("SCHECK %d %s t=%llu", p->seq, !p->havesnap ? "nosnap" : (n == p->snapn && !memcmp(b, p->snap, n)) ? "same" : "changed", (unsigned long long)now); R2(SYS_munmap, b, rdcap); }
      p->next = now; return;
    }
    case 'w': { p->wfd = (int)num(&s); s++; p->woff = num(&s); s++; p->wlen = num(&s); p->sc = s; if (p->woff + p->wlen > blobn) { lg("HARNESS blob range"); finish(99, "HARNESS"); } break; }
    case 'c': { int f = (int)num(&s); p->sc = s; if (f >= 0 && f < 3) pclose_end(p, f); p->next = now; lg("SCLOSE %d fd=%d t=%llu", p->seq, f, (unsigned long long)now); return; }
    case 'x': { int c2 = (int)num(&s); p->sc = s; pdie(p, (c2 & 255) << 8, "self"); return; }
    case 'k': { int sg = (int)num(&s); p->sc = s; pdie(p, sg & 127, "signal"); return; }
    case 'h': { p->next = UINT64_MAX; p->hung = 1; lg("SHANG %d t=%llu", p->seq, (unsigned long long)now); return; }
    default: lg("HARNESS bad script %c", c); finish(99, "HARNESS");
    }
  }
  /* pending write */
  int f = p->wfd;
  if (f < 0 || f > 2 || (p->pipe[f] < 0 && p->inh[f] == -2)) { p->wlen = 0; p->next = now; return; } /* closed: EBADF, solver carries on */
  if (p->pipe[f] < 0) { /* inherited: goes to the tool's own fd */
    R3(SYS_write, p->inh[f], blob + p->woff, p->wlen); p->wrote += p->wlen;
    lg("SINHERIT %d fd=%d n=%zu", p->seq, f, p->wlen);
    p->wlen = 0; p->next = now; return;
  }
  spipe *q = &pipes[p->pipe[f]];
  if (q->readers <= 0) { lg("SIGPIPE %d t=%llu", p->seq, (unsigned long long)now); pdie(p, SIGPIPE, "signal"); return; }
  size_t k = pput(q, blob + p->woff, p->wlen);
  p->woff += k; p->wlen -= k; p->wrote += k;
  if (p->wlen) { p->wait_w = 1; p->next = UINT64_MAX; } else p->next = now;
}
static u64 pnext(proc *p) {
  if (p->st != PR_RUN) return UINT64_MAX;
  u64 n = p->next;
  if (p->wait_w) { spipe *q = p->pipe[p->wfd] >= 0 ? &pipes[p->pipe[p->wfd]] : 0; n = (!q || q->n < PIPECAP || q->readers <= 0) ? now : UINT64_MAX; }
  if (p->killat && p->killat < n) n = p->killat;
  return n;
}
static u64 next_event(void) {
  u64 e = UINT64_MAX;
  for (int i = 0; i < nP; i++) if (PR[i].st == PR_RUN) { u64 n = pnext(&PR[i]); if (n < e) e = n; }
  return e;
}
static void run_due(void) {
  for (;;) {
    proc *b = 0; u64 bt = UINT64_MAX;
    for (int i = 0; i < nP; i++) if (PR[i].st == PR_RUN) { u64 n = pnext(&PR[i]); if (n <= now && n < bt) { bt = n; b = &PR[i]; } }
    if (!b) return;
    b->wait_w = 0;
    pstep(b);
  }
}
static proc *find_pid(int pid) { proc *z = 0; for (int i = 0; i < nP; i++) if (!PR[i].feeder && PR[i].pid == pid) { z = &PR[i]; } return z; }
static int ready(thr *t) {
  switch (t->bk) {
  case B_FUTEX: return t->woken || (t->deadline && now >= t->deadline);
  case B_SLEEP: return now >= t->deadline;
  case B_PIPER: { fdent *f = &fds[t->bfd]; if (f->kind != 1) return 1; return pipes[f->pipe].n > 0 || pipes[f->pipe].writers <= 0; }
  case B_PIPEW: { fdent *f = &fds[t->bfd]; if (f->kind != 2) return 1; return pipes[f->pipe].n < PIPECAP || pipes[f->pipe].readers <= 0; }
  case B_WAIT: {
    if (t->bpid == -1) { int any = 0; for (int i = 0; i < nP; i++) if (!PR[i].feeder) { if (PR[i].st == PR_ZOMBIE) return 1; if (PR[i].st == PR_RUN) any = 1; } return !any; }
    proc *p = find_pid(t->bpid); return !p || p->st != PR_RUN;
  }
  case B_JOIN: return t->bj->st == T_DONE;
  case B_POLL: {
    if (t->deadline && now >= t->deadline) return 1;
    for (int i = 0; i < t->npf; i++) { int fd = t->pf[i].fd; if (fd < 0 || fd >= MAXFD) continue; fdent *f = &fds[fd]; if (f->kind == 1) { if (pipes[f->pipe].n || pipes[f->pipe].writers <= 0) return 1; } else return 1; }
    return 0;
  }
  }
  return 1;
}

static void finish(int code, const char *why) {
  if (finishing++) for (;;) R1(SYS_exit_group, 99);
  closing = 1;
  long used = bud0 - budget; if (used > 0 && cur) { cur->prog += used; total += used; now += used * P.edge_ns; bud0 = budget; }
  for (int i = 0; i < nP; i++) if (!PR[i].feeder) lg("PROC %d %s idx=%d state=%d status=%d killed=%d", PR[i].seq, PR[i].name, PR[i].idx, PR[i].st, PR[i].status, PR[i].killsig);
  for (int c = 0; c < NCLS; c++) if (clsn[c]) lg("COUNT %s %ld short=%ld eintr=%ld", clsname[c], clsn[c], fired_short[c], fired_eintr[c]);
  for (int i = 0; i < nT; i++) lg("THREAD %d state=%d prog=%llu", i, T[i].st, (unsigned long long)T[i].prog);
  lg("END %s code=%d t=%llu steps=%llu pre=%ld forced=%ld hash=%016llx mem=%llu", why, code, (unsigned long long)now, (unsigned long long)total, npre, nforcedtot, (unsigned long long)schedhash, (unsigned long long)memused);
  R1(SYS_exit_group, code);
  for (;;) ;
}

/* ------------------------------------------------------------------ time */
static u64 wall(void) { return P.t0 + now; }
EXPORT int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!inited) return (int)ret(R2(SYS_clock_gettime, c, ts));
  if (active && self == cur && !finishing) { account(); now += P.call_ns; set_budget(); }
  u64 v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? wall() : now + 1000000000ull * 3600;
  ts->tv_sec = v / 1000000000ull; ts->tv_nsec = v % 1000000000ull; return 0;
}
EXPORT int gettimeofday(struct timeval *tv, void *z) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
EXPORT time_t time(time_t *o) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (o) *o = t.tv_sec; return t.tv_sec; }
static int do_sleep(u64 dur, struct timespec *rem) {
  point();
  int e = fault(C_SLEEP, 0);
  u64 d = e ? dur / 2 : dur;
  if (d) block(B_SLEEP, now + d);
  if (e) { if (rem) { u64 l = dur - d; rem->tv_sec = l / 1000000000ull; rem->tv_nsec = l % 1000000000ull; } return EINTR; }
  return 0;
}
EXPORT int nanosleep(const struct timespec *r, struct timespec *rem) {
  if (!active) return (int)ret(R2(SYS_nanosleep, r, rem));
  int e = do_sleep(r->tv_sec * 1000000000ull + r->tv_nsec, rem); if (e) { errno = e; return -1; } return 0;
}
EXPORT int clock_nanosleep(clockid_t c, int fl, const struct timespec *r, struct timespec *rem) {
  if (!active) return (int)-R4(SYS_clock_nanosleep, c, fl, r, rem);
  u64 v = r->tv_sec * 1000000000ull + r->tv_nsec;
  if (fl & TIMER_ABSTIME) { u64 n = (c == CLOCK_REALTIME) ? wall() : now + 1000000000ull * 3600; v = v > n ? v - n : 0; }
  return do_sleep(v, rem);
}
EXPORT int usleep(useconds_t u) { struct timespec t = {u / 1000000, (u % 1000000) * 1000}; return nanosleep(&t, 0); }
EXPORT unsigned sleep(unsigned s) { struct timespec t = {s, 0}; nanosleep(&t, 0); return 0; }
EXPORT int sched_yield(void) {
  if (!active || self != cur) return 0;
  now += 1000; --budget; account(); run_due();
  thr *r[MAXT]; int k = list_runnable(r), m = 0;
  for (int i = 0; i < k; i++) if (r[i] != cur) r[m++] = r[i];
  if (m) { thr *n = r[0]; long c = cur->nforced++; if (P.mode == 3) { for (int i = 0; i < nfchs; i++) if (fchs[i].tid == cur->id && fchs[i].n == c) { int to = fchs[i].to; if (to >= 0 && to < nT && to != cur->id && runnable(&T[to])) n = &T[to]; } } else if (P.mode != 2) n = r[rndn(&rs, m)]; lg("C %d %ld %d", cur->id, c, n->id); switch_to(n); }
  else { u64 e = next_event(); for (int i = 0; i < nT; i++) if (T[i].st == T_BLOCK && T[i].deadline && T[i].deadline < e) e = T[i].deadline; if (e != UINT64_MAX && e > now) now = e; }
  set_budget();
  return 0;
}

/* ------------------------------------------------------------------ randomness, identity */
EXPORT ssize_t getrandom(void *b, size_t n, unsigned fl) {
  if (!inited) return ret(R3(SYS_getrandom, b, n, fl));
  unsigned char *p = b; for (size_t i = 0; i < n; i++) p[i] = (unsigned char)rnd(&rr);
  return n;
}
EXPORT int getentropy(void *b, size_t n) { getrandom(b, n, 0); return 0; }
EXPORT pid_t getpid(void) { return inited ? P.pidbase : (pid_t)R0(SYS_getpid); }
EXPORT pid_t gettid(void) { return active ? P.pidbase + (self ? self->id : 0) : (pid_t)R0(SYS_gettid); }
EXPORT int sched_getaffinity(pid_t p, size_t n, cpu_set_t *m) { memset(m, 0, n); int c = inited && P.ncpu ? P.ncpu : 4; for (int i = 0; i < c && i / 8 < (int)n; i++) ((unsigned char *)m)[i / 8] |= 1 << (i & 7); return 0; }
EXPORT int isatty(int fd) { if (inited && P.tty && fd >= 0 && fd <= 2) return 1; errno = ENOTTY; return 0; }
EXPORT long sysconf(int k) {
  if (inited && (k == _SC_NPROCESSORS_ONLN || k == _SC_NPROCESSORS_CONF)) return P.ncpu ? P.ncpu : 4;
  static long (*rsc)(int); if (!rsc) rsc = dlsym(RTLD_NEXT, "sysconf"); return rsc(k);
}
static char realcwd[PATH_MAX];
EXPORT char *getcwd(char *b, size_t n) {
  if (!active) { long r = R2(SYS_getcwd, b, n); if (r < 0) { errno = -r; return 0; } return b; }
  if (n < 15) { errno = ERANGE; return 0; }
  strcpy(b, "/proc/self/cwd"); return b;
}

/* ------------------------------------------------------------------ futex */
static long do_futex(u32 *addr, int op, u32 val, const struct timespec *to, u32 *a2, u32 v3) {
  int cmd = op & 127 & ~FUTEX_CLOCK_REALTIME;
  cmd = op & FUTEX_CMD_MASK;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    point();
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return -EAGAIN;
    if (fault(C_FUTEX, 0)) return 0; /* spurious wake-up */
    u64 dl = 0;
    if (to) {
      u64 v = to->tv_sec * 1000000000ull + to->tv_nsec;
      if (cmd == FUTEX_WAIT) dl = now + v;
      else { u64 n = (op & FUTEX_CLOCK_REALTIME) ? wall() : now + 1000000000ull * 3600; dl = now + (v > n ? v - n : 0); }
      if (dl == 0) dl = 1;
    }
    cur->faddr = addr; cur->fbits = cmd == FUTEX_WAIT_BITSET ? v3 : ~0u; cur->woken = 0;
    thr *me = cur;
    block(B_FUTEX, dl);
    me->faddr = 0;
    if (!me->woken) return -ETIMEDOUT;
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    u32 bits = cmd == FUTEX_WAKE_BITSET ? v3 : ~0u; int k = 0;
    for (int i = 0; i < nT && k < (int)val; i++) if (T[i].st == T_BLOCK && T[i].bk == B_FUTEX && T[i].faddr == addr && !T[i].woken && (T[i].fbits & bits)) { T[i].woken = 1; k++; }
    point();
    return k;
  }
  lg("HARNESS futex op %d", op); finish(99, "HARNESS");
}
EXPORT long syscall(long n, ...) {
  va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
  if (active && self == cur) switch (n) {
  case SYS_futex: return ret(do_futex((u32 *)a, (int)b, (u32)c, (void *)d, (u32 *)e, (u32)f));
  case SYS_getrandom: return getrandom((void *)a, b, c);
  case SYS_gettid: return gettid();
  case SYS_getpid: return getpid();
  case SYS_clock_gettime: return clock_gettime(a, (void *)b);
  case SYS_clone3: case SYS_clone: case SYS_fork: case SYS_vfork: lg("FORK %ld", n); errno = ENOSYS; return -1;
  case SYS_pidfd_open: case SYS_pidfd_send_signal: errno = ENOSYS; return -1;
  case SYS_exit_group: finish((int)a & 255, "exit");
  case SYS_copy_file_range: case SYS_sendfile: case SYS_splice: errno = ENOSYS; return -1;
  }
  return ret(R6(n, a, b, c, d, e, f));
}

/* ------------------------------------------------------------------ files */
static int inscratch(const char *p) {
  if (strstr(p, "..")) return 0;
  if (p[0] != '/') return 1;
  size_t l = strlen(realcwd);
  if (!strncmp(p, "/proc/self/cwd", 14) && (p[14] == '/' || !p[14])) return 1;
  if (l && !strncmp(p, realcwd, l) && (p[l] == '/' || !p[l])) return 1;
  return 0;
}
static int devok(const char *p) { return !strcmp(p, "/dev/null") || !strcmp(p, "/dev/stdout") || !strcmp(p, "/dev/stderr") || !strcmp(p, "/dev/full") || !strncmp(p, "/dev/fd/", 8); }
static void q1(const char *op, const char *p, long r) { char b[1024]; hexs(b, sizeof b, p); lg("%s %s = %ld tid=%d", op, b, r, cur ? cur->id : -1); }
static int do_open(const char *path, int fl, mode_t m) {
  if (!active || self != cur) return (int)ret(R4(SYS_openat, AT_FDCWD, path, fl, m));
  point();
  int wr = (fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC));
  if (wr && !inscratch(path) && !devok(path)) { q1("ESCAPE-open", path, 0); errno = EACCES; return -1; }
  int e = fault(wr ? C_OPENW : C_OPENR, 0);
  if (e) { q1("open!", path, -e); errno = e; return -1; }
  if ((fl & O_TMPFILE) == O_TMPFILE) { errno = EOPNOTSUPP; return -1; }
  long r = R4(SYS_openat, AT_FDCWD, path, fl, m);
  if (wr) q1((fl & O_EXCL) ? "create" : "openw", path, r); else if (!strncmp(path, "/proc/self/cwd", 14) || path[0] != '/') q1("openr", path, r);
  if (r >= 0 && r < MAXFD) { struct stat st; fds[r].kind = 0; if (!R2(SYS_fstat, r, &st) && S_ISREG(st.st_mode)) fds[r].kind = 3; if (!strcmp(path, "/dev/full")) fds[r].kind = 3; }
  if (r >= MAXFD) { lg("HARNESS fd"); finish(99, "HARNESS"); }
  return (int)ret(r);
}
EXPORT int open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, mode_t); va_end(ap); return do_open(p, fl, m); }
EXPORT int open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, mode_t); va_end(ap); return do_open(p, fl, m); }
EXPORT int openat(int d, const char *p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, mode_t); va_end(ap); if (d == AT_FDCWD || p[0] == '/') return do_open(p, fl, m); return (int)ret(R4(SYS_openat, d, p, fl, m)); }
EXPORT int openat64(int d, const char *p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, mode_t); va_end(ap); if (d == AT_FDCWD || p[0] == '/') return do_open(p, fl, m); return (int)ret(R4(SYS_openat, d, p, fl, m)); }
EXPORT int creat(const char *p, mode_t m) { return do_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
static void fdclose(int fd) {
  if (fd < 0 || fd >= MAXFD) return;
  fdent *f = &fds[fd];
  if (f->kind == 1) pipes[f->pipe].readers--;
  if (f->kind == 2) pipes[f->pipe].writers--;
  f->kind = 0;
}
EXPORT int close(int fd) {
  if (!active || self != cur) return (int)ret(R1(SYS_close, fd));
  point();
  fdclose(fd);
  int e = fault(C_CLOSE, 0);
  long r = R1(SYS_close, fd);
  if (e) { errno = e; return -1; }
  return (int)ret(r);
}
EXPORT ssize_t read(int fd, void *b, size_t n) {
  if (!active || self != cur) return ret(R3(SYS_read, fd, b, n));
  point();
  int kind = fd >= 0 && fd < MAXFD ? fds[fd].kind : 0;
  int cls = fd == 0 ? C_READIN : kind == 1 ? C_READP : C_READF;
  int e = fault(cls, 0); if (e) { errno = e; return -1; }
  n = shorten(cls, n);
  if (kind == 1) {
    spipe *p = &pipes[fds[fd].pipe];
    if (fds[fd].nb && p->n == 0 && p->writers > 0) { errno = EAGAIN; return -1; }
    while (p->n == 0 && p->writers > 0) { cur->bfd = fd; block(B_PIPER, 0); }
    run_due();
    long r = (long)pget(p, b, n);
    if (r == 0 && n) lg("EOF fd=%d pipe=%d tid=%d t=%llu", fd, fds[fd].pipe, cur->id, (unsigned long long)now);
    return r;
  }
  return ret(R3(SYS_read, fd, b, n));
}
static long diskused;
static ssize_t do_write(int fd, const void *b, size_t n) {
  point();
  int kind = fd >= 0 && fd < MAXFD ? fds[fd].kind : 0;
  int cls = fd == 1 ? C_WRITEO : fd == 2 ? C_WRITEE : C_WRITEF;
  if (kind == 2) {
    spipe *p = &pipes[fds[fd].pipe];
    while (p->n >= PIPECAP && p->readers > 0) { cur->bfd = fd; block(B_PIPEW, 0); }
    if (p->readers <= 0) { errno = EPIPE; return -1; }
    return (ssize_t)pput(p, b, n);
  }
  int e = fault(cls, 0); if (e) { if (e != EINTR) lg("writeerr fd=%d err=%d t=%llu", fd, e, (unsigned long long)now); errno = e; return -1; }
  n = shorten(cls, n);
  if (kind == 3 && P.diskcap >= 0) {
    long left = P.diskcap - diskused;
    if (left <= 0 && n) { static int once; if (!once++) lg("FAULT diskfull %ld 28 0 tid=%d t=%llu", diskused, cur->id, (unsigned long long)now); errno = ENOSPC; return -1; }
    if ((long)n > left) n = left;
  }
  long r = R3(SYS_write, fd, b, n);
  if (r > 0 && kind == 3) diskused += r;
  if (fd == 1 || fd == 2) lg("OUT fd=%d n=%ld t=%llu", fd, r, (unsigned long long)now);
  return ret(r);
}
EXPORT ssize_t write(int fd, const void *b, size_t n) { if (!active || self != cur) return ret(R3(SYS_write, fd, b, n)); return do_write(fd, b, n); }
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!active || self != cur) return ret(R3(SYS_writev, fd, v, c));
  for (int i = 0; i < c; i++) if (v[i].iov_len) return do_write(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { if (active && self == cur) { point(); int e = fault(C_WRITEF, 0); if (e) { errno = e; return -1; } } return ret(R4(SYS_pwrite64, fd, b, n, o)); }
#define PATHOP(op, cls, path, call) do { point(); if (!inscratch(path)) { q1("ESCAPE-" op, path, 0); errno = EACCES; return -1; } int e_ = fault(cls, 0); if (e_) { q1(op "!", path, -e_); errno = e_; return -1; } long r_ = call; q1(op, path, r_); return (int)ret(r_); } while (0)
EXPORT int mkdir(const char *p, mode_t m) { if (!active || self != cur) return (int)ret(R2(SYS_mkdir, p, m)); PATHOP("mkdir", C_MKDIR, p, R2(SYS_mkdir, p, m)); }
EXPORT int unlink(const char *p) { if (!active || self != cur) return (int)ret(R1(SYS_unlink, p)); PATHOP("unlink", C_UNLINK, p, R1(SYS_unlink, p)); }
EXPORT int rmdir(const char *p) { if (!active || self != cur) return (int)ret(R1(SYS_rmdir, p)); PATHOP("rmdir", C_UNLINK, p, R1(SYS_rmdir, p)); }
EXPORT int unlinkat(int d, const char *p, int fl) { if (!active || self != cur) return (int)ret(R3(SYS_unlinkat, d, p, fl)); PATHOP("unlink", C_UNLINK, p, R3(SYS_unlinkat, d, p, fl)); }
EXPORT int rename(const char *a, const char *p) { if (!active || self != cur) return (int)ret(R2(SYS_rename, a, p)); if (!inscratch(a)) { q1("ESCAPE-rename", a, 0); errno = EACCES; return -1; } q1("renamefrom", a, 0); PATHOP("rename", C_RENAME, p, R2(SYS_rename, a, p)); }
EXPORT int link(const char *a, const char *p) { if (!active || self != cur) return (int)ret(R2(SYS_link, a, p)); PATHOP("link", C_RENAME, p, R2(SYS_link, a, p)); }
EXPORT int symlink(const char *a, const char *p) { if (!active || self != cur) return (int)ret(R2(SYS_symlink, a, p)); PATHOP("symlink", C_RENAME, p, R2(SYS_symlink, a, p)); }
EXPORT int chmod(const char *p, mode_t m) { if (!active || self != cur) return (int)ret(R2(SYS_chmod, p, m)); PATHOP("chmod", C_RENAME, p, R2(SYS_chmod, p, m)); }
EXPORT int truncate64(const char *p, off_t n) { if (!active || self != cur) return (int)ret(R2(SYS_truncate, p, n)); PATHOP("truncate", C_RENAME, p, R2(SYS_truncate, p, n)); }
EXPORT int fsync(int fd) { if (active && self == cur) { point(); int e = fault(C_FSYNC, 0); if (e) { errno = e; return -1; } return 0; } return (int)ret(R1(SYS_fsync, fd)); }
EXPORT int fdatasync(int fd) { return fsync(fd); }
EXPORT int chdir(const char *p) { if (active) { lg("ESCAPE-chdir"); errno = EACCES; return -1; } return (int)ret(R1(SYS_chdir, p)); }
EXPORT int chroot(const char *p) { errno = EPERM; return -1; }
static int smtpath(const char *p) { size_t l = strlen(p); return l > 4 && !strcmp(p + l - 4, ".smt"); }
EXPORT int statx(int d, const char *restrict p, int fl, unsigned m, struct statx *restrict st) {
  if (active && self == cur) { point(); const char *volatile pv = p; if (pv && smtpath((const char *)pv)) { int e = fault(C_STAT, 0); if (e) { q1("stat!", p, -e); errno = e; return -1; } } }
  return (int)ret(R6(SYS_statx, d, p, fl, m, st, 0));
}
EXPORT int stat64(const char *restrict p, struct stat64 *restrict st) {
  if (active && self == cur) { point(); if (smtpath(p)) { int e = fault(C_STAT, 0); if (e) { q1("stat!", p, -e); errno = e; return -1; } } }
  return (int)ret(R2(SYS_stat, p, st));
}
EXPORT int stat(const char *restrict p, struct stat *restrict st) { return stat64(p, (struct stat64 *)st); }
EXPORT int dup(int fd) {
  if (active && self == cur && fd >= 0 && fd < MAXFD && (fds[fd].kind == 1 || fds[fd].kind == 2)) { int n = placeholder(); fds[n] = fds[fd]; if (fds[n].kind == 1) pipes[fds[n].pipe].readers++; else pipes[fds[n].pipe].writers++; return n; }
  long r = R1(SYS_dup, fd); if (r >= 0 && r < MAXFD && fd >= 0 && fd < MAXFD) fds[r] = fds[fd]; return (int)ret(r);
}
EXPORT int dup2(int a, int b) { if (active) { lg("HARNESS dup2"); finish(99, "HARNESS"); } return (int)ret(R2(SYS_dup2, a, b)); }
EXPORT int fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
  if (active && self == cur && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)) return dup(fd);
  if (active && fd >= 0 && fd < MAXFD && (fds[fd].kind == 1 || fds[fd].kind == 2)) { if (cmd == F_SETFL) { fds[fd].nb = !!(a & O_NONBLOCK); return 0; } if (cmd == F_GETFL) return (fds[fd].kind == 1 ? O_RDONLY : O_WRONLY) | (fds[fd].nb ? O_NONBLOCK : 0); }
  return (int)ret(R3(SYS_fcntl, fd, cmd, a));
}
EXPORT int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return fcntl(fd, cmd, a); }
EXPORT int ioctl(int fd, unsigned long rq, ...) {
  va_list ap; va_start(ap, rq); long a = va_arg(ap, long); va_end(ap);
  if (active && rq == 0x5421 && fd >= 0 && fd < MAXFD && (fds[fd].kind == 1 || fds[fd].kind == 2)) { fds[fd].nb = !!*(int *)a; return 0; }
  return (int)ret(R3(SYS_ioctl, fd, rq, a));
}
EXPORT int pipe2(int o[2], int fl) {
  if (!active || self != cur) return (int)ret(R2(SYS_pipe2, o, fl));
  point();
  int e = fault(C_PIPE, 0); if (e) { errno = e; return -1; }
  int p = newpipe(); o[0] = placeholder(); o[1] = placeholder();
  fds[o[0]] = (fdent){1, p, !!(fl & O_NONBLOCK)}; fds[o[1]] = (fdent){2, p, !!(fl & O_NONBLOCK)}; pipes[p].readers = pipes[p].writers = 1;
  lg("pipe %d r=%d w=%d tid=%d", p, o[0], o[1], cur->id);
  return 0;
}
EXPORT int pipe(int o[2]) { return pipe2(o, 0); }
EXPORT int socketpair(int d, int t, int p, int sv[2]) { if (active) { errno = ENOSYS; return -1; } return (int)ret(R4(SYS_socketpair, d, t, p, sv)); }
EXPORT int poll(struct pollfd *pf, nfds_t n, int to) {
  if (!active || self != cur) return (int)ret(R3(SYS_poll, pf, n, to));
  point();
  int any = 0; for (nfds_t i = 0; i < n; i++) if (pf[i].fd >= 0 && pf[i].fd < MAXFD && fds[pf[i].fd].kind == 1) any = 1;
  if (!any) { return (int)ret(R3(SYS_poll, pf, n, 0)); }
  cur->pf = pf; cur->npf = n; thr *me = cur;
  if (to != 0) { cur->bk = B_POLL; cur->deadline = 0; if (!ready(cur)) { me->bk = B_NONE; block(B_POLL, to > 0 ? now + to * 1000000ull : 0); } me->bk = B_NONE; }
  run_due();
  int k = 0;
  for (nfds_t i = 0; i < n; i++) { pf[i].revents = 0; int fd = pf[i].fd; if (fd < 0) continue; fdent *f = &fds[fd]; if (f->kind == 1) { if (pipes[f->pipe].n) pf[i].revents |= POLLIN; if (pipes[f->pipe].writers <= 0) pf[i].revents |= POLLHUP; } else pf[i].revents = pf[i].events & (POLLIN | POLLOUT); if (pf[i].revents) k++; }
  return k;
}

/* ------------------------------------------------------------------ spawning */
#define MAXFA 64
static struct { void *p; int n; struct { int a, b; } d[8]; } FA[MAXFA];
static int falook(void *p, int mk) { for (int i = 0; i < MAXFA; i++) if (FA[i].p == p) return i; if (mk) for (int i = 0; i < MAXFA; i++) if (!FA[i].p) { FA[i].p = p; FA[i].n = 0; return i; } return -1; }
EXPORT int posix_spawn_file_actions_init(posix_spawn_file_actions_t *f) { memset(f, 0, sizeof *f); int i = falook(f, 1); if (i >= 0) FA[i].n = 0; return 0; }
EXPORT int posix_spawn_file_actions_destroy(posix_spawn_file_actions_t *f) { int i = falook(f, 0); if (i >= 0) FA[i].p = 0; return 0; }
EXPORT int posix_spawn_file_actions_adddup2(posix_spawn_file_actions_t *f, int a, int b) { int i = falook(f, 1); if (i >= 0 && FA[i].n < 8) { FA[i].d[FA[i].n].a = a; FA[i].d[FA[i].n++].b = b; } return 0; }
EXPORT int posix_spawn_file_actions_addclose(posix_spawn_file_actions_t *f, int a) { return 0; }
EXPORT int posix_spawn_file_actions_addopen(posix_spawn_file_actions_t *restrict f, int a, const char *restrict p, int fl, mode_t m) { return 0; }
EXPORT int posix_spawn_file_actions_addchdir_np(posix_spawn_file_actions_t *restrict f, const char *restrict p) { return 0; }
static int do_spawn(pid_t *pid, const char *file, const posix_spawn_file_actions_t *fa, char *const argv[]) {
  point();
  char line[3000]; size_t l = 0;
  for (int i = 0; argv[i] && l < sizeof line - 600; i++) { char b[512]; hexs(b, sizeof b, argv[i]); l += snprintf(line + l, sizeof line - l, " %s", b); }
  int e = fault(C_SPAWN, 0);
  const char *bn = strrchr(file, '/'); bn = bn ? bn + 1 : file;
  if (!e && strchr(file, '/') && R2(SYS_access, file, X_OK) != 0) e = ENOENT;
  if (e) { lg("SPAWNFAIL %s err=%d tid=%d t=%llu%s", bn, e, cur->id, (unsigned long long)now, line); return e; }
  if (nP >= MAXP) { lg("HARNESS procs"); finish(99, "HARNESS"); }
  proc *p = &PR[nP]; memset(p, 0, sizeof *p);
  p->seq = nspawned++;
  snprintf(p->name, sizeof p->name, "%s", bn);
  p->idx = 0; for (int i = 0; i < nP; i++) if (!PR[i].feeder && !strcmp(PR[i].name, bn)) p->idx++;
  if (P.pidreuse && lastreaped) { p->pid = lastreaped; lastreaped = 0; } else p->pid = nextpid++;
  const char *last = ""; for (int i = 0; argv[i]; i++) last = argv[i];
  snprintf(p->path, sizeof p->path, "%s", last);
  p->sc = "d1000 o r x0"; int bestgen = 0;
  for (int i = 0; i < nscripts; i++) if (!strcmp(scripts[i].name, bn)) { if (scripts[i].idx == p->idx) { p->sc = scripts[i].script; bestgen = 2; } else if (scripts[i].idx < 0 && bestgen < 1) { p->sc = scripts[i].script; bestgen = 1; } }
  p->next = now; p->rfd = -1; p->wfd = 1;
  for (int i = 0; i < 3; i++) { p->pipe[i] = -1; p->inh[i] = i; }
  int k = falook((void *)fa, 0);
  if (k >= 0) for (int j = 0; j < FA[k].n; j++) { int a = FA[k].d[j].a, b = FA[k].d[j].b; if (b < 0 || b > 2 || a < 0 || a >= MAXFD) continue; if (fds[a].kind == 1 || fds[a].kind == 2) { p->pipe[b] = fds[a].pipe; if (fds[a].kind == 1) pipes[fds[a].pipe].readers++; else pipes[fds[a].pipe].writers++; p->inh[b] = -1; } else p->inh[b] = fds[a].kind == 0 && a > 2 ? -2 : a; }
  p->st = PR_RUN; p->status = -1; nP++;
  *pid = p->pid;
  lg("SPAWN %d %s idx=%d pid=%d script=%d opipe=%d tid=%d t=%llu%s", p->seq, bn, p->idx, p->pid, bestgen, p->pipe[1], cur->id, (unsigned long long)now, line);
  return 0;
}
EXPORT int posix_spawnp(pid_t *restrict pid, const char *restrict file, const posix_spawn_file_actions_t *restrict fa, const posix_spawnattr_t *restrict at, char *const argv[restrict], char *const envp[restrict]) { return do_spawn(pid, file, fa, argv); }
EXPORT int posix_spawn(pid_t *restrict pid, const char *restrict file, const posix_spawn_file_actions_t *restrict fa, const posix_spawnattr_t *restrict at, char *const argv[restrict], char *const envp[restrict]) { return do_spawn(pid, file, fa, argv); }
EXPORT int pidfd_spawnp(int *restrict f, const char *restrict a, const posix_spawn_file_actions_t *restrict b, const posix_spawnattr_t *restrict c, char *const d[restrict], char *const e[restrict]) { lg("pidfd_spawnp"); return ENOSYS; }
EXPORT pid_t fork(void) { lg("FORK"); errno = ENOSYS; return -1; }
EXPORT pid_t vfork(void) { lg("FORK"); errno = ENOSYS; return -1; }
EXPORT int execvp(const char *f, char *const a[]) { errno = ENOSYS; return -1; }
EXPORT int execve(const char *f, char *const a[], char *const e[]) { errno = ENOSYS; return -1; }
EXPORT int kill(pid_t pid, int sig) {
  if (!active) { errno = EPERM; return -1; }
  point();
  int e = fault(C_KILL, 0);
  proc *p = find_pid(pid < -1 ? -pid : pid);
  const char *st = !p ? "unknown" : p->st == PR_RUN ? "running" : p->st == PR_ZOMBIE ? "zombie" : "reaped";
  lg("KILL pid=%d seq=%d sig=%d target=%s err=%d tid=%d t=%llu", pid, p ? p->seq : -1, sig, st, e, cur->id, (unsigned long long)now);
  if (e) { errno = e; return -1; }
  if (!p || p->st == PR_REAPED) { errno = ESRCH; return -1; }
  if (sig == 0) return 0;
  if (p->st == PR_RUN) { p->killat = now + P.killlat; if (!p->killat) p->killat = 1; p->killsig = sig; }
  set_budget();
  return 0;
}
EXPORT int killpg(pid_t pg, int sig) { return kill(-pg, sig); }
static proc *waitable(int pid, int *nochild) {
  *nochild = 1; proc *z = 0;
  for (int i = 0; i < nP; i++) { proc *p = &PR[i]; if (p->feeder) continue; if (pid != -1 && p->pid != pid) continue; if (p->st == PR_REAPED) continue; *nochild = 0; if (p->st == PR_ZOMBIE && !z) z = p; }
  return z;
}
static void reap(proc *p) { p->st = PR_REAPED; lastreaped = p->pid; lg("REAP %d pid=%d status=%d tid=%d t=%llu", p->seq, p->pid, p->status, cur->id, (unsigned long long)now); }
EXPORT pid_t waitpid(pid_t pid, int *st, int opt) {
  if (!active || self != cur) { errno = ECHILD; return -1; }
  point();
  int e = fault(C_WAIT, 0); if (e == EINTR && (opt & WNOHANG)) e = 0; if (e) { errno = e; return -1; }
  for (;;) {
    int nc; proc *z = waitable(pid, &nc);
    if (nc) { errno = ECHILD; return -1; }
    if (z) { if (st) *st = z->status; reap(z); return z->pid; }
    if (opt & WNOHANG) return 0;
    cur->bpid = pid; block(B_WAIT, 0);
  }
}
EXPORT pid_t wait4(pid_t pid, int *st, int opt, struct rusage *ru) { return waitpid(pid, st, opt); }
EXPORT pid_t wait(int *st) { return waitpid(-1, st, 0); }
EXPORT int waitid(idtype_t t, id_t id, siginfo_t *si, int opt) {
  if (!active || self != cur) { errno = ECHILD; return -1; }
  point();
  int e = fault(C_WAIT, 0); if (e == EINTR && (opt & WNOHANG)) e = 0; if (e) { errno = e; return -1; }
  int pid = t == P_PID ? (int)id : -1;
  for (;;) {
    int nc; proc *z = waitable(pid, &nc);
    if (nc) { errno = ECHILD; return -1; }
    if (z) {
      if (si) { memset(si, 0, sizeof *si); si->si_signo = SIGCHLD; si->si_pid = z->pid; si->si_code = (z->status & 127) ? CLD_KILLED : CLD_EXITED; si->si_status = (z->status & 127) ? (z->status & 127) : (z->status >> 8); }
      if (!(opt & WNOWAIT)) reap(z);
      return 0;
    }
    if (opt & WNOHANG) { if (si) memset(si, 0, sizeof *si); return 0; }
    cur->bpid = pid; block(B_WAIT, 0);
  }
}
EXPORT int pause(void) { lg("HARNESS pause"); finish(99, "HARNESS"); }

/* ------------------------------------------------------------------ pthreads */
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);
static void run_dtors(thr *t) {
  while (t->dt) { dtor *d = t->dt; t->dt = d->n; d->f(d->a); free(d); }
}
typedef void (*kd)(void *);
static kd keyd[64]; static int keyused[64];
static void run_keys(thr *t) { for (int it = 0; it < 4; it++) { int any = 0; for (int i = 0; i < 64; i++) if (keyused[i] && t->keys[i] && keyd[i]) { void *v = t->keys[i]; t->keys[i] = 0; keyd[i](v); any = 1; } run_dtors(t); if (!any) break; } }
static void *tramp(void *a) {
  thr *t = a; self = t;
  park(t);
  set_budget();
  t->retv = t->fn(t->arg);
  run_dtors(t); run_keys(t);
  account();
  t->st = T_DONE;
  lg("tdone %d t=%llu", t->id, (unsigned long long)now);
  self = 0; /* from here on this thread is outside the simulation */
  thr *me = t;
  /* choose successor; cur is still me inside forced() */
  (void)me;
  self = t;
  forced(1);
  self = 0;
  return t->retv;
}
EXPORT int pthread_create(pthread_t *restrict o, const pthread_attr_t *restrict at, void *(*fn)(void *), void *restrict arg) {
  if (!real_create) real_create = dlsym(RTLD_NEXT, "pthread_create");
  if (!active || self != cur) return real_create(o, at, fn, arg);
  point();
  int e = fault(C_THREAD, 0); if (e) return e;
  if (nT >= MAXT) { lg("HARNESS threads"); finish(99, "HARNESS"); }
  int slot = -1; for (int i = 1; i < MAXT; i++) if (!slotuse[i]) { slot = i; break; }
  slotuse[slot] = 1;
  char *st = (char *)(STACK_BASE + P.stackoff * 0 + (u64)slot * STKSLOT);
  R2(SYS_munmap, st, STKSLOT);
  rmmap(st, STKSLOT, MAP_FIXED); R3(SYS_mprotect, st, 4096, PROT_NONE);
  thr *t = &T[nT]; memset(t, 0, sizeof *t); t->id = nT; t->slot = slot; t->fn = fn; t->arg = arg; t->st = T_RUN;
  t->prio = (int)rndn(&rs, 1000) + 1;
  pthread_attr_t a2; pthread_attr_init(&a2); pthread_attr_setstack(&a2, st + 4096, STKSZ - P.stackoff);
  nT++;
  int r = real_create(&t->real, &a2, tramp, t);
  pthread_attr_destroy(&a2);
  if (r) { lg("HARNESS real create %d", r); finish(99, "HARNESS"); }
  *o = t->real;
  lg("tcreate %d by %d t=%llu", t->id, cur->id, (unsigned long long)now);
  point();
  return 0;
}
static thr *bypt(pthread_t p) { for (int i = nT - 1; i >= 0; i--) if (T[i].real == p && !T[i].joined) return &T[i]; return 0; }
EXPORT int pthread_join(pthread_t p, void **rv) {
  if (!real_join) real_join = dlsym(RTLD_NEXT, "pthread_join");
  if (!active || self != cur) return real_join(p, rv);
  point();
  thr *t = bypt(p); if (!t) return ESRCH;
  while (t->st != T_DONE) { cur->bj = t; block(B_JOIN, 0); }
  t->joined = 1; real_join(p, 0); slotuse[t->slot] = 0;
  if (rv) *rv = t->retv;
  lg("tjoin %d by %d t=%llu", t->id, cur->id, (unsigned long long)now);
  return 0;
}
EXPORT int pthread_detach(pthread_t p) { if (active) { thr *t = bypt(p); if (t) { t->detached = 1; return 0; } return ESRCH; } return 0; }
EXPORT int pthread_getattr_np(pthread_t p, pthread_attr_t *a) {
  pthread_attr_init(a);
  thr *t = self ? self : &T[0];
  char *st = (char *)(STACK_BASE + (u64)t->slot * STKSLOT);
  pthread_attr_setstack(a, st + 4096, STKSZ - 4096);
  return 0;
}
EXPORT int pthread_setname_np(pthread_t p, const char *n) { return 0; }
EXPORT int pthread_key_create(pthread_key_t *k, void (*d)(void *)) { for (int i = 1; i < 64; i++) if (!keyused[i]) { keyused[i] = 1; keyd[i] = d; *k = i; return 0; } return EAGAIN; }
EXPORT int pthread_key_delete(pthread_key_t k) { if (k < 64) keyused[k] = 0; return 0; }
static void *prekeys[64];
EXPORT int pthread_setspecific(pthread_key_t k, const void *v) { if (k >= 64) return EINVAL; if (self) self->keys[k] = (void *)v; else prekeys[k] = (void *)v; return 0; }
EXPORT void *pthread_getspecific(pthread_key_t k) { if (k >= 64) return 0; return self ? self->keys[k] : prekeys[k]; }
EXPORT int __cxa_thread_atexit_impl(void (*f)(void *), void *a, void *dso) {
  if (!self) return 0;
  dtor *d = amalloc(sizeof *d, 16); d->f = f; d->a = a; d->n = self->dt; self->dt = d; return 0;
}

/* mmap by the runtime (signal stacks): fixed addresses */
static char *miscb = (char *)MISC_BASE;
EXPORT void *mmap64(void *a, size_t n, int pr, int fl, int fd, off_t o) {
  if (active && !a && (fl & MAP_ANONYMOUS) && self == cur) { a = miscb; miscb += (n + 0xffff) & ~0xfffful; fl |= MAP_FIXED; }
  return (void *)ret(R6(SYS_mmap, a, n, pr, fl, fd, o));
}
EXPORT void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) { return mmap64(a, n, pr, fl, fd, o); }

/* ------------------------------------------------------------------ exits */
EXPORT void exit(int c) { if (!active) R1(SYS_exit_group, c); if (self == cur) { account(); lg("exit() tid=%d", cur->id); } finish(c & 255, "exit"); }
EXPORT void _exit(int c) { if (!active) R1(SYS_exit_group, c); finish(c & 255, "exit"); }
EXPORT void _Exit(int c) { _exit(c); }
EXPORT void quick_exit(int c) { _exit(c); }
EXPORT void abort(void) { if (!active) R1(SYS_exit_group, 134); finish(134, "ABORT"); }

/* ------------------------------------------------------------------ init */
static char *planb;
static char *slurp(const char *f, size_t *n) {
  long fd = R4(SYS_openat, AT_FDCWD, f, O_RDONLY | O_CLOEXEC, 0); if (fd < 0) return 0;
  char *b; size_t k; rdall((int)fd, &b, &k); R1(SYS_close, fd); if (n) *n = k; return b;
}
static int clsof(const char *s) { for (int i = 0; i < NCLS; i++) if (!strcmp(s, clsname[i])) return i; return -1; }
static void die(const char *m) { R3(SYS_write, 2, m, strlen(m)); R3(SYS_write, 2, "\n", 1); R1(SYS_exit_group, 99); }
static void parse_plan(void) {
  P.mode = 2; P.gap = 1e5; P.maxpre = 3000; P.edge_ns = 10; P.call_ns = 1000; P.t0 = 1700000000ull * 1000000000ull; P.killlat = 1000000; P.pidbase = 4242; P.diskcap = -1; P.maxsteps = 4000000000ull; P.maxvt = 86400ull * 1000000000ull * 30; P.maxmem = 1500ull << 20; nextpid = 5000;
  char *l = planb, *nl;
  for (; l && *l; l = nl) {
    nl = strchr(l, '\n'); if (nl) *nl++ = 0;
    char k[32]; int off = 0; if (sscanf(l, "%31s %n", k, &off) < 1) continue;
    char *v = l + off;
#define KV(name, stmt) else if (!strcmp(k, name)) { stmt; }
    if (0) ;
    KV("seed", P.seed = strtoull(v, 0, 10)) KV("mode", P.mode = atoi(v)) KV("gap", P.gap = atof(v)) KV("burst", P.burst = atof(v)) KV("maxpre", P.maxpre = atol(v))
    KV("pcall", P.pcall = atof(v)) KV("pwake", P.pwake = atof(v)) KV("pctd", P.pctd = atoi(v)) KV("pctlen", P.pctlen = strtoull(v, 0, 10))
    KV("edge_ns", P.edge_ns = strtoull(v, 0, 10)) KV("call_ns", P.call_ns = strtoull(v, 0, 10)) KV("pstatic", P.pstatic = atof(v)) KV("ncpu", P.ncpu = atoi(v)) KV("tty", P.tty = atoi(v)) KV("t0", P.t0 = strtoull(v, 0, 10)) KV("randseed", P.randseed = strtoull(v, 0, 10))
    KV("killlat", P.killlat = strtoull(v, 0, 10)) KV("pidreuse", P.pidreuse = atoi(v)) KV("pidbase", P.pidbase = atoi(v)) KV("heapoff", P.heapoff = strtoull(v, 0, 10)) KV("stackoff", P.stackoff = strtoull(v, 0, 10))
    KV("hpol", P.hpol = atoi(v)) KV("hdown", P.hdown = atoi(v)) KV("hpad", P.hpad = atof(v)) KV("poison", P.poison = atoi(v)) KV("alwaysmove", P.alwaysmove = atoi(v)) KV("diskcap", P.diskcap = atol(v))
    KV("maxsteps", P.maxsteps = strtoull(v, 0, 10)) KV("crash", P.crash = strtoull(v, 0, 10)) KV("maxvt", P.maxvt = strtoull(v, 0, 10)) KV("stdin", P.stdin_script = v) KV("maxmem", P.maxmem = strtoull(v, 0, 10))
    else if (!strcmp(k, "fault")) { char c[32]; long nth, err, arg; if (sscanf(v, "%31s %ld %ld %ld", c, &nth, &err, &arg) != 4 || clsof(c) < 0 || nfaults >= MAXFAULT) die("bad fault"); faults[nfaults++] = (faultspec){clsof(c), nth, (int)err, arg, 0}; }
    else if (!strcmp(k, "short")) { char c[32]; unsigned p; long mx; unsigned long long sd; if (sscanf(v, "%31s %u %ld %llu", c, &p, &mx, &sd) != 4 || clsof(c) < 0) die("bad short"); shortio[clsof(c)] = (noise){p, mx, sd}; }
    else if (!strcmp(k, "eintr")) { char c[32]; unsigned p; unsigned long long sd; if (sscanf(v, "%31s %u %llu", c, &p, &sd) != 3 || clsof(c) < 0) die("bad eintr"); eintr[clsof(c)] = (noise){p, 0, sd}; }
    else if (!strcmp(k, "script")) { if (nscripts >= MAXSCRIPT) die("scripts"); int o2 = 0; solverscript *s = &scripts[nscripts]; if (sscanf(v, "%31s %d %n", s->name, &s->idx, &o2) < 2) die("bad script"); s->script = v + o2; nscripts++; }
    else if (!strcmp(k, "P")) { if (npres == cappres) { cappres = cappres ? cappres * 2 : 1024; pre *q = (pre *)R6(SYS_mmap, 0, cappres * sizeof *q, 3, 0x22, -1, 0); if (npres) memcpy(q, pres, npres * sizeof *q); pres = q; } unsigned long long g; if (sscanf(v, "%d %llu %d", &pres[npres].tid, &g, &pres[npres].to) != 3) die("bad P"); pres[npres++].prog = g; }
    else if (!strcmp(k, "C")) { if (nfchs == capfchs) { capfchs = capfchs ? capfchs * 2 : 1024; fch *q = (fch *)R6(SYS_mmap, 0, capfchs * sizeof *q, 3, 0x22, -1, 0); if (nfchs) memcpy(q, fchs, nfchs * sizeof *q); fchs = q; } if (sscanf(v, "%d %ld %d", &fchs[nfchs].tid, &fchs[nfchs].n, &fchs[nfchs].to) != 3) die("bad C"); nfchs++; }
    else die("unknown plan key");
  }
}
static int (*real_lsm)(int (*)(int, char **, char **), int, char **, void (*)(void), void (*)(void), void (*)(void), void *);
static int (*user_main)(int, char **, char **);
static int g_argc; static char **g_argv; static int g_ret; static void (*g_i)(void), (*g_f)(void), (*g_rf)(void); static void *g_se;
static void sim_init(void) {
  const char *pf = getenv("SIM_PLAN"), *lf = getenv("SIM_LOG"), *bf = getenv("SIM_BLOB"), *cf = getenv("SIM_COV");
  if (!pf || !lf) die("SIM_PLAN/SIM_LOG missing");
  planb = slurp(pf, 0); if (!planb) die("no plan");
  parse_plan();
  if (bf && *bf) { blob = slurp(bf, &blobn); if (!blob) die("no blob"); }
  long fd = R4(SYS_openat, AT_FDCWD, lf, O_RDWR | O_CLOEXEC, 0); struct stat st; if (fd < 0 || R2(SYS_fstat, fd, &st)) die("no log");
  logcap = st.st_size; logbuf = (char *)R6(SYS_mmap, 0, logcap, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); R1(SYS_close, fd);
  if (cf && *cf) { fd = R4(SYS_openat, AT_FDCWD, cf, O_RDWR | O_CLOEXEC, 0); if (fd >= 0 && !R2(SYS_fstat, fd, &st)) { covcap = st.st_size; covmap = (uint8_t *)R6(SYS_mmap, 0, covcap, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); R1(SYS_close, fd); } }
  R2(SYS_getcwd, realcwd, sizeof realcwd);
  PR = (proc *)R6(SYS_mmap, 0, sizeof(proc) * MAXP, 3, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  rs.s = mix(P.seed); rh.s = mix(P.seed ^ 0x4845); rr.s = mix(P.randseed);
  P.heapoff &= 0xfffffff0ull; P.stackoff = (P.stackoff % 65536) & ~15ull;
  hbase = (char *)HEAP_BASE; rmmap(hbase, 8ul << 30, MAP_FIXED);
  hlo = hbase + P.heapoff % (1ul << 30); hhi = hbase + (8ul << 30); if (P.hdown) hhi -= P.heapoff % (1ul << 30);
  char *stk = (char *)STACK_BASE; rmmap(stk, STKSLOT, MAP_FIXED); R3(SYS_mprotect, stk, 4096, PROT_NONE); slotuse[0] = 1;
  real_create = dlsym(RTLD_NEXT, "pthread_create"); real_join = dlsym(RTLD_NEXT, "pthread_join");
  memset(&T[0], 0, sizeof T[0]); T[0].st = T_RUN; T[0].prio = 500; nT = 1; self = cur = &T[0];
  memcpy(T[0].keys, prekeys, sizeof prekeys);
  if (P.mode == 0) nextpre = next_gap();
  if (P.pstatic > 0) st_init();
  if (P.mode == 1) { npct = P.pctd > 64 ? 64 : P.pctd; for (int i = 0; i < npct; i++) pctpts[i] = 1 + rndn(&rs, P.pctlen ? P.pctlen : 1000000); T[0].prio = (int)rndn(&rs, 1000) + 1; }
  /* fds 0..2 */
  for (int i = 1; i < 3; i++) { fds[i].kind = 0; }
  if (P.stdin_script) {
    int p = newpipe(); fds[0] = (fdent){1, p}; pipes[p].readers = 1; pipes[p].writers = 1;
    proc *q = &PR[nP++]; memset(q, 0, sizeof *q); q->feeder = 1; q->pid = -7; q->seq = -1; snprintf(q->name, 32, "feeder"); q->sc = P.stdin_script; q->pipe[0] = q->pipe[2] = -1; q->pipe[1] = p; q->inh[0] = q->inh[2] = -2; q->st = PR_RUN; q->rfd = -1;
  }
  lg("START seed=%llu mode=%d", (unsigned long long)P.seed, P.mode);
  inited = 1;
}
static int sim_main(int argc, char **argv, char **envp) {
  active = 1;
  set_budget();
  g_ret = user_main(argc, argv, envp);
  account();
  run_dtors(&T[0]);
  lg("main returned %d", g_ret);
  finish(g_ret & 255, "exit");
}
static void on_stack(void) { real_lsm(sim_main, g_argc, g_argv, g_i, g_f, g_rf, g_se); }
EXPORT int __libc_start_main(int (*m)(int, char **, char **), int argc, char **argv, void (*i)(void), void (*f)(void), void (*rf)(void), void *se) {
  real_lsm = dlsym(RTLD_NEXT, "__libc_start_main");
  user_main = m; g_argc = argc; g_argv = argv; g_i = i; g_f = f; g_rf = rf; g_se = se;
  sim_init();
  /* static constructors and main run on a stack whose address the plan decides */
  char *sp = (char *)STACK_BASE + STKSZ - P.stackoff; sp = (char *)((u64)sp & ~63ul);
  __asm__ volatile("movq %0, %%rsp\n\txorq %%rbp, %%rbp\n\tcall *%1\n\thlt\n\t" : : "r"(sp), "r"(on_stack) : "memory");
  __builtin_unreachable();
}
