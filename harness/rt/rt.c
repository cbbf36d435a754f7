// Controlled scheduler for the instrumented build.
//
// The crate and everything it pulls in is compiled with LLVM's ThreadSanitizer pass; instead of
// the sanitizer runtime this file answers the pass's callbacks. One registered thread runs at a
// time. A callback for memory that two threads touch, one of them writing, is a scheduling point:
// the explorer (sched.rs) decides who runs next. futex waits and wakes are emulated, so blocking
// is part of the explored behaviour. Every execution happens in a forked child.
#define _GNU_SOURCE
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#define MAXT 4
#define MAXPOINTS (1u << 19)
#define MAXPREFIX (1u << 19)
#define MAXCONF 8192
#define SPIN 400

struct point { uint8_t cur, choice, enabled, cur_enabled; };
struct report {
  // in
  uint32_t nthreads, plen, nconf, pad0;
  uint64_t conf[MAXCONF];
  uint8_t prefix[MAXPREFIX];
  // out
  uint32_t npoints, overflow, diverged, deadlock, done, nnew, pad1, pad2;
  uint64_t accesses, switches, blocks, granules;
  uint64_t newconf[MAXCONF];
  uint32_t failed; // set by the driver
  char msg[4096];
  struct point pt[MAXPOINTS];
};

static struct report *R;
static volatile int baton = -1; // whose turn; futex word
static int nthreads;
static int finished[MAXT], blocked[MAXT], timed[MAXT], woken_timeout[MAXT];
static uint32_t *waitaddr[MAXT];
static uintptr_t stack_lo[MAXT], stack_hi[MAXT];
static uint64_t last_g[MAXT];
static uint32_t same_g[MAXT];
static uint64_t conf_tab[MAXCONF * 4];

static __thread int me = -1;
static __thread int on = 0;   // inside a call into the crate
static __thread int inrt = 0; // inside this file

// ---------------------------------------------------------------- shadow memory
#define SH_BITS 20
struct sh { uint64_t g; uint8_t rd, wr; };
static struct sh *shadow;
static uint64_t shadow_n;

static inline struct sh *sh_get(uint64_t g) {
  uint64_t h = ((g >> 6) * 0x9e3779b97f4a7c15ull) >> 20;
  uint64_t i = ((h << 6) | (g & 63)) & ((1u << SH_BITS) - 1);
  for (;;) {
    struct sh *s = &shadow[i];
    if (s->g == g) return s;
    if (!s->g) {
      if (shadow_n > (1u << SH_BITS) * 3 / 4) return NULL;
      shadow_n++;
      s->g = g;
      return s;
    }
    i = (i + 1) & ((1u << SH_BITS) - 1);
  }
}
static inline int in_conf(uint64_t g) {
  uint64_t i = (g * 0x9e3779b97f4a7c15ull) >> 49; // 15 bits
  while (conf_tab[i & (MAXCONF * 4 - 1)]) {
    if (conf_tab[i & (MAXCONF * 4 - 1)] == g) return 1;
    i++;
  }
  return 0;
}

// ---------------------------------------------------------------- real system calls
static long sys6(long n, long a, long b, long c, long d, long e, long f) {
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  long ret;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}
static void fwait(volatile int *p, int v) { sys6(SYS_futex, (long)p, FUTEX_WAIT, v, 0, 0, 0); }
static void fwake(volatile int *p) { sys6(SYS_futex, (long)p, FUTEX_WAKE, 1 << 30, 0, 0, 0); }

// ---------------------------------------------------------------- scheduler
static int runnable(int t) { return !finished[t] && !blocked[t]; }
static int enabled_mask(void) {
  int m = 0;
  for (int t = 0; t < nthreads; t++)
    if (runnable(t)) m |= 1 << t;
  return m;
}
static void give(int t) {
  if (t == me) return;
  R->switches++;
  __atomic_store_n(&baton, t, __ATOMIC_SEQ_CST);
  fwake(&baton);
}
static void wait_turn(void) {
  for (;;) {
    int b = __atomic_load_n(&baton, __ATOMIC_SEQ_CST);
    if (b == me) return;
    fwait(&baton, b);
  }
}
// one recorded decision; cur is the deciding thread, runnable or not
static int decide(int cur, int mask, int dflt) {
  uint32_t i = R->npoints;
  int c = dflt;
  if (i < R->plen) {
    c = R->prefix[i];
    if (!(mask >> c & 1)) {
      R->diverged = 1;
      c = dflt;
    }
  }
  if (i >= MAXPOINTS) {
    R->overflow = 1;
    return dflt;
  }
  R->pt[i].cur = cur;
  R->pt[i].choice = c;
  R->pt[i].enabled = mask;
  R->pt[i].cur_enabled = cur >= 0 && (mask >> cur & 1);
  R->npoints = i + 1;
  return c;
}
static int first(int mask, int from) {
  for (int k = 1; k <= nthreads; k++) {
    int t = (from + k) % nthreads;
    if (mask >> t & 1) return t;
  }
  return -1;
}
static void finish_report(void) {
  uint32_t n = 0;
  uint64_t gr = 0;
  for (uint64_t i = 0; i < (1u << SH_BITS); i++) {
    struct sh *s = &shadow[i];
    if (!s->g) continue;
    gr++;
    int all = s->rd | s->wr;
    if (s->wr && (all & (all - 1)) && !in_conf(s->g)) {
      if (n < MAXCONF) R->newconf[n++] = s->g;
      else R->overflow = 1;
    }
  }
  R->nnew = n;
  R->granules = gr;
}
static void dead(void) {
  R->deadlock = 1;
  finish_report();
  R->done = 1;
  _exit(0);
}
// the running thread cannot go on: someone else must
static void hand_over(void) {
  int mask = enabled_mask();
  if (!mask) {
    for (int t = 0; t < nthreads; t++)
      if (!finished[t] && blocked[t] && timed[t]) {
        blocked[t] = 0;
        woken_timeout[t] = 1;
        mask |= 1 << t;
        break;
      }
  }
  if (!mask) dead();
  int c = decide(me, mask, first(mask, me));
  if (c == me) return;
  give(c);
}
static void sched_point(uint64_t g) {
  int mask = enabled_mask();
  if (!(mask & ~(1 << me))) return; // nobody else to run
  // a thread that only looks at one word again and again is waiting for somebody
  if (g == last_g[me]) same_g[me]++;
  else { last_g[me] = g; same_g[me] = 0; }
  int c;
  if (same_g[me] > SPIN) {
    same_g[me] = 0;
    c = first(mask & ~(1 << me), me); // fairness, not a decision
  } else
    c = decide(me, mask, me);
  if (c != me) {
    give(c);
    wait_turn();
  }
}
static void yield_now_(void) {
  int mask = enabled_mask() & ~(1 << me);
  if (!mask) return;
  give(first(mask, me));
  wait_turn();
}

static void access_range(const void *p, size_t n, int wr, int rd) {
  if (me < 0 || !on || inrt || !n) return;
  uintptr_t a = (uintptr_t)p;
  if (a >= stack_lo[me] && a < stack_hi[me]) return;
  inrt = 1;
  R->accesses++;
  int hit = 0;
  uint64_t hg = 0;
  for (uint64_t g = a >> 3; g <= (a + n - 1) >> 3; g++)
    if (in_conf(g)) { hit = 1; hg = g; break; }
  if (hit) sched_point(hg);
  for (uint64_t g = a >> 3; g <= (a + n - 1) >> 3; g++) {
    struct sh *s = sh_get(g);
    if (!s) { R->overflow = 1; break; }
    if (wr) s->wr |= 1 << me;
    if (rd) s->rd |= 1 << me;
  }
  inrt = 0;
}

// ---------------------------------------------------------------- driver interface
struct report *rt_new_report(void) {
  void *p = mmap(NULL, sizeof(struct report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  return p == MAP_FAILED ? NULL : p;
}
#define ARENA (64ul << 20)
static char *arena[MAXT], *arena_p[MAXT];
void rt_init(void) {
  shadow = mmap(NULL, sizeof(struct sh) << SH_BITS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  for (int t = 0; t < MAXT; t++) {
    arena[t] = mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    arena_p[t] = arena[t];
  }
}
void rt_child(struct report *r) {
  R = r;
  nthreads = r->nthreads;
  memset(conf_tab, 0, sizeof conf_tab);
  for (uint32_t i = 0; i < r->nconf; i++) {
    uint64_t k = (r->conf[i] * 0x9e3779b97f4a7c15ull) >> 49;
    while (conf_tab[k & (MAXCONF * 4 - 1)]) k++;
    conf_tab[k & (MAXCONF * 4 - 1)] = r->conf[i];
  }
}
void rt_thread_start(int t) {
  pthread_attr_t at;
  void *lo;
  size_t sz;
  if (!pthread_getattr_np(pthread_self(), &at)) {
    pthread_attr_getstack(&at, &lo, &sz);
    stack_lo[t] = (uintptr_t)lo;
    stack_hi[t] = (uintptr_t)lo + sz;
    pthread_attr_destroy(&at);
  }
  me = t;
  wait_turn();
}
// first decision: who starts. Called by the main thread once all threads wait or will wait.
void rt_go(void) {
  int mask = (1 << nthreads) - 1;
  int c = decide(-1, mask, 0);
  __atomic_store_n(&baton, c, __ATOMIC_SEQ_CST);
  fwake(&baton);
}
void rt_region(int v) { on = v; }
void rt_thread_end(void) {
  on = 0;
  inrt = 1;
  finished[me] = 1;
  int left = 0;
  for (int t = 0; t < nthreads; t++) left |= !finished[t];
  if (left) hand_over();
  else {
    finish_report();
    R->done = 1;
  }
  me = -1;
  inrt = 0;
}
void *rt_alloc(size_t n, size_t al) {
  if (me >= 0 && on) {
    char *p = (char *)(((uintptr_t)arena_p[me] + al - 1) & ~(al - 1));
    if (p + n > arena[me] + ARENA) { R->overflow = 1; return aligned_alloc(al < 16 ? 16 : al, (n + 63) & ~63ul); }
    arena_p[me] = p + n;
    return p;
  }
  return aligned_alloc(al < 16 ? 16 : al, (n + al + 63) / (al < 16 ? 16 : al) * (al < 16 ? 16 : al));
}
void rt_free(void *p) {
  for (int t = 0; t < MAXT; t++)
    if ((char *)p >= arena[t] && (char *)p < arena[t] + ARENA) return;
  free(p);
}

// ---------------------------------------------------------------- interposed blocking calls
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && me >= 0 && on && !inrt) {
    int op = b & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
    uint32_t *p = (uint32_t *)a;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      inrt = 1;
      if (__atomic_load_n(p, __ATOMIC_SEQ_CST) != (uint32_t)c) {
        inrt = 0;
        errno = EAGAIN;
        return -1;
      }
      R->blocks++;
      blocked[me] = 1;
      waitaddr[me] = p;
      timed[me] = d != 0;
      woken_timeout[me] = 0;
      hand_over();
      wait_turn();
      int to = woken_timeout[me];
      inrt = 0;
      if (to) {
        errno = ETIMEDOUT;
        return -1;
      }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      long k = 0;
      for (int t = 0; t < nthreads && k < c; t++)
        if (blocked[t] && waitaddr[t] == p) {
          blocked[t] = 0;
          k++;
        }
      return k;
    }
  }
  long r = sys6(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) {
    errno = -r;
    return -1;
  }
  return r;
}
int sched_yield(void) {
  if (me >= 0 && on && !inrt) {
    inrt = 1;
    yield_now_();
    inrt = 0;
    return 0;
  }
  return sys6(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
}
int nanosleep(const struct timespec *a, struct timespec *b) {
  if (me >= 0 && on && !inrt) return sched_yield();
  long r = sys6(SYS_nanosleep, (long)a, (long)b, 0, 0, 0, 0);
  if (r < 0) { errno = -r; return -1; }
  return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) {
  if (me >= 0 && on && !inrt) return sched_yield();
  return -sys6(SYS_clock_nanosleep, c, fl, (long)a, (long)b, 0, 0);
}

// ---------------------------------------------------------------- ThreadSanitizer callbacks
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
#define RW(n)                                                                      \
  void __tsan_read##n(void *p) { access_range(p, n, 0, 1); }                       \
  void __tsan_write##n(void *p) { access_range(p, n, 1, 0); }                      \
  void __tsan_read_write##n(void *p) { access_range(p, n, 1, 1); }                 \
  void __tsan_unaligned_read##n(void *p) { access_range(p, n, 0, 1); }             \
  void __tsan_unaligned_write##n(void *p) { access_range(p, n, 1, 0); }            \
  void __tsan_unaligned_read_write##n(void *p) { access_range(p, n, 1, 1); }       \
  void __tsan_volatile_read##n(void *p) { access_range(p, n, 0, 1); }              \
  void __tsan_volatile_write##n(void *p) { access_range(p, n, 1, 0); }             \
  void __tsan_unaligned_volatile_read##n(void *p) { access_range(p, n, 0, 1); }    \
  void __tsan_unaligned_volatile_write##n(void *p) { access_range(p, n, 1, 0); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access_range(p, n, 0, 1); }
void __tsan_write_range(void *p, size_t n) { access_range(p, n, 1, 0); }
void __tsan_vptr_update(void *p, void *v) { (void)v; access_range(p, 8, 1, 0); }
void __tsan_vptr_read(void *p) { access_range(p, 8, 0, 1); }
void *__tsan_memcpy(void *d, const void *s, size_t n) {
  access_range(s, n, 0, 1);
  access_range(d, n, 1, 0);
  return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
  access_range(s, n, 0, 1);
  access_range(d, n, 1, 0);
  return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
  access_range(d, n, 1, 0);
  return memset(d, c, n);
}
void __tsan_atomic_thread_fence(int mo) { (void)mo; __sync_synchronize(); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
#define AT(bits, T)                                                                                              \
  T __tsan_atomic##bits##_load(const volatile T *p, int mo) {                                                    \
    (void)mo; access_range((void *)p, sizeof(T), 0, 1); return __atomic_load_n(p, __ATOMIC_SEQ_CST); }            \
  void __tsan_atomic##bits##_store(volatile T *p, T v, int mo) {                                                 \
    (void)mo; access_range((void *)p, sizeof(T), 1, 0); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); }               \
  T __tsan_atomic##bits##_exchange(volatile T *p, T v, int mo) {                                                 \
    (void)mo; access_range((void *)p, sizeof(T), 1, 1); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }     \
  T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int mo) {                                                \
    (void)mo; access_range((void *)p, sizeof(T), 1, 1); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); }      \
  T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int mo) {                                                \
    (void)mo; access_range((void *)p, sizeof(T), 1, 1); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); }      \
  T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int mo) {                                                \
    (void)mo; access_range((void *)p, sizeof(T), 1, 1); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); }      \
  T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int mo) {                                                 \
    (void)mo; access_range((void *)p, sizeof(T), 1, 1); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); }       \
  T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int mo) {                                                \
    (void)mo; access_range((void *)p, sizeof(T), 1, 1); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); }      \
  T __tsan_atomic##bits##_fetch_nand(volatile T *p, T v, int mo) {                                               \
    (void)mo; access_range((void *)p, sizeof(T), 1, 1); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); }     \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *c, T v, int mo, int fmo) {                 \
    (void)mo; (void)fmo; access_range((void *)p, sizeof(T), 1, 1);                                               \
    return __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }                         \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *c, T v, int mo, int fmo) {                   \
    (void)mo; (void)fmo; access_range((void *)p, sizeof(T), 1, 1);                                               \
    return __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }                         \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T c, T v, int mo, int fmo) {                       \
    (void)mo; (void)fmo; access_range((void *)p, sizeof(T), 1, 1);                                               \
    __atomic_compare_exchange_n(p, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
