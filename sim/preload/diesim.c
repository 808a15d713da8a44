// libdiesim.so: the libc-level seam of the simulator (loaded with LD_PRELOAD).
//
// While enabled it owns: entropy, clocks and timers, CPU count, thread scheduling (one thread runs
// at a time; a seeded scheduler decides who at every scheduling point), directory order, and
// file-system calls below the scratch root (fault injection, crashes, power loss).
// Everything it decides is a pure function of its textual configuration.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXT 128
#define MAXF 1024
#define MAXREC 2048
#define MAXFAULT 64
#define MAXDEV 8192
#define OPLOG 65536

enum { FK_ENOSPC, FK_EIO, FK_EINTR, FK_SHORT, FK_KILL, FK_POWER, FK_TORNKILL, FK_TORNPOWER, FK_EACCES, FK_N };
static const char *fk_name[FK_N] = {"enospc","eio","eintr","short","kill","power","tornkill","tornpower","eacces"};

struct shared {
  uint64_t magic, steps, switches, preempts, ent_calls, clock_calls, sim_ns, mut_ops, read_ops,
      threads, futex_waits, futex_wakes, futex_timeouts, spurious, clock_jumps, full_hits, bytes_written,
      lost_unsynced, dirs_shuffled, ent_eintr, leaks;
  uint64_t fault_fired[16];
  uint64_t read_fault_fired[16];
  uint64_t stat_ops, stat_fault_fired[16];
  uint64_t loghash, schedhash;
  uint32_t exit_reason; // 1 injected crash, 2 step cap, 3 deadlock, 4 internal
  uint32_t ndev, oplen, dev_overflow;
  uint32_t dev_step[MAXDEV];
  uint32_t dev_tid[MAXDEV];
  char oplog[OPLOG];
  char leakmsg[256];
};
static struct shared dummy, *S = &dummy;

struct fault { int cls; uint64_t idx; int kind; uint64_t arg; int done; };
struct rec { char *path; int dirty, created, live; off_t synced; };

static volatile int enabled;
static char root[PATH_MAX]; static size_t rootlen;
static uint64_t ent_s, sched_s, clock_s, crash_s, dir_s;
static int sched_mode; // 0 none, 1 random, 2 explicit
static uint64_t preempt_pm, spurious_pm, jump_pm, ent_eintr_pm, tick_max = 2000;
static uint64_t max_steps = UINT64_MAX, full_after = UINT64_MAX;
static int ncpu, power_end;
static struct fault faults[MAXFAULT]; static int nfaults;
static uint32_t ex_step[MAXDEV], ex_tid[MAXDEV]; static uint32_t nex, exi;
static int64_t mono_ns = 1000000000000LL, real_off = 1696752000000000000LL;
static struct rec recs[MAXREC]; static int nrecs;
static int fdrec[MAXF]; // fd -> rec index+1 (0: untracked), negative: tracked read-only

static uint64_t rnd(uint64_t *s) { // splitmix64
  uint64_t z = (*s += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
static void h(uint64_t v) { S->loghash = (S->loghash ^ v) * 0x100000001b3ULL; S->loghash ^= S->loghash >> 29; }
static void hs(const char *p) { while (*p) h((unsigned char)*p++); }

#define REAL(ret, name, ...) \
  static ret (*real_##name)(__VA_ARGS__); \
  static inline void init_##name(void) { if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name); }

static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r; register long r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static void die(int reason, int code) {
  S->exit_reason = reason; S->sim_ns = mono_ns - 1000000000000LL;
  raw6(SYS_exit_group, code, 0, 0, 0, 0, 0); __builtin_unreachable();
}
static void leak(const char *m) { if (!S->leaks++) { strncpy(S->leakmsg, m, sizeof S->leakmsg - 1); } }

// ---------------------------------------------------------------- threads
enum { T_RUN, T_FUTEX, T_SLEEP, T_JOIN, T_MUTEX, T_DONE };
struct thr { int st; uint32_t *addr; uint32_t bits; int64_t deadline; int joinee; int timed_out; volatile int go; pthread_t pt; void *(*fn)(void *); void *arg; void *lock; };
static struct thr T[MAXT]; static int nT, cur;
static __thread int self_id = -1;
static pthread_key_t exit_key; static int key_made;
#define SIM (enabled && self_id >= 0)

static void go_wait(int id) { while (!__atomic_load_n(&T[id].go, __ATOMIC_ACQUIRE)) raw6(SYS_futex, (long)&T[id].go, FUTEX_WAIT, 0, 0, 0, 0); __atomic_store_n(&T[id].go, 0, __ATOMIC_RELEASE); }
static void go_post(int id) { __atomic_store_n(&T[id].go, 1, __ATOMIC_RELEASE); raw6(SYS_futex, (long)&T[id].go, FUTEX_WAKE, 1, 0, 0, 0); }

static void step(void) { if (++S->steps > max_steps) die(2, 97); }
static void expire(void) { for (int i = 0; i < nT; i++) if ((T[i].st == T_FUTEX || T[i].st == T_SLEEP) && T[i].deadline >= 0 && T[i].deadline <= mono_ns) { if (T[i].st == T_FUTEX) { T[i].timed_out = 1; S->futex_timeouts++; } T[i].st = T_RUN; } }
static int runnable(int *out) { int n = 0; for (int i = 0; i < nT; i++) if (T[i].st == T_RUN) out[n++] = i; return n; }
static void note_dev(int tid) { if (S->ndev < MAXDEV) { S->dev_step[S->ndev] = (uint32_t)S->steps; S->dev_tid[S->ndev] = tid; S->ndev++; } else S->dev_overflow = 1; }
static void hand_to(int next, int me_waits) {
  int me = cur; S->switches++; S->schedhash = (S->schedhash ^ (uint64_t)(next + 1)) * 0x100000001b3ULL; h(0x51000 + next);
  if (next == me) return;
  cur = next; go_post(next); if (me_waits) go_wait(me);
}
static int explicit_choice(void) { while (exi < nex && ex_step[exi] < S->steps) exi++; if (exi < nex && ex_step[exi] == S->steps) return (int)ex_tid[exi]; return -1; }
// The running thread cannot or must not continue now: choose another one.
static void block_switch(int me_waits, int is_yield) {
  int c[MAXT], n; step();
  for (;;) {
    expire(); n = runnable(c);
    if (n) break;
    int64_t best = -1; for (int i = 0; i < nT; i++) if ((T[i].st == T_FUTEX || T[i].st == T_SLEEP) && T[i].deadline >= 0 && (best < 0 || T[i].deadline < best)) best = T[i].deadline;
    if (best < 0) {
      // spurious wake-ups cannot save a deadlock
      die(3, 96);
    }
    mono_ns = best;
  }
  if (is_yield && n > 1) { int k = 0; for (int i = 0; i < n; i++) if (c[i] != cur) c[k++] = c[i]; n = k; }
  int def = c[0]; for (int i = 0; i < n; i++) if (c[i] > cur) { def = c[i]; break; }
  int next = def;
  if (sched_mode == 1 && n > 1) { next = c[rnd(&sched_s) % n]; if (next != def) note_dev(next); }
  else if (sched_mode == 2) { int e = explicit_choice(); for (int i = 0; i < n; i++) if (c[i] == e) next = e; }
  hand_to(next, me_waits);
}
static void maybe_preempt(void) {
  step(); if (nT < 2) return;
  int c[MAXT], n; int next = -1;
  if (sched_mode == 1) { if (rnd(&sched_s) % 1000 >= preempt_pm) return; expire(); n = runnable(c); int k = 0; for (int i = 0; i < n; i++) if (c[i] != cur) c[k++] = c[i]; if (!k) return; next = c[rnd(&sched_s) % k]; note_dev(next); }
  else if (sched_mode == 2) { int e = explicit_choice(); if (e < 0 || e >= nT || e == cur) return; expire(); if (T[e].st != T_RUN) return; next = e; }
  else return;
  S->preempts++; hand_to(next, 1);
}
static void wake_addr(uint32_t *addr, int n, uint32_t bits, int *woken) {
  *woken = 0;
  while (*woken < n) {
    int c[MAXT], k = 0; for (int i = 0; i < nT; i++) if (T[i].st == T_FUTEX && T[i].addr == addr && (T[i].bits & bits)) c[k++] = i;
    if (!k) return;
    int w = c[sched_mode == 1 ? rnd(&sched_s) % k : 0]; T[w].st = T_RUN; T[w].timed_out = 0; (*woken)++;
  }
}
static void thread_exit_dtor(void *p) {
  (void)p; if (!SIM) return;
  int me = self_id; T[me].st = T_DONE; h(0xdead00 + me);
  for (int i = 0; i < nT; i++) if (T[i].st == T_JOIN && T[i].joinee == me) T[i].st = T_RUN;
  block_switch(0, 0); self_id = -1;
}
static void *trampoline(void *p) { int id = (int)(long)p; self_id = id; pthread_setspecific(exit_key, (void *)1); go_wait(id); return T[id].fn(T[id].arg); }

REAL(int, pthread_create, pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  init_pthread_create(); if (!SIM) return real_pthread_create(t, a, fn, arg);
  int id = nT; for (int i = 1; i < nT; i++) if (T[i].st == T_DONE) { id = i; break; }
  if (id >= MAXT) die(4, 95);
  memset(&T[id], 0, sizeof T[id]); T[id].fn = fn; T[id].arg = arg; T[id].st = T_RUN; T[id].deadline = -1;
  int r = real_pthread_create(t, a, trampoline, (void *)(long)id);
  if (r) { T[id].st = T_DONE; return r; }
  T[id].pt = *t; if (id == nT) nT++; S->threads++; h(0x7c000 + id); maybe_preempt(); return 0;
}
REAL(int, pthread_join, pthread_t, void **)
int pthread_join(pthread_t t, void **ret) {
  init_pthread_join(); if (!SIM) return real_pthread_join(t, ret);
  for (int i = 0; i < nT; i++) if (pthread_equal(T[i].pt, t) && i != self_id) { while (T[i].st != T_DONE) { T[self_id].st = T_JOIN; T[self_id].joinee = i; block_switch(1, 0); } }
  return real_pthread_join(t, ret);
}
REAL(int, pthread_mutex_lock, pthread_mutex_t *)
REAL(int, pthread_mutex_trylock, pthread_mutex_t *)
int pthread_mutex_lock(pthread_mutex_t *m) {
  init_pthread_mutex_lock(); if (!SIM || nT < 2) return real_pthread_mutex_lock(m);
  init_pthread_mutex_trylock(); int r; while ((r = real_pthread_mutex_trylock(m)) == EBUSY) block_switch(1, 1);
  return r;
}
int sched_yield(void) { if (!SIM) return (int)raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0); if (nT > 1) block_switch(1, 1); else step(); return 0; }

// ---------------------------------------------------------------- clock
static int64_t now_mono(void) { S->clock_calls++; mono_ns += 1 + rnd(&clock_s) % tick_max; if (jump_pm && rnd(&clock_s) % 1000 < jump_pm) { S->clock_jumps++; uint64_t r = rnd(&clock_s); mono_ns += r % 3000000000ULL; real_off += (int64_t)(rnd(&clock_s) % 200000000000ULL) - 100000000000LL; } return mono_ns; }
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!SIM) { long r = raw6(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return 0; }
  step(); int64_t v = now_mono(); if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) v += real_off;
  ts->tv_sec = v / 1000000000LL; ts->tv_nsec = v % 1000000000LL; return 0;
}
int gettimeofday(struct timeval *tv, void *tz) { (void)tz; struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
time_t time(time_t *o) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (o) *o = ts.tv_sec; return ts.tv_sec; }
static int sim_sleep(int64_t dl) { T[self_id].st = T_SLEEP; T[self_id].deadline = dl; block_switch(1, 0); T[self_id].deadline = -1; return 0; }
int nanosleep(const struct timespec *r, struct timespec *rem) {
  if (!SIM) { long x = raw6(SYS_nanosleep, (long)r, (long)rem, 0, 0, 0, 0); if (x < 0) { errno = -x; return -1; } return 0; }
  return sim_sleep(mono_ns + r->tv_sec * 1000000000LL + r->tv_nsec);
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *r, struct timespec *rem) {
  if (!SIM) return (int)-raw6(SYS_clock_nanosleep, c, fl, (long)r, (long)rem, 0, 0);
  int64_t v = r->tv_sec * 1000000000LL + r->tv_nsec; if (fl & TIMER_ABSTIME) { if (c == CLOCK_REALTIME) v -= real_off; } else v += mono_ns;
  return sim_sleep(v);
}
int usleep(useconds_t u) { struct timespec t = {u / 1000000, (u % 1000000) * 1000L}; return nanosleep(&t, NULL); }

// ---------------------------------------------------------------- entropy, futex
static ssize_t sim_random(void *buf, size_t n) {
  step(); S->ent_calls++; h(0xe000 + n);
  if (n && ent_eintr_pm && rnd(&crash_s) % 1000 < ent_eintr_pm) { S->ent_eintr++; errno = EINTR; return -1; }
  unsigned char *p = buf; for (size_t i = 0; i < n; i += 8) { uint64_t r = rnd(&ent_s); for (size_t j = i; j < n && j < i + 8; j++) { p[j] = r; r >>= 8; } }
  return (ssize_t)n;
}
ssize_t getrandom(void *buf, size_t n, unsigned fl) {
  if (SIM) return sim_random(buf, n);
  long r = raw6(SYS_getrandom, (long)buf, n, fl, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return r;
}
int getentropy(void *buf, size_t n) { if (SIM) { while (sim_random(buf, n) < 0) {} return 0; } long r = raw6(SYS_getrandom, (long)buf, n, 0, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return 0; }

long syscall(long n, ...) {
  va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
  if (SIM) {
    if (n == SYS_getrandom) return sim_random((void *)a, (size_t)b);
    if (n == SYS_futex) {
      int op = (int)b & FUTEX_CMD_MASK; uint32_t *addr = (uint32_t *)a;
      if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
        maybe_preempt();
        if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != (uint32_t)c) { errno = EAGAIN; return -1; }
        S->futex_waits++;
        if (spurious_pm && rnd(&crash_s) % 1000 < spurious_pm) { S->spurious++; block_switch(1, 1); return 0; }
        struct timespec *ts = (struct timespec *)d; struct thr *me = &T[self_id];
        me->deadline = -1;
        if (ts) { int64_t v = ts->tv_sec * 1000000000LL + ts->tv_nsec; if (op == FUTEX_WAIT) v += mono_ns; else if (b & FUTEX_CLOCK_REALTIME) v -= real_off; me->deadline = v; }
        me->st = T_FUTEX; me->addr = addr; me->bits = op == FUTEX_WAIT ? 0xffffffffu : (uint32_t)f; me->timed_out = 0;
        block_switch(1, 0); me->deadline = -1;
        if (me->timed_out) { errno = ETIMEDOUT; return -1; }
        return 0;
      }
      if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { int w; S->futex_wakes++; wake_addr(addr, (int)c, op == FUTEX_WAKE ? 0xffffffffu : (uint32_t)f, &w); maybe_preempt(); return w; }
      leak("futex op");
    }
    if (n == SYS_copy_file_range) { errno = ENOSYS; return -1; }
  }
  long r = raw6(n, a, b, c, d, e, f); if (r < 0 && r > -4096) { errno = -r; return -1; } return r;
}
int sched_getaffinity(pid_t pid, size_t sz, cpu_set_t *set) {
  if (SIM && ncpu) { memset(set, 0, sz); for (int i = 0; i < ncpu; i++) CPU_SET_S(i, sz, set); return 0; }
  long r = raw6(SYS_sched_getaffinity, pid, sz, (long)set, 0, 0, 0); if (r < 0) { errno = -r; return -1; } if ((size_t)r < sz) memset((char *)set + r, 0, sz - r); return 0;
}
REAL(long, sysconf, int)
long sysconf(int n) { init_sysconf(); if (SIM && ncpu && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF)) return ncpu; return real_sysconf(n); }

// ---------------------------------------------------------------- file system
static int fs_sched; // file operations are scheduling points (threads standing for processes that share a directory)
static void fs_point(void) { if (fs_sched && nT > 1) maybe_preempt(); }
static int tracked(const char *p, char *out) {
  if (!SIM || !p) return 0;
  if (p[0] != '/') { while (p[0] == '.' && p[1] == '/') { p += 2; while (*p == '/') p++; } snprintf(out, PATH_MAX, "%s", p); return 1; }
  if (rootlen && !strncmp(p, root, rootlen) && p[rootlen] == '/') { p += rootlen + 1; while (p[0] == '.' && p[1] == '/') p += 2; snprintf(out, PATH_MAX, "%s", p); return 1; }
  return 0;
}
static int hidden(const char *p) { return SIM && p && (!strncmp(p, "/proc/self/cgroup", 17) || !strncmp(p, "/proc/self/mountinfo", 20) || !strncmp(p, "/sys/fs/cgroup", 14)); }
static void oplog(const char *kind, const char *path, long arg, const char *res) {
  char b[PATH_MAX + 128]; int n = snprintf(b, sizeof b, "%lu %s %s %ld%s%s\n", (unsigned long)S->mut_ops - 1, kind, path, arg, *res ? " !" : "", res);
  hs(kind); hs(path); h(arg);
  if (S->oplen + n < OPLOG) { memcpy(S->oplog + S->oplen, b, n); S->oplen += n; }
}
static int find_rec(const char *p) { for (int i = 0; i < nrecs; i++) if (recs[i].live && !strcmp(recs[i].path, p)) return i; return -1; }
static int get_rec(const char *p) {
  int i = find_rec(p); if (i >= 0) return i;
  if (nrecs >= MAXREC) die(4, 95);
  recs[nrecs] = (struct rec){strdup(p), 0, 0, 1, 0}; return nrecs++;
}
static void power_loss(void) {
  for (int i = 0; i < nrecs; i++) {
    struct rec *r = &recs[i]; if (!r->live || !r->dirty) continue;
    char full[PATH_MAX * 2]; snprintf(full, sizeof full, "%s/%s", root, r->path);
    struct stat st; if (raw6(SYS_stat, (long)full, (long)&st, 0, 0, 0, 0) < 0) continue;
    int a = rnd(&crash_s) % 5; S->lost_unsynced++;
    off_t sy = r->synced < st.st_size ? r->synced : st.st_size; off_t len = sy + (st.st_size > sy ? (off_t)(rnd(&crash_s) % (st.st_size - sy + 1)) : 0);
    if (a == 0) continue; // everything reached the disk after all
    if (a == 1) raw6(SYS_truncate, (long)full, sy, 0, 0, 0, 0);
    else if (a == 2) raw6(SYS_truncate, (long)full, len, 0, 0, 0, 0);
    else if (a == 3) { raw6(SYS_truncate, (long)full, len, 0, 0, 0, 0); raw6(SYS_truncate, (long)full, st.st_size, 0, 0, 0, 0); } // zero-filled tail
    else if (a == 4) { if (r->created && !r->synced) raw6(SYS_unlink, (long)full, 0, 0, 0, 0, 0); else raw6(SYS_truncate, (long)full, sy, 0, 0, 0, 0); }
  }
}
static void crash(int kind) { S->fault_fired[kind]++; if (kind == FK_POWER || kind == FK_TORNPOWER) power_loss(); die(1, 86); }
static struct fault *find_fault(int cls, uint64_t idx) { for (int i = 0; i < nfaults; i++) if (!faults[i].done && faults[i].cls == cls && faults[i].idx == idx) return &faults[i]; return NULL; }
// Announces a mutating operation. 0: proceed; >0: errno to return. *partial: write only that many bytes (then crash if *then_crash).
static int mut(const char *kind, const char *path, size_t len, int is_write, size_t *partial, int *then_crash) {
  fs_point(); uint64_t idx = S->mut_ops++; step();
  if (partial) *partial = (size_t)-1;
  if (then_crash) *then_crash = -1;
  struct fault *f = find_fault('m', idx);
  int rc = 0; const char *res = "";
  if (f) {
    f->done = 1; int k = f->kind; res = fk_name[k];
    if (!is_write && (k == FK_SHORT || k == FK_TORNKILL || k == FK_TORNPOWER)) k = k == FK_SHORT ? FK_EIO : k == FK_TORNKILL ? FK_KILL : FK_POWER;
    if (k == FK_EINTR && strcmp(kind, "open") && !is_write) k = FK_EIO;
    if (is_write && k == FK_EACCES) k = FK_EIO;
    switch (k) {
    case FK_KILL: case FK_POWER: oplog(kind, path, len, res); crash(k); break;
    case FK_SHORT: if (len > 1) { *partial = 1 + f->arg % (len - 1); S->fault_fired[k]++; } break;
    case FK_TORNKILL: case FK_TORNPOWER: *partial = len ? f->arg % len : 0; *then_crash = k; break;
    case FK_ENOSPC: rc = ENOSPC; break; case FK_EIO: rc = EIO; break; case FK_EINTR: rc = EINTR; break; case FK_EACCES: rc = EACCES; break;
    }
    if (rc) S->fault_fired[k]++;
  }
  if (!rc && is_write && full_after != UINT64_MAX) {
    uint64_t left = S->bytes_written >= full_after ? 0 : full_after - S->bytes_written;
    if (len > left) { S->full_hits++; if (!left) { rc = ENOSPC; res = "full"; } else if (*partial > left) { *partial = left; res = "full-short"; } }
  }
  oplog(kind, path, len, res);
  return rc;
}
static int rd_fault(size_t *n) {
  fs_point(); uint64_t idx = S->read_ops++; step(); struct fault *f = find_fault('r', idx); if (!f) return 0; f->done = 1;
  int k = f->kind; if (k == FK_SHORT) { if (*n > 1) { *n = 1 + f->arg % (*n - 1); S->read_fault_fired[k]++; } return 0; }
  if (k == FK_KILL || k == FK_POWER) crash(k);
  S->read_fault_fired[k]++; return k == FK_EINTR ? EINTR : k == FK_EACCES ? EACCES : EIO;
}
static void on_open_write(const char *p, int fd, int trunc, int existed) {
  int r = get_rec(p); if (!existed) { recs[r].created = 1; recs[r].dirty = 1; recs[r].synced = 0; }
  if (trunc) { recs[r].dirty = 1; recs[r].synced = 0; }
  if (fd >= 0 && fd < MAXF) fdrec[fd] = r + 1;
}
static int exists(const char *p) { return raw6(SYS_access, (long)p, F_OK, 0, 0, 0, 0) == 0; }
static int do_open(int dfd, const char *path, int fl, mode_t mode) {
  char p[PATH_MAX];
  if (hidden(path)) { errno = ENOENT; return -1; }
  if (SIM && path && (!strcmp(path, "/dev/urandom") || !strcmp(path, "/dev/random"))) { // a file of seeded bytes instead
    unsigned char b[4096]; while (sim_random(b, sizeof b) < 0) {}
    long r = raw6(SYS_memfd_create, (long)"dsim_urandom", 0, 0, 0, 0, 0); if (r < 0) { leak("open /dev/urandom"); errno = ENOENT; return -1; }
    raw6(SYS_write, r, (long)b, sizeof b, 0, 0, 0); raw6(SYS_lseek, r, 0, SEEK_SET, 0, 0, 0); return (int)r;
  }
  if (dfd == AT_FDCWD && tracked(path, p)) {
    int wr = (fl & O_ACCMODE) != O_RDONLY; int ex = exists(path);
    if (!wr) { size_t n = 0; int e = rd_fault(&n); if (e) { errno = e == EINTR ? EINTR : e; return -1; } }
    else if ((fl & O_TRUNC) || ((fl & O_CREAT) && !ex)) { int e = mut("open", p, 0, 0, NULL, NULL); if (e) { errno = e; return -1; } }
    long fd = raw6(SYS_openat, dfd, (long)path, fl, mode, 0, 0); if (fd < 0) { errno = -fd; return -1; }
    if (wr) on_open_write(p, fd, fl & O_TRUNC, ex); else if (fd < MAXF) fdrec[fd] = -1;
    return fd;
  }
  long fd = raw6(SYS_openat, dfd, (long)path, fl, mode, 0, 0); if (fd < 0) { errno = -fd; return -1; }
  if (fd < MAXF) fdrec[fd] = 0;
  return fd;
}
// Looking at a file's metadata: may fail too (class 's')
static int st_fault(const char *path) {
  char p[PATH_MAX]; if (!path || !*path || !tracked(path, p)) return 0;
  fs_point(); uint64_t idx = S->stat_ops++; step(); h(idx); struct fault *f = find_fault('s', idx); if (!f) return 0; f->done = 1;
  if (f->kind == FK_KILL || f->kind == FK_POWER) crash(f->kind);
  int k = f->kind == FK_EACCES ? FK_EACCES : FK_EIO; S->stat_fault_fired[k]++; return k == FK_EACCES ? EACCES : EIO;
}
#define STATOP(name, sig, path, call) int name sig { int e_ = st_fault(path); if (e_) { errno = e_; return -1; } long w = call; if (w < 0) { errno = -w; return -1; } return 0; }
STATOP(statx, (int d, const char *p, int fl, unsigned m, struct statx *b), p, raw6(SYS_statx, d, (long)p, fl, m, (long)b, 0))
STATOP(stat, (const char *p, struct stat *b), p, raw6(SYS_stat, (long)p, (long)b, 0, 0, 0, 0))
STATOP(stat64, (const char *p, struct stat64 *b), p, raw6(SYS_stat, (long)p, (long)b, 0, 0, 0, 0))
STATOP(lstat, (const char *p, struct stat *b), p, raw6(SYS_lstat, (long)p, (long)b, 0, 0, 0, 0))
STATOP(lstat64, (const char *p, struct stat64 *b), p, raw6(SYS_lstat, (long)p, (long)b, 0, 0, 0, 0))
STATOP(fstatat, (int d, const char *p, struct stat *b, int fl), p, raw6(SYS_newfstatat, d, (long)p, (long)b, fl, 0, 0))
STATOP(fstatat64, (int d, const char *p, struct stat64 *b, int fl), p, raw6(SYS_newfstatat, d, (long)p, (long)b, fl, 0, 0))
STATOP(access, (const char *p, int m), p, raw6(SYS_access, (long)p, m, 0, 0, 0, 0))
#define OPENMODE mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int fl, ...) { OPENMODE return do_open(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { OPENMODE return do_open(AT_FDCWD, p, fl | O_LARGEFILE, m); }
int openat(int d, const char *p, int fl, ...) { OPENMODE return do_open(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { OPENMODE return do_open(d, p, fl | O_LARGEFILE, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
REAL(FILE *, fopen, const char *, const char *)
static FILE *do_fopen(const char *path, const char *mode) {
  init_fopen(); char p[PATH_MAX]; if (hidden(path)) { errno = ENOENT; return NULL; }
  if (!tracked(path, p)) { FILE *f = real_fopen(path, mode); if (f && SIM && fileno(f) < MAXF) fdrec[fileno(f)] = 0; return f; }
  int wr = strpbrk(mode, "wa+") != NULL, ex = exists(path);
  if (wr && (mode[0] == 'w' || !ex)) { int e = mut("open", p, 0, 0, NULL, NULL); if (e) { errno = e; return NULL; } }
  else { size_t n = 0; int e = rd_fault(&n); if (e) { errno = e; return NULL; } }
  FILE *f = real_fopen(path, mode); if (!f) return NULL;
  int fd = fileno(f); if (wr) on_open_write(p, fd, mode[0] == 'w', ex); else if (fd < MAXF) fdrec[fd] = -1;
  return f;
}
FILE *fopen(const char *p, const char *m) { return do_fopen(p, m); }
FILE *fopen64(const char *p, const char *m) { return do_fopen(p, m); }
REAL(int, fclose, FILE *)
int fclose(FILE *f) { init_fclose(); if (SIM) { int fd = fileno(f); if (fd >= 0 && fd < MAXF) fdrec[fd] = 0; } return real_fclose(f); }
int close(int fd) { if (SIM && fd >= 0 && fd < MAXF) fdrec[fd] = 0; long r = raw6(SYS_close, fd, 0, 0, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return 0; }
static int wfd(int fd) { return SIM && fd >= 0 && fd < MAXF && fdrec[fd] > 0; }
static int rfd(int fd) { return SIM && fd >= 0 && fd < MAXF && fdrec[fd] != 0; }
ssize_t write(int fd, const void *b, size_t n) {
  if (wfd(fd)) {
    size_t part; int cr; struct rec *r = &recs[fdrec[fd] - 1]; int e = mut("write", r->path, n, 1, &part, &cr); if (e) { errno = e; return -1; }
    if (n > part) n = part;
    long w = n ? raw6(SYS_write, fd, (long)b, n, 0, 0, 0) : 0; r->dirty = 1; if (w > 0) S->bytes_written += w;
    if (cr >= 0) crash(cr);
    if (w < 0) { errno = -w; return -1; } return w;
  }
  long w = raw6(SYS_write, fd, (long)b, n, 0, 0, 0); if (w < 0) { errno = -w; return -1; } return w;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (wfd(fd)) {
    size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
    char *buf = malloc(n ? n : 1); size_t o = 0; for (int i = 0; i < c; i++) { memcpy(buf + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; }
    ssize_t r = write(fd, buf, n); int e = errno; free(buf); errno = e; return r;
  }
  long w = raw6(SYS_writev, fd, (long)v, c, 0, 0, 0); if (w < 0) { errno = -w; return -1; } return w;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t off) {
  if (wfd(fd)) {
    size_t part; int cr; struct rec *r = &recs[fdrec[fd] - 1]; int e = mut("pwrite", r->path, n, 1, &part, &cr); if (e) { errno = e; return -1; }
    if (n > part) n = part;
    long w = n ? raw6(SYS_pwrite64, fd, (long)b, n, off, 0, 0) : 0; r->dirty = 1; if (w > 0) S->bytes_written += w;
    if (off < r->synced) r->synced = off;
    if (cr >= 0) crash(cr);
    if (w < 0) { errno = -w; return -1; } return w;
  }
  long w = raw6(SYS_pwrite64, fd, (long)b, n, off, 0, 0); if (w < 0) { errno = -w; return -1; } return w;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t off) { return pwrite64(fd, b, n, off); }
ssize_t read(int fd, void *b, size_t n) {
  if (rfd(fd)) { int e = rd_fault(&n); if (e) { errno = e; return -1; } }
  long w = raw6(SYS_read, fd, (long)b, n, 0, 0, 0); if (w < 0) { errno = -w; return -1; } return w;
}
REAL(size_t, fread, void *, size_t, size_t, FILE *)
size_t fread(void *b, size_t s, size_t n, FILE *f) {
  init_fread(); if (SIM && rfd(fileno(f))) { size_t k = s * n; int e = rd_fault(&k); if (e && e != EINTR) { errno = e; return 0; } }
  return real_fread(b, s, n, f);
}
static int do_sync(int fd, long nr, const char *k) {
  if (rfd(fd) && fdrec[fd] < 0) { // fsync through a descriptor opened for reading writes the file back too
    char l[64], b[PATH_MAX], p[PATH_MAX]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd); long n = raw6(SYS_readlink, (long)l, (long)b, PATH_MAX - 1, 0, 0, 0); if (n <= 0) return 0; b[n] = 0;
    int i = tracked(b, p) ? find_rec(p) : -1; int e = mut(k, i >= 0 ? recs[i].path : "?", 0, 0, NULL, NULL); if (e) { errno = e; return -1; }
    if (i >= 0) { struct stat st; if (raw6(SYS_fstat, fd, (long)&st, 0, 0, 0, 0) == 0) recs[i].synced = st.st_size; recs[i].dirty = 0; }
    return 0;
  }
  if (wfd(fd)) { struct rec *r = &recs[fdrec[fd] - 1]; int e = mut(k, r->path, 0, 0, NULL, NULL); if (e) { errno = e; return -1; }
    struct stat st; if (raw6(SYS_fstat, fd, (long)&st, 0, 0, 0, 0) == 0) r->synced = st.st_size; r->dirty = 0; return 0; }
  if (SIM) return 0;
  long w = raw6(nr, fd, 0, 0, 0, 0, 0); if (w < 0) { errno = -w; return -1; } return 0;
}
int fsync(int fd) { return do_sync(fd, SYS_fsync, "fsync"); }
int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync, "fdatasync"); }
int ftruncate64(int fd, off_t n) {
  if (wfd(fd)) { struct rec *r = &recs[fdrec[fd] - 1]; int e = mut("ftruncate", r->path, n, 0, NULL, NULL); if (e) { errno = e; return -1; } r->dirty = 1; if (n < r->synced) r->synced = n; }
  long w = raw6(SYS_ftruncate, fd, n, 0, 0, 0, 0); if (w < 0) { errno = -w; return -1; } return 0;
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
static int do_rename(const char *a, const char *b, unsigned fl) {
  char p[PATH_MAX], q[PATH_MAX]; int t = tracked(a, p) | tracked(b, q) << 1;
  if (t) { if (!(t & 1)) snprintf(p, sizeof p, "%s", a); if (!(t & 2)) snprintf(q, sizeof q, "%s", b); int e = mut("rename", q, 0, 0, NULL, NULL); if (e) { errno = e; return -1; } }
  long w = fl ? raw6(SYS_renameat2, AT_FDCWD, (long)a, AT_FDCWD, (long)b, fl, 0) : raw6(SYS_rename, (long)a, (long)b, 0, 0, 0, 0);
  if (w < 0) { errno = -w; return -1; }
  if (t) { int o = find_rec(q); int n = find_rec(p); if (o >= 0 && o != n) recs[o].live = 0; if (n >= 0) { recs[n].path = strdup(q); recs[n].created = 0; } }
  return 0;
}
int rename(const char *a, const char *b) { return do_rename(a, b, 0); }
int renameat(int x, const char *a, int y, const char *b) { if (x == AT_FDCWD && y == AT_FDCWD) return do_rename(a, b, 0); long w = raw6(SYS_renameat, x, (long)a, y, (long)b, 0, 0); if (w < 0) { errno = -w; return -1; } return 0; }
int renameat2(int x, const char *a, int y, const char *b, unsigned f) { if (x == AT_FDCWD && y == AT_FDCWD) return do_rename(a, b, f); long w = raw6(SYS_renameat2, x, (long)a, y, (long)b, f, 0); if (w < 0) { errno = -w; return -1; } return 0; }
#define PATHOP(name, nr, kind) \
  int name(const char *a) { char p[PATH_MAX]; if (tracked(a, p)) { int e = mut(kind, p, 0, 0, NULL, NULL); if (e) { errno = e; return -1; } int i = find_rec(p); if (i >= 0) recs[i].live = 0; } \
    long w = raw6(nr, (long)a, 0, 0, 0, 0, 0); if (w < 0) { errno = -w; return -1; } return 0; }
PATHOP(unlink, SYS_unlink, "unlink")
PATHOP(rmdir, SYS_rmdir, "rmdir")
int unlinkat(int d, const char *a, int fl) { char p[PATH_MAX]; if (d == AT_FDCWD && tracked(a, p)) { int e = mut("unlink", p, 0, 0, NULL, NULL); if (e) { errno = e; return -1; } int i = find_rec(p); if (i >= 0) recs[i].live = 0; } long w = raw6(SYS_unlinkat, d, (long)a, fl, 0, 0, 0); if (w < 0) { errno = -w; return -1; } return 0; }
int mkdir(const char *a, mode_t m) { char p[PATH_MAX]; if (tracked(a, p) && !exists(a)) { int e = mut("mkdir", p, 0, 0, NULL, NULL); if (e) { errno = e; return -1; } } long w = raw6(SYS_mkdir, (long)a, m, 0, 0, 0, 0); if (w < 0) { errno = -w; return -1; } return 0; }
int linkat(int x, const char *a, int y, const char *b, int f) { char p[PATH_MAX]; if (tracked(b, p)) { int e = mut("link", p, 0, 0, NULL, NULL); if (e) { errno = e; return -1; } } long w = raw6(SYS_linkat, x, (long)a, y, (long)b, f, 0); if (w < 0) { errno = -w; return -1; } return 0; }
int link(const char *a, const char *b) { return linkat(AT_FDCWD, a, AT_FDCWD, b, 0); }
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) { if (SIM) { errno = ENOSYS; return -1; } long w = raw6(SYS_copy_file_range, a, (long)x, b, (long)y, n, f); if (w < 0) { errno = -w; return -1; } return w; }
ssize_t sendfile64(int a, int b, off64_t *x, size_t n) { if (SIM) { errno = ENOSYS; return -1; } long w = raw6(SYS_sendfile, a, b, (long)x, n, 0, 0); if (w < 0) { errno = -w; return -1; } return w; }

// directory order: entries of tracked directories come in an order drawn from the seed
struct dirs { DIR *d; int n, i; struct dirent64 **e; };
static struct dirs D[64];
REAL(DIR *, opendir, const char *)
REAL(struct dirent64 *, readdir64, DIR *)
REAL(int, closedir, DIR *)
static int cmpd(const void *a, const void *b) { return strcmp((*(struct dirent64 **)a)->d_name, (*(struct dirent64 **)b)->d_name); }
DIR *opendir(const char *path) {
  init_opendir(); init_readdir64(); char p[PATH_MAX]; DIR *d = real_opendir(path); if (!d || !tracked(path, p)) return d;
  size_t one = 1; int fe = rd_fault(&one); if (fe && fe != EINTR) { real_closedir(d); errno = fe; return NULL; }
  struct dirs *s = NULL; for (int i = 0; i < 64; i++) if (!D[i].d) { s = &D[i]; break; }
  if (!s) { leak("opendir"); return d; }
  s->d = d; s->n = s->i = 0; s->e = NULL; struct dirent64 *e; while ((e = real_readdir64(d))) { s->e = realloc(s->e, (s->n + 1) * sizeof *s->e); struct dirent64 *c = malloc(sizeof *c); memcpy(c, e, e->d_reclen < sizeof *c ? e->d_reclen : sizeof *c); s->e[s->n++] = c; }
  if (s->n) { qsort(s->e, s->n, sizeof *s->e, cmpd); for (int i = s->n - 1; i > 0; i--) { int j = rnd(&dir_s) % (i + 1); struct dirent64 *t = s->e[i]; s->e[i] = s->e[j]; s->e[j] = t; } }
  S->dirs_shuffled++; return d;
}
static struct dirs *dfind(DIR *d) { if (SIM) for (int i = 0; i < 64; i++) if (D[i].d == d) return &D[i]; return NULL; }
struct dirent64 *readdir64(DIR *d) { init_readdir64(); struct dirs *s = dfind(d); if (s) { if (s->i < s->n) return s->e[s->i++]; return NULL; } return real_readdir64(d); }
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
int closedir(DIR *d) { init_closedir(); struct dirs *s = dfind(d); if (s) { for (int i = 0; i < s->n; i++) free(s->e[i]); free(s->e); s->d = NULL; s->e = NULL; } return real_closedir(d); }

// ---------------------------------------------------------------- control
void dsim_yield(uint64_t tag) { if (SIM) { h(tag); maybe_preempt(); } }
int dsim_on(void) { return enabled; }
int dsim_tid(void) { return self_id; }
uint64_t dsim_steps(void) { return S->steps; }
size_t dsim_shared_size(void) { return sizeof(struct shared); }
static void set_line(char *l) {
  char k[64], b[64]; unsigned long x, y; b[0] = 0;
  if (sscanf(l, "%63s", k) != 1) return;
  if (!strcmp(k, "root") && sscanf(l, "%*s %4095s", root) == 1) { rootlen = strlen(root); return; }
  if (!strcmp(k, "fault")) { char cls; if (sscanf(l, "%*s %c %lu %63s %lu", &cls, &x, b, &y) == 4 && nfaults < MAXFAULT) { for (int i = 0; i < FK_N; i++) if (!strcmp(b, fk_name[i])) faults[nfaults++] = (struct fault){cls, x, i, y, 0}; } return; }
  if (!strcmp(k, "switch")) { if (sscanf(l, "%*s %lu %lu", &x, &y) == 2 && nex < MAXDEV) { ex_step[nex] = x; ex_tid[nex++] = y; } return; }
  if (sscanf(l, "%*s %lu", &x) != 1) return;
#define K(n, v) if (!strcmp(k, n)) v = x
  K("ent_seed", ent_s); K("sched_seed", sched_s); K("clock_seed", clock_s); K("crash_seed", crash_s); K("dir_seed", dir_s);
  K("sched_mode", sched_mode); K("preempt_pm", preempt_pm); K("spurious_pm", spurious_pm); K("jump_pm", jump_pm); K("ent_eintr_pm", ent_eintr_pm);
  K("max_steps", max_steps); K("full_after", full_after); K("ncpu", ncpu); K("power_end", power_end); K("tick_max", tick_max); K("fs_sched", fs_sched);
}
// Enables the simulator in the calling (only) thread. shm: shared statistics block or NULL.
int dsim_enable(const char *cfg, void *shm) {
  if (shm) S = shm;
  memset(S, 0, sizeof *S); S->magic = 0xd1e51; S->loghash = S->schedhash = 0xcbf29ce484222325ULL;
  char *t = strdup(cfg), *sv, *l; for (l = strtok_r(t, "\n", &sv); l; l = strtok_r(NULL, "\n", &sv)) set_line(l);
  if (!tick_max) tick_max = 1;
  if (!key_made) { pthread_key_create(&exit_key, thread_exit_dtor); key_made = 1; }
  init_pthread_create(); init_pthread_join(); init_fopen(); init_fclose(); init_fread(); init_opendir(); init_readdir64(); init_closedir(); init_pthread_mutex_lock(); init_pthread_mutex_trylock(); init_sysconf();
  nT = 1; cur = 0; T[0].st = T_RUN; T[0].deadline = -1; T[0].pt = pthread_self(); self_id = 0; enabled = 1; return 0;
}
static void finish(void) { S->sim_ns = mono_ns - 1000000000000LL; if (power_end) { S->fault_fired[FK_POWER]++; power_loss(); } enabled = 0; }
void dsim_disable(void) { finish(); }
static void fini(void) { if (enabled) finish(); }
__attribute__((constructor)) static void ctor(void) {
  const char *cf = getenv("DIESIM_CFG"), *sh = getenv("DIESIM_SHM"); if (!cf) return;
  int fd = raw6(SYS_open, (long)cf, O_RDONLY, 0, 0, 0, 0); if (fd < 0) return;
  char *buf = calloc(1, 1 << 20); size_t o = 0; long r; while (o < (1 << 20) - 1 && (r = raw6(SYS_read, fd, (long)buf + o, (1 << 20) - 1 - o, 0, 0, 0)) > 0) o += r;
  raw6(SYS_close, fd, 0, 0, 0, 0, 0);
  void *m = NULL; if (sh) { int s = raw6(SYS_open, (long)sh, O_RDWR, 0, 0, 0, 0); if (s >= 0) { m = mmap(NULL, sizeof(struct shared), PROT_READ | PROT_WRITE, MAP_SHARED, s, 0); if (m == MAP_FAILED) m = NULL; raw6(SYS_close, s, 0, 0, 0, 0, 0); } }
  unsetenv("DIESIM_CFG"); unsetenv("DIESIM_SHM"); atexit(fini);
  dsim_enable(buf, m);
}

// ---------------------------------------------------------------- zygote
// DIESIM_ZYGOTE=<request fd>,<reply fd>: instead of running main once, fork one child per request
// (the process start, dominated by linking libtorch, is paid once) and run the real main in it.
// Request: u32 length, then NUL-separated: cwd, cfg text, shm path, stdin, stdout, stderr, cpu seconds, argv...
#include <sys/resource.h>
#include <sys/wait.h>
static int (*real_main)(int, char **, char **);
static int rdall(int fd, void *b, size_t n) { char *p = b; while (n) { long r = raw6(SYS_read, fd, (long)p, n, 0, 0, 0); if (r <= 0) { if (r == -EINTR) continue; return -1; } p += r; n -= r; } return 0; }
static int zygote_main(int argc, char **argv, char **envp) {
  const char *z = getenv("DIESIM_ZYGOTE"); if (!z) return real_main(argc, argv, envp);
  int in, out; if (sscanf(z, "%d,%d", &in, &out) != 2) return 95;
  unsetenv("DIESIM_ZYGOTE");
  for (;;) {
    uint32_t n; if (rdall(in, &n, 4)) return 0;
    char *b = calloc(1, n + 1); if (rdall(in, b, n)) return 0;
    pid_t pid = fork();
    if (!pid) {
      close(in); close(out);
      char *f[64]; int k = 0; for (char *p = b; p < b + n && k < 63; p += strlen(p) + 1) f[k++] = p;
      f[k] = NULL; if (k < 8) _exit(95);
      if (chdir(f[0])) _exit(95);
      int fd = open(f[3], O_RDONLY); if (fd >= 0) { dup2(fd, 0); close(fd); }
      fd = open(f[4], O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd >= 0) { dup2(fd, 1); close(fd); }
      fd = open(f[5], O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd >= 0) { dup2(fd, 2); close(fd); }
      unsigned long cpu = strtoul(f[6], NULL, 10); struct rlimit rl = {cpu, cpu}; setrlimit(RLIMIT_CPU, &rl);
      struct rlimit rd = {3ul << 30, 3ul << 30}; setrlimit(RLIMIT_DATA, &rd); // an endless allocation ends the program, not the machine
      struct rlimit nc = {0, 0}; setrlimit(RLIMIT_CORE, &nc);
      void *m = NULL; int s = open(f[2], O_RDWR); if (s >= 0) { m = mmap(NULL, sizeof(struct shared), PROT_READ | PROT_WRITE, MAP_SHARED, s, 0); close(s); if (m == MAP_FAILED) m = NULL; }
      atexit(fini); dsim_enable(f[1], m);
      exit(real_main(k - 7, f + 7, environ));
    }
    free(b); int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    int32_t r = st; if (write(out, &r, 4) != 4) return 0;
  }
}
int __libc_start_main(int (*m)(int, char **, char **), int argc, char **argv, void (*init)(void), void (*fin)(void), void (*rf)(void), void *se) {
  int (*r)(int (*)(int, char **, char **), int, char **, void (*)(void), void (*)(void), void (*)(void), void *) = dlsym(RTLD_NEXT, "__libc_start_main");
  real_main = m; return r(zygote_main, argc, argv, init, fin, rf, se);
}
