// Native replay: the counterpart of the symbolic executor. Runs the compiled
// harness (the real code) on the concrete bytes and schedule of a replay
// file, one thread at a time, on a virtual clock.
//
// usage: replay FILE
//   entry NAME / tier N / input b,b,.. / sched b,b,..
// exit: 0 the path ran to its end; 1 a check failed, a panic, a crash or a
// hang (printed as "FAIL kind: message"); 2 the replay does not apply
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>

static long raw3(long n, long a, long b, long c) {
  long r;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c) : "rcx", "r11", "memory");
  return r;
}
static void say(const char *fmt, ...) {
  char b[4096];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof b) n = sizeof b;
  for (int o = 0; o < n;) {
    long r = raw3(SYS_write, 1, (long)b + o, n - o);
    if (r <= 0) break;
    o += r;
  }
}
static void quit(int c) {
  for (;;) raw3(SYS_exit_group, c, 0, 0);
}

enum { RUN, FUTEX, SLEEP, JOIN, ADVANCE, DONE };
#define MAXT 512
static struct T {
  int status;
  uint64_t addr, deadline;
  int has_deadline, join, at_point;
  long ret;
  int err;
  sem_t sem;
  pthread_t id;
  void *(*fn)(void *);
  void *arg, *res;
} T[MAXT];
static int nt = 1, cur = 0;
static uint64_t now_ns = 1000000000000ull;
static __thread int me;
static int sched_on, budget, expect_panic;
static unsigned char input[65536], schedv[65536];
static long ninput, iinput, nsched, isched;
static long tier;
static volatile long progress;
static int quiet;

static int runnable(int *r) {
  int k = 0;
  for (int i = 1; i <= nt; i++) {
    int j = (cur + i) % nt;
    if (T[j].status == RUN) r[k++] = j;
  }
  return k;
}
static int choose(int n) {
  if (n == 1) return 0;
  int v = isched < nsched ? schedv[isched] : 0;
  isched++;
  return v < n - 1 ? v : n - 1;
}
// hand over to thread j and wait to be resumed
static void pass(int j, int dead) {
  progress++;
  cur = j;
  if (j == me) return;
  sem_post(&T[j].sem);
  if (dead) return;
  while (sem_wait(&T[me].sem)) {
  }
}
static void fire(void) {
  for (int i = 0; i < nt; i++) {
    if (T[i].status == FUTEX && T[i].has_deadline && T[i].deadline <= now_ns) {
      T[i].status = RUN;
      T[i].ret = -1;
      T[i].err = ETIMEDOUT;
    } else if (T[i].status == SLEEP && T[i].deadline <= now_ns) {
      T[i].status = RUN;
      T[i].ret = 0;
    }
  }
}
static void schedule(int dead) {
  for (;;) {
    int r[MAXT];
    int n = runnable(r);
    if (n) {
      int k = 0;
      if (sched_on && n > 1 && budget > 0) {
        k = choose(n);
        if (k > 0) budget--;
      }
      pass(r[k], dead);
      return;
    }
    int adv = -1;
    uint64_t until = 0, next = 0;
    int has = 0;
    for (int i = 0; i < nt; i++) {
      if (T[i].status == ADVANCE) adv = i, until = T[i].deadline;
      if ((T[i].status == FUTEX && T[i].has_deadline) || T[i].status == SLEEP) {
        if (!has || T[i].deadline < next) next = T[i].deadline;
        has = 1;
      }
    }
    if (adv >= 0 && has && next <= until) {
      if (next > now_ns) now_ns = next;
      fire();
    } else if (adv >= 0) {
      if (until > now_ns) now_ns = until;
      T[adv].status = RUN;
      pass(adv, dead);
      return;
    } else if (has) {
      if (next > now_ns) now_ns = next;
      fire();
    } else {
      say("FAIL hang: all threads are blocked for ever (deadlock)\n");
      quit(1);
    }
  }
}
void lisym_sp(void) {
  if (!sched_on) {
    T[me].at_point = 0;
    return;
  }
  if (T[me].at_point) {
    T[me].at_point = 0;
    return;
  }
  if (budget == 0) return;
  int r[MAXT], q[MAXT], n = runnable(r), m = 0;
  for (int i = 0; i < n; i++)
    if (r[i] != cur) q[m++] = r[i];
  if (!m) return;
  int k = choose(m + 1);
  if (k == 0) return;
  budget--;
  T[me].at_point = 1;
  pass(q[k - 1], 0);
  // (resumed: executes the operation)
  T[me].at_point = 0;
}
int sched_yield(void) {
  int r[MAXT];
  runnable(r);
  pass(r[0], 0);
  return 0;
}
void lisym_pause(void) { sched_yield(); }

static long do_futex(long uaddr, long op, long val, long ts, long mask) {
  switch (op & 0x7f) {
  case 0:
  case 9: {
    if (*(volatile uint32_t *)uaddr != (uint32_t)val) {
      errno = EAGAIN;
      return -1;
    }
    int has = 0;
    uint64_t d = 0;
    if (ts) {
      struct timespec *t = (struct timespec *)ts;
      __uint128_t dd = (__uint128_t)(uint64_t)t->tv_sec * 1000000000 + t->tv_nsec;
      if ((op & 0x7f) != 9) dd += now_ns;
      d = dd > UINT64_MAX ? UINT64_MAX : (uint64_t)dd;
      has = 1;
      if (d <= now_ns) {
        errno = ETIMEDOUT;
        return -1;
      }
    }
    T[me].status = FUTEX;
    T[me].addr = uaddr;
    T[me].has_deadline = has;
    T[me].deadline = d;
    schedule(0);
    if (T[me].ret < 0) errno = T[me].err;
    return T[me].ret;
  }
  case 1:
  case 10: {
    int woken = 0;
    for (int i = 0; i < nt && woken < (int)val; i++)
      if (T[i].status == FUTEX && T[i].addr == (uint64_t)uaddr) {
        T[i].status = RUN;
        T[i].ret = 0;
        woken++;
      }
    return woken;
  }
  }
  errno = ENOSYS;
  return -1;
}
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  (void)e;
  switch (n) {
  case SYS_futex:
    return do_futex(a, (int)b, (uint32_t)c, d, f);
  case SYS_gettid:
    return 1000 + me;
  case SYS_getrandom:
    memset((void *)a, 0x5a, b);
    return b;
  }
  errno = ENOSYS;
  return -1;
}
int clock_gettime(clockid_t k, struct timespec *t) {
  (void)k;
  t->tv_sec = now_ns / 1000000000;
  t->tv_nsec = now_ns % 1000000000;
  return 0;
}
static int dosleep(const struct timespec *t, int abs) {
  uint64_t d = (uint64_t)t->tv_sec * 1000000000 + t->tv_nsec;
  T[me].status = SLEEP;
  T[me].deadline = abs ? d : now_ns + d;
  schedule(0);
  return 0;
}
int nanosleep(const struct timespec *t, struct timespec *r) {
  (void)r;
  return dosleep(t, 0);
}
int clock_nanosleep(clockid_t k, int f, const struct timespec *t, struct timespec *r) {
  (void)k;
  (void)r;
  return dosleep(t, f & 1);
}

static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static void *tramp(void *p) {
  struct T *t = p;
  me = t - T;
  while (sem_wait(&t->sem)) {
  }
  t->res = t->fn(t->arg);
  t->status = DONE;
  for (int i = 0; i < nt; i++)
    if (T[i].status == JOIN && T[i].join == me) {
      T[i].status = RUN;
      T[i].ret = 0;
    }
  schedule(1);
  for (;;) raw3(SYS_pause, 0, 0, 0); // (never ends: its stack stays valid)
}
int pthread_create(pthread_t *id, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  (void)at;
  int k = nt++;
  if (k >= MAXT) {
    say("FAIL replay: too many threads\n");
    quit(2);
  }
  T[k].fn = fn;
  T[k].arg = arg;
  T[k].status = RUN;
  sem_init(&T[k].sem, 0, 0);
  int r = real_create(&T[k].id, 0, tramp, &T[k]);
  if (r) {
    say("FAIL replay: cannot create a thread\n");
    quit(2);
  }
  *id = k + 1;
  return 0;
}
pthread_t pthread_self(void) { return me + 1; }
int pthread_join(pthread_t id, void **res) {
  int k = id - 1;
  if (T[k].status != DONE) {
    T[me].status = JOIN;
    T[me].join = k;
    schedule(0);
  }
  if (res) *res = T[k].res;
  return 0;
}
int pthread_detach(pthread_t id) {
  (void)id;
  return 0;
}
int pthread_setname_np(pthread_t id, const char *n) {
  (void)id;
  (void)n;
  return 0;
}
// thread-local destructors do not run (as in the symbolic executor)
int __cxa_thread_atexit_impl(void *a, void *b, void *c) {
  (void)a;
  (void)b;
  (void)c;
  return 0;
}
static pthread_key_t nkeys = 0;
static __thread void *spec[256];
int pthread_key_create(pthread_key_t *k, void (*d)(void *)) {
  (void)d;
  *k = ++nkeys;
  return 0;
}
int pthread_key_delete(pthread_key_t k) {
  (void)k;
  return 0;
}
int pthread_setspecific(pthread_key_t k, const void *v) {
  spec[k & 255] = (void *)v;
  return 0;
}
void *pthread_getspecific(pthread_key_t k) { return spec[k & 255]; }
// nothing here may start another program
pid_t fork(void) {
  errno = EAGAIN;
  return -1;
}
int execvp(const char *f, char *const a[]) {
  (void)f;
  (void)a;
  errno = ENOENT;
  return -1;
}
int posix_spawnp(pid_t *p, const char *f, const void *a, const void *b, char *const c[], char *const d[]) {
  (void)p, (void)f, (void)a, (void)b, (void)c, (void)d;
  return ENOENT;
}

unsigned char lisym_sym_u8(void) {
  if (iinput >= sizeof input) quit(2);
  unsigned char v = iinput < ninput ? input[iinput] : 0;
  iinput++;
  return v;
}
void lisym_assume(_Bool c) {
  if (!c) {
    say("INFEASIBLE: an assumption does not hold\n");
    quit(2);
  }
}
void lisym_check(_Bool c, const char *p, size_t n) {
  if (!c) {
    say("FAIL check: %.*s\n", (int)n, p);
    quit(1);
  }
}
void lisym_advance_ns(uint64_t n) {
  T[me].status = ADVANCE;
  T[me].deadline = now_ns + n;
  schedule(0);
}
void lisym_settle(void) { lisym_advance_ns(0); }
void lisym_observe(uint64_t v) { say("OBS %llu\n", (unsigned long long)v); }
void lisym_cover(uint32_t k) { (void)k; }
void lisym_expect_panic(uint32_t k) { expect_panic = k; }
void lisym_sched(uint32_t k) {
  if (k == UINT32_MAX)
    sched_on = 0;
  else {
    sched_on = 1;
    budget = k;
  }
}
_Bool lisym_is_symbolic(void) { return 0; }
uint64_t lisym_concretize(uint64_t v) { return v; }
uint64_t lisym_tier(void) { return tier; }
void lisym_print(const char *p, size_t n) {
  if (!quiet) say("%.*s", (int)n, p);
}
void lisym_debug(uint64_t v) { (void)v; }
uint64_t lisym_threads_alive(void) {
  int n = 0;
  for (int i = 0; i < nt; i++) n += T[i].status != DONE;
  return n;
}

static void crash(int s) {
  if (s == SIGABRT && expect_panic) {
    say("END (expected panic)\n");
    quit(0);
  }
  if (s == SIGALRM) {
    static long last = -1;
    (void)last;
    say("FAIL hang: the program never becomes quiet\n");
    quit(1);
  }
  say("FAIL %s\n", s == SIGABRT ? "panic: abort" : "memory: invalid access");
  quit(1);
}

static void numbers(char *s, unsigned char *v, long *n) {
  for (char *p = strtok(s, ", \n"); p; p = strtok(0, ", \n")) {
    if (*n < 65536) v[(*n)++] = atoi(p);
  }
}
int main(int argc, char **argv) {
  char entry[256] = "";
  FILE *f = argc > 1 ? fopen(argv[1], "r") : 0;
  if (!f) return 2;
  static char line[1 << 20];
  while (fgets(line, sizeof line, f)) {
    if (!strncmp(line, "entry ", 6)) sscanf(line + 6, "%255s", entry);
    if (!strncmp(line, "tier ", 5)) tier = atol(line + 5);
    if (!strncmp(line, "input ", 6)) numbers(line + 6, input, &ninput);
    if (!strncmp(line, "sched ", 6)) numbers(line + 6, schedv, &nsched);
  }
  fclose(f);
  quiet = argc > 2 && !strcmp(argv[2], "-q");
  void (*e)(void) = (void (*)(void))dlsym(RTLD_DEFAULT, entry);
  if (!e) {
    say("no entry %s\n", entry);
    return 2;
  }
  real_create = dlsym(RTLD_NEXT, "pthread_create");
  struct sigaction sa = {0};
  sa.sa_handler = crash;
  sa.sa_flags = SA_ONSTACK;
  stack_t ss = {0};
  ss.ss_size = 1 << 16;
  ss.ss_sp = malloc(ss.ss_size);
  // (the harness replaces sigaction and friends: go to the kernel directly)
  extern int __sigaltstack(const stack_t *, stack_t *);
  raw3(SYS_sigaltstack, (long)&ss, 0, 0);
  struct ksa {
    void (*h)(int);
    unsigned long flags;
    void (*rest)(void);
    unsigned long mask;
  } k;
  extern void ksa_restore(void);
  k.h = crash;
  k.flags = 0x04000000 | SA_ONSTACK;
  k.rest = ksa_restore;
  k.mask = 0;
  int sigs[] = {SIGABRT, SIGSEGV, SIGBUS, SIGILL, SIGTRAP, SIGALRM};
  for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; i++) {
    register long r10 __asm__("r10") = 8;
    long r;
    __asm__ volatile("syscall" : "=a"(r) : "a"(SYS_rt_sigaction), "D"(sigs[i]), "S"(&k), "d"(0), "r"(r10) : "rcx", "r11", "memory");
  }
  raw3(SYS_alarm, 20, 0, 0);
  sem_init(&T[0].sem, 0, 0);
  T[0].status = RUN;
  e();
  say("END\n");
  quit(0);
}
__asm__(".globl ksa_restore\nksa_restore:\nmov $15,%rax\nsyscall\n");
