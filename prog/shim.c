// A simulated kernel edge for the real program: loaded before it with LD_PRELOAD.
// Writes, allocations, clocks, randomness, environment look-ups and terminal queries
// are answered from a plan; nothing the program writes to its standard streams reaches
// a real descriptor. The plan is explicit, so a run is exactly repeatable.
#define _GNU_SOURCE
#include <errno.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <link.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#define OUT_CAP (1 << 20)
#define MAX_FAULTS 256
#define MAX_ENV 64

struct fault { uint32_t kind, at, arg, len; };
// kinds
enum { F_SHORT = 1, F_ERRNO = 2, F_ZERO = 3, F_KILL_BEFORE = 4, F_KILL_AFTER = 5, F_NULL = 6, F_KILL_ALLOC = 7,
       F_SHORT_KILL = 8, F_DELAY = 9, F_NOTHREAD = 10 };

struct shared {
    // in
    uint32_t nfaults, vars_seed, tty, rand_seed;
    uint64_t clock0;
    uint32_t clock_mode, fd2_errno, files, pid;
    uint32_t thr_mode, thr_seed, cpus, pad;
    struct fault faults[MAX_FAULTS];
    // out
    uint32_t writes, writes_other, allocs, fired, hang, started;
    uint32_t reads_env, reads_clock, reads_random, reads_tty, opens, sleeps, threads, switches;
    uint32_t fired_kind[16];
    uint64_t clock, trace;
    uint32_t out_len, other_len;
    unsigned char out[OUT_CAP];
};

static struct shared *S;
static int on;

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);

static uint64_t mix(uint64_t z) {
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

static long raw(long n, long a, long b, long c, long d) {
    long r;
    register long r10 __asm__("r10") = d;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10) : "rcx", "r11", "memory");
    return r;
}

static long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}

static void die(void) { raw(SYS_kill, raw(SYS_getpid, 0, 0, 0, 0), SIGKILL, 0, 0); for (;;) ; }

static void threads_start(void);
__attribute__((constructor)) static void start(void) {
    const char *p = NULL;
    extern char **environ;
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, "VERIF_SHIM=", 11)) p = *e + 11;
    if (!p) return;
    long fd = raw(SYS_openat, -100, (long)p, O_RDWR, 0);
    if (fd < 0) return;
    void *m = mmap(NULL, sizeof(struct shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    raw(SYS_close, fd, 0, 0, 0);
    if (m == MAP_FAILED) return;
    S = m;
    S->started = 1;
    S->clock = S->clock0;
    threads_start();
    on = 1;
}

// which: 0 writes, 1 allocations, 2 threads started
static struct fault *find(int which, uint32_t n) {
    for (uint32_t i = 0; i < S->nfaults; i++) {
        struct fault *f = &S->faults[i];
        int a = f->kind == F_NOTHREAD ? 2 : f->kind == F_NULL || f->kind == F_KILL_ALLOC;
        if (a == which && n >= f->at && (f->len == 0 || n - f->at < f->len)) return f;
    }
    return NULL;
}

static void note(uint64_t a, uint64_t b) { S->trace = mix(S->trace ^ mix(a * 0x10001 + b)); }

static void fired(struct fault *f) { S->fired++; S->fired_kind[f->kind & 15]++; note(f->kind, S->writes * 65536ull + S->allocs); }

static void accept_bytes(const void *b, size_t n) {
    if (S->out_len + n > OUT_CAP) { S->hang = 2; raw(SYS_exit_group, 97, 0, 0, 0); }
    memcpy(S->out + S->out_len, b, n);
    S->out_len += n;
    note(100, n);
}
static int backtrace;

// ---- threads ----------------------------------------------------------------------------
// One thread runs at a time; the others wait for the baton. It changes hands only at writes,
// allocations, waits, wakes, yields, sleeps, starts and ends of threads, and who gets it is
// decided by the plan's seed. (A thread that burns 30 ms of processor time without reaching
// any of these is spinning on memory: only then a timer takes the baton away.)
#define MAX_THR 128
enum { T_READY = 0, T_WAIT, T_SLEEP, T_JOIN, T_DONE };
struct thr {
    volatile uint32_t go;
    uint32_t state, prio, bits, timed_out;
    int tid, join;
    uint64_t wake_at;                    // 0: never
    const void *addr;
    pthread_t id;
    void *(*fn)(void *);
    void *arg;
};
static struct thr T[MAX_THR];
static volatile int nthr = 1, cur, nosched, in_sched;
static volatile int dying;               // kernel thread that gave the baton away for good
static volatile uint64_t steps;
static uint64_t last_steps, yields, since, idle;
static uint64_t rate = 24, change = 32, early = 16; // how often an allocation may end a turn, a priority drops, a sleep is over early
static pthread_key_t key;
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);

static uint64_t dice(void) { static uint64_t n; return mix(S->thr_seed * 0x9E3779B9ull + ++n); }

static void halt(int why) { S->hang = why; raw(SYS_exit_group, 98, 0, 0, 0); }

static void settle(void) {
    // the thread that ended before this one was resumed is gone from the system first
    int d = dying;
    if (!d) return;
    dying = 0;
    while (raw(SYS_tgkill, raw(SYS_getpid, 0, 0, 0, 0), d, 0, 0) == 0) raw(SYS_sched_yield, 0, 0, 0, 0);
}

// who runs next; move: not the present thread if any other can
static int pick(int move) {
    int c[MAX_THR], n = 0, me = cur;
    int mine = T[me].state == T_READY;
    for (int i = 0; i < nthr; i++)
        if (T[i].state == T_READY && !(move && i == me)) c[n++] = i;
    uint64_t r = dice();
    // a sleep or a timed wait may end before a thread that could run gets to
    if (n == 0 || (S->thr_mode && r % early == 0))
        for (int i = 0; i < nthr; i++)
            if ((T[i].state == T_SLEEP || T[i].state == T_WAIT) && T[i].wake_at) {
                int soonest = 1;
                for (int k = 0; k < nthr; k++)
                    if (k != i && (T[k].state == T_SLEEP || T[k].state == T_WAIT) && T[k].wake_at &&
                        (T[k].wake_at < T[i].wake_at || (T[k].wake_at == T[i].wake_at && k < i))) soonest = 0;
                if (soonest) { if (n == 0 && mine) c[n++] = me; c[n++] = i; }
            }
    if (n == 0) {
        if (mine) return me;
        halt(3);
    }
    r = dice();
    if (c[n - 1] != me && T[c[n - 1]].state != T_READY) {
        if (n == 1 || (r >> 40) % 3) return c[n - 1];
        n--;
    }
    switch (S->thr_mode) {
    case 0:                               // until it blocks; then the next in turn
        if (mine && !move) return me;
        for (int k = 1; k <= nthr; k++)
            for (int i = 0; i < n; i++)
                if (c[i] == (me + k) % nthr) return c[i];
        return c[0];
    case 2:                               // the newest first
        if (move) return c[r % n];
        for (int i = n - 1; i >= 0; i--)
            if (T[c[i]].state == T_READY) return c[i];
        return c[0];
    case 3: case 6: {                     // priorities that change now and then
        if (move || r % change == 0) T[me].prio = (uint32_t)(1000000 - (steps < 900000 ? steps : 900000));
        int b = c[0];
        for (int i = 1; i < n; i++)
            if (T[c[i]].prio > T[b].prio) b = c[i];
        return b;
    }
    case 4:                               // the oldest first
        return move ? c[r % n] : c[0];
    default:
        return c[r % n];
    }
}

// ---- turns taken between two instructions: the processor traps after each one --------------
static int span, left, budget = 8000;
static const int spans[] = { 12, 40, 150, 600 };
static uintptr_t text0, text1;

static int text_of(struct dl_phdr_info *i, size_t n, void *u) {
    (void)n; (void)u;
    for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) {
            text0 = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
            text1 = text0 + i->dlpi_phdr[k].p_memsz;
        }
    return 1;                             // the first is the program itself
}
static void disarm(void) { __builtin_ia32_writeeflags_u64(__builtin_ia32_readeflags_u64() & ~0x100ull); }
static void arm(int often) {
    if (S->thr_mode < 5 || nthr == 1 || nosched || backtrace || budget <= 0 || dice() % often) return;
    left = 1 + dice() % span;
    __builtin_ia32_writeeflags_u64(__builtin_ia32_readeflags_u64() | 0x100ull);
}
static void turn(int move);
static void stepped(int sig, siginfo_t *i, void *u) {
    (void)sig; (void)i;
    greg_t *g = ((ucontext_t *)u)->uc_mcontext.gregs;
    uintptr_t at = g[REG_RIP];
    int e = errno;
    steps++;
    if (--budget <= 0) g[REG_EFL] &= ~0x100ll;
    else if (at >= text0 && at < text1 && !nosched && !in_sched && !backtrace && --left <= 0) {
        S->fired_kind[15]++;
        turn(1);
        if (dice() & 1) left = 1 + dice() % span;
        else g[REG_EFL] &= ~0x100ll;
    }
    errno = e;
}

static void hand(int j) {
    disarm();
    if (T[j].state != T_READY) {
        T[j].timed_out = 1;
        if (T[j].wake_at > S->clock) S->clock = T[j].wake_at;
        T[j].state = T_READY;
        T[j].wake_at = 0;
    }
    S->switches++;
    since = 0;
    note(200, j);
    cur = j;
    T[j].go = 1;
    raw(SYS_futex, (long)&T[j].go, FUTEX_WAKE, 1, 0);
}

static void wait_turn(int me) {
    while (!T[me].go) raw(SYS_futex, (long)&T[me].go, FUTEX_WAIT, 0, 0);
    T[me].go = 0;
    settle();
    in_sched = 0;
}

static void turn(int move) {
    int me = cur;
    in_sched = 1;
    if (++steps > 20000000) halt(4);
    int j = pick(move);
    if (j == me) {
        if (T[me].state != T_READY) { T[me].timed_out = 1; if (T[me].wake_at > S->clock) S->clock = T[me].wake_at; T[me].state = T_READY; T[me].wake_at = 0; }
        in_sched = 0;
        return;
    }
    hand(j);
    wait_turn(me);
}

static void point(int alloc) {
    if (nthr == 1 || nosched || !on || in_sched) return;
    steps++;
    if (alloc && backtrace) return;
    // nobody starves
    if ((since += alloc ? 1 : 20) > (S->thr_mode == 3 || S->thr_mode == 6 ? 40000 : 4000)) { since = 0; turn(1); return; }
    if (alloc) {
        if (S->thr_mode == 0 || S->thr_mode == 2 || S->thr_mode == 4) return;
        if (dice() % rate) return;
    }
    turn(0);
    arm(alloc ? 40 : 2);
}

static void yield_now(void) {
    if (nthr == 1 || nosched) return;
    uint32_t m = S->thr_mode;
    if (++yields % 16 == 0) S->thr_mode = 0;
    turn(1);
    S->thr_mode = m;
    arm(8);
}

static void tick(int sig) {
    (void)sig;
    int e = errno;
    if (on && nthr > 1 && !in_sched) {
        int me = raw(SYS_gettid, 0, 0, 0, 0);
        if (me != T[cur].tid) raw(SYS_tgkill, raw(SYS_getpid, 0, 0, 0, 0), T[cur].tid, SIGVTALRM, 0);
        else if (steps != last_steps) { last_steps = steps; idle = 0; }
        else if (!nosched && ++idle >= (backtrace ? 20 : 1)) { idle = 0; turn(1); }
    }
    errno = e;
}

static void finish(void *v) {
    disarm();
    long n = (long)v;
    // the last of the destructors of the thread
    if (n < 4) { pthread_setspecific(key, (void *)(n + 1)); return; }
    int me = cur;
    in_sched = 1;
    T[me].state = T_DONE;
    for (int i = 0; i < nthr; i++)
        if (T[i].state == T_JOIN && T[i].join == me) T[i].state = T_READY;
    int j = pick(1);
    dying = T[me].tid;
    hand(j);
}

static void *first(void *a) {
    int me = (int)(long)a;
    T[me].tid = raw(SYS_gettid, 0, 0, 0, 0);
    wait_turn(me);
    pthread_setspecific(key, (void *)1);
    arm(2);
    return T[me].fn(T[me].arg);
}

int pthread_create(pthread_t *id, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
    if (!on) {
        if (!real_create) real_create = dlsym(RTLD_NEXT, "pthread_create");
        return real_create(id, at, fn, arg);
    }
    uint32_t k = S->threads++;
    struct fault *f = find(2, k);
    if (f) { fired(f); return EAGAIN; }
    if (nthr == MAX_THR) return EAGAIN;
    int i = nthr;
    memset(&T[i], 0, sizeof T[i]);
    T[i].fn = fn; T[i].arg = arg; T[i].prio = dice() % 1000000 + 2000000;
    if (i == 1) {
        T[0].tid = raw(SYS_gettid, 0, 0, 0, 0);
        T[0].prio = dice() % 1000000 + 2000000;
        struct itimerval t = { { 0, 30000 }, { 0, 30000 } };
        struct sigaction sa;
        memset(&sa, 0, sizeof sa);
        sa.sa_handler = tick;
        sa.sa_flags = SA_RESTART;
        sigaction(SIGVTALRM, &sa, NULL);
        setitimer(ITIMER_VIRTUAL, &t, NULL);
        sa.sa_sigaction = stepped;
        sa.sa_flags = SA_RESTART | SA_SIGINFO;
        sigaction(SIGTRAP, &sa, NULL);
    }
    disarm();                             // the C library blocks signals in there
    nosched++;
    int r = real_create(&T[i].id, at, first, (void *)(long)i);
    nosched--;
    if (r) return r;
    *id = T[i].id;
    T[i].state = T_READY;
    nthr = i + 1;
    note(201, i);
    point(0);
    return 0;
}

int pthread_join(pthread_t id, void **out) {
    if (!real_join) real_join = dlsym(RTLD_NEXT, "pthread_join");
    if (!on) return real_join(id, out);
    int i = nthr - 1;
    while (i > 0 && T[i].id != id) i--;
    if (i > 0)
        while (T[i].state != T_DONE) {
            T[cur].state = T_JOIN;
            T[cur].join = i;
            turn(1);
        }
    disarm();
    nosched++;
    int r = real_join(id, out);
    nosched--;
    return r;
}

static long futex(uint32_t *a, int op, uint32_t val, const struct timespec *t, uint32_t bits) {
    int cmd = op & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
        uint32_t n = 0;
        while (n < val) {
            int c[MAX_THR], k = 0;
            for (int i = 0; i < nthr; i++)
                if (T[i].state == T_WAIT && T[i].addr == a && (T[i].bits & bits)) c[k++] = i;
            if (!k) break;
            int w = c[S->thr_mode ? dice() % k : 0];
            T[w].state = T_READY;
            T[w].timed_out = 0;
            T[w].wake_at = 0;
            n++;
        }
        point(0);
        return n;
    }
    point(0);
    if (__atomic_load_n(a, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
    int me = cur;
    T[me].state = T_WAIT;
    T[me].addr = a;
    T[me].bits = bits;
    T[me].timed_out = 0;
    T[me].wake_at = 0;
    if (t) {
        uint64_t at = t->tv_sec * 1000000000ull + t->tv_nsec;
        if (cmd == FUTEX_WAIT) at += S->clock;
        else if (op & FUTEX_CLOCK_REALTIME) at = at > 1700000000000000000ull ? at - 1700000000000000000ull : 0;
        T[me].wake_at = at ? at : 1;
        S->sleeps++;
    }
    turn(1);
    arm(4);
    if (T[me].timed_out) { errno = ETIMEDOUT; return -1; }
    return 0;
}

long syscall(long n, ...) {
    va_list l;
    long a[6];
    va_start(l, n);
    for (int i = 0; i < 6; i++) a[i] = va_arg(l, long);
    va_end(l);
    if (on && n == SYS_futex) {
        int cmd = a[1] & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
        if (cmd == FUTEX_WAIT || cmd == FUTEX_WAKE) return futex((uint32_t *)a[0], a[1], a[2], cmd == FUTEX_WAIT ? (void *)a[3] : NULL, ~0u);
        if (cmd == FUTEX_WAIT_BITSET || cmd == FUTEX_WAKE_BITSET) return futex((uint32_t *)a[0], a[1], a[2], cmd == FUTEX_WAIT_BITSET ? (void *)a[3] : NULL, a[5]);
    }
    if (on && n == SYS_getrandom) return getrandom((void *)a[0], a[1], a[2]);
    if (on && n == SYS_write) return write(a[0], (void *)a[1], a[2]);
    long r = raw6(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (r < 0 && r > -4096) { errno = -r; return -1; }
    return r;
}

int sched_yield(void) {
    if (!on) return raw(SYS_sched_yield, 0, 0, 0, 0);
    yield_now();
    return 0;
}

int sched_getaffinity(pid_t p, size_t n, cpu_set_t *m) {
    if (!on || !S->cpus) {
        long r = raw(SYS_sched_getaffinity, p, n, (long)m, 0);
        if (r < 0) { errno = -r; return -1; }
        if ((size_t)r < n) memset((char *)m + r, 0, n - r);
        return 0;
    }
    memset(m, 0, n);
    for (uint32_t i = 0; i < S->cpus && i / 8 < n; i++) ((unsigned char *)m)[i / 8] |= 1 << (i % 8);
    return 0;
}

static void threads_start(void) {
    real_create = dlsym(RTLD_NEXT, "pthread_create");
    real_join = dlsym(RTLD_NEXT, "pthread_join");
    pthread_key_create(&key, finish);
    mallopt(M_ARENA_MAX, 1);
    static const int rates[] = { 1, 6, 24, 200 }, changes[] = { 8, 64, 1000, 1000000 };
    rate = rates[mix(S->thr_seed) & 3];
    change = changes[mix(S->thr_seed) >> 2 & 3];
    static const int earlies[] = { 16, 16, 2, 1 };
    early = earlies[mix(S->thr_seed) >> 4 & 3];
    span = spans[mix(S->thr_seed) >> 6 & 3];
    dl_iterate_phdr(text_of, NULL);
}

// ---- descriptors that reach standard output -------------------------------------------
static unsigned char is_out[64] = { 0, 1 };
static int out_fd(int fd) { return fd >= 0 && fd < 64 && is_out[fd]; }

static ssize_t do_write(int fd, const void *b, size_t n) {
    point(0);
    if (!out_fd(fd)) {
        if (fd == 2) {
            S->writes_other++;
            S->other_len += n;
            if (S->writes_other > 20000) { S->hang = 1; raw(SYS_exit_group, 98, 0, 0, 0); }
            if (S->fd2_errno) { errno = S->fd2_errno; return -1; }
            return n;
        }
        long r = raw(SYS_write, fd, (long)b, n, 0);
        if (r < 0) { errno = -r; return -1; }
        return r;
    }
    uint32_t w = S->writes++;
    if (S->writes > 200000) { S->hang = 1; raw(SYS_exit_group, 98, 0, 0, 0); }
    struct fault *f = find(0, w);
    if (f) {
        switch (f->kind) {
        case F_SHORT:
            if (n > f->arg) { n = f->arg; fired(f); }
            break;
        case F_ERRNO:
            fired(f);
            disarm();
            if (f->arg == EPIPE) raise(SIGPIPE);
            errno = f->arg;
            return -1;
        case F_ZERO: fired(f); return 0;
        case F_KILL_BEFORE: fired(f); die();
        case F_KILL_AFTER: fired(f); accept_bytes(b, n); die();
        case F_SHORT_KILL: fired(f); accept_bytes(b, n < f->arg ? n : f->arg); die();
        case F_DELAY: fired(f); S->clock += (uint64_t)f->arg * 1000000000ull; break;
        }
    }
    accept_bytes(b, n);
    return n;
}

ssize_t write(int fd, const void *b, size_t n) {
    if (!on) { long r = raw(SYS_write, fd, (long)b, n, 0); if (r < 0) { errno = -r; return -1; } return r; }
    return do_write(fd, b, n);
}

ssize_t writev(int fd, const struct iovec *v, int k) {
    if (!on || !(out_fd(fd) || fd == 2)) {
        long r = raw(SYS_writev, fd, (long)v, k, 0);
        if (r < 0) { errno = -r; return -1; }
        return r;
    }
    static unsigned char flat[1 << 18];
    size_t n = 0;
    for (int i = 0; i < k; i++) {
        size_t m = v[i].iov_len;
        if (n + m > sizeof flat) m = sizeof flat - n;
        memcpy(flat + n, v[i].iov_base, m);
        n += m;
    }
    return do_write(fd, flat, n);
}

ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) {
    if (on && (out_fd(fd) || fd == 2)) return do_write(fd, b, n);
    long r = raw(SYS_pwrite64, fd, (long)b, n, o);
    if (r < 0) { errno = -r; return -1; }
    return r;
}

ssize_t send(int fd, const void *b, size_t n, int fl) {
    if (on && (out_fd(fd) || fd == 2)) return do_write(fd, b, n);
    errno = ENOTSOCK;
    return -1;
}

static void learn(long fd, int from) { if (fd >= 0 && fd < 64 && from >= 0 && from < 64) is_out[fd] = is_out[from]; }

int dup(int fd) {
    long r = raw(SYS_dup, fd, 0, 0, 0);
    if (r < 0) { errno = -r; return -1; }
    learn(r, fd);
    return r;
}
int dup2(int a, int b) {
    long r = raw(SYS_dup2, a, b, 0, 0);
    if (r < 0) { errno = -r; return -1; }
    learn(r, a);
    return r;
}
static int do_fcntl(int fd, int cmd, long arg) {
    long r = raw(SYS_fcntl, fd, cmd, arg, 0);
    if (r < 0) { errno = -r; return -1; }
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) learn(r, fd);
    return r;
}
int fcntl(int fd, int cmd, ...) {
    va_list l; va_start(l, cmd); long a = va_arg(l, long); va_end(l);
    return do_fcntl(fd, cmd, a);
}
int fcntl64(int fd, int cmd, ...) {
    va_list l; va_start(l, cmd); long a = va_arg(l, long); va_end(l);
    return do_fcntl(fd, cmd, a);
}
int close(int fd) {
    if (on && fd > 2 && fd < 64) is_out[fd] = 0;
    long r = raw(SYS_close, fd, 0, 0, 0);
    if (r < 0) { errno = -r; return -1; }
    return 0;
}
static int do_open(int dir, const char *p, int fl, int mode) {
    int out = on && p && (!strcmp(p, "/dev/stdout") || !strcmp(p, "/proc/self/fd/1") || !strcmp(p, "/dev/fd/1") || !strcmp(p, "/dev/tty"));
    if (on) {
        S->opens++;
        // nothing the program does may leave a trace outside
        if (!out && (fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) && strcmp(p, "/dev/null")) { errno = EROFS; return -1; }
    }
    if (on && !out && strcmp(p, "/dev/null")) {
        if (S->files == 1) { errno = ENOENT; return -1; }
        if (S->files == 2) { errno = EMFILE; return -1; }
        if (S->files == 3) {
            static const char text[] = "3\norder = 2\nlevel=debug\nquiet: true\n";
            long m = raw(SYS_memfd_create, (long)"f", 0, 0, 0);
            if (m < 0) { errno = -m; return -1; }
            raw(SYS_write, m, (long)text, sizeof text - 1, 0);
            raw(SYS_lseek, m, 0, 0, 0);
            return m;
        }
    }
    long r = raw(SYS_openat, dir, (long)(out ? "/dev/null" : p), fl, mode);
    if (r < 0) { errno = -r; return -1; }
    if (on && r < 64) is_out[r] = out;
    return r;
}
int open(const char *p, int fl, ...) { va_list l; va_start(l, fl); int m = va_arg(l, int); va_end(l); return do_open(-100, p, fl, m); }
int open64(const char *p, int fl, ...) { va_list l; va_start(l, fl); int m = va_arg(l, int); va_end(l); return do_open(-100, p, fl, m); }
int openat(int d, const char *p, int fl, ...) { va_list l; va_start(l, fl); int m = va_arg(l, int); va_end(l); return do_open(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { va_list l; va_start(l, fl); int m = va_arg(l, int); va_end(l); return do_open(d, p, fl, m); }

int unlink(const char *p) { (void)p; errno = EROFS; return -1; }
int rmdir(const char *p) { (void)p; errno = EROFS; return -1; }
int mkdir(const char *p, mode_t m) { (void)p; (void)m; errno = EROFS; return -1; }
int rename(const char *p, const char *q) { (void)p; (void)q; errno = EROFS; return -1; }
int symlink(const char *p, const char *q) { (void)p; (void)q; errno = EROFS; return -1; }
int truncate64(const char *p, off_t n) { (void)p; (void)n; errno = EROFS; return -1; }
int statx(int d, const char *p, int fl, unsigned m, struct statx *o) {
    if (on && *p && S->files == 1) { S->opens++; errno = ENOENT; return -1; }
    if (on && *p && S->files == 3) {
        S->opens++;
        memset(o, 0, sizeof *o);
        o->stx_mask = m; o->stx_mode = S_IFREG | 0644; o->stx_size = 64; o->stx_nlink = 1;
        return 0;
    }
    register long r10 __asm__("r10") = m;
    register long r8 __asm__("r8") = (long)o;
    long r;
    __asm__ volatile("syscall" : "=a"(r) : "a"(SYS_statx), "D"(d), "S"(p), "d"(fl), "r"(r10), "r"(r8) : "rcx", "r11", "memory");
    if (r < 0) { errno = -r; return -1; }
    return r;
}

// the working directory may be gone
char *getcwd(char *buf, size_t n) {
    if (on) {
        S->opens++;
        if (S->files == 1) { errno = ENOENT; return NULL; }
    }
    if (!buf) { errno = EINVAL; return NULL; }
    long r = raw(SYS_getcwd, (long)buf, n, 0, 0);
    if (r < 0) { errno = -r; return NULL; }
    return buf;
}

// ---- memory -----------------------------------------------------------------------------
// The standard library holds a lock while it prints a backtrace and takes it again when
// memory runs out, so it would wait for itself; no memory is refused from there on.
static int refused(void) {
    if (!on || in_sched) return 0;
    point(1);
    if (backtrace) return 0;
    uint32_t k = S->allocs++;
    struct fault *f = find(1, k);
    if (!f) return 0;
    fired(f);
    if (f->kind == F_KILL_ALLOC) die();
    errno = ENOMEM;
    return 1;
}
void *malloc(size_t n) { return refused() ? NULL : __libc_malloc(n); }
void *calloc(size_t n, size_t m) { return refused() ? NULL : __libc_calloc(n, m); }
void *realloc(void *p, size_t n) { return refused() ? NULL : __libc_realloc(p, n); }
void *memalign(size_t a, size_t n) { return refused() ? NULL : __libc_memalign(a, n); }
void *aligned_alloc(size_t a, size_t n) { return refused() ? NULL : __libc_memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) {
    if (refused()) return ENOMEM;
    *p = __libc_memalign(a, n);
    return *p ? 0 : ENOMEM;
}

// ---- surroundings -----------------------------------------------------------------------
static char *lookup(const char *name) {
    extern char **environ;
    size_t n = strlen(name);
    char *real = NULL;
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, name, n) && (*e)[n] == '=') real = *e + n + 1;
    // (the size of new threads' stacks is not the report's business)
    if (!on || !S->vars_seed || !strcmp(name, "RUST_MIN_STACK")) return real;
    S->reads_env++;
    uint64_t h = S->vars_seed;
    for (const char *c = name; *c; c++) h = mix(h ^ (unsigned char)*c);
    static char *vals[] = { "", "0", "1", "2", "3", "8", "true", "false", "off", "full", "12", "80", "999999", "de_DE.UTF-8",
                            "C", "trace", "/nonexistent", "-1", "x", "\xff\xfe", "dumb", "json" };
    if (h % 5 == 0) return real;
    if (h % 5 == 1) return NULL;
    return vals[(h >> 8) % (sizeof vals / sizeof *vals)];
}

char *getenv(const char *name) {
    char *v = lookup(name);
    if (v && (!strcmp(name, "RUST_BACKTRACE") || !strcmp(name, "RUST_LIB_BACKTRACE"))) backtrace = 1;
    return v;
}

int clock_gettime(clockid_t id, struct timespec *t) {
    if (!on) return raw(SYS_clock_gettime, id, (long)t, 0, 0) ? -1 : 0;
    point(0);
    S->reads_clock++;
    if (S->clock_mode == 1) S->clock += mix(S->reads_clock ^ S->rand_seed) % 5000000000ull;
    else if (S->clock_mode == 2) S->clock += 1000;
    uint64_t c = S->clock + (id == CLOCK_REALTIME ? 1700000000000000000ull : 0);
    t->tv_sec = c / 1000000000; t->tv_nsec = c % 1000000000;
    return 0;
}
int gettimeofday(struct timeval *tv, void *z) {
    struct timespec t; (void)z;
    clock_gettime(CLOCK_REALTIME, &t);
    tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *o) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (o) *o = t.tv_sec; return t.tv_sec; }
static int sleep_until(uint64_t t) {
    S->sleeps++;
    if (nthr > 1 && !nosched) {
        T[cur].state = T_SLEEP;
        T[cur].wake_at = t ? t : 1;
        turn(1);
    }
    if (t > S->clock) S->clock = t;
    return 0;
}
static int do_sleep(const struct timespec *r) { return sleep_until(S->clock + r->tv_sec * 1000000000ull + r->tv_nsec); }
int nanosleep(const struct timespec *r, struct timespec *m) {
    if (!on) return raw(SYS_nanosleep, (long)r, (long)m, 0, 0) ? -1 : 0;
    return do_sleep(r);
}
int clock_nanosleep(clockid_t id, int fl, const struct timespec *r, struct timespec *m) {
    if (!on) return -raw(SYS_clock_nanosleep, id, fl, (long)r, (long)m);
    if (fl & 1) {
        uint64_t t = r->tv_sec * 1000000000ull + r->tv_nsec;
        if (id == CLOCK_REALTIME) t = t > 1700000000000000000ull ? t - 1700000000000000000ull : 0;
        return sleep_until(t);
    }
    return do_sleep(r);
}
ssize_t getrandom(void *b, size_t n, unsigned fl) {
    if (!on) return raw(SYS_getrandom, (long)b, n, fl, 0);
    S->reads_random++;
    for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = mix(S->rand_seed * 977 + S->reads_random * 64 + i);
    return n;
}
int isatty(int fd) {
    (void)fd;
    if (!on) return 0;
    S->reads_tty++;
    if (!S->tty) errno = ENOTTY;
    return S->tty;
}

pid_t getpid(void) { return on && S->pid ? (pid_t)S->pid : raw(SYS_getpid, 0, 0, 0, 0); }
