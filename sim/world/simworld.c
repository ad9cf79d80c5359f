/* simworld: the simulated machine around one ripcalc process.
 *
 * This library is preloaded into the real, unmodified ripcalc executable.  It takes over at
 * __libc_start_main, before any of ripcalc's code (or of the Rust runtime's) has run, and turns the
 * process into a "zygote" that reads run specifications from its standard input.  For each of them
 * it forks; the child becomes one simulated execution: the real program starts from scratch with
 * the arguments and the environment of the specification, and everything it can observe of the
 * world outside - standard output and error, terminals, random numbers, clocks, the allocator, the
 * thread id, the process's end - is answered from the specification alone.
 *
 * Everything is a pure function of the specification, so that the same specification gives the same
 * execution, event for event.  No real clock and no real randomness is consulted anywhere (a CPU
 * limit backs up the step budget; see run_child).
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <sys/file.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <termios.h>
#include <time.h>
#include <unistd.h>
#include <malloc.h>

#define EXPORT __attribute__((visibility("default")))

enum {
    F_TTY_OUT = 1, F_TTY_ERR = 2, F_INTERACTIVE = 4, F_WANT_LOG = 8, F_TTY_IN = 16,
    F_RND_EINTR = 32, F_RND_EINVAL = 64, F_ALLOC_STICKY = 128, F_MERGED = 256, F_DEEP = 512,
};

/* What the driver sends.  All fields little-endian u64, in this order (see world.rs). */
struct spec {
    uint64_t flags;
    uint64_t hash_seed;
    uint64_t max_chunk[2];      /* largest number of bytes one write takes; 0: no limit */
    uint64_t eintr_every[2];    /* every n-th write call is interrupted first; 0: never */
    uint64_t cap[2];            /* bytes after which the sink fails; ~0: never */
    uint64_t cap_errno[2];
    uint64_t cap_fails[2];      /* number of failing calls, after which the sink recovers; 0: stays broken */
    uint64_t kill_at;           /* the process is killed once this many bytes are out; ~0: never */
    uint64_t stop_at;           /* same, but an observation limit rather than a fault */
    uint64_t alloc_fail_at;     /* the n-th allocation fails; 0: none */
    uint64_t mem_limit;         /* largest amount of live heap; 0: no limit */
    uint64_t alloc_budget;      /* step budget: allocations; 0: no limit */
    uint64_t write_budget;      /* step budget: write calls; 0: no limit */
    uint64_t stall_us[2];       /* simulated time one write takes */
    uint64_t cpu_limit_ms;
    uint64_t start_time;        /* simulated clock at the start, microseconds */
    uint64_t env_ask;           /* seed for variables, files and input the program asks for and nobody set; 0: none */
    uint64_t sched;             /* seed of the thread scheduler; 0: a thread runs until it blocks */
    uint64_t clock_step;        /* readings of the clock jump by up to this much, microseconds; 0: steady */
    uint64_t signal;            /* a signal (low 8 bits) arrives at the n-th allocation (the other bits); 0: none */
    uint64_t sig_ign;           /* a signal the program was started with ignoring; 0: none */
    uint64_t n_args, n_env, n_script, blob_len;
};

struct script_entry { uint32_t fd, call, action, arg; };
enum { A_SHORT = 1, A_ERRNO = 2, A_STALL = 3, A_KILL = 4, A_PARTIAL_KILL = 5, A_PARTIAL_ERRNO = 6, A_ZERO = 7, A_SIGNAL = 8 };

enum { END_NONE = 0, END_KILLED = 1, END_STOPPED = 2, END_ALLOC_BUDGET = 3, END_WRITE_BUDGET = 4, END_SIGPIPE = 5, END_DEADLOCK = 6 };

/* fault counters; the order is known to world.rs */
enum {
    K_SHORT, K_EINTR, K_CAP, K_ERRNO, K_STALL, K_KILL, K_PARTIAL, K_ALLOC, K_MEM, K_RND_EINTR,
    K_RND_EINVAL, K_ZERO, K_BLOCKED, K_ENV, K_FILE, K_CLOCK, K_PREEMPT, K_SIGNAL, K_N
};

#define OUT_MAX (24u << 20)
#define ERR_MAX (1u << 20)
#define LOG_MAX 65536

struct event { uint32_t kind, fd; int64_t req, res; uint64_t at; };

struct shared {
    uint64_t out_len, err_len, n_events, trace_hash, end_reason, sim_time;
    uint64_t calls[2];
    uint64_t allocs, live, peak, after_fail_writes, after_fail_allocs, first_out_allocs, first_out_peak;
    uint64_t fired[K_N];
    uint64_t random_calls, tty_queries, threads, opens, out_failed, clock_reads;
    uint64_t effects, signals, after_sig_writes, after_sig_allocs;
    uint64_t handed_over;       /* bytes of output the driver has got already */
    struct event log[LOG_MAX];
    uint8_t err[ERR_MAX];
    uint8_t out[OUT_MAX];
};

static struct shared *S;
static struct spec P;
static struct script_entry *script;
static int active;                     /* inside the simulated execution */
static int req_fd = -1, resp_fd = -1;
static uint64_t rng_state, clock_state;
static char own_dir[512];              /* where the program itself lies; a backtrace looks there */
static uint64_t fails_left[2];
static uint64_t cap_recovered[2];

/* ---- raw system calls (never interposed) ---- */
static long raw3(long n, long a, long b, long c) {
    long r;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c) : "rcx", "r11", "memory");
    return r;
}
static long raw4(long n, long a, long b, long c, long d) {
    long r;
    register long r10 __asm__("r10") = d;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10) : "rcx", "r11", "memory");
    return r;
}
static void die(int code) { for (;;) raw3(SYS_exit_group, code, 0, 0); }
static void read_full(int fd, void *buf, size_t n) {
    uint8_t *p = buf;
    while (n) {
        long r = raw3(SYS_read, fd, (long)p, (long)n);
        if (r == -EINTR) continue;
        if (r <= 0) die(0);
        p += r; n -= (size_t)r;
    }
}
static void write_full(int fd, const void *buf, size_t n) {
    const uint8_t *p = buf;
    while (n) {
        long r = raw3(SYS_write, fd, (long)p, (long)n);
        if (r == -EINTR) continue;
        if (r <= 0) die(3);
        p += r; n -= (size_t)r;
    }
}

static uint64_t splitmix(uint64_t *s) {
    uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

static void mix(uint64_t v) { S->trace_hash = (S->trace_hash ^ v) * 0x100000001B3ull + 0x9E37; }
static void event(uint32_t kind, uint32_t fd, int64_t req, int64_t res) {
    if (S->n_events < LOG_MAX) {
        struct event *e = &S->log[S->n_events];
        e->kind = kind; e->fd = fd; e->req = req; e->res = res; e->at = S->sim_time;
    }
    S->n_events++;
    mix(kind); mix(fd); mix((uint64_t)req); mix((uint64_t)res); mix(S->sim_time);
}
enum { EV_WRITE = 1, EV_RANDOM = 2, EV_ISATTY = 3, EV_KILL = 4, EV_ALLOCFAIL = 5, EV_CLOCK = 6, EV_SLEEP = 7, EV_THREAD = 8, EV_DEADLOCK = 9, EV_ENV = 10, EV_FILE = 11, EV_SWITCH = 12, EV_SIGNAL = 13, EV_EFFECT = 14 };

static long ret0(long r) {
    if (r < 0) { errno = (int)-r; return -1; }
    return r;
}
static void end_run(uint64_t reason) {
    S->end_reason = reason;
    active = 0;
    die(137);
}

/* ---- threads ---- */
/* The shipped program has none.  Should it start any, they run one at a time: a thread runs until it
 * blocks (futex, join, sleep), ends, or reaches a point (write, allocation, clock, yield) where the
 * specification's scheduler prefers another one. */
#define T_MAX 64
enum { T_FREE, T_RUN, T_FUTEX, T_SLEEP, T_JOIN, T_DONE };
struct thr {
    int state, timed_out, waits_for, detached;
    int go;                             /* the futex on which the thread really waits */
    const volatile void *addr;
    uint64_t until, prio, order;        /* ~0: no deadline */
    pthread_t id;
    void *(*f)(void *);
    void *arg;
};
static struct thr T[T_MAX];
static int n_thr;                       /* slots in use; 0: the program has started no thread */
static int cur;
static uint64_t sched_state, blocked_order;
static int64_t quantum;
static pthread_key_t thr_key;
static __thread int self __attribute__((tls_model("initial-exec")));
static __thread int leaving __attribute__((tls_model("initial-exec")));
static int nested;                      /* inside the real thread library */

static void new_quantum(void) {
    static const uint64_t spread[4] = { 3, 24, 400, 60 };
    quantum = P.sched ? 1 + (int64_t)(splitmix(&sched_state) % spread[P.sched & 3]) : INT64_MAX;
}
static int expire_first(void) {
    int e = -1;
    for (int i = 0; i < n_thr; i++)
        if ((T[i].state == T_SLEEP || T[i].state == T_FUTEX) && T[i].until != ~0ull && (e < 0 || T[i].until < T[e].until)) e = i;
    if (e < 0) return 0;
    if (T[e].until > S->sim_time) S->sim_time = T[e].until;
    T[e].timed_out = 1;
    T[e].state = T_RUN;
    return 1;
}
static int pick(void) {
    for (int i = 0; i < n_thr; i++)
        if ((T[i].state == T_SLEEP || T[i].state == T_FUTEX) && T[i].until <= S->sim_time) { T[i].timed_out = 1; T[i].state = T_RUN; }
    /* a machine may be so slow that a deadline passes while others still have work to do */
    if (P.sched && splitmix(&sched_state) % 16 == 0) expire_first();
    int ready[T_MAX], n = 0;
    for (int k = 1; k <= n_thr; k++) { int i = (cur + k) % n_thr; if (T[i].state == T_RUN) ready[n++] = i; }
    if (n == 0) {
        if (!expire_first()) { event(EV_DEADLOCK, 0, 0, 0); end_run(END_DEADLOCK); }
        return pick();
    }
    if (!P.sched) return ready[0];
    if ((P.sched & 3) == 3) {
        /* priorities, changed now and then: favours long runs of one thread and late, unlikely overtakings */
        if (splitmix(&sched_state) % 8 == 0) T[cur].prio = splitmix(&sched_state) >> 1;
        int best = ready[0];
        for (int k = 1; k < n; k++) if (T[ready[k]].prio > T[best].prio) best = ready[k];
        return best;
    }
    return ready[splitmix(&sched_state) % (uint64_t)n];
}
static void hand_over(int next) {
    cur = next;
    __atomic_store_n(&T[next].go, 1, __ATOMIC_RELEASE);
    raw4(SYS_futex, (long)&T[next].go, 1, 1, 0);
}
static void await_turn(void) {
    struct thr *me = &T[self];
    while (!__atomic_exchange_n(&me->go, 0, __ATOMIC_ACQUIRE)) raw4(SYS_futex, (long)&me->go, 0, 0, 0);
}
static void switch_away(void) {
    int next = pick();
    new_quantum();
    event(EV_SWITCH, (uint32_t)self, next, T[self].state);
    if (next == self) return;
    S->fired[K_PREEMPT]++;
    hand_over(next);
    await_turn();
}
static void preempt(int yielded) {
    if (!n_thr || nested || leaving || !active) return;
    if (!yielded && --quantum > 0) return;
    switch_away();
}
/* returns whether it ended by its deadline */
static int block(int state, const volatile void *addr, uint64_t until) {
    struct thr *me = &T[self];
    me->state = state; me->addr = addr; me->until = until; me->timed_out = 0; me->order = ++blocked_order;
    switch_away();
    return me->timed_out;
}
static long wake(const volatile void *addr, long n) {
    long woken = 0;
    while (woken < n) {
        int w = -1;
        for (int i = 0; i < n_thr; i++)
            if (T[i].state == T_FUTEX && T[i].addr == addr && (w < 0 || T[i].order < T[w].order)) w = i;
        if (w < 0) break;
        T[w].state = T_RUN;
        woken++;
    }
    return woken;
}
static void thr_gone(void *p) {
    /* runs after the thread's own destructors */
    struct thr *me = p;
    leaving = 1;
    if (!active) return;
    me->state = me->detached ? T_FREE : T_DONE;
    for (int i = 0; i < n_thr; i++) if (T[i].state == T_JOIN && T[i].waits_for == me - T) T[i].state = T_RUN;
    int next = pick();
    new_quantum();
    event(EV_SWITCH, (uint32_t)(me - T), next, T_DONE);
    hand_over(next);
}
static void *thr_start(void *p) {
    struct thr *me = p;
    self = (int)(me - T);
    await_turn();
    pthread_setspecific(thr_key, me);
    return me->f(me->arg);
}

typedef int (*pthread_create_fn)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
EXPORT int pthread_create(pthread_t *t, const pthread_attr_t *attr, void *(*f)(void *), void *arg) {
    static pthread_create_fn real;
    if (!real) real = (pthread_create_fn)dlsym(RTLD_NEXT, "pthread_create");
    if (!active) return real(t, attr, f, arg);
    if (!n_thr) {
        if (pthread_key_create(&thr_key, thr_gone)) return EAGAIN;
        T[0].state = T_RUN;
        T[0].prio = splitmix(&sched_state) >> 1;
        n_thr = 1;
        new_quantum();
        struct itimerval tv = { { 0, 0 }, { 60, 0 } };      /* a backstop against waits that the scheduler cannot see */
        raw3(SYS_setitimer, ITIMER_REAL, (long)&tv, 0);
    }
    int k = 1;
    while (k < T_MAX && T[k].state != T_FREE) k++;
    if (k == T_MAX) return EAGAIN;
    S->threads++;
    memset(&T[k], 0, sizeof T[k]);
    T[k].state = T_RUN; T[k].f = f; T[k].arg = arg;
    T[k].prio = splitmix(&sched_state) >> 1;
    if (k >= n_thr) n_thr = k + 1;
    nested++;
    int r = real(t, attr, thr_start, &T[k]);
    nested--;
    if (r) { T[k].state = T_FREE; return r; }
    T[k].id = *t;
    event(EV_THREAD, (uint32_t)k, 0, 0);
    preempt(0);
    return 0;
}
typedef int (*pthread_join_fn)(pthread_t, void **);
EXPORT int pthread_join(pthread_t t, void **out) {
    static pthread_join_fn real;
    if (!real) real = (pthread_join_fn)dlsym(RTLD_NEXT, "pthread_join");
    if (active && n_thr)
        for (int i = 1; i < n_thr; i++) {
            if (T[i].state == T_FREE || !pthread_equal(T[i].id, t)) continue;
            while (T[i].state != T_DONE) { T[self].waits_for = i; block(T_JOIN, NULL, ~0ull); }
            nested++;
            int r = real(t, out);
            nested--;
            T[i].state = T_FREE;
            return r;
        }
    return real(t, out);
}
typedef int (*pthread_detach_fn)(pthread_t);
EXPORT int pthread_detach(pthread_t t) {
    static pthread_detach_fn real;
    if (!real) real = (pthread_detach_fn)dlsym(RTLD_NEXT, "pthread_detach");
    if (active)
        for (int i = 1; i < n_thr; i++)
            if (T[i].state != T_FREE && pthread_equal(T[i].id, t)) {
                T[i].detached = 1;
                if (T[i].state == T_DONE) T[i].state = T_FREE;
            }
    return real(t);
}
EXPORT int sched_yield(void) {
    if (active && n_thr) { S->sim_time++; preempt(1); return 0; }
    return (int)ret0(raw3(SYS_sched_yield, 0, 0, 0));
}
/* how many processors there seem to be is the specification's choice */
EXPORT int sched_getaffinity(pid_t pid, size_t size, cpu_set_t *set) {
    if (active) {
        memset(set, 0, size);
        ((uint8_t *)set)[0] = (uint8_t)((1u << (1 + (P.hash_seed >> 5) % 8)) - 1);
        return 0;
    }
    long r = raw3(SYS_sched_getaffinity, pid, (long)size, (long)set);
    if (r > 0 && (size_t)r < size) memset((uint8_t *)set + r, 0, size - (size_t)r);
    return (int)ret0(r < 0 ? r : 0);
}

/* ---- what a program may do to the world around it ---- */
/* None of it is done: it is noted, and the program is told that it worked or that it may not,
 * whichever the specification's seed says. */
enum { E_FILE, E_TREE, E_PROCESS, E_NETWORK, E_KILL, E_INPUT, E_SHARED, E_SYSTEM, E_LOCK };
static int effect(int kind) {
    uint64_t h = P.env_ask ? P.env_ask + (uint64_t)kind + (S->effects << 8) : 0;
    int denied = P.env_ask ? (int)(splitmix(&h) & 1) : 0;
    S->effects |= 1ull << kind;
    event(EV_EFFECT, (uint32_t)kind, 0, denied);
    return denied;
}

/* A lock on a file opened by others stays when the program ends, unless it is given back. */
static int sim_lock(int locked) {
    if (locked) {
        int had = (int)(S->effects >> E_LOCK & 1), denied = effect(E_LOCK);
        if (denied && !had) S->effects &= ~(1ull << E_LOCK);
        return denied ? -EWOULDBLOCK : 0;
    }
    S->effects &= ~(1ull << E_LOCK);
    return 0;
}

/* ---- signals ---- */
/* Returns whether a handler ran that makes a system call in progress fail with EINTR. */
static int sim_signal(int sig) {
    struct { void (*h)(int); unsigned long flags; void (*restorer)(void); unsigned long mask; } act;
    memset(&act, 0, sizeof act);
    raw4(SYS_rt_sigaction, sig, 0, (long)&act, 8);
    S->fired[K_SIGNAL]++;
    S->signals++;
    event(EV_SIGNAL, (uint32_t)sig, 0, act.h == SIG_DFL ? 0 : act.h == SIG_IGN ? 1 : 2);
    raw3(SYS_tgkill, raw3(SYS_getpid, 0, 0, 0), raw3(SYS_gettid, 0, 0, 0), sig);
    return act.h != SIG_DFL && act.h != SIG_IGN && !(act.flags & SA_RESTART);
}

/* ---- standard output and error ---- */
static uint64_t out_total(void) { return S->handed_over + S->out_len; }

static long sink_take(int i, const uint8_t *buf, size_t n) {
    if (i == 0 || (P.flags & F_MERGED)) {
        if (S->out_len + n > OUT_MAX) {
            if (!(P.flags & F_DEEP) || n > OUT_MAX) end_run(END_STOPPED);
            uint64_t head[3] = { 3, 1, S->out_len };
            write_full(resp_fd, head, sizeof head);
            write_full(resp_fd, S->out, S->out_len);
            S->handed_over += S->out_len;
            S->out_len = 0;
        }
        if (out_total() == 0 && n) { S->first_out_allocs = S->allocs; S->first_out_peak = S->peak; }
        memcpy(S->out + S->out_len, buf, n);
        S->out_len += n;
    } else {
        size_t room = ERR_MAX - S->err_len;
        size_t k = n < room ? n : room;
        memcpy(S->err + S->err_len, buf, k);
        S->err_len += k;
    }
    return (long)n;
}

static void pipe_broken(void) {
    /* what the kernel does before it answers EPIPE */
    struct { void (*h)(int); unsigned long flags; void (*restorer)(void); unsigned long mask; } act;
    memset(&act, 0, sizeof act);
    raw4(SYS_rt_sigaction, SIGPIPE, 0, (long)&act, 8);
    if (act.h == SIG_DFL) end_run(END_SIGPIPE);
}

static long sink_write(int fd, const uint8_t *buf, size_t n) {
    int i = fd - 1;
    uint64_t call = S->calls[i]++;
    uint64_t limit = n;
    int kill_after = 0;
    S->sim_time += P.stall_us[i];
    if (P.write_budget && S->calls[i] > P.write_budget) end_run(END_WRITE_BUDGET);
    if (i == 0 && S->out_failed) S->after_fail_writes++;
    if (S->signals) S->after_sig_writes++;

    if (P.flags & F_INTERACTIVE) {
        /* the scheduler in the driver decides when this call returns, and with what */
        uint64_t head[3] = { 1, (uint64_t)fd, n };
        int64_t ans[2];
        write_full(resp_fd, head, sizeof head);
        write_full(resp_fd, buf, n);
        read_full(req_fd, ans, sizeof ans);
        S->sim_time += (uint64_t)ans[1];
        if (ans[0] == -1000000) { S->fired[K_KILL]++; event(EV_KILL, fd, (int64_t)n, 0); end_run(END_KILLED); }
        if (ans[0] == -EPIPE) pipe_broken();
        if (ans[0] < 0) {
            S->fired[ans[0] == -EINTR ? K_EINTR : K_ERRNO]++;
            if (ans[0] != -EINTR && i == 0) S->out_failed++;
        } else {
            if ((size_t)ans[0] < n) S->fired[K_SHORT]++;
            sink_take(i, buf, (size_t)ans[0]);
        }
        event(EV_WRITE, fd, (int64_t)n, ans[0]);
        return ans[0];
    }

    for (uint64_t s = 0; s < P.n_script; s++) {
        if (script[s].fd != (uint32_t)fd || script[s].call != call) continue;
        uint32_t arg = script[s].arg;
        switch (script[s].action) {
        case A_SHORT:
            if (arg < 1) arg = 1;
            if (arg < limit) limit = arg;
            break;
        case A_ERRNO:
            if (arg == EPIPE) pipe_broken();
            S->fired[arg == EINTR ? K_EINTR : K_ERRNO]++;
            if (arg != EINTR && i == 0) S->out_failed++;
            event(EV_WRITE, fd, (int64_t)n, -(int64_t)arg);
            return -(long)arg;
        case A_STALL:
            S->fired[K_STALL]++;
            S->sim_time += (uint64_t)arg * 1000;
            break;
        case A_KILL:
            S->fired[K_KILL]++;
            event(EV_KILL, fd, (int64_t)n, 0);
            end_run(END_KILLED);
            break;
        case A_PARTIAL_KILL:
            if (arg < limit) limit = arg;
            kill_after = 1;
            break;
        case A_PARTIAL_ERRNO:
            /* arg: errno in the low 16 bits, bytes accepted first above */
            if (limit > (arg >> 16)) limit = arg >> 16;
            if (limit) {
                /* the partial write succeeds; the next call on this descriptor fails */
                P.cap[i] = (i == 0 || (P.flags & F_MERGED) ? out_total() : S->err_len) + limit;
                P.cap_errno[i] = arg & 0xFFFF;
                fails_left[i] = P.cap_fails[i];
                cap_recovered[i] = 0;
                S->fired[K_PARTIAL]++;
            }
            break;
        case A_SIGNAL:
            if (sim_signal((int)arg)) {
                S->fired[K_EINTR]++;
                event(EV_WRITE, fd, (int64_t)n, -EINTR);
                return -EINTR;
            }
            break;
        case A_ZERO:
            S->fired[K_ZERO]++;
            if (i == 0) S->out_failed++;
            event(EV_WRITE, fd, (int64_t)n, 0);
            return 0;
        }
    }
    if (P.eintr_every[i] && call % P.eintr_every[i] == P.eintr_every[i] - 1) {
        S->fired[K_EINTR]++;
        event(EV_WRITE, fd, (int64_t)n, -EINTR);
        return -EINTR;
    }
    if (P.max_chunk[i] && limit > P.max_chunk[i]) limit = P.max_chunk[i];

    uint64_t have = (i == 0 || (P.flags & F_MERGED)) ? out_total() : S->err_len;
    if (P.cap[i] != ~0ull && !cap_recovered[i]) {
        if (have >= P.cap[i] && n > 0) {
            if (P.cap_fails[i] == 0 || fails_left[i] > 0) {
                if (fails_left[i]) fails_left[i]--;
                if (P.cap_fails[i] && fails_left[i] == 0) cap_recovered[i] = 1;
                int e = (int)P.cap_errno[i];
                if (e == EPIPE) pipe_broken();
                S->fired[K_CAP]++;
                if (i == 0) S->out_failed++;
                event(EV_WRITE, fd, (int64_t)n, -e);
                return -e;
            }
        } else if (have + limit > P.cap[i]) {
            limit = P.cap[i] - have;
        }
    }
    if (i == 0 && P.kill_at != ~0ull && have + limit >= P.kill_at) {
        sink_take(i, buf, have < P.kill_at ? P.kill_at - have : 0);
        S->fired[K_KILL]++;
        event(EV_KILL, fd, (int64_t)n, (int64_t)out_total());
        end_run(END_KILLED);
    }
    if (i == 0 && P.stop_at != ~0ull && have + limit >= P.stop_at) {
        sink_take(i, buf, have < P.stop_at ? P.stop_at - have : 0);
        event(EV_KILL, fd, (int64_t)n, (int64_t)out_total());
        end_run(END_STOPPED);
    }
    if (limit < n) S->fired[K_SHORT]++;
    sink_take(i, buf, limit);
    event(EV_WRITE, fd, (int64_t)n, (int64_t)limit);
    if (kill_after) {
        S->fired[K_KILL]++;
        end_run(END_KILLED);
    }
    return (long)limit;
}

/* Duplicates of standard output and error are the same sinks. */
#define FD_MAX 64
static uint8_t fd_of[FD_MAX];
static int sink_of(int fd) {
    if (fd == 1 || fd == 2) return fd;
    return fd > 2 && fd < FD_MAX ? fd_of[fd] : 0;
}

static ssize_t ret(long r) {
    if (r < 0) { errno = (int)-r; return -1; }
    return r;
}

EXPORT ssize_t write(int fd, const void *buf, size_t n) {
    int to = active ? sink_of(fd) : 0;
    if (to) { preempt(0); ssize_t r = ret(sink_write(to, buf, n)); int e = errno; preempt(0); errno = e; return r; }
    return ret(raw3(SYS_write, fd, (long)buf, (long)n));
}
EXPORT ssize_t writev(int fd, const struct iovec *v, int cnt) {
    int to = active ? sink_of(fd) : 0;
    if (to) {
        preempt(0);
        /* one call, one gathered buffer */
        static uint8_t gather[1 << 20];
        size_t len = 0;
        for (int k = 0; k < cnt; k++) {
            size_t m = v[k].iov_len;
            if (len + m > sizeof gather) m = sizeof gather - len;
            memcpy(gather + len, v[k].iov_base, m);
            len += m;
        }
        return ret(sink_write(to, gather, len));
    }
    return ret(raw3(SYS_writev, fd, (long)v, cnt));
}
static long dup_noted(int from, long to) {
    if (active && to >= 0 && to < FD_MAX) fd_of[to] = (uint8_t)sink_of(from);
    return to;
}
EXPORT int fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    if (active && cmd == F_SETFL && (fd == 0 || sink_of(fd))) {
        /* the flags belong to everybody who has the file open */
        effect(E_SHARED);
        return 0;
    }
    if (active && (cmd == F_OFD_SETLK || cmd == F_OFD_SETLKW) && (fd == 0 || sink_of(fd))) return (int)ret(sim_lock(((struct flock *)arg)->l_type != F_UNLCK));
    if (active && (cmd == F_SETLK || cmd == F_SETLKW) && (fd == 0 || sink_of(fd))) return 0;
    long r = raw3(SYS_fcntl, fd, cmd, arg);
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) dup_noted(fd, r);
    return (int)ret(r);
}
EXPORT int flock(int fd, int op) {
    if (active && (fd == 0 || sink_of(fd))) return (int)ret(sim_lock(!(op & LOCK_UN)));
    return (int)ret(raw3(SYS_flock, fd, op, 0));
}
EXPORT int fcntl64(int fd, int cmd, ...) __attribute__((alias("fcntl")));
EXPORT int dup(int fd) { return (int)ret(dup_noted(fd, raw3(SYS_dup, fd, 0, 0))); }
EXPORT int dup2(int fd, int to) { return (int)ret(dup_noted(fd, raw3(SYS_dup2, fd, to, 0))); }
EXPORT int close(int fd) {
    if (active && fd > 2 && fd < FD_MAX) fd_of[fd] = 0;
    return (int)ret(raw3(SYS_close, fd, 0, 0));
}
EXPORT int fsync(int fd) { if (active && fd <= 2) return 0; return (int)ret(raw3(SYS_fsync, fd, 0, 0)); }

/* ---- terminals ---- */
static int is_tty(int fd) {
    if (fd > 2 && sink_of(fd)) fd = sink_of(fd);
    return fd == 0 ? !!(P.flags & F_TTY_IN) : fd == 1 ? !!(P.flags & F_TTY_OUT) : fd == 2 ? !!(P.flags & F_TTY_ERR) : 0;
}
EXPORT int isatty(int fd) {
    if (active) {
        S->tty_queries++;
        int r = is_tty(fd);
        event(EV_ISATTY, (uint32_t)fd, 0, r);
        if (!r) errno = ENOTTY;
        return r;
    }
    errno = ENOTTY;
    return 0;
}
EXPORT int ioctl(int fd, unsigned long req, ...) {
    va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
    if (active && fd >= 0 && fd <= 2) {
        if (req == TIOCGWINSZ && is_tty(fd)) {
            struct winsize *w = arg;
            memset(w, 0, sizeof *w);
            w->ws_row = 24; w->ws_col = (unsigned short)(40 + P.hash_seed % 100);
            return 0;
        }
        if ((req == TCSETS || req == TCSETSW || req == TCSETSF || req == TIOCSWINSZ || req == TIOCSTI || req == TIOCSPGRP || req == TIOCSETD) && is_tty(fd)) {
            if (!effect(E_SHARED)) return 0;
        } else if (req == FIONBIO) {
            if (!effect(E_SHARED)) return 0;
        }
        errno = ENOTTY;
        return -1;
    }
    return (int)ret(raw3(SYS_ioctl, fd, (long)req, (long)arg));
}

/* ---- randomness ---- */
static long sim_random(uint8_t *buf, size_t n, unsigned flags) {
    S->random_calls++;
    if ((P.flags & F_RND_EINVAL) && (flags & 4)) {      /* a kernel without GRND_INSECURE */
        S->fired[K_RND_EINVAL]++;
        event(EV_RANDOM, flags, (int64_t)n, -EINVAL);
        return -EINVAL;
    }
    if ((P.flags & F_RND_EINTR) && S->fired[K_RND_EINTR] < 3) {
        S->fired[K_RND_EINTR]++;
        event(EV_RANDOM, flags, (int64_t)n, -EINTR);
        return -EINTR;
    }
    for (size_t i = 0; i < n; ) {
        uint64_t v = splitmix(&rng_state);
        for (int k = 0; k < 8 && i < n; k++, i++) { buf[i] = (uint8_t)v; v >>= 8; }
    }
    event(EV_RANDOM, flags, (int64_t)n, (int64_t)n);
    return (long)n;
}
EXPORT ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    if (active) return ret(sim_random(buf, n, flags));
    return ret(raw3(SYS_getrandom, (long)buf, (long)n, flags));
}
EXPORT int getentropy(void *buf, size_t n) {
    if (active) { sim_random(buf, n, 0); return 0; }
    return raw3(SYS_getrandom, (long)buf, (long)n, 0) == (long)n ? 0 : -1;
}

/* ---- clocks ---- */
static uint64_t sim_now(clockid_t id) {
    S->clock_reads++;
    S->sim_time += 1;
    uint64_t t = P.start_time;
    if (P.clock_step) {
        /* a machine that was suspended or slow between two readings; the calendar may also be set back */
        uint64_t v = splitmix(&clock_state);
        if (v % 4) { S->sim_time += (v >> 8) % P.clock_step; S->fired[K_CLOCK]++; }
        if (id == CLOCK_REALTIME && v % 8 == 1) { t -= (v >> 16) % (4 * P.clock_step); S->fired[K_CLOCK]++; }
    }
    return t + S->sim_time;
}
EXPORT int clock_gettime(clockid_t id, struct timespec *ts) {
    if (active) {
        preempt(0);
        uint64_t t = sim_now(id);
        event(EV_CLOCK, (uint32_t)id, 0, (int64_t)t);
        ts->tv_sec = (time_t)(t / 1000000); ts->tv_nsec = (long)(t % 1000000) * 1000;
        return 0;
    }
    return (int)ret(raw3(SYS_clock_gettime, id, (long)ts, 0));
}
EXPORT int gettimeofday(struct timeval *tv, void *tz) {
    if (active) {
        uint64_t t = sim_now(CLOCK_REALTIME);
        event(EV_CLOCK, 99, 0, (int64_t)t);
        if (tv) { tv->tv_sec = (time_t)(t / 1000000); tv->tv_usec = (suseconds_t)(t % 1000000); }
        return 0;
    }
    return (int)ret(raw3(SYS_gettimeofday, (long)tv, (long)tz, 0));
}
EXPORT time_t time(time_t *out) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (out) *out = ts.tv_sec;
    return ts.tv_sec;
}
static void sim_sleep(uint64_t us) {
    event(EV_SLEEP, 0, (int64_t)us, 0);
    if (n_thr) block(T_SLEEP, NULL, S->sim_time + us);
    else S->sim_time += us;
}
EXPORT int nanosleep(const struct timespec *rq, struct timespec *rm) {
    if (active) {
        sim_sleep((uint64_t)rq->tv_sec * 1000000 + (uint64_t)rq->tv_nsec / 1000);
        if (rm) memset(rm, 0, sizeof *rm);
        return 0;
    }
    return (int)ret(raw3(SYS_nanosleep, (long)rq, (long)rm, 0));
}
EXPORT int clock_nanosleep(clockid_t id, int flags, const struct timespec *rq, struct timespec *rm) {
    if (active) {
        uint64_t us = (uint64_t)rq->tv_sec * 1000000 + (uint64_t)rq->tv_nsec / 1000;
        if (flags & TIMER_ABSTIME) {
            uint64_t now = P.start_time + S->sim_time;
            us = us > now ? us - now : 0;
        }
        sim_sleep(us);
        if (rm) memset(rm, 0, sizeof *rm);
        return 0;
    }
    return (int)-raw4(SYS_clock_nanosleep, id, flags, (long)rq, (long)rm);
}

/* ---- identity ---- */
static pid_t sim_pid(void) { return (pid_t)(2 + (P.hash_seed >> 9) % 32000); }
EXPORT pid_t gettid(void) { return active ? sim_pid() : (pid_t)raw3(SYS_gettid, 0, 0, 0); }
EXPORT uid_t getuid(void) { return active ? (uid_t)(P.hash_seed >> 11 & 1) * 1000 : (uid_t)raw3(SYS_getuid, 0, 0, 0); }
EXPORT uid_t geteuid(void) { return active ? (uid_t)(P.hash_seed >> 11 & 1) * 1000 : (uid_t)raw3(SYS_geteuid, 0, 0, 0); }
EXPORT pid_t getppid(void) { return active ? 1 + (pid_t)(P.hash_seed >> 13) % 900 : (pid_t)raw3(SYS_getppid, 0, 0, 0); }
EXPORT pid_t getpid(void) { return active ? sim_pid() : (pid_t)raw3(SYS_getpid, 0, 0, 0); }

/* ---- environment ---- */
/* A variable that the program asks for and that the specification does not mention may have any
 * value, unless it is one of those that decide on colours or configure the Rust runtime.  An even
 * seed leaves out only those colour variables that the specification names. */
static int env_matters(const char *k) {
    if (!(P.env_ask & 1)) {
        return !strcmp(k, "TERM") || !strcmp(k, "NO_COLOR") || !strcmp(k, "CLICOLOR") || !strcmp(k, "CLICOLOR_FORCE") || !strncmp(k, "RUST", 4);
    }
    return strstr(k, "COLOR") || strstr(k, "COLOUR") || !strncmp(k, "TERM", 4) || !strncmp(k, "RUST", 4);
}
EXPORT char *getenv(const char *k) {
    static char *values[] = { "", "0", "1", "yes", "80", "/", "C", "x y", "de_AT.UTF-8", "18446744073709551615", "-1", "255.255.255.0", "always", "truecolor" };
    size_t n = strlen(k);
    for (char **e = environ; e && *e; e++) if (!strncmp(*e, k, n) && (*e)[n] == '=') return *e + n + 1;
    if (!active || !P.env_ask || env_matters(k)) return NULL;
    uint64_t h = P.env_ask;
    for (size_t i = 0; i < n; i++) h = (h ^ (uint8_t)k[i]) * 0x100000001B3ull;
    uint64_t v = splitmix(&h);
    event(EV_ENV, (uint32_t)n, (int64_t)(v & 1), (int64_t)(v >> 8) & 0xff);
    S->fired[K_ENV]++;
    return v & 1 ? values[(v >> 8) % (sizeof values / sizeof *values)] : NULL;
}

/* ---- files and input ---- */
/* A file the program asks for is not there, or - another thing about which machines differ - has
 * some content; standard input is empty or has some content.  What the system itself provides
 * (/proc, /sys, /dev, libraries) is as it is; files opened for writing vanish with the process. */
static const char *made_up(uint64_t h) {
    static const char *text[] = { "", "\n", "1\n", "color=never\n", "10.0.0.0/30\n", "y\n", "[general]\nmode = 6\n", "\xff\x00\xfe" };
    return text[h % (sizeof text / sizeof *text)];
}
static uint64_t name_hash(uint64_t h, const char *k) {
    for (; *k; k++) h = (h ^ (uint8_t)*k) * 0x100000001B3ull;
    return splitmix(&h);
}
static int outside(const char *path) {
    static const char *own[] = { "/proc/", "/sys/", "/dev/", "/lib", "/usr/", "/etc/ld" };
    if (strstr(path, "cgroup")) return 1;
    if (*own_dir && !strncmp(path, own_dir, strlen(own_dir))) return 0;
    for (size_t i = 0; i < sizeof own / sizeof *own; i++) if (!strncmp(path, own[i], strlen(own[i]))) return 0;
    return 1;
}
static int own_output(const char *path) {
    if (!strcmp(path, "/dev/stdout") || !strcmp(path, "/dev/fd/1") || !strcmp(path, "/proc/self/fd/1")) return 1;
    if (!strcmp(path, "/dev/stderr") || !strcmp(path, "/dev/fd/2") || !strcmp(path, "/proc/self/fd/2")) return 2;
    if (!strcmp(path, "/dev/tty")) return P.flags & F_TTY_OUT ? 1 : P.flags & F_TTY_ERR ? 2 : 0;
    return 0;
}
static long sim_open(int at, const char *path, int flags, int mode) {
    if (active) {
        S->opens++;
        int to = own_output(path);
        if (to) {
            event(EV_FILE, (uint32_t)to, flags, 0);
            long fd = raw4(SYS_openat, AT_FDCWD, (long)"/dev/null", O_RDWR | O_CLOEXEC, 0);
            if (fd > 2 && fd < FD_MAX) fd_of[fd] = (uint8_t)to;
            return fd;
        }
        if (!strcmp(path, "/dev/tty")) return -ENXIO;
        int writing = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
        if (writing && (!strcmp(path, "/dev/null") || !strcmp(path, "/dev/full"))) writing = 0;
        else if (outside(path) || writing) {
            uint64_t h = P.env_ask ? name_hash(P.env_ask, path) : 0;
            int there = writing ? !(h & 1) : (int)(h & 1);
            if (writing) S->effects |= 1ull << E_FILE;
            event(EV_FILE, 0, flags, there);
            if (h) S->fired[K_FILE]++;
            if (!there) return writing ? -EACCES : -ENOENT;
            long fd = raw3(SYS_memfd_create, (long)"file", 1, 0);
            if (fd >= 0 && !writing) {
                const char *t = made_up(h >> 8);
                write_full((int)fd, t, strlen(t));
                raw3(SYS_lseek, fd, 0, 0);
            }
            return fd;
        }
    }
    return raw4(SYS_openat, at, (long)path, flags, mode);
}
#define OPEN_MODE int mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
EXPORT int open(const char *path, int flags, ...) { OPEN_MODE return (int)ret(sim_open(AT_FDCWD, path, flags, mode)); }
EXPORT int open64(const char *path, int flags, ...) { OPEN_MODE return (int)ret(sim_open(AT_FDCWD, path, flags, mode)); }
EXPORT int openat(int at, const char *path, int flags, ...) { OPEN_MODE return (int)ret(sim_open(at, path, flags, mode)); }
EXPORT int openat64(int at, const char *path, int flags, ...) { OPEN_MODE return (int)ret(sim_open(at, path, flags, mode)); }
static long sim_input(void *buf, size_t n) {
    static const char *rest;
    S->effects |= 1ull << E_INPUT;
    if (!P.env_ask) return 0;
    if (!rest) { rest = made_up(name_hash(P.env_ask, "standard input")); S->fired[K_FILE]++; }
    size_t k = strlen(rest);
    if (k > n) k = n;
    memcpy(buf, rest, k);
    rest += k;
    event(EV_FILE, 0, (int64_t)n, (int64_t)k);
    return (long)k;
}
EXPORT ssize_t read(int fd, void *buf, size_t n) {
    if (active && fd == 0) return sim_input(buf, n);
    return ret(raw3(SYS_read, fd, (long)buf, (long)n));
}
EXPORT ssize_t readv(int fd, const struct iovec *v, int cnt) {
    if (active && fd == 0) return cnt > 0 ? sim_input(v[0].iov_base, v[0].iov_len) : 0;
    return ret(raw3(SYS_readv, fd, (long)v, cnt));
}

/* Looking at a file without opening it has to agree with what opening it says. */
static int there(const char *path) {
    uint64_t h = P.env_ask ? name_hash(P.env_ask, path) : 0;
    event(EV_FILE, 1, 0, (int64_t)(h & 1));
    if (h) S->fired[K_FILE]++;
    return (int)(h & 1);
}
static unsigned kind_of(int fd) {
    static const unsigned kinds[] = { S_IFIFO | 0600, S_IFREG | 0644, S_IFCHR | 0666, S_IFSOCK | 0777 };
    int to = fd == 0 ? 0 : sink_of(fd);
    if (is_tty(to)) return S_IFCHR | 0620;
    return kinds[(P.hash_seed >> (14 + 2 * to)) & 3];
}
static int stat_path(int at, const char *path, struct stat *st, int flags) {
    if (active && *path && outside(path)) {
        if (!there(path)) { errno = ENOENT; return -1; }
        memset(st, 0, sizeof *st);
        st->st_mode = S_IFREG | 0644; st->st_nlink = 1;
        return 0;
    }
    if (active && !*path && at >= 0 && at < FD_MAX && (at == 0 || sink_of(at))) {
        memset(st, 0, sizeof *st);
        st->st_mode = kind_of(at); st->st_nlink = 1;
        return 0;
    }
    return (int)ret(raw4(SYS_newfstatat, at, (long)path, (long)st, flags));
}
EXPORT int stat(const char *p, struct stat *st) { return stat_path(AT_FDCWD, p, st, 0); }
EXPORT int lstat(const char *p, struct stat *st) { return stat_path(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
EXPORT int fstat(int fd, struct stat *st) { return stat_path(fd, "", st, AT_EMPTY_PATH); }
EXPORT int fstatat(int at, const char *p, struct stat *st, int flags) { return stat_path(at, p, st, flags); }
EXPORT int stat64(const char *p, struct stat64 *st) { return stat_path(AT_FDCWD, p, (struct stat *)st, 0); }
EXPORT int lstat64(const char *p, struct stat64 *st) { return stat_path(AT_FDCWD, p, (struct stat *)st, AT_SYMLINK_NOFOLLOW); }
EXPORT int fstat64(int fd, struct stat64 *st) { return stat_path(fd, "", (struct stat *)st, AT_EMPTY_PATH); }
EXPORT int fstatat64(int at, const char *p, struct stat64 *st, int flags) { return stat_path(at, p, (struct stat *)st, flags); }
EXPORT int statx(int at, const char *path, int flags, unsigned mask, struct statx *st) {
    if (active && path && ((*path && outside(path)) || (!*path && at >= 0 && at < FD_MAX && (at == 0 || sink_of(at))))) {
        struct stat s;
        if (stat_path(at, path, &s, flags)) return -1;
        memset(st, 0, sizeof *st);
        st->stx_mask = STATX_BASIC_STATS; st->stx_mode = (uint16_t)s.st_mode; st->stx_nlink = 1; st->stx_blksize = 4096;
        return 0;
    }
    long r;
    register long r10 __asm__("r10") = (long)mask;
    register long r8 __asm__("r8") = (long)st;
    __asm__ volatile("syscall" : "=a"(r) : "a"(SYS_statx), "D"(at), "S"(path), "d"(flags), "r"(r10), "r"(r8) : "rcx", "r11", "memory");
    return (int)ret(r);
}
EXPORT int access(const char *p, int mode) {
    if (active && outside(p)) {
        if (there(p)) return 0;
        errno = ENOENT;
        return -1;
    }
    return (int)ret(raw3(SYS_access, (long)p, mode, 0));
}
EXPORT char *getcwd(char *buf, size_t n) {
    static const char *dirs[] = { "/", "/home/user", "/tmp", "/root/10.0.0.0" };
    if (active) {
        const char *d = dirs[(P.hash_seed >> 24) & 3];
        if (!buf) return strdup(d);
        if (strlen(d) >= n) { errno = ERANGE; return NULL; }
        return strcpy(buf, d);
    }
    return ret(raw3(SYS_getcwd, (long)buf, (long)n, 0)) < 0 ? NULL : buf;
}
EXPORT int gethostname(char *buf, size_t n) {
    static const char *names[] = { "localhost", "a", "host.example.net", "ff02::1" };
    const char *d = names[(P.hash_seed >> 26) & 3];
    if (strlen(d) >= n) { errno = ENAMETOOLONG; return -1; }
    strcpy(buf, d);
    return 0;
}

/* Calls by which a program would leave something behind, each answered without being carried out. */
#define STAND_IN(name, params, kind) \
    EXPORT int name params { if (!active) { errno = ENOSYS; return -1; } if (!effect(kind)) return 0; errno = EACCES; return -1; }
#define REFUSED(name, params, kind, err) \
    EXPORT int name params { if (active) effect(kind); errno = err; return -1; }
#define U __attribute__((unused))
STAND_IN(mkdir, (const char *p U, mode_t m U), E_TREE)
STAND_IN(mkdirat, (int at U, const char *p U, mode_t m U), E_TREE)
STAND_IN(rmdir, (const char *p U), E_TREE)
STAND_IN(unlink, (const char *p U), E_TREE)
STAND_IN(unlinkat, (int at U, const char *p U, int f U), E_TREE)
STAND_IN(remove, (const char *p U), E_TREE)
STAND_IN(rename, (const char *a U, const char *b U), E_TREE)
STAND_IN(renameat, (int x U, const char *a U, int y U, const char *b U), E_TREE)
STAND_IN(renameat2, (int x U, const char *a U, int y U, const char *b U, unsigned f U), E_TREE)
STAND_IN(link, (const char *a U, const char *b U), E_TREE)
STAND_IN(linkat, (int x U, const char *a U, int y U, const char *b U, int f U), E_TREE)
STAND_IN(symlink, (const char *a U, const char *b U), E_TREE)
STAND_IN(symlinkat, (const char *a U, int y U, const char *b U), E_TREE)
STAND_IN(truncate, (const char *p U, off_t n U), E_TREE)
STAND_IN(truncate64, (const char *p U, off64_t n U), E_TREE)
STAND_IN(chmod, (const char *p U, mode_t m U), E_TREE)
STAND_IN(fchmodat, (int at U, const char *p U, mode_t m U, int f U), E_TREE)
STAND_IN(fchmod, (int fd U, mode_t m U), E_TREE)
STAND_IN(chown, (const char *p U, uid_t u U, gid_t g U), E_TREE)
STAND_IN(lchown, (const char *p U, uid_t u U, gid_t g U), E_TREE)
STAND_IN(fchown, (int fd U, uid_t u U, gid_t g U), E_TREE)
STAND_IN(utimensat, (int at U, const char *p U, const struct timespec t[2] U, int f U), E_TREE)
STAND_IN(futimens, (int fd U, const struct timespec t[2] U), E_TREE)
STAND_IN(fsetxattr, (int fd U, const char *n U, const void *v U, size_t l U, int f U), E_TREE)
STAND_IN(setxattr, (const char *p U, const char *n U, const void *v U, size_t l U, int f U), E_TREE)
STAND_IN(fallocate, (int fd U, int m U, off_t a U, off_t l U), E_SHARED)
STAND_IN(fallocate64, (int fd U, int m U, off64_t a U, off64_t l U), E_SHARED)
STAND_IN(posix_fallocate, (int fd U, off_t a U, off_t l U), E_SHARED)
STAND_IN(shutdown, (int fd U, int h U), E_SHARED)
STAND_IN(lsetxattr, (const char *p U, const char *n U, const void *v U, size_t l U, int f U), E_TREE)
STAND_IN(removexattr, (const char *p U, const char *n U), E_TREE)
STAND_IN(fremovexattr, (int fd U, const char *n U), E_TREE)
STAND_IN(utime, (const char *p U, const void *t U), E_TREE)
STAND_IN(utimes, (const char *p U, const struct timeval t[2] U), E_TREE)
STAND_IN(lutimes, (const char *p U, const struct timeval t[2] U), E_TREE)
STAND_IN(futimes, (int fd U, const struct timeval t[2] U), E_TREE)
STAND_IN(futimesat, (int at U, const char *p U, const struct timeval t[2] U), E_TREE)
STAND_IN(mknod, (const char *p U, mode_t m U, dev_t d U), E_TREE)
STAND_IN(mkfifo, (const char *p U, mode_t m U), E_TREE)
STAND_IN(tcsetattr, (int fd U, int a U, const struct termios *t U), E_SHARED)
STAND_IN(tcflush, (int fd U, int a U), E_SHARED)
STAND_IN(tcflow, (int fd U, int a U), E_SHARED)
STAND_IN(tcsetpgrp, (int fd U, pid_t p U), E_SHARED)
REFUSED(execve, (const char *p U, char *const a[] U, char *const e[] U), E_PROCESS, EACCES)
REFUSED(execv, (const char *p U, char *const a[] U), E_PROCESS, EACCES)
REFUSED(execvp, (const char *p U, char *const a[] U), E_PROCESS, EACCES)
REFUSED(system, (const char *c U), E_PROCESS, EAGAIN)
REFUSED(daemon, (int a U, int b U), E_PROCESS, EAGAIN)
REFUSED(vfork, (void), E_PROCESS, EAGAIN)
REFUSED(socket, (int d U, int t U, int p U), E_NETWORK, EACCES)
REFUSED(socketpair, (int d U, int t U, int p U, int v[2] U), E_NETWORK, EACCES)
REFUSED(killpg, (pid_t p U, int s U), E_KILL, EPERM)
REFUSED(sigqueue, (pid_t p U, int s U, const union sigval v U), E_KILL, EPERM)
REFUSED(shm_open, (const char *n U, int f U, mode_t m U), E_SYSTEM, EACCES)
REFUSED(shm_unlink, (const char *n U), E_SYSTEM, EACCES)
REFUSED(shmget, (key_t k U, size_t n U, int f U), E_SYSTEM, EACCES)
REFUSED(msgget, (key_t k U, int f U), E_SYSTEM, EACCES)
REFUSED(semget, (key_t k U, int n U, int f U), E_SYSTEM, EACCES)
REFUSED(sem_unlink, (const char *n U), E_SYSTEM, EACCES)
REFUSED(mq_open, (const char *n U, int f U, ...), E_SYSTEM, EACCES)
REFUSED(mq_unlink, (const char *n U), E_SYSTEM, EACCES)
REFUSED(mount, (const char *a U, const char *b U, const char *t U, unsigned long f U, const void *d U), E_SYSTEM, EPERM)
REFUSED(umount, (const char *a U), E_SYSTEM, EPERM)
REFUSED(umount2, (const char *a U, int f U), E_SYSTEM, EPERM)
REFUSED(unshare, (int f U), E_SYSTEM, EPERM)
REFUSED(reboot, (int c U), E_SYSTEM, EPERM)
REFUSED(mkstemp, (char *t U), E_FILE, EACCES)
REFUSED(mkstemp64, (char *t U), E_FILE, EACCES)
REFUSED(mkostemp, (char *t U, int f U), E_FILE, EACCES)
REFUSED(mkostemp64, (char *t U, int f U), E_FILE, EACCES)
EXPORT char *mkdtemp(char *t U) { if (active) effect(E_TREE); errno = EACCES; return NULL; }
EXPORT void *sem_open(const char *n U, int f U, ...) { if (active) effect(E_SYSTEM); errno = EACCES; return NULL; }
EXPORT FILE *tmpfile(void) { errno = EACCES; return NULL; }
EXPORT FILE *tmpfile64(void) { errno = EACCES; return NULL; }
EXPORT FILE *freopen(const char *p U, const char *m, FILE *f U) { if (active && strpbrk(m, "wa+")) effect(E_FILE); errno = EACCES; return NULL; }
EXPORT FILE *freopen64(const char *p, const char *m, FILE *f) { return freopen(p, m, f); }
EXPORT void openlog(const char *i U, int o U, int f U) {}
EXPORT void vsyslog(int p U, const char *f U, va_list a U) { if (active) effect(E_SYSTEM); }
EXPORT void syslog(int p U, const char *f U, ...) { if (active) effect(E_SYSTEM); }
EXPORT void __syslog_chk(int p U, int g U, const char *f U, ...) { if (active) effect(E_SYSTEM); }
EXPORT void *pututxline(const void *u U) { if (active) effect(E_SYSTEM); errno = EACCES; return NULL; }
REFUSED(settimeofday, (const struct timeval *t U, const struct timezone *z U), E_SYSTEM, EPERM)
REFUSED(clock_settime, (clockid_t c U, const struct timespec *t U), E_SYSTEM, EPERM)
REFUSED(sethostname, (const char *n U, size_t l U), E_SYSTEM, EPERM)
EXPORT int creat(const char *path, mode_t mode) { return (int)ret(sim_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, (int)mode)); }
EXPORT int creat64(const char *path, mode_t mode) { return (int)ret(sim_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, (int)mode)); }
EXPORT FILE *fopen(const char *path U, const char *mode) {
    if (active && strpbrk(mode, "wa+")) { effect(E_FILE); errno = EACCES; } else errno = ENOENT;
    return NULL;
}
EXPORT FILE *fopen64(const char *path, const char *mode) { return fopen(path, mode); }
EXPORT FILE *popen(const char *c U, const char *m U) { if (active) effect(E_PROCESS); errno = EAGAIN; return NULL; }
EXPORT void *opendir(const char *p U) { errno = ENOENT; return NULL; }
typedef pid_t (*fork_fn)(void);
EXPORT pid_t fork(void) {
    if (active) { effect(E_PROCESS); errno = EAGAIN; return -1; }
    return ((fork_fn)dlsym(RTLD_NEXT, "fork"))();
}
EXPORT int posix_spawn(pid_t *pid U, const char *p U, const void *fa U, const void *at U, char *const a[] U, char *const e[] U) { if (active) effect(E_PROCESS); return EAGAIN; }
EXPORT int posix_spawnp(pid_t *pid U, const char *p U, const void *fa U, const void *at U, char *const a[] U, char *const e[] U) { if (active) effect(E_PROCESS); return EAGAIN; }
EXPORT int pidfd_spawnp(int *fd U, const char *p U, const void *fa U, const void *at U, char *const a[] U, char *const e[] U) { if (active) effect(E_PROCESS); return EAGAIN; }
EXPORT int getaddrinfo(const char *n U, const char *s U, const void *h U, void *out U) { if (active) effect(E_NETWORK); return -3; }
EXPORT int kill(pid_t p, int sig) {
    if (active && p == sim_pid()) return (int)ret(raw3(SYS_tgkill, raw3(SYS_getpid, 0, 0, 0), raw3(SYS_gettid, 0, 0, 0), sig));
    if (active && sig) effect(E_KILL);
    errno = EPERM;
    return -1;
}
EXPORT int ftruncate(int fd, off_t n) {
    if (active && (fd == 0 || sink_of(fd))) { if (!effect(E_SHARED)) return 0; errno = EINVAL; return -1; }
    return (int)ret(raw3(SYS_ftruncate, fd, n, 0));
}
EXPORT int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
EXPORT off_t lseek(int fd, off_t n, int whence) {
    if (active && (fd == 0 || sink_of(fd))) {
        if (n != 0 || whence != SEEK_CUR) effect(E_SHARED);
        errno = ESPIPE;
        return -1;
    }
    return ret(raw3(SYS_lseek, fd, n, whence));
}
EXPORT off64_t lseek64(int fd, off64_t n, int whence) { return lseek(fd, n, whence); }
/* shortcuts from descriptor to descriptor are not available here, as on many real ones */
#define SHORTCUT(name, params, from) EXPORT ssize_t name params { if (active && (from) == 0) effect(E_INPUT); errno = EINVAL; return -1; }
SHORTCUT(sendfile, (int out U, int in, off_t *o U, size_t n U), in)
SHORTCUT(sendfile64, (int out U, int in, off64_t *o U, size_t n U), in)
SHORTCUT(splice, (int in, off64_t *a U, int out U, off64_t *b U, size_t n U, unsigned f U), in)
SHORTCUT(tee, (int in, int out U, size_t n U, unsigned f U), in)
SHORTCUT(copy_file_range, (int in, off64_t *a U, int out U, off64_t *b U, size_t n U, unsigned f U), in)
SHORTCUT(vmsplice, (int fd U, const struct iovec *v U, size_t n U, unsigned f U), 1)
SHORTCUT(recv, (int fd, void *b U, size_t n U, int f U), fd)
SHORTCUT(send, (int fd U, const void *b U, size_t n U, int f U), 1)
static ssize_t no_offset(int fd) { errno = fd == 0 || sink_of(fd) ? ESPIPE : EBADF; return -1; }
EXPORT ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    if (active && fd == 0) return no_offset(fd);
    return ret(raw4(SYS_pread64, fd, (long)b, (long)n, o));
}
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    if (active && sink_of(fd)) return no_offset(fd);
    return ret(raw4(SYS_pwrite64, fd, (long)b, (long)n, o));
}
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }

/* ---- the raw door to the kernel ---- */
EXPORT long syscall(long n, ...) {
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long);
    long e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (active) {
        if (n == SYS_getrandom) return ret(sim_random((uint8_t *)a, (size_t)b, (unsigned)c));
        if (n == SYS_write) return write((int)a, (const void *)b, (size_t)c);
        if (n == SYS_gettid || n == SYS_getpid) return sim_pid();
        if (n == SYS_futex && ((b & 127) == 0 || (b & 127) == 9)) {
            if (*(volatile uint32_t *)a != (uint32_t)c) { errno = EAGAIN; return -1; }
            uint64_t until = ~0ull;
            if (d) {
                const struct timespec *ts = (const struct timespec *)d;
                until = (uint64_t)ts->tv_sec * 1000000 + (uint64_t)(ts->tv_nsec + 999) / 1000;
                if ((b & 127) == 9) until = until > P.start_time ? until - P.start_time : 0;
                else until += S->sim_time;
            }
            if (!n_thr) {
                /* waiting for a lock, and nobody else is there to release it */
                if (!d) { event(EV_DEADLOCK, 0, 0, 0); end_run(END_DEADLOCK); }
                event(EV_SLEEP, 1, (int64_t)until, 0);
                if (until > S->sim_time) S->sim_time = until;
                errno = ETIMEDOUT;
                return -1;
            }
            if (block(T_FUTEX, (void *)a, until)) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (n == SYS_futex && ((b & 127) == 1 || (b & 127) == 10) && n_thr) {
            long woken = wake((void *)a, c);
            preempt(0);
            return woken;
        }
        if (n == SYS_read) return read((int)a, (void *)b, (size_t)c);
        if (n == SYS_openat) return ret(sim_open((int)a, (const char *)b, (int)c, (int)d));
        if (n == SYS_open) return ret(sim_open(AT_FDCWD, (const char *)a, (int)b, (int)c));
        if (n == SYS_statx) return statx((int)a, (const char *)b, (int)c, (unsigned)d, (struct statx *)e);
        if (n == SYS_kill) return kill((pid_t)a, (int)b);
        if (n == SYS_unlink || n == SYS_unlinkat || n == SYS_rename || n == SYS_renameat || n == SYS_renameat2 || n == SYS_mkdir || n == SYS_mkdirat || n == SYS_rmdir) {
            if (!effect(E_TREE)) return 0;
            errno = EACCES;
            return -1;
        }
        if (n == SYS_fork || n == SYS_vfork || n == SYS_clone || n == SYS_clone3 || n == SYS_execve || n == SYS_execveat) {
            effect(E_PROCESS);
            errno = n == SYS_clone3 ? ENOSYS : EAGAIN;
            return -1;
        }
        if (n == SYS_socket || n == SYS_connect) { effect(E_NETWORK); errno = EACCES; return -1; }
        if (n == SYS_copy_file_range || n == SYS_splice || n == SYS_sendfile || n == SYS_tee) {
            if ((n == SYS_sendfile ? b : a) == 0) effect(E_INPUT);
            errno = EINVAL;
            return -1;
        }
        if (n == SYS_sched_yield) return sched_yield();
        if (n == SYS_sched_getaffinity) return sched_getaffinity((pid_t)a, (size_t)b, (cpu_set_t *)c);
        if (n == SYS_clock_gettime) return clock_gettime((clockid_t)a, (struct timespec *)b);
    }
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret(r);
}

/* ---- the allocator ---- */
extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

static int unseen(void) { return !active || nested || leaving; }
static int alloc_denied(size_t want, size_t had) {
    preempt(0);
    uint64_t k = ++S->allocs;
    if (P.alloc_budget && k > P.alloc_budget) end_run(END_ALLOC_BUDGET);
    if (S->out_failed) S->after_fail_allocs++;
    if (S->signals) S->after_sig_allocs++;
    if (P.signal && k == P.signal >> 8) sim_signal((int)(P.signal & 255));
    if (P.alloc_fail_at && (k == P.alloc_fail_at || (k > P.alloc_fail_at && (P.flags & F_ALLOC_STICKY)))) {
        S->fired[K_ALLOC]++;
        event(EV_ALLOCFAIL, 0, (int64_t)want, 0);
        return 1;
    }
    if (P.mem_limit && S->live - had + want > P.mem_limit) {
        S->fired[K_MEM]++;
        event(EV_ALLOCFAIL, 1, (int64_t)want, 0);
        return 1;
    }
    return 0;
}
static void alloc_account(void *p) {
    if (!p) return;
    S->live += malloc_usable_size(p);
    if (S->live > S->peak) S->peak = S->live;
}
EXPORT void *malloc(size_t n) {
    if (unseen()) return __libc_malloc(n);
    if (alloc_denied(n, 0)) { errno = ENOMEM; return NULL; }
    void *p = __libc_malloc(n);
    alloc_account(p);
    return p;
}
EXPORT void *calloc(size_t a, size_t b) {
    if (unseen()) return __libc_calloc(a, b);
    if (alloc_denied(a * b, 0)) { errno = ENOMEM; return NULL; }
    void *p = __libc_calloc(a, b);
    alloc_account(p);
    return p;
}
EXPORT void *realloc(void *q, size_t n) {
    if (unseen()) return __libc_realloc(q, n);
    size_t had = q ? malloc_usable_size(q) : 0;
    if (had > S->live) had = S->live;
    if (alloc_denied(n, had)) { errno = ENOMEM; return NULL; }
    void *p = __libc_realloc(q, n);
    if (p || n == 0) { S->live -= had; alloc_account(p); }
    return p;
}
EXPORT void free(void *p) {
    if (p && !unseen()) {
        size_t had = malloc_usable_size(p);
        S->live -= had < S->live ? had : S->live;
    }
    __libc_free(p);
}
EXPORT void *memalign(size_t al, size_t n) {
    if (unseen()) return __libc_memalign(al, n);
    if (alloc_denied(n, 0)) { errno = ENOMEM; return NULL; }
    void *p = __libc_memalign(al, n);
    alloc_account(p);
    return p;
}
EXPORT void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
EXPORT int posix_memalign(void **out, size_t al, size_t n) {
    void *p = memalign(al, n);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}

/* ---- start ---- */
typedef int (*main_fn)(int, char **, char **);
typedef int (*start_main_fn)(main_fn, int, char **, void (*)(void), void (*)(void), void (*)(void), void *);
static main_fn real_main;

static int sim_main(int argc, char **argv, char **envp) {
    active = 1;
    /* what the program returns goes through exit(), still simulated: the Rust runtime's last flush
     * happens there */
    return real_main(argc, argv, envp);
}

/* outside the heap, so that every simulated execution starts with the same heap */
#define BLOB_MAX (16u << 20)
static uint8_t *blob;
static char **vec;

static void run_child(start_main_fn real, void (*init)(void), void (*fini)(void), void (*rtld_fini)(void), void *stack_end) {
    uint8_t *p = blob;
    size_t k = 0;
    for (uint64_t i = 0; i < P.n_args; i++) { vec[k++] = (char *)p; p += strlen((char *)p) + 1; }
    vec[k++] = NULL;
    for (uint64_t i = 0; i < P.n_env; i++) { vec[k++] = (char *)p; p += strlen((char *)p) + 1; }
    vec[k++] = NULL;
    script = (struct script_entry *)(((uintptr_t)p + 7) & ~(uintptr_t)7);
    rng_state = P.hash_seed;
    clock_state = P.clock_step ^ P.hash_seed;
    sched_state = P.sched;
    for (int i = 0; i < 2; i++) fails_left[i] = P.cap_fails[i];
    if (P.cpu_limit_ms) {
        /* backs up the step budget for loops that neither allocate nor write: CPU time, not real time */
        struct itimerval tv = { { 0, 0 }, { (time_t)(P.cpu_limit_ms / 1000), (suseconds_t)(P.cpu_limit_ms % 1000) * 1000 } };
        raw3(SYS_setitimer, ITIMER_PROF, (long)&tv, 0);
    }
    if (P.sig_ign) signal((int)P.sig_ign, SIG_IGN);
    environ = vec + P.n_args + 1;
    /* where things lie on the heap is the specification's choice, too */
    if (!__libc_malloc(16 * (1 + (P.hash_seed >> 20) % 4096))) die(8);
    real(sim_main, (int)P.n_args, vec, init, fini, rtld_fini, stack_end);
    die(4);
}

EXPORT int __libc_start_main(main_fn m, int argc, char **argv, void (*init)(void), void (*fini)(void),
                             void (*rtld_fini)(void), void *stack_end) {
    start_main_fn real = (start_main_fn)dlsym(RTLD_NEXT, "__libc_start_main");
    const char *on = NULL;
    for (char **e = argv + argc + 1; *e; e++) if (!strncmp(*e, "RIPSIM_ZYGOTE=", 14)) on = *e + 14;
    if (!on) return real(m, argc, argv, init, fini, rtld_fini, stack_end);
    real_main = m;
    struct rlimit nocore = { 0, 0 };
    raw4(SYS_prlimit64, 0, RLIMIT_CORE, (long)&nocore, 0);
    /* what this process inherited (a background job of a shell ignores SIGINT and SIGQUIT, say) is
     * not part of a simulated world */
    for (int sig = 1; sig < 65; sig++) {
        struct { void (*h)(int); unsigned long flags; void (*restorer)(void); unsigned long mask; } dfl;
        memset(&dfl, 0, sizeof dfl);
        raw4(SYS_rt_sigaction, sig, (long)&dfl, 0, 8);
    }
    unsigned long none = 0;
    raw4(SYS_rt_sigprocmask, SIG_SETMASK, (long)&none, 0, 8);
    static const int limits[] = { RLIMIT_AS, RLIMIT_DATA, RLIMIT_CPU, RLIMIT_FSIZE, RLIMIT_STACK };
    for (unsigned i = 0; i < sizeof limits / sizeof *limits; i++) {
        struct rlimit lim;
        if (raw4(SYS_prlimit64, 0, limits[i], 0, (long)&lim) != 0) continue;
        lim.rlim_cur = lim.rlim_max;
        if (limits[i] == RLIMIT_STACK && lim.rlim_cur > (8ul << 20)) lim.rlim_cur = 8ul << 20;
        raw4(SYS_prlimit64, 0, limits[i], (long)&lim, 0);
    }
    umask(022);
    long len = raw3(SYS_readlink, (long)"/proc/self/exe", (long)own_dir, sizeof own_dir - 1);
    while (len > 0 && own_dir[len - 1] != '/') len--;
    own_dir[len > 0 ? len : 0] = 0;
    req_fd = (int)raw3(SYS_fcntl, 0, F_DUPFD_CLOEXEC, 200);
    resp_fd = (int)raw3(SYS_fcntl, 1, F_DUPFD_CLOEXEC, 200);
    int nul = (int)raw4(SYS_openat, AT_FDCWD, (long)"/dev/null", O_RDWR, 0);
    raw3(SYS_dup2, nul, 0, 0); raw3(SYS_dup2, nul, 1, 0); raw3(SYS_dup2, nul, 2, 0);
    if (nul > 2) raw3(SYS_close, nul, 0, 0);
    S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    blob = mmap(NULL, BLOB_MAX, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    vec = mmap(NULL, BLOB_MAX * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (S == MAP_FAILED || blob == MAP_FAILED || vec == MAP_FAILED) die(5);
    uint64_t hello[2] = { 0x5249505349ull, sizeof(struct spec) };
    write_full(resp_fd, hello, sizeof hello);
    for (;;) {
        read_full(req_fd, &P, sizeof P);
        if (P.blob_len > BLOB_MAX) die(7);
        read_full(req_fd, blob, P.blob_len);
        memset(S, 0, offsetof(struct shared, log));
        pid_t pid = fork();
        if (pid == 0) run_child(real, init, fini, rtld_fini, stack_end);
        int status = 0;
        if (pid < 0) die(6);
        for (;;) {
            long r = raw4(SYS_wait4, pid, (long)&status, 0, 0);
            if (r == -EINTR) continue;
            break;
        }
        uint64_t nlog = 0;
        if (P.flags & F_WANT_LOG) nlog = S->n_events < LOG_MAX ? S->n_events : LOG_MAX;
        uint64_t head[3] = { 2, (uint64_t)(uint32_t)status, nlog };
        write_full(resp_fd, head, sizeof head);
        write_full(resp_fd, S, offsetof(struct shared, log));
        write_full(resp_fd, S->out, S->out_len);
        write_full(resp_fd, S->err, S->err_len);
        if (nlog) write_full(resp_fd, S->log, nlog * sizeof(struct event));
    }
}
