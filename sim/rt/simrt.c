// Deterministic simulation runtime: interposes thread creation/join, futexes, clocks, sleeping, entropy,
// CPU discovery and file reads/writes, and runs exactly one simulated thread at a time. Every choice is a
// function of the configuration (seed or explicit decision list), so one configuration is one execution.
// Threads that are not part of a simulation (self < 0) pass straight through to the real implementation.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>
#include "simrt.h"

// ---------------------------------------------------------------- raw system calls
static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
    register long r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = f;
    long ret;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}
static long ret_errno(long r) {
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

// ---------------------------------------------------------------- state
enum { T_FREE, T_RUN, T_FUTEX, T_JOIN, T_SLEEP, T_DONE };
typedef struct {
    volatile int go;
    int state;
    const void *addr;      // futex address
    uint32_t bitset;
    int has_deadline;
    int64_t deadline;      // monotonic ns
    int woken;             // 1 woken, 2 timeout
    int join;              // thread waited for
    uint64_t stalled_until; // step
    pthread_t real;
    void *(*fn)(void *);
    void *arg;
    void *ret;
    uint32_t prio;
    int detached;
    uint64_t hash_key, hash_n; // overrides the stream of hash keys for this thread
} thr;

static thr *T;
static int nthr;          // high-water mark of tids used
static int live;          // not DONE
static int cur = -1;
static volatile int active;
static sim_config C;
static sim_stats *R;      // shared memory
static int next_dec;      // explicit decisions cursor
static uint64_t step;
static int64_t mono, real_off;
static uint64_t stir;     // rolling digest
static volatile int root_done;
static volatile int last_exit_gate;
static __thread int self __attribute__((tls_model("initial-exec"))) = -1;
static __thread int depth __attribute__((tls_model("initial-exec"))) = 0;

static uint64_t mix(uint64_t x) {
    x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; x ^= x >> 31;
    return x;
}
static uint64_t h2(uint64_t a, uint64_t b) { return mix(C.seed * 0x9e3779b97f4a7c15ull + mix(a + 0x632be59bd9b4e019ull) + b * 0xd1342543de82ef95ull); }
static void dig(uint64_t a, uint64_t b) { stir = mix(stir ^ mix(a * 0x9e3779b97f4a7c15ull + b)); R->digest = stir; }

// The host-visible actions of an execution while `trc_on`: their sequence, and the library routines called
// (a sum, so that it does not depend on the interleaving).
static volatile int trc_on;
static uint64_t trc_seq, trc_calls, trc_n, trc_called;
static void trc(uint64_t a, uint64_t b) { trc_n++; trc_seq = mix(trc_seq ^ mix(a * 0x9e3779b97f4a7c15ull + b)); }

static int sim(void) { return active && self >= 0 && depth == 0; }

static void wait_go(thr *t) {
    while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE)) raw6(SYS_futex, (long)&t->go, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
}
static void give(thr *t) {
    __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
    raw6(SYS_futex, (long)&t->go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

__attribute__((noreturn)) static void die(int code, const char *what) {
    R->died = code;
    int n = snprintf(R->text, sizeof R->text, "%s: step=%llu threads:", what, (unsigned long long)step);
    for (int i = 0; i < nthr && n < (int)sizeof R->text - 64; i++)
        if (T[i].state != T_DONE && T[i].state != T_FREE)
            n += snprintf(R->text + n, sizeof R->text - n, " %d:%s", i,
                          T[i].state == T_RUN ? "runnable" : T[i].state == T_FUTEX ? "futex" : T[i].state == T_JOIN ? "join" : "sleep");
    raw6(SYS_exit_group, code, 0, 0, 0, 0, 0);
    __builtin_unreachable();
}

// fault lookup: the explicit list is scanned for (kind, ordinal)
static const sim_fault *fault(int kind, uint64_t n) {
    for (uint32_t i = 0; i < C.n_faults; i++) {
        const sim_fault *f = &C.faults[i];
        if (f->kind == (uint32_t)kind && (f->n == n || (f->every && n >= f->n && (n - f->n) % f->every == 0))) {
            R->injected[kind]++;
            dig(0xfa, kind);
            return f;
        }
    }
    return 0;
}

// picks among runnable threads; returns -1 if none. `must`: the current thread cannot continue.
static int runnable(int i, int honour_stall) {
    return T[i].state == T_RUN && !(honour_stall && T[i].stalled_until > step);
}
static int pick(int must) {
    // explicit decision?
    if (C.n_dec) {
        while (next_dec < (int)C.n_dec && C.dec[next_dec].step < step) next_dec++;
        if (next_dec < (int)C.n_dec && C.dec[next_dec].step == step) {
            int t = C.dec[next_dec].tid;
            next_dec++;
            if (t < nthr && T[t].state == T_RUN) return t;
        }
    }
    if (C.explicit_mode) {
        if (!must) return cur;
        for (int i = 0; i < nthr; i++) if (T[i].state == T_RUN) return i;
        return -1;
    }
    int n = 0;
    for (int i = 0; i < nthr; i++) n += runnable(i, 1);
    int stall = 1;
    if (!n) { stall = 0; for (int i = 0; i < nthr; i++) n += runnable(i, 0); }
    if (!n) return -1;
    int k;
    switch (must ? C.policy : SIM_RANDOM) {
    case SIM_LOWEST: k = 0; break;
    case SIM_HIGHEST: k = n - 1; break;
    case SIM_PRIO: {
        int best = -1;
        for (int i = 0; i < nthr; i++) if (runnable(i, stall) && (best < 0 || T[i].prio > T[best].prio)) best = i;
        return best;
    }
    default: k = (int)(h2(1, step) % (uint64_t)n); break;
    }
    for (int i = 0; i < nthr; i++) if (runnable(i, stall) && k-- == 0) return i;
    return -1;
}
static void record(int t) {
    dig(0x5c, ((uint64_t)t << 40) | step);
    R->switches++;
    if (R->n_dec < SIM_MAX_DEC) { R->dec[R->n_dec].step = step; R->dec[R->n_dec].tid = t; R->n_dec++; }
    else R->dec_overflow = 1;
}

static void expire(void) {
    for (int i = 0; i < nthr; i++)
        if ((T[i].state == T_FUTEX || T[i].state == T_SLEEP) && T[i].has_deadline && T[i].deadline <= mono) {
            T[i].state = T_RUN; T[i].woken = 2;
        }
}
// Hands the baton to thread t. If the caller stays alive it waits for its turn.
static void hand(int t, int exiting) {
    thr *me = &T[self];
    cur = t;
    give(&T[t]);
    if (!exiting) wait_go(me);
}
// The current thread cannot run: choose another, advancing simulated time if everyone waits.
static void block_switch(int exiting) {
    for (;;) {
        step++;
        int t = pick(1);
        if (t >= 0) {
            record(t);
            if (t == self && !exiting) { cur = t; return; }
            hand(t, exiting);
            return;
        }
        int64_t best = 0; int have = 0;
        for (int i = 0; i < nthr; i++)
            if ((T[i].state == T_FUTEX || T[i].state == T_SLEEP) && T[i].has_deadline && (!have || T[i].deadline < best)) { best = T[i].deadline; have = 1; }
        if (!have) die(77, "deadlock");
        if (best > mono) mono = best;
        R->time_skips++;
        expire();
    }
}
// A point at which the scheduler may switch threads.
static void point(int kind) {
    step++;
    R->points[kind]++;
    if (trc_on) trc(kind, self);
    mono += 37 + (int64_t)(h2(2, step) & 63);
    if (step > C.max_steps) die(78, "step budget exceeded (livelock)");
    if (C.n_faults) {
        const sim_fault *f;
        if (C.has_stall && (f = fault(F_STALL, step)) && !C.explicit_mode) T[self].stalled_until = step + f->arg;
    }
    int t;
    if (C.n_dec || C.explicit_mode) t = pick(0);
    else if (T[self].stalled_until > step || (C.preempt && (uint32_t)h2(3, step) < C.preempt)) t = pick(0);
    else return;
    if (t < 0 || t == self) return;
    record(t);
    hand(t, 0);
}
void sim_point(int kind) { if (sim()) point(kind); }
// A point at which the thread makes no progress by itself: another thread runs if there is one, so that a
// thread which polls cannot starve the one it waits for.
static void yield_now(int kind) {
    step++;
    R->points[kind]++;
    if (trc_on) trc(0x100 + kind, self);
    mono += 37 + (int64_t)(h2(2, step) & 63);
    if (step > C.max_steps) die(78, "step budget exceeded (livelock)");
    int t = -1;
    if (C.n_dec || C.explicit_mode) { t = pick(0); if (t == self) t = -1; }
    if (t < 0) {
        int n = 0;
        for (int i = 0; i < nthr; i++) n += i != self && T[i].state == T_RUN;
        if (!n) return;
        int k = C.explicit_mode ? 0 : (int)(h2(6, step) % (uint64_t)n);
        int from = C.explicit_mode ? self + 1 : 0;
        for (int j = 0; j < nthr && t < 0; j++) {
            int i = (from + j) % nthr;
            if (i != self && T[i].state == T_RUN && k-- == 0) t = i;
        }
    }
    record(t);
    hand(t, 0);
}

// ---------------------------------------------------------------- threads
static int (*r_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*r_join)(pthread_t, void **);
static int (*r_detach)(pthread_t);
static void resolve(void) {
    if (!r_detach) r_detach = dlsym(RTLD_NEXT, "pthread_detach");
    if (!r_create) r_create = dlsym(RTLD_NEXT, "pthread_create");
    if (!r_join) r_join = dlsym(RTLD_NEXT, "pthread_join");
}
static void finish(void) {
    thr *me = &T[self];
    me->state = T_DONE;
    live--;
    dig(0xd0, self);
    for (int i = 0; i < nthr; i++) if (T[i].state == T_JOIN && T[i].join == self) T[i].state = T_RUN;
    if (live == 0 || self == 0) { active = 0; root_done = 1; self = -2; return; }
    block_switch(1);
    self = -2;
}
// The root has returned: let every other thread that can still run come to its end.
static void drain(void) {
    depth = 0;
    for (uint64_t guard = 0; guard < (1u << 20); guard++) {
        int others = -1;
        for (int i = 1; i < nthr; i++) if (T[i].state == T_RUN) { others = i; break; }
        if (others < 0) return;
        step++;
        record(others);
        hand(others, 0);
    }
}
// A simulated thread ends after its thread-local destructors, so that they are part of the simulation: in
// the last of glibc's four rounds of key destructors (std drops its own thread handle in the second).
static pthread_key_t end_key;
static pthread_once_t end_once = PTHREAD_ONCE_INIT;
static void end_thread(void *p) {
    if ((uintptr_t)p < 4) { pthread_setspecific(end_key, (void *)((uintptr_t)p + 1)); return; }
    if (self == 0) drain();
    finish();
}
static void end_init(void) { pthread_key_create(&end_key, end_thread); }
static void *tramp(void *p) {
    thr *me = p;
    self = (int)(me - T);
    pthread_setspecific(end_key, (void *)1);
    wait_go(me);
    return me->ret = me->fn(me->arg);
}
int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
    resolve();
    if (!sim()) return r_create(out, attr, fn, arg);
    uint64_t n = ++R->creates;
    const sim_fault *f = fault(F_SPAWN, n);
    dig(0xc0, n);
    if (f) { point(P_SPAWN); return f->arg ? (int)f->arg : EAGAIN; }
    // reuse the slot of a finished thread so that ids stay small; ids are part of the execution
    int id = -1;
    for (int i = 1; i < nthr; i++) if (T[i].state == T_DONE && T[i].detached) { id = i; break; }
    if (id < 0) { if (nthr >= SIM_MAX_THREADS) die(79, "too many threads"); id = nthr++; }
    thr *t = &T[id];
    memset(t, 0, sizeof *t);
    t->fn = fn; t->arg = arg; t->state = T_RUN; t->join = -1; t->prio = (uint32_t)h2(4, n);
    live++;
    if (live > (int)R->max_live) R->max_live = live;
    depth++;
    int rc = r_create(&t->real, attr, tramp, t);
    depth--;
    if (rc) { R->real_create_fail++; die(79, "host could not create a thread"); }
    *out = t->real;
    point(P_SPAWN);
    return 0;
}
static int find(pthread_t p) {
    for (int i = nthr - 1; i >= 0; i--) if (T[i].state != T_FREE && !T[i].detached && pthread_equal(T[i].real, p)) return i;
    return -1;
}
int pthread_join(pthread_t p, void **ret) {
    resolve();
    if (!sim()) return r_join(p, ret);
    int i = find(p);
    if (i >= 0) {
        point(P_JOIN);
        if (T[i].state != T_DONE) { T[self].state = T_JOIN; T[self].join = i; block_switch(0); T[self].join = -1; }
    }
    depth++;
    int rc = r_join(p, ret);
    depth--;
    if (i >= 0) T[i].detached = 1; // slot reusable
    return rc;
}
int pthread_detach(pthread_t p) {
    resolve();
    if (sim()) { int i = find(p); if (i >= 0) T[i].detached = 1; }
    return r_detach(p);
}
int sched_yield(void) { if (sim()) { yield_now(P_YIELD); return 0; } return (int)ret_errno(raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0)); }

// ---------------------------------------------------------------- futexes
static long futex(uint32_t *addr, int op, uint32_t val, const struct timespec *ts, uint32_t *addr2, uint32_t val3) {
    (void)addr2;
    int cmd = op & FUTEX_CMD_MASK;
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
        point(P_FUTEX);
        uint64_t n = ++R->waits;
        if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return -EAGAIN;
        if (fault(F_SPURIOUS, n)) { yield_now(P_FUTEX); return 0; }
        if (fault(F_EINTR_WAIT, n)) { yield_now(P_FUTEX); return -EINTR; }
        thr *me = &T[self];
        me->addr = addr; me->woken = 0;
        me->bitset = cmd == FUTEX_WAIT_BITSET ? val3 : 0xffffffffu;
        me->has_deadline = ts != 0;
        if (ts) {
            int64_t d = (int64_t)ts->tv_sec * 1000000000ll + ts->tv_nsec;
            if (cmd == FUTEX_WAIT) d += mono;
            else if (op & FUTEX_CLOCK_REALTIME) d -= real_off;
            me->deadline = d;
        }
        me->state = T_FUTEX;
        dig(0xf0, self);
        block_switch(0);
        me->addr = 0;
        return me->woken == 2 ? -ETIMEDOUT : 0;
    }
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
        uint32_t mask = cmd == FUTEX_WAKE_BITSET ? val3 : 0xffffffffu;
        long woke = 0;
        // waiters are released in a seeded order
        uint32_t start = nthr ? (uint32_t)(h2(5, step) % (uint64_t)nthr) : 0;
        for (int k = 0; k < nthr && woke < (long)(int32_t)val; k++) {
            int i = (int)((start + k) % nthr);
            if (T[i].state == T_FUTEX && T[i].addr == addr && (T[i].bitset & mask)) { T[i].state = T_RUN; T[i].woken = 1; woke++; }
        }
        dig(0xf1, woke);
        point(P_FUTEX);
        return woke;
    }
    return -ENOSYS;
}

// ---------------------------------------------------------------- entropy
// Two independent streams: 0 for seeds, 1 for the 16-byte requests of the standard library's hash keys.
// The bytes of the first partial delivery come from a third stream, keyed by `entropy_fork`: two runs with
// different entropy and the same entropy_fork share exactly those bytes, so that code which takes a partial
// delivery for a complete one ends with the same seed in both.
static uint64_t ent_pos[3], ent_calls;
static int ent_partial;
static unsigned char ent_byte(int s, uint64_t i) {
    uint64_t seed = s == 2 ? C.entropy_fork : s ? C.hash_seed : C.entropy_seed;
    if (s == 0 && C.keep_mask && i / C.keep_gran < 64 && (C.keep_mask >> (i / C.keep_gran) & 1)) seed = C.keep_seed;
    return (unsigned char)(mix(seed * 0x9e3779b97f4a7c15ull + mix(i / 8 + 77 + 1000 * s)) >> (8 * (i % 8)));
}
static void ent_fill(unsigned char *b, size_t n, int s) {
    for (size_t i = 0; i < n; i++) {
        b[i] = ent_byte(s, ent_pos[s]++);
        if (s != 1 && R->n_ent < SIM_MAX_ENT) R->ent[R->n_ent++] = b[i];
    }
    if (s != 1) R->entropy_bytes += n;
}
// A short delivery leaves at least 8 bytes undelivered, so that what is missing cannot be guessed.
static size_t ent_short(unsigned char *b, size_t n, uint64_t want) {
    if (n <= 8) { ent_fill(b, n, 0); return n; }
    size_t m = want % n;
    if (m > n - 8) m = n - 8;
    if (!m) m = 1;
    ent_fill(b, m, ent_partial ? 0 : 2);
    ent_partial = 1;
    return m;
}
static long entropy(void *buf, size_t n) {
    const sim_fault *f;
    point(P_IO);
    if (n == 16) {
        if (T[self].hash_key) {
            for (size_t i = 0; i < n; i++) ((unsigned char *)buf)[i] = (unsigned char)(mix(T[self].hash_key + 31 * ++T[self].hash_n) >> 8);
        } else ent_fill(buf, n, 1);
        return (long)n;
    }
    uint64_t k = ++ent_calls;
    if ((f = fault(F_GETRANDOM, k))) return -(long)(f->arg ? f->arg : EINTR);
    if ((f = fault(F_GETRANDOM_SHORT, k))) return (long)ent_short(buf, n, f->arg);
    ent_fill(buf, n, 0);
    dig(0xe0, n);
    return (long)n;
}
void sim_hash_seed(uint64_t k) { if (sim()) { T[self].hash_key = k | 1; T[self].hash_n = 0; } }
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    if (!sim()) return ret_errno(raw6(SYS_getrandom, (long)buf, n, flags, 0, 0, 0));
    return ret_errno(entropy(buf, n));
}
int getentropy(void *buf, size_t n) {
    if (!sim()) { long r = raw6(SYS_getrandom, (long)buf, n, 0, 0, 0, 0); if (r == (long)n) return 0; errno = EIO; return -1; }
    size_t got = 0;
    while (got < n) { long r = entropy((char *)buf + got, n - got); if (r == -EINTR) continue; if (r < 0) { errno = (int)-r; return -1; } got += r; }
    return 0;
}

long syscall(long n, ...) {
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (sim()) {
        if (n == SYS_futex) return ret_errno(futex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d, (uint32_t *)e, (uint32_t)f));
        if (n == SYS_getrandom) return ret_errno(entropy((void *)a, (size_t)b));
    }
    return ret_errno(raw6(n, a, b, c, d, e, f));
}

// ---------------------------------------------------------------- time
static int64_t clk_log[512];
static size_t clk_n;
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (!sim()) return (int)ret_errno(raw6(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0));
    uint64_t n = ++R->clock_reads;
    const sim_fault *f;
    if ((f = fault(F_MONO_JUMP, n))) mono += (int64_t)f->arg;
    if ((f = fault(F_REAL_JUMP, n))) real_off += (int64_t)f->arg;
    point(P_CLOCK);
    int64_t t = mono;
    if (id == CLOCK_MONOTONIC && clk_n < 512) clk_log[clk_n++] = t;
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) t += real_off;
    if (t < 0) t = 0;
    ts->tv_sec = t / 1000000000ll; ts->tv_nsec = t % 1000000000ll;
    return 0;
}
static void do_sleep(int64_t deadline) {
    thr *me = &T[self];
    me->has_deadline = 1; me->deadline = deadline; me->state = T_SLEEP;
    block_switch(0);
}
int nanosleep(const struct timespec *rq, struct timespec *rm) {
    if (!sim()) return (int)ret_errno(raw6(SYS_nanosleep, (long)rq, (long)rm, 0, 0, 0, 0));
    do_sleep(mono + (int64_t)rq->tv_sec * 1000000000ll + rq->tv_nsec);
    return 0;
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec *rq, struct timespec *rm) {
    if (!sim()) { long r = raw6(SYS_clock_nanosleep, id, flags, (long)rq, (long)rm, 0, 0); return (int)-r; }
    int64_t d = (int64_t)rq->tv_sec * 1000000000ll + rq->tv_nsec;
    if (!(flags & TIMER_ABSTIME)) d += mono; else if (id == CLOCK_REALTIME) d -= real_off;
    do_sleep(d);
    return 0;
}

// ---------------------------------------------------------------- host description and files
int sched_getaffinity(pid_t pid, size_t sz, cpu_set_t *m) {
    if (!sim()) { long r = raw6(SYS_sched_getaffinity, pid, sz, (long)m, 0, 0, 0); if (r < 0) { errno = (int)-r; return -1; } memset((char *)m + r, 0, sz - r); return 0; }
    if (C.cpus < 0) { errno = EPERM; return -1; }
    memset(m, 0, sz);
    for (int i = 0; i < C.cpus && i < (int)sz * 8; i++) ((unsigned char *)m)[i / 8] |= 1 << (i % 8);
    return 0;
}
enum { K_NONE, K_ENT, K_FILE, K_TEXT };
static unsigned char fdkind[4096];
static uint64_t fdpos[4096];
static int reserve(int kind) {
    int fd = (int)raw6(SYS_openat, AT_FDCWD, (long)"/dev/null", O_RDONLY | O_CLOEXEC, 0, 0, 0);
    if (fd >= 0 && fd < 4096) { fdkind[fd] = kind; fdpos[fd] = 0; }
    return fd;
}
static int sim_open(int dirfd, const char *path, int flags, int mode) {
    const sim_fault *f;
    point(P_IO);
    if (!strcmp(path, "/dev/urandom") || !strcmp(path, "/dev/random")) {
        uint64_t n = ++R->ent_opens;
        if ((f = fault(F_ENT_OPEN, n))) { return -(int)(f->arg ? f->arg : ENOENT); }
        return reserve(K_ENT);
    }
    if (!strcmp(path, "/proc/cpuinfo")) {
        if (C.cpuinfo_err) return -C.cpuinfo_err;
        return reserve(K_TEXT);
    }
    if (!strncmp(path, "/proc/self/cgroup", 17) || !strncmp(path, "/proc/self/mountinfo", 20) || !strncmp(path, "/sys/fs/cgroup", 14)) return -ENOENT;
    int fd = (int)raw6(SYS_openat, dirfd, (long)path, flags, mode, 0, 0);
    if (fd >= 0 && fd < 4096) {
        fdkind[fd] = C.watch_prefix[0] && !strncmp(path, C.watch_prefix, strlen(C.watch_prefix)) ? K_FILE : K_NONE;
        fdpos[fd] = 0;
    }
    return fd;
}
#define OPEN_BODY(DIR)                                                                                   \
    int mode = 0;                                                                                        \
    if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); } \
    if (!sim()) return (int)ret_errno(raw6(SYS_openat, DIR, (long)path, flags, mode, 0, 0));             \
    return (int)ret_errno(sim_open(DIR, path, flags, mode));
int open(const char *path, int flags, ...) { OPEN_BODY(AT_FDCWD) }
int open64(const char *path, int flags, ...) { OPEN_BODY(AT_FDCWD) }
int openat(int dirfd, const char *path, int flags, ...) { OPEN_BODY(dirfd) }
int openat64(int dirfd, const char *path, int flags, ...) { OPEN_BODY(dirfd) }

ssize_t read(int fd, void *buf, size_t n) {
    if (!sim() || fd < 0 || fd >= 4096 || fdkind[fd] == K_NONE) return ret_errno(raw6(SYS_read, fd, (long)buf, n, 0, 0, 0));
    const sim_fault *f;
    point(P_IO);
    if (fdkind[fd] == K_ENT) {
        uint64_t k = ++R->ent_reads;
        if (fault(F_ENT_EINTR, k)) { errno = EINTR; return -1; }
        if (fault(F_ENT_EIO, k)) { errno = EIO; return -1; }
        if (fault(F_ENT_EOF, k)) return 0;
        if ((f = fault(F_ENT_SHORT, k))) n = ent_short(buf, n, f->arg);
        else ent_fill(buf, n, 0);
        dig(0xe1, n);
        return (ssize_t)n;
    }
    if (fdkind[fd] == K_TEXT) {
        size_t len = strlen(C.cpuinfo), pos = fdpos[fd];
        if (pos >= len) return 0;
        size_t m = len - pos; if (m > n) m = n;
        memcpy(buf, C.cpuinfo + pos, m);
        fdpos[fd] += m;
        return (ssize_t)m;
    }
    uint64_t k = ++R->file_reads;
    if (fault(F_READ_EINTR, k)) { errno = EINTR; return -1; }
    if (fault(F_READ_EIO, k)) { errno = EIO; return -1; }
    if ((f = fault(F_READ_SHORT, k)) && n > 1) { size_t m = f->arg % n; n = m ? m : 1; }
    return ret_errno(raw6(SYS_read, fd, (long)buf, n, 0, 0, 0));
}
// What the code writes to stdout and the monotonic times it is told, while somebody listens.
static char *cap_buf;
static size_t cap_n, cap_max;
void sim_capture(char *buf, size_t max) { cap_buf = buf; cap_max = max; cap_n = 0; clk_n = 0; }
size_t sim_captured(void) { return cap_n; }
size_t sim_clock_log(int64_t *out, size_t max) { size_t k = clk_n < max ? clk_n : max; memcpy(out, clk_log, k * sizeof *out); return k; }
int64_t sim_now(void) { return mono; }
ssize_t write(int fd, const void *buf, size_t n) {
    if (!sim() || (fd != 1 && fd != 2)) return ret_errno(raw6(SYS_write, fd, (long)buf, n, 0, 0, 0));
    const sim_fault *f;
    uint64_t k = ++R->out_writes;
    if (trc_on) { trc(0x300 + fd, n); for (size_t i = 0; i < n; i++) trc(0x301, ((const unsigned char *)buf)[i]); }
    point(P_IO);
    if ((f = fault(fd == 1 ? F_STDOUT : F_STDERR, k))) {
        if (f->arg == 1) { if (n > 1) n = 1; } // short write
        else { errno = f->arg ? (int)f->arg : EIO; return -1; }
    }
    R->out_bytes[fd - 1] += n;
    if (fd == 1 && cap_buf && cap_n + n <= cap_max) { memcpy(cap_buf + cap_n, buf, n); cap_n += n; }
    return (ssize_t)n;
}
int close(int fd) {
    if (fd >= 0 && fd < 4096) fdkind[fd] = K_NONE;
    return (int)ret_errno(raw6(SYS_close, fd, 0, 0, 0, 0, 0));
}

// ---------------------------------------------------------------- allocation
// 0: proceed, 1: fail. Called by the Rust global allocator.
int sim_alloc_point(size_t size) {
    if (!sim()) return 0;
    uint64_t n = ++R->allocs;
    if (trc_on) trc(0x200, size);
    if (size >= C.big_alloc) {
        uint64_t b = ++R->big_allocs;
        if (C.has_alloc && fault(F_ALLOC_BIG, b)) return 1;
    }
    if (C.has_alloc && fault(F_ALLOC, n)) return 1;
    point(P_ALLOC);
    return 0;
}
// garbage for uninitialised memory, 0: leave as is
void sim_garbage(unsigned char *p, size_t n) {
    if (!sim() || !C.garbage || n > (1u << 22)) return;
    uint64_t x = mix(C.seed + C.garbage);
    size_t i = 0;
    for (; i + 8 <= n; i += 8) { x = x * 6364136223846793005ull + 1442695040888963407ull; memcpy(p + i, &x, 8); }
    for (; i < n; i++) p[i] = (unsigned char)x;
}
// Starts a trace at a round step number, so that two executions compare whatever went before.
void sim_trace_start(void) {
    if (!sim()) return;
    step = (step | 0xfffff) + 1;
    mono = (mono | 0xffffffffffll) + 1;
    trc_seq = trc_calls = trc_n = trc_called = 0;
    trc_on = 1;
}
void sim_trace_read(uint64_t out[4]) { out[0] = trc_seq; out[1] = trc_calls; out[2] = trc_n; out[3] = trc_called; }
void sim_trace_stop(void) { trc_on = 0; }
extern char __executable_start;
static const uint32_t *fn_table; // per 16 bytes of code: the routine's number, 0 if it does not count
static uint64_t fn_n;
void sim_routines(const uint32_t *t, uint64_t n) { fn_table = t; fn_n = n; }
void __tsan_func_entry(void *pc) {
    (void)pc;
    if (__builtin_expect(trc_on, 0) && sim()) {
        uint64_t o = (uint64_t)((char *)__builtin_return_address(0) - &__executable_start) >> 4;
        if (o < fn_n && fn_table[o]) { trc_calls += mix(fn_table[o]); trc_called++; }
    }
}
void __tsan_func_exit(void) {}
int sim_is_sim(void) { return sim(); }
uint64_t sim_now_step(void) { return step; }
void sim_note(uint64_t a, uint64_t b) { if (sim()) dig(a, b); }
// No scheduling, no faults inside (used by checkers that must not perturb the execution).
void sim_quiet(int on) { if (active && self >= 0) depth += on ? 1 : -1; }

// The standard library keeps a map of stack guard ranges ordered by address (for its overflow message);
// its allocations would depend on where the host places stacks. It is not set up if a handler is in place
// when the process starts; main() restores the default.
#include <signal.h>
__attribute__((constructor)) static void no_altstack(void) { signal(SIGSEGV, SIG_IGN); signal(SIGBUS, SIG_IGN); }
void sim_default_signals(void) { signal(SIGSEGV, SIG_DFL); signal(SIGBUS, SIG_DFL); }

// ---------------------------------------------------------------- running a simulation
size_t sim_stats_size(void) { return sizeof(sim_stats); }
static pthread_attr_t root_attr;
void sim_run(const sim_config *cfg, sim_stats *stats, void *(*fn)(void *), void *arg) {
    resolve();
    pthread_once(&end_once, end_init);
    // a fresh table for every simulation: a thread left blocked by an earlier one keeps waiting on the old table
    T = mmap(0, sizeof(thr) * SIM_MAX_THREADS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    C = *cfg;
    R = stats;
    C.has_stall = C.has_alloc = 0;
    for (uint32_t i = 0; i < C.n_faults; i++) {
        if (C.faults[i].kind == F_STALL) C.has_stall = 1;
        if (C.faults[i].kind == F_ALLOC || C.faults[i].kind == F_ALLOC_BIG) C.has_alloc = 1;
    }
    step = 0; trc_on = 0; next_dec = 0; stir = 0; ent_pos[0] = ent_pos[1] = ent_pos[2] = 0; ent_calls = 0; ent_partial = 0;
    mono = 1000000000ll * 1000; real_off = 1700000000ll * 1000000000ll;
    memset(fdkind, 0, sizeof fdkind);
    nthr = 1; live = 1; cur = 0;
    T[0].fn = fn; T[0].arg = arg; T[0].state = T_RUN; T[0].join = -1;
    pthread_attr_init(&root_attr);
    pthread_attr_setstacksize(&root_attr, 64u << 20);
    active = 1; root_done = 0;
    if (r_create(&T[0].real, &root_attr, tramp, &T[0])) { active = 0; R->died = 79; return; }
    give(&T[0]);
    r_join(T[0].real, 0);
    R->steps = step;
    R->sim_ns = mono - 1000000000ll * 1000;
}

// ---------------------------------------------------------------- atomics (thread-sanitizer callbacks)
// The crates are compiled with -Zsanitizer=thread restricted to atomics: every atomic operation of the
// instrumented crates becomes a scheduling point.
void __tsan_init(void) {}
#define ATOMICS(N, TY)                                                                                              \
    TY __tsan_atomic##N##_load(const volatile TY *p, int mo) { (void)mo; sim_point(P_ATOMIC); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##N##_store(volatile TY *p, TY v, int mo) { (void)mo; sim_point(P_ATOMIC); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##N##_exchange(volatile TY *p, TY v, int mo) { (void)mo; sim_point(P_ATOMIC); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##N##_fetch_add(volatile TY *p, TY v, int mo) { (void)mo; sim_point(P_ATOMIC); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##N##_fetch_sub(volatile TY *p, TY v, int mo) { (void)mo; sim_point(P_ATOMIC); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##N##_fetch_and(volatile TY *p, TY v, int mo) { (void)mo; sim_point(P_ATOMIC); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##N##_fetch_or(volatile TY *p, TY v, int mo) { (void)mo; sim_point(P_ATOMIC); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##N##_fetch_xor(volatile TY *p, TY v, int mo) { (void)mo; sim_point(P_ATOMIC); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##N##_fetch_nand(volatile TY *p, TY v, int mo) { (void)mo; sim_point(P_ATOMIC); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile TY *p, TY *e, TY v, int mo, int fmo) { (void)mo; (void)fmo; sim_point(P_ATOMIC); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile TY *p, TY *e, TY v, int mo, int fmo) { (void)mo; (void)fmo; sim_point(P_ATOMIC); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##N##_compare_exchange_val(volatile TY *p, TY e, TY v, int mo, int fmo) { (void)mo; (void)fmo; sim_point(P_ATOMIC); __atomic_compare_exchange_n(p, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; sim_point(P_ATOMIC); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
