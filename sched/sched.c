/* The controlled scheduler: one thread runs at a time, and gives way only at scheduling points.
 *
 * The program under test is compiled with ThreadSanitizer's instrumentation, but linked with this
 * file instead of its run-time library: every access of instrumented code to memory comes by here.
 * An access is a scheduling point when its address is in the conflict set: addresses that two
 * threads have been seen to access, one of them writing. Accesses elsewhere commute with whatever
 * the other threads do, so that giving way before them leads to nothing new. The driver runs a
 * scenario again until the conflict set does not grow any more.
 *
 * Blocking goes by the futex system call, replaced here: a thread that would sleep is set aside
 * until it is woken, and when no thread can run any more the execution is a deadlock. */
#define _GNU_SOURCE
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#define MAXT 8
#define MAXTRACE 60000
#define TAB (1u << 20)
#define CTAB (1u << 12)
#define OUTSZ (1u << 16)
#define ARENA (32u << 20)

enum { RUNNABLE, BLOCKED, TIMED, FINISHED };
enum { OK, DEADLOCK, LIVELOCK, TABLE_FULL, BAD_FREE, OUT_OF_ARENA };

struct step { uint8_t cur, chosen, enabled, kind; };
struct entry { uint64_t key; uint32_t gen; uint8_t rd, wr; };

struct shared {
    /* in */
    uint32_t nprefix;
    uint32_t mask; /* of the part of the table in use */
    uint32_t quantum; /* switch after so many points; 0: only when a thread seems to spin */
    uint8_t prefix[MAXTRACE];
    uint32_t gen;
    uint32_t nconf;
    uint64_t conf[CTAB];
    /* out */
    uint32_t ntrace;
    uint32_t status;
    uint32_t diverged;
    uint64_t points;
    uint64_t accesses;
    uint64_t switches;
    uint64_t futex_waits;
    struct step trace[MAXTRACE];
    uint32_t outlen;
    char out[OUTSZ];
    uint32_t nused;
    uint32_t used[TAB];
    struct entry tab[TAB];
};

struct shared *S;
static int nthreads;
static int state[MAXT];
static uint32_t *waiting[MAXT];
static int arrived;
static int token = -1;
static int streak;
static __thread int me = -1;
static __thread uintptr_t stack_lo, stack_hi;
static char *arena[MAXT + 1];
static size_t arena_used[MAXT + 1];
static int arena_on;

/* ---- system calls, not by way of the functions replaced below ---- */
static long raw(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}

static void sleep_until_not(int *p, int v) {
    while (__atomic_load_n(p, __ATOMIC_SEQ_CST) == v)
        raw(SYS_futex, (long)p, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, v, 0, 0, 0);
}

static void set_and_wake(int *p, int v) {
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);
    raw(SYS_futex, (long)p, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1 << 20, 0, 0, 0);
}

static void give_up(uint32_t status) {
    S->status = status;
    raw(SYS_exit_group, 9, 0, 0, 0, 0, 0);
    __builtin_unreachable();
}

/* ---- choosing ---- */
static unsigned enabled_set(void) {
    unsigned e = 0, t = 0;
    for (int i = 0; i < nthreads; i++) {
        if (state[i] == RUNNABLE) e |= 1u << i;
        if (state[i] == TIMED) t |= 1u << i;
    }
    /* a wait with a time limit ends by itself, once nothing else can happen */
    return e ? e : t;
}

static void pass_to(int c) {
    S->switches++;
    streak = 0;
    set_and_wake(&token, c);
}

static void wait_turn(void) {
    int t;
    while ((t = __atomic_load_n(&token, __ATOMIC_SEQ_CST)) != me) sleep_until_not(&token, t);
}

/* cur is the running thread, or 255 when it cannot go on */
static int choose(unsigned enabled, int cur, int kind) {
    uint32_t n = S->ntrace;
    if (n >= MAXTRACE) give_up(LIVELOCK);
    int c;
    if (n < S->nprefix) {
        c = S->prefix[n];
        if (c >= nthreads || !(enabled >> c & 1)) {
            S->diverged++;
            c = cur != 255 ? cur : __builtin_ctz(enabled);
        }
    } else if (cur != 255 && streak < (S->quantum ? (int)S->quantum : 200)) {
        c = cur;
    } else {
        /* round robin: a thread that waits for another one by spinning gives way */
        int from = cur == 255 ? 0 : cur + 1;
        c = -1;
        for (int i = 0; i < nthreads && c < 0; i++)
            if (enabled >> ((from + i) % nthreads) & 1) c = (from + i) % nthreads;
    }
    S->trace[n] = (struct step){cur, c, enabled, kind | (cur != 255 && streak >= 200 ? 128 : 0)};
    S->ntrace = n + 1;
    return c;
}

static void point(int kind) {
    S->points++;
    unsigned e = enabled_set();
    if (e == 1u << me) return;
    int c = choose(e, me, kind);
    streak++;
    if (c != me) {
        pass_to(c);
        wait_turn();
    }
}

static void stop_running(int how) {
    state[me] = how;
    unsigned e = enabled_set();
    if (!e) {
        for (int i = 0; i < nthreads; i++)
            if (state[i] != FINISHED) give_up(DEADLOCK);
        return; /* all are done */
    }
    int c = e & (e - 1) ? choose(e, 255, how) : __builtin_ctz(e);
    if (c != me) {
        pass_to(c);
        if (how != FINISHED) wait_turn();
    }
}

/* ---- for the driver ---- */
void sched_init(void) {
    S = mmap(0, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (int i = 0; i <= MAXT; i++)
        arena[i] = mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}

struct shared *sched_shared(void) { return S; }
size_t sched_shared_size(void) { return sizeof *S; }
void sched_arena(int on) { arena_on = on; }

/* in the new process, before any thread exists */
void sched_threads(int n) {
    nthreads = n;
    arrived = 0;
    token = -1;
    streak = 0;
    for (int i = 0; i < n; i++) state[i] = RUNNABLE;
    S->ntrace = S->status = S->diverged = S->nused = 0;
    S->gen++;
}

void sched_enter(int t) {
    pthread_attr_t a;
    void *p;
    size_t sz;
    pthread_getattr_np(pthread_self(), &a);
    pthread_attr_getstack(&a, &p, &sz);
    pthread_attr_destroy(&a);
    stack_lo = (uintptr_t)p;
    stack_hi = stack_lo + sz;
    int n = __atomic_add_fetch(&arrived, 1, __ATOMIC_SEQ_CST);
    raw(SYS_futex, (long)&arrived, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1 << 20, 0, 0, 0);
    (void)n;
    int k;
    while ((k = __atomic_load_n(&token, __ATOMIC_SEQ_CST)) != t) sleep_until_not(&token, k);
    me = t;
}

void sched_leave(void) {
    stop_running(FINISHED);
    me = -1;
}

void sched_go(void) {
    int k;
    while ((k = __atomic_load_n(&arrived, __ATOMIC_SEQ_CST)) < nthreads) sleep_until_not(&arrived, k);
    unsigned e = enabled_set();
    int c = e & (e - 1) ? choose(e, 255, FINISHED) : 0;
    set_and_wake(&token, c);
}

int sched_me(void) { return me; }

void sched_point(void) {
    if (me >= 0) point(16);
}

/* new conflicts of the last run go to the conflict set; their number */
int sched_conflicts(void) {
    int fresh = 0;
    for (uint32_t i = 0; i < S->nused; i++) {
        struct entry *t = &S->tab[S->used[i]];
        unsigned all = t->rd | t->wr;
        if (!t->wr || !(all & (all - 1))) continue;
        uint32_t h = (uint32_t)((t->key * 0x9E3779B97F4A7C15ull) >> 52) & (CTAB - 1);
        while (S->conf[h] && S->conf[h] != t->key) h = (h + 1) & (CTAB - 1);
        if (!S->conf[h]) {
            if (S->nconf >= CTAB / 2) return -1;
            S->conf[h] = t->key;
            S->nconf++;
            fresh++;
        }
    }
    return fresh;
}

void sched_forget_conflicts(void) {
    memset(S->conf, 0, sizeof S->conf);
    S->nconf = 0;
}

/* ---- memory ---- */
struct head { uint64_t size, magic; };
#define LIVE 0x11feb10c4b10c4ull
#define FREED 0xdeadb10cdeadb10cull

static void access_(uintptr_t a, size_t n, int write, int kind);

int sched_owns(void *p) {
    for (int i = 0; i <= MAXT; i++)
        if ((char *)p >= arena[i] && (char *)p < arena[i] + ARENA) return 1;
    return 0;
}

void *sched_alloc(size_t n, size_t align) {
    int t = me;
    if (t < 0) {
        if (!arena_on) return 0;
        t = MAXT;
    }
    if (align < 16) align = 16;
    uintptr_t a = (uintptr_t)arena[t] + arena_used[t] + sizeof(struct head);
    a = (a + align - 1) & ~(align - 1);
    size_t used = a + n - (uintptr_t)arena[t];
    if (used > ARENA) give_up(OUT_OF_ARENA);
    arena_used[t] = (used + 15) & ~15ul;
    struct head *h = (struct head *)a - 1;
    h->size = n;
    h->magic = LIVE;
    return (void *)a;
}

/* a block is never used again: reading it after this gives nonsense, freeing it again is noticed */
void sched_free(void *p) {
    struct head *h = (struct head *)p - 1;
    if (me >= 0) access_((uintptr_t)p, h->size, 1, 2);
    if (h->magic != LIVE) give_up(BAD_FREE);
    h->magic = FREED;
    memset(p, 0xdb, h->size);
}

static int conflicting(uint64_t key) {
    if (!S->nconf) return 0;
    uint32_t h = (uint32_t)((key * 0x9E3779B97F4A7C15ull) >> 52) & (CTAB - 1);
    while (S->conf[h]) {
        if (S->conf[h] == key) return 1;
        h = (h + 1) & (CTAB - 1);
    }
    return 0;
}

static void note(uint64_t key, int write) {
    uint32_t h = (uint32_t)((key * 0x9E3779B97F4A7C15ull) >> 44) & S->mask, k = 0;
    struct entry *t = &S->tab[h];
    while (t->gen == S->gen && t->key != key) {
        if (++k == 1000) give_up(TABLE_FULL);
        h = (h + 1) & S->mask;
        t = &S->tab[h];
    }
    if (t->gen != S->gen) {
        *t = (struct entry){key, S->gen, 0, 0};
        S->used[S->nused++] = h;
    }
    if (write)
        t->wr |= 1u << me;
    else
        t->rd |= 1u << me;
}

static void access_(uintptr_t a, size_t n, int write, int kind) {
    if (me < 0 || !n) return;
    if (a >= stack_lo && a < stack_hi) return;
    S->accesses++;
    if (nthreads == 1) return;
    int conf = 0;
    for (uint64_t k = a >> 3; k <= (a + n - 1) >> 3; k++) {
        note(k, write);
        conf |= conflicting(k);
    }
    if (conf) point(kind);
}

/* ---- what the instrumentation calls ---- */
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __tsan_vptr_update(void **p, void *v) { (void)v; access_((uintptr_t)p, 8, 1, 1); }
void __tsan_vptr_read(void **p) { access_((uintptr_t)p, 8, 0, 0); }
void __tsan_read_range(void *p, unsigned long n) { access_((uintptr_t)p, n, 0, 0); }
void __tsan_write_range(void *p, unsigned long n) { access_((uintptr_t)p, n, 1, 1); }

#define PLAIN(N)                                                                        \
    void __tsan_read##N(void *p) { access_((uintptr_t)p, N, 0, 0); }                    \
    void __tsan_write##N(void *p) { access_((uintptr_t)p, N, 1, 1); }                   \
    void __tsan_read_write##N(void *p) { access_((uintptr_t)p, N, 0, 0); access_((uintptr_t)p, N, 1, 1); } \
    void __tsan_unaligned_read##N(void *p) { access_((uintptr_t)p, N, 0, 0); }          \
    void __tsan_unaligned_write##N(void *p) { access_((uintptr_t)p, N, 1, 1); }         \
    void __tsan_unaligned_read_write##N(void *p) { access_((uintptr_t)p, N, 0, 0); access_((uintptr_t)p, N, 1, 1); } \
    void __tsan_volatile_read##N(void *p) { access_((uintptr_t)p, N, 0, 0); }           \
    void __tsan_volatile_write##N(void *p) { access_((uintptr_t)p, N, 1, 1); }          \
    void __tsan_unaligned_volatile_read##N(void *p) { access_((uintptr_t)p, N, 0, 0); } \
    void __tsan_unaligned_volatile_write##N(void *p) { access_((uintptr_t)p, N, 1, 1); }
PLAIN(1) PLAIN(2) PLAIN(4) PLAIN(8) PLAIN(16)

static int any_conflict(uintptr_t a, size_t n) {
    if (!n) return 0;
    for (uint64_t k = a >> 3; k <= (a + n - 1) >> 3; k++)
        if (conflicting(k)) return 1;
    return 0;
}

/* a copy to or from memory in conflict is torn into words */
void *__tsan_memcpy(void *d, const void *s, size_t n) {
    if (me < 0 || !(any_conflict((uintptr_t)d, n) || any_conflict((uintptr_t)s, n))) {
        access_((uintptr_t)s, n, 0, 0);
        access_((uintptr_t)d, n, 1, 1);
        return memcpy(d, s, n);
    }
    for (size_t i = 0; i < n;) {
        size_t k = n - i < 8 ? n - i : 8;
        uint64_t w;
        access_((uintptr_t)s + i, k, 0, 0);
        memcpy(&w, (const char *)s + i, k);
        access_((uintptr_t)d + i, k, 1, 1);
        memcpy((char *)d + i, &w, k);
        i += k;
    }
    return d;
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
    access_((uintptr_t)s, n, 0, 0);
    access_((uintptr_t)d, n, 1, 1);
    return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
    access_((uintptr_t)d, n, 1, 1);
    return memset(d, c, n);
}

typedef unsigned __int128 u128;
#define RMW(B, T, NAME, OP)                                                              \
    T __tsan_atomic##B##_##NAME(volatile T *p, T v, int mo) {                            \
        (void)mo;                                                                        \
        access_((uintptr_t)p, sizeof(T), 1, 3);                                          \
        T old = *p;                                                                      \
        *p = OP;                                                                         \
        return old;                                                                      \
    }
#define ATOMIC(B, T)                                                                     \
    T __tsan_atomic##B##_load(const volatile T *p, int mo) {                             \
        (void)mo;                                                                        \
        access_((uintptr_t)p, sizeof(T), 0, 3);                                          \
        return *p;                                                                       \
    }                                                                                    \
    void __tsan_atomic##B##_store(volatile T *p, T v, int mo) {                          \
        (void)mo;                                                                        \
        access_((uintptr_t)p, sizeof(T), 1, 3);                                          \
        *p = v;                                                                          \
    }                                                                                    \
    RMW(B, T, exchange, v) RMW(B, T, fetch_add, (T)(old + v)) RMW(B, T, fetch_sub, (T)(old - v)) \
    RMW(B, T, fetch_and, (T)(old & v)) RMW(B, T, fetch_or, (T)(old | v)) RMW(B, T, fetch_xor, (T)(old ^ v)) \
    RMW(B, T, fetch_nand, (T)~(old & v))                                                 \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *c, T v, int mo, int fmo) { \
        (void)mo; (void)fmo;                                                             \
        access_((uintptr_t)p, sizeof(T), 1, 3);                                          \
        if (*p == *c) { *p = v; return 1; }                                              \
        *c = *p;                                                                         \
        return 0;                                                                        \
    }                                                                                    \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *c, T v, int mo, int fmo) { \
        return __tsan_atomic##B##_compare_exchange_strong(p, c, v, mo, fmo);             \
    }                                                                                    \
    T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T c, T v, int mo, int fmo) { \
        __tsan_atomic##B##_compare_exchange_strong(p, &c, v, mo, fmo);                   \
        return c;                                                                        \
    }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t) ATOMIC(128, u128)
void __tsan_atomic_thread_fence(int mo) { (void)mo; __sync_synchronize(); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

/* ---- system calls of the standard library ---- */
static long futex(uint32_t *p, int op, uint32_t val, const struct timespec *to) {
    switch (op & FUTEX_CMD_MASK) {
    case FUTEX_WAIT:
    case FUTEX_WAIT_BITSET:
        if (*(volatile uint32_t *)p != val) return -EAGAIN;
        S->futex_waits++;
        waiting[me] = p;
        stop_running(to ? TIMED : BLOCKED);
        if (state[me] == TIMED) {
            state[me] = RUNNABLE;
            return -ETIMEDOUT;
        }
        return 0;
    case FUTEX_WAKE:
    case FUTEX_WAKE_BITSET: {
        long n = 0;
        for (int i = 0; i < nthreads && n < (long)val; i++)
            if ((state[i] == BLOCKED || state[i] == TIMED) && waiting[i] == p) {
                state[i] = RUNNABLE;
                n++;
            }
        return n;
    }
    default:
        return -ENOSYS;
    }
}

long syscall(long n, ...) {
    va_list ap;
    long a[6], r;
    va_start(ap, n);
    for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && me >= 0)
        r = futex((uint32_t *)a[0], (int)a[1], (uint32_t)a[2], (void *)a[3]);
    else
        r = raw(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}

int sched_yield(void) {
    if (me >= 0) {
        streak = 1000;
        point(17);
        return 0;
    }
    return (int)raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
}

int nanosleep(const struct timespec *a, struct timespec *b) {
    if (me >= 0) {
        streak = 1000;
        point(18);
        return 0;
    }
    return (int)raw(SYS_nanosleep, (long)a, (long)b, 0, 0, 0, 0);
}

/* hash keys are the same in every execution */
ssize_t getrandom(void *p, size_t n, unsigned f) {
    (void)f;
    memset(p, 0x5a, n);
    return (ssize_t)n;
}
