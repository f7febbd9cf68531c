// Runtime of the controlled scheduler. The library is compiled with ThreadSanitizer instrumentation, but the
// callbacks end up here: every access of a controlled thread is recorded, and accesses to locations known to
// be in conflict are scheduling points. Exactly one controlled thread runs at a time.
#define _GNU_SOURCE
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <pthread.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>

typedef unsigned char u8;
typedef unsigned int u32;
typedef unsigned long u64;
typedef __uint128_t u128;

#define MAXT 4
#define ARENA (1ul << 30)
#define TABLE (1u << 20)
#define CONFLICTS 4096
#define TRACE (1u << 16)
#define STEP_LIMIT 20000000ul

static long raw(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}

// ---- shared with the parent (and, for the layout, with main.rs)
struct Shared {
    // input
    u32 n_dev;
    u32 dev_step[8];
    u32 dev_thread[8];
    u32 n_conf;
    u64 every;          // > 0: every so many accesses there is a scheduling point, too
    u64 conf[CONFLICTS];
    // output
    u32 steps;          // scheduling points of this run
    u32 deadlock;
    u32 runaway;
    u32 freed;          // the library spawned threads itself: no control
    u32 n_new;          // conflicting granules found in this run
    u32 overflow;
    u64 accesses;
    u64 fresh[CONFLICTS];
    u8 cur[TRACE];      // thread that ran up to this point
    u8 enabled[TRACE];  // mask
    u8 chosen[TRACE];
    u8 free_choice[TRACE]; // 1: the current thread could not go on
};

static struct Shared *S;
static int n_threads;
static volatile u32 turn = 99;       // whose turn it is
static volatile u32 go[MAXT];        // futex words
static volatile u32 main_word;
enum { IDLE, READY, BLOCKED, DONE };
static volatile int state[MAXT];
static volatile u64 wait_addr[MAXT];
static u8 *arena[MAXT];
static size_t used[MAXT];
static u32 free_run;
static u64 same_thread_steps;

struct Ent { u64 key; u8 r, w; u8 pad[6]; };
static struct Ent *table[MAXT];
static u32 *entries[MAXT];
static u32 n_entries[MAXT];

static __thread int self = -1;       // controlled thread number
static __thread int inside;

#define CONF_TABLE 16384
static u64 conf_table[CONF_TABLE];
static int any_conf;

size_t rt_shared_size(void) { return sizeof(struct Shared); }

static int conf_has(u64 g) {
    u32 h = (u32)((g * 0x9E3779B97F4A7C15ul) >> 50) & (CONF_TABLE - 1);
    while (conf_table[h]) {
        if (conf_table[h] == g) return 1;
        h = (h + 1) & (CONF_TABLE - 1);
    }
    return 0;
}
static void conf_add(u64 g) {
    u32 h = (u32)((g * 0x9E3779B97F4A7C15ul) >> 50) & (CONF_TABLE - 1);
    while (conf_table[h] && conf_table[h] != g) h = (h + 1) & (CONF_TABLE - 1);
    conf_table[h] = g;
}

// called once in the parent: the mappings are inherited, so that addresses agree in all runs
void rt_init(void) {
    for (int t = 0; t < MAXT; t++) {
        arena[t] = mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        table[t] = mmap(0, TABLE * sizeof(struct Ent), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        entries[t] = mmap(0, TABLE * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (entries[t] == MAP_FAILED || arena[t] == MAP_FAILED || table[t] == MAP_FAILED) abort();
    }
}

// ---- allocation: controlled threads never get memory that was used before
void *rt_alloc(size_t size, size_t align) {
    if (inside && !free_run) {
        int t = self;
        size_t o = (used[t] + align - 1) & ~(align - 1);
        o = (o + 15) & ~(size_t)15;
        if (o + size > ARENA) return 0;
        used[t] = o + size;
        return arena[t] + o;
    }
    void *p = 0;
    if (align <= 16) return malloc(size ? size : 1);
    return posix_memalign(&p, align, size) ? 0 : p;
}
void rt_free(void *p) {
    for (int t = 0; t < MAXT; t++)
        if ((u8 *)p >= arena[t] && (u8 *)p < arena[t] + ARENA) return;
    free(p);
}

// ---- scheduling
static void wait_for_turn(int t) {
    while (!go[t]) raw(SYS_futex, (long)&go[t], FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
    go[t] = 0;
}
static void give(int t) {
    turn = t;
    go[t] = 1;
    raw(SYS_futex, (long)&go[t], FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}
static void wake_main(void) {
    main_word = 1;
    raw(SYS_futex, (long)&main_word, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}
static u32 enabled_mask(void) {
    u32 m = 0;
    for (int t = 0; t < n_threads; t++) if (state[t] == READY) m |= 1u << t;
    return m;
}
// the thread that goes on; cur = -1: start
static int choose(int cur, int can_continue) {
    u32 en = enabled_mask();
    u32 step = S->steps++;
    int next = -1;
    if (can_continue && (en >> cur & 1)) next = cur;
    else for (int t = 0; t < n_threads; t++) if (en >> t & 1) { next = t; break; }
    for (u32 k = 0; k < S->n_dev; k++)
        if (S->dev_step[k] == step && (en >> S->dev_thread[k] & 1)) next = S->dev_thread[k];
    // fairness: a thread that spins for very long is interrupted
    if (next == cur) {
        if (++same_thread_steps > 200000) {
            for (int t = 0; t < n_threads; t++) if (t != cur && (en >> t & 1)) next = t;
            same_thread_steps = 0;
        }
    } else same_thread_steps = 0;
    if (step < TRACE) {
        S->cur[step] = cur < 0 ? 255 : cur;
        S->enabled[step] = en;
        S->chosen[step] = next < 0 ? 255 : next;
        S->free_choice[step] = !can_continue;
    }
    return next;
}
static void point(void) {
    int t = self;
    if (S->steps > STEP_LIMIT) { S->runaway = 1; _exit(77); }
    int next = choose(t, 1);
    if (next != t) {
        give(next);
        wait_for_turn(t);
    }
}
static void leave(int t) {
    // t cannot go on (blocked or done)
    int next = choose(t, 0);
    if (next >= 0) { give(next); return; }
    for (int k = 0; k < n_threads; k++)
        if (state[k] == BLOCKED) { S->deadlock = 1; _exit(78); }
    wake_main();
}
static void all_free(void) {
    // the library started threads of its own: let everything run uncontrolled
    free_run = 1;
    S->freed = 1;
    for (int t = 0; t < n_threads; t++)
        if (t != self && state[t] == READY) { go[t] = 1; raw(SYS_futex, (long)&go[t], FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0); }
        else if (t != self && state[t] == BLOCKED) { state[t] = READY; go[t] = 1; raw(SYS_futex, (long)&go[t], FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0); }
}

// child, before the threads are started
void rt_setup(void *shared, int n) {
    S = shared;
    n_threads = n;
    any_conf = S->n_conf > 0;
    for (u32 k = 0; k < S->n_conf; k++) conf_add(S->conf[k]);
    for (int t = 0; t < n; t++) state[t] = IDLE;
}
void rt_enter(int t) {
    self = t;
    state[t] = READY;
    wait_for_turn(t);
    inside = 1;
}
static volatile int left;
void rt_exit(void) {
    inside = 0;
    int t = self;
    state[t] = DONE;
    if (free_run) {
        if (__atomic_add_fetch(&left, 1, __ATOMIC_SEQ_CST) >= 1) {
            int all = 1;
            for (int k = 0; k < n_threads; k++) if (state[k] != DONE) all = 0;
            if (all) wake_main();
        }
        return;
    }
    leave(t);
}
static void compare_tables(void);
void rt_run(void) {
    for (;;) {
        int all = 1;
        for (int t = 0; t < n_threads; t++) if (state[t] == IDLE) all = 0;
        if (all) break;
        usleep(20);
    }
    give(choose(-1, 0));
    while (!main_word) raw(SYS_futex, (long)&main_word, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
    if (!free_run) compare_tables();
}

// ---- recording
static void note(int t, u64 g, u8 mask, int write) {
    struct Ent *tab = table[t];
    u32 h = (u32)((g * 0x9E3779B97F4A7C15ul) >> 44) & (TABLE - 1);
    for (u32 k = 0; k < TABLE; k++) {
        struct Ent *e = &tab[(h + k) & (TABLE - 1)];
        if (e->key == 0) { e->key = g; entries[t][n_entries[t]++] = (h + k) & (TABLE - 1); }
        if (e->key == g) {
            if (write) e->w |= mask; else e->r |= mask;
            return;
        }
        if (k > 4000) break;
    }
    S->overflow = 1;
}
static struct Ent *find(int t, u64 g) {
    struct Ent *tab = table[t];
    u32 h = (u32)((g * 0x9E3779B97F4A7C15ul) >> 44) & (TABLE - 1);
    for (u32 k = 0; k < TABLE; k++) {
        struct Ent *e = &tab[(h + k) & (TABLE - 1)];
        if (e->key == g) return e;
        if (e->key == 0 || k > 4000) return 0;
    }
    return 0;
}
static void compare_tables(void) {
    for (int t = 0; t < n_threads; t++)
        for (u32 k = 0; k < n_entries[t]; k++) {
            struct Ent *e = &table[t][entries[t][k]];
            for (int o = t + 1; o < n_threads; o++) {
                struct Ent *f = find(o, e->key);
                if (!f) continue;
                if ((e->w & (f->r | f->w)) || (f->w & e->r)) {
                    if (S->n_new < CONFLICTS) S->fresh[S->n_new++] = e->key;
                    else S->overflow = 1;
                    break;
                }
            }
        }
}
static void on(u64 a, u64 size, int write) {
    if (!inside || free_run) return;
    S->accesses++;
    int due = S->every && S->accesses % S->every == 0;
    if (size == 0) { if (due) point(); return; }
    u64 g0 = a >> 3, g1 = (a + size - 1) >> 3;
    int hit = 0;
    for (u64 g = g0; g <= g1; g++) {
        u8 m = 255;
        if (g == g0) m &= (u8)(255 << (a & 7));
        if (g == g1) { u64 end = (a + size - 1) & 7; m &= (u8)(255 >> (7 - end)); }
        note(self, g, m, write);
        if (any_conf && !hit && conf_has(g)) hit = 1;
    }
    if (hit || due) point();
}

#define RW(N) \
    void __tsan_read##N(void *p) { on((u64)p, N, 0); } \
    void __tsan_write##N(void *p) { on((u64)p, N, 1); } \
    void __tsan_unaligned_read##N(void *p) { on((u64)p, N, 0); } \
    void __tsan_unaligned_write##N(void *p) { on((u64)p, N, 1); } \
    void __tsan_volatile_read##N(void *p) { on((u64)p, N, 0); } \
    void __tsan_volatile_write##N(void *p) { on((u64)p, N, 1); } \
    void __tsan_unaligned_volatile_read##N(void *p) { on((u64)p, N, 0); } \
    void __tsan_unaligned_volatile_write##N(void *p) { on((u64)p, N, 1); } \
    void __tsan_read_write##N(void *p) { on((u64)p, N, 0); on((u64)p, N, 1); } \
    void __tsan_unaligned_read_write##N(void *p) { on((u64)p, N, 0); on((u64)p, N, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)

void __tsan_read_range(void *p, u64 n) { on((u64)p, n, 0); }
void __tsan_write_range(void *p, u64 n) { on((u64)p, n, 1); }
void __tsan_vptr_update(void **p, void *v) { (void)v; on((u64)p, 8, 1); }
void __tsan_vptr_read(void **p) { on((u64)p, 8, 0); }
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void *__tsan_memcpy(void *d, const void *s, size_t n) { on((u64)s, n, 0); on((u64)d, n, 1); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { on((u64)s, n, 0); on((u64)d, n, 1); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { on((u64)d, n, 1); return memset(d, c, n); }

#define SC __ATOMIC_SEQ_CST
#define AT(N, T) \
    T __tsan_atomic##N##_load(const volatile T *p, int o) { (void)o; on((u64)p, N / 8, 0); return __atomic_load_n(p, SC); } \
    void __tsan_atomic##N##_store(volatile T *p, T v, int o) { (void)o; on((u64)p, N / 8, 1); __atomic_store_n(p, v, SC); } \
    T __tsan_atomic##N##_exchange(volatile T *p, T v, int o) { (void)o; on((u64)p, N / 8, 1); return __atomic_exchange_n(p, v, SC); } \
    T __tsan_atomic##N##_fetch_add(volatile T *p, T v, int o) { (void)o; on((u64)p, N / 8, 1); return __atomic_fetch_add(p, v, SC); } \
    T __tsan_atomic##N##_fetch_sub(volatile T *p, T v, int o) { (void)o; on((u64)p, N / 8, 1); return __atomic_fetch_sub(p, v, SC); } \
    T __tsan_atomic##N##_fetch_and(volatile T *p, T v, int o) { (void)o; on((u64)p, N / 8, 1); return __atomic_fetch_and(p, v, SC); } \
    T __tsan_atomic##N##_fetch_or(volatile T *p, T v, int o) { (void)o; on((u64)p, N / 8, 1); return __atomic_fetch_or(p, v, SC); } \
    T __tsan_atomic##N##_fetch_xor(volatile T *p, T v, int o) { (void)o; on((u64)p, N / 8, 1); return __atomic_fetch_xor(p, v, SC); } \
    T __tsan_atomic##N##_fetch_nand(volatile T *p, T v, int o) { (void)o; on((u64)p, N / 8, 1); return __atomic_fetch_nand(p, v, SC); } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *e, T v, int o, int f) { (void)o; (void)f; on((u64)p, N / 8, 1); return __atomic_compare_exchange_n(p, e, v, 0, SC, SC); } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *e, T v, int o, int f) { (void)o; (void)f; on((u64)p, N / 8, 1); return __atomic_compare_exchange_n(p, e, v, 0, SC, SC); } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T *p, T e, T v, int o, int f) { (void)o; (void)f; on((u64)p, N / 8, 1); __atomic_compare_exchange_n(p, &e, v, 0, SC, SC); return e; }
AT(8, u8) AT(16, unsigned short) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int o) { (void)o; __atomic_thread_fence(SC); }
void __tsan_atomic_signal_fence(int o) { (void)o; }

// ---- blocking
static int compare(const u8 *a, const u8 *b, size_t n) {
    on((u64)a, n, 0);
    on((u64)b, n, 0);
    for (size_t k = 0; k < n; k++) if (a[k] != b[k]) return a[k] < b[k] ? -1 : 1;
    return 0;
}
int memcmp(const void *a, const void *b, size_t n) { return compare(a, b, n); }
int bcmp(const void *a, const void *b, size_t n) { return compare(a, b, n); }

long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && inside && !free_run) {
        int op = b & 127;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            on((u64)a, 4, 0);
            if (*(volatile u32 *)a != (u32)c) { errno = EAGAIN; return -1; }
            if (d && !(enabled_mask() & ~(1u << self))) { errno = ETIMEDOUT; return -1; }
            state[self] = BLOCKED;
            wait_addr[self] = (u64)a;
            leave(self);
            wait_for_turn(self);
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            long k = 0;
            for (int t = 0; t < n_threads && k < c; t++)
                if (state[t] == BLOCKED && wait_addr[t] == (u64)a) { state[t] = READY; k++; }
            on((u64)a, 4, 0);
            return k;
        }
    }
    long r = raw(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = -r; return -1; }
    return r;
}
int sched_yield(void) {
    if (inside && !free_run) {
        // let somebody else run
        int t = self;
        u32 en = enabled_mask() & ~(1u << t);
        if (en) {
            state[t] = IDLE;
            int next = choose(t, 0);
            state[t] = READY;
            give(next);
            wait_for_turn(t);
        }
        return 0;
    }
    return raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
}
ssize_t getrandom(void *p, size_t n, unsigned flags) {
    (void)flags;
    static u64 x = 0x1234567;
    for (size_t k = 0; k < n; k++) { x = x * 6364136223846793005ul + 1442695040888963407ul; ((u8 *)p)[k] = x >> 56; }
    return n;
}
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
    static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
    if (!real) real = dlsym(RTLD_NEXT, "pthread_create");
    if (inside && !free_run) all_free();
    return real(t, a, f, arg);
}
