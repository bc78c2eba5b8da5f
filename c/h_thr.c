/* Interleavings (C09): h_thr MODE so set n gen LEVEL.   MODE: kem | func | rand
 * The library is compiled with -fsanitize=thread but linked against the runtime below, which
 *  - runs real threads one at a time and decides at every scheduling point which one continues,
 *  - enumerates all decisions depth first within a preemption bound, replaying prefixes,
 *  - keeps vector clocks and reports every pair of conflicting accesses not ordered by synchronisation.
 * Scheduling points: accesses to memory that two threads use and one writes (found iteratively), atomics, locks,
 * system calls and backend calls; in mode func every function entry and external call as well. */
#include "h.h"
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/random.h>

#define T 3
static lib_t L;
static int lv, fmode;
static uintptr_t lo_, hi_;
typedef struct { uintptr_t a; size_t n; uint8_t *s0, *s1; } seg_t;
static seg_t seg[8]; static int nseg;

/* ------------------------------------------------------------------ threads and schedule */
enum { RUN, BLOCK, DONE };
static struct thr {
    sem_t go; pthread_t th; int st, spin; void *obj; uint32_t vc[T]; uint8_t *stk; size_t stksz;
} thr[T];
static int nthr; static __thread int me = -1;
#define MAXPT 400000
typedef struct { uint8_t n, run, env; uint16_t ch; int pre, envs; } pt_t;
static pt_t pts[MAXPT]; static long npt; static uint16_t pref[MAXPT]; static long npref;
static int cost_pre, cost_env, bound_pre, bound_env;
static long acc_count, points_total, executions, races, switches, stride = 1, fcount, horizon;
static const char *bad; static char badbuf[400];
static sem_t main_go;
#define RA ((uintptr_t)__builtin_return_address(0))
static inline int fromlib(uintptr_t ra) { return me >= 0 && ra >= lo_ && ra < hi_; }

static void diverged(void) { printf("FAIL (explorer) :: replay diverged\n"); fflush(stdout); _exit(3); }
static int choose(int n, int run, int env)
{
    int c = 0;
    if (npt >= MAXPT) return 0;
    if (npt < npref) { c = pref[npt]; if (c >= n) diverged(); }
    pts[npt] = (pt_t){ (uint8_t)n, (uint8_t)run, (uint8_t)env, (uint16_t)c, cost_pre, cost_env };
    npt++;
    if (c) { if (env) cost_env++; else if (run) cost_pre++; }
    return c;
}
static void go(int t) { switches++; sem_post(&thr[t].go); }
static void wait_turn(void) { while (sem_wait(&thr[me].go)) {} }
static void point(void)
{
    if (me < 0 || nthr < 2) return;
    points_total++;
    if (++horizon > 3000000) { if (!bad) bad = "no progress (horizon reached)"; return; }
    int en[T], k = 0; en[k++] = me;
    for (int i = 0; i < nthr; i++) if (i != me && thr[i].st == RUN) en[k++] = i;
    if (k < 2) return;
    int c = choose(k, 1, 0);
    if (c) { go(en[c]); wait_turn(); }
}
static void yield_other(void)
{
    if (me < 0) return;
    for (int d = 1; d < nthr; d++) { int i = (me + d) % nthr; if (thr[i].st == RUN) { go(i); wait_turn(); return; } }
}
static void leave(void)                       /* the running thread cannot continue (blocked or finished) */
{
    int en[T], k = 0;
    for (int i = 0; i < nthr; i++) if (thr[i].st == RUN) en[k++] = i;
    if (!k) {
        int blocked = 0;
        for (int i = 0; i < nthr; i++) blocked |= thr[i].st == BLOCK;
        if (blocked) { printf("FAIL %s :: deadlock: all remaining threads are blocked\n", "threads"); fflush(stdout); _exit(1); }
        sem_post(&main_go); return;
    }
    int c = k > 1 ? choose(k, 0, 0) : 0;
    go(en[c]);
}
static void spin(void) { if (++thr[me].spin > 400) { thr[me].spin = 0; yield_other(); } }

/* ------------------------------------------------------------------ shared memory, vector clocks */
typedef struct { uint32_t w[8]; uint8_t wt[8]; uint32_t r[8][T]; uintptr_t wpc, rpc[T]; } gran_t;
#define HS (1u << 17)
static struct { uintptr_t g; uint32_t gen; uint8_t rd, wr; gran_t x; } *ht; static uint32_t gen, ngran;
static uintptr_t conf[65536]; static long nconf, nconf_total; static int grew;
static int is_conf(uintptr_t g)
{
    uint32_t h = (uint32_t)((g * 0x9E3779B97F4A7C15ull) >> 48);
    for (int i = 0; i < 64; i++, h = (h + 1) & 65535) { if (!conf[h]) return 0; if (conf[h] == g) return 1; }
    return 0;
}
static void add_conf(uintptr_t g)
{
    uint32_t h = (uint32_t)((g * 0x9E3779B97F4A7C15ull) >> 48);
    for (int i = 0; i < 64; i++, h = (h + 1) & 65535) { if (conf[h] == g) return; if (!conf[h]) { conf[h] = g; nconf++; grew = 1; return; } }
}
static void describe(char *o, size_t n, uintptr_t pc)
{
    Dl_info d;
    if (dladdr((void *)pc, &d) && d.dli_fbase) snprintf(o, n, "%s (offset 0x%lx)", d.dli_sname ? d.dli_sname : "?", (unsigned long)(pc - (uintptr_t)d.dli_fbase));
    else snprintf(o, n, "?");
}
static void race(uintptr_t a, uintptr_t p1, uintptr_t p2)
{
    races++;
    if (bad) return;
    char b1[120], b2[120];
    describe(b1, 120, p1); describe(b2, 120, p2);
    snprintf(badbuf, sizeof badbuf, "data race on %s memory between %s and %s", a >= lo_ && a < hi_ ? "static" : "shared", b1, b2);
    bad = badbuf;
}
static void access1(uintptr_t g, unsigned m, int wr, uintptr_t pc)       /* granule g, byte mask m */
{
    uint32_t h = (uint32_t)((g * 0x9E3779B97F4A7C15ull) >> 47) & (HS - 1);
    while (ht[h].gen == gen && ht[h].g != g) h = (h + 1) & (HS - 1);
    if (ht[h].gen != gen) {
        if (ngran > HS / 2) return;
        ngran++; memset(&ht[h], 0, sizeof ht[h]); ht[h].g = g; ht[h].gen = gen;
    }
    gran_t *x = &ht[h].x;
    if (wr) ht[h].wr |= 1 << me; else ht[h].rd |= 1 << me;
    if ((ht[h].wr && (ht[h].wr & (ht[h].wr - 1))) || (ht[h].wr && (ht[h].rd & ~ht[h].wr))) add_conf(g);
    for (int i = 0; i < 8; i++) if (m >> i & 1) {
        if (x->w[i] && x->wt[i] != me && x->w[i] > thr[me].vc[x->wt[i]]) race(g * 8 + i, x->wpc, pc);
        if (wr) for (int t = 0; t < nthr; t++) if (t != me && x->r[i][t] > thr[me].vc[t]) race(g * 8 + i, x->rpc[t], pc);
        if (wr) { x->w[i] = thr[me].vc[me]; x->wt[i] = me; x->wpc = pc; } else { x->r[i][me] = thr[me].vc[me]; x->rpc[me] = pc; }
    }
}
static void acc(uintptr_t a, size_t n, int wr, uintptr_t pc)
{
    if (me < 0 || !n) return;
    if (a >= (uintptr_t)thr[me].stk && a < (uintptr_t)thr[me].stk + thr[me].stksz) return;
    if (a >= lo_ && a < hi_ && !(nseg && a >= seg[0].a && a < seg[nseg - 1].a + seg[nseg - 1].n)) return;      /* constants */
    acc_count++;
    for (uintptr_t g = a / 8; g <= (a + n - 1) / 8; g++) {
        unsigned m = 0xFF;
        if (g == a / 8) m &= 0xFF << (a % 8);
        if (g == (a + n - 1) / 8) m &= 0xFF >> (7 - (a + n - 1) % 8);
        if (nconf && is_conf(g)) point();
        access1(g, m & 0xFF, wr, pc);
    }
}
/* synchronisation objects */
#define NSO 64
static struct so { void *a; int owner, depth, rdr, once; uint32_t vc[T]; } so[NSO]; static int nso;
static struct so *sobj(const void *a)
{
    for (int i = 0; i < nso; i++) if (so[i].a == a) return &so[i];
    if (nso == NSO) return &so[NSO - 1];
    memset(&so[nso], 0, sizeof so[0]); so[nso].a = (void *)a; so[nso].owner = -1;
    return &so[nso++];
}
static void acquire(struct so *o) { for (int i = 0; i < T; i++) if (o->vc[i] > thr[me].vc[i]) thr[me].vc[i] = o->vc[i]; }
static void release(struct so *o) { for (int i = 0; i < T; i++) if (thr[me].vc[i] > o->vc[i]) o->vc[i] = thr[me].vc[i]; thr[me].vc[me]++; }
static void wake(void *o) { for (int i = 0; i < nthr; i++) if (thr[i].st == BLOCK && thr[i].obj == o) thr[i].st = RUN; }
static void block(void *o) { thr[me].st = BLOCK; thr[me].obj = o; leave(); wait_turn(); }

/* ------------------------------------------------------------------ compiler callbacks */
static void fpoint(void) { if (me >= 0 && fmode && fcount++ % stride == 0) point(); }
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; fpoint(); }
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __tsan_vptr_update(void **a, void *b) { (void)a; (void)b; }
void __tsan_vptr_read(void **a) { (void)a; }
#define RW(n) void __tsan_read##n(void *a) { acc((uintptr_t)a, n, 0, RA); } void __tsan_write##n(void *a) { acc((uintptr_t)a, n, 1, RA); } \
    void __tsan_unaligned_read##n(void *a) { acc((uintptr_t)a, n, 0, RA); } void __tsan_unaligned_write##n(void *a) { acc((uintptr_t)a, n, 1, RA); } \
    void __tsan_volatile_read##n(void *a) { acc((uintptr_t)a, n, 0, RA); if (me >= 0) spin(); } void __tsan_volatile_write##n(void *a) { acc((uintptr_t)a, n, 1, RA); } \
    void __tsan_unaligned_volatile_read##n(void *a) { acc((uintptr_t)a, n, 0, RA); } void __tsan_unaligned_volatile_write##n(void *a) { acc((uintptr_t)a, n, 1, RA); } \
    void __tsan_read_write##n(void *a) { acc((uintptr_t)a, n, 0, RA); acc((uintptr_t)a, n, 1, RA); } void __tsan_unaligned_read_write##n(void *a) { acc((uintptr_t)a, n, 0, RA); acc((uintptr_t)a, n, 1, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { acc((uintptr_t)a, n, 0, RA); }
void __tsan_write_range(void *a, size_t n) { acc((uintptr_t)a, n, 1, RA); }
static int acqmo(int mo) { return mo != 0 && mo != 3; }
static int relmo(int mo) { return mo >= 3; }
static void at_pre(void) { if (me >= 0) point(); }
static void at_post(const void *a, int rd, int wr, int mo) { if (me >= 0) { struct so *o = sobj(a); if (rd && acqmo(mo)) acquire(o); if (wr && relmo(mo)) release(o); if (!wr) spin(); } }
#define AT(B, U) \
U __tsan_atomic##B##_load(const volatile U *a, int mo) { at_pre(); U v = __atomic_load_n(a, 5); at_post((void *)a, 1, 0, mo); return v; } \
void __tsan_atomic##B##_store(volatile U *a, U v, int mo) { at_pre(); __atomic_store_n(a, v, 5); at_post((void *)a, 0, 1, mo); } \
U __tsan_atomic##B##_exchange(volatile U *a, U v, int mo) { at_pre(); U r = __atomic_exchange_n(a, v, 5); at_post((void *)a, 1, 1, mo); return r; } \
U __tsan_atomic##B##_fetch_add(volatile U *a, U v, int mo) { at_pre(); U r = __atomic_fetch_add(a, v, 5); at_post((void *)a, 1, 1, mo); return r; } \
U __tsan_atomic##B##_fetch_sub(volatile U *a, U v, int mo) { at_pre(); U r = __atomic_fetch_sub(a, v, 5); at_post((void *)a, 1, 1, mo); return r; } \
U __tsan_atomic##B##_fetch_and(volatile U *a, U v, int mo) { at_pre(); U r = __atomic_fetch_and(a, v, 5); at_post((void *)a, 1, 1, mo); return r; } \
U __tsan_atomic##B##_fetch_or(volatile U *a, U v, int mo) { at_pre(); U r = __atomic_fetch_or(a, v, 5); at_post((void *)a, 1, 1, mo); return r; } \
U __tsan_atomic##B##_fetch_xor(volatile U *a, U v, int mo) { at_pre(); U r = __atomic_fetch_xor(a, v, 5); at_post((void *)a, 1, 1, mo); return r; } \
U __tsan_atomic##B##_fetch_nand(volatile U *a, U v, int mo) { at_pre(); U r = __atomic_fetch_nand(a, v, 5); at_post((void *)a, 1, 1, mo); return r; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile U *a, U *c, U v, int mo, int fmo) { at_pre(); int r = __atomic_compare_exchange_n(a, c, v, 0, 5, 5); at_post((void *)a, 1, r, r ? mo : fmo); return r; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile U *a, U *c, U v, int mo, int fmo) { at_pre(); int r = __atomic_compare_exchange_n(a, c, v, 0, 5, 5); at_post((void *)a, 1, r, r ? mo : fmo); return r; } \
U __tsan_atomic##B##_compare_exchange_val(volatile U *a, U c, U v, int mo, int fmo) { at_pre(); int r = __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); at_post((void *)a, 1, r, r ? mo : fmo); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; if (me >= 0) { struct so *o = sobj(&so); point(); acquire(o); release(o); } }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

/* ------------------------------------------------------------------ interposed functions */
#define NEXT(ret, name, proto) static ret (*r_) proto; if (!r_) { r_ = (ret (*) proto)dlsym(RTLD_NEXT, name); }
static inline void *raw_cpy(void *d, const void *s, size_t n) { void *r = d; __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
static inline void *raw_move(void *d, const void *s, size_t n)
{
    if ((uintptr_t)d - (uintptr_t)s >= n) return raw_cpy(d, s, n);
    uint8_t *x = d; const uint8_t *y = s; while (n--) { x[n] = y[n]; __asm__ volatile("" : : : "memory"); }
    return d;
}
static inline void *raw_set(void *d, int c, size_t n) { void *r = d; __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r; }
#define CPY(nm) void *nm(void *d, const void *s, size_t n) { if (fromlib(RA)) { fpoint(); acc((uintptr_t)s, n, 0, RA); acc((uintptr_t)d, n, 1, RA); } return raw_move(d, s, n); }
CPY(memcpy) CPY(memmove) CPY(__tsan_memcpy) CPY(__tsan_memmove)
void *__memcpy_chk(void *d, const void *s, size_t n, size_t k) { (void)k; if (fromlib(RA)) { acc((uintptr_t)s, n, 0, RA); acc((uintptr_t)d, n, 1, RA); } return raw_move(d, s, n); }
void *memset(void *d, int c, size_t n) { if (fromlib(RA)) { fpoint(); acc((uintptr_t)d, n, 1, RA); } return raw_set(d, c, n); }
void *__tsan_memset(void *d, int c, size_t n) { if (fromlib(RA)) { fpoint(); acc((uintptr_t)d, n, 1, RA); } return raw_set(d, c, n); }
void *__memset_chk(void *d, int c, size_t n, size_t k) { (void)k; if (fromlib(RA)) acc((uintptr_t)d, n, 1, RA); return raw_set(d, c, n); }

/* memory taken by the library itself: never reused within a run */
static uint8_t *arena; static size_t arena_at; static const size_t ARENA = (size_t)1 << 34;
extern void *__libc_malloc(size_t); extern void *__libc_calloc(size_t, size_t); extern void *__libc_realloc(void *, size_t); extern void __libc_free(void *);
extern void *__libc_memalign(size_t, size_t);
static int in_arena(void *p) { return arena && (uint8_t *)p >= arena && (uint8_t *)p < arena + ARENA; }
static void *ar(size_t n, size_t al) { arena_at = (arena_at + al - 1) & -al; void *p = arena + arena_at; arena_at += n + 16; return p; }
void *malloc(size_t n) { if (fromlib(RA) && arena) { size_t *p = ar(n + 16, 64); p[0] = n; p += 2; return p; } return __libc_malloc(n); }
void *calloc(size_t n, size_t k) { if (fromlib(RA) && arena) { size_t *p = ar(n * k + 16, 64); p[0] = n * k; p += 2; raw_set(p, 0, n * k); return p; } return __libc_calloc(n, k); }
void *realloc(void *q, size_t n) { if (in_arena(q)) { size_t *p = ar(n + 16, 64); p[0] = n; p += 2; size_t o = ((size_t *)q)[-2]; raw_cpy(p, q, o < n ? o : n); return p; } return __libc_realloc(q, n); }
void free(void *p) { if (p && !in_arena(p)) __libc_free(p); }
int posix_memalign(void **o, size_t al, size_t n) { if (fromlib(RA) && arena) { *o = ar(n, al < 64 ? 64 : al); return 0; } *o = __libc_memalign(al, n); return *o ? 0 : ENOMEM; }
void *aligned_alloc(size_t al, size_t n) { if (fromlib(RA) && arena) return ar(n, al < 64 ? 64 : al); return __libc_memalign(al, n); }

/* locks */
static int m_lock(void *m, int rec)
{
    point();
    struct so *o = sobj(m);
    while (o->owner != -1 && !(rec && o->owner == me)) block(m);
    if (o->rdr) while (o->rdr) block(m);
    o->owner = me; o->depth++; acquire(o);
    return 0;
}
static int m_unlock(void *m)
{
    struct so *o = sobj(m);
    release(o);
    if (o->rdr) { if (!--o->rdr) wake(m); }
    else if (--o->depth <= 0) { o->depth = 0; o->owner = -1; wake(m); }
    point();
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) { if (fromlib(RA)) return m_lock(m, m->__data.__kind & 1); NEXT(int, "pthread_mutex_lock", (pthread_mutex_t *)) return r_(m); }
int pthread_mutex_trylock(pthread_mutex_t *m) { if (fromlib(RA)) { point(); if (sobj(m)->owner != -1) { spin(); return EBUSY; } return m_lock(m, 0); } NEXT(int, "pthread_mutex_trylock", (pthread_mutex_t *)) return r_(m); }
int pthread_mutex_unlock(pthread_mutex_t *m) { if (fromlib(RA)) return m_unlock(m); NEXT(int, "pthread_mutex_unlock", (pthread_mutex_t *)) return r_(m); }
int pthread_spin_lock(pthread_spinlock_t *m) { if (fromlib(RA)) return m_lock((void *)m, 0); NEXT(int, "pthread_spin_lock", (pthread_spinlock_t *)) return r_(m); }
int pthread_spin_unlock(pthread_spinlock_t *m) { if (fromlib(RA)) return m_unlock((void *)m); NEXT(int, "pthread_spin_unlock", (pthread_spinlock_t *)) return r_(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) { if (fromlib(RA)) return m_lock(m, 0); NEXT(int, "pthread_rwlock_wrlock", (pthread_rwlock_t *)) return r_(m); }
int pthread_rwlock_rdlock(pthread_rwlock_t *m) { if (fromlib(RA)) { point(); struct so *o = sobj(m); while (o->owner != -1) block(m); o->rdr++; acquire(o); return 0; } NEXT(int, "pthread_rwlock_rdlock", (pthread_rwlock_t *)) return r_(m); }
int pthread_rwlock_unlock(pthread_rwlock_t *m) { if (fromlib(RA)) return m_unlock(m); NEXT(int, "pthread_rwlock_unlock", (pthread_rwlock_t *)) return r_(m); }
static int once(void *c, void (*f)(void))
{
    point();
    struct so *o = sobj(c);
    while (o->once == 1) block(c);
    if (!o->once) { o->once = 1; f(); o->once = 2; release(o); wake(c); }
    acquire(o); point();
    return 0;
}
int pthread_once(pthread_once_t *c, void (*f)(void)) { if (fromlib(RA)) return once(c, f); NEXT(int, "pthread_once", (pthread_once_t *, void (*)(void))) return r_(c, f); }
void call_once(void *c, void (*f)(void)) { if (fromlib(RA)) { once(c, f); return; } NEXT(void, "call_once", (void *, void (*)(void))) r_(c, f); }
int mtx_lock(void *m) { if (fromlib(RA)) return m_lock(m, 0); NEXT(int, "mtx_lock", (void *)) return r_(m); }
int mtx_unlock(void *m) { if (fromlib(RA)) return m_unlock(m); NEXT(int, "mtx_unlock", (void *)) return r_(m); }
int sched_yield(void) { if (fromlib(RA)) { point(); yield_other(); return 0; } NEXT(int, "sched_yield", (void)) return r_(); }
int usleep(useconds_t u) { if (fromlib(RA)) { point(); yield_other(); return 0; } NEXT(int, "usleep", (useconds_t)) return r_(u); }
int nanosleep(const struct timespec *a, struct timespec *b) { if (fromlib(RA)) { point(); yield_other(); return 0; } NEXT(int, "nanosleep", (const struct timespec *, struct timespec *)) return r_(a, b); }

/* backend */
#define REAL(ret, name, proto) static ret (*r_) proto; if (!r_) { r_ = (ret (*) proto)dlsym(RTLD_NEXT, name); if (!r_) r_ = (ret (*) proto)dlsym(dlopen("libcrypto.so.3", RTLD_NOW), name); }
static void *dead[4096]; static int ndead;
static void ctx_acc(void *c) { if (me >= 0) { fpoint(); acc((uintptr_t)c, 8, 1, lo_); } }
void EVP_CIPHER_CTX_free(void *c) { REAL(void, "EVP_CIPHER_CTX_free", (void *)) if (me >= 0) { ctx_acc(c); if (ndead < 4096) dead[ndead++] = c; return; } r_(c); }
int EVP_EncryptInit_ex(void *c, const void *t, void *e, const unsigned char *k, const unsigned char *iv) { REAL(int, "EVP_EncryptInit_ex", (void *, const void *, void *, const unsigned char *, const unsigned char *)) ctx_acc(c); if (me >= 0 && k) acc((uintptr_t)k, 16, 0, RA); return r_(c, t, e, k, iv); }
int EVP_EncryptUpdate(void *c, unsigned char *o, int *ol, const unsigned char *i, int il)
{
    REAL(int, "EVP_EncryptUpdate", (void *, unsigned char *, int *, const unsigned char *, int))
    if (me >= 0) { ctx_acc(c); acc((uintptr_t)i, il, 0, RA); acc((uintptr_t)o, il, 1, RA); acc((uintptr_t)ol, 4, 1, RA); }
    int r = r_(c, o, ol, i, il);
    fpoint();
    return r;
}

/* system random source: every thread's bytes come from its own script in kem modes, from a shared stream in mode rand */
static const uint8_t *feed[T]; static size_t feedn[T], feedu[T]; static int feed_over;
static int randmode, fdopen_[64], nopen, badfd, opens; static uint32_t stream;
static const uint8_t *mfeed; static size_t mfeedu;
static void give(uint8_t *b, size_t n)
{
    if (randmode) { for (size_t i = 0; i < n; i++) b[i] = (uint8_t)++stream; return; }
    for (size_t i = 0; i < n; i++) {
        if (me < 0) b[i] = mfeed ? mfeed[mfeedu++] : 0;
        else if (feedu[me] < feedn[me]) b[i] = feed[me][feedu[me]++];
        else { b[i] = 0xEE; feed_over = 1; }
    }
}
static int myopen(void)
{
    point();
    if (randmode && bound_env && me >= 0 && choose(2, 0, 1)) { errno = EMFILE; return -1; }
    int i = 0; while (i < 63 && fdopen_[i]) i++;
    fdopen_[i] = 1; nopen++; opens++;
    return 100 + i;
}
static int calling;                       /* main thread calls the library */
#define OURS(ra) ((me >= 0 || calling) && (ra) >= lo_ && (ra) < hi_)
int open(const char *p, int f, ...) { if (OURS(RA)) return myopen(); va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); NEXT(int, "open", (const char *, int, ...)) return r_(p, f, m); }
int open64(const char *p, int f, ...) { if (OURS(RA)) return myopen(); va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); NEXT(int, "open64", (const char *, int, ...)) return r_(p, f, m); }
int __open_2(const char *p, int f) { if (OURS(RA)) return myopen(); NEXT(int, "__open_2", (const char *, int)) return r_(p, f); }
int close(int fd)
{
    if (OURS(RA)) { point(); if (fd < 100 || fd >= 164 || !fdopen_[fd - 100]) { badfd = 1; errno = EBADF; return -1; } fdopen_[fd - 100] = 0; nopen--; return 0; }
    NEXT(int, "close", (int)) return r_(fd);
}
static ssize_t myread(int fd, void *b, size_t n)
{
    point();
    if (fd < 100 || fd >= 164 || !fdopen_[fd - 100]) { badfd = 1; horizon += 10000; errno = EBADF; if (horizon > 3000000) { printf("FAIL threads :: read from a descriptor that is not open\n"); fflush(stdout); _exit(1); } return -1; }
    size_t k = n;
    if (randmode && bound_env && me >= 0 && n) {
        int c = choose(n > 1 ? 3 : 2, 0, 1);
        if (c == 1) { errno = EINTR; return -1; }
        if (c == 2) k = 1;
    }
    give(b, k); acc((uintptr_t)b, k, 1, lo_);
    return k;
}
ssize_t read(int fd, void *b, size_t n) { if (OURS(RA)) return myread(fd, b, n); NEXT(ssize_t, "read", (int, void *, size_t)) return r_(fd, b, n); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t k) { (void)k; if (OURS(RA)) return myread(fd, b, n); NEXT(ssize_t, "read", (int, void *, size_t)) return r_(fd, b, n); }
ssize_t getrandom(void *b, size_t n, unsigned f) { if (OURS(RA)) { point(); give(b, n); return n; } NEXT(ssize_t, "getrandom", (void *, size_t, unsigned)) return r_(b, n, f); }
int getentropy(void *b, size_t n) { if (OURS(RA)) { point(); give(b, n); return 0; } NEXT(int, "getentropy", (void *, size_t)) return r_(b, n); }

/* ------------------------------------------------------------------ library image */
static int phdr(struct dl_phdr_info *i, size_t sz, void *nm)
{
    (void)sz;
    if (strcmp(i->dlpi_name, nm)) return 0;
    lo_ = i->dlpi_addr; hi_ = lo_;
    uintptr_t r0 = 0, r1 = 0;
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) { r0 = lo_ + i->dlpi_phdr[k].p_vaddr; r1 = r0 + i->dlpi_phdr[k].p_memsz; r1 &= ~4095ul; }
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD) {
        uintptr_t a = lo_ + i->dlpi_phdr[k].p_vaddr, e = a + i->dlpi_phdr[k].p_memsz;
        if (e > hi_) hi_ = e;
        if (!(i->dlpi_phdr[k].p_flags & PF_W)) continue;
        if (r1 > r0 && a >= r0 && a < r1) a = r1;
        if (a < e && nseg < 8) { seg[nseg].a = a; seg[nseg].n = e - a; nseg++; }
    }
    return 1;
}
static void snap(int k) { for (int i = 0; i < nseg; i++) { uint8_t **p = k ? &seg[i].s1 : &seg[i].s0; if (!*p) *p = __libc_malloc(seg[i].n); raw_cpy(*p, (void *)seg[i].a, seg[i].n); } }
static void restore(int k) { for (int i = 0; i < nseg; i++) raw_cpy((void *)seg[i].a, k ? seg[i].s1 : seg[i].s0, seg[i].n); }
static int changed(int k) { for (int i = 0; i < nseg; i++) if (memcmp((void *)seg[i].a, k ? seg[i].s1 : seg[i].s0, seg[i].n)) return 1; return 0; }

/* ------------------------------------------------------------------ operations */
#define NOPS 7
static const char *ON[NOPS] = { "keypair(a)", "enc(pk1)", "dec(sk1,ct1)", "reject(sk1,ct1')", "keypair(b)", "enc(pk2)", "dec(sk2,ct2)" };
static uint8_t rk[2][96], mu[2][32], pk[2][MAXPK], sk[2][MAXSK], ct[3][MAXCT];   /* ct[2]: modified ct[0] */
typedef struct { int rc; uint8_t o1[MAXPK > MAXCT ? MAXPK : MAXCT], o2[MAXSK]; } res_t;
static res_t *want, *got;
static uint8_t *obuf[T];                     /* page-separated output buffers per thread */
static void opfeed(int op, const uint8_t **b, size_t *n)
{
    if (op == 0 || op == 4) { *b = rk[op == 4]; *n = L.rndb; } else if (op == 1 || op == 5) { *b = mu[op == 5]; *n = L.mub; } else { *b = NULL; *n = 0; }
}
static void exec_op(int op, uint8_t *o, res_t *r)
{
    uint8_t *o1 = o, *o2 = o + 65536;
    switch (op) {
    case 0: case 4: r->rc = L.kp(o1, o2); break;
    case 1: case 5: r->rc = L.enc(o1, o2, pk[op == 5]); break;
    case 2: r->rc = L.dec(o1, ct[0], sk[0]); break;
    case 3: r->rc = L.dec(o1, ct[2], sk[0]); break;
    default: r->rc = L.dec(o1, ct[1], sk[1]); break;
    }
}
static size_t s1(int op) { return op == 0 || op == 4 ? L.pkb : op == 1 || op == 5 ? L.ctb : L.cb; }
static size_t s2(int op) { return op == 0 || op == 4 ? L.skb : op == 1 || op == 5 ? L.cb : 0; }
static int ops[T][4], nops[T];
static int rq[T][4], (*rndf)(unsigned char *, unsigned long long);
static uint8_t rbuf[T][64]; static int rrc[T];

static void *body(void *a)
{
    int t = (int)(intptr_t)a;
    pthread_attr_t at; void *s; size_t z;
    pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &s, &z); pthread_attr_destroy(&at);
    thr[t].stk = s; thr[t].stksz = z;
    me = t;
    sem_post(&main_go);
    wait_turn();
    if (randmode) {
        uint8_t *b = rbuf[t] + 8;
        for (int i = 0; i < nops[t]; i++) { rrc[t] |= rndf(b, rq[t][i]); b += rq[t][i]; }
    } else for (int i = 0; i < nops[t]; i++) {
        opfeed(ops[t][i], &feed[t], &feedn[t]); feedu[t] = 0;
        exec_op(ops[t][i], obuf[t] + i * 262144, &got[t * 4 + i]);
    }
    int m = me; me = -1;                      /* callbacks off; then hand over */
    (void)m;
    thr[t].st = DONE;
    me = t; leave(); me = -1;
    return NULL;
}
static int start_state;
static pthread_attr_t attr[T];
static void run_one(void)                    /* one execution under prefix pref[0..npref) */
{
    restore(start_state);
    npt = 0; cost_pre = cost_env = 0; bad = NULL; gen++; ngran = 0; nso = 0; fcount = 0; horizon = 0; feed_over = badfd = 0;
    memset(fdopen_, 0, sizeof fdopen_); nopen = 0; opens = 0; stream = 0;
    if (start_state == 1 || randmode == 2) { fdopen_[0] = 1; nopen = 1; }
    for (int t = 0; t < nthr; t++) {
        thr[t].st = RUN; thr[t].spin = 0; memset(thr[t].vc, 0, sizeof thr[t].vc); thr[t].vc[t] = 1;
        sem_init(&thr[t].go, 0, 0);
        rrc[t] = 0; memset(rbuf[t], 0, 64);
        if (!randmode) for (int i = 0; i < nops[t]; i++) { memset(obuf[t] + i * 262144, 0xCC, s1(ops[t][i])); memset(obuf[t] + i * 262144 + 65536, 0xCC, s2(ops[t][i])); got[t * 4 + i].rc = -77; }
        if (pthread_create(&thr[t].th, &attr[t], body, (void *)(intptr_t)t)) { perror("pthread_create"); _exit(3); }
        while (sem_wait(&main_go)) {}
    }
    /* who starts is a free choice */
    int c = nthr > 1 ? choose(nthr, 0, 0) : 0;
    go(c);
    while (sem_wait(&main_go)) {}
    for (int t = 0; t < nthr; t++) { pthread_join(thr[t].th, NULL); sem_destroy(&thr[t].go); }
    executions++; h_calls += nthr;
    if (!changed(start_state)) { for (int i = 0; i < ndead; i++) EVP_CIPHER_CTX_free(dead[i]); }
    ndead = 0;
    if (npt < npref) diverged();
}
static int distinct; static uint64_t outc[4096];
static void outcome(uint64_t h) { for (int i = 0; i < distinct; i++) if (outc[i] == h) return; if (distinct < 4096) outc[distinct++] = h; }
static const char *sched(void)
{
    static char b[700]; int k = snprintf(b, sizeof b, "choices"); long run = 0;
    for (long i = 0; i < npt && k < 650; i++) { if (pts[i].ch) { k += snprintf(b + k, sizeof b - k, " %ldx0 %d", run, pts[i].ch); run = 0; } else run++; }
    return b;
}
static int verdict(void)
{
    h_cmps++;
    if (bad) { h_fail("%s [%s]", bad, sched()); return 1; }
    if (randmode) {
        if (badfd) { h_fail("a descriptor that is not open is used [%s]", sched()); return 1; }
        if (nopen > 1) { h_fail("%d descriptors of the random source remain open [%s]", nopen, sched()); return 1; }
        uint8_t seen[256] = { 0 };
        uint64_t hh = nopen * 7 + opens;
        for (int t = 0; t < nthr; t++) {
            int tot = 0; for (int i = 0; i < nops[t]; i++) tot += rq[t][i];
            if (rrc[t]) { h_fail("thread %d: randombytes reports failure [%s]", t, sched()); return 1; }
            for (int i = 0; i < 64; i++) {
                int in = i >= 8 && i < 8 + tot, v = rbuf[t][i];
                if (!in && v) { h_fail("thread %d: a byte outside the request was written [%s]", t, sched()); return 1; }
                if (in && (!v || seen[v])) { h_fail("thread %d: byte %d of the request is %s [%s]", t, i - 8, v ? "delivered twice" : "not filled", sched()); return 1; }
                if (in) { seen[v] = 1; hh = hh * 1000003 + v; }
            }
        }
        outcome(hh);
        return 0;
    }
    uint64_t hh = 1;
    for (int t = 0; t < nthr; t++) for (int i = 0; i < nops[t]; i++) {
        int op = ops[t][i]; res_t *w = &want[op]; uint8_t *o = obuf[t] + i * 262144;
        long d;
        if (got[t * 4 + i].rc != w->rc) { h_fail("thread %d: %s returns %d instead of %d [%s]", t, ON[op], got[t * 4 + i].rc, w->rc, sched()); return 1; }
        if ((d = h_diff(o, w->o1, s1(op))) >= 0 || (d = h_diff(o + 65536, w->o2, s2(op))) >= 0) { h_fail("thread %d: %s gives another result than alone (first difference at byte %ld) [%s]", t, ON[op], d, sched()); return 1; }
    }
    if (feed_over) { h_fail("a thread drew too many random bytes [%s]", sched()); return 1; }
    for (long i = 0; i < npt && i < 2000; i++) hh = hh * 1000003 + pts[i].ch;
    (void)hh;
    return 0;
}
/* depth-first enumeration of all choice sequences within the bounds; returns 1 when complete */
static long cap; static int capped;
static int explore(void)
{
    static struct { long at; uint16_t ch; } *st; static long stmax; long ns = 0;
    (void)stmax; (void)st; (void)ns;
    long done = 0;
    npref = 0;
restart:
    npref = 0; grew = 0;
    for (;;) {
        run_one();
        if (verdict()) return 0;
        if (grew && nconf < 4000) { done = 0; goto restart; }      /* new conflicting memory: more scheduling points */
        if (++done >= cap) { capped = 1; return 0; }
        /* next prefix: last point with an untried alternative within the bounds */
        long i;
        for (i = npt - 1; i >= 0; i--) {
            if (pts[i].ch + 1 >= pts[i].n) continue;
            int p = pts[i].pre + (pts[i].run && !pts[i].env), e = pts[i].envs + pts[i].env;
            if (p > bound_pre || e > bound_env) continue;
            break;
        }
        if (i < 0) return 1;
        for (long k = 0; k < i; k++) pref[k] = pts[k].ch;
        pref[i] = pts[i].ch + 1; npref = i + 1;
    }
}
static void reset_conf(void) { memset(conf, 0, sizeof conf); nconf_total += nconf; nconf = 0; }

static void iter(int maxb, const char *what)     /* iterates the preemption bound */
{
    int completed = -1;
    for (bound_pre = 0; bound_pre <= maxb && !h_fails; bound_pre++) {
        capped = 0;
        if (explore()) completed = bound_pre; else break;
    }
    if (capped) { h_count("groups_capped", 1); if (completed < 1 && maxb > 0) h_note("%d %s: cap reached, complete up to %d preemptions", L.p.set, what, completed); }
    h_count("groups_complete", !capped);
}

int main(int c, char **v)
{
    if (c < 7) return 2;
    h_start();
    L = lib_open(v[2], atoi(v[3]), atoi(v[4]), atoi(v[5]));
    lv = atoi(v[6]);
    dl_iterate_phdr(phdr, v[2]);
    arena = mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (arena == MAP_FAILED) arena = NULL;
    ht = mmap(NULL, sizeof *ht * HS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    sem_init(&main_go, 0, 0);
    want = __libc_calloc(NOPS, sizeof *want); got = __libc_calloc(T * 4, sizeof *got);
    for (int t = 0; t < T; t++) {
        obuf[t] = mmap(NULL, 4 * 262144, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        void *s = mmap(NULL, 24 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        pthread_attr_init(&attr[t]); pthread_attr_setstack(&attr[t], s, 24 << 20);
    }
    snap(0);
    if (!strcmp(v[1], "rand")) {
        rndf = (int (*)(unsigned char *, unsigned long long))lib_sym(&L, "randombytes");
        if (!rndf) { h_note("no randombytes in the library"); h_done(); }
        cap = h_thorough ? 3000000 : 300000;
        static const int sz[][3] = { { 1, 1, 1 }, { 2, 3, 1 }, { 3, 2, 0 }, { 5, 1, 2 } };
        for (int warm = 0; warm < 2; warm++) for (int n = 2; n <= 3; n++) for (int k = 0; k < 4; k++) for (int per = 1; per <= 2; per++) for (int env = 0; env <= (h_thorough ? 3 : 2); env++) {
            if (n == 3 && per == 2 && env > 1 && !h_thorough) continue;
            if (!h_mine()) continue;
            randmode = 1; nthr = n; start_state = 0; reset_conf();
            if (warm) {              /* the source has been used before */
                restore(0); memset(fdopen_, 0, sizeof fdopen_); uint8_t b[4]; calling = 1; rndf(b, 4); calling = 0; snap(1);
                start_state = nopen ? 1 : 0;
            }
            for (int t = 0; t < n; t++) { nops[t] = per; for (int i = 0; i < per; i++) rq[t][i] = sz[k][(t + i) % 3]; }
            bound_env = env;
            h_case("randombytes: %d threads, %d requests each, sizes %d, %d deviating answers, %s", n, per, k, env, warm ? "used before" : "first use");
            long e0 = executions;
            iter(n == 2 && per == 1 ? 8 : h_thorough ? (n == 3 && per == 2 ? 3 : 4) : env ? 2 : 3, "randombytes");
            if (k == 1 && env == 1) h_sample("randombytes: %d threads x %d requests, env %d, %s: %ld schedules", n, per, env, warm ? "warm" : "first use", executions - e0);
        }
        h_count("distinct_outcomes", distinct);
    } else {
        fmode = !strcmp(v[1], "func");
        for (int k = 0; k < 2; k++) {
            h_bytes(rk[k], 96, "thr key %d", k); h_bytes(mu[k], 32, "thr mu %d", k);
            m_keypair(&L.p, rk[k], pk[k], sk[k], NULL);
            uint8_t x[64]; m_enc(&L.p, pk[k], mu[k], ct[k], x, NULL);
        }
        memcpy(ct[2], ct[0], L.ctb); ct[2][5] ^= 1;
        /* every operation alone, in the same kind of thread */
        for (int op = 0; op < NOPS; op++) {
            nthr = 1; nops[0] = 1; ops[0][0] = op; npref = 0; start_state = 0;
            h_case("%d n=%d %s alone", L.p.set, L.p.n, ON[op]);
            run_one();
            if (bad) { h_fail("%s", bad); h_done(); }
            want[op].rc = got[0].rc; memcpy(want[op].o1, obuf[0], s1(op)); memcpy(want[op].o2, obuf[0] + 65536, s2(op));
            if (op == 0) { snap(1); }
            if (got[0].rc) { h_note("%d: %s fails when alone", L.p.set, ON[op]); h_done(); }
        }
        int warm_differs = 0; for (int i = 0; i < nseg; i++) warm_differs |= !!memcmp(seg[i].s0, seg[i].s1, seg[i].n);
        cap = h_thorough ? 200000 : 4000;
        int full = L.p.n == L.p.set;
        for (int state = 0; state <= warm_differs; state++)
        for (int n = 2; n <= 3; n++) for (int a = 0; a < NOPS; a++) for (int b = 0; b < NOPS; b++) for (int d = 0; d < (n == 3 ? NOPS : 1); d++) for (int per = 1; per <= 2; per++) {
            if (b < a || (n == 3 && d < b)) continue;
            if (full && (n == 3 || per == 2) && lv < 2) continue;
            if (!full && n == 3 && lv < 1) continue;
            if (full && lv == 0 && !((a == 0 && b == 4) || (a == 1 && b == 5) || (a == 2 && b == 6) || (a == 0 && b == 1) || (a == 0 && b == 2) || (a == 1 && b == 2))) continue;
            if (n == 3 && (a > 3 && b > 3) && lv < 2) continue;
            if (fmode && n == 3 && (per == 2 || !h_thorough)) continue;
            if (fmode && per == 2 && lv < 2) continue;
            if (!h_mine()) continue;
            nthr = n; start_state = state; reset_conf();
            int o[3] = { a, b, d };
            for (int t = 0; t < n; t++) { nops[t] = per; ops[t][0] = o[t]; ops[t][1] = o[(t + 1) % n]; }
            h_case("%d n=%d %d threads: %s | %s%s%s%s, start %s", L.p.set, L.p.n, n, ON[a], ON[b], n == 3 ? " | " : "", n == 3 ? ON[d] : "", per == 2 ? ", then rotated" : "", state ? "warm" : "fresh");
            if (fmode) {
                /* number of points, then a stride that keeps the enumeration within the budget */
                stride = 1; bound_pre = 0; npref = 0; run_one(); if (verdict()) h_done();
                long np = npt, bud = full ? (h_thorough ? 2000 : lv >= 1 ? 40 : 12) : 4000;
                stride = np > bud ? (np + bud - 1) / bud : 1;
                if (stride > 1) h_count("groups_strided", 1);
                iter(!full && h_thorough && np < 400 ? 2 : 1, "function entries");
            } else
                iter(full && !h_thorough ? (lv ? 1 : 0) : n == 3 || per == 2 ? (h_thorough ? 2 : 1) : h_thorough && !full ? 3 : 2, "operations");
            if (h_fails) h_done();
        }
        h_sample("%s set=%d n=%d: %ld schedules, %ld points, %ld shared accesses, %ld conflicting granules", v[1], L.p.set, L.p.n, executions, points_total, acc_count, nconf_total + nconf);
    }
    h_count("schedules", executions); h_count("scheduling_points", points_total); h_count("switches", switches); h_count("shared_accesses", acc_count);
    h_count("conflicting_granules", nconf_total + nconf);
    h_done();
}
