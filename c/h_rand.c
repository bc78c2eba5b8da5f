/* randombytes against every bounded sequence of system answers: h_rand so MODE LEVEL.
 * The system calls are interposed: open/openat/read/close/getrandom answer according to a choice script. */
#define NO_RANDOMBYTES
#include "h.h"
#include <sys/syscall.h>
#include <sys/wait.h>

typedef int (*rb_f)(unsigned char *, unsigned long long);
static rb_f rb;
static void *dl;

/* choice script */
enum { A_OK, A_SHORT1, A_SHORTM1, A_HALF, A_EINTR, A_EAGAIN, A_EIO, A_EOF, A_N };
static const char *ANAME[A_N] = { "ok", "1 byte", "n-1 bytes", "n/2 bytes", "EINTR", "EAGAIN", "EIO", "EOF" };
static int script[64], slen, sused, active;
static unsigned long spos;           /* position in the system stream */
static int fds[64], nopen, opens, reads, badfd, badpath, fdzero;
static char lastpath[64];

static inline uint64_t mixw(uint64_t i) { i += 0x9E3779B97F4A7C15ull; i = (i ^ (i >> 30)) * 0xBF58476D1CE4E5B9ull; i = (i ^ (i >> 27)) * 0x94D049BB133111EBull; return i ^ (i >> 31); }
static inline uint8_t sbyte(unsigned long p) { uint64_t w = mixw(p / 8); return (uint8_t)(w >> (8 * (p % 8))); }
static void sfill(uint8_t *d, unsigned long p, unsigned long n)
{
    while (n && p % 8) { *d++ = sbyte(p++); n--; }
    while (n >= 8) { uint64_t w = mixw(p / 8); memcpy(d, &w, 8); d += 8; p += 8; n -= 8; }
    while (n) { *d++ = sbyte(p++); n--; }
}
static int nextans(void) { return sused < slen ? script[sused++] : (sused++, A_OK); }

static int sys_open(const char *path)
{
    if (strcmp(path, "/dev/urandom") && strcmp(path, "/dev/random")) { snprintf(lastpath, sizeof lastpath, "%s", path); badpath = 1; errno = ENOENT; return -1; }
    opens++;
    int a = nextans();
    if (a >= A_EINTR) { errno = a == A_EINTR ? EINTR : a == A_EAGAIN ? EMFILE : EIO; return -1; }
    int fd = fdzero && a == A_OK && !fds[0] ? 0 : 40;
    while (fds[fd]) fd++;
    fds[fd] = 1; nopen++;
    return fd;
}
static ssize_t sys_read(uint8_t *b, size_t n)
{
    reads++;
    if (reads > 100000) { printf("FAIL %s :: does not make progress although the system answers\n", "read loop"); fflush(stdout); _exit(1); }
    if (n > 0x7ffff000) n = 0x7ffff000;       /* as the kernel does */
    int a = nextans();
    size_t r = n;
    if (n == 0) return 0;
    switch (a) {
    case A_SHORT1: r = 1; break;
    case A_SHORTM1: r = n > 1 ? n - 1 : n; break;
    case A_HALF: r = n > 1 ? n / 2 : n; break;
    case A_EINTR: errno = EINTR; return -1;
    case A_EAGAIN: errno = EAGAIN; return -1;
    case A_EIO: errno = EIO; return -1;
    case A_EOF: return 0;
    }
    sfill(b, spos, r); spos += r;
    return (ssize_t)r;
}
int open(const char *p, int fl, ...) { if (!active) { va_list v; va_start(v, fl); int m = va_arg(v, int); va_end(v); return (int)syscall(SYS_openat, AT_FDCWD, p, fl, m); } return sys_open(p); }
int open64(const char *p, int fl, ...) { if (!active) { va_list v; va_start(v, fl); int m = va_arg(v, int); va_end(v); return (int)syscall(SYS_openat, AT_FDCWD, p, fl, m); } return sys_open(p); }
int openat(int d, const char *p, int fl, ...) { if (!active) { va_list v; va_start(v, fl); int m = va_arg(v, int); va_end(v); return (int)syscall(SYS_openat, d, p, fl, m); } return sys_open(p); }
ssize_t read(int fd, void *b, size_t n)
{
    if (!active) return syscall(SYS_read, fd, b, n);
    if (fd < 0 || fd >= 64 || !fds[fd]) { badfd++; errno = EBADF; if (badfd > 100000) { printf("FAIL read on an invalid descriptor for ever :: loops\n"); fflush(stdout); _exit(1); } return -1; }
    return sys_read(b, n);
}
int close(int fd)
{
    if (!active) return (int)syscall(SYS_close, fd);
    if (fd < 0 || fd >= 64 || !fds[fd]) { errno = EBADF; return -1; }
    fds[fd] = 0; nopen--; return 0;
}
ssize_t getrandom(void *b, size_t n, unsigned f) { if (!active) return syscall(SYS_getrandom, b, n, f); return sys_read(b, n); }
int getentropy(void *b, size_t n) { if (!active) return (int)-(syscall(SYS_getrandom, b, n, 0) != (ssize_t)n); if (n > 256) { errno = EIO; return -1; } int a = nextans(); if (a >= A_EINTR) { errno = EIO; return -1; } sfill(b, spos, n); spos += n; return 0; }

static const char *sname(void)
{
    static char b[900]; int k = 0; b[0] = 0;
    for (int i = 0; i < slen && k < 800; i++) k += snprintf(b + k, sizeof b - k, "%s%s", i ? ", " : "", ANAME[script[i]]);
    return b;
}
static uint8_t *gend;
#define GSZ (1 << 21)
static unsigned long expect;           /* next stream position */
/* one request; checks the fill contract */
static void request(size_t n, const char *what)
{
    uint8_t *b = gend - n;
    memset(b - 64, 0xD7, n + 64);
    long r0 = sused; (void)r0;
    active = 1;
    int rc = rb(b, n);
    active = 0; h_calls++;
    for (int i = 1; i <= 64; i++) if (b[-i] != 0xD7) { h_fail("%s: wrote before the buffer", what); break; }
    if (rc == 0) {
        /* the bytes must be the next ones of the system stream; after a failed request some may have been dropped */
        static uint8_t w[GSZ];
        sfill(w, expect, n);
        if (n && h_ne(b, w, n)) {
            size_t i = 0; while (b[i] == w[i]) i++;
            h_fail("%s: returned success but byte %zu of %zu is not the next system random byte (%s)", what, i, n, b[i] == 0xD7 ? "never written" : "wrong or reused");
        }
        expect += n;
        if (spos < expect) h_fail("%s: returned success having drawn only %lu system bytes", what, spos);
    } else { expect = spos; h_count("requests_failed", 1); }
    if (nopen > 1) h_fail("%s: %d descriptors open", what, nopen);
    if (badpath) h_fail("%s: opened %s", what, lastpath);
}
static void reset(void) { memset(fds, 0, sizeof fds); nopen = opens = reads = badfd = badpath = 0; spos = expect = 0; sused = 0; }

int main(int c, char **v)
{
    if (c < 4) return 2;
    h_start();
    int lv = atoi(v[3]);
    const char *mode = v[2];
    /* a fresh copy of the library per history: fork below */
    dl = dlopen(v[1], RTLD_NOW | RTLD_LOCAL);
    if (!dl) { fprintf(stderr, "%s\n", dlerror()); return 3; }
    rb = (rb_f)dlsym(dl, "randombytes");
    if (!rb) { fprintf(stderr, "no randombytes\n"); return 3; }
    uint8_t *m = mmap(NULL, GSZ + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(m + GSZ, 8192, PROT_NONE); gend = m + GSZ;
    if (!strcmp(mode, "seq")) {
        /* all answer sequences of length K, each from the initial (unopened) state in a forked child, for each request size;
         * three requests per history so that the cached state is exercised */
        static const size_t sizes[] = { 0, 1, 2, 3, 16, 32, 48, 80, 256, 257, 4096, 65537 };
        int K = lv >= 2 ? 5 : 4;
        long total = 1; for (int i = 0; i < K; i++) total *= A_N;
        /* batches: one child handles many histories but must start each from a pristine library image, so each history forks */
        for (int z = 0; z < 2; z++)
        for (unsigned si = 0; si < sizeof sizes / sizeof *sizes; si++) {
            if (z && si != 4) continue;      /* descriptor 0 variant for one size */
            long tot = si == 4 || si == 8 ? total : total / A_N;
            int k = si == 4 || si == 8 ? K : K - 1;
            for (long x = 0; x < tot; x++) {
                if (!h_mine()) continue;
                long y = x; slen = k;
                for (int i = 0; i < k; i++) { script[i] = y % A_N; y /= A_N; }
                h_case("request %zu bytes, then 33, then 1; answers: %s%s", sizes[si], sname(), z ? "; descriptor 0" : "");
                fflush(stdout);
                pid_t p = fork();
                if (p == 0) {
                    reset(); fdzero = z; h_fails = 0;
                    alarm(20);
                    request(sizes[si], "first request"); request(33, "second request"); request(1, "third request");
                    int o = opens, n3 = nopen;
                    for (int i = 0; i < 3; i++) request(16, "later request");
                    if (nopen > n3 || (opens > o && nopen > 1)) h_fail("descriptors accumulate: %d", nopen);
                    fflush(stdout);
                    _exit(h_fails ? 1 : 0);
                }
                int st; waitpid(p, &st, 0); h_calls += 6;
                if (!WIFEXITED(st)) h_fail("died with signal %d", WTERMSIG(st));
                else if (WEXITSTATUS(st)) { h_fails++; if (h_fails >= 3) h_done(); }
            }
        }
    } else if (!strcmp(mode, "chain")) {
        /* every request size in one process with every single answer as the first one, and long histories */
        reset(); slen = 0;
        for (size_t n = 0; n <= 4200; n++) for (int a = 0; a < 4; a++) {
            h_case("request %zu, first answer %s", n, ANAME[a]);
            script[0] = a; slen = 1; sused = 0; reads = 0;
            request(n, "request");
        }
        for (int e = 12; e <= 20; e++) for (int d = -2; d <= 2; d++) for (int a = 0; a < A_N; a++) {
            size_t n = (1ul << e) + d; if (n + 64 > GSZ) continue;
            h_case("request %zu, answers %s twice", n, ANAME[a]);
            script[0] = script[1] = a; slen = 2; sused = 0; reads = 0;
            request(n, "request");
        }
        for (int i = 0; i < 70000; i++) {      /* many requests: nothing accumulates, nothing repeats */
            h_case("request number %d of 32 bytes", i); sused = 0; slen = 0; reads = 0; request(32, "request"); }
        h_count("descriptors_at_end", nopen);
    } else if (!strcmp(mode, "fork")) {
        /* a process forks between requests: the system stream goes on for both, and no byte may be handed out twice.
         * Phase 1: before the fork, 0-2 requests; phase 2: four requests, each made by the parent or the child, in every order. */
        static const size_t sizes[] = { 16, 24, 32, 33, 48, 80, 255, 256, 4096 };
        enum { NS = sizeof sizes / sizeof *sizes };
        struct sh { unsigned long pos; int n, fail; struct { unsigned long at; size_t n; int who; } iv[16]; uint8_t turn; } *sh =
            mmap(NULL, 65536, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        for (int pre = -1; pre < NS; pre++) for (int pre2 = -1; pre2 < (pre < 0 ? 0 : NS); pre2++) for (int post = 0; post < NS; post++) for (int who = 0; who < 16; who++) {
            if (!h_mine()) continue;
            h_case("%s%zu then %zu bytes, fork, then four requests of %zu bytes by %c%c%c%c (p = parent, c = child)", pre < 0 ? "nothing: " : "", pre < 0 ? 0 : sizes[pre],
                   pre2 < 0 ? 0 : sizes[pre2], sizes[post], "pc"[who & 1], "pc"[who >> 1 & 1], "pc"[who >> 2 & 1], "pc"[who >> 3 & 1]);
            fflush(stdout);
            memset(sh, 0, sizeof *sh);
            pid_t p0 = fork();
            if (p0 == 0) {
                reset(); slen = 0; alarm(20); spos = 0;
                static uint8_t b[4096];
                int me = 0;
#define RQ(sz) do { size_t n_ = (sz); spos = sh->pos; active = 1; int rc_ = rb(b, n_); active = 0; sh->pos = spos; \
                if (rc_ == 0) { unsigned long q = 0; static uint8_t w[4096]; for (; q + n_ <= spos; q++) { if (b[0] != sbyte(q)) continue; sfill(w, q, n_); if (!memcmp(w, b, n_)) break; } \
                    if (q + n_ > spos) sh->fail = 1; sh->iv[sh->n].at = q; sh->iv[sh->n].n = n_; sh->iv[sh->n++].who = me; } } while (0)
                if (pre >= 0) RQ(sizes[pre]);
                if (pre2 >= 0) RQ(sizes[pre2]);
                int pp[2], qq[2];
                if (pipe(pp) || pipe(qq)) _exit(9);
                pid_t p1 = fork();
                if (p1 < 0) _exit(9);
                if (p1 == 0) {
                    me = 1; uint8_t x;
                    for (int i = 0; i < 4; i++) if (who >> i & 1) { if (syscall(SYS_read, pp[0], &x, 1) != 1) _exit(9); RQ(sizes[post]); if (write(qq[1], &x, 1) != 1) _exit(9); }
                    _exit(0);
                }
                uint8_t x = 0;
                for (int i = 0; i < 4; i++) {
                    if (who >> i & 1) { if (write(pp[1], &x, 1) != 1 || syscall(SYS_read, qq[0], &x, 1) != 1) _exit(9); }
                    else RQ(sizes[post]);
                }
                int st; waitpid(p1, &st, 0);
                _exit(WIFEXITED(st) && !WEXITSTATUS(st) ? 0 : 1);
            }
            int st; waitpid(p0, &st, 0); h_calls += 6;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 9) { h_note("cannot fork"); continue; }
            if (!WIFEXITED(st) || WEXITSTATUS(st)) { h_fail("a process died (status %x)", st); continue; }
            if (sh->fail) h_fail("returned success with bytes that do not come from the system");
            for (int i = 0; i < sh->n && !sh->fail; i++) for (int j = i + 1; j < sh->n; j++)
                if (sh->iv[i].at < sh->iv[j].at + sh->iv[j].n && sh->iv[j].at < sh->iv[i].at + sh->iv[i].n) {
                    h_fail("request %d (by the %s) and request %d (by the %s) were given the same system bytes", i, sh->iv[i].who ? "child" : "parent", j, sh->iv[j].who ? "child" : "parent"); i = 99; break; }
        }
    } else if (!strcmp(mode, "huge")) {
        unsigned long long n = strtoull(v[4], 0, 0);
        uint8_t *b = mmap(NULL, n + 8192 + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (b == MAP_FAILED) { h_note("cannot map %llu bytes", n); h_done(); }
        size_t top = (n + 4095) / 4096 * 4096 + 4096;
        mprotect(b + top, 4096, PROT_NONE);
        uint8_t *d = b + top - n;
        for (int a = 0; a < 2; a++) {
            h_case("request %llu bytes, first answer %s", n, a ? "half" : "ok");
            if (a && !h_thorough) break;
            reset(); script[0] = A_OK; script[1] = a ? A_HALF : A_OK; slen = 2;
            active = 1; int rc = rb(d, n); active = 0; h_calls++;
            if (rc == 0) {
                if (spos < n) h_fail("returned success having drawn only %lu system bytes", spos);
                else {
                    unsigned long long i = 0;
                    for (; i + 8 <= n; i += 8) { uint64_t w; memcpy(&w, d + i, 8); if (w != mixw(i / 8)) { h_fail("returned success but the bytes at %llu are not the system's", i); break; } }
                    for (i = n & ~7ull; i < n; i++) if (d[i] != sbyte(i)) { h_fail("returned success but byte %llu is not the system's", i); break; }
                }
            } else h_count("requests_failed", 1);
        }
    } else return 2;
    h_sample("randombytes %s level %d shard %d/%d: %ld histories", mode, lv, h_shard, h_nshard, h_cases);
    h_done();
}
