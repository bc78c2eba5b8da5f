/* Windows branch of randombytes with a stand-in for the system call. */
#define NO_RANDOMBYTES
#include "h.h"
#include <sys/mman.h>
typedef int (*rb_f)(unsigned char *, unsigned long long);
static long calls, fail_at = -1; static uint64_t pos, salt;
static inline uint64_t mixw(uint64_t i) { i += salt + 0x9E3779B97F4A7C15ull; i = (i ^ (i >> 30)) * 0xBF58476D1CE4E5B9ull; return i ^ (i >> 31); }
static inline uint8_t sbyte(uint64_t p) { return (uint8_t)(mixw(p / 8) >> (8 * (p % 8))); }
int BCryptGenRandom(void *a, unsigned char *b, unsigned int n, unsigned int fl)
{
    (void)a;
    if (!(fl & 2)) return (int)0xC000000D;
    if (calls++ == fail_at) return (int)0xC0000001;
    while (n && pos % 8) { *b++ = sbyte(pos++); n--; }
    while (n >= 8) { uint64_t w = mixw(pos / 8); memcpy(b, &w, 8); b += 8; pos += 8; n -= 8; }
    while (n) { *b++ = sbyte(pos++); n--; }
    return 0;
}
static void content(const uint8_t *b, uint64_t n)
{
    uint64_t i = 0;
    for (; i + 8 <= n; i += 8) { uint64_t w; memcpy(&w, b + i, 8); if (w != mixw(i / 8)) { h_fail("returned success but the bytes at %llu are not the system's", (unsigned long long)i); return; } }
    for (; i < n; i++) if (b[i] != sbyte(i)) { h_fail("returned success but byte %llu is not the system's", (unsigned long long)i); return; }
}
int main(int c, char **v)
{
    if (c < 2) return 2;
    h_start();
    void *dl = dlopen(v[1], RTLD_NOW | RTLD_LOCAL);
    if (!dl) { fprintf(stderr, "%s\n", dlerror()); return 3; }
    rb_f rb = (rb_f)dlsym(dl, "randombytes");
    if (!rb) return 3;
    if (c > 2) {                                    /* one large request */
        unsigned long long n = strtoull(v[2], 0, 0);
        size_t top = (n + 4095) / 4096 * 4096 + 4096;
        uint8_t *m = mmap(NULL, top + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED) { h_note("cannot map %llu bytes", n); h_done(); }
        mprotect(m + top, 4096, PROT_NONE);
        uint8_t *d = m + top - n;
        h_case("windows request %llu", n);
        pos = 0; calls = 0; fail_at = -1; salt = n;
        int rc = rb(d, n); h_calls++;
        if (rc == 0) content(d, n); else h_fail("failed although the system call worked");
        long k = calls;
        for (long f = 0; f < k && f < 8; f++) { h_case("windows request %llu, call %ld fails", n, f); calls = 0; fail_at = f; if (rb(d, n) == 0) h_fail("success although the system call failed"); h_calls++; }
        h_sample("windows randombytes %llu bytes: %ld system calls", n, k);
        h_done();
    }
    static uint8_t b[8192 + 64];
    for (size_t n = 0; n <= 4200; n++) {
        h_case("windows request %zu", n);
        memset(b, 0xD7, n + 64); pos = 0; fail_at = -1; calls = 0; salt = n;
        int rc = rb(b, n); h_calls++;
        if (rc == 0) content(b, n);
        for (int i = 0; i < 64; i++) if (b[n + i] != 0xD7) { h_fail("wrote past the buffer"); break; }
        long k = calls;
        for (long f = 0; f < k && n; f++) { h_case("windows request %zu, call %ld fails", n, f); calls = 0; fail_at = f; if (rb(b, n) == 0) h_fail("success although the system call failed"); h_calls++; }
    }
    h_done();
}
