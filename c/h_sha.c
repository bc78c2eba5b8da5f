/* SHAKE enumerations: h_sha so LEVEL ; env HAVE */
#include "h.h"
#include <immintrin.h>
static void *dl; static int lv;
static void *have(const char *f)
{
    const char *h = getenv("HAVE"); char b[80];
    snprintf(b, sizeof b, ",%s,", f);
    return h && strstr(h, b) ? dlsym(dl, f) : NULL;
}
typedef void (*shake_f)(unsigned char *, unsigned long long, const unsigned char *, unsigned long long);
typedef void (*abs_f)(uint64_t *, const unsigned char *, unsigned int);
typedef void (*sq_f)(unsigned char *, unsigned long long, uint64_t *);
typedef void (*shake4_f)(unsigned char *, unsigned char *, unsigned char *, unsigned char *, unsigned long long, const unsigned char *, const unsigned char *, const unsigned char *, const unsigned char *, unsigned long long);
typedef void (*abs4_f)(__m256i *, const unsigned char *, const unsigned char *, const unsigned char *, const unsigned char *, unsigned long long);
typedef void (*sq4_f)(unsigned char *, unsigned char *, unsigned char *, unsigned char *, unsigned long long, __m256i *);

#define MX 300000
static uint8_t in[MX + 64], in2[MX + 64], want[MX + 64], want4[4][8192], o4[4][8192];
static uint8_t *guard;                 /* end of a page followed by an inaccessible one */
static uint8_t *ginp;
#define GP (1 << 19)
static uint8_t *gbuf(void)
{
    uint8_t *m = mmap(NULL, GP + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(m + GP, 8192, PROT_NONE);
    return m + GP;
}
static void one(shake_f f, int rate, size_t il, size_t ol, const char *pat)
{
    h_case("shake%d inlen=%zu outlen=%zu pattern=%s", rate == 168 ? 128 : 256, il, ol, pat);
    uint8_t *i = ginp - il, *o = guard - ol;       /* both end at an unmapped page; alignment varies with the length */
    memcpy(i, in, il);
    memset(o - 32, 0xC7, ol + 32);
    f(o, ol, i, il); h_calls++;
    m_shake(rate, want, ol, in, il);
    long d = h_diff(o, want, ol);
    if (d >= 0) h_fail("output byte %ld is %02x, specified %02x", d, o[d], want[d]);
    for (int k = 0; k < 32; k++) if (o[-1 - k] != 0xC7) { h_fail("wrote before the output"); break; }
    if (h_ne(i, in, il)) h_fail("input modified");
}
/* an address range of more than 2^32 bytes in which one small block of memory appears again and again */
static uint8_t *wide(size_t total, size_t unit)
{
    int fd = memfd_create("wide", 0);
    if (fd < 0 || ftruncate(fd, unit)) return NULL;
    uint8_t *m = mmap(NULL, total + 2 * unit, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) return NULL;
    for (size_t o = 0; o < total + unit; o += unit)
        if (mmap(m + o, unit, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) return NULL;
    return m;
}
static void huge(int w, int output)
{
    int rate = w ? 136 : 168;
    shake_f f = (shake_f)have(w ? "shake256" : "shake128");
    if (!f) { h_note("shake%d one-shot function not available with the known prototype", w ? 256 : 128); return; }
    size_t unit = 4 << 20, n = (1ull << 32) + 2 * rate + 5;
    uint8_t *a = wide(n, unit), *b = output ? wide(n, unit) : NULL;
    if (!a || (output && !b)) { h_note("cannot map %zu bytes", n); return; }
    h_case("shake%d %s of %zu bytes", w ? 256 : 128, output ? "output" : "input", n);
    if (output) {          /* the last 4 MiB of the output remain visible */
        memset(a, 0xC7, unit);
        f(a, n, in, 33); h_calls++;
        m_shake(rate, b, n, in, 33); h_calls++;
        long d = h_diff(a, b, unit);
        if (d >= 0) h_fail("output differs (at %ld modulo 4 MiB)", d);
    } else {
        h_bytes(a, unit, "wide");
        uint8_t o[64], x[64];
        f(o, 64, a, n); h_calls++;
        m_shake(rate, x, 64, a, n); h_calls++;
        if (h_ne(o, x, 64)) h_fail("hash of a long input is wrong");
    }
}
int main(int c, char **v)
{
    if (c < 3) return 2;
    h_start(); lv = atoi(v[2]);
    if (c > 4) {
        dl = dlopen(v[1], RTLD_NOW | RTLD_LOCAL);
        if (!dl) { fprintf(stderr, "%s\n", dlerror()); return 3; }
        h_bytes(in, sizeof in, "shake message");
        huge(atoi(v[3]), atoi(v[4])); h_done();
    }
    dl = dlopen(v[1], RTLD_NOW | RTLD_LOCAL);
    if (!dl) { fprintf(stderr, "%s\n", dlerror()); return 3; }
    guard = gbuf(); ginp = gbuf();
    h_bytes(in, sizeof in, "shake message");
    memcpy(in2, in, sizeof in);
    for (int w = 0; w < 2; w++) {
        int rate = w ? 136 : 168;
        shake_f f = (shake_f)have(w ? "shake256" : "shake128");
        abs_f ab = (abs_f)have(w ? "shake256_absorb" : "shake128_absorb");
        sq_f sq = (sq_f)have(w ? "shake256_squeezeblocks" : "shake128_squeezeblocks");
        if (f) {
            memcpy(in, in2, sizeof in);
            size_t mi = lv >= 2 ? 6000 : 2000, mo = lv >= 2 ? 6000 : 2000;
            for (size_t i = 0; i <= (lv >= 2 ? 700 : 345); i++) for (size_t o = 0; o <= (lv >= 2 ? 700 : 345); o++) if (h_mine()) one(f, rate, i, o, "grid");
            for (size_t i = 0; i <= mi; i++) if (h_mine()) one(f, rate, i, 64, "base");                 /* every input length */
            for (size_t o = 0; o <= mo; o++) if (h_mine()) one(f, rate, 33, o, "base");                 /* every output length */
            size_t b = lv >= 2 ? 2 : 1;
            for (size_t i = 0; i <= 4 * b; i++) for (size_t o = 0; o <= 4 * b; o++)                     /* around all block boundaries, both */
                for (int di = -3; di <= 3; di++) for (int dd = -3; dd <= 3; dd++) {
                    long a = (long)i * rate / 2 + di, e = (long)o * rate / 2 + dd;
                    if (a < 0 || e < 0 || !h_mine()) continue;
                    one(f, rate, a, e, "base");
                }
            /* lengths the schemes use and large ones, incl. 2^16 crossings */
            static const size_t big[] = { 9616, 15632, 21520, 9736, 15768, 21664, 10240, 20608, 31360, 43136, 65535, 65536, 65537, 131071, 131072, 131073, 262144, 262145 };
            for (unsigned k = 0; k < sizeof big / sizeof *big; k++) {
                if (h_mine()) one(f, rate, big[k], 32, "base");
                if (h_mine()) one(f, rate, 17, big[k], "base");
            }
            /* content: each single bit of a two-block message, backgrounds 0 / FF / base */
            for (int bg = 0; bg < 3; bg++) {
                size_t len = 2 * rate;
                for (size_t bit = 0; bit < 8 * len; bit++) {
                    if (!h_mine()) continue;
                    if (bg == 2) memcpy(in, in2, len); else memset(in, bg ? 0xFF : 0, len);
                    in[bit / 8] ^= 1 << (bit % 8);
                    one(f, rate, len - (bit % 3), 48, bg == 0 ? "0 one-hot" : bg == 1 ? "FF one-hot" : "base one-hot");
                }
                for (int v8 = 0; v8 < 256; v8++) for (int p = 0; p < 4; p++) {
                    if (!h_mine()) continue;
                    if (bg == 2) memcpy(in, in2, len); else memset(in, bg ? 0xFF : 0, len);
                    in[p == 0 ? 0 : p == 1 ? rate - 1 : p == 2 ? rate : 2 * rate - 1] = v8;
                    one(f, rate, 2 * rate, 32, "boundary byte");
                }
            }
            memcpy(in, in2, sizeof in);
        } else h_note("shake%d one-shot function not available with the known prototype", w ? 256 : 128);
        if (ab && sq) {        /* wrong on an ordinary message although the one-shot function is checked: another internal convention */
            uint64_t st[25]; uint8_t o[168 * 2]; memset(st, 0, sizeof st);
            ab(st, in, 33); sq(o, 2, st);
            m_shake(rate, want, 2 * rate, in, 33);
            if (f && h_ne(o, want, 2 * rate)) { ab = NULL; h_note("shake%d absorb/squeeze follow another convention: skipped", w ? 256 : 128); }
        }
        if (ab && sq) {
            /* absorb once, squeeze in every split of up to 5 blocks */
            for (size_t il = 0; il <= 2 * (size_t)rate + 2; il += lv >= 2 ? 1 : 5)
                for (int split = 0; split < 16; split++) {
                    if (!h_mine()) continue;
                    h_case("shake%d absorb %zu, squeeze split %d", w ? 256 : 128, il, split);
                    uint64_t st[25]; memset(st, 0, sizeof st);
                    uint8_t o[5 * 168 + 16]; memset(o, 0xC7, sizeof o);
                    ab(st, in, il);
                    size_t pos = 0, run = 1;
                    for (int k = 0; k < 4; k++) { if (split >> k & 1) { sq(o + pos * rate, run, st); pos += run; run = 1; } else run++; }
                    sq(o + pos * rate, run, st); h_calls++;
                    m_shake(rate, want, 5 * rate, in, il);
                    long d = h_diff(o, want, 5 * rate);
                    if (d >= 0) h_fail("output byte %ld differs", d);
                    if (o[5 * rate] != 0xC7) h_fail("wrote past the output");
                }
        } else h_note("shake%d absorb/squeeze not available with the known prototype", w ? 256 : 128);
    }
    shake4_f f4 = (shake4_f)have("shake128_4x");
    if (f4) {
        static uint8_t m[4][1024];
        for (int pat = 0; pat < 3; pat++)
            for (size_t il = 0; il <= (lv >= 2 ? 400 : 345); il++) {
                if (!h_mine()) continue;
                size_t ol = (il * 7) % 700 + 1;
                h_case("shake128_4x inlen=%zu outlen=%zu pattern=%d", il, ol, pat);
                for (int k = 0; k < 4; k++) for (size_t i = 0; i < il; i++) m[k][i] = pat == 0 ? in[i + 100 * k] : pat == 1 ? (k == (int)(il % 4) ? 0xFF : 0) : in[i];
                for (int k = 0; k < 4; k++) memset(o4[k], 0xC7, 1000);
                f4(o4[0] + 16, o4[1] + 17, o4[2] + 18, o4[3] + 19, ol, m[0], m[1], m[2], m[3], il); h_calls++;
                for (int k = 0; k < 4; k++) {
                    m_shake(168, want4[k], ol, m[k], il);
                    long d = h_diff(o4[k] + 16 + k, want4[k], ol);
                    if (d >= 0) { h_fail("lane %d byte %ld is %02x, specified %02x", k, d, o4[k][16 + k + d], want4[k][d]); break; }
                    if (o4[k][15 + k] != 0xC7 || o4[k][16 + k + ol] != 0xC7) { h_fail("lane %d: wrote outside the output", k); break; }
                }
            }
        for (size_t ol = 0; ol <= (lv >= 2 ? 3000 : 1400); ol++) {
            if (!h_mine()) continue;
            h_case("shake128_4x inlen=18 outlen=%zu", ol);
            for (int k = 0; k < 4; k++) { memset(o4[k], 0xC7, ol + 64); memcpy(m[k], in + 18 * k, 18); }
            f4(o4[0], o4[1], o4[2], o4[3], ol, m[0], m[1], m[2], m[3], 18); h_calls++;
            for (int k = 0; k < 4; k++) {
                m_shake(168, want4[k], ol, m[k], 18);
                long d = h_diff(o4[k], want4[k], ol);
                if (d >= 0) { h_fail("lane %d byte %ld differs", k, d); break; }
                if (o4[k][ol] != 0xC7) { h_fail("lane %d: wrote past the output", k); break; }
            }
        }
        /* every bit of the 18-byte row input, in each lane, other lanes fixed; all 65536 values of the row index */
        for (int bit = 0; bit < 144; bit++) for (int k0 = 0; k0 < 4; k0++) {
            if (!h_mine()) continue;
            h_case("shake128_4x lane %d bit %d", k0, bit);
            for (int k = 0; k < 4; k++) memcpy(m[k], in + 18 * k, 18);
            m[k0][bit / 8] ^= 1 << (bit % 8);
            f4(o4[0], o4[1], o4[2], o4[3], 1952, m[0], m[1], m[2], m[3], 18); h_calls++;
            for (int k = 0; k < 4; k++) { m_shake(168, want4[k], 1952, m[k], 18); if (h_ne(o4[k], want4[k], 1952)) { h_fail("lane %d differs", k); break; } }
        }
        for (int r = 0; r < 65536; r += 4) {
            if (!h_mine()) continue;
            h_case("shake128_4x rows %d..%d", r, r + 3);
            for (int k = 0; k < 4; k++) { memcpy(m[k], in, 18); m[k][0] = r + k; m[k][1] = (r + k) >> 8; }
            f4(o4[0], o4[1], o4[2], o4[3], 32, m[0], m[1], m[2], m[3], 18); h_calls++;
            for (int k = 0; k < 4; k++) { m_shake(168, want4[k], 32, m[k], 18); if (h_ne(o4[k], want4[k], 32)) { h_fail("lane %d differs", k); break; } }
        }
        abs4_f ab4 = (abs4_f)have("shake128_absorb4x"); sq4_f sq4 = (sq4_f)have("shake128_squeezeblocks4x");
        if (ab4 && sq4) {                  /* the convention (bytes, not blocks) may have changed: then skip */
            static uint8_t g[4][168 * 170]; __m256i st[25]; memset(st, 0, sizeof st); memset(g, 0xC7, sizeof g);
            int ok = 1;
            ab4(st, in, in + 100, in + 200, in + 300, 33); sq4(g[0], g[1], g[2], g[3], 168, st);
            for (int k = 0; k < 4; k++) { m_shake(168, want, 168, in + 100 * k, 33); ok &= !h_ne(g[k], want, 168) && g[k][168] == 0xC7; }
            if (!ok) { ab4 = NULL; h_note("shake128 4x absorb/squeeze follow another convention: skipped"); }
        }
        if (ab4 && sq4)
            for (size_t il = 0; il < 345; il++) for (int split = 0; split < 8; split++) {
                if (!h_mine()) continue;
                h_case("shake128 4x absorb %zu, squeeze split %d", il, split);
                __m256i st[25]; memset(st, 0, sizeof st);
                for (int k = 0; k < 4; k++) { memcpy(m[k], in + 100 * k, il); memset(o4[k], 0xC7, 1000); }
                ab4(st, m[0], m[1], m[2], m[3], il);
                size_t pos = 0, run = 1;
                for (int k = 0; k < 3; k++) { if (split >> k & 1) { sq4(o4[0] + pos * 168, o4[1] + pos * 168, o4[2] + pos * 168, o4[3] + pos * 168, 168 * run, st); pos += run; run = 1; } else run++; }
                sq4(o4[0] + pos * 168, o4[1] + pos * 168, o4[2] + pos * 168, o4[3] + pos * 168, 168 * run, st); h_calls++;   /* this one takes bytes, not blocks */
                for (int k = 0; k < 4; k++) { m_shake(168, want4[k], 672, m[k], il); if (h_ne(o4[k], want4[k], 672)) { h_fail("lane %d differs", k); break; } if (o4[k][672] != 0xC7) { h_fail("wrote past the output"); break; } }
            }
    }
    h_sample("hash functions of %s, level %d: %ld cases", v[1], lv, h_cases);
    h_count("four_way", f4 ? 1 : 0);
    h_done();
}
