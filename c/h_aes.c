/* AES enumerations: h_aes so LEVEL ; env HAVE */
#include "h.h"
static void *dl; static int lv;
static void *have(const char *f)
{
    const char *h = getenv("HAVE"); char b[80];
    snprintf(b, sizeof b, ",%s,", f);
    return h && strstr(h, b) ? dlsym(dl, f) : NULL;
}
typedef void (*load_f)(const uint8_t *, uint8_t *);
typedef void (*enc_fn)(const uint8_t *, const size_t, const uint8_t *, uint8_t *);
typedef void (*free_f)(uint8_t *);
#define MAXB 65600
#define GSZ (17 * 65536)
static uint8_t *gend(void)
{
    uint8_t *m = mmap(NULL, GSZ + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(m + GSZ, 4096, PROT_NONE);
    return m + GSZ;
}
static load_f ld; static enc_fn en; static free_f fr; static int bits; static size_t schb;
static uint8_t *gk, *gs, *gi, *go;
static void one(const uint8_t *key, const uint8_t *pt, size_t nblk, int inplace, int al, const char *what, long a, long b)
{
    h_case("AES-%d %s %ld %ld blocks=%zu inplace=%d align=%d", bits, what, a, b, nblk, inplace, al);
    size_t kb = bits / 8, len = 16 * nblk;
    uint8_t *k = gk - kb - al, *s = gs - schb, *i = gi - len - al, *o = inplace ? i : go - len - al, w[240], x[16];
    static uint8_t orig[MAXB * 16];
    memcpy(k, key, kb); memcpy(i, pt, len); memcpy(orig, pt, len);
    memset(s - 16, 0xD1, 16 + schb);      /* schedules are 16-byte aligned, as in the library's own use */
    if (!inplace) memset(o - 16, 0xD2, len + 16 + al);
    uint8_t before = i[-1];
    ld(k, s); en(i, len, s, o); h_calls++;
    m_aes_expand(bits, key, w);
    for (size_t j = 0; j < nblk; j++) {
        m_aes_block(bits, w, orig + 16 * j, x);
        if (h_ne(o + 16 * j, x, 16)) { h_fail("block %zu is wrong", j); break; }
    }
    if (!inplace) {
        if (h_ne(i, orig, len)) h_fail("input modified");
        for (int j = 1; j <= 16; j++) if (o[-j] != 0xD2) { h_fail("wrote before the output"); break; }
        for (int j = 0; j < al; j++) if (o[len + j] != 0xD2) { h_fail("wrote past the output"); break; }
    } else if (i[-1] != before) h_fail("wrote before the buffer");
    if (h_ne(k, key, kb)) h_fail("key modified");
    for (int j = 1; j <= 16; j++) if (s[-j] != 0xD1) { h_fail("wrote before the schedule"); break; }
    if (fr) {
        fr(s);
        for (size_t j = 0; j < schb; j++) if (s[j]) { h_fail("released schedule still holds byte %zu", j); break; }
        for (int j = 1; j <= 16; j++) if (s[-j] != 0xD1) { h_fail("release wrote outside the schedule"); break; }
    }
}
int main(int c, char **v)
{
    if (c < 3) return 2;
    h_start(); lv = atoi(v[2]);
    dl = dlopen(v[1], RTLD_NOW | RTLD_LOCAL);
    if (!dl) { fprintf(stderr, "%s\n", dlerror()); return 3; }
    gk = gend(); gs = gend(); gi = gend(); go = gend();
    static uint8_t pt[MAXB * 16], key[32];
    for (int w = 0; w < 2; w++) {
        bits = w ? 256 : 128; schb = w ? 240 : 176;
        ld = (load_f)have(w ? "AES256_load_schedule" : "AES128_load_schedule");
        en = (enc_fn)have(w ? "AES256_ECB_enc_sch" : "AES128_ECB_enc_sch");
        fr = (free_f)have(w ? "AES256_free_schedule" : "AES128_free_schedule");
        if (!ld || !en) { h_note("AES-%d functions not available with the known prototypes", bits); continue; }
        size_t kb = bits / 8;
        for (int bgk = 0; bgk < 3; bgk++) for (int bgp = 0; bgp < 3; bgp++) {
            uint8_t K[32], P[16];
            if (bgk == 2) h_bytes(K, 32, "aes key"); else memset(K, bgk ? 0xFF : 0, 32);
            if (bgp == 2) h_bytes(P, 16, "aes pt"); else memset(P, bgp ? 0xFF : 0, 16);
            if (h_mine()) one(K, P, 1, 0, 0, "background", bgk, bgp);
            for (size_t i = 0; i < 8 * kb; i++) { if (!h_mine()) continue; memcpy(key, K, 32); key[i / 8] ^= 1 << (i % 8); one(key, P, 1, 0, 0, "key bit", i, bgp); }
            for (int i = 0; i < 128; i++) { if (!h_mine()) continue; memcpy(pt, P, 16); pt[i / 8] ^= 1 << (i % 8); one(K, pt, 1, 0, 0, "block bit", i, bgk); }
            for (size_t i = 0; i < kb; i++) for (int x = 0; x < 256; x++) { if (!h_mine()) continue; memcpy(key, K, 32); key[i] = x; one(key, P, 1, 0, 0, "key byte", i, x); }
            for (int i = 0; i < 16; i++) for (int x = 0; x < 256; x++) { if (!h_mine()) continue; memcpy(pt, P, 16); pt[i] = x; one(K, pt, 1, 0, 0, "block byte", i, x); }
        }
        /* all values of byte pairs (adjacent in quick, all in thorough) */
        for (int i = 0; i < 16; i++) for (int j = i + 1; j < 16; j++) {
            if (lv < 2 && j != i + 1 && j != i + 4) continue;
            uint8_t K[32], P[16]; h_bytes(K, 32, "aes key"); h_bytes(P, 16, "aes pt");
            for (int x = 0; x < 65536; x++) {
                if (!h_mine()) continue;
                memcpy(pt, P, 16); pt[i] = x; pt[j] = x >> 8; one(K, pt, 1, x & 1, 0, "block byte pair", i * 16 + j, x);
                memcpy(key, K, 32); key[i] = x; key[j] = x >> 8; one(key, P, 1, 0, 0, "key byte pair", i * 16 + j, x);
            }
        }
        h_bytes(key, 32, "aes key"); h_bytes(pt, sizeof pt, "aes blocks");
        for (size_t nb = 0; nb <= 64; nb++) for (int ip = 0; ip < 2; ip++) for (int al = 0; al < (nb < 10 ? 17 : 2); al++) if (h_mine()) one(key, pt, nb, ip, al, "shape", 0, 0);
        static const size_t many[] = { 80, 122, 128, 160, 168, 244, 255, 256, 257, 320, 336, 511, 512, 513, 640, 672, 1023, 1024, 1025, 1280, 1344, 2047, 2048, 2049, 4095, 4096, 4097,
                                       8191, 8192, 8193, 12345, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537 };
        for (unsigned x = 0; x < sizeof many / sizeof *many; x++) for (int ip = 0; ip < 2; ip++) if (h_mine()) one(key, pt, many[x], ip, many[x] % 17, "many blocks", 0, 0);
        /* the counter blocks the matrix generation uses: all row/column pairs */
        uint8_t s[256] __attribute__((aligned(16))), wm[240], b[16], o[16], x[16];
        ld(key, s); m_aes_expand(bits, key, wm);
        for (int i = 0; i < 65536; i += lv >= 2 ? 1 : 7) for (int j = 0; j < 1344; j += lv >= 2 ? 56 : 168) {
            if (!h_mine()) continue;
            h_case("AES-%d counter block row %d column %d", bits, i, j);
            memset(b, 0, 16); b[0] = i; b[1] = i >> 8; b[2] = j; b[3] = j >> 8;
            en(b, 16, s, o); m_aes_block(bits, wm, b, x); h_calls++;
            if (h_ne(o, x, 16)) h_fail("block is wrong");
        }
    }
    h_sample("AES functions of %s, level %d: %ld cases", v[1], lv, h_cases);
    h_done();
}
