/* Buffers (C13): h_buf so set n gen LEVEL PKB SKB CTB CB
 * Every buffer lies between inaccessible pages, inputs are read-only while the library runs, and the position of
 * each buffer runs through every alignment. The announced sizes come from the public header. */
#include "h.h"
#include <setjmp.h>
#include <signal.h>

static lib_t L;
static size_t PKB, SKB, CTB, CB;
typedef struct { uint8_t *map, *lo, *hi, *p; size_t n; } gb_t;   /* lo..hi accessible */
static gb_t gpk, gsk, gct, gss;

static void galloc(gb_t *g, size_t n)
{
    size_t len = ((n + 64 + 4095) / 4096) * 4096;
    g->map = mmap(NULL, len + 2 * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (g->map == MAP_FAILED) exit(3);
    g->lo = g->map + 4096; g->hi = g->lo + len; g->n = n;
    mprotect(g->lo, len, PROT_READ | PROT_WRITE);
}
static void rw(gb_t *g, int w) { mprotect(g->lo, g->hi - g->lo, w ? PROT_READ | PROT_WRITE : PROT_READ); }
/* place: k >= 0: k bytes after the front page; k < 0: -1-k bytes before the end page */
static void place(gb_t *g, int k) { g->p = k >= 0 ? g->lo + k : g->hi - g->n - (-1 - k); }
static void canary(gb_t *g, int v) { memset(g->lo, v ^ 0x3C, g->p - g->lo); memset(g->p, v, g->n); memset(g->p + g->n, v ^ 0xC3, g->hi - g->p - g->n); }
static long broken(gb_t *g, int v)
{
    for (uint8_t *q = g->lo; q < g->p; q++) if (*q != (uint8_t)(v ^ 0x3C)) return (long)(q - g->p);
    for (uint8_t *q = g->p + g->n; q < g->hi; q++) if (*q != (uint8_t)(v ^ 0xC3)) return (long)(q - g->p);
    return 0;
}
static uint8_t rnd[96], mu[32], mpk[MAXPK], msk[MAXSK], mct[MAXCT], mss[64], rct[MAXCT], rss[64];

static sigjmp_buf jb; static volatile uintptr_t bad; static volatile int badsig; static volatile int armed;
static void onsig(int s, siginfo_t *i, void *x) { (void)x; if (!armed) _exit(99); bad = (uintptr_t)i->si_addr; badsig = s; siglongjmp(jb, 1); }
static void where(char *o, size_t n)
{
    gb_t *g[4] = { &gpk, &gsk, &gct, &gss }; const char *nm[4] = { "pk", "sk", "ct", "ss" };
    snprintf(o, n, "an address outside all buffers");
    for (int i = 0; i < 4; i++) if (bad >= (uintptr_t)g[i]->map && bad < (uintptr_t)g[i]->hi + 4096) snprintf(o, n, "%s%+ld (size %zu)", nm[i], (long)(bad - (uintptr_t)g[i]->p), g[i]->n);
}
#define CALL(expr) ({ int rc_ = -77; armed = 1; if (!sigsetjmp(jb, 1)) rc_ = (expr); else { char w_[100]; where(w_, sizeof w_); h_fail("signal %d touching %s", badsig, w_); rc_ = -78; } armed = 0; h_calls++; rc_; })

static void kp(int a, int b, int fill)
{
    h_case("%d n=%d keypair pk at %d sk at %d fill %02x", L.p.set, L.p.n, a, b, fill);
    place(&gpk, a); place(&gsk, b); canary(&gpk, fill); canary(&gsk, fill);
    rnd_feed(rnd, L.rndb);
    int rc = CALL(L.kp(gpk.p, gsk.p));
    rw(&gpk, 1); rw(&gsk, 1);
    if (rc == -78) return;
    if (rc) { h_fail("returned %d", rc); return; }
    if (broken(&gpk, fill)) h_fail("byte %ld relative to pk overwritten", broken(&gpk, fill));
    if (broken(&gsk, fill)) h_fail("byte %ld relative to sk overwritten", broken(&gsk, fill));
    long d;
    if ((d = h_diff(gpk.p, mpk, PKB)) >= 0) h_fail("pk byte %ld is %02x, not %02x as for aligned cleared buffers", d, gpk.p[d], mpk[d]);
    if ((d = h_diff(gsk.p, msk, SKB)) >= 0) h_fail("sk byte %ld is %02x, not %02x as for aligned cleared buffers", d, gsk.p[d], msk[d]);
}
static void enc(int a, int b, int c, int fill)
{
    h_case("%d n=%d enc ct at %d ss at %d pk at %d fill %02x", L.p.set, L.p.n, a, b, c, fill);
    place(&gct, a); place(&gss, b); place(&gpk, c); canary(&gct, fill); canary(&gss, fill);
    rw(&gpk, 1); canary(&gpk, fill); memcpy(gpk.p, mpk, PKB); rw(&gpk, 0);
    rnd_feed(mu, L.mub);
    int rc = CALL(L.enc(gct.p, gss.p, gpk.p));
    rw(&gpk, 1);
    if (rc == -78) return;
    if (rc) { h_fail("returned %d", rc); return; }
    if (broken(&gct, fill)) h_fail("byte %ld relative to ct overwritten", broken(&gct, fill));
    if (broken(&gss, fill)) h_fail("byte %ld relative to ss overwritten", broken(&gss, fill));
    long d;
    if ((d = h_diff(gct.p, mct, CTB)) >= 0) h_fail("ct byte %ld is %02x, not %02x as for aligned cleared buffers", d, gct.p[d], mct[d]);
    if ((d = h_diff(gss.p, mss, CB)) >= 0) h_fail("ss byte %ld is %02x, not %02x as for aligned cleared buffers", d, gss.p[d], mss[d]);
}
static void dec(int a, int b, int c, int fill, int rej)
{
    h_case("%d n=%d %s dec ss at %d ct at %d sk at %d fill %02x", L.p.set, L.p.n, rej ? "rejecting" : "accepting", a, b, c, fill);
    place(&gss, a); place(&gct, b); place(&gsk, c); canary(&gss, fill);
    rw(&gct, 1); rw(&gsk, 1); canary(&gct, fill); canary(&gsk, fill);
    memcpy(gct.p, rej ? rct : mct, CTB); memcpy(gsk.p, msk, SKB); rw(&gct, 0); rw(&gsk, 0);
    rnd_feed(NULL, 0);
    int rc = CALL(L.dec(gss.p, gct.p, gsk.p));
    rw(&gct, 1); rw(&gsk, 1);
    if (rc == -78) return;
    if (rc) { h_fail("returned %d", rc); return; }
    if (broken(&gss, fill)) h_fail("byte %ld relative to ss overwritten", broken(&gss, fill));
    long d;
    if ((d = h_diff(gss.p, rej ? rss : mss, CB)) >= 0) h_fail("ss byte %ld is %02x, not %02x as for aligned cleared buffers", d, gss.p[d], (rej ? rss : mss)[d]);
}

int main(int c, char **v)
{
    if (c < 10) return 2;
    h_start();
    L = lib_open(v[1], atoi(v[2]), atoi(v[3]), atoi(v[4]));
    int lv = atoi(v[5]);
    PKB = atoi(v[6]); SKB = atoi(v[7]); CTB = atoi(v[8]); CB = atoi(v[9]);
    h_case("%d announced sizes", L.p.set);
    if (PKB != L.pkb) h_fail("CRYPTO_PUBLICKEYBYTES is %zu, specified %zu", PKB, L.pkb);
    if (SKB != L.skb) h_fail("CRYPTO_SECRETKEYBYTES is %zu, specified %zu", SKB, L.skb);
    if (CTB != L.ctb) h_fail("CRYPTO_CIPHERTEXTBYTES is %zu, specified %zu", CTB, L.ctb);
    if (CB != L.cb) h_fail("CRYPTO_BYTES is %zu, specified %zu", CB, L.cb);
    if (h_fails) h_done();
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onsig; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGILL, &sa, 0); sigaction(SIGTRAP, &sa, 0);
    galloc(&gpk, PKB); galloc(&gsk, SKB); galloc(&gct, CTB); galloc(&gss, CB);
    h_bytes(rnd, 96, "buf"); h_bytes(mu, 32, "buf mu");
    /* reference values: the code itself with aligned cleared buffers */
    {
        static uint8_t __attribute__((aligned(64))) p[MAXPK + 4096], s[MAXSK + 4096], x[MAXCT + 4096], k[4096];
        armed = 1; if (sigsetjmp(jb, 1)) { h_fail("signal %d with aligned buffers", badsig); h_done(); }
        rnd_feed(rnd, L.rndb); if (L.kp(p, s)) h_fail("keypair failed");
        rnd_feed(mu, L.mub); if (L.enc(x, k, p)) h_fail("enc failed");
        memcpy(mpk, p, PKB); memcpy(msk, s, SKB); memcpy(mct, x, CTB); memcpy(mss, k, CB);
        memcpy(rct, x, CTB); rct[CTB - 1] ^= 1; memcpy(x, rct, CTB); if (L.dec(k, x, s)) h_fail("dec failed"); memcpy(rss, k, CB);
        armed = 0;
        if (L.p.n != L.p.set) {
            static uint8_t a[MAXPK], b[MAXSK]; m_keypair(&L.p, rnd, a, b, NULL);
            if (memcmp(a, mpk, PKB) || memcmp(b, msk, SKB)) { h_note("reduced instance does not match the model: not used"); h_done(); }
        }
    }
    int fills[] = { 0x00, 0xFF, 0xA5 };
    int nf = lv >= 1 ? 3 : 2;
    /* every alignment of each buffer, at both page borders, other buffers at two alignments */
    for (int f = 0; f < nf; f++) for (int end = 0; end < 2; end++) for (int a = 0; a < (lv >= 1 ? 33 : 8); a++) {
        int k = end ? -1 - a : a, z = end ? -1 : 0;
        if (!h_mine()) continue;
        kp(k, z, fills[f]); kp(z, k, fills[f]); kp(k, k, fills[f]);
        enc(k, z, z, fills[f]); enc(z, k, z, fills[f]); enc(z, z, k, fills[f]); enc(k, k, k, fills[f]);
        for (int r = 0; r < 2; r++) { dec(k, z, z, fills[f], r); dec(z, k, z, fills[f], r); dec(z, z, k, fills[f], r); dec(k, k, k, fills[f], r); }
    }
    int m = lv >= 2 ? 16 : lv == 1 ? 4 : 2;       /* all combinations of alignments */
    for (int a = 0; a < m; a++) for (int b = 0; b < m; b++) for (int d = 0; d < m; d++) {
        if (!h_mine()) continue;
        if (d == 0) kp(a, -1 - b, 0x5A);
        enc(a, b, -1 - d, 0x5A); dec(-1 - a, b, d, 0x5A, (a + b + d) & 1);
    }
    h_sample("%d n=%d: %ld placements", L.p.set, L.p.n, h_cases);
    h_done();
}
