/* Enumerations on the KEM API: h_kem MODE so set n gen LEVEL.   LEVEL 0 = smoke, 1 = lite, 2 = full. */
#include "h.h"

static lib_t L;
static int lv;
static uint8_t pk[MAXPK], sk[MAXSK], ct[MAXCT], ss[64];
static uint8_t mpk[MAXPK], msk[MAXSK], mct[MAXCT], mss[64];
static sec_t X, X2;
static uint8_t seen[8192];      /* raw sampler words seen */

static void words_seen(const uint8_t *raw, size_t cnt)
{
    for (size_t i = 0; i < cnt; i++) { unsigned w = raw[2 * i] | raw[2 * i + 1] << 8; seen[w / 8] |= 1 << (w % 8); }
}
static void words_report(void)
{
    long c = 0;
    for (int i = 0; i < 8192; i++) c += __builtin_popcount(seen[i]);
    h_count("sampler_words_of_65536_min1", c == 65536 ? 1 : 0);
}
static const char *hex(const uint8_t *b, size_t n)
{
    static char o[4][200]; static int k; k = (k + 1) & 3;
    if (n > 96) n = 96;
    for (size_t i = 0; i < n; i++) sprintf(o[k] + 2 * i, "%02x", b[i]);
    return o[k];
}

/* ---------------------------------------------------------------- single comparisons with the model */
static void one_keygen(const uint8_t *rnd, const char *what)
{
    h_case("%d n=%d keypair[%s] rnd=%s", L.p.set, L.p.n, what, hex(rnd, L.rndb));
    memset(pk, 0xA5, L.pkb); memset(sk, 0x5A, L.skb);
    rnd_feed(rnd, L.rndb);
    int rc = L.kp(pk, sk); h_calls++;
    m_keypair(&L.p, rnd, mpk, msk, &X);
    words_seen(X.raw, 2 * (size_t)L.p.n * NB);
    long d;
    if (rc) h_fail("returned %d", rc);
    else if (rnd_over || rnd_used != (long)L.rndb) h_fail("drew %ld random bytes instead of %zu", rnd_used, L.rndb);
    else if ((d = h_diff(pk, mpk, L.pkb)) >= 0) h_fail("public key byte %ld is %02x, specified %02x", d, pk[d], mpk[d]);
    else if ((d = h_diff(sk, msk, L.skb)) >= 0) h_fail("secret key byte %ld is %02x, specified %02x", d, sk[d], msk[d]);
}
static void one_enc(const uint8_t *p, const uint8_t *mu, const char *what, long i, long v)
{
    h_case("%d n=%d enc[%s %ld %ld] mu=%s", L.p.set, L.p.n, what, i, v, hex(mu, L.mub));
    memset(ct, 0xA5, L.ctb); memset(ss, 0x5A, L.cb);
    rnd_feed(mu, L.mub);
    int rc = L.enc(ct, ss, p); h_calls++;
    m_enc(&L.p, p, mu, mct, mss, &X);
    words_seen(X.raw, (2 * (size_t)L.p.n + NB) * NB);
    long d;
    if (rc) h_fail("returned %d", rc);
    else if (rnd_over || rnd_used != (long)L.mub) h_fail("drew %ld random bytes instead of %zu", rnd_used, L.mub);
    else if ((d = h_diff(ct, mct, L.ctb)) >= 0) h_fail("ciphertext byte %ld is %02x, specified %02x", d, ct[d], mct[d]);
    else if ((d = h_diff(ss, mss, L.cb)) >= 0) h_fail("shared secret byte %ld is %02x, specified %02x", d, ss[d], mss[d]);
}
static long n_acc, n_rej;
static int one_dec(const uint8_t *s, const uint8_t *c, const char *what, long i, long v)
{
    h_case("%d n=%d dec[%s %ld %ld]", L.p.set, L.p.n, what, i, v);
    memset(ss, 0x5A, sizeof ss);
    rnd_feed(NULL, 0);
    int rc = L.dec(ss, c, s); h_calls++;
    int acc = m_dec(&L.p, s, c, mss, &X);
    if (acc) n_acc++; else n_rej++;
    long d;
    if (rc) h_fail("returned %d", rc);
    else if (rnd_used) h_fail("drew %ld random bytes", rnd_used);
    else if ((d = h_diff(ss, mss, L.cb)) >= 0) h_fail("shared secret byte %ld is %02x, specified %02x (%s)", d, ss[d], mss[d], acc ? "accept" : "reject");
    return acc;
}

/* ---------------------------------------------------------------- C01 */
static void mode_keygen(void)
{
    uint8_t base[96], r[96];
    char w[64];
    h_bytes(base, sizeof base, "keygen %d", L.p.set);
    size_t f[4] = { 0, L.cb, 2 * L.cb, L.rndb };
    for (int a = 0; a < 27; a++) {           /* each of s, seedSE, z: zeros, ones, base */
        int v[3] = { a % 3, a / 3 % 3, a / 9 };
        if (lv == 0 && a != 0 && a != 13 && a != 26) continue;
        for (int k = 0; k < 3; k++)
            for (size_t i = f[k]; i < f[k + 1]; i++) r[i] = v[k] == 0 ? 0 : v[k] == 1 ? 0xFF : base[i];
        snprintf(w, sizeof w, "pattern %d", a);
        if (h_mine()) one_keygen(r, w);
    }
    if (lv == 0) { words_report(); return; }
    /* every single bit of s || seedSE || z */
    for (size_t i = 0; i < 8 * L.rndb; i++) {
        if (lv == 1 && i % 8 != (i / 8) % 8) continue;
        if (!h_mine()) continue;
        memcpy(r, base, sizeof r); r[i / 8] ^= 1 << (i % 8);
        snprintf(w, sizeof w, "bit %zu", i); one_keygen(r, w);
    }
    if (lv >= 2) {
        int toy = L.p.n != L.p.set;
        /* every value of every byte; z only where the matrix is cheap */
        for (size_t i = 0; i < (toy || h_thorough ? L.rndb : 2 * L.cb); i++)
            for (int v = 0; v < 256; v++) {
                if (!h_mine()) continue;
                memcpy(r, base, sizeof r); r[i] = v;
                snprintf(w, sizeof w, "byte %zu=%d", i, v); one_keygen(r, w);
            }
        if (toy) {
            /* every pair of flipped bits; every repeated byte; every pair of bytes in seedSE/z at zero background */
            size_t nb = 8 * L.rndb, st = h_thorough ? 1 : 3;
            for (size_t i = 0; i < nb; i++) for (size_t j = i + 1; j < nb; j += st) {
                if (!h_mine()) continue;
                memcpy(r, base, sizeof r); r[i / 8] ^= 1 << (i % 8); r[j / 8] ^= 1 << (j % 8);
                snprintf(w, sizeof w, "bits %zu,%zu", i, j); one_keygen(r, w);
            }
            for (int bg = 0; bg < 2; bg++)
                for (size_t i = 0; i < L.rndb; i++) for (int v = 0; v < 256; v++) {
                    if (!h_mine()) continue;
                    memset(r, bg ? 0xFF : 0, sizeof r); r[i] = v;
                    snprintf(w, sizeof w, "bg %d byte %zu=%d", bg, i, v); one_keygen(r, w);
                }
        }
        for (int v = 0; v < 256; v++) {
            if (!h_mine()) continue;
            memset(r, v, sizeof r); memcpy(r + 2 * L.cb, base, 16);
            snprintf(w, sizeof w, "all %d", v); one_keygen(r, w);
        }
    }
    words_report();
}

/* ---------------------------------------------------------------- C02 */
static void put_coeff(uint8_t *b, size_t i, int D, unsigned v)     /* MSB-first bit field */
{
    for (int l = 0; l < D; l++) {
        size_t bit = i * D + l; uint8_t m = 0x80 >> (bit % 8);
        if ((v >> (D - 1 - l)) & 1) b[bit / 8] |= m; else b[bit / 8] &= ~m;
    }
}
static const unsigned EXT[] = { 0, 1, 2, 3, 0x7F, 0x80, 0xFF, 0x100, 0x1FFF, 0x2000, 0x3FFF, 0x4000, 0x7FFE, 0x7FFF, 0x8000, 0x8001, 0xFFFE, 0xFFFF, 0x5555, 0xAAAA };
#define NEXT (sizeof EXT / sizeof *EXT)

static void mode_enc(void)
{
    int n = L.p.n, D = L.p.D, toy = n != L.p.set;
    uint8_t rnd[96], mu[32], m0[32];
    static uint8_t P[MAXPK], Q[MAXPK];
    h_bytes(rnd, sizeof rnd, "enc key %d", L.p.set);
    h_bytes(m0, 32, "enc mu %d", L.p.set);
    m_keypair(&L.p, rnd, P, msk, NULL);
    /* message patterns on honest key */
    for (int a = 0; a < 4; a++) {
        if (a < 2) memset(mu, a ? 0xFF : 0, 32); else if (a == 2) memcpy(mu, m0, 32); else for (int i = 0; i < 32; i++) mu[i] = i;
        if (h_mine()) one_enc(P, mu, "pattern", a, 0);
    }
    if (lv == 0) { words_report(); return; }
    for (size_t i = 0; i < 8 * L.mub; i++) {
        memcpy(mu, m0, 32); mu[i / 8] ^= 1 << (i % 8);
        if (lv == 1 && i % 8 != (i / 8) % 8) continue;
        if (h_mine()) one_enc(P, mu, "mu bit", i, 0);
    }
    /* extreme and degenerate public keys */
    for (size_t e = 0; e < NEXT; e++) {
        memcpy(Q, P, 16);
        for (int i = 0; i < n * NB; i++) put_coeff(Q + 16, i, D, EXT[e] & ((1u << D) - 1));
        if (lv == 1 && e % 4 != 3) continue;
        if (h_mine()) one_enc(Q, m0, "B const", EXT[e], 0);
    }
    for (int a = 0; a < 3; a++) {      /* seed extremes: all 0, all FF, bytes 0..15 */
        memcpy(Q, P, L.pkb);
        for (int i = 0; i < 16; i++) Q[i] = a == 0 ? 0 : a == 1 ? 0xFF : i;
        if (h_mine()) one_enc(Q, m0, "seedA", a, 0);
        memset(Q, a == 0 ? 0 : 0xFF, L.pkb);
        if (a < 2 && h_mine()) one_enc(Q, m0, "pk all", a, 0);
    }
    if (lv >= 2) {
        for (size_t i = 0; i < L.mub; i++) for (int v = 0; v < 256; v++) {
            if (!h_mine()) continue;
            memcpy(mu, m0, 32); mu[i] = v; one_enc(P, mu, "mu byte", i, v);
        }
        /* every byte of the public key changed; seed bytes change the matrix and are costly at full size */
        memcpy(Q, P, L.pkb);
        size_t st = toy || h_thorough || L.p.set == 640 ? 1 : 8;
        for (size_t i = toy || h_thorough ? 0 : 16; i < L.pkb; i++) {
            if (st > 1 && i > 16 + 64 && i + 64 < L.pkb && (i % st) != (i / st) % st) continue;
            for (int b = 0; b < 8; b++) {
                if (!toy && b != (int)(i % 8)) continue;
                if (!h_mine()) continue;
                Q[i] ^= 1 << b; one_enc(Q, m0, "pk bit", 8 * i + b, 0); Q[i] = P[i];
            }
        }
        if (!toy) for (int b = 0; b < 128; b += h_thorough ? 1 : 9) {
            if (!h_mine()) continue;
            Q[b / 8] ^= 1 << (b % 8); one_enc(Q, m0, "seedA bit", b, 0); Q[b / 8] = P[b / 8];
        }
        /* sparse public matrix: one coefficient set */
        memcpy(Q, P, 16); memset(Q + 16, 0, L.pkb - 16);
        for (int i = 0; i < n * NB; i++) {
            if (st > 1 && i > 64 && i + 64 < n * NB && (i % st) != (i / (int)st) % (int)st) continue;
            if (!h_mine()) continue;
            put_coeff(Q + 16, i, D, EXT[i % NEXT] & ((1u << D) - 1));
            one_enc(Q, m0, "B one-hot", i, EXT[i % NEXT]);
            put_coeff(Q + 16, i, D, 0);
        }
        if (toy) {
            for (size_t i = 0; i < L.pkb; i++) for (int v = 0; v < 256; v++) {
                if (!h_thorough && v % 5) continue;
                if (!h_mine()) continue;
                memcpy(Q, P, L.pkb); Q[i] = v; one_enc(Q, m0, "pk byte", i, v);
            }
            for (size_t i = 0; i < 8 * L.mub; i++) for (size_t j = i + 1; j < 8 * L.mub; j++) {
                if (!h_mine()) continue;
                memcpy(mu, m0, 32); mu[i / 8] ^= 1 << (i % 8); mu[j / 8] ^= 1 << (j % 8); one_enc(P, mu, "mu bits", i, j);
            }
            for (int bg = 0; bg < 2; bg++) for (size_t i = 0; i < L.mub; i++) for (int v = 0; v < 256; v++) {
                if (!h_mine()) continue;
                memset(mu, bg ? 0xFF : 0, 32); mu[i] = v; one_enc(P, mu, bg ? "mu FF bg" : "mu 0 bg", i, v);
            }
        }
        for (int v = 0; v < 256; v++) { if (!h_mine()) continue; memset(mu, v, 32); one_enc(P, mu, "mu all", v, 0); }
    }
    words_report();
}

/* ---------------------------------------------------------------- C03 */
static uint8_t *skS(uint8_t *s) { return s + L.cb + L.pkb; }
static uint8_t *skH(uint8_t *s) { return s + L.cb + L.pkb + 2 * (size_t)L.p.n * NB; }
static void putS(uint8_t *s, size_t i, unsigned v) { skS(s)[2 * i] = v; skS(s)[2 * i + 1] = v >> 8; }

static void mode_dec(void)
{
    int n = L.p.n, D = L.p.D, toy = n != L.p.set, nS = n * NB;
    uint8_t rnd[96], m0[32], k[32];
    static uint8_t K[MAXSK], K2[MAXSK], T[MAXSK], C0[MAXCT], C1[MAXCT], P2[MAXPK];
    unsigned qm = (1u << D) - 1;
    h_bytes(rnd, sizeof rnd, "dec key %d", L.p.set);
    h_bytes(m0, 32, "dec mu %d", L.p.set);
    m_keypair(&L.p, rnd, mpk, K, NULL);
    m_enc(&L.p, mpk, m0, C0, mss, NULL);
    h_bytes(rnd, sizeof rnd, "dec key2 %d", L.p.set);
    memcpy(P2, mpk, L.pkb);
    /* honest; unrelated key; patterns */
    if (h_mine() && !one_dec(K, C0, "honest", 0, 0)) h_fail("honest ciphertext not accepted by the model");
    if (h_mine()) { m_keypair(&L.p, rnd, mpk, K2, NULL); one_dec(K2, C0, "other key", 0, 0); }
    for (int a = 0; a < 2; a++) {
        memset(C1, a ? 0xFF : 0, L.ctb); if (h_mine()) one_dec(K, C1, "ct all", a, 0);
        memset(T, a ? 0xFF : 0, L.skb); if (h_mine()) one_dec(T, C0, "sk all", a, 0);
        if (h_mine()) one_dec(T, C1, "both all", a, 0);
    }
    if (lv == 0) { h_count("accepted", n_acc); h_count("rejected", n_rej); return; }
    /* messages: every bit, accept */
    for (size_t i = 0; i < 8 * L.mub; i++) {
        if (lv == 1 && i % 8 != (i / 8) % 8) continue;
        if (!h_mine()) continue;
        uint8_t mu[32]; memcpy(mu, m0, 32); mu[i / 8] ^= 1 << (i % 8);
        m_enc(&L.p, P2, mu, C1, mss, NULL); one_dec(K, C1, "accept mu bit", i, 0);
    }
    /* pkh and s: every bit */
    for (size_t i = 0; i < 8 * L.cb; i++) {
        if (lv == 1 && i % 8 != (i / 8) % 8) continue;
        if (h_mine()) { memcpy(T, K, L.skb); skH(T)[i / 8] ^= 1 << (i % 8); one_dec(T, C0, "pkh bit", i, 0); }
        if (h_mine()) { memcpy(T, K, L.skb); T[i / 8] ^= 1 << (i % 8); one_dec(T, C0, "s bit, accept", i, 0); }
        if (h_mine()) { memcpy(T, K, L.skb); T[i / 8] ^= 1 << (i % 8); memcpy(C1, C0, L.ctb); C1[i] ^= 4; one_dec(T, C1, "s bit, reject", i, 0); }
    }
    /* S extremes: constant matrices and C / B' extremes */
    for (size_t e = 0; e < NEXT; e++) {
        if (lv == 1 && e % 4 != 3) continue;
        memcpy(T, K, L.skb);
        for (int i = 0; i < nS; i++) putS(T, i, EXT[e]);
        if (h_mine()) one_dec(T, C0, "S const", EXT[e], 0);
        for (int i = 0; i < (int)(8 * L.ctb / D); i++) put_coeff(C1, i, D, EXT[e] & qm);
        if (h_mine()) one_dec(K, C1, "ct const coeff", EXT[e], 0);
        if (h_mine()) one_dec(T, C1, "S and ct const", EXT[e], 0);
        for (size_t f = 0; f < NEXT; f += lv == 1 ? 7 : 1) {
            for (int i = 0; i < nS; i++) putS(T, i, EXT[f]);
            if (h_mine()) one_dec(T, C1, "S const x ct const", EXT[f], EXT[e]);
        }
    }
    if (lv >= 2) {
        size_t st = toy || h_thorough || L.p.set == 640 ? 1 : 8;
        /* S one-hot at every position with extreme values (S = 0 elsewhere) */
        memcpy(T, K, L.skb); memset(skS(T), 0, 2 * nS);
        for (int i = 0; i < nS; i++) {
            if (st > 1 && i > 64 && i + 64 < nS && (i % st) != (i / st) % st) continue;
            if (!h_mine()) continue;
            putS(T, i, EXT[i % NEXT]); one_dec(T, C0, "S one-hot", i, EXT[i % NEXT]); putS(T, i, 0);
        }
        /* honest S, one entry changed by +-1: mostly accepted */
        memcpy(T, K, L.skb);
        for (int i = 0; i < nS; i++) {
            if (st > 1 && i > 64 && i + 64 < nS && (i % st) != (i / st) % st) continue;
            if (!h_mine()) continue;
            unsigned o = skS(T)[2 * i] | skS(T)[2 * i + 1] << 8;
            putS(T, i, o + (i & 1 ? 1 : -1)); one_dec(T, C0, "S entry +-1", i, 0); putS(T, i, o);
        }
        /* public part of the secret key: every byte */
        memcpy(T, K, L.skb);
        for (size_t i = toy || h_thorough ? 0 : 16; i < L.pkb; i++) {
            if (st > 1 && i > 64 && i + 64 < L.pkb && (i % st) != (i / st) % st) continue;
            if (!h_mine()) continue;
            T[L.cb + i] ^= 1 << (i % 8); one_dec(T, C0, "sk.pk bit", i, 0); T[L.cb + i] ^= 1 << (i % 8);
        }
        /* ciphertext: every coefficient changed by one bit */
        memcpy(C1, C0, L.ctb);
        for (size_t i = 0; i < L.ctb; i++) {
            if (st > 1 && i > 64 && i + 160 < L.ctb && (i % st) != (i / st) % st) continue;
            if (!h_mine()) continue;
            C1[i] ^= 1 << (i % 8); one_dec(K, C1, "ct bit", 8 * i + i % 8, 0); C1[i] = C0[i];
        }
        /* rejection value: every byte value */
        for (size_t i = 0; i < L.cb; i++) for (int v = 0; v < 256; v += toy ? 1 : 5) {
            if (!h_mine()) continue;
            memcpy(T, K, L.skb); T[i] = v; memcpy(C1, C0, L.ctb); C1[0] ^= 0x80; one_dec(T, C1, "s byte", i, v);
        }
        if (toy) {
            for (size_t i = 0; i < L.skb; i++) for (int v = 0; v < 256; v++) {
                if (!h_thorough && (v % 3)) continue;
                if (!h_mine()) continue;
                memcpy(T, K, L.skb); T[i] = v; one_dec(T, C0, "sk byte", i, v);
            }
            for (size_t i = 0; i < L.ctb; i++) for (int v = 0; v < 256; v++) {
                if (!h_mine()) continue;
                memcpy(C1, C0, L.ctb); C1[i] = v; one_dec(K, C1, "ct byte", i, v);
            }
            for (size_t i = 0; i < 8 * L.mub; i++) for (size_t j = i + 1; j < 8 * L.mub; j++) {
                if (!h_thorough && (i + j) % 3) continue;
                if (!h_mine()) continue;
                uint8_t mu[32]; memcpy(mu, m0, 32); mu[i / 8] ^= 1 << (i % 8); mu[j / 8] ^= 1 << (j % 8);
                m_enc(&L.p, P2, mu, C1, mss, NULL); one_dec(K, C1, "accept mu bits", i, j);
            }
        }
        /* every value of every message byte, accepted */
        for (size_t i = 0; i < L.mub; i++) for (int v = 0; v < 256; v += toy || h_thorough ? 1 : 5) {
            if (!h_mine()) continue;
            uint8_t mu[32]; memcpy(mu, m0, 32); mu[i] = v;
            m_enc(&L.p, P2, mu, C1, mss, NULL); one_dec(K, C1, "accept mu byte", i, v);
        }
    }
    (void)k;
    h_count("accepted", n_acc); h_count("rejected", n_rej);
}

/* ---------------------------------------------------------------- C04: crafted keys with chosen error */
/* S = 0, so W = C; pkh and mu fix S', E', E''; B is solved so that S'B + E'' = e for any wanted e. */
static int J[NB]; static uint16_t Inv[NB][NB]; static uint16_t Ep0[NB * NB];
static int solve_setup(const sec_t *x)       /* finds 8 columns of S' with odd determinant, inverts mod 2^16 */
{
    int n = L.p.n, r = 0;
    uint16_t M[NB][NB];
    /* greedy: choose columns that extend the rank mod 2 */
    uint8_t basis[NB]; int nb = 0;
    for (int j = 0; j < n && nb < NB; j++) {
        uint8_t v = 0;
        for (int i = 0; i < NB; i++) v |= (x->Sp[(size_t)i * n + j] & 1) << i;
        uint8_t w = v;
        for (int b = 0; b < nb; b++) if ((w ^ basis[b]) < w) w ^= basis[b];
        if (w) { basis[nb] = w; J[nb++] = j;
            for (int a = 0; a < nb; a++) for (int b = a + 1; b < nb; b++) if (basis[b] > basis[a]) { uint8_t t = basis[a]; basis[a] = basis[b]; basis[b] = t; }
        }
    }
    if (nb < NB) return 0;
    uint16_t A[NB][2 * NB];
    for (int i = 0; i < NB; i++) for (int j = 0; j < NB; j++) { M[i][j] = x->Sp[(size_t)i * n + J[j]]; A[i][j] = M[i][j]; A[i][NB + j] = i == j; }
    for (r = 0; r < NB; r++) {
        int p = r; while (p < NB && !(A[p][r] & 1)) p++;
        if (p == NB) return 0;
        if (p != r) for (int c = 0; c < 2 * NB; c++) { uint16_t t = A[p][c]; A[p][c] = A[r][c]; A[r][c] = t; }
        uint16_t inv = 1; for (int k = 0; k < 5; k++) inv = (uint16_t)(inv * (2 - A[r][r] * inv));
        for (int c = 0; c < 2 * NB; c++) A[r][c] = (uint16_t)(A[r][c] * inv);
        for (int i = 0; i < NB; i++) if (i != r) { uint16_t f = A[i][r]; for (int c = 0; c < 2 * NB; c++) A[i][c] = (uint16_t)(A[i][c] - (uint32_t)f * A[r][c]); }
    }
    for (int i = 0; i < NB; i++) for (int j = 0; j < NB; j++) Inv[i][j] = A[i][NB + j];
    for (int i = 0; i < NB * NB; i++) Ep0[i] = x->Epp[i];
    return 1;
}
static uint8_t KK[MAXSK], CT0[MAXCT]; static uint16_t ENC0[NB * NB]; static uint8_t KEY0[32];
static void crafted(const uint16_t *e)       /* fills sk.B and ct.C for the wanted error */
{
    for (int c = 0; c < NB; c++)
        for (int a = 0; a < NB; a++) {
            uint16_t v = 0;
            for (int b = 0; b < NB; b++) v = (uint16_t)(v + (uint32_t)Inv[a][b] * (uint16_t)(e[b * NB + c] - Ep0[b * NB + c]));
            put_coeff(KK + L.cb + 16, (size_t)J[a] * NB + c, L.p.D, v & ((1u << L.p.D) - 1));
        }
    for (int i = 0; i < NB * NB; i++)
        put_coeff(CT0 + (size_t)L.p.D * L.p.n, i, L.p.D, (uint16_t)(ENC0[i] + e[i]) & ((1u << L.p.D) - 1));
}
static int in_tol(int e) { int t = 1 << (L.p.D - L.p.B - 1); return e >= -t && e < t; }
static void tol_case(const uint16_t *e, int accept, const char *what, long i, long v)
{
    h_case("%d n=%d tolerance[%s %ld %ld] expect %s", L.p.set, L.p.n, what, i, v, accept ? "recovery" : "rejection");
    crafted(e);
    memset(ss, 0, sizeof ss);
    int rc = L.dec(ss, CT0, KK); h_calls++;
    m_F(&L.p, mss, CT0, accept ? KEY0 : KK);
    if (accept) n_acc++; else n_rej++;
    if (rc) h_fail("returned %d", rc);
    else if (h_ne(ss, mss, L.cb)) h_fail("shared secret is not the %s one", accept ? "encapsulated" : "rejection");
}
static void mode_tol(void)
{
    int D = L.p.D, B = L.p.B, tol = 1 << (D - B - 1), q = 1 << D;
    uint8_t rnd[96], mu[32], k[32];
    uint16_t e[NB * NB];
    for (int mi = 0; mi < (lv >= 2 ? 4 : 1); mi++) {
        int tries = 0;
        do {
            h_bytes(rnd, sizeof rnd, "tol key %d %d %d", L.p.set, mi, tries);
            h_bytes(mu, 32, "tol mu %d %d %d", L.p.set, mi, tries);
            if (mi == 1) memset(mu, 0, 32);
            if (mi == 2) memset(mu, 0xFF, 32);
            m_keypair(&L.p, rnd, mpk, KK, NULL);
            memset(skS(KK), 0, 2 * (size_t)L.p.n * NB);
            memcpy(skH(KK), rnd + 64, L.cb);
            memset(KK + L.cb + 16, 0, L.pkb - 16);
            m_enc_pkh(&L.p, KK + L.cb, skH(KK), mu, CT0, KEY0, &X);
        } while (!solve_setup(&X) && ++tries < 50);
        if (tries >= 50) { h_note("no invertible block found"); continue; }
        m_encode(&L.p, ENC0, mu);
        /* check the construction against the model once */
        for (int i = 0; i < NB * NB; i++) e[i] = (uint16_t)((i * 37) % tol);
        crafted(e);
        if (!m_dec(&L.p, KK, CT0, mss, &X2)) { h_note("crafted instance rejected by the model: construction skipped"); continue; }
        /* every tolerated error value at every coefficient position */
        int step = mi == 0 && (lv >= 2 || L.p.n != L.p.set) ? 1 : 16;
        if (lv == 1) step *= 8;
        if (lv <= 0) step = tol / 2;
        for (int v = 0; v < 2 * tol; v += step) {
            if (!h_mine()) continue;
            for (int i = 0; i < NB * NB; i++) { int w = (v + i * (2 * tol / (NB * NB)) + (i & 1)) % (2 * tol) - tol; e[i] = (uint16_t)w; }
            tol_case(e, 1, "all positions, rotation", v, 0);
            h_count("error_value_positions", 64);
        }
        /* boundaries alone and together */
        int bd[] = { -tol, -tol + 1, -1, 0, 1, tol - 1 };
        for (int b = 0; b < 6; b++) {
            for (int i = 0; i < NB * NB; i++) e[i] = (uint16_t)bd[b];
            if (h_mine()) tol_case(e, 1, "all equal", bd[b], 0);
            for (int i = 0; i < NB * NB; i++) {
                if (lv <= 0 && i % (lv ? 63 : 21)) continue;
                if (!h_mine()) continue;
                memset(e, 0, sizeof e); e[i] = (uint16_t)bd[b]; tol_case(e, 1, "single", i, bd[b]);
            }
        }
        /* just outside, and far outside, at every position alone */
        int ob[] = { -tol - 1, tol, tol + 1, 2 * tol, -2 * tol, q / 2, q / 2 - 1, -q / 2 + 1, 3 * tol - 1 };
        for (unsigned b = 0; b < sizeof ob / sizeof *ob; b++)
            for (int i = 0; i < NB * NB; i++) {
                if (lv <= 0 && i % (lv ? 63 : 21)) continue;
                if (!h_mine()) continue;
                memset(e, 0, sizeof e); e[i] = (uint16_t)ob[b]; tol_case(e, 0, "single outside", i, ob[b]);
            }
        /* every error value of Z_q at position (v mod 64) */
        for (int v = 0; v < q; v += mi == 0 && lv >= 2 ? 1 : lv >= 1 ? 64 : lv ? 16384 : 4096) {
            if (!h_mine()) continue;
            int w = v >= q / 2 ? v - q : v;
            memset(e, 0, sizeof e); e[(v + v / 64) % 64] = (uint16_t)w; tol_case(e, in_tol(w), "every value", (v + v / 64) % 64, w);
        }
    }
    /* honest round trips, both sides by the code under test */
    h_bytes(rnd, sizeof rnd, "rt key %d", L.p.set);
    rnd_feed(rnd, L.rndb);
    h_case("%d round trip keypair", L.p.set);
    if (L.kp(pk, sk)) h_fail("keypair failed");
    for (size_t i = 0; i < 8 * L.mub; i++) {
        if (lv <= 0 && i % (lv ? 64 : 16)) continue;
        if (!h_mine()) continue;
        h_bytes(mu, 32, "rt mu"); mu[i / 8] ^= 1 << (i % 8);
        uint8_t s2[64];
        h_case("%d n=%d round trip message bit %zu", L.p.set, L.p.n, i);
        rnd_feed(mu, L.mub);
        if (L.enc(ct, ss, pk) || L.dec(s2, ct, sk) || h_ne(ss, s2, L.cb)) h_fail("secrets differ");
        h_calls += 2; n_acc++;
    }
    for (int i = 0; i < (L.p.n != L.p.set ? 8000 : lv >= 2 ? 256 : lv == 1 ? 32 : lv ? 1 : 4); i++) {
        if (!h_mine()) continue;
        uint8_t s2[64];
        h_bytes(rnd, sizeof rnd, "rt key %d %d", L.p.set, i);
        h_bytes(mu, 32, "rt mu %d", i);
        h_case("%d n=%d round trip key %d", L.p.set, L.p.n, i);
        rnd_feed(rnd, L.rndb); L.kp(pk, sk);
        rnd_feed(mu, L.mub);
        if (L.enc(ct, ss, pk) || L.dec(s2, ct, sk) || h_ne(ss, s2, L.cb)) h_fail("secrets differ");
        h_calls += 3; n_acc++;
    }
    (void)k;
    h_count("accepted", n_acc); h_count("rejected", n_rej);
}

/* ---------------------------------------------------------------- C05 */
static uint8_t RK[MAXSK], RC0[MAXCT], RC[MAXCT], RKEY[32];
static void rej_case(const char *what, long a, long b, long c)
{
    h_case("%d n=%d reject[%s %ld %ld %ld]", L.p.set, L.p.n, what, a, b, c);
    memset(ss, 0, sizeof ss);
    int rc = L.dec(ss, RC, RK); h_calls++; n_rej++;
    m_F(&L.p, mss, RC, RK);
    if (rc) h_fail("returned %d", rc);
    else if (h_ne(ss, mss, L.cb)) {
        uint8_t acc[64]; m_F(&L.p, acc, RC, RKEY);
        h_fail("%s", h_ne(ss, acc, L.cb) ? "secret is neither the rejection value nor the re-derived one" : "modified ciphertext ACCEPTED");
    }
}
static void flip(size_t bit) { RC[bit / 8] ^= 0x80 >> (bit % 8); }
static void mode_rej(int zeroS)
{
    int n = L.p.n, D = L.p.D, toy = n != L.p.set;
    uint8_t rnd[96], mu[32];
    size_t nbits = 8 * L.ctb, nco = nbits / D, n1 = (size_t)n * NB;
    h_bytes(rnd, sizeof rnd, "rej key %d", L.p.set);
    h_bytes(mu, 32, "rej mu %d", L.p.set);
    m_keypair(&L.p, rnd, mpk, RK, NULL);
    if (zeroS) {
        /* S = 0 and a public matrix that makes S'B + E'' small: the decoded message is independent of B' */
        memset(skS(RK), 0, 2 * n1); memset(RK + L.cb + 16, 0, L.pkb - 16);
    }
    uint8_t k[32];
    m_enc_pkh(&L.p, RK + L.cb, skH(RK), mu, RC0, k, NULL);
    memcpy(RKEY, k, L.cb);
    memcpy(RC, RC0, L.ctb);
    h_case("%d n=%d base", L.p.set, n);
    L.dec(ss, RC, RK); h_calls++;
    m_F(&L.p, mss, RC, k);
    if (!m_dec(&L.p, RK, RC0, mss, NULL)) { h_note("base not accepted by model"); h_done(); }
    if (h_ne(ss, mss, L.cb)) h_fail("unmodified ciphertext not accepted");
    n_acc++;
    /* single bits */
    int stride = lv >= 2 ? 1 : lv == 1 ? D : D * 16;
    for (size_t i = 0; i < nbits; i++) {
        if (lv < 2 && i >= 2 * (size_t)D && i + 64 * D < nbits && (i % stride) != (i / stride) % stride) continue;
        if (lv <= 0 && i % (lv ? 31 : 7)) continue;
        if (!h_mine()) continue;
        flip(i); rej_case("bit", i, 0, 0); flip(i);
    }
    if (lv <= 0) goto out;
    /* k copies of the same bit: sums and parities that cancel */
    for (int b = 0; b < D; b++) {
        memcpy(RC, RC0, L.ctb);
        for (size_t c = 0; c < (zeroS ? n1 : nco); c++) {
            flip(c * D + b);
            size_t kk = c + 1;
            int want = (toy && lv >= 2) || (kk & (kk - 1)) == 0 || kk % 4096 == 0 || kk == n1 || (lv >= 2 && kk % 64 == 0) || kk < 20;
            if (want && h_mine()) rej_case("copies of bit", kk, b, 0);
        }
        memcpy(RC, RC0, L.ctb);
    }
    /* two coefficients with complementary differences: d and -d, d and 2^16-d, d and d */
    size_t pr[][2] = { { 0, 1 }, { 0, n1 - 1 }, { n1 - 2, n1 - 1 }, { 1, 8 }, { n / 2, n }, { 7, n1 / 2 + 3 } };
    for (unsigned p = 0; p < 6; p++)
        for (unsigned d = 1; d < (1u << D); d++) {
            if ((!toy || lv < 2) && (d & (d - 1)) && d % 257) continue;
            if (toy && !h_thorough && (d & (d - 1)) && (p > 1 ? d % 64 : d % 3)) continue;
            unsigned dd[3] = { d, (1u << D) - d, ~d & ((1u << D) - 1) };
            for (int s = 0; s < 3; s++) {
                if (!dd[s] && s != 2) continue;
                if (!h_mine()) continue;
                memcpy(RC, RC0, L.ctb);
                for (int l = 0; l < D; l++) {
                    if ((d >> (D - 1 - l)) & 1) flip(pr[p][0] * D + l);
                    if ((dd[s] >> (D - 1 - l)) & 1) flip(pr[p][1] * D + l);
                }
                rej_case("pair of differences", (long)pr[p][0] * 65536 + pr[p][1], d, dd[s]);
            }
        }
    memcpy(RC, RC0, L.ctb);
    /* swaps of coefficients and of rows; adding q/2 everywhere; zeroing ranges; repeated block */
    for (size_t c = 0; c + 1 < nco; c++) {
        if (!toy && lv < 2 && c % 16 && c < n1 - 8) continue;
        if (!h_mine()) continue;
        static uint16_t V[MAXN * NB + 64];
        m_unpack(V, RC0, nco, D);
        if (V[c] == V[c + 1]) continue;
        memcpy(RC, RC0, L.ctb);
        put_coeff(RC, c, D, V[c + 1]); put_coeff(RC, c + 1, D, V[c]);
        rej_case("swapped coefficients", c, 0, 0);
        memcpy(RC, RC0, L.ctb);
    }
    if (toy && lv >= 2) {      /* every pair of bits */
        for (size_t i = 0; i < nbits; i++) {
            flip(i);
            for (size_t j = i + 1; j < nbits; j++) {
                if (!h_thorough && (i + j) % 16 && j - i > 18 && j + 130 < nbits) continue;
                if (!h_mine()) continue;
                flip(j); rej_case("bits", i, j, 0); flip(j);
            }
            flip(i);
        }
        /* every value of every coefficient */
        static uint16_t V[MAXN * NB + 64];
        m_unpack(V, RC0, nco, D);
        for (size_t c = 0; c < nco; c++) for (unsigned v = 0; v < (1u << D); v++) {
            if (v == V[c]) continue;
            if (!h_thorough && (v + c) % 256 && (v ^ V[c]) > 32 && v != V[c] + 1u) continue;
            if (!h_mine()) continue;
            put_coeff(RC, c, D, v); rej_case("coefficient value", c, v, 0); put_coeff(RC, c, D, V[c]);
        }
        /* every value of every byte of every rejection secret */
        for (size_t i = 0; i < L.cb; i++) for (int v = 0; v < 256; v++) {
            if (!h_mine()) continue;
            uint8_t o = RK[i]; RK[i] = v; flip(13); rej_case("s byte", i, v, 0); flip(13); RK[i] = o;
        }
    }
    /* multi-byte patterns: whole ciphertext, single bytes to 0/FF, xor with constant */
    for (int v = 0; v < 256; v++) {
        if (h_mine()) { memset(RC, v, L.ctb); if (h_ne(RC, RC0, L.ctb)) rej_case("constant", v, 0, 0); }
        if (v && h_mine()) { for (size_t i = 0; i < L.ctb; i++) RC[i] = RC0[i] ^ v; rej_case("xor all", v, 0, 0); }
        memcpy(RC, RC0, L.ctb);
    }
out:
    h_count("accepted", n_acc); h_count("rejected", n_rej);
}

int main(int c, char **v)
{
    if (c < 7) return 2;
    h_start();
    L = lib_open(v[2], atoi(v[3]), atoi(v[4]), atoi(v[5]));
    lv = atoi(v[6]);
    int toy = L.p.n != L.p.set;
    if (toy) {
        /* binding gate: the reduced instance must behave like the model on honest runs, else it is not a
         * faithful reduction of this source and nothing is concluded from it */
        uint8_t rnd[96], mu[32];
        for (int i = 0; i < 3; i++) {
            h_bytes(rnd, 96, "gate %d", i); h_bytes(mu, 32, "gate mu %d", i);
            rnd_feed(rnd, L.rndb);
            int bad = L.kp(pk, sk); m_keypair(&L.p, rnd, mpk, msk, NULL);
            bad |= h_ne(pk, mpk, L.pkb) || h_ne(sk, msk, L.skb);
            rnd_feed(mu, L.mub);
            bad |= L.enc(ct, ss, mpk); m_enc(&L.p, mpk, mu, mct, mss, NULL);
            bad |= h_ne(ct, mct, L.ctb) || h_ne(ss, mss, L.cb);
            bad |= L.dec(ss, mct, msk); bad |= h_ne(ss, mss, L.cb);
            if (bad) { h_note("reduced instance does not match the model on honest runs: not used"); h_done(); }
        }
    }
    if (!strcmp(v[1], "gate")) h_done();
    if (!strcmp(v[1], "keygen")) mode_keygen();
    else if (!strcmp(v[1], "enc")) mode_enc();
    else if (!strcmp(v[1], "dec")) mode_dec();
    else if (!strcmp(v[1], "tol")) mode_tol();
    else if (!strcmp(v[1], "rej")) mode_rej(0);
    else if (!strcmp(v[1], "rejz")) mode_rej(1);
    else return 2;
    h_sample("%s set=%d n=%d gen=%d level=%d shard %d/%d: %ld cases", v[1], L.p.set, L.p.n, L.p.gen, lv, h_shard, h_nshard, h_cases);
    h_done();
}
