/* Component enumerations: h_comp MODE so set n gen LEVEL ; env HAVE = comma list of functions with the known prototype */
#include "h.h"

static lib_t L; static int lv, n, D, nc;      /* nc = n*8 */
#define AL __attribute__((aligned(64)))
static uint16_t a16[MAXN * NB + 64] AL, b16[MAXN * NB + 64] AL, c16[MAXN * NB + 64] AL, x16[MAXN * NB + 64] AL;
static uint8_t y8[MAXCT + 64] AL, z8[MAXCT + 64] AL;
static const unsigned EXT[] = { 0, 1, 2, 3, 0x7F, 0x80, 0xFF, 0x100, 0x1FFF, 0x2000, 0x3FFF, 0x4000, 0x7FFE, 0x7FFF, 0x8000, 0x8001, 0xFFFE, 0xFFFF, 0x5555, 0xAAAA };
#define NEXT ((int)(sizeof EXT / sizeof *EXT))

static void *have(const char *f)
{
    const char *h = getenv("HAVE"); char b[80];
    snprintf(b, sizeof b, ",%s,", f);
    void *p = h && strstr(h, b) ? lib_sym(&L, f) : NULL;
    if (!p) h_note("%s is not available with the known prototype: its component enumeration is skipped", f);
    return p;
}
#define GET(type, name, args) type (*name) args = have(#name)
/* A function that is wrong on ordinary input while the library as a whole is checked on such input by the API runs of the same
 * check must be following another internal convention than the one assumed here: its component enumeration is skipped. */
#define GATE(name, ok) do { if (name && !(ok)) { name = NULL; h_note(#name " follows another internal convention: its component enumeration is skipped"); } } while (0)
static int ord16(uint16_t *x, size_t cnt, const char *l) { h_bytes((uint8_t *)x, 2 * cnt, "%s", l); return 1; }
static void ordnoise(uint16_t *x, size_t cnt, const char *l) { ord16(x, cnt, l); for (size_t i = 0; i < cnt; i++) x[i] = (uint16_t)m_sample(L.p.set, x[i]); }
static int same(const uint16_t *a, const uint16_t *b, size_t cnt, unsigned m) { for (size_t i = 0; i < cnt; i++) if ((a[i] ^ b[i]) & m) return 0; return 1; }

/* ---------------------------------------------------------------- noise sampler */
static void mode_sample(void)
{
    GET(void, frodo_sample_n, (uint16_t *, const size_t));
    if (!frodo_sample_n) return;
    ord16(a16, nc, "ordinary"); for (int i = 0; i < nc; i++) b16[i] = (uint16_t)m_sample(L.p.set, a16[i]);
    frodo_sample_n(a16, nc);
    GATE(frodo_sample_n, same(a16, b16, nc, 0xFFFF));
    if (!frodo_sample_n) return;
    static int16_t tab[65536];
    for (int r = 0; r < 65536; r++) tab[r] = m_sample(L.p.set, r);
    size_t lens[2] = { (size_t)nc, 64 };
    for (int k = 0; k < 2; k++) {
        size_t len = lens[k];
        for (long r = 0; r < 65536; r += (k == 0 && lv < 2) ? 64 : 1) {      /* every word at every position */
            if (!h_mine()) continue;
            h_case("%d sample len=%zu rotation=%ld", L.p.set, len, r);
            for (size_t i = 0; i < len; i++) a16[i] = (uint16_t)(r + i * 13);
            for (int i = 0; i < 16; i++) a16[len + i] = 0xBEEF;
            frodo_sample_n(a16, len); h_calls++;
            for (size_t i = 0; i < len; i++)
                if (a16[i] != (uint16_t)tab[(uint16_t)(r + i * 13)]) {
                    h_fail("word %04lx at position %zu sampled to %d, specified %d", (r + (long)i * 13) & 0xFFFF, i, (int16_t)a16[i], tab[(uint16_t)(r + i * 13)]); break; }
            for (int i = 0; i < 16; i++) if (a16[len + i] != 0xBEEF) { h_fail("wrote past the array"); break; }
            h_count("word_positions", (long)len);
        }
    }
}

/* ---------------------------------------------------------------- packing */
static void put(uint8_t *b, size_t i, unsigned v)
{
    for (int l = 0; l < D; l++) { size_t bit = i * D + l; uint8_t m = 0x80 >> (bit % 8); if ((v >> (D - 1 - l)) & 1) b[bit / 8] |= m; else b[bit / 8] &= ~m; }
}
static void mode_pack(void)
{
    GET(void, frodo_pack, (unsigned char *, const size_t, const uint16_t *, const size_t, const unsigned char));
    GET(void, frodo_unpack, (uint16_t *, const size_t, const unsigned char *, const size_t, const unsigned char));
    size_t cnts[2] = { (size_t)nc, 64 };
    unsigned in = 0xFFFF;                     /* the inputs frodo_pack takes: all words, or only reduced ones */
    ord16(a16, nc, "ordinary"); for (int i = 0; i < nc; i++) b16[i] = a16[i] & ((1u << D) - 1);
    m_pack(y8, b16, nc, D);
    if (frodo_pack) {
        frodo_pack(z8, (size_t)nc * D / 8, a16, nc, D);
        if (h_ne(z8, y8, (size_t)nc * D / 8)) { in = (1u << D) - 1; h_note("frodo_pack takes reduced words only"); frodo_pack(z8, (size_t)nc * D / 8, b16, nc, D); }
    }
    GATE(frodo_pack, !h_ne(z8, y8, (size_t)nc * D / 8));
    if (frodo_unpack) frodo_unpack(a16, nc, y8, (size_t)nc * D / 8, D);
    GATE(frodo_unpack, same(a16, b16, nc, 0xFFFF));
    for (int k = 0; k < 2; k++) {
        size_t cnt = cnts[k], nb = cnt * D / 8;
        for (int bg = 0; bg < 2; bg++) {
            /* one coefficient with one bit changed, incl. bits above D, against the background */
            for (size_t i = 0; frodo_pack && i < cnt; i++) for (int b = 0; b < 16; b++) {
                if (lv < 2 && k == 0 && i > 64 && i + 64 < cnt && (int)(i % 16) != b) continue;
                if (!h_mine()) continue;
                h_case("%d pack cnt=%zu bg=%d coeff=%zu bit=%d", L.p.set, cnt, bg, i, b);
                uint16_t v = bg ? 0xFFFF & in : 0;
                for (size_t j = 0; j < cnt; j++) a16[j] = v;
                a16[i] ^= (1 << b) & in;
                memset(y8, bg ? 0xFF : 0, nb); put(y8, i, a16[i]);
                memset(z8, 0x3C, nb + 16);
                frodo_pack(z8, nb, a16, cnt, D); h_calls++;
                long d = h_diff(z8, y8, nb);
                if (d >= 0) h_fail("byte %ld is %02x, specified %02x", d, z8[d], y8[d]);
                for (int j = 0; j < 16; j++) if (z8[nb + j] != 0x3C) { h_fail("wrote past the output"); break; }
            }
            for (size_t i = 0; frodo_unpack && i < 8 * nb; i++) {
                if (lv < 2 && k == 0 && i > 1024 && i + 1024 < 8 * nb && i % 15) continue;
                if (!h_mine()) continue;
                h_case("%d unpack cnt=%zu bg=%d bit=%zu", L.p.set, cnt, bg, i);
                memset(z8, bg ? 0xFF : 0, nb); z8[i / 8] ^= 0x80 >> (i % 8);
                memset(z8 + nb, bg ? 0 : 0xFF, 16);
                for (size_t j = 0; j < cnt; j++) b16[j] = bg ? (1u << D) - 1 : 0;
                b16[i / D] ^= 1u << (D - 1 - i % D);
                memset(a16, 0x77, 2 * cnt + 32);
                frodo_unpack(a16, cnt, z8, nb, D); h_calls++;
                for (size_t j = 0; j < cnt; j++) if (a16[j] != b16[j]) { h_fail("coefficient %zu is %04x, specified %04x", j, a16[j], b16[j]); break; }
                for (int j = 0; j < 16; j++) if (a16[cnt + j] != 0x7777) { h_fail("wrote past the output"); break; }
            }
        }
        /* every 16-bit value at every position (rotated) : pack against the model, unpack back */
        for (long r = 0; r < 65536; r += k == 0 ? (lv >= 2 ? 16 : 256) : 1) {
            if (!h_mine()) continue;
            h_case("%d pack/unpack cnt=%zu rotation=%ld", L.p.set, cnt, r);
            for (size_t i = 0; i < cnt; i++) a16[i] = (uint16_t)(r + i * 4099) & in;
            m_pack(y8, a16, cnt, D);
            if (frodo_pack) {
                memset(z8, 0xC3, nb + 16);
                frodo_pack(z8, nb, a16, cnt, D); h_calls++;
                long d = h_diff(z8, y8, nb);
                if (d >= 0) h_fail("byte %ld is %02x, specified %02x", d, z8[d], y8[d]);
            }
            if (frodo_unpack) {
                frodo_unpack(b16, cnt, y8, nb, D); h_calls++;
                for (size_t j = 0; j < cnt; j++) if (b16[j] != (a16[j] & ((1u << D) - 1))) { h_fail("coefficient %zu is %04x, specified %04x", j, b16[j], a16[j] & ((1u << D) - 1)); break; }
            }
            h_count("value_positions", (long)cnt);
        }
    }
}

/* ---------------------------------------------------------------- arithmetic */
static int supp(void) { int l; m_cdf(L.p.set, &l); return l - 1; }     /* largest noise magnitude */
static unsigned qm;
static void cmpq(const uint16_t *got, const uint16_t *want, size_t cnt, const char *w)
{
    for (size_t i = 0; i < cnt; i++) if ((got[i] ^ want[i]) & qm) { h_fail("%s: entry %zu is %04x, specified %04x (mod q)", w, i, got[i] & qm, want[i] & qm); return; }
}
static void mode_arith(void)
{
    GET(int, frodo_mul_add_as_plus_e, (uint16_t *, const uint16_t *, const uint16_t *, const uint8_t *));
    GET(int, frodo_mul_add_sa_plus_e, (uint16_t *, const uint16_t *, uint16_t *, const uint8_t *));
    GET(void, frodo_mul_add_sb_plus_e, (uint16_t *, const uint16_t *, const uint16_t *, const uint16_t *));
    GET(void, frodo_mul_bs, (uint16_t *, const uint16_t *, const uint16_t *));
    int mx = supp();
    static uint16_t S[MAXN * NB] AL, E[MAXN * NB] AL, W[MAXN * NB] AL, O[MAXN * NB + 16] AL;
    {                                                        /* ordinary noise and matrices */
        uint8_t seed[16]; h_bytes(seed, 16, "ordinary seed");
        const uint16_t *A = frodo_mul_add_as_plus_e || frodo_mul_add_sa_plus_e ? m_A(&L.p, seed) : NULL;
        static uint16_t E2[MAXN * NB] AL;
        uint16_t o[64], w[64], e[64];
        ordnoise(S, nc, "ordinary S"); ordnoise(E, nc, "ordinary E"); ordnoise(e, 64, "ordinary E2");
        if (frodo_mul_add_as_plus_e) {
            for (int i = 0; i < n; i++) for (int k = 0; k < 8; k++) { uint16_t t = E[i * 8 + k]; for (int j = 0; j < n; j++) t = (uint16_t)(t + (uint32_t)A[(size_t)i * n + j] * S[k * n + j]); W[i * 8 + k] = t; }
            frodo_mul_add_as_plus_e(O, S, E, seed);
            GATE(frodo_mul_add_as_plus_e, same(O, W, nc, qm));
        }
        if (frodo_mul_add_sa_plus_e) {
            memcpy(W, E, 2 * nc); memcpy(E2, E, 2 * nc);
            for (int k = 0; k < 8; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) W[k * n + j] = (uint16_t)(W[k * n + j] + (uint32_t)S[k * n + i] * A[(size_t)i * n + j]);
            frodo_mul_add_sa_plus_e(O, S, E2, seed);
            GATE(frodo_mul_add_sa_plus_e, same(O, W, nc, qm));
        }
        ord16(a16, nc, "ordinary B"); for (int i = 0; i < nc; i++) a16[i] &= qm;
        if (frodo_mul_add_sb_plus_e) {
            for (int r = 0; r < 8; r++) for (int k = 0; k < 8; k++) { uint16_t t = e[r * 8 + k]; for (int i = 0; i < n; i++) t = (uint16_t)(t + (uint32_t)S[r * n + i] * a16[i * 8 + k]); w[r * 8 + k] = t; }
            frodo_mul_add_sb_plus_e(o, a16, S, e);
            GATE(frodo_mul_add_sb_plus_e, same(o, w, 64, qm));
        }
        if (frodo_mul_bs) {
            for (int r = 0; r < 8; r++) for (int k = 0; k < 8; k++) { uint16_t t = 0; for (int i = 0; i < n; i++) t = (uint16_t)(t + (uint32_t)a16[r * n + i] * S[k * n + i]); w[r * 8 + k] = t; }
            frodo_mul_bs(o, a16, S);
            GATE(frodo_mul_bs, same(o, w, 64, qm));
        }
    }
    /* the whole matrix A, through basis matrices, for a family of seeds */
    int nseeds = lv >= 2 ? 3 + 128 : lv == 1 ? 3 + 16 : 2;
    for (int sd = 0; sd < nseeds; sd++) {
        if (!h_mine()) continue;
        uint8_t seed[16];
        if (sd == 0) h_bytes(seed, 16, "seedA");
        else if (sd == 1) memset(seed, 0, 16);
        else if (sd == 2) memset(seed, 0xFF, 16);
        else { h_bytes(seed, 16, "seedA"); int b = lv >= 2 ? sd - 3 : (sd - 3) * 8 + (sd - 3) % 8; seed[b / 8] ^= 1 << (b % 8); }
        const uint16_t *A = m_A(&L.p, seed);
        int tstep = (lv >= 2 && sd < 3) || lv < 0 ? 1 : lv == 1 && sd < 1 ? 1 : 8;
        for (int t = 0; t < n / 8; t++) {
            if (tstep > 1 && t % tstep != sd % tstep && t != n / 8 - 1) continue;
            int v = t % 2 ? -(t % mx) - 1 : 1 + t % mx;
            if (frodo_mul_add_as_plus_e) {
                h_case("%d n=%d A*S+E basis t=%d v=%d seed=%d", L.p.set, n, t, v, sd);
                memset(S, 0, 2 * nc);
                for (int k = 0; k < 8; k++) S[k * n + 8 * t + k] = (uint16_t)v;
                for (int i = 0; i < n; i++) for (int k = 0; k < 8; k++) {
                    E[i * 8 + k] = (uint16_t)((i + k + t) % (2 * mx + 1) - mx);
                    W[i * 8 + k] = (uint16_t)(E[i * 8 + k] + (uint32_t)A[(size_t)i * n + 8 * t + k] * (uint16_t)v);
                }
                memset(O, 0x11, 2 * nc + 32);
                frodo_mul_add_as_plus_e(O, S, E, seed); h_calls++;
                cmpq(O, W, nc, "A*S+E");
                if (O[nc] != 0x1111) h_fail("wrote past the output");
            }
            if (frodo_mul_add_sa_plus_e) {
                h_case("%d n=%d S'*A+E' basis t=%d v=%d seed=%d", L.p.set, n, t, v, sd);
                memset(S, 0, 2 * nc);
                for (int k = 0; k < 8; k++) S[k * n + 8 * t + k] = (uint16_t)v;
                for (int k = 0; k < 8; k++) for (int j = 0; j < n; j++) {
                    E[k * n + j] = (uint16_t)((j + k + t) % (2 * mx + 1) - mx);
                    W[k * n + j] = (uint16_t)(E[k * n + j] + (uint32_t)A[(size_t)(8 * t + k) * n + j] * (uint16_t)v);
                }
                memset(O, 0x11, 2 * nc + 32);
                frodo_mul_add_sa_plus_e(O, S, E, seed); h_calls++;
                cmpq(O, W, nc, "S'*A+E'");
                if (O[nc] != 0x1111) h_fail("wrote past the output");
            }
        }
        /* dense extremes of the noise support */
        for (int x = 0; x < 5; x++) {
            for (int i = 0; i < nc; i++) {
                int v = x == 0 ? mx : x == 1 ? -mx : x == 2 ? (i & 1 ? mx : -mx) : x == 3 ? (i / n & 1 ? -mx : mx) : i % (2 * mx + 1) - mx;
                S[i] = (uint16_t)v; E[i] = (uint16_t)(x == 3 ? -v : v);
            }
            if (frodo_mul_add_as_plus_e) {
                h_case("%d n=%d A*S+E dense %d seed=%d", L.p.set, n, x, sd);
                for (int i = 0; i < n; i++) for (int k = 0; k < 8; k++) {
                    uint16_t s = E[i * 8 + k];
                    for (int j = 0; j < n; j++) s = (uint16_t)(s + (uint32_t)A[(size_t)i * n + j] * S[k * n + j]);
                    W[i * 8 + k] = s;
                }
                frodo_mul_add_as_plus_e(O, S, E, seed); h_calls++;
                cmpq(O, W, nc, "A*S+E");
            }
            if (frodo_mul_add_sa_plus_e) {
                h_case("%d n=%d S'*A+E' dense %d seed=%d", L.p.set, n, x, sd);
                for (int k = 0; k < 8; k++) {
                    for (int j = 0; j < n; j++) W[k * n + j] = E[k * n + j];
                    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) W[k * n + j] = (uint16_t)(W[k * n + j] + (uint32_t)S[k * n + i] * A[(size_t)i * n + j]);
                }
                frodo_mul_add_sa_plus_e(O, S, E, seed); h_calls++;
                cmpq(O, W, nc, "S'*A+E'");
            }
        }
    }
    /* S'*B+E'': B any D-bit value, S', E'' noise */
    uint16_t o64[64 + 16] AL, w64[64] AL, e64[64] AL;
    static uint16_t Bm[MAXN * NB] AL;
    memset(S, 0, 2 * nc); memset(Bm, 0, 2 * nc);
    for (int i = 0; frodo_mul_add_sb_plus_e && i < n; i++) {
        if (lv == 0 && i % 16 && i < n - 2) continue;
        if (!h_mine()) continue;
        for (unsigned bv = 0; bv <= qm; bv += lv >= 2 || i == 0 || i == n - 1 ? 8 : 1024) {
            h_case("%d n=%d S'*B+E'' term i=%d b=%u..", L.p.set, n, i, bv);
            for (int k = 0; k < 8; k++) { Bm[i * 8 + k] = (bv + k) & qm; S[k * n + i] = (uint16_t)((int)((i + k + bv / 8) % (2 * mx + 1)) - mx); }
            for (int r = 0; r < 8; r++) for (int k = 0; k < 8; k++) {
                e64[r * 8 + k] = (uint16_t)((r + k + i) % (2 * mx + 1) - mx);
                w64[r * 8 + k] = (uint16_t)(e64[r * 8 + k] + (uint32_t)S[r * n + i] * Bm[i * 8 + k]);
            }
            memset(o64, 0x11, sizeof o64);
            frodo_mul_add_sb_plus_e(o64, Bm, S, e64); h_calls++;
            cmpq(o64, w64, 64, "S'*B+E''");
            if (o64[64] != 0x1111) h_fail("wrote past the output");
        }
        for (int k = 0; k < 8; k++) { Bm[i * 8 + k] = 0; S[k * n + i] = 0; }
    }
    for (int e = 0; frodo_mul_add_sb_plus_e && e < NEXT; e++) for (int x = 0; x < 3; x++) {      /* dense */
        h_case("%d n=%d S'*B+E'' dense B=%x x=%d", L.p.set, n, EXT[e], x);
        for (int i = 0; i < nc; i++) { Bm[i] = (EXT[e] ^ (x == 2 ? i * 3 : 0)) & qm; S[i] = (uint16_t)(x == 0 ? mx : x == 1 ? -mx : (i & 1) ? mx : -mx); }
        for (int r = 0; r < 8; r++) for (int k = 0; k < 8; k++) {
            uint16_t s = e64[r * 8 + k] = (uint16_t)(x == 1 ? -mx : mx);
            for (int i = 0; i < n; i++) s = (uint16_t)(s + (uint32_t)S[r * n + i] * Bm[i * 8 + k]);
            w64[r * 8 + k] = s;
        }
        frodo_mul_add_sb_plus_e(o64, Bm, S, e64); h_calls++;
        cmpq(o64, w64, 64, "S'*B+E''");
    }
    /* B'*S: any values */
    memset(S, 0, 2 * nc); memset(Bm, 0, 2 * nc);
    for (int i = 0; frodo_mul_bs && i < n; i++) {
        if (!h_mine()) continue;
        int full = i == 0 || i == n - 1 || i == 13;
        for (unsigned sv = 0; sv < 65536; sv += full ? 8 : lv >= 2 ? 2048 : 16384) for (int e = 0; e + 8 <= NEXT + 4; e += 4) {
            if (lv == 0 && full && sv % 64) continue;
            h_case("%d n=%d B'*S term i=%d s=%u.. b=ext%d", L.p.set, n, i, sv, e);
            for (int k = 0; k < 8; k++) { Bm[k * n + i] = EXT[(e + k) % NEXT] & qm; S[k * n + i] = (uint16_t)(sv + k); }
            for (int r = 0; r < 8; r++) for (int k = 0; k < 8; k++) w64[r * 8 + k] = (uint16_t)((uint32_t)Bm[r * n + i] * S[k * n + i]);
            memset(o64, 0x11, sizeof o64);
            frodo_mul_bs(o64, Bm, S); h_calls++;
            cmpq(o64, w64, 64, "B'*S");
            if (o64[64] != 0x1111) h_fail("wrote past the output");
        }
        for (int k = 0; k < 8; k++) { Bm[k * n + i] = 0; S[k * n + i] = 0; }
    }
    for (int e = 0; frodo_mul_bs && e < NEXT; e++) for (int f = 0; f < NEXT; f++) {
        if (!h_mine()) continue;
        h_case("%d n=%d B'*S dense b=%x s=%x", L.p.set, n, EXT[e], EXT[f]);
        for (int i = 0; i < nc; i++) { Bm[i] = EXT[e] & qm; S[i] = EXT[f]; }
        for (int r = 0; r < 64; r++) w64[r] = (uint16_t)((uint32_t)(EXT[e] & qm) * EXT[f] * (uint32_t)n);
        frodo_mul_bs(o64, Bm, S); h_calls++;
        cmpq(o64, w64, 64, "B'*S");
    }
    GET(void, frodo_add, (uint16_t *, const uint16_t *, const uint16_t *));
    GET(void, frodo_sub, (uint16_t *, const uint16_t *, const uint16_t *));
    {
        uint16_t a[64], b[64], o[64], w[64];
        ord16(a, 64, "ordinary a"); ord16(b, 64, "ordinary b"); for (int i = 0; i < 64; i++) { a[i] &= qm; b[i] &= qm; }
        if (frodo_add) { for (int i = 0; i < 64; i++) w[i] = a[i] + b[i]; frodo_add(o, a, b); GATE(frodo_add, same(o, w, 64, qm)); }
        if (frodo_sub) { for (int i = 0; i < 64; i++) w[i] = a[i] - b[i]; frodo_sub(o, a, b); GATE(frodo_sub, same(o, w, 64, qm)); }
    }
    for (unsigned av = 0; av <= qm; av++) for (int e = 0; e < NEXT; e += lv >= 2 ? 1 : 5) {
        if (!h_mine()) continue;
        h_case("%d add/sub a=%u.. b=ext%d", L.p.set, av, e);
        uint16_t a[64], b[64];
        for (int i = 0; i < 64; i++) { a[i] = (av + i * 1021) & qm; b[i] = (EXT[e] + i) & qm; }
        if (frodo_add) { for (int i = 0; i < 64; i++) w64[i] = a[i] + b[i]; frodo_add(o64, a, b); h_calls++; cmpq(o64, w64, 64, "sum"); }
        if (frodo_sub) { for (int i = 0; i < 64; i++) w64[i] = a[i] - b[i]; frodo_sub(o64, a, b); h_calls++; cmpq(o64, w64, 64, "difference"); }
    }
}

/* ---------------------------------------------------------------- message encoding */
static void mode_code(void)
{
    GET(void, frodo_key_encode, (uint16_t *, const uint16_t *));
    GET(void, frodo_key_decode, (uint16_t *, const uint16_t *));
    uint8_t mu[32] AL, m2[48] AL; uint16_t M[64 + 8] AL, W[64] AL;
    h_bytes(mu, 32, "ordinary message"); m_encode(&L.p, W, mu);
    if (frodo_key_encode) { frodo_key_encode(M, (uint16_t *)mu); GATE(frodo_key_encode, same(M, W, 64, qm)); }
    if (frodo_key_decode) { frodo_key_decode((uint16_t *)m2, W); GATE(frodo_key_decode, !h_ne(m2, mu, L.mub)); }
    for (int bg = 0; bg < 3; bg++) for (size_t i = 0; i < L.mub; i++) for (int v = 0; v < 256; v++) {
        if (!h_mine()) continue;
        h_case("%d encode bg=%d byte %zu=%d", L.p.set, bg, i, v);
        if (bg == 2) h_bytes(mu, 32, "code"); else memset(mu, bg ? 0xFF : 0, 32);
        mu[i] = v;
        m_encode(&L.p, W, mu);
        if (frodo_key_encode) {
            memset(M, 0x11, sizeof M);
            frodo_key_encode(M, (uint16_t *)mu); h_calls++;
            for (int j = 0; j < 64; j++) if ((M[j] ^ W[j]) & qm) { h_fail("coefficient %d is %04x, specified %04x", j, M[j], W[j]); break; }
            if (M[64] != 0x1111) h_fail("wrote past the output");
        }
        if (frodo_key_decode) {
            memset(m2, 0x22, sizeof m2);
            frodo_key_decode((uint16_t *)m2, W); h_calls++;
            if (h_ne(m2, mu, L.mub)) h_fail("decode(encode(m)) != m");
            if (m2[L.mub] != 0x22) h_fail("wrote past the output");
        }
    }
    for (unsigned r = 0; frodo_key_decode && r <= qm; r++) {          /* every value at every position */
        if (!h_mine()) continue;
        h_case("%d decode rotation %u", L.p.set, r);
        for (int i = 0; i < 64; i++) M[i] = (r + i * 769) & qm;
        m_decode(&L.p, mu, M);
        frodo_key_decode((uint16_t *)m2, M); h_calls++;
        long d = h_diff(m2, mu, L.mub);
        if (d >= 0) h_fail("byte %ld is %02x, specified %02x", d, m2[d], mu[d]);
    }
}

/* ---------------------------------------------------------------- compare and select */
static void mode_select(void)
{
    GET(int8_t, ct_verify, (const uint16_t *, const uint16_t *, size_t));
    GET(void, ct_select, (uint8_t *, const uint8_t *, const uint8_t *, size_t, int8_t));
    size_t lens[2] = { (size_t)nc, 64 };
    /* comparison and selection are judged together: what the selection makes of the comparison's result */
    uint8_t ka[32], kb[32], kr[40];
    for (int i = 0; i < 32; i++) { ka[i] = 0x3C ^ i; kb[i] = 0xC5 + i; }
#define PICK(v) (memset(kr, 0x99, 40), ct_select(kr, ka, kb, L.cb, (v)), h_calls++, h_ne(kr, ka, L.cb) == 0 ? 0 : h_ne(kr, kb, L.cb) == 0 ? 1 : 2)
    if (ct_verify && ct_select) {
        ord16(a16, 64, "ordinary"); for (int i = 0; i < 64; i++) { a16[i] &= qm; x16[i] = b16[i] = a16[i]; }
        for (int i = 0; i < 64; i++) x16[i] = (x16[i] + 0x123 + 77 * i) & qm;
        GATE(ct_verify, PICK(ct_verify(a16, b16, 64)) == 0 && PICK(ct_verify(a16, x16, 64)) == 1);
    }
    for (int k = 0; ct_verify && ct_select && k < 2; k++) {
        size_t len = lens[k];
        for (size_t i = 0; i < len; i++) a16[i] = b16[i] = (uint16_t)(i * 40503u) & qm;
        h_case("%d compare len=%zu equal", L.p.set, len);
        int8_t eq = ct_verify(a16, b16, len);
        if (PICK(eq) != 0) h_fail("equal arrays do not select the first");
        for (size_t i = 0; i < len; i++) for (int b = 0; b < D; b++) {
            if (!h_mine()) continue;
            h_case("%d compare len=%zu pos=%zu bit=%d", L.p.set, len, i, b);
            b16[i] ^= 1 << b; int8_t v = ct_verify(a16, b16, len); b16[i] ^= 1 << b; h_calls++;
            if (PICK(v) != 1 || PICK((int8_t)(v | eq)) != 1) h_fail("different arrays do not select the second");
        }
        for (unsigned d = 1; d <= qm; d++) for (int p = 0; p < 3; p++) {
            if (!h_mine()) continue;
            size_t i = p == 0 ? 0 : p == 1 ? len - 1 : len / 2 + 1;
            h_case("%d compare len=%zu pos=%zu diff=%u", L.p.set, len, i, d);
            b16[i] ^= d; if (PICK(ct_verify(a16, b16, len)) != 1) h_fail("different arrays do not select the second");
            b16[(i + 5) % len] ^= d; if (PICK(ct_verify(a16, b16, len)) != 1) h_fail("arrays with two differences do not select the second");
            b16[i] ^= d; b16[(i + 5) % len] ^= d; h_calls += 2;
        }
    }
    int8_t v0 = 0, v1 = -1;
    if (ct_verify) { a16[0] = b16[0] = 1; v0 = ct_verify(a16, b16, 1); b16[0] = 2; v1 = ct_verify(a16, b16, 1); }
    for (int x = 0; ct_verify && ct_select && x < 65536; x++) {
        if (!h_mine()) continue;
        h_case("%d select a=%d b=%d", L.p.set, x & 255, x >> 8);
        for (int i = 0; i < 32; i++) { ka[i] = x + i * 7; kb[i] = (x >> 8) + i * 5; }
        memset(kr, 0x99, 40); ct_select(kr, ka, kb, L.cb, v0); h_calls++;
        if (h_ne(kr, ka, L.cb) || kr[L.cb] != 0x99) h_fail("selector of equality does not give the first");
        memset(kr, 0x99, 40); ct_select(kr, ka, kb, L.cb, v1); h_calls++;
        if (h_ne(kr, kb, L.cb) || kr[L.cb] != 0x99) h_fail("selector of difference does not give the second");
    }
}

int main(int c, char **v)
{
    if (c < 7) return 2;
    h_start();
    L = lib_open(v[2], atoi(v[3]), atoi(v[4]), atoi(v[5]));
    lv = atoi(v[6]); n = L.p.n; D = L.p.D; nc = n * NB; qm = (1u << D) - 1;
    if (!strcmp(v[1], "sample")) mode_sample();
    else if (!strcmp(v[1], "pack")) mode_pack();
    else if (!strcmp(v[1], "arith")) mode_arith();
    else if (!strcmp(v[1], "code")) mode_code();
    else if (!strcmp(v[1], "select")) mode_select();
    else return 2;
    h_sample("%s set=%d n=%d gen=%d level=%d shard %d/%d: %ld cases", v[1], L.p.set, n, L.p.gen, lv, h_shard, h_nshard, h_cases);
    h_done();
}
