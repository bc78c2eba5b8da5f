#include "model.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

/* ---------------- Keccak-f[1600], straight from FIPS 202 section 3.2 ---------------- */
static uint64_t RC[24];
static int RHO[5][5];

static int lfsr_rc(int t)
{
    unsigned R = 1;
    t %= 255;
    for (int i = 0; i < t; i++) {
        R <<= 1;
        if (R & 0x100) R ^= 0x171;
    }
    return R & 1;
}

static void keccak_tables(void)
{
    for (int ir = 0; ir < 24; ir++) {
        RC[ir] = 0;
        for (int j = 0; j <= 6; j++)
            if (lfsr_rc(j + 7 * ir)) RC[ir] |= 1ull << ((1 << j) - 1);
    }
    int x = 1, y = 0;
    memset(RHO, 0, sizeof RHO);
    for (int t = 0; t < 24; t++) {
        RHO[x][y] = ((t + 1) * (t + 2) / 2) % 64;
        int nx = y, ny = (2 * x + 3 * y) % 5;
        x = nx; y = ny;
    }
}

static inline uint64_t rol(uint64_t v, int s) { return s ? (v << s) | (v >> (64 - s)) : v; }

static void keccakf(uint64_t a[25])
{   /* lane (x,y) is a[x + 5*y] */
    for (int r = 0; r < 24; r++) {
        uint64_t c[5], b[25];
        for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        for (int x = 0; x < 5; x++) {
            uint64_t d = c[(x + 4) % 5] ^ rol(c[(x + 1) % 5], 1);
            for (int y = 0; y < 5; y++) a[x + 5 * y] ^= d;
        }
        for (int x = 0; x < 5; x++)
            for (int y = 0; y < 5; y++) b[y + 5 * ((2 * x + 3 * y) % 5)] = rol(a[x + 5 * y], RHO[x][y]);
        for (int x = 0; x < 5; x++)
            for (int y = 0; y < 5; y++)
                a[x + 5 * y] = b[x + 5 * y] ^ (~b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]);
        a[0] ^= RC[r];
    }
}

void m_shake(int rate, uint8_t *out, size_t outlen, const uint8_t *in, size_t inlen)
{
    uint64_t st[25] = {0};
    int pos = 0;
    for (size_t i = 0; i < inlen; i++) {
        st[pos >> 3] ^= (uint64_t)in[i] << (8 * (pos & 7));
        if (++pos == rate) { keccakf(st); pos = 0; }
    }
    st[pos >> 3] ^= (uint64_t)0x1F << (8 * (pos & 7));
    st[(rate - 1) >> 3] ^= (uint64_t)0x80 << (8 * ((rate - 1) & 7));
    keccakf(st);
    pos = 0;
    for (size_t i = 0; i < outlen; i++) {
        if (pos == rate) { keccakf(st); pos = 0; }
        out[i] = (uint8_t)(st[pos >> 3] >> (8 * (pos & 7)));
        pos++;
    }
}

/* ---------------- AES (FIPS 197), S-box computed from the field inverse ---------------- */
static uint8_t SB[256], X2[256];

static uint8_t gmul(uint8_t a, uint8_t b)
{
    uint8_t r = 0;
    while (b) {
        if (b & 1) r ^= a;
        a = (uint8_t)((a << 1) ^ ((a & 0x80) ? 0x1b : 0));
        b >>= 1;
    }
    return r;
}

static void aes_tables(void)
{
    for (int i = 0; i < 256; i++) {
        uint8_t inv = 0;
        for (int j = 1; i && j < 256; j++)
            if (gmul((uint8_t)i, (uint8_t)j) == 1) { inv = (uint8_t)j; break; }
        uint8_t y = inv, z = inv;
        for (int k = 0; k < 4; k++) { y = (uint8_t)((y << 1) | (y >> 7)); z ^= y; }
        SB[i] = z ^ 0x63;
        X2[i] = gmul((uint8_t)i, 2);
    }
}

void m_aes_expand(int keybits, const uint8_t *key, uint8_t *w)
{
    int Nk = keybits / 32, Nr = Nk + 6;
    uint8_t rcon = 1;
    memcpy(w, key, 4 * Nk);
    for (int i = Nk; i < 4 * (Nr + 1); i++) {
        uint8_t t[4];
        memcpy(t, w + 4 * (i - 1), 4);
        if (i % Nk == 0) {
            uint8_t u = t[0];
            t[0] = SB[t[1]] ^ rcon; t[1] = SB[t[2]]; t[2] = SB[t[3]]; t[3] = SB[u];
            rcon = gmul(rcon, 2);
        } else if (Nk > 6 && i % Nk == 4) {
            for (int k = 0; k < 4; k++) t[k] = SB[t[k]];
        }
        for (int k = 0; k < 4; k++) w[4 * i + k] = w[4 * (i - Nk) + k] ^ t[k];
    }
}

void m_aes_block(int keybits, const uint8_t *w, const uint8_t in[16], uint8_t out[16])
{
    int Nr = keybits / 32 + 6;
    uint8_t s[16], t[16];
    for (int i = 0; i < 16; i++) s[i] = in[i] ^ w[i];
    for (int r = 1; r <= Nr; r++) {
        for (int c = 0; c < 4; c++)
            for (int row = 0; row < 4; row++) t[4 * c + row] = SB[s[4 * ((c + row) & 3) + row]];
        if (r < Nr) {
            for (int c = 0; c < 4; c++) {
                uint8_t *a = t + 4 * c, all = a[0] ^ a[1] ^ a[2] ^ a[3], a0 = a[0];
                uint8_t b0 = a[0] ^ all ^ X2[a[0] ^ a[1]];
                uint8_t b1 = a[1] ^ all ^ X2[a[1] ^ a[2]];
                uint8_t b2 = a[2] ^ all ^ X2[a[2] ^ a[3]];
                uint8_t b3 = a[3] ^ all ^ X2[a[3] ^ a0];
                a[0] = b0; a[1] = b1; a[2] = b2; a[3] = b3;
            }
        }
        for (int i = 0; i < 16; i++) s[i] = t[i] ^ w[16 * r + i];
    }
    memcpy(out, s, 16);
}

/* ---------------- parameters ---------------- */
static const int CHI640[] = {9288, 8720, 7216, 5264, 3384, 1918, 958, 422, 164, 56, 17, 4, 1};
static const int CHI976[] = {11278, 10277, 7774, 4882, 2545, 1101, 396, 118, 29, 6, 1};
static const int CHI1344[] = {18286, 14320, 6876, 2023, 364, 40, 2};
static int T640[13], T976[11], T1344[7];

static void cdf_from_chi(const int *chi, int len, int *T)
{   /* spec 2.2.4: T(0) = 2^(len_chi-1) chi(0) - 1,  T(z) = 2^len_chi (chi(0)/2 + sum_{1..z}) - 1 */
    int tot = chi[0];
    T[0] = chi[0] / 2 - 1;
    for (int z = 1; z < len; z++) { T[z] = T[z - 1] + chi[z]; tot += 2 * chi[z]; }
    if (tot != 65536 || T[len - 1] != 32767) { fprintf(stderr, "model: bad chi table\n"); abort(); }
}

const int *m_cdf(int set, int *len)
{
    if (set == 640) { *len = 13; return T640; }
    if (set == 976) { *len = 11; return T976; }
    *len = 7; return T1344;
}

par_t m_par(int set, int n, int gen)
{
    par_t p;
    memset(&p, 0, sizeof p);
    p.set = set; p.gen = gen;
    p.n = n ? n : set;
    p.D = set == 640 ? 15 : 16;
    p.B = set == 640 ? 2 : set == 976 ? 3 : 4;
    p.cb = set == 640 ? 16 : set == 976 ? 24 : 32;
    p.rate = set == 640 ? 168 : 136;
    return p;
}
size_t m_pkb(const par_t *p) { return 16 + (size_t)p->D * p->n * NB / 8; }
size_t m_skb(const par_t *p) { return p->cb + m_pkb(p) + 2 * (size_t)p->n * NB + p->cb; }
size_t m_ctb(const par_t *p) { return (size_t)p->D * p->n * NB / 8 + (size_t)p->D * NB * NB / 8; }
size_t m_mub(const par_t *p) { return (size_t)p->B * NB * NB / 8; }
size_t m_rndb(const par_t *p) { return 2 * (size_t)p->cb + 16; }

/* ---------------- sampling, packing, encoding ---------------- */
int16_t m_sample(int set, uint16_t r)
{
    int len, e = 0, t = r >> 1;
    const int *T = m_cdf(set, &len);
    for (int z = 0; z < len - 1; z++)
        if (t > T[z]) e++;
    return (int16_t)((r & 1) ? -e : e);
}

void m_pack(uint8_t *out, const uint16_t *in, size_t cnt, int D)
{
    memset(out, 0, (cnt * D + 7) / 8);
    for (size_t i = 0; i < cnt; i++)
        for (int l = 0; l < D; l++) {
            size_t bit = i * D + l;
            if ((in[i] >> (D - 1 - l)) & 1) out[bit / 8] |= (uint8_t)(0x80 >> (bit % 8));
        }
}

void m_unpack(uint16_t *out, const uint8_t *in, size_t cnt, int D)
{
    for (size_t i = 0; i < cnt; i++) {
        unsigned v = 0;
        for (int l = 0; l < D; l++) {
            size_t bit = i * D + l;
            v = 2 * v + ((in[bit / 8] >> (7 - bit % 8)) & 1);
        }
        out[i] = (uint16_t)v;
    }
}

void m_encode(const par_t *p, uint16_t *M, const uint8_t *mu)
{
    for (int i = 0; i < NB * NB; i++) {
        unsigned t = 0;
        for (int l = 0; l < p->B; l++) {
            int bit = i * p->B + l;
            t |= ((mu[bit / 8] >> (bit % 8)) & 1u) << l;
        }
        M[i] = (uint16_t)(t << (p->D - p->B));
    }
}

void m_decode(const par_t *p, uint8_t *mu, const uint16_t *M)
{
    memset(mu, 0, m_mub(p));
    long q = 1L << p->D, two = 1L << p->B;
    for (int i = 0; i < NB * NB; i++) {
        long c = M[i] % q;
        long t = ((2 * c * two + q) / (2 * q)) % two;    /* floor(c*2^B/q + 1/2) mod 2^B */
        for (int l = 0; l < p->B; l++) {
            int bit = i * p->B + l;
            if ((t >> l) & 1) mu[bit / 8] |= (uint8_t)(1 << (bit % 8));
        }
    }
}

/* ---------------- matrix A, with a small cache ---------------- */
#define NCACHE 4
static struct { int used, gen, n; uint8_t seed[16]; uint16_t *A; unsigned long stamp; } cache[NCACHE];
static unsigned long stampctr;

static void gen_A(const par_t *p, const uint8_t *seedA, uint16_t *A)
{
    int n = p->n;
    if (p->gen == GEN_AES) {
        uint8_t w[176], b[16], c[16];
        m_aes_expand(128, seedA, w);
        for (int i = 0; i < n; i++)
            for (int j = 0; j < n; j += 8) {
                memset(b, 0, 16);
                b[0] = (uint8_t)i; b[1] = (uint8_t)(i >> 8); b[2] = (uint8_t)j; b[3] = (uint8_t)(j >> 8);
                m_aes_block(128, w, b, c);
                for (int k = 0; k < 8; k++) A[(size_t)i * n + j + k] = (uint16_t)(c[2 * k] | c[2 * k + 1] << 8);
            }
    } else {
        uint8_t b[18], row[2 * MAXN];
        memcpy(b + 2, seedA, 16);
        for (int i = 0; i < n; i++) {
            b[0] = (uint8_t)i; b[1] = (uint8_t)(i >> 8);
            m_shake(168, row, 2 * (size_t)n, b, 18);
            for (int j = 0; j < n; j++) A[(size_t)i * n + j] = (uint16_t)(row[2 * j] | row[2 * j + 1] << 8);
        }
    }
}

const uint16_t *m_A(const par_t *p, const uint8_t seedA[16])
{
    int v = 0;
    for (int i = 0; i < NCACHE; i++) {
        if (cache[i].used && cache[i].gen == p->gen && cache[i].n == p->n && !memcmp(cache[i].seed, seedA, 16)) {
            cache[i].stamp = ++stampctr;
            return cache[i].A;
        }
        if (!cache[i].used) v = i;
        else if (cache[v].used && cache[i].stamp < cache[v].stamp) v = i;
    }
    free(cache[v].A);
    cache[v].A = malloc((size_t)p->n * p->n * 2);
    if (!cache[v].A) abort();
    cache[v].used = 1; cache[v].gen = p->gen; cache[v].n = p->n; cache[v].stamp = ++stampctr;
    memcpy(cache[v].seed, seedA, 16);
    gen_A(p, seedA, cache[v].A);
    return cache[v].A;
}

/* ---------------- KEM (spec algorithms 12, 13, 14) ---------------- */
static void sample_raw(int set, int16_t *out, const uint8_t *raw, size_t cnt)
{
    static int16_t tab[3][65536];
    static int have[3];
    int ix = set == 640 ? 0 : set == 976 ? 1 : 2;
    if (!have[ix]) {
        for (int r = 0; r < 65536; r++) tab[ix][r] = m_sample(set, (uint16_t)r);
        have[ix] = 1;
    }
    for (size_t i = 0; i < cnt; i++) out[i] = tab[ix][raw[2 * i] | raw[2 * i + 1] << 8];
}

const uint8_t *m_raw;     /* when set: the noise XOF output is scripted */
static void noise_xof(const par_t *p, uint8_t *raw, size_t len, const uint8_t *in, size_t inlen)
{
    if (m_raw) memcpy(raw, m_raw, len);
    else m_shake(p->rate, raw, len, in, inlen);
}

void m_keypair(const par_t *p, const uint8_t *rnd, uint8_t *pk, uint8_t *sk, sec_t *x)
{
    int n = p->n, cb = p->cb;
    size_t pkb = m_pkb(p);
    static sec_t own;
    if (!x) x = &own;
    memcpy(x->s, rnd, cb);
    memcpy(x->seedSE, rnd + cb, cb);
    m_shake(p->rate, pk, 16, rnd + 2 * cb, 16);
    uint8_t in[33];
    in[0] = 0x5F;
    memcpy(in + 1, x->seedSE, cb);
    noise_xof(p, x->raw, 4 * (size_t)n * NB, in, 1 + cb);
    sample_raw(p->set, x->S, x->raw, (size_t)n * NB);                   /* S^T, NB x n */
    sample_raw(p->set, x->E, x->raw + 2 * (size_t)n * NB, (size_t)n * NB);
    const uint16_t *A = m_A(p, pk);
    static uint16_t Bm[MAXN * NB];
    for (int i = 0; i < n; i++)
        for (int k = 0; k < NB; k++) {
            uint16_t sum = (uint16_t)x->E[i * NB + k];
            const uint16_t *row = A + (size_t)i * n;
            const int16_t *sc = x->S + (size_t)k * n;
            for (int j = 0; j < n; j++) sum = (uint16_t)(sum + (uint32_t)row[j] * (uint32_t)(uint16_t)sc[j]);
            Bm[i * NB + k] = sum;
        }
    m_pack(pk + 16, Bm, (size_t)n * NB, p->D);
    memcpy(sk, x->s, cb);
    memcpy(sk + cb, pk, pkb);
    for (int i = 0; i < n * NB; i++) {
        sk[cb + pkb + 2 * i] = (uint8_t)x->S[i];
        sk[cb + pkb + 2 * i + 1] = (uint8_t)((uint16_t)x->S[i] >> 8);
    }
    m_shake(p->rate, x->pkh, cb, pk, pkb);
    memcpy(sk + cb + pkb + 2 * (size_t)n * NB, x->pkh, cb);
}

void m_enc_pkh(const par_t *p, const uint8_t *pk, const uint8_t *pkh, const uint8_t *mu,
               uint8_t *ct, uint8_t *k, sec_t *x)
{
    int n = p->n, cb = p->cb;
    static sec_t own;
    if (!x) x = &own;
    uint8_t g[64], gi[64], in[33];
    memcpy(gi, pkh, cb);
    memcpy(gi + cb, mu, m_mub(p));
    m_shake(p->rate, g, 2 * cb, gi, cb + m_mub(p));
    memcpy(x->mu, mu, m_mub(p));
    memcpy(x->pkh, pkh, cb);
    memcpy(x->seedSE, g, cb);
    memcpy(x->k, g + cb, cb);
    memcpy(k, g + cb, cb);
    in[0] = 0x96;
    memcpy(in + 1, g, cb);
    noise_xof(p, x->raw, 2 * (2 * (size_t)n + NB) * NB, in, 1 + cb);
    sample_raw(p->set, x->Sp, x->raw, (size_t)n * NB);
    sample_raw(p->set, x->Ep, x->raw + 2 * (size_t)n * NB, (size_t)n * NB);
    sample_raw(p->set, x->Epp, x->raw + 4 * (size_t)n * NB, NB * NB);
    const uint16_t *A = m_A(p, pk);
    static uint16_t Bp[MAXN * NB], Bm[MAXN * NB], C[NB * NB], M[NB * NB];
    for (int r = 0; r < NB; r++) {
        uint16_t *o = Bp + (size_t)r * n;
        for (int j = 0; j < n; j++) o[j] = (uint16_t)x->Ep[(size_t)r * n + j];
        for (int i = 0; i < n; i++) {
            uint16_t sv = (uint16_t)x->Sp[(size_t)r * n + i];
            const uint16_t *row = A + (size_t)i * n;
            for (int j = 0; j < n; j++) o[j] = (uint16_t)(o[j] + (uint32_t)sv * row[j]);
        }
    }
    m_pack(ct, Bp, (size_t)n * NB, p->D);
    m_unpack(Bm, pk + 16, (size_t)n * NB, p->D);
    m_encode(p, M, mu);
    for (int r = 0; r < NB; r++)
        for (int c = 0; c < NB; c++) {
            uint16_t v = (uint16_t)x->Epp[r * NB + c];
            for (int i = 0; i < n; i++)
                v = (uint16_t)(v + (uint32_t)(uint16_t)x->Sp[(size_t)r * n + i] * Bm[(size_t)i * NB + c]);
            x->V[r * NB + c] = v & (uint16_t)((1u << p->D) - 1);
            C[r * NB + c] = (uint16_t)(v + M[r * NB + c]);
        }
    m_pack(ct + (size_t)p->D * n * NB / 8, C, NB * NB, p->D);
}

void m_F(const par_t *p, uint8_t *ss, const uint8_t *ct, const uint8_t *k)
{
    static uint8_t f[MAXCT + 32];
    memcpy(f, ct, m_ctb(p));
    memcpy(f + m_ctb(p), k, p->cb);
    m_shake(p->rate, ss, p->cb, f, m_ctb(p) + p->cb);
}

void m_enc(const par_t *p, const uint8_t *pk, const uint8_t *mu, uint8_t *ct, uint8_t *ss, sec_t *x)
{
    uint8_t pkh[32], k[32];
    m_shake(p->rate, pkh, p->cb, pk, m_pkb(p));
    m_enc_pkh(p, pk, pkh, mu, ct, k, x);
    m_F(p, ss, ct, k);
}

int m_dec(const par_t *p, const uint8_t *sk, const uint8_t *ct, uint8_t *ss, sec_t *x)
{
    int n = p->n, cb = p->cb;
    size_t pkb = m_pkb(p), c1 = (size_t)p->D * n * NB / 8;
    const uint8_t *pk = sk + cb, *sS = sk + cb + pkb, *pkh = sS + 2 * (size_t)n * NB;
    static uint16_t Bp[MAXN * NB], C[NB * NB], W[NB * NB];
    static uint8_t ct2[MAXCT];
    static sec_t own;
    if (!x) x = &own;
    uint8_t mu[32], k[32];
    m_unpack(Bp, ct, (size_t)n * NB, p->D);
    m_unpack(C, ct + c1, NB * NB, p->D);
    for (int i = 0; i < n * NB; i++) x->S[i] = (int16_t)(sS[2 * i] | sS[2 * i + 1] << 8);
    for (int r = 0; r < NB; r++)
        for (int c = 0; c < NB; c++) {
            uint16_t v = 0;
            for (int i = 0; i < n; i++)
                v = (uint16_t)(v + (uint32_t)Bp[(size_t)r * n + i] * (uint16_t)x->S[(size_t)c * n + i]);
            W[r * NB + c] = (uint16_t)(C[r * NB + c] - v) & (uint16_t)((1u << p->D) - 1);
        }
    memcpy(x->M, W, sizeof W);
    m_decode(p, mu, W);
    memcpy(x->s, sk, cb);
    m_enc_pkh(p, pk, pkh, mu, ct2, k, x);
    x->accepted = !memcmp(ct, ct2, m_ctb(p));
    m_F(p, ss, ct, x->accepted ? k : sk);
    return x->accepted;
}

/* ---------------- self check against published vectors ---------------- */
static void need(const char *what, const uint8_t *a, const char *hex)
{
    for (size_t i = 0; hex[2 * i]; i++) {
        unsigned v;
        sscanf(hex + 2 * i, "%2x", &v);
        if (a[i] != v) { fprintf(stderr, "model self check failed: %s\n", what); abort(); }
    }
}

void m_init(void)
{
    static int done;
    if (done) return;
    done = 1;
    keccak_tables();
    aes_tables();
    cdf_from_chi(CHI640, 13, T640);
    cdf_from_chi(CHI976, 11, T976);
    cdf_from_chi(CHI1344, 7, T1344);
    uint8_t o[32], w[240], key[32], pt[16];
    m_shake(168, o, 32, (const uint8_t *)"", 0);
    need("SHAKE128('')", o, "7f9c2ba4e88f827d616045507605853ed73b8093f6efbc88eb1a6eacfa66ef26");
    m_shake(136, o, 32, (const uint8_t *)"", 0);
    need("SHAKE256('')", o, "46b9dd2b0ba88d13233b3feb743eeb243fcd52ea62b81b82b50c27646ed5762f");
    for (int i = 0; i < 32; i++) key[i] = (uint8_t)i;
    for (int i = 0; i < 16; i++) pt[i] = (uint8_t)(0x11 * i);
    m_aes_expand(128, key, w);
    m_aes_block(128, w, pt, o);
    need("FIPS197 C.1", o, "69c4e0d86a7b0430d8cdb78070b4c55a");
    m_aes_expand(256, key, w);
    m_aes_block(256, w, pt, o);
    need("FIPS197 C.3", o, "8ea2b7ca516745bfeafc49904b496089");
}
