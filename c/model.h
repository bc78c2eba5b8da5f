/* Reference model of FrodoKEM, written from the specification (round 3) and kept boring on purpose:
 * no code is shared with the implementation under test. Parametric in n so that reduced instances
 * of the real code can be compared as well. */
#ifndef MODEL_H
#define MODEL_H
#include <stddef.h>
#include <stdint.h>

enum { GEN_AES = 0, GEN_SHAKE = 1 };

typedef struct {
    int n;         /* lattice dimension */
    int D;         /* log2 q */
    int B;         /* bits per coefficient */
    int cb;        /* bytes of s, seedSE, k, pkh, ss, mu */
    int rate;      /* SHAKE rate: 168 (SHAKE128) or 136 (SHAKE256) */
    int gen;       /* GEN_AES / GEN_SHAKE */
    int set;       /* 640, 976, 1344: which noise table */
} par_t;

#define NB 8
#define MAXN 1344
#define MAXPK (16 + 16 * MAXN)
#define MAXCT (16 * MAXN + 16 * NB)
#define MAXSK (32 + MAXPK + 2 * MAXN * NB + 32)

void   m_init(void);                       /* builds tables; aborts on a failed self check */
par_t  m_par(int set, int n, int gen);     /* n == 0: the real n of the set */
size_t m_pkb(const par_t *p);
size_t m_skb(const par_t *p);
size_t m_ctb(const par_t *p);
size_t m_mub(const par_t *p);
size_t m_rndb(const par_t *p);             /* random bytes consumed by key generation */

void m_shake(int rate, uint8_t *out, size_t outlen, const uint8_t *in, size_t inlen);
void m_aes_expand(int keybits, const uint8_t *key, uint8_t *sched);
void m_aes_block(int keybits, const uint8_t *sched, const uint8_t in[16], uint8_t out[16]);

int16_t m_sample(int set, uint16_t r);
const int *m_cdf(int set, int *len);
void m_pack(uint8_t *out, const uint16_t *in, size_t cnt, int D);
void m_unpack(uint16_t *out, const uint8_t *in, size_t cnt, int D);
void m_encode(const par_t *p, uint16_t *M, const uint8_t *mu);
void m_decode(const par_t *p, uint8_t *mu, const uint16_t *M);
const uint16_t *m_A(const par_t *p, const uint8_t seedA[16]);   /* cached */

typedef struct {           /* every secret intermediate value, for the residue check */
    int16_t  S[MAXN * NB], E[MAXN * NB];
    int16_t  Sp[MAXN * NB], Ep[MAXN * NB], Epp[NB * NB];
    uint8_t  raw[(2 * MAXN + NB) * NB * 2];   /* unsampled XOF output */
    uint16_t V[NB * NB];
    uint16_t M[NB * NB];      /* decapsulation: C - B'S, the noisy product */
    uint8_t  s[32], seedSE[32], mu[32], k[32], pkh[32];
    int      accepted;
} sec_t;

void m_keypair(const par_t *p, const uint8_t *rnd, uint8_t *pk, uint8_t *sk, sec_t *x);
void m_enc(const par_t *p, const uint8_t *pk, const uint8_t *mu, uint8_t *ct, uint8_t *ss, sec_t *x);
/* deterministic part of encapsulation with an explicit pkh (the secret key carries its own) */
void m_enc_pkh(const par_t *p, const uint8_t *pk, const uint8_t *pkh, const uint8_t *mu,
               uint8_t *ct, uint8_t *k, sec_t *x);
int  m_dec(const par_t *p, const uint8_t *sk, const uint8_t *ct, uint8_t *ss, sec_t *x); /* 1 = accepted */
void m_F(const par_t *p, uint8_t *ss, const uint8_t *ct, const uint8_t *k);
extern const uint8_t *m_raw;   /* scripted noise (raw words), NULL = XOF */
#endif
