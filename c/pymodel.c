/* The reference model as a shared library for the Python worker. */
#include "model.h"
static sec_t X;
void pm_init(void) { m_init(); }
long pm_size(int set, int n, int what)
{
    par_t p = m_par(set, n == set ? 0 : n, 0);
    return what == 0 ? m_pkb(&p) : what == 1 ? m_skb(&p) : what == 2 ? m_ctb(&p) : what == 3 ? m_mub(&p) : what == 4 ? m_rndb(&p) : what == 5 ? p.cb : what == 6 ? p.D : p.B;
}
#define P par_t p = m_par(set, n == set ? 0 : n, gen)
void pm_keypair(int set, int n, int gen, const uint8_t *rnd, uint8_t *pk, uint8_t *sk) { P; m_keypair(&p, rnd, pk, sk, &X); }
void pm_enc(int set, int n, int gen, const uint8_t *pk, const uint8_t *mu, uint8_t *ct, uint8_t *ss) { P; m_enc(&p, pk, mu, ct, ss, &X); }
void pm_enc_pkh(int set, int n, int gen, const uint8_t *pk, const uint8_t *pkh, const uint8_t *mu, uint8_t *ct, uint8_t *k) { P; m_enc_pkh(&p, pk, pkh, mu, ct, k, &X); }
int  pm_dec(int set, int n, int gen, const uint8_t *sk, const uint8_t *ct, uint8_t *ss) { P; return m_dec(&p, sk, ct, ss, &X); }
int  pm_sample(int set, int r) { return m_sample(set, (uint16_t)r); }
void pm_pack(uint8_t *o, const uint16_t *i, long cnt, int D) { m_pack(o, i, cnt, D); }
void pm_unpack(uint16_t *o, const uint8_t *i, long cnt, int D) { m_unpack(o, i, cnt, D); }
void pm_encode(int set, uint16_t *M, const uint8_t *mu) { par_t p = m_par(set, 0, 0); m_encode(&p, M, mu); }
void pm_decode(int set, uint8_t *mu, const uint16_t *M) { par_t p = m_par(set, 0, 0); m_decode(&p, mu, M); }
void pm_A(int set, int n, int gen, const uint8_t *seed, uint16_t *out)
{
    P; const uint16_t *A = m_A(&p, seed);
    for (long i = 0; i < (long)n * n; i++) out[i] = A[i] & ((1u << p.D) - 1);
}
void pm_xof(uint8_t *o, long n, const uint8_t *i, long k) { m_shake(168, o, n, i, k); }
void pm_raw(const uint8_t *r) { m_raw = r; }
void pm_aes256(const uint8_t *k, const uint8_t *i, uint8_t *o) { uint8_t w[240]; m_aes_expand(256, k, w); m_aes_block(256, w, i, o); }
