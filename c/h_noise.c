/* Noise words as an input: the XOF is part of the closed environment. shake128/shake256 of the library are
 * interposed; for the noise expansion (domain byte 0x5F/0x96) the scripted words are returned, otherwise the
 * library's own function is called.  h_noise so set n gen LEVEL */
#include "h.h"
typedef void (*shake_f)(unsigned char *, unsigned long long, const unsigned char *, unsigned long long);
static shake_f real128, real256;
static uint8_t script[(2 * MAXN + NB) * NB * 2]; static size_t slen; static int dom; static long hits;
static lib_t L;

static void hook(shake_f real, int rate, unsigned char *out, unsigned long long outlen, const unsigned char *in, unsigned long long inlen)
{
    if (slen && rate == L.p.rate && inlen == 1 + L.cb && in[0] == dom && outlen == slen) { memcpy(out, script, slen); hits++; return; }
    real(out, outlen, in, inlen);
}
void shake128(unsigned char *o, unsigned long long ol, const unsigned char *i, unsigned long long il) { hook(real128, 168, o, ol, i, il); }
void shake256(unsigned char *o, unsigned long long ol, const unsigned char *i, unsigned long long il) { hook(real256, 136, o, ol, i, il); }

int main(int c, char **v)
{
    if (c < 6) return 2;
    h_start();
    L = lib_open(v[1], atoi(v[2]), atoi(v[3]), atoi(v[4]));
    int lv = atoi(v[5]), n = L.p.n;
    real128 = (shake_f)lib_sym(&L, "shake128"); real256 = (shake_f)lib_sym(&L, "shake256");
    const char *hv = getenv("HAVE");
    if (!real128 || !real256 || !hv || !strstr(hv, ",shake128,") || !strstr(hv, ",shake256,")) { h_note("the XOF cannot be interposed: scripted-noise enumeration skipped"); h_done(); }
    static uint8_t pk[MAXPK], sk[MAXSK], ct[MAXCT], ss[64], mpk[MAXPK], msk[MAXSK], mct[MAXCT], mss[64];
    uint8_t rnd[96], mu[32];
    h_bytes(rnd, 96, "noise"); h_bytes(mu, 32, "noise mu");
    /* gate: unscripted run equals the model, scripted run reaches the hook */
    rnd_feed(rnd, L.rndb); L.kp(pk, sk); m_keypair(&L.p, rnd, mpk, msk, NULL);
    if (L.p.n != L.p.set && memcmp(sk, msk, L.skb)) { h_note("reduced instance does not match the model on honest runs: not used"); h_done(); }
    long rot = lv >= 2 ? 65536 : lv == 1 ? 64 : 13;
    for (int op = 0; op < 2; op++) {
        dom = op ? 0x96 : 0x5F; slen = op ? (2 * (size_t)n + NB) * NB * 2 : 4 * (size_t)n * NB;
        static sec_t X;
        m_raw = NULL; if (op) m_keypair(&L.p, rnd, mpk, msk, NULL);
        for (long r = 0; r < rot; r++) {
            if (!h_mine()) continue;
            long off = lv >= 2 ? r : r * (65536 / rot);
            h_case("%d n=%d %s with noise words (i*13+%ld) mod 65536", L.p.set, n, op ? "enc" : "keypair", off);
            for (size_t i = 0; i < slen / 2; i++) { unsigned w = (unsigned)(i * 13 + off) & 0xFFFF; script[2 * i] = w; script[2 * i + 1] = w >> 8; }
            long h0 = hits;
            m_raw = script;
            if (!op) {
                rnd_feed(rnd, L.rndb); L.kp(pk, sk); m_keypair(&L.p, rnd, mpk, msk, &X);
                if (hits != h0 + 1) { h_note("noise expansion did not reach the interposed XOF: skipped"); h_done(); }
                for (int i = 0; i < n * NB; i++) {
                    size_t o = L.cb + L.pkb + 2 * i; int got = (int16_t)(sk[o] | sk[o + 1] << 8);
                    if (got != X.S[i]) { h_fail("noise word %04x at S[%d] became %d, specified %d", script[2 * i] | script[2 * i + 1] << 8, i, got, X.S[i]); break; }
                }
                long d = h_diff(pk, mpk, L.pkb);
                if (d >= 0 && !memcmp(sk + L.cb + L.pkb, msk + L.cb + L.pkb, 2 * (size_t)n * NB)) h_fail("public key byte %ld differs: error matrix not as specified", d);
            } else {
                rnd_feed(mu, L.mub); L.enc(ct, ss, mpk); m_enc(&L.p, mpk, mu, mct, mss, &X);
                if (hits != h0 + 1) { h_note("noise expansion did not reach the interposed XOF: skipped"); h_done(); }
                long d = h_diff(ct, mct, L.ctb);
                if (d >= 0) h_fail("ciphertext byte %ld differs for this noise", d);
            }
            h_calls++; h_count("word_positions", (long)slen / 2);
        }
    }
    h_sample("scripted noise set=%d n=%d level=%d: %ld rotations per operation", L.p.set, n, lv, rot);
    h_done();
}
