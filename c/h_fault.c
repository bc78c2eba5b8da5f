/* Fault enumeration around the KEM API: h_fault MODE so set n gen.   MODE: rng | backend */
#include "h.h"
#include <signal.h>
#include <sys/wait.h>

static lib_t L;
static uint8_t pk[MAXPK], sk[MAXSK], ct[MAXCT], ss[64], mpk[MAXPK], msk[MAXSK], mct[MAXCT], mss[64], rnd[96], mu[32];

/* ---------------- OpenSSL interposition ---------------- */
static long ev_calls, ev_new, ev_free; static int ev_dirty; static unsigned long long ev_fault[4]; static int ev_from = -1;
static int ev_hit(void)
{
    long k = ev_calls++;
    if (ev_from >= 0 && k >= ev_from) return 1;
    for (int i = 0; i < 4; i++) if (ev_fault[i] == (unsigned long long)k + 1) return 1;
    return 0;
}
#define REAL(ret, name, proto) static ret (*r) proto; if (!r) { r = (ret (*) proto)dlsym(RTLD_NEXT, name); if (!r) r = (ret (*) proto)dlsym(dlopen("libcrypto.so.3", RTLD_NOW), name); }
void *EVP_CIPHER_CTX_new(void) { REAL(void *, "EVP_CIPHER_CTX_new", (void)) if (ev_hit()) return NULL; ev_new++; return r(); }
void EVP_CIPHER_CTX_free(void *c) { REAL(void, "EVP_CIPHER_CTX_free", (void *)) if (c) ev_free++; r(c); }
int EVP_EncryptInit_ex(void *c, const void *t, void *e, const unsigned char *k, const unsigned char *iv) { REAL(int, "EVP_EncryptInit_ex", (void *, const void *, void *, const unsigned char *, const unsigned char *)) if (ev_hit()) return 0; return r(c, t, e, k, iv); }
int EVP_EncryptInit_ex2(void *c, const void *t, const unsigned char *k, const unsigned char *iv, const void *p) { REAL(int, "EVP_EncryptInit_ex2", (void *, const void *, const unsigned char *, const unsigned char *, const void *)) if (ev_hit()) return 0; return r(c, t, k, iv, p); }
int EVP_EncryptInit(void *c, const void *t, const unsigned char *k, const unsigned char *iv) { REAL(int, "EVP_EncryptInit", (void *, const void *, const unsigned char *, const unsigned char *)) if (ev_hit()) return 0; return r(c, t, k, iv); }
int EVP_CipherInit_ex(void *c, const void *t, void *e, const unsigned char *k, const unsigned char *iv, int enc) { REAL(int, "EVP_CipherInit_ex", (void *, const void *, void *, const unsigned char *, const unsigned char *, int)) if (ev_hit()) return 0; return r(c, t, e, k, iv, enc); }
int EVP_EncryptUpdate(void *c, unsigned char *o, int *ol, const unsigned char *i, int il) { REAL(int, "EVP_EncryptUpdate", (void *, unsigned char *, int *, const unsigned char *, int)) if (ev_hit()) { if (ev_dirty) { for (int j = 0; j < il; j++) o[j] ^= 0x5A; *ol = il; } return 0; } return r(c, o, ol, i, il); }
int EVP_CipherUpdate(void *c, unsigned char *o, int *ol, const unsigned char *i, int il) { REAL(int, "EVP_CipherUpdate", (void *, unsigned char *, int *, const unsigned char *, int)) if (ev_hit()) return 0; return r(c, o, ol, i, il); }
int EVP_EncryptFinal_ex(void *c, unsigned char *o, int *ol) { REAL(int, "EVP_EncryptFinal_ex", (void *, unsigned char *, int *)) if (ev_hit()) return 0; return r(c, o, ol); }
int EVP_CIPHER_CTX_set_padding(void *c, int p) { REAL(int, "EVP_CIPHER_CTX_set_padding", (void *, int)) if (ev_hit()) return 0; return r(c, p); }
const void *EVP_aes_128_ecb(void) { REAL(const void *, "EVP_aes_128_ecb", (void)) if (ev_hit()) return NULL; return r(); }
void *EVP_CIPHER_fetch(void *l, const char *a, const char *p) { REAL(void *, "EVP_CIPHER_fetch", (void *, const char *, const char *)) if (ev_hit()) return NULL; return r(l, a, p); }

/* runs operation op (0 kp, 1 enc, 2 dec, 3 dec reject); 0 = success with the right output, 1 = failure reported, 2 = success with wrong output */
static const char *ON[4] = { "keypair", "enc", "dec", "dec of a modified ciphertext" };
static int run_op(int op)
{
    int rc; 
    switch (op) {
    case 0:
        memset(pk, 0xA5, L.pkb); memset(sk, 0xA5, L.skb); rnd_feed(rnd, L.rndb);
        rc = L.kp(pk, sk);
        if (rc) return 1;
        return h_ne(pk, mpk, L.pkb) || h_ne(sk, msk, L.skb) ? 2 : 0;
    case 1:
        memset(ct, 0xA5, L.ctb); memset(ss, 0xA5, L.cb); rnd_feed(mu, L.mub);
        rc = L.enc(ct, ss, mpk);
        if (rc) return 1;
        return h_ne(ct, mct, L.ctb) || h_ne(ss, mss, L.cb) ? 2 : 0;
    default: {
        static uint8_t c2[MAXCT]; uint8_t want[64];
        memcpy(c2, mct, L.ctb); if (op == 3) c2[7] ^= 1;
        if (op == 3) m_F(&L.p, want, c2, msk); else memcpy(want, mss, L.cb);
        memset(ss, 0xA5, L.cb);
        rc = L.dec(ss, c2, msk);
        if (rc) return 1;
        return h_ne(ss, want, L.cb) ? 2 : 0; }
    }
}
static int child(int op)      /* run in a child: 0..2 as run_op, 3 = terminated, 4/5: a later operation without faults succeeds with wrong output/fails */
{
    h_cmps++;
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        int fd = open("/dev/null", O_WRONLY); dup2(fd, 2);
        alarm(60);
        int r = run_op(op);
        /* the backend works again: whatever the failure was, later operations must be right */
        ev_from = -1; memset(ev_fault, 0, sizeof ev_fault);
        for (int o2 = 0; r == 1 && o2 < 4; o2++) { int q = run_op(o2); if (q) r = q == 2 ? 4 : 5; }
        _exit(r);
    }
    int st; waitpid(p, &st, 0); h_calls++;
    return WIFEXITED(st) ? WEXITSTATUS(st) : 3;
}

int main(int c, char **v)
{
    if (c < 6) return 2;
    h_start();
    L = lib_open(v[2], atoi(v[3]), atoi(v[4]), atoi(v[5]));
    h_bytes(rnd, 96, "fault rnd"); h_bytes(mu, 32, "fault mu");
    m_keypair(&L.p, rnd, mpk, msk, NULL); m_enc(&L.p, mpk, mu, mct, mss, NULL);
    if (!strcmp(v[1], "rng")) {
        for (int op = 0; op < 2; op++) {
            h_case("%d %s, working generator", L.p.set, ON[op]);
            rnd_fail_call = -1;
            if (run_op(op)) { h_fail("does not succeed with a working generator"); continue; }
            long n = rnd_calls;
            h_count("generator_requests", n);
            static const int code[] = { 1, -1, 256 };
            for (long k = 0; k < n; k++) for (int hist = 0; hist < 8; hist++) for (int cf = 0; cf < 9; cf++) {
                rnd_fail_code = code[cf % 3]; rnd_fail_fill = cf / 3;
                /* history before the failing call: none / successful operations / failing ones (bits) */
                h_case("%d %s with generator request %ld failing (returns %d, %s), history %d", L.p.set, ON[op], k, rnd_fail_code, rnd_fail_fill ? rnd_fail_fill == 1 ? "buffer half filled" : "buffer filled" : "buffer untouched", hist);
                for (int b = 0; b < 3; b++) if (hist >> b & 1) { rnd_fail_call = b == 1 ? 0 : -1; int r = run_op(b == 2 ? 1 - op : op); h_calls++;
                    if (b == 1 ? r != 1 : r != 0) h_fail("history operation %d gave %d", b, r); }
                rnd_fail_call = k;
                int r = run_op(op); h_calls++;
                if (r != 1) h_fail("returned success (%s) although the random generator failed", r == 0 ? "with the expected output" : "with unpredictable output");
                rnd_fail_call = -1;
                for (int o2 = 0; o2 < 4; o2++) { r = run_op(o2); h_calls++; if (r) h_fail("after the generator recovered, %s gives %d", ON[o2], r); }
            }
        }
    } else {
        for (int op = 0; op < 4; op++) {
            h_case("%d %s without faults", L.p.set, ON[op]);
            ev_calls = ev_new = ev_free = 0; memset(ev_fault, 0, sizeof ev_fault);
            int r = run_op(op); h_calls++;
            if (r) { h_fail("does not succeed without faults (%d)", r); continue; }
            if (ev_new != ev_free) h_fail("%ld backend objects allocated, %ld released", ev_new, ev_free);
            long n = ev_calls;
            h_count("backend_calls", n);
            static const char *KN[5] = { "", " and all later ones", " and the next one", " and the one after the next", " after damaging its output" };
            for (long k = 0; k < n; k++) for (int kind = 0; kind < 5; kind++) {
                if (!h_mine()) continue;
                h_case("%d %s with backend call %ld of %ld failing%s", L.p.set, ON[op], k, n, KN[kind]);
                ev_calls = 0; memset(ev_fault, 0, sizeof ev_fault); ev_from = -1;
                if (kind == 1) ev_from = (int)k; else ev_fault[0] = k + 1;
                if (kind == 2 || kind == 3) ev_fault[1] = k + kind;
                ev_dirty = kind == 4;
                int x = child(op);
                ev_from = -1; memset(ev_fault, 0, sizeof ev_fault); ev_dirty = 0;
                if (x == 2) h_fail("returned success with wrong output");
                if (x == 4) h_fail("failed, and a later operation with a working backend returned success with wrong output");
                h_count(x == 3 ? "terminated" : x == 1 || x == 5 ? "reported" : "harmless", 1);
            }
            for (int i = 0; i < 20; i++) { ev_new = ev_free = 0; run_op(op); h_calls++; if (ev_new != ev_free) { h_fail("%ld backend objects allocated, %ld released in call %d", ev_new, ev_free, i); break; } }
        }
    }
    h_sample("%s faults set=%d: %ld cases", v[1], L.p.set, h_cases);
    h_done();
}
