#include "h.h"

long rnd_calls, rnd_used, rnd_fail_call = -1;
int rnd_over, rnd_fail_code = 1, rnd_fail_fill;
static const uint8_t *rnd_buf; static size_t rnd_len;

void rnd_feed(const uint8_t *b, size_t n) { rnd_buf = b; rnd_len = n; rnd_calls = rnd_used = 0; rnd_over = 0; }

#ifndef NO_RANDOMBYTES
int randombytes(unsigned char *out, unsigned long long n)
{
    if (rnd_calls++ == rnd_fail_call) { if (rnd_fail_fill) for (unsigned long long i = 0; i < (rnd_fail_fill == 1 ? n / 2 : n); i++) out[i] = (unsigned char)(i * 29 + 7); return rnd_fail_code; }
    for (unsigned long long i = 0; i < n; i++) {
        if ((size_t)rnd_used < rnd_len) out[i] = rnd_buf[rnd_used];
        else { out[i] = 0xEE; rnd_over = 1; }
        rnd_used++;
    }
    return 0;
}
#endif

lib_t lib_open(const char *so, int set, int n, int gen)
{
    lib_t L; char b[64];
    memset(&L, 0, sizeof L);
    L.p = m_par(set, n == set ? 0 : n, gen);
    L.dl = dlopen(so, RTLD_NOW | RTLD_LOCAL);
    if (!L.dl) { fprintf(stderr, "dlopen: %s\n", dlerror()); exit(3); }
    snprintf(b, sizeof b, "crypto_kem_keypair_Frodo%d", set); L.kp = (kp_f)dlsym(L.dl, b);
    snprintf(b, sizeof b, "crypto_kem_enc_Frodo%d", set); L.enc = (enc_f)dlsym(L.dl, b);
    snprintf(b, sizeof b, "crypto_kem_dec_Frodo%d", set); L.dec = (dec_f)dlsym(L.dl, b);
    if (!L.kp || !L.enc || !L.dec) { fprintf(stderr, "api symbols missing\n"); exit(3); }
    L.pkb = m_pkb(&L.p); L.skb = m_skb(&L.p); L.ctb = m_ctb(&L.p); L.cb = L.p.cb; L.mub = m_mub(&L.p); L.rndb = m_rndb(&L.p);
    return L;
}
void *lib_sym(lib_t *L, const char *name) { return dlsym(L->dl, name); }

long h_cases, h_aux;
static long calls0; long *h_callsp = &calls0;
int h_fails, h_thorough, h_shard, h_nshard = 1;
uint64_t h_seed = 1;
static char *casep; static char casebuf[4096];
static char samples[8][1400]; static int nsamples;
static char notes[8][400]; static int nnotes;
static struct { char k[48]; long v; } cnt[32]; static int ncnt;
static long h_index;
long h_cmps;

void h_start(void)
{
    const char *f = getenv("CASEFILE"), *s;
    setvbuf(stdout, NULL, _IOLBF, 0);
    casep = casebuf;
    if (f) {
        int fd = open(f, O_RDWR);
        if (fd >= 0) {
            void *m = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (m != MAP_FAILED) { casep = m; h_callsp = (long *)(casep + 4088); }
            close(fd);
        }
    }
    if ((s = getenv("VERIF_SEED"))) h_seed = strtoull(s, 0, 0);
    if ((s = getenv("VERIF_TIER"))) h_thorough = !strcmp(s, "thorough");
    if ((s = getenv("SHARD"))) sscanf(s, "%d/%d", &h_shard, &h_nshard);
    m_init();
}
int h_mine(void) { return (h_index++ % h_nshard) == h_shard; }

void h_case(const char *fmt, ...)
{
    va_list a; va_start(a, fmt); vsnprintf(casep, 4000, fmt, a); va_end(a); h_cases++;
}
static void esc(char *o, size_t n, const char *i)
{
    size_t k = 0;
    for (; *i && k + 2 < n; i++) { if (*i == '"' || *i == '\\') o[k++] = '\\'; o[k++] = (*i < 32) ? ' ' : *i; }
    o[k] = 0;
}
void h_fail(const char *fmt, ...)
{
    char b[2048]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    printf("FAIL %.3000s :: %s\n", casep, b); fflush(stdout);
    if (++h_fails >= 3) h_done();
}
void h_note(const char *fmt, ...)
{
    char b[380]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    if (nnotes < 8) esc(notes[nnotes++], 400, b);
}
void h_sample(const char *fmt, ...)
{
    char b[700]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    if (nsamples < 8) esc(samples[nsamples++], 1400, b);
}
void h_count(const char *name, long v)
{
    for (int i = 0; i < ncnt; i++) if (!strcmp(cnt[i].k, name)) { cnt[i].v += v; return; }
    if (ncnt < 32) { snprintf(cnt[ncnt].k, 48, "%s", name); cnt[ncnt++].v = v; }
}
void h_done(void)
{
    printf("DONE {\"cases\":%ld,\"calls\":%ld,\"aux\":%ld,\"cmps\":%ld", h_cases, h_calls, h_aux, h_cmps);
    for (int i = 0; i < ncnt; i++) printf(",\"%s\":%ld", cnt[i].k, cnt[i].v);
    printf(",\"samples\":[");
    for (int i = 0; i < nsamples; i++) printf("%s\"%s\"", i ? "," : "", samples[i]);
    printf("],\"notes\":[");
    for (int i = 0; i < nnotes; i++) printf("%s\"%s\"", i ? "," : "", notes[i]);
    printf("]}\n");
    fflush(stdout);
    _exit(h_fails ? 1 : 0);
}
void h_bytes(uint8_t *out, size_t n, const char *label, ...)
{
    char b[256]; int k = snprintf(b, sizeof b, "verif base %llu/", (unsigned long long)h_seed);
    va_list a; va_start(a, label); k += vsnprintf(b + k, sizeof b - k, label, a); va_end(a);
    m_shake(168, out, n, (uint8_t *)b, k);
}
long h_diff(const uint8_t *a, const uint8_t *b, size_t n)
{
    h_cmps++;
    if (!memcmp(a, b, n)) return -1;
    for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return (long)i;
    return -1;
}
