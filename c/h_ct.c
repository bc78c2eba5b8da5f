/* Execution traces (C15): h_ct MODE so set n gen LEVEL.  MODE kp|enc|dec
 * The library is compiled with block and memory-access callbacks; the trace of a call is the sequence of all executed
 * blocks and accessed addresses (and of the libc comparisons' lengths of equal prefixes). For fixed public data all
 * enumerated secrets must give the same trace. */
#include "h.h"
#include <link.h>

static lib_t L;
static int lv;
static volatile int on;
static uint64_t th; static long tn;
static struct { uintptr_t pc, ad; } *rec; static long nrec; static volatile int recording;
#define RECMAX 6000000
static uintptr_t lo_, hi_;                   /* the library's image */

static inline __attribute__((always_inline)) void ev(uintptr_t pc, uintptr_t ad)
{
    th = (th ^ ad) * 0x9E3779B97F4A7C15ull; th ^= th >> 29; th = (th ^ pc) * 0xBF58476D1CE4E5B9ull; tn++;
    if (recording && nrec < RECMAX) { rec[nrec].pc = pc; rec[nrec++].ad = ad; }
}
#define RA ((uintptr_t)__builtin_return_address(0))
void __sanitizer_cov_trace_pc(void) { if (on) ev(RA, 0); }
#define ACC(n) void __asan_load##n##_noabort(uintptr_t a) { if (on) ev(RA, a); } void __asan_store##n##_noabort(uintptr_t a) { if (on) ev(RA, a); } \
               void __asan_load##n(uintptr_t a) { if (on) ev(RA, a); } void __asan_store##n(uintptr_t a) { if (on) ev(RA, a); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __asan_loadN_noabort(uintptr_t a, size_t n) { if (on) { ev(RA, a); ev(0, n); } }
void __asan_storeN_noabort(uintptr_t a, size_t n) { if (on) { ev(RA, a); ev(0, n); } }
void __asan_loadN(uintptr_t a, size_t n) { if (on) { ev(RA, a); ev(0, n); } }
void __asan_storeN(uintptr_t a, size_t n) { if (on) { ev(RA, a); ev(0, n); } }
void __asan_handle_no_return(void) {}
void __asan_init(void) {}
void __asan_version_mismatch_check_v8(void) {}
void __asan_register_globals(void *a, size_t n) { (void)a; (void)n; }
void __asan_unregister_globals(void *a, size_t n) { (void)a; (void)n; }
void __asan_register_elf_globals(void *a, void *b, void *c) { (void)a; (void)b; (void)c; }
void __asan_unregister_elf_globals(void *a, void *b, void *c) { (void)a; (void)b; (void)c; }

/* libc functions the compiler does not instrument */
static inline int fromlib(uintptr_t ra) { return on && ra >= lo_ && ra < hi_; }
static int cmp(const void *a, const void *b, size_t n, uintptr_t ra)
{
    const uint8_t *x = a, *y = b; size_t i = 0;
    while (i < n && x[i] == y[i]) i++;
    if (fromlib(ra)) { ev(ra, (uintptr_t)a); ev(ra, (uintptr_t)b); ev(ra, i); }
    return i == n ? 0 : x[i] < y[i] ? -1 : 1;
}
int memcmp(const void *a, const void *b, size_t n) { return cmp(a, b, n, RA); }
int bcmp(const void *a, const void *b, size_t n) { return cmp(a, b, n, RA); }
int strncmp(const char *a, const char *b, size_t n)
{
    size_t i = 0;
    while (i < n && a[i] == b[i] && a[i]) i++;
    if (fromlib(RA)) ev(RA, i);
    return i == n ? 0 : (uint8_t)a[i] - (uint8_t)b[i];
}
static void *cpy(void *d, const void *s, size_t n) { void *r = d; __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
void *memcpy(void *d, const void *s, size_t n) { if (fromlib(RA)) { ev(RA, (uintptr_t)d); ev(RA, (uintptr_t)s); ev(RA, n); } return cpy(d, s, n); }
void *__asan_memcpy(void *d, const void *s, size_t n) { if (fromlib(RA)) { ev(RA, (uintptr_t)d); ev(RA, (uintptr_t)s); ev(RA, n); } return cpy(d, s, n); }
void *__memcpy_chk(void *d, const void *s, size_t n, size_t x) { (void)x; if (fromlib(RA)) { ev(RA, (uintptr_t)d); ev(RA, (uintptr_t)s); ev(RA, n); } return cpy(d, s, n); }
void *memset(void *d, int c, size_t n) { void *r = d; if (fromlib(RA)) { ev(RA, (uintptr_t)d); ev(RA, n); } __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r; }
void *__asan_memset(void *d, int c, size_t n) { return memset(d, c, n); }
void *__memset_chk(void *d, int c, size_t n, size_t x) { (void)x; return memset(d, c, n); }

static int phdr(struct dl_phdr_info *i, size_t sz, void *nm)
{
    (void)sz;
    if (strcmp(i->dlpi_name, nm)) return 0;
    lo_ = i->dlpi_addr; hi_ = lo_;
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD) { uintptr_t e = lo_ + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz; if (e > hi_) hi_ = e; }
    return 1;
}

static uint8_t __attribute__((aligned(64))) pk[MAXPK], sk[MAXSK], ct[MAXCT], ss[64];
static int mode;      /* 0 kp 1 enc 2 dec */
static uint8_t cur_rnd[96];
static void __attribute__((noinline)) call(void)
{
    int rc;
    rnd_feed(cur_rnd, mode == 0 ? L.rndb : mode == 1 ? L.mub : 0);
    th = 0; tn = 0; nrec = 0;
    on = 1;
    if (mode == 0) rc = L.kp(pk, sk); else if (mode == 1) rc = L.enc(ct, ss, pk); else rc = L.dec(ss, ct, sk);
    on = 0;
    h_calls++;
    if (rc) h_fail("returned %d", rc);
}
static uint64_t ref_h; static long ref_n; static int have_ref, unstable;
static uint8_t ref_rnd[96], ref_sk[MAXSK];
static void locate(void)
{
    /* first difference between the reference secret and the current one */
    static uint8_t keep_sk[MAXSK], keep_rnd[96];
    memcpy(keep_sk, sk, MAXSK); memcpy(keep_rnd, cur_rnd, 96);
    typeof(rec) a = malloc(RECMAX * sizeof *rec), b = malloc(RECMAX * sizeof *rec);
    rec = a; recording = 1;
    memcpy(cur_rnd, ref_rnd, 96); if (mode == 2) memcpy(sk, ref_sk, MAXSK);
    call(); long na = nrec; uint64_t h1 = th;
    memcpy(cur_rnd, keep_rnd, 96); memcpy(sk, keep_sk, MAXSK);
    rec = b; call(); long nb = nrec; uint64_t h2 = th;
    recording = 0;
    if (h1 != ref_h) { unstable = 1; h_note("%d: the trace of one and the same input is not stable: not judged", L.p.set); free(a); free(b); return; }
    if (h1 == h2) { h_note("%d: a trace difference did not repeat", L.p.set); free(a); free(b); return; }
    long i = 0; while (i < na && i < nb && a[i].pc == b[i].pc && a[i].ad == b[i].ad) i++;
    Dl_info d; const char *fn = "?"; uintptr_t off = 0;
    if (i < nb && dladdr((void *)b[i].pc, &d)) { fn = d.dli_sname ? d.dli_sname : "?"; off = b[i].pc - (uintptr_t)d.dli_fbase; }
    h_fail("trace differs from the reference secret's at event %ld of %ld/%ld: near %s (offset 0x%lx), %s", i, na, nb, fn, (unsigned long)off,
           i < na && i < nb && a[i].pc == b[i].pc ? "another address is accessed" : "another block is executed");
    free(a); free(b);
}
static void judge(void)
{
    if (unstable) return;
    call();
    if (!have_ref) {
        memcpy(ref_rnd, cur_rnd, 96); memcpy(ref_sk, sk, MAXSK);
        call(); uint64_t h1 = th; call();
        if (h1 != th) { unstable = 1; h_note("%d: the trace of one and the same input is not stable: not judged", L.p.set); return; }
        ref_h = th; ref_n = tn; have_ref = 1;
        if (ref_n < 100) { unstable = 1; h_note("%d: no instrumentation callbacks: not judged", L.p.set); }
        return;
    }
    h_cmps++;
    if (th != ref_h) locate();
}
static const unsigned EXT[] = { 0, 1, 2, 0x7F, 0x80, 0xFF, 0x100, 0x3FFF, 0x4000, 0x7FFF, 0x8000, 0x8001, 0xFFFE, 0xFFFF };

static void seeds(uint8_t *b, size_t n, const char *nm)        /* enumerates the secret bytes b[0..n) */
{
    static uint8_t base[96];
    memcpy(base, b, n);
    h_case("%d n=%d %s reference", L.p.set, L.p.n, nm); judge();
    for (int p = 0; p < 4; p++) {
        static const int pat[4] = { 0, 0xFF, 0x55, 0x80 };
        memset(b, pat[p], n); if (!h_mine()) continue;
        h_case("%d n=%d %s all %02x", L.p.set, L.p.n, nm, pat[p]); judge();
    }
    for (size_t i = 0; i < 8 * n; i++) {
        if (lv == 0 && i % 32 || lv == 1 && i % 8 != (i / 8) % 8) continue;
        if (!h_mine()) continue;
        memcpy(b, base, n); b[i / 8] ^= 1 << (i % 8);
        h_case("%d n=%d %s bit %zu", L.p.set, L.p.n, nm, i); judge();
    }
    if (lv >= 2) for (size_t i = 0; i < n; i++) for (int v = 0; v < 256; v += h_thorough || L.p.n != L.p.set ? 1 : 17) {
        if (!h_mine()) continue;
        memcpy(b, base, n); b[i] = v;
        h_case("%d n=%d %s byte %zu=%d", L.p.set, L.p.n, nm, i, v); judge();
    }
    memcpy(b, base, n);
}

int main(int c, char **v)
{
    if (c < 7) return 2;
    h_start();
    L = lib_open(v[2], atoi(v[3]), atoi(v[4]), atoi(v[5]));
    lv = atoi(v[6]);
    dl_iterate_phdr(phdr, v[2]);
    uint8_t rnd[96], mu[32];
    h_bytes(rnd, 96, "ct key"); h_bytes(mu, 32, "ct mu");
    static uint8_t mpk[MAXPK], msk[MAXSK], mct[MAXCT], mss[64];
    m_keypair(&L.p, rnd, mpk, msk, NULL); m_enc(&L.p, mpk, mu, mct, mss, NULL);
    memcpy(pk, mpk, L.pkb); memcpy(sk, msk, L.skb); memcpy(ct, mct, L.ctb);
    if (L.p.n != L.p.set) {
        static uint8_t a[MAXSK]; memcpy(cur_rnd, rnd, 96); mode = 0; call();
        memcpy(a, sk, L.skb); memcpy(sk, msk, L.skb);
        if (memcmp(a, msk, L.skb)) { h_note("reduced instance does not match the model: not used"); h_done(); }
    }
    if (!strcmp(v[1], "kp")) {
        mode = 0; memcpy(cur_rnd, rnd, 96);
        seeds(cur_rnd, 2 * L.cb, "keypair s||seedSE");
    } else if (!strcmp(v[1], "enc")) {
        for (int w = 0; w < 2; w++) {
            mode = 1; memcpy(cur_rnd, mu, 32); have_ref = 0;
            if (w) for (size_t i = 16; i < L.pkb; i++) pk[i] = 0;          /* B = 0: V is the bare noise E'' */
            seeds(cur_rnd, L.mub, w ? "enc (B=0) mu" : "enc mu");
            if (lv == 0) break;
        }
    } else {
        mode = 2;
        size_t c1 = (size_t)L.p.D * L.p.n * NB / 8, oS = L.cb + L.pkb, nS = 2 * (size_t)L.p.n * NB;
        for (int w = 0; w < 7; w++) {
            if (lv == 0 && w != 0 && w != 3) continue;
            if (lv == 1 && L.p.n == L.p.set && w > 3) continue;
            have_ref = 0;
            memcpy(ct, mct, L.ctb); memcpy(sk, msk, L.skb);
            /* honest; a small change that still decodes to the same message: last/first of c2, last/first/middle of c1; all ones */
            if (w == 1) ct[L.ctb - 1] ^= 1;
            if (w == 2) ct[c1 + 1] ^= (L.p.D == 15) ? 2 : 1;
            if (w == 3) ct[c1 - 1] ^= 1;
            if (w == 4) ct[1] ^= (L.p.D == 15) ? 2 : 1;
            if (w == 5) ct[c1 / 2] ^= 1;
            if (w == 6) memset(ct, 0xFF, L.ctb);
            h_case("%d n=%d dec ct %d reference (honest key)", L.p.set, L.p.n, w); judge();
            for (unsigned e = 0; e < sizeof EXT / sizeof *EXT; e++) {
                if (lv == 0 && e % 4) continue;
                if (!h_mine()) continue;
                memcpy(sk, msk, L.skb);
                for (size_t i = 0; i < nS / 2; i++) { sk[oS + 2 * i] = EXT[e]; sk[oS + 2 * i + 1] = EXT[e] >> 8; }
                h_case("%d n=%d dec ct %d S constant %u", L.p.set, L.p.n, w, EXT[e]); judge();
            }
            for (size_t i = 0; i < 8 * L.cb; i++) {
                if (lv == 0 && i % 64 || lv == 1 && i % 8 != (i / 8) % 8) continue;
                if (!h_mine()) continue;
                memcpy(sk, msk, L.skb); sk[i / 8] ^= 1 << (i % 8);
                h_case("%d n=%d dec ct %d s bit %zu", L.p.set, L.p.n, w, i); judge();
            }
            size_t stp = lv == 0 ? nS / 4 + 1 : L.p.n != L.p.set ? 1 : lv == 1 ? nS / 40 + 1 : nS / 300 + 1;
            for (size_t i = 0; i < nS; i += stp) {
                if (!h_mine()) continue;
                memcpy(sk, msk, L.skb); sk[oS + i] ^= 1 << ((i / 2) % 8);
                h_case("%d n=%d dec ct %d S byte %zu", L.p.set, L.p.n, w, i); judge();
                memcpy(sk, msk, L.skb); for (size_t k = 0; k <= i; k++) sk[oS + k] = 0;
                h_case("%d n=%d dec ct %d S zero up to %zu", L.p.set, L.p.n, w, i); judge();
            }
            /* another honest key pair's secret with this public key */
            for (int k = 0; k < (lv == 0 ? 1 : lv == 1 ? 4 : 16); k++) {
                if (!h_mine()) continue;
                static uint8_t p2[MAXPK], s2[MAXSK]; uint8_t r2[96];
                h_bytes(r2, 96, "ct other %d", k); memcpy(r2 + 2 * L.cb, rnd + 2 * L.cb, 16);
                m_keypair(&L.p, r2, p2, s2, NULL);
                memcpy(sk, msk, L.skb); memcpy(sk, s2, L.cb); memcpy(sk + oS, s2 + oS, nS);
                h_case("%d n=%d dec ct %d other secret %d", L.p.set, L.p.n, w, k); judge();
            }
        }
    }
    h_count("trace_events_per_call_sum", ref_n);
    h_sample("%s set=%d n=%d: %ld secrets, %ld events per call", v[1], L.p.set, L.p.n, h_cases, ref_n);
    h_done();
}
