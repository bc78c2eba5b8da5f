/* Residue (C14): h_res so set n gen LEVEL
 * What is found is printed as "HIT operation|secret|where"; vf/residue.py judges (spills of a single compiler do not count).
 * Runs every operation on a prepared stack and searches what it leaves behind - its stack, the library's static and
 * thread-local data, heap memory it releases or keeps - for windows of the secret values computed by the model.
 * The scratch of the hash functions is taken out of the picture: the dead stack below every call of
 * shake128/shake256 is put back to what it was before the call, so older residue there stays visible. */
#include "h.h"
#include <link.h>
#include <malloc.h>
#include <ucontext.h>

typedef void (*shake_f)(unsigned char *, unsigned long long, const unsigned char *, unsigned long long);
static shake_f real128, real256;
static lib_t L;
static long hits;
static int lv;

#define STK (4u << 20)
static uint8_t *stk;
static volatile int inop;
/* saves / restores the dead part of the stack below the caller, so that the call in between leaves no trace there */
static uint8_t keep[65536]; static uint8_t *klo; static size_t klen;
static __attribute__((noinline)) void below(int restore)
{
    uint8_t *sp = __builtin_frame_address(0);
    if (!restore) {
        klen = 0;
        if (!inop || sp < stk || sp >= stk + STK) return;
        klo = sp - sizeof keep < stk ? stk : sp - sizeof keep; klen = (size_t)(sp - 256 - klo);      /* stays clear of this frame */
    }
    if (!klen) return;
    volatile uint8_t *p = klo;
    if (restore) for (size_t i = 0; i < klen; i++) p[i] = keep[i];
    else for (size_t i = 0; i < klen; i++) keep[i] = p[i];
}
#define HOOK(NAME, REAL) \
__attribute__((noinline)) void NAME(unsigned char *o, unsigned long long ol, const unsigned char *i, unsigned long long il) { hits++; below(0); REAL(o, ol, i, il); below(1); }
HOOK(shake128, real128)
HOOK(shake256, real256)

/* ------------------------------------------------------------------ windows */
#define WMAX 400000
typedef struct { const uint8_t *p; uint16_t n; const char *name; long ix; } win_t;
static win_t *wins; static long nw; static int *tab; static long tabn;
static long hashq(const uint8_t *p) { uint64_t v; memcpy(&v, p, 8); v *= 0x9E3779B97F4A7C15ull; return (long)((v >> 20) & (tabn - 1)); }
static void addw(const char *name, long ix, const uint8_t *p, int n)
{
    if (nw >= WMAX) return;
    wins[nw] = (win_t){ p, (uint16_t)n, name, ix };
    long h = hashq(p);
    while (tab[h] >= 0) h = (h + 1) & (tabn - 1);
    tab[h] = (int)nw++;
}
static void reset(void) { nw = 0; for (long i = 0; i < tabn; i++) tab[i] = -1; }
static void add_bytes(const char *name, const uint8_t *b, int n)
{
    for (int i = 0; i + 8 <= n; i++) {
        int distinct = 0;
        for (int a = 0; a < 8; a++) { int u = 1; for (int c = 0; c < a; c++) if (b[i + a] == b[i + c]) u = 0; distinct += u; }
        if (distinct >= 5) addw(name, i, b + i, 8);
    }
}
static void add_words(const char *name, const void *b, long cnt)
{
    const uint16_t *w = b;
    for (long i = 0; i + 16 <= cnt; i++) {
        int distinct = 0;
        for (int a = 0; a < 16; a++) { int n = 1; for (int c = 0; c < a; c++) if (w[i + a] == w[i + c]) n = 0; distinct += n; }
        if (distinct >= 4) addw(name, i, (const uint8_t *)(w + i), 32);
    }
}
static void reg(int op, sec_t *X)
{
    long n = L.p.n;
    reset();
    if (op == 0) {
        add_words("S", X->S, n * NB); add_words("E", X->E, n * NB); add_words("raw noise", X->raw, 2 * n * NB);
        add_bytes("seedSE", X->seedSE, L.cb); add_bytes("s", X->s, L.cb);
        return;
    }
    add_words("S'", X->Sp, n * NB); add_words("E'", X->Ep, n * NB); add_words("E''", X->Epp, NB * NB);
    add_words("raw noise", X->raw, (2 * n + NB) * NB); add_words("V", X->V, NB * NB);
    add_bytes("mu", X->mu, (int)L.mub); add_bytes("seedSE", X->seedSE, L.cb); add_bytes("k", X->k, L.cb);
    if (op == 2) { add_words("S", X->S, n * NB); add_words("C - B'S", X->M, NB * NB); add_bytes("s", X->s, L.cb); }
}
static char found[300]; static long nfound; static const char *foundname;
static void scan(const char *where, const uint8_t *b, size_t n, long off)
{
    h_cmps++;
    for (size_t i = 0; i + 8 <= n; i++) {
        long h = hashq(b + i);
        for (; tab[h] >= 0; h = (h + 1) & (tabn - 1)) {
            win_t *w = &wins[tab[h]];
            if (i + w->n <= n && !memcmp(b + i, w->p, w->n)) {
                if (!nfound++) foundname = w->name, snprintf(found, sizeof found, "%s[%ld..] (%d bytes) is left in %s at offset %ld", w->name, w->ix, w->n, where, off + (long)i);
                break;
            }
        }
    }
}
extern void __libc_free(void *);
static volatile int infree;
void free(void *p)
{
    if (p && inop && !infree) { infree = 1; scan("released heap memory", p, malloc_usable_size(p), 0); infree = 0; }
    __libc_free(p);
}

/* ------------------------------------------------------------------ static data */
static struct { uint8_t *p; size_t n; const char *nm; } segs[8]; static int nseg; static const char *so_name;
static int phdr(struct dl_phdr_info *i, size_t sz, void *x)
{
    (void)sz; (void)x;
    if (strcmp(i->dlpi_name, so_name)) return 0;
    for (int k = 0; k < i->dlpi_phnum; k++) {
        const ElfW(Phdr) *h = &i->dlpi_phdr[k];
        if (h->p_type == PT_LOAD && (h->p_flags & PF_W) && nseg < 8) { segs[nseg].p = (uint8_t *)i->dlpi_addr + h->p_vaddr; segs[nseg].nm = "static storage"; segs[nseg++].n = h->p_memsz; }
        if (h->p_type == PT_TLS && i->dlpi_tls_data && nseg < 8) { segs[nseg].p = i->dlpi_tls_data; segs[nseg].nm = "thread-local storage"; segs[nseg++].n = h->p_memsz; }
    }
    return 0;
}

/* ------------------------------------------------------------------ running on the prepared stack */
static ucontext_t mainc, opc;
static int what, rc;
static uint8_t pk[MAXPK], sk[MAXSK], ct[MAXCT], ss[64];
static void body(void)
{
    inop = 1;
    rc = what == 0 ? L.kp(pk, sk) : what == 1 ? L.enc(ct, ss, pk) : L.dec(ss, ct, sk);
    inop = 0;
    swapcontext(&opc, &mainc);
}
static void run(int w)
{
    what = w;
    memset(stk, 0xB7, STK);
    getcontext(&opc);
    opc.uc_stack.ss_sp = stk; opc.uc_stack.ss_size = STK; opc.uc_link = &mainc;
    makecontext(&opc, body, 0);
    swapcontext(&mainc, &opc);
    h_calls++;
}
static void finish(const char *op)
{
    nseg = 0; dl_iterate_phdr(phdr, NULL);
    scan("its stack", stk, STK, 0 - (long)STK);
    for (int i = 0; i < nseg; i++) scan(segs[i].nm, segs[i].p, segs[i].n, 0);
    if (nfound) printf("HIT %s|%s|%s (%ld places)\n", op, foundname, found, nfound);
    nfound = 0;
}

/* ------------------------------------------------------------------ short windows
 * The same operation runs with NR different secrets; a place on the stack or in static data that holds the same short
 * piece (4 coefficients, 4 bytes) of the same secret every time is residue. */
#define NRMAX 16
static int NR = 5, tiny;
#define TOP (1u << 20)
#define SMAX 60000
static struct piece { const char *name; int words; long n; const uint8_t *p[NRMAX]; } pc[16]; static int npc;
static void piece(int k, const char *name, const void *b, long n, int words)
{
    int i = 0;
    while (i < npc && strcmp(pc[i].name, name)) i++;
    if (i == npc) { pc[i].name = name; pc[i].words = words; pc[i].n = n * (words ? 2 : 1); npc++; }
    uint8_t *q = malloc(pc[i].n); memcpy(q, b, pc[i].n); pc[i].p[k] = q;
}
static void pieces(int k, int op, sec_t *X)
{
    long n = L.p.n;
    if (op != 1) { piece(k, "S", X->S, n * NB, 1); piece(k, "s", X->s, L.cb, 0); }
    if (op == 0) piece(k, "E", X->E, n * NB, 1);
    piece(k, "raw noise", X->raw, op ? (2 * n + NB) * NB : 2 * n * NB, 1);
    piece(k, "seedSE", X->seedSE, L.cb, 0);
    if (op) {
        piece(k, "S'", X->Sp, n * NB, 1); piece(k, "E'", X->Ep, n * NB, 1); piece(k, "E''", X->Epp, NB * NB, 1); piece(k, "V", X->V, NB * NB, 1);
        piece(k, "mu", X->mu, L.mub, 0); piece(k, "k", X->k, L.cb, 0);
    }
    if (op == 2) piece(k, "C - B'S", X->M, NB * NB, 1);
}
static uint8_t *snap[NRMAX]; static size_t snapn;
static void takesnap(int k)
{
    nseg = 0; dl_iterate_phdr(phdr, NULL);
    size_t n = TOP; for (int i = 0; i < nseg; i++) n += segs[i].n;
    if (!k) snapn = n; else if (n != snapn) return;
    if (!snap[k]) snap[k] = malloc(n);
    memcpy(snap[k], stk + STK - TOP, TOP); n = TOP;
    for (int i = 0; i < nseg; i++) { memcpy(snap[k] + n, segs[i].p, segs[i].n); n += segs[i].n; }
}
static void shortscan(const char *op)
{
    static int head[65536], next[SMAX * 4]; static struct { short pi; int ix; } ent[SMAX * 4]; int ne = 0;
    memset(head, -1, sizeof head);
    for (int i = 0; i < npc; i++) for (long x = 0; x + (pc[i].words ? 8 : 4) <= pc[i].n; x += pc[i].words ? 2 : 1) {
        if (ne >= SMAX * 4) break;
        uint32_t v; memcpy(&v, pc[i].p[0] + x, 4); v = (v * 2654435761u) >> 16;
        ent[ne].pi = (short)i; ent[ne].ix = (int)x; next[ne] = head[v]; head[v] = ne++;
    }
    char seen[16] = { 0 }; long pos = 0;
    h_cmps++;
    for (size_t o = 0; o + 8 <= snapn; o++) {
        uint32_t a, b; memcpy(&a, snap[0] + o, 4); memcpy(&b, snap[1] + o, 4);
        if (a == b) continue;                /* the same for different secrets */
        pos++;
        uint32_t v = (a * 2654435761u) >> 16;
        for (int e = head[v]; e >= 0; e = next[e]) {
            struct piece *q = &pc[ent[e].pi]; size_t len = q->words ? 8 : 4; int all = 1;
            if (seen[ent[e].pi]) continue;
            for (int k = 0; k < NR && all; k++) all = !memcmp(snap[k] + o, q->p[k] + ent[e].ix, len);
            if (all) { seen[ent[e].pi] = 1; printf("HIT %s|%s|%zu bytes of %s from offset %d are left in %s at offset %ld for %d different secrets\n", op, q->name, len, q->name, ent[e].ix,
                       o < TOP ? "its stack" : "static storage", o < TOP ? (long)o - (long)TOP : (long)(o - TOP), NR); }
        }
    }
    h_count("differing_places", pos);
    for (int i = 0; i < npc; i++) for (int k = 0; k < NR; k++) __libc_free((void *)pc[i].p[k]);
    npc = 0;
}
/* single bytes and single coefficients: the column of values a place takes over NR runs is looked up among the columns of the
 * secrets. Every compiler keeps some of these in memory on its own account, so only what every build leaves counts (vf/residue.py). */
static uint64_t colh(uint8_t *const *base, size_t o, int words, int *distinct)
{
    uint64_t h = 14695981039346656037ull; uint16_t v[NRMAX]; int d = 0;
    for (int k = 0; k < NR; k++) {
        v[k] = words ? (uint16_t)(base[k][o] | base[k][o + 1] << 8) : base[k][o];
        int u = 1; for (int j = 0; j < k; j++) if (v[j] == v[k]) u = 0;
        d += u; h = (h ^ v[k]) * 1099511628211ull; h ^= h >> 29;
    }
    *distinct = d; return h;
}
#define TN (1 << 19)
static void tinyscan(const char *op)
{
    static struct { uint64_t h; int e; } tb[2][TN]; static struct { short pi; int ix; char hit; } ent[SMAX * 4]; int ne = 0, d;
    memset(tb, 0xFF, sizeof tb);
    for (int i = 0; i < npc; i++) for (long x = 0; x + (pc[i].words ? 2 : 1) <= pc[i].n; x += pc[i].words ? 2 : 1) {
        if (ne >= SMAX * 4) break;
        uint64_t h = colh((uint8_t *const *)pc[i].p, x, pc[i].words, &d);
        if (d < 4) continue;
        ent[ne].pi = (short)i; ent[ne].ix = (int)x / (pc[i].words ? 2 : 1); ent[ne].hit = 0;
        long q = (long)(h & (TN - 1)); while (tb[pc[i].words][q].e >= 0) q = (q + 1) & (TN - 1);
        tb[pc[i].words][q].h = h; tb[pc[i].words][q].e = ne++;
    }
    h_cmps++;
    for (size_t o = 0; o + 2 <= snapn; o++) for (int w = 0; w < 2; w++) {
        if (snap[0][o] == snap[1][o] && snap[0][o] == snap[2][o] && snap[0][o] == snap[3][o] && snap[0][o] == snap[4][o] && snap[0][o] == snap[5][o] && !w) continue;
        uint64_t h = colh(snap, o, w, &d);
        if (d < 4) continue;
        for (long q = (long)(h & (TN - 1)); tb[w][q].e >= 0; q = (q + 1) & (TN - 1)) if (tb[w][q].h == h) {
            int e = tb[w][q].e, all = 1; struct piece *z = &pc[ent[e].pi]; size_t u = w ? 2 : 1;
            for (int k = 0; k < NR && all; k++) all = !memcmp(snap[k] + o, z->p[k] + ent[e].ix * u, u);
            if (all) ent[e].hit = 1;
        }
    }
    for (int i = 0; i < npc; i++) {
        char l[400]; size_t ll = 0; long a = -1, b = -2; int more = 0; l[0] = 0;
        for (int e = 0; e <= ne; e++) {
            int x = e < ne && ent[e].pi == i && ent[e].hit;
            if (x && ent[e].ix == b + 1) { b++; continue; }
            if ((x || e == ne) && a >= 0) { if (ll < 360) ll += snprintf(l + ll, sizeof l - ll, "%ld-%ld,", a, b); else more = 1; a = -1; }
            if (x) a = b = ent[e].ix;
        }
        if (l[0]) printf("HIT tiny %s|%s|%s%s\n", op, pc[i].name, l, more ? "..." : "");
    }
    for (int i = 0; i < npc; i++) for (int k = 0; k < NR; k++) __libc_free((void *)pc[i].p[k]);
    npc = 0;
}
static void shortwin(void)
{
    static uint8_t mpk[MAXPK], msk[MAXSK], mct[MAXCT], mss[64], rnd[96], mu[32]; static sec_t X;
    for (int path = 0; path < 5; path++) {        /* key generation, encapsulation, accepting, two rejecting */
        if (!h_mine()) continue;
        static const char *nm[] = { "key generation", "encapsulation", "accepting decapsulation", "rejecting decapsulation", "rejecting decapsulation" };
        h_case("%d %s, %d runs with different secrets", L.p.set, nm[path], NR);
        for (int k = 0; k < NR; k++) {
            h_bytes(rnd, 96, "short key %d", k); h_bytes(mu, 32, "short mu %d", k);
            m_keypair(&L.p, rnd, mpk, msk, &X);
            memcpy(pk, mpk, L.pkb); memcpy(sk, msk, L.skb);
            if (path == 0) { rnd_feed(rnd, L.rndb); reset(); run(0); takesnap(k); }
            else {
                m_enc(&L.p, mpk, mu, mct, mss, &X);
                memcpy(ct, mct, L.ctb);
                if (path == 3) ct[0] ^= 0x80;
                if (path == 4) ct[L.ctb - 1] ^= 1;
                if (path >= 2) m_dec(&L.p, sk, ct, mss, &X);
                reset();
                if (path == 1) { rnd_feed(mu, L.mub); run(1); } else { rnd_feed(NULL, 0); run(2); }
                takesnap(k);
            }
            if (rc) h_fail("returned %d", rc);
            pieces(k, path < 2 ? path : 2, &X);
        }
        if (tiny) tinyscan(nm[path]); else shortscan(nm[path]);
    }
}
int main(int c, char **v)
{
    if (c < 6) return 2;
    h_start();
    L = lib_open(v[1], atoi(v[2]), atoi(v[3]), atoi(v[4])); so_name = v[1];
    lv = atoi(v[5]);
    real128 = (shake_f)dlsym(L.dl, "shake128"); real256 = (shake_f)dlsym(L.dl, "shake256");
    const char *hv = getenv("HAVE");
    int can = real128 && real256 && hv && strstr(hv, ",shake128,") && strstr(hv, ",shake256,");
    stk = mmap(NULL, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    wins = malloc(WMAX * sizeof *wins); tabn = 1 << 20; tab = malloc(tabn * sizeof *tab);
    static uint8_t mpk[MAXPK], msk[MAXSK], mct[MAXCT], mss[64], rnd[96], mu[32];
    static sec_t X;
    int n = L.p.n;
    if (!can) { h_note("the hash functions cannot be interposed: residue enumeration skipped"); h_done(); }
    reset();
    rnd_feed(rnd, 96); run(0);
    if (!hits) { h_note("hash calls do not pass the interposed functions: residue enumeration skipped"); h_done(); }
    if (c > 6) { if (!strcmp(v[6], "tiny")) tiny = 1, NR = NRMAX; shortwin(); h_sample("%d: %ld searches for short windows", L.p.set, h_cases); h_done(); }
    int keys = lv >= 2 ? 16 : lv == 1 ? 3 : 1;
    for (int i = 0; i < keys; i++) {
        h_bytes(rnd, 96, "res key %d", i); h_bytes(mu, 32, "res mu %d", i);
        if (h_mine()) {
            h_case("%d key generation, key %d", L.p.set, i);
            m_keypair(&L.p, rnd, mpk, msk, &X);
            reg(0, &X);
            static uint8_t r2[96]; memcpy(r2, rnd, 96);
            rnd_feed(r2, L.rndb); run(0); finish("key generation");
            if (rc) h_fail("returned %d", rc);
            h_count("windows", nw);
        }
        m_keypair(&L.p, rnd, mpk, msk, &X);
        memcpy(pk, mpk, L.pkb); memcpy(sk, msk, L.skb);
        if (h_mine()) {
            h_case("%d encapsulation, key %d", L.p.set, i);
            m_enc(&L.p, mpk, mu, mct, mss, &X);
            reg(1, &X);
            rnd_feed(mu, L.mub); run(1); finish("encapsulation");
            if (rc) h_fail("returned %d", rc);
            h_count("windows", nw);
        }
        for (int r = 0; r < (lv >= 1 ? 6 : 3); r++) {
            if (!h_mine()) continue;
            m_enc(&L.p, mpk, mu, mct, mss, NULL);
            memcpy(ct, mct, L.ctb); memcpy(sk, msk, L.skb);
            size_t c1 = (size_t)L.p.D * n * NB / 8;
            if (r == 1) ct[0] ^= 0x80;                                   /* first coefficient of c1 */
            if (r == 2) ct[L.ctb - 1] ^= 1;                              /* last coefficient of c2 */
            if (r == 3) ct[c1] ^= 0x40;
            if (r == 4) h_bytes(ct, L.ctb, "res ct %d", i);
            if (r == 5) for (size_t q = 0; q < 2 * (size_t)n * NB; q++) sk[L.cb + L.pkb + q] ^= (uint8_t)(q & 1 ? 0 : 3);
            int acc = m_dec(&L.p, sk, ct, mss, &X);
            h_case("%d %s decapsulation %d, key %d", L.p.set, acc ? "accepting" : "rejecting", r, i);
            reg(2, &X);
            rnd_feed(NULL, 0); run(2); finish(acc ? "accepting decapsulation" : "rejecting decapsulation");
            if (rc) h_fail("returned %d", rc);
            h_count("windows", nw); h_count(acc ? "accepted" : "rejected", 1);
        }
        if (h_mine()) {       /* failing generator */
            h_case("%d failing generator, key %d", L.p.set, i);
            rnd_fail_call = 0; reset();
            rnd_feed(rnd, 0); run(0); rnd_feed(rnd, 0); run(1);
            rnd_fail_call = -1;
        }
    }
    h_sample("%d: %ld residue searches", L.p.set, h_cases);
    h_done();
}
