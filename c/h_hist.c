/* Histories of operations (C08): h_hist MODE so set n gen LEVEL
 *   seq    every sequence of operations up to a depth, each prefix in a forked copy of a fresh process
 *   pair   op(x), op(x'), op(x) for every single-byte/bit change, swap and compensated change of the inputs
 *   chain  one very long history
 *   state  explicit-state search over the library's writable static data, restored before every step
 * Oracle: the result of the same call as the first call of a fresh process (a forked server that has never called
 * the library); the model only serves to avoid asking it when it already agrees. */
#include "h.h"
#include <link.h>
#include <malloc.h>
#include <sys/wait.h>

enum { OP_KP, OP_ENC, OP_DEC };
typedef struct {
    int op, slot, fail;                 /* fail: generator failure */
    const char *name;
    uint8_t rnd[96], a[MAXPK > MAXSK ? MAXPK : MAXSK], b[MAXCT];   /* KP: rnd; ENC: rnd=mu, a=pk; DEC: a=sk, b=ct */
} op_t;
typedef struct { int rc; long used; uint8_t o1[MAXPK > MAXCT ? MAXPK : MAXCT], o2[MAXSK]; } res_t;

static lib_t L;
static int lv;
static size_t n1(int op) { return op == OP_KP ? L.pkb : op == OP_ENC ? L.ctb : L.cb; }
static size_t n2(int op) { return op == OP_KP ? L.skb : op == OP_ENC ? L.cb : 0; }

/* caller buffers: two fixed places */
static struct { uint8_t pk[MAXPK], sk[MAXSK], ct[MAXCT], ss[64]; } slot[2];

static void __attribute__((noinline)) dirty(int v)
{
    uint8_t junk[400000];
    if (L.p.n == L.p.set) memset(junk, v, sizeof junk); else memset(junk + sizeof junk - 30000, v, 30000);
    __asm__ volatile("" : : "r"(junk) : "memory");
}
static int fillv = 0xA5;
static void exec(const op_t *o, res_t *r)
{
    typeof(slot[0]) *s = &slot[o->slot];
    rnd_feed(o->rnd, o->op == OP_KP ? L.rndb : o->op == OP_ENC ? L.mub : 0);
    rnd_fail_call = o->fail ? 0 : -1;
    r->rc = -99;
    if (o->op == OP_KP) {
        memset(s->pk, 0xCC, L.pkb); memset(s->sk, 0xCC, L.skb); dirty(fillv);
        r->rc = L.kp(s->pk, s->sk);
        memcpy(r->o1, s->pk, L.pkb); memcpy(r->o2, s->sk, L.skb);
    } else if (o->op == OP_ENC) {
        memcpy(s->pk, o->a, L.pkb); memset(s->ct, 0xCC, L.ctb); memset(s->ss, 0xCC, L.cb); dirty(fillv);
        r->rc = L.enc(s->ct, s->ss, s->pk);
        memcpy(r->o1, s->ct, L.ctb); memcpy(r->o2, s->ss, L.cb);
    } else {
        memcpy(s->sk, o->a, L.skb); memcpy(s->ct, o->b, L.ctb); memset(s->ss, 0xCC, L.cb); dirty(fillv);
        r->rc = L.dec(s->ss, s->ct, s->sk);
        memcpy(r->o1, s->ss, L.cb);
    }
    r->used = rnd_used; rnd_fail_call = -1;
    h_calls++;
}
static int same(const op_t *o, const res_t *a, const res_t *b)
{
    if (o->fail) return (a->rc != 0) == (b->rc != 0);          /* outputs of a failed call are unspecified */
    return a->rc == b->rc && a->used == b->used && !h_ne(a->o1, b->o1, n1(o->op)) && !h_ne(a->o2, b->o2, n2(o->op));
}

/* server: forked before the first library call; answers every request from another fork of itself */
static struct shm { op_t o; res_t r; int fill; } *shm;
static int rq[2], rp[2];
static long fresh_calls;
static void server(void)
{
    if (pipe(rq) || pipe(rp)) exit(3);
    shm = mmap(NULL, sizeof *shm, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (fork() == 0) {
        char c;
        close(rq[1]); close(rp[0]);
        while (read(rq[0], &c, 1) == 1) {
            pid_t p = fork();
            if (p == 0) { fillv = shm->fill; exec(&shm->o, &shm->r); _exit(0); }
            int st; waitpid(p, &st, 0);
            c = st == 0 ? 'k' : 'x';
            if (write(rp[1], &c, 1) != 1) break;
        }
        _exit(0);
    }
    close(rq[0]); close(rp[1]);
}
static int fresh(const op_t *o, res_t *r)
{
    char c = 'q';
    memcpy(&shm->o, o, sizeof *o); shm->fill = 0xA5; memset(&shm->r, 0, sizeof shm->r);
    if (write(rq[1], &c, 1) != 1 || read(rp[0], &c, 1) != 1) exit(3);
    fresh_calls++;
    if (c != 'k') return 0;
    memcpy(r, &shm->r, sizeof *r);
    return 1;
}
static void model(const op_t *o, res_t *r)
{
    r->rc = 0; r->used = o->op == OP_KP ? L.rndb : o->op == OP_ENC ? L.mub : 0;
    if (o->fail) { r->rc = 1; return; }
    if (o->op == OP_KP) m_keypair(&L.p, o->rnd, r->o1, r->o2, NULL);
    else if (o->op == OP_ENC) m_enc(&L.p, o->a, o->rnd, r->o1, r->o2, NULL);
    else m_dec(&L.p, o->a, o->b, r->o1, NULL);
}
static void differ(const op_t *o, const res_t *got)
{
    static res_t f;
    if (!fresh(o, &f)) { h_note("the call also dies in a fresh process"); return; }
    if (same(o, got, &f)) return;                              /* not history dependent */
    long d = h_diff(got->o1, f.o1, n1(o->op));
    h_fail("%s (slot %d) returned rc=%d used=%ld; as first call rc=%d used=%ld; first difference in output 1 at %ld, output 2 at %ld",
           o->name, o->slot, got->rc, got->used, f.rc, f.used, d, n2(o->op) ? h_diff(got->o2, f.o2, n2(o->op)) : -1);
}

/* ------------------------------------------------------------------ alphabet */
#define MAXOPS 16
static op_t ops[MAXOPS]; static res_t exp_[MAXOPS]; static int nops, exp_ok[MAXOPS];
static uint8_t rk[4][96], PK[4][MAXPK], SK[4][MAXSK], CT[4][MAXCT], SS[64], MU[2][32];
static op_t *add(int op, int slot_, const char *name) { op_t *o = &ops[nops++]; memset(o, 0, sizeof *o); o->op = op; o->slot = slot_; o->name = name; return o; }
static void alphabet(void)
{
    op_t *o;
    h_bytes(rk[0], 96, "hist key"); h_bytes(MU[0], 32, "hist mu 0"); h_bytes(MU[1], 32, "hist mu 1");
    memcpy(rk[1], rk[0], 96); for (size_t i = 0; i < 2 * L.cb; i++) rk[1][i] ^= 0x3C;     /* same seedA, other S */
    memcpy(rk[2], rk[0], 96); rk[2][L.rndb - 1] ^= 1;                                     /* other seedA, same S */
    h_bytes(rk[3], 96, "hist key 3");
    for (int i = 0; i < 4; i++) m_keypair(&L.p, rk[i], PK[i], SK[i], NULL);
    m_enc(&L.p, PK[0], MU[0], CT[0], SS, NULL); m_enc(&L.p, PK[1], MU[0], CT[1], SS, NULL);
    m_enc(&L.p, PK[3], MU[1], CT[2], SS, NULL); memcpy(CT[3], CT[0], L.ctb); CT[3][L.ctb - 1] ^= 1;
    o = add(OP_KP, 0, "keypair(k0)"); memcpy(o->rnd, rk[0], 96);
    o = add(OP_KP, 0, "keypair(k1, same seedA)"); memcpy(o->rnd, rk[1], 96);
    o = add(OP_KP, 1, "keypair(k2)"); memcpy(o->rnd, rk[2], 96);
    o = add(OP_ENC, 0, "enc(pk0,mu0)"); memcpy(o->rnd, MU[0], 32); memcpy(o->a, PK[0], L.pkb);
    o = add(OP_ENC, 0, "enc(pk1,mu0)"); memcpy(o->rnd, MU[0], 32); memcpy(o->a, PK[1], L.pkb);
    o = add(OP_ENC, 1, "enc(pk3,mu1)"); memcpy(o->rnd, MU[1], 32); memcpy(o->a, PK[3], L.pkb);
    o = add(OP_ENC, 0, "enc(pk2,mu0)"); memcpy(o->rnd, MU[0], 32); memcpy(o->a, PK[2], L.pkb);
    o = add(OP_DEC, 0, "dec(sk0,ct0) accepting"); memcpy(o->a, SK[0], L.skb); memcpy(o->b, CT[0], L.ctb);
    o = add(OP_DEC, 0, "dec(sk0,ct0') rejecting"); memcpy(o->a, SK[0], L.skb); memcpy(o->b, CT[3], L.ctb);
    o = add(OP_DEC, 1, "dec(sk3,ct2) accepting"); memcpy(o->a, SK[3], L.skb); memcpy(o->b, CT[2], L.ctb);
    o = add(OP_DEC, 0, "dec(sk1,ct0) rejecting"); memcpy(o->a, SK[1], L.skb); memcpy(o->b, CT[0], L.ctb);
    o = add(OP_KP, 0, "keypair with failing generator"); o->fail = 1; memcpy(o->rnd, rk[0], 96);
    o = add(OP_ENC, 0, "enc(pk0) with failing generator"); o->fail = 1; memcpy(o->a, PK[0], L.pkb);
    for (int i = 0; i < nops; i++) {
        h_case("%d n=%d %s as first call", L.p.set, L.p.n, ops[i].name);
        exp_ok[i] = fresh(&ops[i], &exp_[i]);
        if (!exp_ok[i]) h_note("an operation dies as first call: excluded");
    }
}

/* ------------------------------------------------------------------ every sequence, by forking */
static struct { volatile long nodes, fails; char msg[600]; } *sh;
static int path[8];
static void seq(int depth, int maxd)
{
    static res_t r;
    for (int i = 0; i < nops; i++) {
        if (!exp_ok[i]) continue;
        if (depth == 0 && !h_mine()) continue;
        path[depth] = i;
        pid_t p = fork();
        if (p < 0) { fprintf(stderr, "fork failed\n"); exit(3); }
        if (p == 0) {
            int st[4] = { 0, 0xFF, 0x5A, 0xA5 };
            fillv = st[(depth + i) % 4];
            mallopt(M_PERTURB, fillv);
            exec(&ops[i], &r); sh->nodes++;
            if (!same(&ops[i], &r, &exp_[i])) {
                if (__sync_fetch_and_add(&sh->fails, 1) == 0) {
                    int k = snprintf(sh->msg, sizeof sh->msg, "history");
                    for (int j = 0; j <= depth; j++) k += snprintf(sh->msg + k, sizeof sh->msg - k, " %s;", ops[path[j]].name);
                    snprintf(sh->msg + k, sizeof sh->msg - k, " last call rc=%d differs from the first call of a fresh process (rc=%d): output 1 at %ld", r.rc, exp_[i].rc, h_diff(r.o1, exp_[i].o1, n1(ops[i].op)));
                }
                _exit(1);
            }
            if (depth + 1 < maxd) seq(depth + 1, maxd);
            _exit(sh->fails ? 1 : 0);
        }
        int st; waitpid(p, &st, 0);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) <= 1) && sh->fails == 0) {
            sh->fails++; snprintf(sh->msg, sizeof sh->msg, "history ending in %s: process died (status %x) although the call succeeds as first call", ops[i].name, st);
        }
        if (sh->fails) return;
    }
}
static void mode_seq(void)
{
    sh = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int d = lv >= 2 ? 4 : lv == 1 ? 3 : 2;
    h_case("%d n=%d all sequences of %d operations", L.p.set, L.p.n, d);
    seq(0, d);
    h_cases += sh->nodes;
    if (sh->fails) h_fail("%s", sh->msg);
}

/* ------------------------------------------------------------------ pairs of related inputs */
static void step(const op_t *o, const char *what, long i)
{
    static res_t r, m;
    h_case("%d n=%d %s [%s %ld]", L.p.set, L.p.n, o->name, what, i);
    exec(o, &r); model(o, &m);
    if (!same(o, &r, &m)) differ(o, &r);
}
static op_t A_, B_;
static void tri(const char *what, long i) { step(&A_, what, i); step(&B_, what, i); step(&A_, what, i); }
static void mode_pair(void)
{
    int toy = L.p.n != L.p.set;
    /* public key in encapsulation */
    for (int op = OP_ENC; op <= OP_DEC; op++) {
        size_t off = op == OP_ENC ? 0 : L.cb;               /* where seedA starts in a */
        size_t len = op == OP_ENC ? L.pkb : L.skb;
        memset(&A_, 0, sizeof A_); A_.op = op; A_.name = op == OP_ENC ? "enc" : "dec";
        memcpy(A_.rnd, MU[0], 32);
        memcpy(A_.a, op == OP_ENC ? PK[0] : SK[0], len); memcpy(A_.b, CT[0], L.ctb);
        for (int i = 0; i < 128; i++) {
            if (!toy && lv < 2 && i % 8 != (i / 8) % 8) continue;
            if (!h_mine()) continue;
            B_ = A_; B_.a[off + i / 8] ^= 1 << (i % 8); tri("seedA bit", i);
        }
        for (int i = 0; i < 16; i++) for (int j = i + 1; j < 16; j++) {
            if (!toy && lv < 2 && j != i + 1 && j != i + 8) continue;
            if (!h_mine()) continue;
            B_ = A_; uint8_t t = B_.a[off + i]; B_.a[off + i] = B_.a[off + j]; B_.a[off + j] = t; tri("seedA swap", i * 16 + j);
            B_ = A_; B_.a[off + i]++; B_.a[off + j]--; tri("seedA compensated", i * 16 + j);
            B_ = A_; B_.a[off + i] ^= 0x10; B_.a[off + j] ^= 0x10; tri("seedA double flip", i * 16 + j);
        }
        size_t stp = toy ? 1 : lv >= 2 ? 7 : 211;
        for (size_t i = 0; i < len; i += stp) {
            if (i >= off && i < off + 16) continue;
            if (!h_mine()) continue;
            B_ = A_; B_.a[i] ^= 1 << (i % 8); tri(op == OP_ENC ? "public key byte" : "secret key byte", i);
            if (i + 1 < len) { B_ = A_; uint8_t t = B_.a[i]; B_.a[i] = B_.a[i + 1]; B_.a[i + 1] = t; tri("key swap", i); }
        }
        if (op == OP_DEC) for (size_t i = 0; i < L.ctb; i += stp) {
            if (!h_mine()) continue;
            B_ = A_; B_.b[i] ^= 1 << (i % 8); tri("ciphertext byte", i);
        }
        if (op == OP_ENC) for (size_t i = 0; i < 8 * L.mub; i++) {
            if (!toy && i % 8 != (i / 8) % 8) continue;
            if (!h_mine()) continue;
            B_ = A_; B_.rnd[i / 8] ^= 1 << (i % 8); tri("message bit", i);
        }
        /* same buffer address or other one, same key */
        if (h_mine()) { B_ = A_; B_.slot = 1; tri("other buffers", 0); }
    }
    memset(&A_, 0, sizeof A_); A_.op = OP_KP; A_.name = "keypair"; memcpy(A_.rnd, rk[0], 96);
    for (size_t i = 0; i < 8 * L.rndb; i++) {
        if (!toy && lv < 2 && i % 8 != (i / 8) % 8) continue;
        if (!h_mine()) continue;
        B_ = A_; B_.rnd[i / 8] ^= 1 << (i % 8); tri("random bit", i);
    }
    for (size_t i = 0; i + 1 < L.rndb; i++) {
        if (!h_mine()) continue;
        B_ = A_; uint8_t t = B_.rnd[i]; B_.rnd[i] = B_.rnd[i + 1]; B_.rnd[i + 1] = t; tri("random swap", i);
    }
    /* the key just generated is used at once, then an older one */
    for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) {
        if (!h_mine()) continue;
        op_t kp, e, d; memset(&kp, 0, sizeof kp); memset(&e, 0, sizeof e); memset(&d, 0, sizeof d);
        kp.op = OP_KP; kp.name = "keypair"; e.op = OP_ENC; e.name = "enc"; d.op = OP_DEC; d.name = "dec";
        memcpy(kp.rnd, rk[a], 96); memcpy(e.rnd, MU[0], 32); memcpy(e.a, PK[b], L.pkb);
        memcpy(d.a, SK[b], L.skb); m_enc(&L.p, PK[b], MU[0], d.b, SS, NULL);
        step(&kp, "mixed", a * 4 + b); step(&e, "mixed", a * 4 + b); step(&d, "mixed", a * 4 + b); step(&kp, "mixed", a * 4 + b); step(&d, "mixed", a * 4 + b);
        memcpy(d.a, SK[a], L.skb); step(&d, "mixed", a * 4 + b);
    }
}

/* ------------------------------------------------------------------ one long history */
static void mode_chain(void)
{
    static res_t r;
    long N = lv >= 2 ? (h_thorough ? 3000000 : 140000) : lv == 1 ? 1000 : 200;
    for (long i = 0; i < N; i++) {
        int k = (int)((i * 7 + i / 13) % nops);
        if (!exp_ok[k]) continue;
        h_case("%d n=%d call %ld of one process: %s", L.p.set, L.p.n, i, ops[k].name);
        exec(&ops[k], &r);
        if (!same(&ops[k], &r, &exp_[k])) { differ(&ops[k], &r); if (h_fails) return; }
    }
    /* each kind alone, so that its own count passes 2^16 */
    int only[4] = { 0, 3, 7, 8 };
    for (int w = 0; w < 4; w++) for (long i = 0; i < (lv >= 2 ? 66000 : lv == 1 ? 300 : 0); i++) {
        int k = only[w];
        if (!exp_ok[k]) continue;
        h_case("%d n=%d call %ld of %s in one process", L.p.set, L.p.n, i, ops[k].name);
        exec(&ops[k], &r);
        if (!same(&ops[k], &r, &exp_[k])) { differ(&ops[k], &r); if (h_fails) return; }
    }
}

/* ------------------------------------------------------------------ explicit-state search over the static data */
typedef struct { uint8_t *p; size_t n; } seg_t;
static seg_t segs[8]; static int nseg; static const char *so_base;
static int phdr(struct dl_phdr_info *i, size_t sz, void *x)
{
    (void)sz; (void)x;
    const char *b = strrchr(i->dlpi_name, '/'); b = b ? b + 1 : i->dlpi_name;
    if (strcmp(i->dlpi_name, so_base)) return 0;
    (void)b;
    size_t rs = 0, re = 0;
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) { rs = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; re = rs + i->dlpi_phdr[k].p_memsz; re &= ~4095ul; }
    for (int k = 0; k < i->dlpi_phnum; k++) {
        const ElfW(Phdr) *h = &i->dlpi_phdr[k];
        if (h->p_type == PT_LOAD && (h->p_flags & PF_W)) {
            size_t s = i->dlpi_addr + h->p_vaddr, e = s + h->p_memsz;
            if (re > s && rs <= s) s = re;
            if (s < e && nseg < 8) segs[nseg++] = (seg_t){ (uint8_t *)s, e - s };
        }
    }
    return 0;
}
static void mode_state(const char *so)
{
    static res_t r;
    so_base = so; dl_iterate_phdr(phdr, NULL);
    size_t tot = 0; for (int i = 0; i < nseg; i++) tot += segs[i].n;
    if (!tot || tot > 1 << 20) { h_note("writable static data of %zu bytes: state search skipped", tot); return; }
    int cap = h_thorough ? 4096 : 512;
    uint8_t *st = malloc(tot * (cap + 1)); long ns = 1; int full = 0;
#define SAVE(d) do { uint8_t *q = (d); for (int z = 0; z < nseg; z++) { memcpy(q, segs[z].p, segs[z].n); q += segs[z].n; } } while (0)
#define LOAD(d) do { uint8_t *q = (d); for (int z = 0; z < nseg; z++) { memcpy(segs[z].p, q, segs[z].n); q += segs[z].n; } } while (0)
    SAVE(st);
    for (long s = 0; s < ns; s++)
        for (int k = 0; k < nops; k++) {
            if (!exp_ok[k]) continue;
            LOAD(st + s * tot);
            h_case("%d n=%d static state %ld, then %s", L.p.set, L.p.n, s, ops[k].name);
            exec(&ops[k], &r);
            h_count("static_transitions", 1);
            if (!same(&ops[k], &r, &exp_[k])) {
                /* a restored state is reached by a history only if the heap it refers to is still there: let the sequences decide */
                h_count("state_mismatches", 1);
                h_note("%d: a restored static state changes the result of %s; decided by the sequence enumeration", L.p.set, ops[k].name);
                return;
            }
            uint8_t *nw = st + ns * tot; SAVE(nw);
            long f = -1;
            for (long j = 0; j < ns && f < 0; j++) if (!memcmp(st + j * tot, nw, tot)) f = j;
            if (f < 0) { if (ns < cap) ns++; else full = 1; }
        }
    h_count("static_states", ns);
    h_count("static_bytes", tot);
    if (!full) h_count("static_fixpoint_reached", 1);
}

int main(int c, char **v)
{
    if (c < 7) return 2;
    h_start();
    L = lib_open(v[2], atoi(v[3]), atoi(v[4]), atoi(v[5]));
    lv = atoi(v[6]);
    server();
    alphabet();
    if (L.p.n != L.p.set) {
        static res_t m;
        for (int i = 0; i < nops; i++) { model(&ops[i], &m); if (!exp_ok[i] || !same(&ops[i], &exp_[i], &m)) { h_note("reduced instance does not match the model as first call: not used"); h_done(); } }
    }
    if (!strcmp(v[1], "seq")) mode_seq();
    else if (!strcmp(v[1], "pair")) mode_pair();
    else if (!strcmp(v[1], "chain")) mode_chain();
    else if (!strcmp(v[1], "state")) mode_state(v[2]);
    else return 2;
    h_count("fresh_process_calls", fresh_calls);
    h_sample("%s set=%d n=%d: %ld cases, e.g. the last", v[1], L.p.set, L.p.n, h_cases);
    h_done();
}
