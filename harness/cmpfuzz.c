/* Feedback-directed conformity monitor. The implementation is compiled with
 * -fsanitize-coverage=trace-pc,trace-cmp; the comparisons it executes tell which lengths and which byte
 * values it distinguishes, and the workload is steered there. Every execution is judged by the oracle. */
#include "engine.h"
#ifndef HOOK
#define HOOK __attribute__((noinline, no_sanitize("address", "undefined")))
#endif
#define on incall /* hooks listen only inside calls */
/* ---- edge coverage ---- */
#define MAP 65536
static u8 cur[MAP], seen[MAP];
static uint32_t touched[MAP], ntouched, prevpc;
static long pcs;
void __sanitizer_cov_trace_pc(void)
{
    if (!on) return;
    uint32_t pc = (uint32_t)(uintptr_t)__builtin_return_address(0);
    uint32_t e = ((pc * 2654435761u) >> 16 ^ prevpc) & (MAP - 1);
    prevpc = ((pc * 2654435761u) >> 17);
    if (!cur[e]) touched[ntouched++] = e;
    if (cur[e] < 255) cur[e]++;
}
static u8 bucket(u8 c) { return c < 4 ? 1 << (c - 1) : c < 8 ? 8 : c < 16 ? 16 : c < 32 ? 32 : c < 128 ? 64 : 128; }
static int novel(void)
{
    int n = 0;
    for (uint32_t i = 0; i < ntouched; i++) {
        uint32_t e = touched[i];
        u8 b = bucket(cur[e]);
        if (!seen[e]) pcs++;
        if (!(seen[e] & b)) n = 1, seen[e] |= b;
        cur[e] = 0;
    }
    ntouched = 0, prevpc = 0;
    return n;
}
/* ---- comparison log ---- */
typedef struct { uint32_t pc; uint64_t a, b; u8 sz; } cmpev;
#define NCMP 2048
static cmpev clog_[NCMP];
static int nclog, logging;
static struct { uint32_t pc; int n; uint64_t best; } pcnt[1024];
static int closer;
static uint64_t consts[2048];
static int nconsts;
static void add_const(uint64_t c)
{
    for (int i = 0; i < nconsts; i++) if (consts[i] == c) return;
    if (nconsts < 2048) consts[nconsts++] = c;
}
static void cmp(uint32_t pc, uint64_t a, uint64_t b, int sz, int isconst)
{
    if (!on) return;
    if (isconst) add_const(a);
    uint32_t h = (pc * 2654435761u) >> 22;
    for (int t = 0; pcnt[h].pc != pc; h = (h + 1) & 1023, t++) {
        if (!pcnt[h].pc) { pcnt[h].pc = pc, pcnt[h].n = 0, pcnt[h].best = 99; break; }
        if (t == 1023) return;
    }
    uint64_t d = __builtin_popcountll(a ^ b);
    if (d < pcnt[h].best) pcnt[h].best = d, closer = 1;
    if (!logging || a == b || nclog == NCMP || pcnt[h].n >= 24) return;
    for (int i = nclog - 1; i >= 0 && i >= nclog - 48; i--) if (clog_[i].a == a && clog_[i].b == b && clog_[i].pc == pc) return;
    pcnt[h].n++;
    clog_[nclog].pc = pc, clog_[nclog].a = a, clog_[nclog].b = b, clog_[nclog].sz = sz, nclog++;
}
#define RA ((uint32_t)(uintptr_t)__builtin_return_address(0))
void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { cmp(RA, a, b, 1, 0); }
void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { cmp(RA, a, b, 2, 0); }
void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { cmp(RA, a, b, 4, 0); }
void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { cmp(RA, a, b, 8, 0); }
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { cmp(RA, a, b, 1, 1); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { cmp(RA, a, b, 2, 1); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { cmp(RA, a, b, 4, 1); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { cmp(RA, a, b, 8, 1); }
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *c) { for (uint64_t i = 0; i < c[0]; i++) cmp(RA + i, c[2 + i], v, (int)(c[1] / 8), 1); }

/* ---- inputs ---- */
typedef struct { u8 k[16], n[16]; u8 *m, *ad; uint32_t mlen, adlen; u8 done, tagx[16]; } inp;
enum { O_ENC, O_DEC, O_RAW, O_HASH };
static int op;
static size_t CAP = 1 << 17;
#define MAXC 400
static inp corpus[MAXC];
static int ncorp;
static long execs, subst, lens_tried, dedup;
static uint8_t *runset;
static int guarded, release_; /* C06: every buffer flush with an inaccessible page; C04: plaintext buffer read-only */
static slot_t gm, gad, gc, gp, gw;
static void guard_init(void)
{
    gm = slot_new(CAP + 64), gad = slot_new(CAP + 64), gc = slot_new(CAP + 96), gp = slot_new(CAP + 96), gw = slot_new(CAP + 96);
}
static int run(inp *x)
{
    /* do not repeat identical inputs */
    uint64_t h = fnv(fnv(fnv(fnv(op + 99, x->k, 16), x->n, 16), x->tagx, 16), &x->mlen, 4);
    h = fnv(fnv(h, &x->adlen, 4), x->ad, x->adlen);
    for (uint32_t i = 0; i < x->mlen && i < 256; i++) h = (h ^ x->m[i]) * 0x100000001b3ull;
    h = h * 0x9e3779b97f4a7c15ull >> 43;
    if (runset[h / 8] >> (h % 8) & 1) { dedup++; return 0; }
    runset[h / 8] |= 1 << (h % 8);
    tcase t = { .m = x->m, .ad = x->ad, .mlen = x->mlen, .adlen = x->adlen };
    memcpy(t.k, x->k, 16), memcpy(t.n, x->n, 16);
    execs++, closer = 0, nclog = 0;
    for (int i = 0; logging && i < 1024; i++) pcnt[i].n = 0;
    if (guarded) {
        int at = execs & 1 ? AT_END : AT_START;
        slot_prot(&gm, 3), slot_prot(&gad, 3), slot_prot(&gw, 3), slot_prot(&gc, 3);
        t.m = memcpy(slot_at(&gm, x->mlen, at, 0), x->m, x->mlen);
        t.ad = memcpy(slot_at(&gad, x->adlen, at, 0), x->ad, x->adlen);
        B_C = slot_at(&gc, x->mlen + 16ul, at, 0);
        B_P = slot_at(&gp, x->mlen, at, 0);
        if (op == O_DEC) B_EXP = slot_at(&gw, x->mlen + 16ul, at, 0);
        else if (op == O_RAW) B_W = slot_at(&gw, x->mlen + 16ul, at, 0);
        if (guarded == 2 && op != O_RAW) { /* inputs write-protected too */
            slot_prot(&gm, PROT_READ), slot_prot(&gad, PROT_READ);
            ro_range[0].p = t.m, ro_range[0].n = t.mlen, ro_range[1].p = t.ad, ro_range[1].n = t.adlen;
        }
    }
    if (op == O_RAW) {
        /* x->m is the ciphertext body itself; the presented tag is the genuine one xor tagx */
        u8 tag[16], *w = B_W;
        or_mac(ALG, tag, x->m, x->mlen, x->ad, x->adlen, x->n, x->k);
        memcpy(w, x->m, x->mlen);
        int bad = 0;
        for (int i = 0; i < 16; i++) bad |= x->tagx[i];
        if (release_ && !bad) x->tagx[execs & 15] = 1 << (execs >> 4 & 7), bad = 1;
        for (int i = 0; i < 16; i++) w[x->mlen + i] = tag[i] ^ x->tagx[i];
        describe("decrypt-raw", &t, "");
        char a[40];
        size_t n = strlen(curdesc);
        snprintf(curdesc + n, sizeof curdesc - n, "tag=%s (%s)", hex(a, w + x->mlen, 16, 16), bad ? "forged" : "genuine");
        ull l = len_garbage;
        incall = 1;
        int r = crypto_aead_decrypt(B_P, &l, 0, w, x->mlen + 16ull, t.ad, x->adlen, x->n, x->k);
        incall = 0;
        count_case(fnv(case_hash(9, &t), x->tagx, 16), 1);
        if (bad && r == 0) viol("accepted", "%s", curdesc);
        if (!bad && r) viol("dec-return", "genuine ciphertext rejected: %s", curdesc);
        return 1;
    }
    if (op == O_ENC) check_enc(&t);
    else if (op == O_DEC) check_dec(&t);
    else check_hash(x->m, x->mlen);
    return 1;
}
static void keep(inp *x)
{
    if (ncorp >= MAXC || x->mlen > 4096 || x->adlen > 4096) return;
    inp *c = &corpus[ncorp++];
    *c = *x, c->done = 0;
    c->m = malloc(x->mlen + 1), memcpy(c->m, x->m, x->mlen);
    c->ad = malloc(x->adlen + 1), memcpy(c->ad, x->ad, x->adlen);
}
static inp W;
static u8 *Wm, *Wa;
static void load(const inp *c)
{
    W = *c, W.m = Wm, W.ad = Wa;
    memcpy(Wm, c->m, c->mlen), memcpy(Wa, c->ad, c->adlen);
}
static void try_(void)
{
    if (!run(&W)) return;
    int nv = novel();
    if (nv || closer) keep(&W);
}
static long SUBMAX = 400, nsub, MAXEX = 4000;
static int steer; /* lengths taken from run-time values, not from constants in the code */
static void setlen(int which, uint64_t v)
{
    if (v > CAP || (steer && (v > 8192 || nsub++ > SUBMAX))) return;
    uint32_t *l = which ? &W.adlen : &W.mlen, old = *l;
    u8 *p = which ? Wa : Wm;
    if (v > old) fill(p + old, v - old, D_RAND);
    *l = (uint32_t)v, lens_tried++;
    try_();
}
static void sub_in(u8 *p, size_t len, uint64_t v, uint64_t c, int w, int be, const inp *base)
{
    u8 pat[8], rep[8];
    for (int i = 0; i < w; i++) pat[i] = (u8)(v >> 8 * (be ? w - 1 - i : i)), rep[i] = (u8)(c >> 8 * (be ? w - 1 - i : i));
    int hits = 0;
    for (size_t i = 0; i + w <= len && hits < 6; i++) {
        if (memcmp(p + i, pat, w) || !memcmp(pat, rep, w)) continue;
        if (nsub++ > SUBMAX) return;
        hits++, subst++;
        u8 save[8];
        memcpy(save, p + i, w), memcpy(p + i, rep, w);
        try_();
        load(base);
    }
}
static uint64_t mask(int sz) { return sz >= 8 ? ~0ull : (1ull << 8 * sz) - 1; }
static void deterministic(int ci)
{
    inp *c = &corpus[ci];
    c->done = 1;
    static cmpev L[NCMP];
    load(c);
    logging = 1;
    /* rerun for its comparison log (bypassing the duplicate filter by touching nothing that is judged) */
    uint8_t *sv = runset; static uint8_t tmp[1 << 18]; memset(tmp, 0, sizeof tmp); runset = tmp;
    run(&W), novel();
    runset = sv, logging = 0;
    int n = nclog;
    memcpy(L, clog_, n * sizeof *L);
    nsub = 0;
    for (int i = 0; i < n; i++)
        for (int dir = 0; dir < 2; dir++) {
            uint64_t v = (dir ? L[i].b : L[i].a) & mask(L[i].sz), t = (dir ? L[i].a : L[i].b) & mask(L[i].sz);
            for (int d = -1; d <= 1; d++) {
                uint64_t tt = t + d;
                /* lengths the compared value may stand for */
                static const int off[] = { 0, 16 };
                for (int o = 0; o < 2; o++) {
                    if (v == (uint64_t)c->mlen + off[o] && tt >= (uint64_t)off[o]) steer = 1, load(c), setlen(0, tt - off[o]), steer = 0;
                    if (v == (uint64_t)c->adlen + off[o] && tt >= (uint64_t)off[o]) steer = 1, load(c), setlen(1, tt - off[o]), steer = 0;
                }
                int w = L[i].sz;
                load(c);
                for (int be = 0; be < (w > 1 ? 2 : 1); be++) {
                    sub_in(W.k, 16, v, tt, w, be, c), sub_in(W.n, 16, v, tt, w, be, c);
                    sub_in(W.m, c->mlen < 64 ? c->mlen : 64, v, tt, w, be, c);
                    sub_in(W.ad, c->adlen < 64 ? c->adlen : 64, v, tt, w, be, c);
                }
                /* comparisons promoted to int: only the low byte carries data */
                if (w > 1 && v < 256 && t < 256) {
                    sub_in(W.k, 16, v, tt, 1, 0, c), sub_in(W.n, 16, v, tt, 1, 0, c);
                    sub_in(W.m, c->mlen < 64 ? c->mlen : 64, v, tt, 1, 0, c), sub_in(W.ad, c->adlen < 64 ? c->adlen : 64, v, tt, 1, 0, c);
                }
                if (op == O_RAW && v < 256 && t < 256 && d == 0)
                    for (int b = 0; b < 16 && nsub < SUBMAX; b++) {
                        /* a tag byte compared with v: make the difference vanish or take the compared value */
                        nsub++, load(c), W.tagx[b] ^= (u8)(v ^ t), try_();
                    }
            }
        }
}
static int consts_done;
static void const_lengths(void)
{
    for (; consts_done < nconsts; consts_done++) {
        uint64_t c = consts[consts_done];
        if (c > CAP) continue;
        static const int mul[] = { 1, 8, 16, 18 };
        for (int f = 0; f < 4; f++)
            for (int d = -1; d <= 1; d++)
                for (int w = 0; w < (op == O_HASH ? 1 : 2); w++) {
                    uint64_t v = c * mul[f] + d;
                    if (v > CAP || (f && c > 4096)) continue;
                    load(&corpus[rn(ncorp)]), setlen(w, v);
                }
        for (int w = 0; w < 2; w++) if (c >= 16) load(&corpus[rn(ncorp)]), setlen(w, c - 16);
        for (int w = 0; w < 2; w++) load(&corpus[rn(ncorp)]), setlen(w, c + 16);
        /* the constant as contents */
        for (int f = 0; f < 6; f++) {
            load(&corpus[rn(ncorp)]);
            u8 *p = f == 0 ? W.k : f == 1 ? W.n : f == 2 || f == 4 ? W.m : W.ad;
            size_t len = f < 2 ? 16 : f == 2 || f == 4 ? W.mlen : W.adlen;
            size_t w = c < 256 ? 1 : c < 65536 ? 2 : c >> 32 ? 8 : 4;
            if (len < w) continue;
            size_t at = f >= 4 ? len - w : f & 1 ? rn(len - w + 1) : 0;
            memcpy(p + at, &c, w), try_();
        }
    }
}
static void havoc(void)
{
    load(&corpus[rn(ncorp)]);
    for (int r = 1 + (int)rn(4); r > 0; r--) {
        int f = (int)rn(4);
        u8 *p = f == 0 ? W.k : f == 1 ? W.n : f == 2 ? W.m : W.ad;
        size_t len = f < 2 ? 16 : f == 2 ? W.mlen : W.adlen;
        switch (rn(8)) {
        case 0: if (len) p[rn(len)] ^= 1 << rn(8); break;
        case 1: if (len) p[rn(len)] = (u8)rnd(); break;
        case 2: if (len) p[rn(len)] = rn(2) ? 0 : 0xff; break;
        case 3: if (len && nconsts) { uint64_t c = consts[rn(nconsts)]; size_t w = 1u << rn(4); if (w <= len) memcpy(p + rn(len - w + 1), &c, w); } break;
        case 4: fill(p, len, rcls()); break;
        case 5: case 6: {
            int w = (int)rn(2);
            uint32_t *l = w ? &W.adlen : &W.mlen;
            u8 *q = w ? Wa : Wm;
            uint64_t v = rn(3) ? rn(100) : nconsts && rn(2) ? consts[rn(nconsts)] + rn(3) - 1 : rn(3000);
            if (v > 4096) v = rn(4096);
            if (v > *l) fill(q + *l, v - *l, rcls());
            *l = (uint32_t)v;
            break;
        }
        default: if (op == O_RAW) W.tagx[rn(16)] ^= rn(2) ? 1 << rn(8) : (u8)rnd(); else if (len) memset(p, p[0], len);
        }
    }
    if (op == O_RAW && rn(4)) { int z = 1; for (int i = 0; i < 16; i++) z &= !W.tagx[i]; if (z) W.tagx[rn(16)] = 1 << rn(8); }
    try_();
}
static long knob(int argc, char **argv, const char *k, long d)
{
    size_t n = strlen(k);
    for (int i = 2; i < argc; i++) if (!strncmp(argv[i], k, n) && argv[i][n] == '=') return strtol(argv[i] + n + 1, 0, 0);
    return d;
}
int main(int argc, char **argv)
{
    rseed(knob(argc, argv, "SEED", 1) * 1000003ull + knob(argc, argv, "SALT", 0));
    const char *mode = argc > 1 ? argv[1] : "";
    op = !strcmp(mode, "enc") ? O_ENC : !strcmp(mode, "dec") ? O_DEC : !strcmp(mode, "raw") ? O_RAW : O_HASH;
    CAP = knob(argc, argv, "CAP", 1 << 17);
    SUBMAX = knob(argc, argv, "SUBMAX", 400);
    long HAVOC = knob(argc, argv, "HAVOC", 1500), MAXD = knob(argc, argv, "MAXD", 60);
    MAXEX = knob(argc, argv, "MAXEX", 4000);
    maxviol = knob(argc, argv, "MAXV", 3);
    init_signals(0);
    watch_hang(knob(argc, argv, "HANG", 40));
    xalloc(CAP + 65536);
    guarded = (int)knob(argc, argv, "GUARD", 0), release_ = (int)knob(argc, argv, "REL", 0);
    if (guarded) guard_init();
    if (release_) { gp = slot_new(CAP + 96), B_P = gp.base; slot_prot(&gp, PROT_READ); }
    Wm = malloc(CAP + 64), Wa = malloc(CAP + 64), runset = calloc(1, 1 << 18);
    static const int sl[][2] = { { 0, 0 }, { 5, 3 }, { 16, 16 }, { 40, 0 }, { 0, 40 }, { 33, 50 }, { 100, 17 }, { 9, 120 }, { 300, 301 } };
    static u8 bm[512], ba[512];
    for (unsigned i = 0; i < sizeof sl / sizeof *sl; i++) {
        inp x;
        memset(&x, 0, sizeof x);
        fill(x.k, 16, D_RAND), fill(x.n, 16, D_RAND), fill(bm, 512, D_RAND), fill(ba, 512, D_RAND);
        if (op == O_RAW && i) x.tagx[i & 15] = 1 << (i & 7);
        x.m = bm, x.ad = ba, x.mlen = sl[i][0], x.adlen = sl[i][1];
        keep(&x);
        load(&corpus[ncorp - 1]);
        run(&W), novel();
    }
    const_lengths();
    long det = 0;
    for (long h = 0; h < HAVOC && (execs < MAXEX || h < HAVOC / 4); h++) {
        for (int i = 0; i < ncorp && det < MAXD && execs < MAXEX; i++)
            if (!corpus[i].done) { deterministic(i), det++, const_lengths(); }
        havoc();
        if ((h & 63) == 0) const_lengths();
    }
    sample("%.300s", curdesc);
    stat_add("edges=%ld constants=%d corpus=%d substitutions=%ld lengths_steered=%ld ", pcs, nconsts, ncorp, subst, lens_tried);
    finish();
    return 0;
}
