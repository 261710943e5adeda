/* C16: register monitor for leakage-resilient tag verification.
 * Many rejected decryptions of the same lengths are executed one instruction at a time and the registers and flags seen at
 * every step are lined up across the executions. Half of the rejected tags differ from the expected tag in one bit
 * (class A), the others in about half of their bits (class B). Judged, for every register bit and flag at every step:
 *   - it must not equal one bit of the tag difference (or its complement) in all executions;
 *   - it must not tell class A from class B: values that depend on only one of the tags, or on what the permutation makes of
 *     each of them separately, have the same distribution in both.
 *  (default)     x86: runs the trials under the processor's trap flag and judges
 *  -DTARGET      runs the trials only (ARM, under qemu-arm, which logs the registers)
 *  -DCONSUMER    reads qemu's log of the same trials on standard input and judges (native) */
#ifdef CONSUMER
#define HAS_HASH 0
#define ALG 0
#endif
#include "engine.h"
static long knob(int argc, char **argv, const char *k, long d)
{
    size_t n = strlen(k);
    for (int i = 1; i < argc; i++) if (!strncmp(argv[i], k, n) && argv[i][n] == '=') return strtol(argv[i] + n + 1, 0, 0);
    return d;
}
#define MAXT 512
static int NT;
static u8 cls[MAXT]; /* 1: class A */
static struct { u8 k[16], n[16], ad[64], c[80], T[16]; size_t ml, al; } tr[MAXT];
static void gen(int argc, char **argv)
{
    rseed(knob(argc, argv, "SEED", 1) * 1000003ull + knob(argc, argv, "SALT", 0));
    NT = (int)knob(argc, argv, "TRIALS", 128) & ~63;
    if (NT > MAXT) NT = MAXT;
    if (knob(argc, argv, "PILOT", 0)) NT = 1;
    size_t ml = knob(argc, argv, "ML", 0), al = knob(argc, argv, "AL", 0);
    for (int i = 0; i < NT; i++) {
        fill(tr[i].k, 16, D_RAND), fill(tr[i].n, 16, D_RAND), fill(tr[i].ad, 64, D_RAND), fill(tr[i].c, 80, D_RAND);
        tr[i].ml = ml, tr[i].al = al;
        or_mac(ALG, tr[i].T, tr[i].c, ml, tr[i].ad, al, tr[i].n, tr[i].k);
        memcpy(tr[i].c + ml, tr[i].T, 16);
        cls[i] = (u8)(i % 2 == 0 ? rn(2) : !cls[i - 1]); /* balanced, and unrelated to anything the harness counts */
        if (!cls[i]) for (int j = 0; j < 16; j++) tr[i].c[ml + j] = (u8)(rnd() >> 17);
        else { int b = (int)rn(128); tr[i].c[ml + b / 8] ^= 1 << (b % 8); }
    }
}

#ifndef TARGET
/* ---------------------------------------------------------------- recording and judging */
#define NW 48 /* 16 general registers, 32 vector halves */
typedef struct { uint64_t pc; uint32_t flags; } srec;
static long win, start, nsteps[MAXT];
static srec *rec;      /* [trial][win] */
static uint64_t *reg;  /* [step][word][trial] */
static int nwords;
static void rec_alloc(long w, int words)
{
    win = w, nwords = words;
    rec = mmap(0, sizeof *rec * NT * win, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    reg = mmap(0, 8ull * NT * win * words, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (rec == MAP_FAILED || reg == MAP_FAILED) die("mmap");
}
static void record(int t, long step, uint64_t pc, uint32_t flags, const uint64_t *w)
{
    step -= start;
    if (step < 0 || step >= win) return;
    rec[t * win + step].pc = pc, rec[t * win + step].flags = flags;
    for (int i = 0; i < nwords; i++) reg[(step * nwords + i) * NT + t] = w[i];
}
/* the expected tag becomes visible: nothing before that can involve it */
static uint32_t half(const u8 *p, int odd)
{
    uint64_t x = 0;
    uint32_t r = 0;
    memcpy(&x, p, 8);
    for (int i = 0; i < 32; i++) r |= (uint32_t)(x >> (2 * i + odd) & 1) << i;
    return r;
}
static int shows_tag(const u8 *T, const uint64_t *w, int n)
{
    uint32_t v[12];
    int k = 0;
    for (int i = 0; i < 16; i += 4) memcpy(&v[k++], T + i, 4);
    for (int i = 0; i < 4; i++) v[k] = __builtin_bswap32(v[k - 4]), k++;
    v[k++] = half(T, 0), v[k++] = half(T, 1), v[k++] = half(T + 8, 0), v[k++] = half(T + 8, 1);
    for (int i = 0; i < n; i++)
        for (int j = 0; j < k; j++) if ((uint32_t)w[i] == v[j] || (uint32_t)(w[i] >> 32) == v[j]) return 1;
    return 0;
}
#define VW (MAXT / 64)
typedef struct { uint64_t v[VW]; } vec;
static vec Db[128], Am;
static const char *regname(int arm, int i)
{
    static char b[24];
    if (arm) snprintf(b, sizeof b, "r%d", i);
    else if (i < 16) { static const char *n[] = { "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15", "rdi", "rsi", "rbp", "rbx", "rdx", "rax", "rcx", "rsp" }; return n[i]; }
    else snprintf(b, sizeof b, "xmm%d", (i - 16) / 2);
    return b;
}
static uint64_t bits_seen;
static void judge_bit(long s, const vec *v, const char *what, int bit)
{
    int q = NT / 64, a = 0, b = 0;
    bits_seen++;
    for (int i = 0; i < q; i++) a += __builtin_popcountll(v->v[i] & Am.v[i]), b += __builtin_popcountll(v->v[i] & ~Am.v[i]);
    int h = NT / 2, d = a > b ? a - b : b - a;
    if (d * 4 > h * 3)
        viol("tags-compared", "step %ld pc=%#llx: %s bit %d is set in %d of %d rejections whose tag differs in one bit and in %d of %d whose tag is unrelated: it depends on the received and the expected tag together",
             s + start, (unsigned long long)rec[s].pc, what, bit, a, h, b, h);
    if (a + b == 0 || a + b == NT) return;
    for (int j = 0; j < 128; j++) {
        uint64_t x = v->v[0] ^ Db[j].v[0];
        if (x && ~x) continue;
        int e = 1;
        for (int i = 1; i < q; i++) e &= (v->v[i] ^ Db[j].v[i]) == x;
        if (e) viol("tags-compared", "step %ld pc=%#llx: %s bit %d equals bit %d of the difference of the expected and the received tag in all %d rejections", s + start, (unsigned long long)rec[s].pc, what, bit, j, NT);
    }
}
static void transpose(const uint64_t *in, uint64_t out[64]) /* 64 x 64 bits */
{
    memcpy(out, in, 512);
    uint64_t m = 0xffffffffull;
    for (int j = 32; j; j >>= 1, m ^= m << j)
        for (int k = 0; k < 64; k = ((k | j) + 1) & ~j) {
            uint64_t t = (out[k] >> j ^ out[k | j]) & m;
            out[k] ^= t << j, out[k | j] ^= t;
        }
}
static void judge(int arm)
{
    int q = NT / 64;
    long lim = win;
    for (int i = 0; i < NT; i++)
        for (int j = 0; j < 128; j++) {
            int d = ((tr[i].c[tr[i].ml + j / 8] ^ tr[i].T[j / 8]) >> (j % 8)) & 1;
            Db[j].v[i / 64] |= (uint64_t)d << (i % 64);
        }
    for (int i = 0; i < NT; i++) Am.v[i / 64] |= (uint64_t)cls[i] << (i % 64);
    for (int i = 0; i < NT; i++) if (nsteps[i] - start < lim) lim = nsteps[i] - start;
    long s, judged = 0;
    for (s = 0; s < lim; s++) {
        int diff = 0;
        for (int i = 1; i < NT; i++) diff += rec[i * win + s].pc != rec[s].pc;
        if (diff) { /* the executions part here: does the way taken tell the classes apart? */
            vec v = { { 0 } };
            for (int i = 0; i < NT; i++) if (rec[i * win + s].pc != rec[s].pc) v.v[i / 64] |= 1ull << (i % 64);
            judge_bit(s ? s - 1 : 0, &v, "the next instruction", 0);
            break;
        }
        judged++;
        vec fl[32];
        memset(fl, 0, sizeof fl);
        for (int i = 0; i < NT; i++)
            for (int b = 0; b < 32; b++) fl[b].v[i / 64] |= (uint64_t)(rec[i * win + s].flags >> b & 1) << (i % 64);
        for (int b = 0; b < 32; b++) judge_bit(s, &fl[b], "flag", b);
        for (int w = 0; w < nwords; w++) {
            uint64_t *p = reg + (s * nwords + w) * NT;
            int ch = 0;
            for (int i = 1; i < NT && !ch; i++) ch = p[i] != p[0];
            if (!ch) continue;
            uint64_t x[VW][64];
            for (int i = 0; i < q; i++) transpose(p + 64 * i, x[i]);
            for (int b = 0; b < 64; b++) {
                vec v;
                for (int i = 0; i < q; i++) v.v[i] = x[i][b];
                judge_bit(s, &v, regname(arm, w), b);
            }
        }
    }
    st_eval = NT, st_nontriv = NT;
    stat_add("steps_lined_up=%ld register_bits_judged=%llu steps_per_rejection=%ld first_step=%ld ", judged, (unsigned long long)bits_seen, nsteps[0], start);
    if (judged < 100) die("fewer than 100 steps lined up");
    sample("%d rejections, ciphertext body %zu bytes: %ld instructions each, judged from instruction %ld on", NT, tr[0].ml, nsteps[0], start);
}
#endif

#ifdef CONSUMER
#include <stdio.h>
/* one log record: R00..R15, PSR */
static int next(FILE *f, uint64_t r[17])
{
    static char l[512];
    int have = 0;
    while (fgets(l, sizeof l, f)) {
        if (l[0] == 'R' && l[3] == '=') {
            for (char *p = l; (p = strchr(p, 'R')); p++) {
                if (p[3] != '=') continue;
                r[(p[1] - '0') * 10 + p[2] - '0'] = strtoul(p + 4, 0, 16);
                have++;
            }
        } else if (!strncmp(l, "PSR=", 4)) {
            if (have < 16) die("log format");
            r[16] = strtoul(l + 4, 0, 16);
            return 1;
        }
    }
    return 0;
}
int main(int argc, char **argv)
{
    gen(argc, argv);
    uint64_t entry = knob(argc, argv, "ENTRY", 0) & ~1ul, r[17], w[16];
    int pilot = (int)knob(argc, argv, "PILOT", 0), t = -1;
    long step = 0;
    if (pilot) { /* trial 0 only: which instructions run once the expected tag is there */
        static uint64_t pcs[1 << 20];
        long n = 0, seen = -1;
        while (next(stdin, r)) {
            if (r[15] == entry && ++t > 0) break;
            if (t < 0) continue;
            if (seen < 0 && shows_tag(tr[0].T, r, 15)) seen = n;
            if (n < 1 << 20) pcs[n++] = r[15];
        }
        printf("P steps=%ld first=%ld\n", n, seen);
        for (long i = seen < 0 ? 0 : seen; i < n; i++) printf("A %llx\n", (unsigned long long)pcs[i]);
        return 0;
    }
    rec_alloc(knob(argc, argv, "WIN", 40000), 15);
    while (next(stdin, r)) {
        if (r[15] == entry) { if (++t >= NT) break; step = 0; }
        if (t < 0) continue;
        memcpy(w, r, sizeof w);
        record(t, step, r[15], (uint32_t)(r[16] & 0xf0000000), w);
        nsteps[t] = ++step;
    }
    if (t < NT - 1) die("log ends early");
    judge(1);
    finish();
    return 0;
}
#else
static u8 out[128];
static ull outlen;
/* every trial at the same addresses: pointers are the same in all of them */
static u8 xk[16], xn[16], xad[64], xc[80];
static size_t xml, xal;
static void place(int t)
{
    memcpy(xk, tr[t].k, 16), memcpy(xn, tr[t].n, 16), memcpy(xad, tr[t].ad, 64), memcpy(xc, tr[t].c, 80);
    xml = tr[t].ml, xal = tr[t].al;
}
static __attribute__((noinline)) int call(void) { return crypto_aead_decrypt(out, &outlen, 0, xc, xml + 16, xad, xal, xn, xk); }
#ifdef TARGET
int main(int argc, char **argv)
{
    gen(argc, argv);
    for (int i = 0; i < NT; i++) place(i), call();
    return 0;
}
#else
#include <ucontext.h>
static int cur, pilot = 1;
static long step, seen = -1;
static void on_trap(int s, siginfo_t *si, void *u)
{
    (void)s, (void)si;
    mcontext_t *m = &((ucontext_t *)u)->uc_mcontext;
    if (pilot) {
        uint64_t w[NW];
        memcpy(w, m->gregs, 16 * 8), memcpy(w + 16, m->fpregs->_xmm, 256);
        if (seen < 0 && shows_tag(tr[0].T, w, NW)) seen = step;
    } else if (step >= start && step - start < win) {
        uint64_t w[NW];
        memcpy(w, m->gregs, 16 * 8), memcpy(w + 16, m->fpregs->_xmm, 256);
        record(cur, step, m->gregs[REG_RIP], (uint32_t)(m->gregs[REG_EFL] & 0x8d5), w);
    }
    step++;
}
#define TF_ON() __asm__ __volatile__("pushfq; orq $0x100,(%%rsp); popfq" ::: "cc", "memory")
#define TF_OFF() __asm__ __volatile__("pushfq; andq $~0x100,(%%rsp); popfq" ::: "cc", "memory")
static ucontext_t um, uc;
static u8 *cs;
static void body(void)
{
    /* nothing of the harness may be left in the vector registers */
    __asm__ __volatile__("pxor %%xmm0,%%xmm0;pxor %%xmm1,%%xmm1;pxor %%xmm2,%%xmm2;pxor %%xmm3,%%xmm3;pxor %%xmm4,%%xmm4;pxor %%xmm5,%%xmm5;pxor %%xmm6,%%xmm6;pxor %%xmm7,%%xmm7;"
                         "pxor %%xmm8,%%xmm8;pxor %%xmm9,%%xmm9;pxor %%xmm10,%%xmm10;pxor %%xmm11,%%xmm11;pxor %%xmm12,%%xmm12;pxor %%xmm13,%%xmm13;pxor %%xmm14,%%xmm14;pxor %%xmm15,%%xmm15" :::
                         "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", "xmm8", "xmm9", "xmm10", "xmm11", "xmm12", "xmm13", "xmm14", "xmm15");
    incall = 1;
    TF_ON();
    call();
    TF_OFF();
    incall = 0;
}
static void run(int t)
{
    cur = t, step = 0, place(t);
    if (!cs) cs = slot_new(1 << 19).base;
    memset(cs, 0, 1 << 19);
    getcontext(&uc);
    uc.uc_stack.ss_sp = cs, uc.uc_stack.ss_size = 1 << 19, uc.uc_link = &um;
    makecontext(&uc, body, 0);
    swapcontext(&um, &uc);
    nsteps[t] = step;
}
int main(int argc, char **argv)
{
    gen(argc, argv);
    maxviol = knob(argc, argv, "MAXV", 3);
    init_signals(0);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_trap, sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    sigaction(SIGTRAP, &sa, 0);
    place(0), call();
    run(0);
    pilot = 0;
    long total = nsteps[0];
    start = seen < 0 ? 0 : seen;
    rec_alloc(total - start + 2000, NW);
    snprintf(curdesc, sizeof curdesc, "rejected decryption, single-stepped");
    for (int i = 0; i < NT; i++) run(i);
    judge(0);
    finish();
    return 0;
}
#endif
#endif
