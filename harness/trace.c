/* Trace monitors. The implementation is compiled with trace-pc, trace-cmp and out-of-line address checks, so that
 * every basic block entered and every load and store address is an event observed here.
 *   work   : C04, the work of a rejected decryption does not contain the decryption work
 *   ct     : C10, the event sequence is the same for every secret
 *   linear : C15, the number of events grows linearly */
#include "engine.h"
static long knob(int argc, char **argv, const char *k, long d)
{
    size_t n = strlen(k);
    for (int i = 2; i < argc; i++) if (!strncmp(argv[i], k, n) && argv[i][n] == '=') return strtol(argv[i] + n + 1, 0, 0);
    return d;
}
static int AC;
static char **AV;
#define K(name, d) knob(AC, AV, name, d)

static uint64_t nev, nmem, npc, hash_;
static uint32_t *ref_;               /* reference trace, one word per event */
static uint64_t ref_n, ref_cap;
static int recording, comparing;
static uint64_t div_at;
static uintptr_t div_pc, div_addr;
static int diverged, div_kind;
static inline __attribute__((always_inline)) void ev(int kind, uintptr_t pc, uintptr_t addr)
{
    if (!incall) return;
    if (kind) nmem++; else npc++;
    uint32_t w = (uint32_t)(((uint64_t)(pc + 0x9e3779b9u * (addr + kind)) * 0x9e3779b97f4a7c15ull) >> 32);
    hash_ = (hash_ ^ w) * 0x100000001b3ull;
    if (recording && nev < ref_cap) ref_[nev] = w;
    if (comparing && !diverged && (nev >= ref_n || (nev < ref_cap && ref_[nev] != w))) diverged = 1, div_at = nev, div_pc = pc, div_addr = addr, div_kind = kind;
    nev++;
}
#define RA ((uintptr_t)__builtin_return_address(0))
#ifdef STEP
/* x86: the processor's trap flag reports every single instruction of the uninstrumented release build */
#include <ucontext.h>
static void on_trap(int s, siginfo_t *si, void *u)
{
    (void)s, (void)si;
    ev(0, (uintptr_t)((ucontext_t *)u)->uc_mcontext.gregs[REG_RIP], 0);
}
#define TF_ON() do { incall = 1; __asm__ __volatile__("pushfq; orq $0x100,(%%rsp); popfq" ::: "cc", "memory"); } while (0)
#define TF_OFF() do { __asm__ __volatile__("pushfq; andq $~0x100,(%%rsp); popfq" ::: "cc", "memory"); incall = 0; } while (0)
#else
#define TF_ON() (incall = 1)
#define TF_OFF() (incall = 0)
#endif
void __sanitizer_cov_trace_pc(void) { ev(0, RA, 0); }
#define A(n) \
    void __asan_load##n##_noabort(uintptr_t a) { ev(n, RA, a); } \
    void __asan_store##n##_noabort(uintptr_t a) { ev(64 + n, RA, a); } \
    void __asan_load##n(uintptr_t a) { ev(n, RA, a); } \
    void __asan_store##n(uintptr_t a) { ev(64 + n, RA, a); }
A(1) A(2) A(4) A(8) A(16)
void __asan_loadN_noabort(uintptr_t a, uintptr_t n) { ev(32, RA, a), ev(33, RA, n); }
void __asan_storeN_noabort(uintptr_t a, uintptr_t n) { ev(96, RA, a), ev(97, RA, n); }
void __asan_handle_no_return(void) {}
/* comparison routines that stop at the first difference, visible to the tracer (the library's are not) */
static inline int cmpbytes(uintptr_t pc, const u8 *a, const u8 *b, size_t n)
{
    for (size_t i = 0; i < n; i++) {
        ev(1, pc, (uintptr_t)(a + i));
        if (a[i] != b[i]) return a[i] - b[i];
    }
    return 0;
}
int memcmp(const void *a, const void *b, size_t n) { return cmpbytes(RA, a, b, n); }
int bcmp(const void *a, const void *b, size_t n) { return cmpbytes(RA, a, b, n); }
int __memcmpeq(const void *a, const void *b, size_t n) { return cmpbytes(RA, a, b, n); }
/* comparison operands: only hints where to look; never judged by themselves */
typedef struct { uintptr_t pc; uint64_t a, b; int sz; } cmpev;
#define NC 4096
static cmpev cl[NC];
static int ncl, logging;
static inline void cmp(uintptr_t pc, uint64_t a, uint64_t b, int sz)
{
    if (!incall || !logging || ncl == NC || a == b) return;
    int n = 0;
    for (int i = ncl - 1; i >= 0; i--) if (cl[i].pc == pc) { if ((cl[i].a == a && cl[i].b == b) || ++n >= 32) return; }
    cl[ncl].pc = pc, cl[ncl].a = a, cl[ncl].b = b, cl[ncl++].sz = sz;
}
void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { cmp(RA, a, b, 1); }
void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { cmp(RA, a, b, 2); }
void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { cmp(RA, a, b, 4); }
void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { cmp(RA, a, b, 8); }
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { cmp(RA, a, b, 1); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { cmp(RA, a, b, 2); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { cmp(RA, a, b, 4); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { cmp(RA, a, b, 8); }
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *c) { for (uint64_t i = 0; i < c[0]; i++) cmp(RA, c[2 + i], v, (int)(c[1] / 8)); }

static tcase T;
static u8 *tgt_c, *tgt_p; /* fixed addresses used by every traced call */
enum { OP_ENC, OP_DEC, OP_HASH };
static u8 hbuf[32];
static ull outlen;
/* one call, everything at fixed addresses, on a stack of its own so that every call starts at the same depth */
#include <ucontext.h>
static ucontext_t uc_main, uc_call;
static u8 *callstack;
static int t_op, t_ret;
static size_t t_clen;
static void call_body(void)
{
    int op = t_op, r;
    size_t clen = t_clen;
    TF_ON();
    if (op == OP_ENC) r = crypto_aead_encrypt(tgt_c, &outlen, T.m, T.mlen, T.ad, T.adlen, 0, T.n, T.k);
    else if (op == OP_DEC) r = crypto_aead_decrypt(tgt_p, &outlen, 0, tgt_c, clen, T.ad, T.adlen, T.n, T.k);
    else r = crypto_hash(hbuf, T.m, T.mlen);
    TF_OFF();
    t_ret = r;
}
static int traced(int op, size_t clen)
{
    nev = nmem = npc = 0, hash_ = 0xcbf29ce484222325ull, diverged = 0;
    outlen = 0, t_op = op, t_clen = clen;
    if (!callstack) callstack = slot_new(1 << 20).base;
    getcontext(&uc_call);
    uc_call.uc_stack.ss_sp = callstack, uc_call.uc_stack.ss_size = 1 << 20, uc_call.uc_link = &uc_main;
    makecontext(&uc_call, call_body, 0);
    swapcontext(&uc_main, &uc_call);
    return t_ret;
}

/* ------------------------------------------------------------------ C04 */
static uint64_t cost(size_t mlen, size_t adlen, int bad, int how)
{
    T.mlen = mlen, T.adlen = adlen;
    fill(T.m, mlen, D_RAND), fill(T.ad, adlen, D_RAND), secrets_fill(&T, D_RAND, D_RAND);
    or_encrypt(ALG, tgt_c, T.m, mlen, T.ad, adlen, T.n, T.k);
    if (bad) {
        if (how == 0) tgt_c[mlen + rn(16)] ^= 1 << rn(8);
        else if (how == 1 && mlen) tgt_c[rn(mlen)] ^= 1 << rn(8);
        else if (how == 2) T.k[rn(16)] ^= 1 << rn(8);
        else fill(tgt_c + mlen, 16, D_RAND);
    }
    snprintf(curdesc, sizeof curdesc, "decryption %s mlen=%zu adlen=%zu", bad ? "rejected" : "accepted", mlen, adlen);
    int r = traced(OP_DEC, mlen + 16);
    if (!r != !bad) { st_eval++; return 0; } /* another property */
    count_case(case_hash(bad, &T), mlen > 0);
    return nev;
}
static void work(void)
{
    long n = K("N", 40), max = K("MAX", 4096);
    T.m = B_M, T.ad = B_AD, tgt_c = B_C, tgt_p = B_P;
    long done = 0, lastsave = 0;
    for (long i = 0; i < n; i++) {
        size_t al = i & 1 ? rn(60) : 0, r = or_rate(ALG);
        size_t len = r * (8 + (i < 12 ? (size_t)i * 3 : rn(max / r))) + (i & 2 ? rn(r) : 0);
        /* accepted and rejected, at len and at a base length with the same partial block: the differences leave only per-block work */
        size_t base = 3 * r + len % r; /* not empty: what is set up once per message cancels too */
        uint64_t a1 = cost(len, al, 0, 0), a0 = cost(base, al, 0, 0), r1 = cost(len, al, 1, i & 3), r0 = cost(base, al, 1, i & 3);
        uint64_t m1 = cost(base, len, 1, 0), m0 = cost(base, base, 1, 0);
        if (!a1 || !a0 || !r1 || !r0 || !m1 || !m0) continue;
        int64_t acc = a1 - a0, rej = r1 - r0, mac = m1 - m0, encw = acc - mac;
        if (encw <= 0) continue; /* the tracer sees no decryption work: inconclusive for this case */
        done++;
        lastsave = 100 * (acc - rej) / encw;
        if (rej > mac + encw / 2)
            viol("work-before-verification", "mlen=%zu adlen=%zu: a rejected decryption executes %lld events for its %zu-byte message, authentication of as many bytes takes %lld and accepted decryption %lld",
                 len, al, (long long)rej, len - base, (long long)mac, (long long)acc);
        if (i < 2) sample("mlen=%zu: accepted %lld events, rejected %lld, authentication alone %lld", len, (long long)acc, (long long)rej, (long long)mac);
    }
    /* short messages: without the decryption, rejecting m bytes of message costs what rejecting m bytes of associated data costs */
    long shorts = K("SHORTS", 120), sdone = 0;
    for (long i = 0; i < shorts; i++) {
        size_t m = i < 40 ? (size_t)i + 1 : 1 + rn(i % 3 ? 300 : 2000);
        uint64_t a = cost(m, 0, 0, 0), mac = cost(0, m, 1, 0), rej = cost(m, 0, 1, (int)(i & 3));
        if (!a || !mac || !rej || a <= mac) continue;
        sdone++;
        if (rej > mac + (a - mac) / 2)
            viol("work-before-verification", "mlen=%zu: a rejected decryption executes %llu events, rejecting as much associated data takes %llu and accepted decryption %llu", m, (unsigned long long)rej, (unsigned long long)mac, (unsigned long long)a);
    }
    stat_add("work_compared=%ld work_compared_short=%ld ", done, sdone);
    if (!done) stat_add("work_blind=1 ");
    (void)lastsave;
}

/* ------------------------------------------------------------------ C10 */
static long ct_sets, hints, hint_runs, hint_confirmed, ct_events;
static void ct_violation(int op, const char *cls, const char *what)
{
    static const char *on[] = { "encryption", "decryption", "hash" };
    viol("secret-dependent", "%s%s (%s) mlen=%zu adlen=%zu: event %llu of %llu/%llu differs between two secrets, %s pc=%#lx", on[op], cls, what, T.mlen, T.adlen,
         (unsigned long long)div_at, (unsigned long long)nev, (unsigned long long)ref_n, div_kind ? "memory access" : "basic block", (unsigned long)div_pc);
}
static void set_ref(int op, size_t clen)
{
    recording = 1, comparing = 0;
    traced(op, clen);
    recording = 0;
    ref_n = nev;
    if (ref_n > ref_cap) ref_n = ref_cap;
    ct_events += nev;
}
static uint64_t ref_total;
static int same(int op, size_t clen, const char *cls, const char *what)
{
    comparing = 1;
    int r = traced(op, clen);
    comparing = 0;
    count_case(case_hash(100 + op, &T), 1);
    if (nev > ref_cap) { /* beyond the recorded prefix compare count only */
        if (nev != ref_total && !diverged) diverged = 1, div_at = ref_cap;
    } else if (!diverged && nev != ref_n) diverged = 1, div_at = nev;
    if (diverged) ct_violation(op, cls, what);
    return r;
}
static size_t mk_reject(int i, size_t ml)
{
    u8 tag[16];
    fill(tgt_c, ml, i % 5 == 4 ? rcls() : D_RAND);
    or_mac(ALG, tag, tgt_c, ml, T.ad, T.adlen, T.n, T.k);
    memcpy(tgt_c + ml, tag, 16);
    u8 *t = tgt_c + ml;
    if (i < 16) t[i] ^= 1 + rn(255);                       /* one byte */
    else if (i < 32) for (int j = i - 16; j < 16; j++) t[j] ^= 1 + rn(255); /* from byte i on */
    else if (i < 48) for (int j = 0; j <= i - 32; j++) t[j] ^= 1 + rn(255); /* up to byte i */
    else if (i < 64) t[i - 48] ^= 1 << rn(8);
    else if (i % 4 == 0) fill(t, 16, D_RAND);
    else if (i % 4 == 1) memset(t, rn(2) ? 0xff : 0, 16);
    else if (i % 4 == 2) for (int j = 0; j < 16; j++) t[j] ^= 0xff;
    else t[rn(16)] ^= 1 << rn(8), t[rn(16)] ^= 1 << rn(8), t[0] ^= t[0] == tag[0] ? 1 : 0;
    return ml + 16;
}
static void substitute(int op)
{
    /* hints: a comparison saw a secret-looking value; make it equal to, or step over, what it was compared with */
    static cmpev L[NC];
    ncl = 0, logging = 1;
    traced(op, T.mlen + 16);
    logging = 0;
    int n = ncl;
    memcpy(L, cl, n * sizeof *L);
    u8 k0[16];
    memcpy(k0, T.k, 16);
    static u8 m0[512];
    size_t mm = T.mlen < 512 ? T.mlen : 512;
    memcpy(m0, T.m, mm);
    long budget = K("HINTS", 300);
    for (int i = 0; i < n && budget > 0; i++)
        for (int dir = 0; dir < 2; dir++)
            for (int d = -1; d <= 1; d++)
                for (int w = L[i].sz; w; w = w > 1 ? 1 : 0)
                    for (int be = 0; be < (w > 1 ? 2 : 1); be++) {
                        uint64_t mask = w >= 8 ? ~0ull : (1ull << 8 * w) - 1, v = (dir ? L[i].b : L[i].a), t = (dir ? L[i].a : L[i].b) + d;
                        if (w < L[i].sz && (v > 255 || (t & mask) != t)) continue;
                        u8 p[8], q[8];
                        for (int j = 0; j < w; j++) p[j] = (u8)(v >> 8 * (be ? w - 1 - j : j)), q[j] = (u8)(t >> 8 * (be ? w - 1 - j : j));
                        if (!memcmp(p, q, w)) continue;
                        hints++;
                        for (int where = 0; where < 2; where++) {
                            u8 *b = where ? T.m : T.k;
                            size_t bl = where ? (op == OP_DEC ? 0 : mm) : 16;
                            int hits = 0;
                            for (size_t x = 0; x + w <= bl && hits < 2 && budget > 0; x++) {
                                if (memcmp(b + x, p, w)) continue;
                                memcpy(b + x, q, w);
                                hits++, budget--, hint_runs++;
                                if (op == OP_DEC) { mk_reject((int)rn(16), T.mlen); }
                                same(op, T.mlen + 16, op == OP_DEC ? " rejected" : "", "value taken from a comparison");
                                memcpy(T.k, k0, 16), memcpy(T.m, m0, mm);
                            }
                        }
                    }
}
static void ct(void)
{
    long sets = K("SETS", 6), reps0 = K("REPS", 24), rej0 = K("REJ", 80);
    ref_cap = K("CAPEV", 6000000);
    ref_ = mmap(0, ref_cap * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (ref_ == MAP_FAILED) die("mmap");
    T.m = B_M, T.ad = B_AD, tgt_c = B_C, tgt_p = B_P;
    uint64_t budget = K("BUDGET", 0), spent = 0; /* events */
    static const int lens[][2] = { { 0, 0 }, { 20, 5 }, { 37, 19 }, { 1, 0 }, { 0, 9 }, { 64, 64 }, { 16, 16 }, { 100, 3 }, { 7, 40 }, { 150, 0 } };
    for (long s = 0; s < sets; s++) {
        size_t ml = s < 10 ? lens[s][0] : rsize_(300), al = s < 10 ? lens[s][1] : rsize_(300);
        T.mlen = ml, T.adlen = al;
        fill(T.n, 16, s % 3 == 2 ? rcls() : D_RAND), fill(T.ad, al, s % 3 == 1 ? rcls() : D_RAND);
        ct_sets++;
        /* encryption */
        fill(T.k, 16, D_RAND), fill(T.m, ml, D_RAND);
        set_ref(OP_ENC, 0), ref_total = nev;
        uint64_t encev = nev;
        long reps = reps0, rej = rej0;
        if (budget) { /* single-stepping costs about a microsecond an instruction */
            uint64_t per = encev * 5 / 2 + 1, afford = (budget - (spent < budget ? spent : budget)) / per / (s < 2 ? 2 : 3);
            if (s && afford < 4) break;
            if ((uint64_t)reps > afford) reps = afford < 3 ? 3 : afford;
            if ((uint64_t)rej > 2 * afford) rej = afford < 4 ? 8 : 2 * afford;
            spent += per * reps;
        }
        for (long i = 0; i < reps; i++) {
            fill(T.k, 16, i < NDATA ? (int)i : rcls()), fill(T.m, ml, i < NDATA ? (int)(NDATA - 1 - i) : rcls());
            if (i % 4 == 3) memcpy(T.k, T.n, 16);
            same(OP_ENC, 0, "", "keys and plaintexts");
        }
        fill(T.k, 16, D_RAND), fill(T.m, ml, D_RAND), substitute(OP_ENC);
        /* decryption, accepted */
        uint64_t accev = 0, rejev = 0;
        for (long i = 0; i < reps / 2; i++) {
            fill(T.k, 16, i < NDATA ? (int)i : rcls()), fill(T.m, ml, rcls());
            or_encrypt(ALG, tgt_c, T.m, ml, T.ad, al, T.n, T.k);
            if (i == 0) { set_ref(OP_DEC, ml + 16), ref_total = nev, accev = nev; continue; }
            same(OP_DEC, ml + 16, " accepted", "keys and messages");
        }
        /* decryption, rejected: wherever and however the tags differ */
        for (long i = 0; i < rej; i++) {
            fill(T.k, 16, i % 3 ? D_RAND : rcls());
            size_t clen = mk_reject(rej >= 64 ? (int)i : (int)(i * 37 % 64), ml);
            if (i == 0) { set_ref(OP_DEC, clen), ref_total = nev, rejev = nev; continue; }
            same(OP_DEC, clen, " rejected", "keys, messages and tag differences");
        }
        fill(T.k, 16, D_RAND), mk_reject(0, ml), substitute(OP_DEC);
        if (s == 1) sample("mlen=%zu adlen=%zu: %llu events per encryption, %llu per accepted and %llu per rejected decryption, identical for every secret", ml, al,
                           (unsigned long long)encev, (unsigned long long)accev, (unsigned long long)rejev);
    }
    stat_add("parameter_sets=%ld events_in_reference_traces=%ld comparison_hints=%ld hint_runs=%ld ", ct_sets, ct_events, hints, hint_runs);
}

/* ------------------------------------------------------------------ C15 */
static uint64_t lin_cost(int op, int which, size_t n)
{
    T.mlen = which ? 3 : n, T.adlen = which ? n : 3;
    fill(T.m, T.mlen, D_RAND), fill(T.ad, T.adlen, D_RAND), secrets_fill(&T, D_RAND, D_RAND);
    size_t cl = T.mlen + 16;
    if (op == OP_DEC) or_encrypt(ALG, tgt_c, T.m, T.mlen, T.ad, T.adlen, T.n, T.k);
    snprintf(curdesc, sizeof curdesc, "work of operation %d with %s length %zu", op, which ? "associated-data" : "message", n);
    traced(op, cl);
    count_case(case_hash(200 + op, &T), 1);
    return nev;
}
static void linear(void)
{
    T.m = B_M, T.ad = B_AD, tgt_c = B_C, tgt_p = B_P;
    size_t r = or_rate(ALG) == 18 ? 18 : 16, top = K("TOP", 1 << 12);
    static const char *on[] = { "encryption", "decryption", "hash" };
    for (int op = 0; op < (HAS_HASH ? 3 : 2); op++)
        for (int which = 0; which < (op == 2 ? 1 : 2); which++) {
            uint64_t e0 = lin_cost(op, which, 0), prev = lin_cost(op, which, r * 16), ln = r * 16;
            double first = (double)(prev > e0 ? prev - e0 : 1) / ln, worst = 0;
            for (size_t n = r * 32; n <= r * top; n *= 2) {
                uint64_t e = lin_cost(op, which, n);
                double sl = (double)((int64_t)(e - prev)) / (n - ln);
                if (sl > worst) worst = sl;
                if (sl > 2 * first + 8)
                    viol("superlinear", "%s: %.1f events per byte between lengths %zu and %zu, %.1f up to length %zu (%s)", on[op], sl, (size_t)ln, n, first, r * 16, which ? "associated data" : "message");
                prev = e, ln = n;
            }
            if (op == 0) sample("%s, %s: %.2f events per byte at first, at most %.2f up to %zu bytes", on[op], which ? "associated data" : "message", first, worst, r * top);
        }
}
int main(int argc, char **argv)
{
    AC = argc, AV = argv;
    rseed(K("SEED", 1) * 1000003ull + K("SALT", 0));
    maxviol = K("MAXV", 3);
    init_signals(0);
#ifndef STEP
    watch_hang(K("HANG", 40));
#endif
#ifdef STEP
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_trap, sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    sigaction(SIGTRAP, &sa, 0);
#endif
    xalloc(1 << 20);
    const char *mode = argc > 1 ? argv[1] : "";
    if (!strcmp(mode, "work")) work();
    else if (!strcmp(mode, "ct")) ct();
    else if (!strcmp(mode, "linear")) linear();
    else die("mode");
    finish();
    return 0;
}
