/* abi: every call is made through a trampoline that owns all registers, the caller's stack and the control words.
 * abi SEED= SALT= NR= ZMM= */
#include "engine.h"
#include <stddef.h>
#include "oracle.h"
static long knob(int argc, char **argv, const char *k, long d)
{
    size_t n = strlen(k);
    for (int i = 1; i < argc; i++) if (!strncmp(argv[i], k, n) && argv[i][n] == '=') return strtol(argv[i] + n + 1, 0, 0);
    return d;
}
#if defined(__x86_64__)
static struct abi {
    uint64_t pad0, reg[6], stack[8], in[6], rax, r10, r11, flags; /* 0 8 56 120 168 192 */
    uint32_t mxcsr, fcw;                                          /* 200 */
    uint64_t r208, shift, spsave;                                 /* 208 216 224 */
    uint32_t old_mxcsr, old_cw;                                   /* 232 */
    uint32_t zmm, r244;                                           /* 240 */
    uint64_t sp, out[6], out_sp, out_flags, ret;                  /* 248 256 304 312 320 */
    uint32_t out_mxcsr, r332;                                     /* 328 */
    u8 env[32];                                                   /* 336 */
    uint64_t out_stack[8];                                        /* 368 */
    u8 r432[512 - 432], vec[32 * 64];                             /* 512 */
} A;
_Static_assert(offsetof(struct abi, stack) == 56 && offsetof(struct abi, in) == 120 && offsetof(struct abi, flags) == 192 && offsetof(struct abi, shift) == 216 && offsetof(struct abi, zmm) == 240 &&
               offsetof(struct abi, out) == 256 && offsetof(struct abi, ret) == 320 && offsetof(struct abi, env) == 336 && offsetof(struct abi, out_stack) == 368 && offsetof(struct abi, vec) == 512, "layout");
long abi_call(struct abi *);
extern uint64_t cur_fn;
#define NREG 6
static const char *const regname[] = { "rbx", "rbp", "r12", "r13", "r14", "r15" };
typedef uint64_t word;
static int nreg, nstack;
static void arg(uint64_t v) { if (nreg < 6) A.reg[nreg++] = v; else A.stack[nstack++] = v; }
static void argp(const void *p) { arg((uint64_t)p); }
static void arg64(ull v) { arg(v); }
#define NSTACK 8
#else
static struct abi {
    uint32_t fn, old_fpscr, spsave, shift, sp, r20, fpscr, cpsr, r32[2], reg[4], lr, r60; /* 0 4 8 12 16 24 28 40 56 */
    uint32_t stack[16], r128[2], in[8], r168[18], out_cpsr, out_fpscr, out_sp, ret, out[8], r288[8], out_stack[16]; /* 64 136 240.. 256 320 */
    u8 r384[512 - 384], vec[256], out_vec[64];                                                                  /* 512 768 */
} A;
_Static_assert(offsetof(struct abi, fpscr) == 24 && offsetof(struct abi, reg) == 40 && offsetof(struct abi, lr) == 56 && offsetof(struct abi, stack) == 64 && offsetof(struct abi, in) == 136 && offsetof(struct abi, out_cpsr) == 240 &&
               offsetof(struct abi, out) == 256 && offsetof(struct abi, out_stack) == 320 && offsetof(struct abi, vec) == 512 && offsetof(struct abi, out_vec) == 768, "layout");
long abi_call(struct abi *), abi_call_thumb(struct abi *);
#define NREG 8
static const char *const regname[] = { "r4", "r5", "r6", "r7", "r8", "r9", "r10", "r11" };
typedef uint32_t word;
static int nreg, nstack;
static void arg(uint32_t v) { if (nreg < 4) A.reg[nreg++] = v; else A.stack[nstack++] = v; }
static void argp(const void *p) { arg((uint32_t)p); }
static void arg64(ull v)
{
    if (nreg < 4) {
        nreg += nreg & 1;
        if (nreg < 4) { arg((uint32_t)v), arg(v >> 32); return; }
    }
    nstack += nstack & 1; /* the gap keeps its garbage */
    A.stack[nstack++] = (uint32_t)v, A.stack[nstack++] = v >> 32;
}
#define NSTACK 16
#endif
static long calls;
static int plain; /* the call everything is compared with: nothing in the registers, default modes */
static void begin(void)
{
    int cls = plain ? 1 : (int)rn(4);
#if defined(__x86_64__)
    uint32_t z = A.zmm;
#endif
    fill((u8 *)&A, sizeof A, cls == 0 ? D_FF : cls == 1 ? D_ZERO : D_RAND);
    if (cls > 1) for (int i = 0; i < NREG; i++) if (!rn(4)) A.in[i] = rn(2) ? 0 : ~(word)0;
    nreg = nstack = 0;
    A.shift = 16 * rn(5);
#if defined(__x86_64__)
    A.zmm = z;
    if (plain) { A.shift = 0, A.flags = 0x202, A.mxcsr = 0x1f80, A.fcw = 0x37f; return; }
    A.flags = 0x202 | (rnd() & 0x8d5);                        /* C P A Z S O */
    A.mxcsr = 0x1f80 | (rnd() & 0xe07f);                      /* any rounding, flush, denormals are zero, stale status */
    A.fcw = 0x7f | (rn(4) << 10) | ("\0\2\3"[rn(3)] << 8);
#else
    if (plain) { A.shift = 0, A.fpscr = A.cpsr = 0, A.lr = 1; return; }
    A.shift = 8 * rn(9);
    A.fpscr = rnd() & 0xf3c0009f;                             /* no short vectors, no traps */
    A.cpsr = rnd() & 0xf8000000;
    A.lr |= 1;
#endif
}
/* returns the result; reports whatever the call should have left alone */
static int done(void *fn, const char *what)
{
    struct abi before = A;
    int thumb = 0;
    incall = 1;
#if defined(__x86_64__)
    cur_fn = (uint64_t)fn;
    abi_call(&A);
#else
    A.fn = before.fn = (uint32_t)fn;
    if ((thumb = rn(2))) abi_call_thumb(&A); else abi_call(&A);
#endif
    incall = 0;
    calls++;
    for (int i = 0; i < NREG; i++) if (A.out[i] != before.in[i]) viol("abi", "register %s is not preserved: %llx became %llx: %s", regname[i], (ull)before.in[i], (ull)A.out[i], curdesc);
    if (A.out_sp != A.sp) viol("abi", "the stack pointer returns %+ld bytes off: %s", (long)(A.out_sp - A.sp), curdesc);
    for (int i = nstack; i < NSTACK; i++) if (A.out_stack[i] != before.stack[i]) { viol("abi", "word %d of the caller's stack, beyond the arguments, is overwritten: %s", i - nstack, curdesc); break; }
#if defined(__x86_64__)
    uint16_t tag, cw;
    memcpy(&cw, A.env, 2), memcpy(&tag, A.env + 8, 2);
    if (A.out_flags & 0x40400) viol("abi", "returns with the direction or alignment-check flag set: %s", curdesc);
    if ((A.out_mxcsr ^ before.mxcsr) & 0xffc0) viol("abi", "MXCSR control bits change from %x to %x: %s", before.mxcsr, A.out_mxcsr, curdesc);
    if ((cw ^ before.fcw) & 0xf3f) viol("abi", "the x87 control word changes from %x to %x: %s", before.fcw, cw, curdesc);
    if (tag != 0xffff) viol("abi", "the x87 register stack is not empty on return (tags %x): %s", tag, curdesc);
#else
    if (memcmp(A.out_vec, before.vec + 64, 64)) viol("abi", "one of d8-d15 is not preserved (byte %zu): %s", first_diff(A.out_vec, before.vec + 64, 64), curdesc);
    if ((A.out_fpscr ^ before.fpscr) & 0x07f79f00) viol("abi", "FPSCR control bits change from %x to %x: %s", before.fpscr, A.out_fpscr, curdesc);
    if (A.out_cpsr & 0x200) viol("abi", "returns with big-endian data accesses selected: %s", curdesc);
#endif
    return (int)A.ret;
}
static int p_enc(u8 *c, ull *l, const tcase *t)
{
    plain = 1, begin(), plain = 0;
    describe("plain encrypt", t, "");
    argp(c), argp(l), argp(t->m), arg64(t->mlen), argp(t->ad), arg64(t->adlen), argp(0), argp(t->n), argp(t->k);
    return done((void *)crypto_aead_encrypt, "");
}
static int p_dec(u8 *p, ull *l, const u8 *c, const tcase *t)
{
    plain = 1, begin(), plain = 0;
    describe("plain decrypt", t, "");
    argp(p), argp(l), argp(0), argp(c), arg64(t->mlen + 16), argp(t->ad), arg64(t->adlen), argp(t->n), argp(t->k);
    return done((void *)crypto_aead_decrypt, "");
}
static int p_hash(u8 *h, const u8 *m, size_t n)
{
    plain = 1, begin(), plain = 0;
    snprintf(curdesc, sizeof curdesc, "plain hash len=%zu", n);
    argp(h), argp(m), arg64(n);
    return done((void *)crypto_hash, "");
}
int main(int argc, char **argv)
{
    rseed(knob(argc, argv, "SEED", 1) * 1000003ull + knob(argc, argv, "SALT", 0));
    init_signals(0);
    watch_hang(40);
    long NR = knob(argc, argv, "NR", 300);
#if defined(__x86_64__)
    __builtin_cpu_init();
    A.zmm = __builtin_cpu_supports("avx512bw") && __builtin_cpu_supports("avx512vl");
    stat_add("zmm=%d ", (int)A.zmm);
#endif
    static u8 m[2100], ad[2100], c[2200], c2[2200], p[2200], h[32], h2[32];
    tcase t = { .m = m, .ad = ad };
    for (long i = 0; i < NR; i++) {
        t.mlen = i < 60 ? i : rsize_(2000), t.adlen = i < 60 ? i * 7 % 60 : rsize_(2000);
        secrets_fill(&t, rcls(), rcls()), fill(m, t.mlen, rcls()), fill(ad, t.adlen, rcls());
        ull l, l2;
        char what[80];
        /* what a plain call returns */
        p_enc(c, &l, &t);
        memset(c2, 0x5a, t.mlen + 16);
        l2 = len_garbage;
        begin();
        snprintf(what, sizeof what, "(stack moved by %lu, scratch registers %02x..)", (unsigned long)A.shift, A.vec[0]);
        describe("encrypt", &t, what);
        argp(c2), argp(&l2), argp(m), arg64(t.mlen), argp(ad), arg64(t.adlen), argp(0), argp(t.n), argp(t.k);
        int r = done((void *)crypto_aead_encrypt, what);
        count_case(case_hash(1, &t), 1);
        if (r || l2 != l || memcmp(c, c2, t.mlen + 16)) viol("abi-result", "depends on stale register contents or control words (returns %d, length %llu, first different byte %zu): %s", r, l2, first_diff(c, c2, t.mlen + 16), curdesc);
        /* genuine and forged */
        for (int bad = 0; bad < 2; bad++) {
            memcpy(c2, c, t.mlen + 16);
            if (bad) c2[rn(t.mlen + 16)] ^= 1 << rn(8);
            int r1 = p_dec(p, &l, c2, &t);
            static u8 q[2200];
            memset(q, 0x5a, t.mlen);
            l2 = len_garbage;
            begin();
            snprintf(what, sizeof what, "(stack moved by %lu, scratch registers %02x..)", (unsigned long)A.shift, A.vec[0]);
            describe(bad ? "reject" : "decrypt", &t, what);
            argp(q), argp(&l2), argp(0), argp(c2), arg64(t.mlen + 16), argp(ad), arg64(t.adlen), argp(t.n), argp(t.k);
            r = done((void *)crypto_aead_decrypt, what);
            count_case(case_hash(2 + bad, &t), 1);
            if (!r != !r1 || (!r1 && (l2 != l || memcmp(p, q, t.mlen)))) viol("abi-result", "depends on stale register contents or control words (returns %d, plainly %d): %s", r, r1, curdesc);
        }
        if (HAS_HASH) {
            int r1 = p_hash(h, m, t.mlen);
            begin();
            snprintf(curdesc, sizeof curdesc, "hash len=%zu (stack moved by %lu, scratch registers %02x..)", t.mlen, (unsigned long)A.shift, A.vec[0]);
            argp(h2), argp(m), arg64(t.mlen);
            memset(h2, 0x5a, 32);
            r = done((void *)crypto_hash, "");
            count_case(case_hash(9, &t), 1);
            if (r != r1 || memcmp(h, h2, 32)) viol("abi-result", "depends on stale register contents or control words: %s", curdesc);
        }
    }
    stat_add("trampoline_calls=%ld ", calls);
    sample("%.300s", curdesc);
    finish();
    return 0;
}
