/* Shared monitor engine: PRNG, guarded buffers, case descriptions, verdict output, oracle checks.
 * Output protocol (one line each, stdout):
 *   V <kind> <description>      a violation
 *   S <name>=<number> ...       counters
 *   X <text>                    a sample case
 * Exit 0: ran to the end (V lines decide), 3: harness failure. */
#ifndef ENGINE_H
#define ENGINE_H
#define _GNU_SOURCE
#include "oracle.h"
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
typedef unsigned char u8;
typedef unsigned long long ull;
int crypto_aead_encrypt(u8 *c, ull *clen, const u8 *m, ull mlen, const u8 *ad, ull adlen, const u8 *nsec,
                        const u8 *npub, const u8 *k);
int crypto_aead_decrypt(u8 *m, ull *mlen, u8 *nsec, const u8 *c, ull clen, const u8 *ad, ull adlen,
                        const u8 *npub, const u8 *k);
#if HAS_HASH
int crypto_hash(u8 *out, const u8 *in, ull inlen);
#else
static int crypto_hash(u8 *out, const u8 *in, ull inlen) { (void)out, (void)in, (void)inlen; return 1; }
#endif

/* ---------- harness code must not be instrumented by coverage/kasan hooks ---------- */
static uint64_t rs[4];
static uint64_t rnd(void)
{
    uint64_t r = ((rs[1] * 5) << 7 | (rs[1] * 5) >> 57) * 9, t = rs[1] << 17;
    rs[2] ^= rs[0], rs[3] ^= rs[1], rs[1] ^= rs[2], rs[0] ^= rs[3], rs[2] ^= t, rs[3] = rs[3] << 45 | rs[3] >> 19;
    return r;
}
static void rseed(uint64_t s)
{
    for (int i = 0; i < 4; i++) {
        s += 0x9e3779b97f4a7c15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull, z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        rs[i] = z ^ (z >> 31);
    }
}
static uint64_t rn(uint64_t n) { return n ? rnd() % n : 0; }
static size_t rsize_(size_t max)
{
    size_t b = rn(64 - __builtin_clzll((unsigned long long)max | 1) + 1), v = b ? ((size_t)1 << (b - 1)) + rn((size_t)1 << (b - 1)) : 0;
    return v > max ? (size_t)rn(max + 1) : v;
}

/* data classes: structured contents find data-dependent slips that uniform data cannot reach */
enum { D_RAND, D_ZERO, D_FF, D_BIT, D_REP, D_CNT, D_SPARSE, D_HI, NDATA };
static void fill(u8 *p, size_t n, int cls)
{
    size_t i;
    uint64_t x;
    switch (cls) {
    case D_ZERO: memset(p, 0, n); break;
    case D_FF: memset(p, 0xff, n); break;
    case D_BIT: memset(p, 0, n); if (n) x = rn(n * 8), p[x / 8] |= 1 << (x % 8); break;
    case D_REP: memset(p, (int)rnd(), n); break;
    case D_CNT: x = rnd(); for (i = 0; i < n; i++) p[i] = (u8)(x + i); break;
    case D_SPARSE: memset(p, 0, n); for (i = 0; n && i < 1 + n / 16; i++) x = rnd(), p[x % n] = (u8)(x >> 40); break;
    case D_HI: for (i = 0; i < n; i++) p[i] = rnd() & 1 ? 0x80 : 0x7f; break;
    default:
        for (i = 0; i + 8 <= n; i += 8) x = rnd(), memcpy(p + i, &x, 8);
        for (x = rnd(); i < n; i++) p[i] = (u8)x, x >>= 8;
    }
}
static int rcls(void) { int r = (int)rn(16); return r < NDATA ? r : D_RAND; }

/* ---------- verdicts ---------- */
static long nviol, maxviol = 3;
static char curdesc[768];
static volatile sig_atomic_t incall; /* inside the code under test; instrumentation hooks listen only then */
static void emit(const char *s) { size_t n = strlen(s); while (n) { ssize_t k = write(1, s, n); if (k <= 0) break; s += k, n -= k; } }
static void finish(void);
static void viol(const char *kind, const char *fmt, ...)
{
    static struct { char k[28]; int n; } seen[16];
    char b[2048];
    va_list ap;
    int q = 0;
    while (q < 15 && seen[q].k[0] && strncmp(seen[q].k, kind, 27)) q++;
    strncpy(seen[q].k, kind, 27);
    if (++nviol >= maxviol && seen[q].n >= 3) finish(), _exit(0);
    if (seen[q].n++ >= 3) return; /* three of a kind are enough */
    int n = snprintf(b, sizeof b, "V %s ", kind);
    va_start(ap, fmt);
    n += vsnprintf(b + n, sizeof b - n - 2, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof b - 2) n = sizeof b - 2;
    for (int i = 0; i < n; i++) if (b[i] == '\n') b[i] = ' ';
    b[n] = '\n', b[n + 1] = 0;
    emit(b);
    if (nviol >= maxviol) finish(), _exit(0);
}
static void die(const char *m) { emit("E "), emit(m), emit("\n"); _exit(3); }

/* ---------- statistics ---------- */
static long st_eval, st_nontriv, st_samples;
#define HSZ (1u << 18)
static uint64_t *hset;
static void count_case(uint64_t h, int nontrivial)
{
    st_eval++;
    if (!nontrivial) return;
    if (!hset) hset = calloc(HSZ, 8);
    if (!h) h = 1;
    uint32_t i = (uint32_t)(h * 0x9e3779b97f4a7c15ull >> 46);
    for (int t = 0; t < 64; t++, i = (i + 1) & (HSZ - 1)) {
        if (hset[i] == h) return;
        if (!hset[i]) { hset[i] = h; st_nontriv++; return; }
    }
    st_nontriv++;
}
static uint64_t fnv(uint64_t h, const void *p, size_t n)
{
    const u8 *b = p;
    if (n > 64) { /* both ends and the length identify a case well enough for counting */
        h = fnv(h, &n, sizeof n), h = fnv(h, b, 32), b += n - 32, n = 32;
    }
    for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ull;
    return h;
}
static void sample(const char *fmt, ...)
{
    if (st_samples >= 3) return;
    st_samples++;
    char b[600];
    va_list ap;
    va_start(ap, fmt);
    int n = snprintf(b, sizeof b, "X ");
    n += vsnprintf(b + n, sizeof b - n - 2, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof b - 2) n = sizeof b - 2;
    b[n] = '\n', b[n + 1] = 0;
    emit(b);
}
static char statbuf[1024];
static void stat_add(const char *fmt, ...)
{
    size_t n = strlen(statbuf);
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(statbuf + n, sizeof statbuf - n, fmt, ap);
    va_end(ap);
}
static void finish(void)
{
    char b[1200];
    snprintf(b, sizeof b, "S eval=%ld nontriv=%ld %s\n", st_eval, st_nontriv, statbuf);
    emit(b);
}

/* ---------- crash monitor ---------- */
static u8 altstack[1 << 16];
static void (*segv_hook)(int, siginfo_t *, void *);
static struct { const u8 *p; size_t n; } ro_range[8]; /* write-protected inputs: a fault inside is a write to an input */
static int in_ro(const void *a)
{
    for (int i = 0; i < 8; i++) if ((const u8 *)a >= ro_range[i].p && (const u8 *)a < ro_range[i].p + ro_range[i].n) return 1;
    return 0;
}
static void on_crash(int sig, siginfo_t *si, void *uc)
{
    if (segv_hook) segv_hook(sig, si, uc);
    char b[1200];
    snprintf(b, sizeof b, "V %s signal %d at address %p %s: %s\n", !incall ? "HARNESS" : in_ro(si->si_addr) ? "input-write" : "crash", sig, si->si_addr,
             incall ? "inside the call" : "in the harness", curdesc);
    emit(b);
    finish();
    _exit(incall ? 0 : 3);
}
static void on_alarm(int s) { (void)s; emit("T timeout "), emit(curdesc), emit("\n"); _exit(4); }
/* a call that does not end: several ticks of processor time inside one and the same case */
static long hang_limit, hang_ticks, hang_eval;
#define TICK 5
static void on_tick(int s)
{
    (void)s;
    if (!incall || hang_eval != st_eval) { hang_ticks = 0, hang_eval = st_eval; return; }
    if (++hang_ticks * TICK < hang_limit) return;
    char b[1200];
    snprintf(b, sizeof b, "V hang the call does not return within %ld s of processor time: %s\n", hang_ticks * TICK, curdesc);
    emit(b);
    finish();
    _exit(0);
}
static void watch_hang(long limit)
{
    struct itimerval it = { { TICK, 0 }, { TICK, 0 } };
    struct sigaction sa;
    static u8 st[1 << 16];
    stack_t ss = { .ss_sp = st, .ss_size = sizeof st }, old;
    if (!limit) return;
    if (!sigaltstack(0, &old) && (old.ss_flags & SS_DISABLE)) sigaltstack(&ss, 0);
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_tick, sa.sa_flags = SA_ONSTACK | SA_RESTART;
    hang_limit = limit;
    sigaction(SIGVTALRM, &sa, 0);
    setitimer(ITIMER_VIRTUAL, &it, 0);
}
static void init_signals(unsigned secs)
{
#ifndef NO_CRASH_MONITOR
    stack_t ss = { .ss_sp = altstack, .ss_size = sizeof altstack };
    sigaltstack(&ss, 0);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_crash, sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    sigaction(SIGSEGV, &sa, 0), sigaction(SIGBUS, &sa, 0), sigaction(SIGILL, &sa, 0), sigaction(SIGFPE, &sa, 0);
    sigaction(SIGABRT, &sa, 0);
#endif
    if (secs) signal(SIGALRM, on_alarm), alarm(secs);
}

/* ---------- guarded buffer slots: [guard][pages][guard] ---------- */
#define PG 4096ul
typedef struct { u8 *base; size_t sz; int prot; } slot_t;
static slot_t slot_new(size_t sz)
{
    slot_t s;
    sz = (sz + PG - 1) & ~(PG - 1);
    if (!sz) sz = PG;
    u8 *p = mmap(0, sz + 2 * PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) die("mmap");
    if (mprotect(p, PG, PROT_NONE) || mprotect(p + PG + sz, PG, PROT_NONE)) die("mprotect");
    s.base = p + PG, s.sz = sz, s.prot = PROT_READ | PROT_WRITE;
    return s;
}
static void slot_prot(slot_t *s, int prot)
{
    if (s->prot != prot && mprotect(s->base, s->sz, prot)) die("mprotect");
    s->prot = prot;
}
enum { AT_END, AT_START, AT_MID };
static u8 *slot_at(slot_t *s, size_t len, int where, unsigned mis)
{
    if (where == AT_END) return s->base + s->sz - len;
    if (where == AT_START) return s->base;
    return s->base + 128 + mis;
}

/* ---------- a test case ---------- */
typedef struct {
    u8 k[16], n[16];
    u8 *m, *ad;
    size_t mlen, adlen;
} tcase;
static char *hex(char *o, const u8 *p, size_t n, size_t max)
{
    size_t i, j = 0;
    for (i = 0; i < n && i < max; i++) j += sprintf(o + j, "%02x", p[i]);
    if (i < n) j += sprintf(o + j, "..");
    o[j] = 0;
    return o;
}
static void describe(const char *op, const tcase *t, const char *extra)
{
    char a[40], b[40], c[80], d[80];
    snprintf(curdesc, sizeof curdesc, "%s mlen=%zu adlen=%zu key=%s nonce=%s m=%s ad=%s %s", op, t->mlen, t->adlen,
             hex(a, t->k, 16, 16), hex(b, t->n, 16, 16), hex(c, t->m, t->mlen, 32), hex(d, t->ad, t->adlen, 32), extra);
}
static uint64_t case_hash(int op, const tcase *t)
{
    uint64_t h = 0xcbf29ce484222325ull + op;
    h = fnv(h, t->k, 16), h = fnv(h, t->n, 16), h = fnv(h, t->m, t->mlen), h = fnv(h, t->ad, t->adlen);
    return fnv(fnv(h, &t->mlen, sizeof t->mlen), &t->adlen, sizeof t->adlen);
}
static void secrets_fill(tcase *t, int kc, int nc) { fill(t->k, 16, kc), fill(t->n, 16, nc); }

#define MAXBUF ((size_t)1 << 26)
static size_t first_diff(const u8 *a, const u8 *b, size_t n) { size_t i = 0; while (i < n && a[i] == b[i]) i++; return i; }

/* The scratch buffers of the plain (unguarded) engine; slack on both sides absorbs out-of-bounds
 * accesses, which are another property's concern. */
static u8 *xbuf[6];
static size_t xcap;
static void xalloc(size_t cap)
{
    xcap = cap;
    for (int i = 0; i < 6; i++) {
        xbuf[i] = mmap(0, cap + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (xbuf[i] == MAP_FAILED) die("mmap");
        xbuf[i] += 2048;
    }
}
#define B_M xbuf[0]
#define B_AD xbuf[1]
#define B_C xbuf[2]   /* output of the implementation */
#define B_EXP xbuf[3] /* oracle */
#define B_P xbuf[4]   /* decrypted */
#define B_W xbuf[5]   /* work copy */

static ull len_garbage = 0xdeadbeefcafef00dull;
static int check_enc(const tcase *t)
{
    describe("encrypt", t, "");
    or_encrypt(ALG, B_EXP, t->m, t->mlen, t->ad, t->adlen, t->n, t->k);
    memset(B_C, 0xA5, t->mlen + 16 < 4096 ? t->mlen + 16 : 4096);
    if (t->mlen + 16 >= 4096) memset(B_C + t->mlen + 16 - 64, 0xA5, 64);
    ull clen = len_garbage;
    incall = 1;
    int r = crypto_aead_encrypt(B_C, &clen, t->m, t->mlen, t->ad, t->adlen, 0, t->n, t->k);
    incall = 0;
    count_case(case_hash(1, t), t->mlen || t->adlen);
    if (r) return viol("enc-return", "returned %d: %s", r, curdesc), 1;
    if (clen != t->mlen + 16) return viol("enc-length", "clen=%llu: %s", clen, curdesc), 1;
    if (memcmp(B_C, B_EXP, t->mlen + 16)) {
        size_t d = first_diff(B_C, B_EXP, t->mlen + 16);
        char a[40], b[40];
        size_t w = t->mlen + 16 - d < 16 ? t->mlen + 16 - d : 16;
        return viol("enc-value", "first wrong byte %zu of %zu: got %s, specified %s: %s", d, t->mlen + 16,
                    hex(a, B_C + d, w, 16), hex(b, B_EXP + d, w, 16), curdesc), 1;
    }
    return 0;
}
static int check_dec(const tcase *t)
{
    describe("decrypt", t, "");
    or_encrypt(ALG, B_EXP, t->m, t->mlen, t->ad, t->adlen, t->n, t->k);
    size_t n = t->mlen;
    memset(B_P, 0xA5, n < 4096 ? n : 4096);
    if (n >= 4096) memset(B_P + n - 64, 0xA5, 64);
    ull mlen = len_garbage;
    incall = 1;
    int r = crypto_aead_decrypt(B_P, &mlen, 0, B_EXP, t->mlen + 16, t->ad, t->adlen, t->n, t->k);
    incall = 0;
    count_case(case_hash(2, t), t->mlen || t->adlen);
    if (r) return viol("dec-return", "genuine ciphertext rejected with %d: %s", r, curdesc), 1;
    if (mlen != t->mlen) return viol("dec-length", "mlen=%llu: %s", mlen, curdesc), 1;
    if (memcmp(B_P, t->m, n)) {
        size_t d = first_diff(B_P, t->m, n);
        return viol("dec-value", "first wrong plaintext byte %zu of %zu (got %02x, want %02x): %s", d, n, B_P[d], t->m[d],
                    curdesc), 1;
    }
    return 0;
}
static int check_hash(const u8 *in, size_t len)
{
    u8 a[32], e[32];
    char x[80], y[80];
    snprintf(curdesc, sizeof curdesc, "hash len=%zu in=%s", len, hex(x, in, len, 32));
    or_hash(e, in, len);
    memset(a, 0xA5, 32);
    incall = 1;
    int r = crypto_hash(a, in, len);
    incall = 0;
    count_case(fnv(fnv(0x1234567, in, len), &len, sizeof len), len > 0);
    if (r) return viol("hash-return", "returned %d: %s", r, curdesc), 1;
    if (memcmp(a, e, 32)) return viol("hash-value", "digest %s, specified %s: %s", hex(x, a, 32, 32), hex(y, e, 32, 32), curdesc), 1;
    return 0;
}
#endif
