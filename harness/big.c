/* C14: lengths in full width.
 *   prefix : nominal lengths of 4 GiB and far more over a region of which only a prefix (and the tail) is accessible. An
 *            implementation that processes the whole input must run into the inaccessible part; one that has truncated the
 *            length returns. The output length, where already reported, must be exact.
 *   full   : really processes more than 4 GiB (one small file mapped over and over). All but the current part of each buffer
 *            is inaccessible, so the monitor sees which parts are visited: every part must be, and a wrapped
 *            index shows as parts that are visited again and again.
 *   value  : the same with ordinary memory, outputs judged by the model. */
#include "engine.h"
#include <time.h>
static int AC;
static char **AV;
static long long K(const char *k, long long d)
{
    size_t n = strlen(k);
    for (int i = 2; i < AC; i++) if (!strncmp(AV[i], k, n) && AV[i][n] == '=') return strtoll(AV[i] + n + 1, 0, 0);
    return d;
}
static sigjmp_buf jb;
typedef struct { u8 *base; ull len; const char *name; } region;
static region rg[3];
static u8 *fault_at;
static const char *opn[] = { "encryption, plaintext", "encryption, associated data", "decryption, ciphertext", "decryption, associated data", "hash, message" };
static tcase T;
static ull outlen;
static volatile ull *outp = &outlen;

/* ------------------------------------------------------------------ prefix */
static void on_prefix(int s, siginfo_t *si, void *u)
{
    (void)s, (void)u;
    if (!incall) return;
    fault_at = si->si_addr;
    incall = 0;
    siglongjmp(jb, 1);
}
#define PARTIAL (1ul << 28)
/* reserve len bytes of address space with an accessible prefix and tail */
static u8 *reserve(ull len, size_t pre)
{
    size_t sz = (size_t)(len + 2 * PG) & ~(PG - 1);
    if (sizeof(void *) == 4 && sz > PARTIAL) sz = PARTIAL; /* sequential processing stops here; the rest cannot be reserved */
    u8 *p = mmap(0, sz, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) return 0;
    mprotect(p, pre, PROT_READ | PROT_WRITE);
    size_t tail = (size_t)(len - 16) & ~(PG - 1);
    if (tail > pre && tail < sz) mprotect(p + tail, sz - tail, PROT_READ | PROT_WRITE);
    fill(p, pre, D_RAND);
    return p;
}
static void drop(u8 *p, ull len)
{
    size_t sz = (size_t)(len + 2 * PG) & ~(PG - 1);
    if (sizeof(void *) == 4 && sz > PARTIAL) sz = PARTIAL;
    if (p) munmap(p, sz);
}
static long faults, lens_ok, unres;
static void prefix_case(int op, ull L, size_t pre)
{
    ull Lb = L + 16;
    u8 *a = reserve(L, pre), *b = op == 0 || op == 2 ? reserve(Lb, pre + PG) : 0;
    if (!a || ((op == 0 || op == 2) && !b)) { drop(a, L), drop(b, Lb); unres++; return; }
    secrets_fill(&T, D_RAND, D_RAND);
    snprintf(curdesc, sizeof curdesc, "%s of nominally %llu bytes", opn[op], L);
    outlen = len_garbage, fault_at = 0;
    ull want = op == 0 ? L + 16 : op == 1 ? 3 + 16 : op == 2 ? L : 3;
    u8 h[32];
    int r = -99, returned = 0;
    fill(B_W, 64, D_RAND);
    if (!sigsetjmp(jb, 1)) {
        incall = 1;
        switch (op) {
        case 0: r = crypto_aead_encrypt(b, &outlen, a, L, B_AD, 5, 0, T.n, T.k); break;
        case 1: r = crypto_aead_encrypt(B_C, &outlen, B_W, 3, a, L, 0, T.n, T.k); break;
        case 2: r = crypto_aead_decrypt(a, &outlen, 0, b, Lb, B_AD, 5, T.n, T.k); break;
        case 3: r = crypto_aead_decrypt(B_P, &outlen, 0, B_W, 19, a, L, T.n, T.k); break;
        default: r = crypto_hash(h, a, L);
        }
        incall = 0, returned = 1;
    }
    count_case(fnv(op, &L, 8), 1);
    if (returned)
        viol("truncated", "%s: the call returned %d after reading no further than the first %zu bytes", curdesc, r, pre + PG);
    else {
        faults++;
        int in = (fault_at >= a && fault_at < a + L + PG) || (b && fault_at >= b && fault_at < b + Lb + PG);
        if (!in) viol("wild-access", "%s: access at %p, the buffers are at %p and %p", curdesc, (void *)fault_at, (void *)a, (void *)b);
    }
    if (op != 4) {
        ull o = *outp;
        if (o == want) lens_ok++;
        else if (o != len_garbage && o != 0) viol("length-truncated", "%s: reported output length %llu, exact is %llu", curdesc, o, want);
    }
    drop(a, L), drop(b, Lb);
}
static void prefix(void)
{
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_prefix, sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    sigaction(SIGSEGV, &sa, 0), sigaction(SIGBUS, &sa, 0);
    size_t pre = (size_t)K("PRE", 600 * 1024) & ~(PG - 1);
    fill(B_AD, 64, D_RAND);
    static ull L[64];
    int n = 0;
    if (sizeof(void *) == 8) {
        static const ull o[] = { 0, 1, 7, 16, 3000 };
        for (int i = 0; i < 5; i++) L[n++] = (1ull << 32) + o[i];
        for (int k = 33; k <= 45; k++) L[n++] = (1ull << k) + o[(k + K("SEED", 1)) % 5];
        L[n++] = 18ull << 32, L[n++] = (18ull << 32) + 7, L[n++] = (8ull << 32) + 8, L[n++] = (1ull << 31) + 5, L[n++] = 18ull << 31;
        L[n++] = (3ull << 32) + 11, L[n++] = (5ull << 32) + 2, L[n++] = (257ull << 32);
        for (int i = 0; i < K("RND", 6); i++) L[n++] = ((1 + rn(4000)) << 32) + rn(pre / 2);
    } else { /* the target's address space holds less than 4 GiB */
        L[n++] = 0x7ffff000, L[n++] = 0x80000000u, L[n++] = 0x80000005u, L[n++] = 0x90000000u, L[n++] = 0x10000007u, L[n++] = 0x40000010u;
    }
    for (int i = 0; i < n; i++)
        for (int op = 0; op < 4 + HAS_HASH; op++) {
            if (sizeof(void *) == 4 && op == 2 && L[i] > PARTIAL / 2) continue;
            prefix_case(op, L[i], pre);
        }
    sample("%s", curdesc);
    stat_add("nominal_lengths=%d ran_into_the_inaccessible_part=%ld output_length_exact=%ld unreservable=%ld ", n, faults, lens_ok, unres);
}

/* ------------------------------------------------------------------ full */
#define CH (1ul << 26)
typedef struct { u8 *base; ull len; int nch, open[4]; unsigned next; long visits[256]; const char *name; } big; /* the last four parts stay open */
static big bg[2];
static int nbg;
static const char *curop;
static void open_chunk(big *b, int c, int on)
{
    ull off = (ull)c * CH, n = b->len + PG - off < CH ? b->len + PG - off : CH;
    mprotect(b->base + off, (n + PG - 1) & ~(PG - 1), on ? PROT_READ | PROT_WRITE : PROT_NONE);
}
static void on_big(int s, siginfo_t *si, void *u)
{
    (void)s, (void)u;
    u8 *a = si->si_addr;
    for (int i = 0; i < nbg; i++) {
        big *b = &bg[i];
        if (a < b->base || a >= b->base + b->len) continue;
        int c = (int)((a - b->base) / CH);
        if (++b->visits[c] > 20) { /* a few passes, also interleaved ones, are normal */
            incall = 0;
            viol("index-wraps", "%s: part %d of %d of the %s is visited again and again", curop, c, b->nch, b->name);
            finish(), _exit(0);
        }
        int *o = &b->open[b->next++ & 3];
        if (*o >= 0) open_chunk(b, *o, 0);
        *o = c, open_chunk(b, c, 1);
        return;
    }
    incall = 0;
    viol("wild-access", "%s: access at %p, outside every buffer", curop, (void *)a);
    finish(), _exit(0);
}
static int memfd(void)
{
    char n[64];
    snprintf(n, sizeof n, "/dev/shm/isapbig.%d.XXXXXX", (int)getpid());
    int fd = memfd_create("isapbig", 0);
    if (fd < 0) { fd = mkstemp(n); if (fd >= 0) unlink(n); }
    if (fd < 0 || ftruncate(fd, CH)) die("no memory file");
    return fd;
}
static void big_new(big *b, ull len, const char *name)
{
    memset(b, 0, sizeof *b);
    b->len = len, b->name = name, b->nch = (int)((len + CH - 1) / CH), b->open[0] = b->open[1] = b->open[2] = b->open[3] = -1;
    b->base = mmap(0, (size_t)b->nch * CH + 2 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (b->base == MAP_FAILED) die("mmap");
    int fd = memfd();
    for (int i = 0; i < b->nch; i++)
        if (mmap(b->base + (size_t)i * CH, CH, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) die("mmap part");
    /* contents: the same for every implementation */
    uint64_t x = 88172645463325252ull;
    for (size_t i = 0; i < CH; i += 8) x ^= x << 13, x ^= x >> 7, x ^= x << 17, memcpy(b->base + i, &x, 8);
    close(fd);
    for (int i = 0; i < b->nch; i++) open_chunk(b, i, 0);
}
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void full(void)
{
    ull L = (1ull << 32) + (1 << 20) + 4099;
    int which = (int)K("OP", 1);
    double budget = (double)K("BUDGET", 60);
    for (int i = 0; i < 16; i++) T.k[i] = (u8)(i * 7 + 1), T.n[i] = (u8)(i * 11 + 3);
    memset(B_AD, 9, 64), memset(B_M, 7, 64);
    static const char *on[] = { "encryption of a 4 GiB plaintext", "encryption with 4 GiB of associated data", "decryption of a 4 GiB ciphertext", "", "hash of a 4 GiB message" };
    curop = on[which];
    snprintf(curdesc, sizeof curdesc, "%s", curop);
    /* would it fit? */
    size_t probe = 1 << 19;
    ull l;
    u8 h[32];
    double t = now();
    if (which == 0) crypto_aead_encrypt(B_C, &l, B_M, probe, B_AD, 5, 0, T.n, T.k);
    else if (which == 1) crypto_aead_encrypt(B_C, &l, B_W, 3, B_M, probe, 0, T.n, T.k);
    else crypto_hash(h, B_M, probe);
    t = now() - t;
    double need = t * ((double)L / probe);
    if (need > budget) {
        char b[100];
        snprintf(b, sizeof b, "K %s needs %.0f s\n", curop, need);
        emit(b), finish();
        return;
    }
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_big, sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    memset(B_W, 5, 64);
    if (which == 0) big_new(&bg[0], L, "plaintext"), big_new(&bg[1], L + 16, "ciphertext"), nbg = 2;
    else big_new(&bg[0], L, which == 1 ? "associated data" : "message"), nbg = 1;
    sigaction(SIGSEGV, &sa, 0);
    outlen = len_garbage;
    alarm((unsigned)(need * 6 + 120));
    int r;
    if (which == 0) r = crypto_aead_encrypt(bg[1].base, &outlen, bg[0].base, L, B_AD, 5, 0, T.n, T.k);
    else if (which == 1) r = crypto_aead_encrypt(B_C, &outlen, B_W, 3, bg[0].base, L, 0, T.n, T.k);
    else r = crypto_hash(h, bg[0].base, L);
    alarm(0);
    count_case(fnv(which, &L, 8), 1);
    long seen = 0;
    for (int i = 0; i < nbg; i++)
        for (int c = 0; c < bg[i].nch; c++) {
            if (!bg[i].visits[c]) { viol("truncated", "%s: part %d of %d of the %s was never touched", curop, c, bg[i].nch, bg[i].name); break; }
            seen++;
        }
    if (r) viol("big-return", "%s: returned %d", curop, r);
    ull want = which == 0 ? L + 16 : 19;
    if (which < 2 && outlen != want) viol("length-truncated", "%s: reported length %llu, exact is %llu", curop, outlen, want);
    char a[80], b[200];
    if (which == 1 || which == 4) {
        snprintf(b, sizeof b, "R %d %s\n", which, which == 1 ? hex(a, B_C, 19, 19) : hex(a, h, 32, 32));
        emit(b);
    }
    sample("%s: %llu bytes, %ld parts visited", curop, L, seen);
    stat_add("bytes_processed_in_4GiB_runs=%llu parts_visited=%ld ", L, seen);
    finish();
}
static void on_alrm(int s) { (void)s; viol("hang", "%s does not end", curop); finish(), _exit(0); }

/* ------------------------------------------------------------------ value: judged by the model */
static void value(void)
{
    ull L = (1ull << 32) + 1 + rn(100000);
    int which = (int)K("OP", 0);
    u8 *m = mmap(0, L + 64, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    u8 *c = which == 0 ? mmap(0, L + 64, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0) : 0;
    if (m == MAP_FAILED || c == MAP_FAILED) die("mmap");
    fill(m, L, D_RAND), secrets_fill(&T, D_RAND, D_RAND), fill(B_AD, 64, D_RAND), fill(B_M, 64, D_RAND);
    snprintf(curdesc, sizeof curdesc, "%s of %llu bytes", opn[which], L);
    u8 tag[16], e[64], h[32];
    ull l = len_garbage;
    int r;
    if (which == 0) { /* encrypt, judge the tag over what was written, decrypt in place of the plaintext and compare */
        uint64_t before = 0, after = 0, x;
        for (ull i = 0; i + 8 <= L; i += 8) memcpy(&x, m + i, 8), before = (before ^ x) * 0x100000001b3ull;
        incall = 1, r = crypto_aead_encrypt(c, &l, m, L, B_AD, 5, 0, T.n, T.k), incall = 0;
        if (r || l != L + 16) viol("big-return", "%s: returned %d, length %llu", curdesc, r, l);
        or_mac(ALG, tag, c, L, B_AD, 5, T.n, T.k);
        if (memcmp(tag, c + L, 16)) viol("big-value", "%s: wrong tag", curdesc);
        or_stream(ALG, c, c, L, T.n, T.k); /* the model decrypts */
        if (memcmp(c, m, L)) viol("big-value", "%s: wrong ciphertext at byte %zu", curdesc, first_diff(c, m, L));
        (void)before, (void)after;
    } else if (which == 1) {
        incall = 1, r = crypto_aead_encrypt(B_C, &l, B_M, 3, m, L, 0, T.n, T.k), incall = 0;
        or_encrypt(ALG, e, B_M, 3, m, L, T.n, T.k);
        if (r || l != 19 || memcmp(e, B_C, 19)) viol("big-value", "%s: returned %d, length %llu, %s output", curdesc, r, l, memcmp(e, B_C, 19) ? "wrong" : "right");
        m[L - 1 - rn(1000)] ^= 1 << rn(8);
        incall = 1, r = crypto_aead_decrypt(B_P, &l, 0, e, 19, m, L, T.n, T.k), incall = 0;
        if (r == 0) viol("big-value", "%s: a changed byte near the end has no influence", curdesc);
    } else {
        incall = 1, r = crypto_hash(h, m, L), incall = 0;
        or_hash(e, m, L);
        if (r || memcmp(h, e, 32)) viol("big-value", "%s: wrong digest", curdesc);
    }
    count_case(fnv(which, &L, 8), 1);
    sample("%s agrees with the model", curdesc);
    stat_add("bytes_judged_by_model=%llu ", L);
    finish();
}
int main(int argc, char **argv)
{
    AC = argc, AV = argv;
    rseed(K("SEED", 1) * 1000003ull + K("SALT", 0));
    maxviol = K("MAXV", 3);
    init_signals(0);
    xalloc(1 << 20);
    const char *mode = argc > 1 ? argv[1] : "";
    signal(SIGALRM, on_alrm);
    if (!strcmp(mode, "prefix")) prefix(), finish();
    else if (!strcmp(mode, "full")) full();
    else if (!strcmp(mode, "value")) value();
    else die("mode");
    return 0;
}
