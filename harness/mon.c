/* Behavioural monitors: mon MODE key=value...  (see the table in main) */
#include "engine.h"
#include <sched.h>
#include <sys/random.h>
#include <time.h>

static long knob(int argc, char **argv, const char *k, long d)
{
    size_t n = strlen(k);
    for (int i = 2; i < argc; i++) if (!strncmp(argv[i], k, n) && argv[i][n] == '=') return strtol(argv[i] + n + 1, 0, 0);
    return d;
}
static int AC;
static char **AV;
#define K(name, d) knob(AC, AV, name, d)

/* ------------------------------------------------------------------ conformity: C01, C02, C11, C13 */
typedef int (*chk)(const tcase *);
static tcase T;
static void go(chk f, size_t mlen, size_t adlen, int mc, int ac)
{
    if (mlen + 64 > xcap) mlen = xcap - 64;
    if (adlen + 64 > xcap) adlen = xcap - 64;
    T.mlen = mlen, T.adlen = adlen;
    fill(T.m, mlen, mc), fill(T.ad, adlen, ac);
    f(&T);
}
static void new_secrets(void) { secrets_fill(&T, rcls(), rcls()); }
static size_t sizes_seen[65];
static size_t rsize(size_t max)
{
    size_t b = rn(64 - __builtin_clzll((unsigned long long)max | 1) + 1), v = b ? ((size_t)1 << (b - 1)) + rn((size_t)1 << (b - 1)) : 0;
    if (v > max) v = rn(max + 1);
    return v;
}
/* a message whose ciphertext, or the state it leaves behind, is as structured as the message itself usually is */
static void go_ct(chk f, size_t mlen, size_t adlen, int cc, int ac)
{
    if (mlen + 64 > xcap) mlen = xcap - 64;
    if (adlen + 64 > xcap) adlen = xcap - 64;
    T.mlen = mlen, T.adlen = adlen;
    fill(T.m, mlen, cc), fill(T.ad, adlen, ac);
    or_stream(ALG, T.m, T.m, mlen, T.n, T.k);
    f(&T);
}
/* until the time is used up (or, when replayed, up to the call that failed) */
static double secs(void)
{
    struct timespec ts;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}
static void conform(chk f)
{
    long G = K("G", 36), W = K("W", 1100), P2 = K("P2", 16), NR = K("NR", 300), BULK = K("BULK", 1 << 20), KB = K("KB", 1), mass = 0;
    static const int dl[] = { -18, -17, -16, -9, -8, -7, -1, 0, 1, 2, 7, 8, 9, 17, 18 };
    T.m = B_M, T.ad = B_AD;
    sizes_seen[0] = 0;
    /* every single key and nonce bit: re-keying absorbs them one by one */
    if (KB)
        for (int i = 0; i < 128; i++)
            for (int v = 0; v < 3; v++) {
                memset(T.k, v == 2 ? 0xff : 0, 16), memset(T.n, v == 2 ? 0xff : 0, 16);
                (v == 0 ? T.k : T.n)[i / 8] ^= 1 << (i % 8);
                if (v == 2) T.k[15 - i / 8] ^= 1 << (i % 8);
                go(f, rn(20), rn(20), D_RAND, D_RAND);
            }
    /* all pairs of short lengths */
    for (long a = 0; a <= G; a++)
        for (long b = 0; b <= G; b++) new_secrets(), go(f, a, b, rcls(), rcls());
    /* long sweeps of each length */
    for (long a = 0; a <= W; a++) {
        new_secrets(), go(f, a, rn(24), rcls(), rcls());
        new_secrets(), go(f, rn(24), a, rcls(), rcls());
    }
    /* around powers of two and multiples of the block sizes */
    for (int k = 7; k <= P2; k++)
        for (unsigned d = 0; d < sizeof dl / sizeof *dl; d++) {
            size_t v = ((size_t)1 << k) + dl[d];
            new_secrets(), go(f, v, rn(20), D_RAND, D_RAND);
            new_secrets(), go(f, rn(20), v, D_RAND, D_RAND);
            if (k <= 12) new_secrets(), go(f, v, v, rcls(), rcls());
        }
    for (int i = 0; i < 40 && W >= 300; i++) { /* k * 2^j blocks */
        size_t v = or_rate(ALG) * ((size_t)(1 + rn(3)) << rn(P2 > 3 ? P2 - 3 : 1)) + rn(3) - 1;
        new_secrets(), go(f, i & 1 ? v : rn(9), i & 1 ? rn(9) : v, D_RAND, D_RAND);
    }
    /* random sizes, structured contents */
    for (long i = 0; i < NR; i++) {
        new_secrets();
        if (rn(16) == 0) memcpy(T.n, T.k, 16);
        go(f, rsize(K("RMAX", 6000)), rsize(K("RMAX", 6000)), rcls(), rcls());
    }
    /* chosen ciphertexts: blocks of zeros and other patterns where the MAC absorbs them */
    for (long i = 0; i <= G; i++) new_secrets(), go_ct(f, i, rn(20), D_ZERO, rcls()), new_secrets(), go_ct(f, i, rn(20), 1 + (int)rn(NDATA - 1), rcls());
    for (long i = 0; i < NR; i++) new_secrets(), go_ct(f, rsize(K("RMAX", 6000) / 4), rn(3) ? rn(20) : rsize(300), (int)rn(NDATA), rcls());
    /* both texts long */
    for (int k = 9; k <= P2 && W >= 60; k++) {
        size_t v = (size_t)1 << k;
        new_secrets(), go(f, v + rn(v), v + rn(v), D_RAND, D_RAND);
    }
    /* sheer number: what depends on a few bits of the inner state happens once in thousands of calls */
    double t0 = secs(), lim = K("MASS_MS", 0) / 1000.0;
    for (long i = 0; lim > 0 && i < 4000000; i++) {
        if (i % 16 == 0 && secs() - t0 > lim) break;
        secrets_fill(&T, D_RAND, D_RAND);
        size_t r = or_rate(ALG);
        int how = (int)rn(8);
        go(f, how == 0 ? 0 : how < 5 ? 1 + rn(8) : how < 7 ? rn(4 * r) : rsize(600), how & 1 ? rn(8) : how == 6 ? rsize(400) : 0, D_RAND, D_RAND);
        mass++;
    }
    if (BULK) { /* many blocks: counters and accumulated state */
        new_secrets(), go(f, BULK + 5 + rn(64), rn(9), D_RAND, D_RAND);
        new_secrets(), go(f, rn(9), BULK + 5 + rn(64), D_RAND, D_RAND);
    }
    sample("last case: %.300s", curdesc);
    if (mass) stat_add("mass_calls=%ld ", mass);
    stat_add("maxlen=%ld ", BULK > ((long)1 << P2) ? BULK : ((long)1 << P2));
}
static void conform_hash(void)
{
    long W = K("W", 1500), P2 = K("P2", 16), NR = K("NR", 300), BULK = K("BULK", 1 << 20);
    static const int dl[] = { -18, -17, -16, -9, -8, -7, -1, 0, 1, 2, 7, 8, 9, 17, 18 };
    for (long a = 0; a <= W; a++) fill(B_M, a, D_RAND), check_hash(B_M, a), fill(B_M, a, rcls()), check_hash(B_M, a);
    for (int c = 0; c < NDATA; c++)
        for (long a = 0; a <= 70; a++) fill(B_M, a, c), check_hash(B_M, a);
    for (int i = 0; i < 512; i++) memset(B_M, 0, 64), B_M[i / 8] = 1 << (i % 8), check_hash(B_M, 64);
    for (int k = 7; k <= P2; k++)
        for (unsigned d = 0; d < sizeof dl / sizeof *dl; d++) {
            size_t v = ((size_t)1 << k) + dl[d];
            fill(B_M, v, D_RAND), check_hash(B_M, v);
        }
    for (long i = 0; i < NR; i++) { size_t v = rsize(8192); fill(B_M, v, rcls()), check_hash(B_M, v); }
    double t0 = secs(), lim = K("MASS_MS", 0) / 1000.0;
    long mass = 0;
    for (long i = 0; lim > 0 && i < 4000000; i++) {
        if (i % 16 == 0 && secs() - t0 > lim) break;
        size_t v = rn(4) ? rn(40) : rn(4) ? rn(400) : rsize(20000);
        fill(B_M, v, D_RAND), check_hash(B_M, v), mass++;
    }
    if (mass) stat_add("mass_calls=%ld ", mass);
    if (BULK) fill(B_M, BULK + 64, D_RAND), check_hash(B_M, BULK + 5), check_hash(B_M, BULK + 16);
    sample("last case: %.200s", curdesc);
}

/* ------------------------------------------------------------------ C03 forgeries */
static long fg_kinds[32];
enum { F_TAGBIT, F_TAGBYTE, F_TAGCANCEL, F_TAGPERM, F_TAGCONST, F_TAGRAND, F_CBIT, F_CBYTE, F_ADBIT, F_ADLEN, F_NONCE, F_KEY, F_TRUNC, F_EXT, F_SHIFT, F_SWAP, F_ALG, F_N };
static const char *fg_name[] = { "tagbit", "tagbyte", "tagcancel", "tagperm", "tagconst", "tagrand", "cbit", "cbyte", "adbit", "adlen", "nonce", "key", "trunc", "extend", "shift", "swap", "otheralg" };
/* The genuine message forgeries are derived from. With own set it was produced by this implementation's encryption, and
   anything that differs from it in any of c, ad, n and k must be rejected (no reference to the specification); otherwise it
   was produced by the reference model, and the specification decides whether what is presented must be rejected. */
static struct { int own; const u8 *c, *ad, *n, *k; size_t clen, adlen; } orig;
static int same_as_orig(const u8 *c, size_t clen, const u8 *ad, size_t adlen, const u8 *n, const u8 *k)
{
    return clen == orig.clen && adlen == orig.adlen && !memcmp(c, orig.c, clen) && !memcmp(ad, orig.ad, adlen) && !memcmp(n, orig.n, 16) && !memcmp(k, orig.k, 16);
}
static void originate(int own, u8 *e, size_t ml, const u8 *ad, size_t al)
{
    static u8 gm_ad[1 << 21], on[16], ok[16];
    ull l = 0;
    if (own && al > sizeof gm_ad) own = 0;
    if (own) { incall = 1; crypto_aead_encrypt(e, &l, T.m, ml, ad, al, 0, T.n, T.k); incall = 0; }
    else or_encrypt(ALG, e, T.m, ml, ad, al, T.n, T.k);
    orig.own = own, orig.clen = ml + 16, orig.adlen = al;
    if (!own) return;
    static u8 gm_c[(1 << 21) + 16];
    if (ml > 1 << 21) { orig.own = 0; return; }
    memcpy(gm_c, e, ml + 16), memcpy(gm_ad, ad, al), memcpy(on, T.n, 16), memcpy(ok, T.k, 16);
    orig.c = gm_c, orig.ad = gm_ad, orig.n = on, orig.k = ok;
}
/* present (c,clen,ad,adlen,n,k) */
static void present(int kind, const u8 *c, size_t clen, const u8 *ad, size_t adlen, const u8 *n, const u8 *k, const char *what)
{
    u8 tag[16];
    if (clen < 16) return; /* C05 */
    if (orig.own) {
        if (same_as_orig(c, clen, ad, adlen, n, k)) return;
        memcpy(tag, orig.c + orig.clen - 16, 16);
    } else {
        or_mac(ALG, tag, c, clen - 16, ad, adlen, n, k);
        if (!memcmp(tag, c + clen - 16, 16)) return; /* happens to be genuine */
    }
    char a[40], b[40], t1[40], t2[40];
    snprintf(curdesc, sizeof curdesc, "forgery %s (%s%s): clen=%zu adlen=%zu key=%s nonce=%s tag=%s right tag=%s", fg_name[kind], orig.own ? "of its own encryption: " : "", what, clen, adlen,
             hex(a, k, 16, 16), hex(b, n, 16, 16), hex(t1, c + clen - 16, 16, 16), hex(t2, tag, 16, 16));
    ull mlen = len_garbage;
    incall = 1;
    int r = crypto_aead_decrypt(B_P, &mlen, 0, c, clen, ad, adlen, n, k);
    incall = 0;
    count_case(fnv(fnv(fnv(fnv(kind, c, clen), ad, adlen), n, 16), k, 16), 1);
    fg_kinds[kind]++;
    if (r == 0) viol("accepted", "%s", curdesc);
}
static void forge(void)
{
    long cases = K("CASES", 12), full = K("FULL", 1), bits = K("BITS", 64);
    T.m = B_M, T.ad = B_AD;
    for (long cs = 0; cs < cases; cs++) {
        static const int ml0[] = { 0, 1, 8, 15, 16, 18, 33, 64, 7, 17, 36, 100 }, al0[] = { 0, 5, 0, 8, 1, 18, 16, 3, 36, 0, 64, 9 };
        size_t ml = cs < 12 ? ml0[cs] : rsize(300), al = cs < 12 ? al0[cs] : rsize(300);
        secrets_fill(&T, cs & 3 ? D_RAND : rcls(), cs & 3 ? D_RAND : rcls());
        T.mlen = ml, T.adlen = al;
        fill(T.m, ml, D_RAND), fill(T.ad, al, D_RAND);
        u8 *e = B_EXP, *w = B_W;
        size_t cl = ml + 16;
        originate(cs % 3 == 2, e, ml, T.ad, al);
        char what[64];
#define RESET() memcpy(w, e, cl)
#define P_(kind, ...) (snprintf(what, sizeof what, __VA_ARGS__), present(kind, w, cl, T.ad, al, T.n, T.k, what))
        u8 *t = w + ml;
        /* every tag bit */
        for (int i = 0; i < 128; i++) RESET(), t[i / 8] ^= 1 << (i % 8), P_(F_TAGBIT, "bit %d", i);
        /* every value of every tag byte (one case is enough: the tag is uniform) */
        if (full && cs == 0)
            for (int i = 0; i < 16; i++)
                for (int x = 1; x < 256; x++) RESET(), t[i] ^= x, P_(F_TAGBYTE, "byte %d ^ %02x", i, x);
        else for (int i = 0; i < 16; i++) RESET(), t[i] ^= 1 + rn(255), P_(F_TAGBYTE, "byte %d", i);
        /* differences that cancel under xor folding, sums, carries, or only part of the tag being compared */
        for (int i = 0; i < 16; i++)
            for (int j = 0; j < i; j++) {
                if (!full && (i ^ j) != 1 && (i ^ j) != 2 && (i ^ j) != 4 && (i ^ j) != 8) continue;
                u8 x = 1 + rn(255), hi = 0x80;
                RESET(), t[i] ^= x, t[j] ^= x, P_(F_TAGCANCEL, "bytes %d,%d ^ %02x", i, j, x);
                RESET(), t[i] += x, t[j] -= x, P_(F_TAGCANCEL, "bytes %d+ %d- %02x", i, j, x);
                RESET(), t[i] ^= hi, t[j] ^= hi, P_(F_TAGCANCEL, "bytes %d,%d ^ 80", i, j);
                RESET(), t[i] = e[ml + j], t[j] = e[ml + i], P_(F_TAGPERM, "bytes %d,%d swapped", i, j);
            }
        RESET(); for (int i = 0; i < 16; i++) t[i] ^= 0x10; P_(F_TAGCANCEL, "all ^ 10");
        RESET(); for (int i = 0; i < 16; i++) t[i] ^= 0x80; P_(F_TAGCANCEL, "all ^ 80");
        RESET(); for (int i = 0; i < 16; i++) t[i] ^= 0xff; P_(F_TAGCANCEL, "all ^ ff");
        RESET(); for (int i = 0; i < 16; i++) t[i] ^= 0x01; P_(F_TAGCANCEL, "all ^ 01");
        for (int g = 0; g < 4; g++) { /* word-wise folding: 2 and 4 words, both endiannesses */
            u8 x[8]; fill(x, 8, D_RAND); x[0] |= 1;
            RESET(); for (int i = 0; i < 8; i++) t[i] ^= x[i], t[8 + i] ^= x[i]; P_(F_TAGCANCEL, "64-bit words ^ same");
            RESET(); for (int i = 0; i < 4; i++) t[4 * g + i] ^= x[i], t[4 * ((g + 1) & 3) + i] ^= x[i]; P_(F_TAGCANCEL, "32-bit words ^ same");
            RESET(); for (int i = 0; i < 8; i++) t[i] ^= x[i], t[15 - i] ^= x[i]; P_(F_TAGCANCEL, "mirrored ^ same");
            RESET(); fill(t + 4 * g, 4, D_RAND); P_(F_TAGRAND, "word %d random", g);
            RESET(); fill(t, 8, D_RAND); P_(F_TAGRAND, "left half"); RESET(); fill(t + 8, 8, D_RAND); P_(F_TAGRAND, "right half");
            RESET(); for (int i = g & 1; i < 16; i += 2) t[i] ^= 1 + rn(255); P_(F_TAGRAND, "every other byte");
            RESET(); for (int i = 0; i < 16; i++) if ((i & 3) == g) t[i] ^= 1 + rn(255); P_(F_TAGRAND, "bytes %d mod 4", g);
        }
        for (int x = 1; x < 16; x++) { RESET(); for (int i = 0; i < 16; i++) t[i] = e[ml + ((i + x) & 15)]; P_(F_TAGPERM, "rotated %d", x); }
        RESET(); for (int i = 0; i < 16; i++) t[i] = e[ml + 15 - i]; P_(F_TAGPERM, "reversed");
        RESET(); for (int i = 0; i < 16; i++) t[i] = e[ml + (i ^ 3)]; P_(F_TAGPERM, "32-bit byteswap");
        RESET(); for (int i = 0; i < 16; i++) t[i] = e[ml + (i ^ 7)]; P_(F_TAGPERM, "64-bit byteswap");
        RESET(); memset(t, 0, 16); P_(F_TAGCONST, "zero"); RESET(); memset(t, 0xff, 16); P_(F_TAGCONST, "ff");
        RESET(); memcpy(t, T.k, 16); P_(F_TAGCONST, "key"); RESET(); memcpy(t, T.n, 16); P_(F_TAGCONST, "nonce");
        for (int i = 0; i < 16; i++) RESET(), fill(t, 16, D_RAND), P_(F_TAGRAND, "random");
        for (int i = 0; i < 15; i++) { RESET(); fill(t + i + 1, 15 - i, D_RAND); P_(F_TAGRAND, "right in the first %d bytes", i + 1); }
        /* ciphertext body */
        for (size_t i = 0; i < ml * 8; i++) {
            if (i >= (size_t)bits && i < ml * 8 - bits && rn(ml / 4 + 1)) continue;
            RESET(), w[i / 8] ^= 1 << (i % 8), P_(F_CBIT, "bit %zu", i);
        }
        for (size_t i = 0; i + 1 < ml; i++) {
            u8 x = 1 + rn(255);
            RESET(), w[i] ^= x, w[i + 1 + rn(ml - i - 1)] ^= x, P_(F_CBYTE, "byte %zu", i);
            if (ml > 64 && i > 32 && i < ml - 32) i += rn(8);
        }
        if (ml > 1) { RESET(); memmove(w, e + 1, ml - 1), w[ml - 1] = e[0]; P_(F_CBYTE, "rotated body"); }
        if (ml) { RESET(); fill(w, ml, D_ZERO); P_(F_CBYTE, "zero body"); RESET(), memcpy(w, T.m, ml), P_(F_CBYTE, "plaintext as body"); }
        for (size_t r = or_rate(ALG), i = 0; i + 2 * r <= ml; i += r) { RESET(); memcpy(w + i, e + i + r, r), memcpy(w + i + r, e + i, r); P_(F_CBYTE, "blocks %zu swapped", i); }
        /* associated data */
        static u8 ad2[4096];
        RESET();
        for (size_t i = 0; i < al * 8; i++) {
            if (i >= (size_t)bits && i < al * 8 - bits && rn(al / 4 + 1)) continue;
            memcpy(ad2, T.ad, al), ad2[i / 8] ^= 1 << (i % 8);
            snprintf(what, sizeof what, "ad bit %zu", i), present(F_ADBIT, w, cl, ad2, al, T.n, T.k, what);
        }
        for (size_t d = 1; d <= 20 && d <= al; d++) present(F_ADLEN, w, cl, T.ad, al - d, T.n, T.k, "ad truncated"), present(F_ADLEN, w, cl, T.ad + d, al - d, T.n, T.k, "ad beheaded");
        if (al) present(F_ADLEN, w, cl, T.ad, 0, T.n, T.k, "ad dropped");
        for (size_t d = 1; d <= 40; d++) {
            memcpy(ad2, T.ad, al), memset(ad2 + al, 0, d);
            present(F_ADLEN, w, cl, ad2, al + d, T.n, T.k, "ad zero-extended");
            ad2[al] = 0x80; present(F_ADLEN, w, cl, ad2, al + d, T.n, T.k, "ad extended by padding");
            fill(ad2 + al, d, D_RAND); present(F_ADLEN, w, cl, ad2, al + d, T.n, T.k, "ad extended");
        }
        /* nonce and key */
        for (int i = 0; i < 128; i++) {
            u8 x[16];
            memcpy(x, T.n, 16), x[i / 8] ^= 1 << (i % 8), snprintf(what, sizeof what, "bit %d", i), present(F_NONCE, w, cl, T.ad, al, x, T.k, what);
            memcpy(x, T.k, 16), x[i / 8] ^= 1 << (i % 8), present(F_KEY, w, cl, T.ad, al, T.n, x, what);
        }
        present(F_SWAP, w, cl, T.ad, al, T.k, T.n, "key and nonce swapped");
        /* lengths: truncation, extension, boundary moves */
        for (size_t d = 1; d <= 24 && cl >= d + 16; d++) {
            RESET(), present(F_TRUNC, w, cl - d, T.ad, al, T.n, T.k, "tail cut");
            present(F_TRUNC, w + d, cl - d, T.ad, al, T.n, T.k, "head cut");
            if (ml >= d) memcpy(w, e, ml - d), memcpy(w + ml - d, e + ml, 16), present(F_TRUNC, w, cl - d, T.ad, al, T.n, T.k, "body cut, tag kept");
        }
        for (size_t d = 1; d <= 24; d++) {
            RESET(), memset(w + cl, 0, d), present(F_EXT, w, cl + d, T.ad, al, T.n, T.k, "zero-extended");
            memcpy(w, e, ml), memset(w + ml, 0, d), memcpy(w + ml + d, e + ml, 16), present(F_EXT, w, cl + d, T.ad, al, T.n, T.k, "body zero-extended, tag kept");
            w[ml] = 0x80, present(F_EXT, w, cl + d, T.ad, al, T.n, T.k, "body padded, tag kept");
        }
        for (size_t d = 1; d <= 24; d++) {
            if (d <= ml) { /* first body bytes move to the end of the associated data */
                memcpy(ad2, T.ad, al), memcpy(ad2 + al, e, d);
                present(F_SHIFT, e + d, cl - d, ad2, al + d, T.n, T.k, "body head moved to ad");
            }
            if (d <= al) {
                memcpy(w, T.ad + al - d, d), memcpy(w + d, e, cl);
                present(F_SHIFT, w, cl + d, T.ad, al - d, T.n, T.k, "ad tail moved to body");
            }
        }
        if (ml != al) { memcpy(w, T.ad, al), memcpy(w + al, e + ml, 16), present(F_SWAP, w, al + 16, e, ml, T.n, T.k, "ad and body swapped"); }
        for (int a = 0; a < 4; a++) if (a != ALG) {
            or_encrypt(a, w, T.m, ml, T.ad, al, T.n, T.k), present(F_ALG, w, cl, T.ad, al, T.n, T.k, "other algorithm");
        }
        if (cs == 0 || cs == 5) sample("forgeries around mlen=%zu adlen=%zu, e.g. %.250s", ml, al, curdesc);
        orig.own = 0;
        /* a rejection must not make a later genuine message fail, nor the reverse */
        T.m = B_M; check_dec(&T);
    }
    /* large messages: differences far from both ends */
    for (long i = 0; i < K("BIG", 30); i++) {
        secrets_fill(&T, D_RAND, D_RAND);
        size_t ml = rsize(K("BIGMAX", 20000)), al = rsize(K("BIGMAX", 20000));
        T.mlen = ml, T.adlen = al, fill(T.m, ml, D_RAND), fill(T.ad, al, D_RAND);
        originate(i & 1, B_EXP, ml, T.ad, al);
        for (int j = 0; j < 4; j++) {
            memcpy(B_W, B_EXP, ml + 16);
            if (ml && (j & 1)) { size_t p = j == 1 ? rn(ml) : ml - 1 - rn(ml < 20 ? ml : 20); B_W[p] ^= 1 << rn(8); present(F_CBIT, B_W, ml + 16, T.ad, al, T.n, T.k, "large body"); }
            else if (al) { size_t p = j ? rn(al) : al - 1 - rn(al < 20 ? al : 20); T.ad[p] ^= 0x40; present(F_ADBIT, B_W, ml + 16, T.ad, al, T.n, T.k, "large ad"); T.ad[p] ^= 0x40; }
        }
        /* the boundary between associated data and body moved, lengths changed, at these sizes */
        static u8 *ad3, *w3;
        size_t r = or_rate(ALG), span = 2 * K("BIGMAX", 20000) + 256;
        if (!ad3) ad3 = malloc(span), w3 = malloc(span);
        size_t ds[] = { r, 1 + rn(8), 8 * (1 + rn(8)), r * (1 + rn(40)), 1 + rn(ml + 1), 1 + rn(al + 1), al - al % r, al, ml - ml % r };
        for (size_t x = 0; x < sizeof ds / sizeof *ds; x++) {
            size_t d = ds[x];
            if (d && d <= al) {
                memcpy(w3, T.ad + al - d, d), memcpy(w3 + d, B_EXP, ml + 16), present(F_SHIFT, w3, ml + 16 + d, T.ad, al - d, T.n, T.k, "ad tail moved to body");
                present(F_ADLEN, B_EXP, ml + 16, T.ad, al - d, T.n, T.k, "ad truncated");
            }
            if (d && d <= ml) {
                memcpy(ad3, T.ad, al), memcpy(ad3 + al, B_EXP, d), present(F_SHIFT, B_EXP + d, ml + 16 - d, ad3, al + d, T.n, T.k, "body head moved to ad");
                memcpy(w3, B_EXP, ml - d), memcpy(w3 + ml - d, B_EXP + ml, 16), present(F_TRUNC, w3, ml + 16 - d, T.ad, al, T.n, T.k, "body cut, tag kept");
            }
            if (d && d < 200) {
                memcpy(ad3, T.ad, al), memset(ad3 + al, 0, d), ad3[al] = 0x80, present(F_ADLEN, B_EXP, ml + 16, ad3, al + d, T.n, T.k, "ad extended by padding");
                memcpy(w3, B_EXP, ml), memset(w3 + ml, 0, d), w3[ml] = 0x80, memcpy(w3 + ml + d, B_EXP + ml, 16), present(F_EXT, w3, ml + 16 + d, T.ad, al, T.n, T.k, "body padded, tag kept");
            }
        }
    }
    /* The associated data and the body are each padded with 0x80 0* and absorbed one after the other: move the boundary to
       where the padding already stands in the associated data, so that the absorbed string is the same and only what
       separates the two tells the messages apart. */
    for (long i = 0; i < K("PADSHIFT", 40); i++) {
        secrets_fill(&T, D_RAND, D_RAND);
        size_t r = or_rate(ALG), max = i & 4 ? K("BIGMAX", 20000) : 400;
        size_t x = rsize(max), y = rsize(i & 2 ? max : 40), ml = rsize(max), xp = x + r - x % r, yp = y + r - y % r, al = xp + y;
        u8 *ad = malloc(al + 1), *w = malloc(yp + ml + 16);
        fill(T.m, ml, D_RAND), fill(ad, al, D_RAND), ad[x] = 0x80, memset(ad + x + 1, 0, xp - x - 1);
        T.mlen = ml;
        originate(i & 1, B_EXP, ml, ad, al);
        memcpy(w, ad + xp, y), w[y] = 0x80, memset(w + y + 1, 0, yp - y - 1), memcpy(w + yp, B_EXP, ml + 16);
        present(F_SHIFT, w, yp + ml + 16, ad, x, T.n, T.k, "boundary moved to padding inside the associated data");
        /* the other way: a genuine message whose body starts with the padded continuation */
        memset(T.m, 0, yp + ml), T.mlen = yp + ml;
        originate(i & 1, B_EXP, yp + ml, ad, x);
        for (size_t j = 0; j < yp; j++) T.m[j] = B_EXP[j] ^ (j < y ? ad[xp + j] : j == y ? 0x80 : 0);
        originate(i & 1, B_EXP, yp + ml, ad, x);
        present(F_SHIFT, B_EXP + yp, ml + 16, ad, al, T.n, T.k, "boundary moved past padding inside the body");
        free(ad), free(w);
    }
    orig.own = 0;
    for (int i = 0; i < F_N; i++) stat_add("k_%s=%ld ", fg_name[i], fg_kinds[i]);
}

/* ------------------------------------------------------------------ C05 short ciphertexts, C04 untouched output, C06 guards */
static slot_t sk, sn, sm, sad, sc, sh, sl;
static void slots(size_t cap)
{
    sk = slot_new(PG), sn = slot_new(PG), sm = slot_new(cap), sad = slot_new(cap), sc = slot_new(cap), sh = slot_new(PG), sl = slot_new(PG);
}
static void shortct(void)
{
    long reps = K("REPS", 6);
    slots(PG * 4);
    ull *lenp = (ull *)(sl.base + PG - sizeof(ull));
    long hits[16] = { 0 };
    for (long r = 0; r < reps; r++)
        for (int cl = 0; cl < 16; cl++)
            for (int al0 = 0; al0 < 9; al0++)
                for (int where = 0; where < 2; where++) {
                    size_t al = al0 < 5 ? (size_t)al0 * 4 : rsize(5000);
                    int cc = rcls();
                    slot_prot(&sc, 3), slot_prot(&sm, 3), slot_prot(&sad, 3), slot_prot(&sk, 3), slot_prot(&sn, 3);
                    u8 *c = slot_at(&sc, cl, where, 0), *ad = slot_at(&sad, al, where, 0);
                    u8 *k = slot_at(&sk, 16, where, 0), *n = slot_at(&sn, 16, where, 0);
                    fill(ad, al, rcls()), fill(k, 16, rcls()), fill(n, 16, rcls());
                    fill(c, cl, cc);
                    u8 full[16]; /* a prefix of the tag that the empty message would have */
                    if (r & 1) or_mac(ALG, full, 0, 0, ad, al, n, k), memcpy(c, full + (r & 2 ? 16 - cl : 0), cl);
                    slot_prot(&sc, PROT_READ), slot_prot(&sad, PROT_READ), slot_prot(&sk, PROT_READ), slot_prot(&sn, PROT_READ);
                    slot_prot(&sm, PROT_NONE); /* any access to the plaintext buffer faults */
                    u8 *m = r % 3 == 2 ? 0 : where ? sm.base : sm.base + sm.sz;
                    *lenp = len_garbage;
                    u8 *cp = cl == 0 && (r & 1) ? 0 : c, *ap = al == 0 && (r & 1) ? 0 : ad;
                    snprintf(curdesc, sizeof curdesc, "short ciphertext: clen=%d adlen=%zu buffers flush with %s guard page, c%s null", cl, al, where ? "leading" : "trailing", cp ? " not" : "");
                    incall = 1;
                    int ret = crypto_aead_decrypt(m, lenp, 0, cp, cl, ap, al, n, k);
                    incall = 0;
                    count_case(fnv(fnv(cl * 64 + al0 * 2 + where, ad, al), k, 16), 1);
                    hits[cl]++;
                    if (ret == 0) viol("short-accepted", "%s", curdesc);
                    slot_prot(&sad, 3), slot_prot(&sk, 3), slot_prot(&sn, 3);
                }
    sample("%.300s", curdesc);
    for (int i = 0; i < 16; i++) stat_add("clen%d=%ld ", i, hits[i]);
}
/* plaintext buffer write-protected while a forgery is presented: a write faults, even a transient one */
static void norelease(void)
{
    long n = K("CASES", 200), max = K("MAX", 3000), rej = 0, acc = 0;
    size_t cap = (max + 2 * PG) & ~(PG - 1);
    slots(cap);
    ull mlen;
    for (long i = 0; i < n; i++) {
        size_t ml = i < 80 ? (size_t)i : rsize(max), al = i % 3 ? rn(40) : rsize(300);
        slot_prot(&sm, 3), slot_prot(&sc, 3), slot_prot(&sad, 3);
        int where = i & 1 ? AT_END : AT_START;
        u8 *m = slot_at(&sm, ml, where, 0), *c = slot_at(&sc, ml + 16, where, 0), *ad = slot_at(&sad, al, where, 0);
        secrets_fill(&T, rcls(), rcls());
        fill(m, ml, rcls()), fill(ad, al, D_RAND);
        or_encrypt(ALG, c, m, ml, ad, al, T.n, T.k);
        int kind = i % 6;
        for (int f = 0; f < 9; f++) {
            u8 good[16];
            memcpy(good, c + ml, 16);
            slot_prot(&sm, 3);
            fill(m, ml, f & 1 ? D_RAND : D_ZERO);
            const char *what = "tag";
            T.m = m, T.mlen = ml, T.ad = ad, T.adlen = al;
            u8 *fp = 0, old = 0, msk = 0;
            if (f < 2) fp = c + ml + (f ? 15 : 0), msk = 1;
            else if (f == 2) fp = c + ml + rn(16), msk = 1 << rn(8), what = "tag bit";
            else if (f == 3 && ml) fp = c + rn(ml), msk = 1 << rn(8), what = "body bit";
            else if (f == 4 && ml) fp = c + ml - 1, msk = 0x80, what = "last body byte";
            else if (f == 5 && al) fp = ad + rn(al), msk = 1 << rn(8), what = "ad bit";
            else if (f == 6) fp = T.n + rn(16), msk = 1 << rn(8), what = "nonce bit";
            else if (f == 7) fp = T.k + rn(16), msk = 1 << rn(8), what = "key bit";
            else if (f == 8) fill(c + ml, 16, D_RAND), what = "random tag";
            if (fp) old = *fp, *fp ^= msk;
            else if (f != 8) continue;
            snprintf(curdesc, sizeof curdesc, "rejected message (%s) mlen=%zu adlen=%zu, plaintext buffer %s", what, ml, al, f & 4 ? "inaccessible" : "read-only");
            (void)kind;
            slot_prot(&sm, PROT_READ);
            incall = 1;
            int r = crypto_aead_decrypt(m, &mlen, 0, c, ml + 16, ad, al, T.n, T.k);
            incall = 0;
            rej += r != 0;
            count_case(case_hash(50 + f, &T), ml > 0);
            if (r == 0) viol("accepted", "%s", curdesc);
            if (fp) *fp = old;
            memcpy(c + ml, good, 16);
        }
        /* the same buffers must accept the genuine message, or the monitor watched nothing */
        slot_prot(&sm, 3);
        incall = 1;
        acc += crypto_aead_decrypt(m, &mlen, 0, c, ml + 16, ad, al, T.n, T.k) == 0;
        incall = 0;
    }
    sample("%.300s", curdesc);
    stat_add("rejected=%ld accepted_after=%ld ", rej, acc);
}

/* every buffer exactly sized against an inaccessible page, inputs read-only, canaries on the other side */
static long canary_hits;
static void canary_set(slot_t *s, u8 *p, size_t len)
{
    size_t a = p - s->base, b = s->sz - a - len;
    memset(s->base + (a > 96 ? a - 96 : 0), 0xC7, a > 96 ? 96 : a);
    memset(p + len, 0xC7, b > 96 ? 96 : b);
}
static int canary_bad(slot_t *s, u8 *p, size_t len)
{
    size_t a = p - s->base, b = s->sz - a - len;
    for (size_t i = 1; i <= a && i <= 96; i++) if (p[-(long)i] != 0xC7) return -(int)i;
    for (size_t i = 0; i < b && i < 96; i++) if (p[len + i] != 0xC7) return (int)i + 1;
    canary_hits++;
    return 0;
}
static int guard_own; /* ciphertexts of its own making: no time goes into the model */
static void guard_one(size_t ml, size_t al, int where, int dec, int bad)
{
    int w2 = rn(8) ? where : !where; /* mostly all at the same side */
    slot_prot(&sm, 3), slot_prot(&sc, 3), slot_prot(&sad, 3), slot_prot(&sk, 3), slot_prot(&sn, 3);
    u8 *m = slot_at(&sm, ml, where, 0), *c = slot_at(&sc, ml + 16, w2, 0), *ad = slot_at(&sad, al, where, 0);
    u8 *k = slot_at(&sk, 16, where, 0), *n = slot_at(&sn, 16, where, 0);
    ull *lenp = (ull *)(where == AT_END ? sl.base + PG - 8 : sl.base);
    canary_set(&sl, (u8 *)lenp, 8);
    fill(k, 16, rcls()), fill(n, 16, rcls()), fill(m, ml, rcls()), fill(ad, al, rcls());
    T.m = m, T.mlen = ml, T.ad = ad, T.adlen = al, memcpy(T.k, k, 16), memcpy(T.n, n, 16);
    if (!guard_own) or_encrypt(ALG, c, m, ml, ad, al, n, k);
    else if (dec) { ull l; describe("encrypt", &T, "guard pages around"); ro_range[0].n = ro_range[1].n = ro_range[2].n = ro_range[3].n = 0; incall = 1; crypto_aead_encrypt(c, &l, m, ml, ad, al, 0, n, k); incall = 0; }
    ro_range[0].p = ad, ro_range[0].n = al, ro_range[1].p = k, ro_range[1].n = 16, ro_range[2].p = n, ro_range[2].n = 16;
    ro_range[3].p = dec ? c : m, ro_range[3].n = dec ? ml + 16 : ml;
    char ex[100];
    snprintf(ex, sizeof ex, "buffers flush with %s guard pages%s", where == AT_END ? "trailing" : "leading", bad ? ", forged" : "");
    describe(dec ? "decrypt" : "encrypt", &T, ex);
    int r, x;
    u8 *np = n, *kp = k;
    *lenp = len_garbage;
    if (!dec) {
        fill(c, ml + 16, D_RAND), canary_set(&sc, c, ml + 16);
        slot_prot(&sm, PROT_READ), slot_prot(&sad, PROT_READ), slot_prot(&sk, PROT_READ), slot_prot(&sn, PROT_READ);
        incall = 1;
        r = crypto_aead_encrypt(c, lenp, m, ml, ad, al, 0, np, kp);
        incall = 0;
        if ((x = canary_bad(&sc, c, ml + 16))) viol("out-of-bounds-write", "ciphertext buffer, byte %d %s: %s", x < 0 ? -x : x, x < 0 ? "before it" : "after it", curdesc);
    } else {
        if (bad) c[rn(ml + 16)] ^= 1 << rn(8);
        fill(m, ml, D_RAND), canary_set(&sm, m, ml);
        slot_prot(&sc, PROT_READ), slot_prot(&sad, PROT_READ), slot_prot(&sk, PROT_READ), slot_prot(&sn, PROT_READ);
        incall = 1;
        r = crypto_aead_decrypt(m, lenp, 0, c, ml + 16, ad, al, np, kp);
        incall = 0;
        if ((x = canary_bad(&sm, m, ml))) viol("out-of-bounds-write", "plaintext buffer, byte %d %s: %s", x < 0 ? -x : x, x < 0 ? "before it" : "after it", curdesc);
    }
    (void)r;
    if ((x = canary_bad(&sl, (u8 *)lenp, 8))) viol("out-of-bounds-write", "length output: %s", curdesc);
    count_case(case_hash(dec + 2 * bad + 4 * where, &T), ml || al);
}
static void guard_hash(size_t len, int where)
{
    slot_prot(&sm, 3);
    u8 *m = slot_at(&sm, len, where, 0), *h = slot_at(&sh, 32, where, 0);
    fill(m, len, rcls());
    canary_set(&sh, h, 32);
    snprintf(curdesc, sizeof curdesc, "hash len=%zu flush with %s guard page", len, where == AT_END ? "trailing" : "leading");
    slot_prot(&sm, PROT_READ);
    incall = 1;
    crypto_hash(h, m, len);
    incall = 0;
    int x = canary_bad(&sh, h, 32);
    if (x) viol("out-of-bounds-write", "digest buffer: %s", curdesc);
    count_case(fnv(len * 2 + where, m, len), len > 0);
}
static void guard(void)
{
    long G = K("G", 20), W = K("W", 400), NR = K("NR", 200);
    slots((K("RMAX", 20000) + 2 * PG) & ~(PG - 1));
    for (int where = 0; where < 2; where++)
        for (int op = 0; op < 3; op++) {
            for (long a = 0; a <= G; a++) for (long b = 0; b <= G; b++) guard_one(a, b, where, op > 0, op == 2);
            for (long a = G; a <= W; a++) guard_one(a, rn(20), where, op > 0, op == 2), guard_one(rn(20), a, where, op > 0, op == 2);
            for (long i = 0; i < NR; i++) guard_one(rsize(K("RMAX", 20000)), rsize(K("RMAX", 20000)), where, op > 0, op == 2);
            for (int k = 9; k <= 14 && (1 << k) + 18 < K("RMAX", 20000); k++)
                for (int d = -18; d <= 18; d += W >= 300 ? 1 : 5) guard_one((1 << k) + d, rn(9), where, op > 0, op == 2), guard_one(rn(9), (1 << k) + d, where, op > 0, op == 2);
        }
    sample("%.300s", curdesc);
    /* lengths of all sizes and residues, for as long as there is time */
    double t0 = secs(), lim = K("MASS_MS", 0) / 1000.0;
    long mass = 0, r = or_rate(ALG), cap = K("RMAX", 20000);
    for (guard_own = 1; lim > 0 && secs() - t0 < lim; mass++) {
        size_t l[2];
        for (int j = 0; j < 2; j++) switch (rn(4)) {
            case 0: l[j] = rsize(cap); break;
            case 1: l[j] = r * rn(cap / r); break;
            case 2: l[j] = rn(cap < 8192 ? cap : 8192); break;
            default: l[j] = ((size_t)1 << rn(64 - __builtin_clzll(cap))) + rn(5) - 2;
            }
        for (int j = 0; j < 2; j++) if (l[j] > (size_t)cap) l[j] = rn(99);
        if (rn(4)) l[rn(2)] = rn(40);
        int op = (int)rn(3);
        guard_one(l[0], l[1], rn(4) == 0 ? !AT_END : AT_END, op > 0, op == 2);
        if (HAS_HASH && rn(3) == 0) guard_hash(l[0], AT_END);
    }
    guard_own = 0;
    stat_add("mass_calls=%ld ", mass);
    if (HAS_HASH)
        for (int where = 0; where < 2; where++) {
            for (long a = 0; a <= 2 * W; a++) guard_hash(a, where);
            for (long i = 0; i < NR; i++) guard_hash(rsize(K("RMAX", 20000)), where);
        }
    stat_add("canary_checks=%ld ", canary_hits);
}

/* ------------------------------------------------------------------ C08 purity */
/* A process forked before the first call answers what a call gives without any history. A result is a violation only
 * if it differs from that: a result that is wrong with and without history is another property's concern. */
#include <sys/wait.h>
typedef struct { int op, ret; ull len; size_t clen; tcase t; u8 out[3000], m[3000], ad[3000]; } zreq;
static zreq *zr;
static int zin[2], zout[2];
static long confirmed_foreign;
static int zcall(zreq *z, u8 *out)
{
    z->t.m = z->m, z->t.ad = z->ad;
    incall = 1;
    int r = z->op == 0 ? crypto_aead_encrypt(out, &z->len, z->m, z->t.mlen, z->ad, z->t.adlen, 0, z->t.n, z->t.k)
          : z->op == 4 ? crypto_hash(out, z->m, z->t.mlen)
          : crypto_aead_decrypt(out, &z->len, 0, z->m, z->clen, z->ad, z->t.adlen, z->t.n, z->t.k);
    incall = 0;
    return r;
}
static void zygote(void)
{
    zr = mmap(0, sizeof *zr, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (zr == MAP_FAILED || pipe(zin) || pipe(zout)) die("zygote");
    pid_t p = fork();
    if (p < 0) die("fork");
    if (p) { close(zin[0]), close(zout[1]); return; }
    close(zin[1]), close(zout[0]);
    char b;
    while (read(zin[0], &b, 1) == 1) {
        pid_t c = fork();
        if (!c) { signal(SIGSEGV, SIG_DFL), signal(SIGBUS, SIG_DFL), signal(SIGILL, SIG_DFL); zr->ret = zcall(zr, zr->out); _exit(7); }
        int st = 0;
        waitpid(c, &st, 0);
        b = WIFEXITED(st) && WEXITSTATUS(st) == 7;
        if (write(zout[1], &b, 1) != 1) break;
    }
    _exit(0);
}
/* op 0 encrypt, 1.. decrypt, 4 hash; in = message or ciphertext; the observed result is r, len, out[0..n) */
static void history(int op, const tcase *t, const u8 *in, size_t inlen, int r, ull len, const u8 *out, size_t n)
{
    zr->op = op, zr->t = *t, zr->clen = inlen, zr->len = len_garbage;
    if (inlen > 3000 - 16 || t->adlen > 3000 || n > 3000) return;
    memcpy(zr->m, in, inlen), memcpy(zr->ad, t->ad, t->adlen);
    memset(zr->out, 0xA5, sizeof zr->out);
    char b = 1;
    if (write(zin[1], &b, 1) != 1 || read(zout[0], &b, 1) != 1) die("zygote gone");
    if (b && !zr->ret == !r && (r || ((op == 4 || zr->len == len) && !memcmp(zr->out, out, n)))) { confirmed_foreign++; return; }
    viol("history", "return %d, %s without history %s: %s", r, r ? "rejected" : "other bytes written", b ? "the result differs" : "the call fails", curdesc);
}
/* inputs are compared with a copy after every call */
static tcase keep_;
static u8 keep_m[4096], keep_ad[4096];
static void keep_inputs(const tcase *t, const u8 *in, size_t n) { keep_ = *t, memcpy(keep_m, in, n), memcpy(keep_ad, t->ad, t->adlen); }
static void check_inputs(const tcase *t, const u8 *in, size_t n)
{
    if (memcmp(keep_.k, t->k, 16) || memcmp(keep_.n, t->n, 16) || memcmp(keep_m, in, n) || memcmp(keep_ad, t->ad, t->adlen))
        viol("input-write", "an input was modified: %s", curdesc);
}
static void pure_enc(const tcase *t)
{
    describe("encrypt in a history", t, "");
    or_encrypt(ALG, B_EXP, t->m, t->mlen, t->ad, t->adlen, t->n, t->k);
    fill(B_C, t->mlen + 16, rcls()), keep_inputs(t, t->m, t->mlen);
    ull l = len_garbage;
    incall = 1;
    int r = crypto_aead_encrypt(B_C, &l, t->m, t->mlen, t->ad, t->adlen, 0, t->n, t->k);
    incall = 0;
    count_case(case_hash(1, t), t->mlen || t->adlen);
    check_inputs(t, t->m, t->mlen);
    if (r || l != t->mlen + 16 || memcmp(B_C, B_EXP, t->mlen + 16)) history(0, t, t->m, t->mlen, r, l, B_C, t->mlen + 16);
}
static void pure_dec(const tcase *t)
{
    describe("decrypt in a history", t, "");
    or_encrypt(ALG, B_EXP, t->m, t->mlen, t->ad, t->adlen, t->n, t->k);
    fill(B_P, t->mlen, rcls()), keep_inputs(t, B_EXP, t->mlen + 16);
    ull l = len_garbage;
    incall = 1;
    int r = crypto_aead_decrypt(B_P, &l, 0, B_EXP, t->mlen + 16, t->ad, t->adlen, t->n, t->k);
    incall = 0;
    count_case(case_hash(2, t), t->mlen || t->adlen);
    check_inputs(t, B_EXP, t->mlen + 16);
    if (r || l != t->mlen || memcmp(B_P, t->m, t->mlen)) history(1, t, B_EXP, t->mlen + 16, r, l, B_P, t->mlen);
}
static void pure_hash(const u8 *in, size_t len)
{
    u8 a[32], e[32];
    static tcase z;
    snprintf(curdesc, sizeof curdesc, "hash of %zu bytes in a history", len);
    or_hash(e, in, len);
    fill(a, 32, rcls());
    incall = 1;
    int r = crypto_hash(a, in, len);
    incall = 0;
    count_case(fnv(fnv(77, in, len), &len, sizeof len), len > 0);
    z.mlen = len, z.ad = B_AD, z.adlen = 0;
    if (r || memcmp(a, e, 32)) history(4, &z, in, len, r, 0, a, 32);
}
static __attribute__((noinline)) void dirty_stack(int cls)
{
    volatile u8 b[16384];
    fill((u8 *)b, sizeof b, cls);
    __asm__ __volatile__("" ::"r"(b) : "memory");
}
/* a secret almost like an earlier one: what a result remembered under part of its inputs would be mistaken for */
static struct { u8 k[16], n[16]; } past[8];
static long related;
static void relative(tcase *t)
{
    int w = (int)rn(8);
    if (rn(4) == 0 && related > 8) memcpy(t->k, past[w].k, 16), memcpy(t->n, past[w].n, 16);
    memcpy(past[related & 7].k, t->k, 16), memcpy(past[related & 7].n, t->n, 16), related++;
    u8 *v = rn(2) ? t->n : t->k, x = 1 + rn(255);
    int i = (int)rn(16), j = (int)rn(16);
    switch (rn(7)) {
    case 0: v[i] ^= 1 << rn(8); break;
    case 1: v[i] ^= x; break;
    case 2: fill(v + i, 16 - i, D_RAND); break;
    case 3: fill(v, 1 + i, D_RAND); break;
    case 4: v[i] ^= x; if (j != i) v[j] ^= x; break; /* same exclusive-or */
    case 5: v[i] += x; if (j != i) v[j] -= x; break; /* same sum */
    case 6: { u8 b[16]; memcpy(b, t->k, 16); if (rn(2)) memcpy(t->k, t->n, 16), memcpy(t->n, b, 16); else { u8 c = v[i]; v[i] = v[j], v[j] = c; } }
    }
}
static void pure_step(int op, int dirty)
{
    size_t ml, al;
    switch (rn(6)) {
    case 0: ml = rn(20), al = rn(20); break;
    case 1: ml = rn(80), al = 0; break;
    case 2: ml = 0, al = rn(80); break;
    case 3: ml = rsize(300), al = rsize(300); break;
    default: ml = rn(40), al = rn(40);
    }
    int how = (int)rn(8);
    if (how < 2) secrets_fill(&T, rcls(), rcls());
    else if (how < 5) relative(&T); /* else the same key and nonce again: caches */
    int again = (int)rn(8);
    if (again == 0 && T.mlen && T.adlen + T.mlen) { if (rn(2)) T.m[rn(T.mlen)] ^= 1 << rn(8); else if (T.adlen) T.ad[rn(T.adlen)] ^= 1 << rn(8); } /* all but one bit the same */
    else {
        T.mlen = ml, T.adlen = al;
        if (rn(4)) fill(T.m, ml, rcls());
        if (rn(4)) fill(T.ad, al, rcls());
    }
    ml = T.mlen, al = T.adlen;
    if (dirty) dirty_stack(rcls());
    switch (op) {
    case 0: pure_enc(&T); break;
    case 1: pure_dec(&T); break;
    case 2: { /* rejected decryption in the history */
        or_encrypt(ALG, B_W, T.m, ml, T.ad, al, T.n, T.k);
        size_t p = rn(2) ? ml + rn(16) : rn(ml + 16);
        B_W[p] ^= 1 << rn(8);
        describe("decrypt-forged", &T, "");
        ull l = len_garbage;
        incall = 1;
        int r = crypto_aead_decrypt(B_P, &l, 0, B_W, ml + 16, T.ad, al, T.n, T.k);
        incall = 0;
        count_case(case_hash(3, &T), 1);
        if (r == 0) history(2, &T, B_W, ml + 16, r, l, B_P, ml);
        break;
    }
    case 3: { /* short ciphertext in the history */
        ull l = len_garbage;
        snprintf(curdesc, sizeof curdesc, "short ciphertext in a history");
        incall = 1;
        size_t sl_ = rn(16);
        int r = crypto_aead_decrypt(B_P, &l, 0, B_W, sl_, T.ad, al, T.n, T.k);
        incall = 0;
        count_case(rnd(), 1);
        if (r == 0) history(3, &T, B_W, sl_, r, l, B_P, 0);
        break;
    }
    default: pure_hash(T.m, ml);
    }
}
static void pure(void)
{
    zygote();
    long N = K("N", 3000), TINY = K("TINY", 70000), AL = K("ALIAS", 200);
    static const int ops[] = { 0, 0, 0, 1, 1, 1, 2, 2, 3, 4, 4 };
    long hist[5] = { 0 };
    T.m = B_M, T.ad = B_AD;
    secrets_fill(&T, D_RAND, D_RAND);
    fill(B_M, 4096, D_RAND), fill(B_AD, 4096, D_RAND);
    /* long mixed histories, dirty stacks */
    for (long i = 0; i < N; i++) {
        int op = ops[rn(11)];
        if (op == 4 && !HAS_HASH) op = rn(4);
        hist[op]++;
        pure_step(op, i & 1);
    }
    /* repetition: the same call again and again, and the same operation after every other */
    for (int a = 0; a < 5; a++)
        for (int b = 0; b < 5; b++)
            for (int j = 0; j < 6; j++) {
                if (!HAS_HASH && (a == 4 || b == 4)) continue;
                pure_step(a, 0), pure_step(b, 0), pure_step(b, 0);
                hist[a]++, hist[b] += 2;
            }
    /* inputs write-protected and sharing memory with one another */
    slots(PG * 2);
    for (long i = 0; i < AL; i++) {
        slot_prot(&sm, 3);
        fill(sm.base, sm.sz, rcls());
        slot_prot(&sm, PROT_READ);
        ro_range[0].p = sm.base, ro_range[0].n = sm.sz, ro_range[1].p = sc.base, ro_range[1].n = sc.sz;
        u8 *b = sm.base + rn(64);
        size_t ml = rn(120), al = rn(120);
        u8 *k = b + rn(i & 1 ? 4 : 64), *n = i & 2 ? k : b + rn(64), *m = b + (i & 4 ? 0 : rn(64)), *ad = i & 8 ? m : b + rn(64);
        or_encrypt(ALG, B_EXP, m, ml, ad, al, n, k);
        snprintf(curdesc, sizeof curdesc, "inputs overlap in read-only memory: key+%ld nonce+%ld m+%ld ad+%ld mlen=%zu adlen=%zu", (long)(k - b), (long)(n - b), (long)(m - b), (long)(ad - b), ml, al);
        ull l = len_garbage;
        incall = 1;
        int r = crypto_aead_encrypt(B_C, &l, m, ml, ad, al, 0, n, k);
        incall = 0;
        count_case(fnv(i, curdesc, strlen(curdesc)), 1);
        tcase A_ = { .m = m, .ad = ad, .mlen = ml, .adlen = al };
        memcpy(A_.k, k, 16), memcpy(A_.n, n, 16);
        if (r || l != ml + 16 || memcmp(B_C, B_EXP, ml + 16)) history(0, &A_, m, ml, r, l, B_C, ml + 16);
        /* ciphertext read-only too, overlapping the associated data */
        slot_prot(&sc, 3);
        u8 *c = sc.base + 64;
        or_encrypt(ALG, B_EXP, m, ml, (u8 *)B_W, 0, n, k);
        memcpy(c, B_EXP, ml + 16);
        size_t al2 = rn(ml + 1);
        u8 tag[16];
        or_mac(ALG, tag, c, ml, c, al2, n, k), memcpy(c + ml, tag, 16);
        slot_prot(&sc, PROT_READ);
        incall = 1;
        r = crypto_aead_decrypt(B_P, &l, 0, c, ml + 16, c, al2, n, k);
        incall = 0;
        A_.ad = c, A_.adlen = al2;
        if (r || l != ml || memcmp(B_P, m, ml)) history(1, &A_, c, ml + 16, r, l, B_P, ml);
        if (HAS_HASH) {
            u8 h1[32], h2[32];
            incall = 1, crypto_hash(h1, m, ml), incall = 0, or_hash(h2, m, ml);
            A_.adlen = 0;
            if (memcmp(h1, h2, 32)) history(4, &A_, m, ml, 0, 0, h1, 32);
        }
    }
    /* very many calls: counters and accumulated state. Tiny calls, a full check on a schedule */
    ull l;
    u8 c0[20], p0[20];
    tcase Q = { .m = B_M, .ad = B_AD, .mlen = 3, .adlen = 1 };
    secrets_fill(&Q, D_RAND, D_RAND), fill(B_M, 16, D_RAND), fill(B_AD, 16, D_RAND);
    u8 e0[20]; /* the first encryption is the reference; both directions must keep their first result */
    int rd0 = 0, re0;
    ull ld0 = 0, le0 = 0;
    or_encrypt(ALG, c0, Q.m, 3, Q.ad, 1, Q.n, Q.k);
    incall = 1;
    re0 = crypto_aead_encrypt(e0, &le0, Q.m, 3, Q.ad, 1, 0, Q.n, Q.k);
    rd0 = crypto_aead_decrypt(p0, &ld0, 0, c0, 19, Q.ad, 1, Q.n, Q.k);
    u8 q0[20], y0[20], z0[20];
    memcpy(q0, p0, 3);
    memcpy(y0, c0, 20), y0[7] ^= 16;
    ull lx;
    int rx0 = crypto_aead_decrypt(z0, &lx, 0, y0, 19, Q.ad, 1, Q.n, Q.k);
    incall = 0;
    /* encryptions, then genuine, then wrong ciphertexts, then all of them in turn: each more than 2^16 times where time permits */
    long reps[4] = { 0 };
    u8 x0[20], px[20];
    memcpy(x0, c0, 20), x0[7] ^= 16;
    memset(px, 0x5A, sizeof px);
    long budget = K("REPS_MS", 20000), bad = 0;
    for (int ph = 0; ph < 4 && !bad; ph++) {
        clock_t t0 = clock();
        for (long i = 0; i < (ph < 3 ? TINY : TINY / 4); i++) {
            int r, op = ph < 3 ? ph : (int)(i % 3);
            if (i % 256 == 255 && (clock() - t0) / (CLOCKS_PER_SEC / 1000) > budget) break;
            snprintf(curdesc, sizeof curdesc, "call number %ld of a run of identical calls (%s)", i, ph == 0 ? "encryption" : ph == 1 ? "decryption" : ph == 2 ? "rejected decryption" : "all in turn");
            l = len_garbage;
            incall = 1;
            if (op == 0) r = crypto_aead_encrypt(B_C, &l, Q.m, 3, Q.ad, 1, 0, Q.n, Q.k);
            else if (op == 1) r = crypto_aead_decrypt(p0, &l, 0, c0, 19, Q.ad, 1, Q.n, Q.k);
            else r = crypto_aead_decrypt(px, &l, 0, x0, 19, Q.ad, 1, Q.n, Q.k);
            incall = 0;
            if (op == 0 ? r != re0 || l != le0 || memcmp(B_C, e0, 19) : op == 1 ? r != rd0 || (!r && (l != ld0 || memcmp(p0, q0, 3))) : !r != !rx0) { viol("history", "wrong result at %s", curdesc), bad = 1; break; }
            st_eval++, reps[ph]++;
        }
    }
    if (HAS_HASH) {
        u8 h[32], e[32];
        crypto_hash(e, B_M, 5);
        for (long i = 0; i < TINY; i++) {
            incall = 1, crypto_hash(h, B_M, 5), incall = 0;
            st_eval++;
            if (memcmp(h, e, 32)) { viol("history", "wrong hash at call %ld of identical calls", i); break; }
        }
    }
    sample("%.250s", curdesc);
    close(zin[1]);
    if (confirmed_foreign) stat_add("wrong_without_history_too=%ld ", confirmed_foreign);
    stat_add("enc=%ld dec=%ld rejected=%ld short=%ld hash=%ld repeated_enc=%ld repeated_dec=%ld repeated_rejected=%ld ", hist[0], hist[1], hist[2], hist[3], hist[4], reps[0], reps[1], reps[2]);
}

/* ------------------------------------------------------------------ C07 results must not depend on stale stack contents */
static long dirty_runs;
static void dirty(void)
{
    static const int pat[] = { D_ZERO, D_ZERO, D_FF, D_RAND, D_HI, D_RAND };
    long NR = K("DN", 120);
    T.m = B_M, T.ad = B_AD;
    for (long i = 0; i < NR; i++) {
        T.mlen = i < 40 ? i : rsize(300), T.adlen = i < 40 ? rn(40) : rsize(300);
        fill(B_M, T.mlen, D_RAND), fill(B_AD, T.adlen, D_RAND), secrets_fill(&T, D_RAND, D_RAND);
        for (int op = 0; op < (HAS_HASH ? 4 : 3); op++) {
            static u8 first[8192], out[8192];
            ull l0 = 0;
            int r0 = 0;
            or_encrypt(ALG, B_W, B_M, T.mlen, B_AD, T.adlen, T.n, T.k);
            if (op == 2) B_W[rn(T.mlen + 16)] ^= 1 << rn(8);
            describe(op == 0 ? "encrypt on a dirty stack" : op == 3 ? "hash on a dirty stack" : "decrypt on a dirty stack", &T, "");
            size_t n = op == 0 ? T.mlen + 16 : op == 3 ? 32 : T.mlen;
            for (int p = 0; p < 6; p++) {
                memset(out, 0xA5, n);
                ull l = len_garbage;
                int r;
                dirty_stack(pat[p]);
                incall = 1;
                if (op == 0) r = crypto_aead_encrypt(out, &l, B_M, T.mlen, B_AD, T.adlen, 0, T.n, T.k);
                else if (op == 3) r = crypto_hash(out, B_M, T.mlen);
                else r = crypto_aead_decrypt(out, &l, 0, B_W, T.mlen + 16, B_AD, T.adlen, T.n, T.k);
                incall = 0;
                if (r && op) l = 0, memset(out, 0, n);
                count_case(case_hash(300 + op * 8 + p, &T), 1), dirty_runs++;
                if (!p) { r0 = r, l0 = l, memcpy(first, out, n); continue; }
                if (r != r0 || (op != 3 && l != l0) || memcmp(first, out, n)) {
                    if (p == 1) break; /* differs with the same stack contents: not this monitor's concern */
                    viol("uninitialised", "the result depends on what the stack held before the call: %s", curdesc);
                    break;
                }
            }
        }
    }
    stat_add("dirty_stack_runs=%ld ", dirty_runs);
}

/* ------------------------------------------------------------------ C12 placement */
static long al_combos, base_wrong;
/* the same call with every buffer at a 64-byte boundary: only a result that differs from this one is due to the placement */
static slot_t pk, pn, pm, pad_, pc_;
static void canon_init(void) { pk = slot_new(PG), pn = slot_new(PG), pm = slot_new(PG * 4), pad_ = slot_new(PG * 4), pc_ = slot_new(PG * 4); }
static int same_when_aligned(int dec, int r, ull l, const u8 *out, size_t on, const u8 *in, size_t il, const u8 *ad, size_t al, const u8 *n, const u8 *k)
{
    ull l2 = len_garbage;
    memcpy(pk.base, k, 16), memcpy(pn.base, n, 16), memcpy(pad_.base, ad, al);
    u8 *o = dec ? pm.base : pc_.base, *i = memcpy(dec ? pc_.base : pm.base, in, il);
    memset(o, 0xA5, on);
    incall = 1;
    int r2 = dec ? crypto_aead_decrypt(o, &l2, 0, i, il, pad_.base, al, pn.base, pk.base) : crypto_aead_encrypt(o, &l2, i, il, pad_.base, al, 0, pn.base, pk.base);
    incall = 0;
    if (!r2 == !r && (r || (l2 == l && !memcmp(o, out, on)))) { base_wrong++; return 1; }
    return 0;
}
static void place_at(u8 *m, size_t ml, u8 *ad, size_t al, u8 *c, u8 *k, u8 *n, int nulls, const char *how)
{
    fill(m, ml, D_RAND), fill(ad, al, D_RAND), fill(k, 16, D_RAND), fill(n, 16, D_RAND);
    or_encrypt(ALG, B_EXP, m, ml, ad, al, n, k);
    u8 *mp = m, *adp = ad;
    if (nulls && !ml) mp = 0;
    if (nulls && !al) adp = 0;
    snprintf(curdesc, sizeof curdesc, "placement%s: mlen=%zu adlen=%zu offsets mod 64: m %lu%s, ad %lu%s, c %lu, key %lu, nonce %lu; relative to c: m %+ld, ad %+ld, key %+ld, nonce %+ld", how, ml, al,
             (unsigned long)(size_t)m % 64, mp ? "" : " (null)", (unsigned long)(size_t)ad % 64, adp ? "" : " (null)",
             (unsigned long)(size_t)c % 64, (unsigned long)(size_t)k % 64, (unsigned long)(size_t)n % 64, (long)(m - c), (long)(ad - c), (long)(k - c), (long)(n - c));
    memset(c, 0xA5, ml + 16);
    ull l = len_garbage;
    incall = 1;
    int r = crypto_aead_encrypt(c, &l, mp, ml, adp, al, 0, n, k);
    incall = 0;
    if ((r || l != ml + 16 || memcmp(c, B_EXP, ml + 16)) && !same_when_aligned(0, r, l, c, ml + 16, m, ml, ad, al, n, k))
        viol("placement", "wrong encryption: %s", curdesc);
    memcpy(c, B_EXP, ml + 16), memcpy(B_W, m, ml);
    memset(m, 0xA5, ml);
    incall = 1;
    r = crypto_aead_decrypt(mp, &l, 0, c, ml + 16, adp, al, n, k);
    incall = 0;
    if ((r || l != ml || memcmp(m, B_W, ml)) && !same_when_aligned(1, r, l, m, ml, c, ml + 16, ad, al, n, k))
        viol("placement", "wrong decryption: %s", curdesc);
    c[ml + rn(16)] ^= 1 << rn(8);
    incall = 1;
    r = crypto_aead_decrypt(mp, &l, 0, c, ml + 16, adp, al, n, k);
    incall = 0;
    if (!r && !same_when_aligned(1, r, l, m, 0, c, ml + 16, ad, al, n, k)) viol("placement", "forgery accepted: %s", curdesc);
    count_case(fnv(7, curdesc, strlen(curdesc)), 1);
    al_combos++;
}
static void place_one(size_t ml, size_t al, unsigned om, unsigned oad, unsigned oc, unsigned ok, unsigned on, int nulls)
{
    place_at(sm.base + om, ml, sad.base + oad, al, sc.base + oc, sk.base + ok, sn.base + on, nulls, "");
}
/* all five buffers side by side in one region, in any order, mostly without a gap: the end of one is the start of the next */
static long packed;
static void place_packed(size_t ml, size_t al)
{
    static slot_t reg;
    if (!reg.base) reg = slot_new(PG * 4);
    size_t len[5] = { ml, al, ml + 16, 16, 16 };
    int o[5] = { 0, 1, 2, 3, 4 };
    u8 *at[5], *p = reg.base + rn(80);
    for (int i = 4; i > 0; i--) { int j = (int)rn(i + 1), t = o[i]; o[i] = o[j], o[j] = t; }
    for (int i = 0; i < 5; i++) at[o[i]] = p, p += len[o[i]] + (rn(6) ? 0 : rn(20));
    packed++;
    place_at(at[0], ml, at[1], al, at[2], at[3], at[4], 0, " side by side");
}
/* inputs that share memory with one another (never with the output) */
static void place_shared(size_t ml, size_t al)
{
    static slot_t reg;
    if (!reg.base) reg = slot_new(PG * 4);
    u8 *b = reg.base + rn(64), *c = sc.base + rn(64), *m = b, *ad, *k, *n;
    fill(b, ml + al + 64, D_RAND);
    ad = rn(3) ? b + rn(ml + 1) : b;
    k = rn(3) ? b + rn(ml + al + 1) : rn(2) ? ad : m, n = rn(4) ? b + rn(ml + al + 1) : k;
    if (!rn(4)) m = b + rn(al + 1), ad = b;
    if (!rn(4)) m = ad + al;
    if (ad + al > m && !rn(4)) m = ad;
    or_encrypt(ALG, B_EXP, m, ml, ad, al, n, k);
    snprintf(curdesc, sizeof curdesc, "placement, inputs sharing memory: mlen=%zu adlen=%zu; relative to m: ad %+ld, key %+ld, nonce %+ld", ml, al, (long)(ad - m), (long)(k - m), (long)(n - m));
    ull l = len_garbage;
    memset(c, 0xA5, ml + 16);
    incall = 1;
    int r = crypto_aead_encrypt(c, &l, m, ml, ad, al, 0, n, k);
    incall = 0;
    if ((r || l != ml + 16 || memcmp(c, B_EXP, ml + 16)) && !same_when_aligned(0, r, l, c, ml + 16, m, ml, ad, al, n, k))
        viol("placement", "wrong encryption: %s", curdesc);
    /* the same for decryption: the ciphertext may hold the associated data, the key and the nonce */
    u8 *p = sm.base + rn(64);
    size_t cl = ml + 16;
    ad = rn(3) ? b + rn(cl + 1) : b, k = rn(2) ? b + rn(cl + al + 1) : b, n = rn(2) ? k : b + rn(cl + al + 1);
    fill(b, cl + al + 64, D_RAND);
    for (int z = 0; z < 2; z++) { /* a random one, almost surely a forgery */
        u8 tag[16];
        or_mac(ALG, tag, b, ml, ad, al, n, k);
        int genuine = !memcmp(tag, b + ml, 16);
        snprintf(curdesc, sizeof curdesc, "placement, inputs sharing memory: clen=%zu adlen=%zu; relative to c: ad %+ld, key %+ld, nonce %+ld", cl, al, (long)(ad - b), (long)(k - b), (long)(n - b));
        incall = 1;
        r = crypto_aead_decrypt(p, &l, 0, b, cl, ad, al, n, k);
        incall = 0;
        if (genuine) or_stream(ALG, B_W, b, ml, n, k);
        if ((genuine ? r || l != ml || memcmp(p, B_W, ml) : !r) && !same_when_aligned(1, r, l, p, genuine ? ml : 0, b, cl, ad, al, n, k))
            viol("placement", "%s: %s", genuine ? "wrong decryption" : "forgery accepted", curdesc);
        /* a genuine one: only if nothing else reads the bytes of the tag */
#define OFF(x, len) ((x) + (len) <= b + ml || (x) >= b + cl)
        if (!OFF(ad, al) || !OFF(k, 16) || !OFF(n, 16)) break;
        memcpy(b + ml, tag, 16);
    }
    count_case(fnv(9, curdesc, strlen(curdesc)), 1);
    al_combos++;
}
static void place(void)
{
    long MAXO = K("MAXO", 64), NR = K("NR", 1500);
    static const int lens[] = { 0, 1, 7, 8, 9, 16, 17, 18, 19, 31, 36, 40, 64, 100 };
    slots(PG * 4), canon_init();
    /* every offset of every buffer, the others aligned to 64 */
    for (int b = 0; b < 5; b++)
        for (unsigned o = 0; o < (unsigned)MAXO; o++)
            for (int i = 0; i < 4; i++) {
                size_t ml = lens[rn(14)], al = lens[rn(14)];
                if (i == 0) ml = 40 + rn(9), al = 36 + rn(9);
                place_one(ml, al, b == 0 ? o : 0, b == 1 ? o : 0, b == 2 ? o : 0, b == 3 ? o : 0, b == 4 ? o : 0, 0);
            }
    /* all small offsets of text buffers jointly */
    for (int x = 0; x < 8; x++)
        for (int y = 0; y < 8; y++)
            for (int z = 0; z < 8; z++) place_one(rn(70), rn(70), x, z, y, rn(8), rn(8), 0);
    for (long i = 0; i < NR; i++) { /* anything, including page crossings */
        unsigned o[5];
        for (int j = 0; j < 5; j++) o[j] = rn(3) ? rn(64) : 4096 - rn(200);
        place_one(rsize(400), rsize(400), o[0], o[1], o[2], o[3] % 4000, o[4] % 4000, 0);
    }
    for (long i = 0; i < NR; i++) { /* side by side, and inputs in shared memory */
        place_packed(rn(3) ? rn(70) : rsize(1000), rn(3) ? rn(70) : rsize(1000));
        place_shared(rn(3) ? rn(70) : rsize(1000), rn(3) ? rn(70) : rsize(1000));
    }
    /* absent inputs */
    for (int i = 0; i < 40; i++) {
        place_one(0, 0, 0, 0, rn(16), rn(16), rn(16), 1);
        place_one(rn(60), 0, rn(16), 0, rn(16), rn(16), rn(16), 1);
        place_one(0, rn(60), 0, rn(16), rn(16), rn(16), rn(16), 1);
    }
    if (HAS_HASH) {
        u8 e[32];
        for (int o = 0; o < 64; o++)
            for (int ho = 0; ho < 16; ho++) {
                size_t len = ho == 0 ? 33 + rn(9) : rn(100);
                u8 *in = sm.base + (o & 1 ? o : 4096 - o), *h = sh.base + ho;
                fill(in, len, D_RAND), or_hash(e, in, len);
                snprintf(curdesc, sizeof curdesc, "placement: hash len=%zu in+%d out+%d", len, o, ho);
                u8 *ip = len == 0 && (o & 1) ? 0 : in;
                incall = 1;
                int r = crypto_hash(h, ip, len);
                incall = 0;
                count_case(fnv(8, curdesc, strlen(curdesc)), 1);
                if (r || memcmp(h, e, 32)) {
                    u8 *h2 = pk.base;
                    memcpy(pm.base, in, len);
                    int r2 = crypto_hash(h2, pm.base, len);
                    if (!r2 == !r && !memcmp(h, h2, 32)) base_wrong++;
                    else viol("placement", "wrong digest: %s", curdesc);
                }
            }
        or_hash(e, 0, 0);
        incall = 1;
        snprintf(curdesc, sizeof curdesc, "hash of a null pointer with length 0");
        int r = crypto_hash(sh.base, 0, 0);
        incall = 0;
        if (r || memcmp(sh.base, e, 32)) viol("placement", "wrong digest: %s", curdesc);
    }
    sample("%.300s", curdesc);
    stat_add("placements=%ld side_by_side=%ld ", al_combos, packed);
    if (base_wrong) stat_add("wrong_everywhere=%ld ", base_wrong);
}

/* ------------------------------------------------------------------ C17 the declared interface */
#ifdef API_HDR
#include API_HDR
static long if_bits;
static int if_call(u8 *c, ull *cl, const u8 *m, size_t ml, const u8 *ad, size_t al, const u8 *ns, const u8 *n, const u8 *k)
{
    incall = 1;
    int r = crypto_aead_encrypt(c, cl, m, ml, ad, al, ns, n, k);
    incall = 0;
    return r;
}
static int if_open(u8 *m, ull *l, u8 *ns, const u8 *c, size_t cl, const u8 *ad, size_t al, const u8 *n, const u8 *k)
{
    incall = 1;
    int r = crypto_aead_decrypt(m, l, ns, c, cl, ad, al, n, k);
    incall = 0;
    return r;
}
static void iface(void)
{
    enum { KB = CRYPTO_KEYBYTES, NB = CRYPTO_NPUBBYTES, AB = CRYPTO_ABYTES };
    long NR = K("NR", 200), BITS = K("BITS", 6);
    static u8 c2[8192 + AB], m2[8192];
    slots(PG * 4);
    slot_t len = slot_new(PG), nsl = slot_new(PG);
    slot_prot(&nsl, PROT_NONE);
#ifdef CRYPTO_NSECBYTES
    if (CRYPTO_NSECBYTES) viol("interface", "a secret message number of %d bytes is declared, which ISAP does not have", (int)CRYPTO_NSECBYTES);
#endif
    for (long i = 0; i < NR; i++) {
        size_t ml = i < 40 ? (size_t)i : rsize(4000), al = i < 40 ? (size_t)(i * 7) % 41 : rsize(4000);
        /* every buffer has the declared size, at the end of its memory and then at its start */
        int where = i & 1 ? AT_START : AT_END;
        u8 *k = slot_at(&sk, KB, where, 0), *n = slot_at(&sn, NB, where, 0), *m = slot_at(&sm, ml, where, 0), *ad = slot_at(&sad, al, where, 0), *c = slot_at(&sc, ml + AB, where, 0), *lp;
        slot_prot(&sk, PROT_READ | PROT_WRITE), slot_prot(&sn, PROT_READ | PROT_WRITE), slot_prot(&sm, PROT_READ | PROT_WRITE), slot_prot(&sad, PROT_READ | PROT_WRITE);
        int hi = i < 40 ? D_RAND : rcls();
        fill(k, KB, hi), fill(n, NB, D_RAND), fill(m, ml, D_RAND), fill(ad, al, D_RAND);
        snprintf(curdesc, sizeof curdesc, "declared sizes (key %d, nonce %d, tag %d): mlen=%zu adlen=%zu, buffers exactly that large, at the %s of their memory", KB, NB, AB, ml, al, where == AT_END ? "end" : "start");
        /* two runs over different old contents: what differs afterwards was not written */
        ull l1 = len_garbage, l2 = 0;
        u8 a0 = (u8)rnd();
        memset(c, a0, ml + AB);
        int r1 = if_call(c, &l1, m, ml, ad, al, 0, n, k);
        memcpy(c2, c, ml + AB);
        memset(c, (u8)~a0, ml + AB);
        u8 *ns = i % 3 ? i % 3 == 1 ? nsl.base : (u8 *)16 : 0; /* never looked at */
        int r2 = if_call(c, &l2, m, ml, ad, al, ns, n, k);
        if (r1 || r2) viol("interface", "encryption returns %d, %d: %s", r1, r2, curdesc);
        if (l1 != ml + AB || l2 != ml + AB) viol("interface", "encryption reports %llu bytes where %zu are declared: %s", l1 != ml + AB ? l1 : l2, ml + AB, curdesc);
        if (memcmp(c, c2, ml + AB)) viol("interface", "ciphertext byte %zu of %zu is not written, or depends on the secret message number: %s", first_diff(c, c2, ml + AB), ml + AB, curdesc);
        /* the length output: eight bytes, not more */
        for (int e = 0; e < 2; e++) {
            lp = e ? len.base + 64 : len.base + len.sz - sizeof(ull);
            u8 g = (u8)rnd();
            memset(len.base, g, len.sz);
            if (e) if_call(c, (ull *)lp, m, ml, ad, al, 0, n, k); else if_open(m2, (ull *)lp, 0, c2, ml + AB, ad, al, n, k);
            ull v;
            memcpy(&v, lp, sizeof v);
            if (v != (e ? ml + AB : ml)) viol("interface", "length output %llu: %s", v, curdesc);
            memset(lp, g, sizeof v);
            for (size_t j = 0; j < len.sz; j++) if (len.base[j] != g) { viol("interface", "byte at %+ld of the length output is written: %s", (long)(len.base + j - lp), curdesc); break; }
        }
        /* decryption with the declared sizes */
        memcpy(c, c2, ml + AB), memcpy(m2, m, ml), memset(m, a0, ml);
        r1 = if_open(m, &l1, ns, c, ml + AB, ad, al, n, k);
        if (r1 || l1 != ml || memcmp(m, m2, ml)) viol("interface", "decryption returns %d, length %llu, plaintext %s: %s", r1, l1, memcmp(m, m2, ml) ? "wrong" : "right", curdesc);
        memset(m, (u8)~a0, ml);
        r1 = if_open(m, &l1, 0, c, ml + AB, ad, al, n, k);
        if (memcmp(m, m2, ml)) viol("interface", "plaintext byte %zu of %zu is not written: %s", first_diff(m, m2, ml), ml, curdesc);
        /* every bit of every declared input byte matters */
        struct { const char *w; u8 *p; size_t n; } in[4] = { { "key", k, KB }, { "nonce", n, NB }, { "associated data", ad, al }, { "message", m, ml } };
        for (int w = 0; w < 4; w++)
            for (size_t b = 0; b < in[w].n * 8; b++) {
                if (in[w].n > 20 || (w < 2 && i >= 2) || w >= 2) { /* a few, always in the first and last bytes */
                    long left = in[w].n * 8 - b;
                    if (rn(in[w].n * 8) >= (size_t)BITS && !(left <= 8 && b % 8 == rn(8))) continue;
                }
                in[w].p[b / 8] ^= 1 << (b % 8);
                r1 = if_call(c, &l1, m, ml, ad, al, 0, n, k);
                in[w].p[b / 8] ^= 1 << (b % 8);
                if_bits++;
                if (!memcmp(c + ml, c2 + ml, AB)) viol("interface", "bit %zu of the %zu bytes of %s does not change the tag: %s", b, in[w].n, in[w].w, curdesc);
                if (w < 2 && ml >= 16 && !memcmp(c, c2, ml)) viol("interface", "bit %zu of the %zu bytes of %s does not change the encrypted message: %s", b, in[w].n, in[w].w, curdesc);
            }
        /* every declared tag byte is compared */
        memcpy(c, c2, ml + AB);
        for (int j = 0; j < AB; j++) {
            u8 x = 1 << rn(8);
            c[ml + j] ^= x;
            if (!if_open(m, &l1, 0, c, ml + AB, ad, al, n, k)) viol("interface", "tag byte %d of the %d declared is not looked at: %s", j, AB, curdesc);
            c[ml + j] ^= x;
        }
        if (ml) memcpy(m, m2, ml);
        count_case(fnv(fnv(21, curdesc, strlen(curdesc)), k, KB < 64 ? KB : 64), 1);
#if HAS_HASH && defined(CRYPTO_BYTES)
        static u8 h2[CRYPTO_BYTES], h3[CRYPTO_BYTES];
        u8 *h = slot_at(&sh, CRYPTO_BYTES, where, 0);
        snprintf(curdesc, sizeof curdesc, "declared digest size %d: length %zu, buffers exactly that large, at the %s of their memory", (int)CRYPTO_BYTES, ml, where == AT_END ? "end" : "start");
        for (int e = 0; e < 2; e++) {
            u8 g = e ? (u8)~a0 : a0;
            memset(sh.base, g, sh.sz);
            incall = 1;
            r1 = crypto_hash(h, m, ml);
            incall = 0;
            memcpy(e ? h3 : h2, h, CRYPTO_BYTES), memset(h, g, CRYPTO_BYTES);
            if (r1) viol("interface", "hash returns %d: %s", r1, curdesc);
            for (size_t j = 0; j < sh.sz; j++) if (sh.base[j] != g) { viol("interface", "byte at %+ld of the digest is written: %s", (long)(sh.base + j - h), curdesc); break; }
        }
        if (memcmp(h2, h3, CRYPTO_BYTES)) viol("interface", "digest byte %zu of %d is not written: %s", first_diff(h2, h3, CRYPTO_BYTES), (int)CRYPTO_BYTES, curdesc);
        for (size_t b = 0; b < ml * 8; b++) {
            if (rn(ml * 8) >= (size_t)BITS && b != ml * 8 - 1) continue;
            m[b / 8] ^= 1 << (b % 8);
            incall = 1;
            r1 = crypto_hash(h, m, ml);
            incall = 0;
            m[b / 8] ^= 1 << (b % 8);
            if_bits++;
            if (!memcmp(h, h2, CRYPTO_BYTES)) viol("interface", "bit %zu of the message does not change the digest: %s", b, curdesc);
        }
        count_case(fnv(22, curdesc, strlen(curdesc)), 1);
#endif
    }
    stat_add("flipped_bits=%ld ", if_bits);
    sample("%.300s", curdesc);
}
#endif

/* ------------------------------------------------------------------ ambient: what a call could ask its surroundings (C08) */
#ifdef AMBIENT
static int amb;
static long asked;
#define ASKED (asked += incall, incall && amb)
#define VAL (amb == 1 ? 0 : amb == 2 ? 0x7fffffff : 1)
#define W0(t, f) t __real_##f(void); t __wrap_##f(void) { return ASKED ? (t)VAL : __real_##f(); }
W0(int, rand) W0(long, random) W0(long, lrand48) W0(long, mrand48) W0(int, getpid) W0(int, getppid) W0(int, getuid) W0(int, geteuid) W0(int, sched_getcpu) W0(long, clock)
char *__real_getenv(const char *); char *__wrap_getenv(const char *n) { return ASKED ? amb == 1 ? "0" : amb == 2 ? "1" : "/tmp" : __real_getenv(n); }
char *__real_secure_getenv(const char *); char *__wrap_secure_getenv(const char *n) { return ASKED ? amb == 1 ? "0" : amb == 2 ? "1" : "/tmp" : __real_secure_getenv(n); }
unsigned long __real_getauxval(unsigned long); unsigned long __wrap_getauxval(unsigned long t) { return ASKED ? amb == 1 ? 0 : amb == 2 ? ~0ul : 0 : __real_getauxval(t); }
long __real_sysconf(int); long __wrap_sysconf(int t) { return ASKED ? amb == 3 ? -1 : amb : __real_sysconf(t); }
time_t __real_time(time_t *); time_t __wrap_time(time_t *p) { if (!ASKED) return __real_time(p); if (p) *p = VAL; return VAL; }
int __real_clock_gettime(clockid_t, struct timespec *); int __wrap_clock_gettime(clockid_t c, struct timespec *t) { if (!ASKED) return __real_clock_gettime(c, t); t->tv_sec = VAL, t->tv_nsec = VAL & 0xffff; return 0; }
int __real_gettimeofday(struct timeval *, void *); int __wrap_gettimeofday(struct timeval *t, void *z) { if (!ASKED) return __real_gettimeofday(t, z); t->tv_sec = VAL, t->tv_usec = VAL & 0xffff; return 0; }
ssize_t __real_getrandom(void *, size_t, unsigned); ssize_t __wrap_getrandom(void *p, size_t n, unsigned f) { if (!ASKED) return __real_getrandom(p, n, f); memset(p, VAL, n); return n; }
int __real_getentropy(void *, size_t); int __wrap_getentropy(void *p, size_t n) { if (!ASKED) return __real_getentropy(p, n); memset(p, VAL, n); return 0; }
static void ambient(void)
{
    long N = K("N", 100);
    static u8 c[4][2200], p[4][2200], h[4][32], x[2200];
    T.m = B_M, T.ad = B_AD;
    for (long i = 0; i < N; i++) {
        int r[4][4];
        T.mlen = i < 40 ? i : rsize(2000), T.adlen = i < 40 ? i * 7 % 41 : rsize(2000);
        new_secrets(), fill(T.m, T.mlen, rcls()), fill(T.ad, T.adlen, rcls());
        size_t bit = rn((T.mlen + 16) * 8);
        describe("ambient", &T, "");
        for (amb = 0; amb < 4; amb++) {
            ull l;
            incall = 1;
            r[amb][0] = crypto_aead_encrypt(c[amb], &l, T.m, T.mlen, T.ad, T.adlen, 0, T.n, T.k);
            incall = 0;
            memcpy(x, c[0], T.mlen + 16), memset(p[amb], 0, T.mlen);
            incall = 1;
            r[amb][1] = crypto_aead_decrypt(p[amb], &l, 0, x, T.mlen + 16, T.ad, T.adlen, T.n, T.k);
            incall = 0;
            x[bit / 8] ^= 1 << bit % 8;
            incall = 1;
            r[amb][2] = crypto_aead_decrypt(B_P, &l, 0, x, T.mlen + 16, T.ad, T.adlen, T.n, T.k);
            if (HAS_HASH) r[amb][3] = crypto_hash(h[amb], T.m, T.mlen);
            incall = 0;
            if (!HAS_HASH) r[amb][3] = 0, memset(h[amb], 0, 32);
            if (!amb) continue;
            if (memcmp(r[amb], r[0], sizeof r[0]) || memcmp(c[amb], c[0], T.mlen + 16) || memcmp(p[amb], p[0], T.mlen) || memcmp(h[amb], h[0], 32))
                viol("ambient", "the result changes with what the system answers (environment %d: time, random numbers, environment variables, processor features): %s", amb, curdesc);
        }
        amb = 0;
        count_case(case_hash(77, &T), 1);
    }
    stat_add("questions_to_the_system=%ld ambient_cases=%ld ", asked, N);
}
#endif

/* ------------------------------------------------------------------ digest of all outputs, for build comparison (C13) */
static void selftest(void)
{
    T.m = B_M, T.ad = B_AD;
    new_secrets();
    for (int i = 0; i < 50; i++) go(check_enc, i, 50 - i, D_RAND, D_RAND), go(check_dec, i, 50 - i, D_RAND, D_RAND);
}

int main(int argc, char **argv)
{
    AC = argc, AV = argv;
    const char *mode = argc > 1 ? argv[1] : "";
    rseed(K("SEED", 1) * 1000003ull + K("SALT", 0));
    maxviol = K("MAXV", 3);
    init_signals(K("ALARM", 0));
    watch_hang(K("HANG", 40));
    xalloc((K("BULK", 1 << 20) > (1 << 18) ? K("BULK", 1 << 20) : (1 << 18)) * 2 + 65536);
    if (!strcmp(mode, "enc")) conform(check_enc);
    else if (!strcmp(mode, "dec")) conform(check_dec);
    else if (!strcmp(mode, "hash")) conform_hash();
    else if (!strcmp(mode, "all")) { conform(check_enc), conform(check_dec); if (HAS_HASH) conform_hash(); }
    else if (!strcmp(mode, "forge")) forge();
    else if (!strcmp(mode, "short")) shortct();
    else if (!strcmp(mode, "norelease")) norelease();
    else if (!strcmp(mode, "guard")) guard();
    else if (!strcmp(mode, "pure")) pure();
    else if (!strcmp(mode, "place")) place();
    else if (!strcmp(mode, "dirty")) dirty();
#ifdef API_HDR
    else if (!strcmp(mode, "iface")) iface();
#endif
#ifdef AMBIENT
    else if (!strcmp(mode, "ambient")) ambient();
#endif
    else if (!strcmp(mode, "mix")) { /* a bit of everything, for the sanitizers */
        conform(check_enc), conform(check_dec);
        if (HAS_HASH) conform_hash();
        shortct(), forge(), place(), dirty();
    }
    else if (!strcmp(mode, "self")) selftest();
    else die("unknown mode");
    finish();
    return 0;
}
