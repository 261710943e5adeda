/* Monitors that run inside valgrind memcheck, on the release build.
 *   taint  : C10, secrets are marked undefined: memcheck reports every branch and address that depends on them
 *   uninit : C07, nothing is marked: memcheck reports branches and addresses that depend on uninitialised memory,
 *            and every output must be fully defined */
#include "engine.h"
#include <valgrind/memcheck.h>
#include <valgrind/valgrind.h>
static long knob(int argc, char **argv, const char *k, long d)
{
    size_t n = strlen(k);
    for (int i = 2; i < argc; i++) if (!strncmp(argv[i], k, n) && argv[i][n] == '=') return strtol(argv[i] + n + 1, 0, 0);
    return d;
}
static int AC;
static char **AV;
#define K(name, d) knob(AC, AV, name, d)
#define UNDEF(p, n) VALGRIND_MAKE_MEM_UNDEFINED(p, n)
#define DEF(p, n) VALGRIND_MAKE_MEM_DEFINED(p, n)
static tcase T;
static const int lens[][2] = { { 20, 5 }, { 0, 0 }, { 37, 19 }, { 1, 0 }, { 0, 9 }, { 64, 64 }, { 16, 16 }, { 100, 3 }, { 7, 40 }, { 150, 0 } };
static u8 KB[16], NB[16];
static void taint(void)
{
    long sets = K("SETS", 4), rej = K("REJ", 24), maxsites = 0;
    for (long s = 0; s < sets; s++) {
        size_t ml = s < 10 ? lens[s][0] : rsize_(300), al = s < 10 ? lens[s][1] : rsize_(300);
        T.mlen = ml, T.adlen = al;
        fill(T.n, 16, D_RAND), fill(T.ad, al, rcls()), fill(T.k, 16, D_RAND), fill(T.m, ml, rcls());
        memcpy(KB, T.k, 16), memcpy(NB, T.n, 16), memcpy(B_W, T.m, ml);
        describe("tainted", &T, "");
        ull l = 0;
        UNDEF(KB, 16), UNDEF(B_W, ml);
        unsigned before = VALGRIND_COUNT_ERRORS;
        int r = crypto_aead_encrypt(B_C, &l, B_W, ml, T.ad, al, 0, NB, KB);
        unsigned n = VALGRIND_COUNT_ERRORS - before;
        DEF(&r, sizeof r), DEF(&l, sizeof l), DEF(KB, 16), DEF(B_W, ml), DEF(B_C, ml + 16);
        count_case(case_hash(1, &T), 1);
        if (n) viol("secret-dependent", "encryption executes %u branches or memory accesses that depend on the key or the plaintext, mlen=%zu adlen=%zu", n, ml, al);
        /* decryption: the verdict alone may depend on secrets */
        or_encrypt(ALG, B_C, T.m, ml, T.ad, al, T.n, T.k);
        unsigned ref = 0;
        for (long i = -1; i < rej; i++) {
            u8 save[16];
            memcpy(save, B_C + ml, 16);
            if (i >= 0) {
                if (i < 16) B_C[ml + i] ^= 1 + rn(255);
                else if (i < 20) for (int j = (int)(i - 16) * 5; j < 16; j++) B_C[ml + j] ^= 1 + rn(255);
                else fill(B_C + ml, 16, rcls());
            }
            UNDEF(KB, 16), UNDEF(B_C, ml + 16);
            before = VALGRIND_COUNT_ERRORS;
            r = crypto_aead_decrypt(B_P, &l, 0, B_C, ml + 16, T.ad, al, NB, KB);
            n = VALGRIND_COUNT_ERRORS - before;
            DEF(&r, sizeof r), DEF(&l, sizeof l), DEF(KB, 16), DEF(B_C, ml + 16), DEF(B_P, ml);
            memcpy(B_C + ml, save, 16);
            count_case(case_hash(2 + (int)i, &T), 1);
            if (n > maxsites) maxsites = n;
            if (n > 4) { viol("secret-dependent", "%s decryption executes %u branches or memory accesses that depend on the key, the message or the tag, mlen=%zu adlen=%zu", i < 0 ? "accepted" : "rejected", n, ml, al); break; }
            if (i == 0) ref = n;
            if (i > 0 && n != ref) { viol("secret-dependent", "rejected decryptions execute %u or %u secret-dependent branches depending on where the tags differ (tag difference number %ld), mlen=%zu adlen=%zu", ref, n, i, ml, al); break; }
        }
        if (s == 0) sample("encryption mlen=%zu adlen=%zu with key and plaintext marked: 0 reports; rejected decryptions: %u report(s) each (the verdict)", ml, al, ref);
    }
    stat_add("parameter_sets=%ld maxreports_decrypt=%ld ", sets, maxsites);
}
static void defcheck(const char *what, const u8 *p, size_t n)
{
    unsigned long o = (unsigned long)VALGRIND_CHECK_MEM_IS_DEFINED(p, n);
    if (o) viol("uninitialised-output", "%s: byte %ld of %zu depends on uninitialised memory: %s", what, (long)(o - (unsigned long)p), n, curdesc);
}
static long defd;
static void uninit(void)
{
    long NR = K("NR", 60), G = K("G", 10);
    unsigned before = VALGRIND_COUNT_ERRORS;
    for (long i = 0; i < NR + (G + 1) * (G + 1); i++) {
        size_t ml = i < NR ? rsize_(600) : (size_t)(i - NR) % (G + 1) * 4, al = i < NR ? rsize_(600) : (size_t)(i - NR) / (G + 1) * 4;
        if (i >= NR) ml += rn(4), al += rn(4);
        /* exactly sized heap blocks: memcheck also sees out-of-bounds accesses */
        u8 *m = malloc(ml), *ad = malloc(al), *c = malloc(ml + 16), *p = malloc(ml), *k = malloc(16), *n = malloc(16);
        ull *l = malloc(sizeof *l);
        fill(m, ml, rcls()), fill(ad, al, rcls()), fill(k, 16, rcls()), fill(n, 16, rcls());
        T.m = m, T.ad = ad, T.mlen = ml, T.adlen = al, memcpy(T.k, k, 16), memcpy(T.n, n, 16);
        describe("encrypt", &T, "");
        UNDEF(c, ml + 16), UNDEF(l, sizeof *l);
        int r = crypto_aead_encrypt(c, l, m, ml, ad, al, 0, n, k);
        defcheck("encryption return value", (u8 *)&r, sizeof r), defcheck("ciphertext", c, ml + 16), defcheck("ciphertext length", (u8 *)l, sizeof *l);
        DEF(&r, sizeof r), DEF(c, ml + 16);
        or_encrypt(ALG, c, m, ml, ad, al, n, k);
        for (int bad = 0; bad < 2; bad++) {
            describe("decrypt", &T, bad ? "forged" : "");
            if (bad) c[rn(ml + 16)] ^= 1 << rn(8);
            UNDEF(p, ml), UNDEF(l, sizeof *l);
            r = crypto_aead_decrypt(p, l, 0, c, ml + 16, ad, al, n, k);
            defcheck("decryption return value", (u8 *)&r, sizeof r);
            DEF(&r, sizeof r);
            if (r == 0) defcheck("plaintext", p, ml), defcheck("plaintext length", (u8 *)l, sizeof *l), defd++;
        }
        r = crypto_aead_decrypt(p, l, 0, c, rn(16), ad, al, n, k);
        defcheck("decryption return value", (u8 *)&r, sizeof r);
        count_case(case_hash(1, &T), ml || al);
#if HAS_HASH
        u8 *h = malloc(32);
        describe("hash", &T, "");
        r = crypto_hash(h, m, ml);
        defcheck("digest", h, 32), defcheck("hash return value", (u8 *)&r, sizeof r);
        free(h);
#endif
        free(m), free(ad), free(c), free(p), free(k), free(n), free(l);
        unsigned now = VALGRIND_COUNT_ERRORS;
        if (now != before) { viol("memcheck", "%u reports (branch or address depending on uninitialised memory, or invalid access) up to: %s", now - before, curdesc); before = now; }
    }
    sample("%.300s", curdesc);
    stat_add("outputs_fully_defined=%ld ", defd);
}
int main(int argc, char **argv)
{
    AC = argc, AV = argv;
    rseed(K("SEED", 1) * 1000003ull + K("SALT", 0));
    init_signals(0);
    xalloc(1 << 16);
    T.m = B_M, T.ad = B_AD;
    if (!RUNNING_ON_VALGRIND) die("not running under valgrind");
    if (argc > 1 && !strcmp(argv[1], "taint")) taint(); else uninit();
    finish();
    return 0;
}
