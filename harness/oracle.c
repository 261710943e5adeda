/* Executable model of ISAP v2.0 and Ascon-Hash, written from the specifications only:
 * a byte-string sponge over a generic permutation, no code shared with /repo. */
#if defined(__GNUC__) && !defined(__clang__) && !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
#pragma GCC optimize("O3") /* the model judges millions of calls */
#endif
#include "oracle.h"
#include <string.h>

typedef struct { int keccak, rate, n, sH, sB, sE, sK; } par_t;
static const par_t PAR[4] = {
    {0, 8, 40, 12, 1, 6, 12},   /* ISAP-A-128A */
    {0, 8, 40, 12, 12, 12, 12}, /* ISAP-A-128  */
    {1, 18, 50, 16, 1, 8, 8},   /* ISAP-K-128A */
    {1, 18, 50, 20, 12, 12, 12} /* ISAP-K-128  */
};

#define R64(x, n) (((x) >> (n)) | ((x) << (64 - (n))))
static void ascon_lanes(uint64_t x[5], int rounds) {
    for (int r = 12 - rounds; r < 12; r++) {
        x[2] ^= (uint64_t)(((15 - r) << 4) | r);
        uint64_t t[5];
        x[0] ^= x[4]; x[4] ^= x[3]; x[2] ^= x[1];
        for (int i = 0; i < 5; i++) t[i] = ~x[i] & x[(i + 1) % 5];
        for (int i = 0; i < 5; i++) x[i] ^= t[(i + 1) % 5];
        x[1] ^= x[0]; x[0] ^= x[4]; x[3] ^= x[2]; x[2] = ~x[2];
        x[0] ^= R64(x[0], 19) ^ R64(x[0], 28);
        x[1] ^= R64(x[1], 61) ^ R64(x[1], 39);
        x[2] ^= R64(x[2], 1) ^ R64(x[2], 6);
        x[3] ^= R64(x[3], 10) ^ R64(x[3], 17);
        x[4] ^= R64(x[4], 7) ^ R64(x[4], 41);
    }
}
static void ascon(uint8_t *s, int rounds) {
    uint64_t x[5];
    for (int i = 0; i < 5; i++) {
        x[i] = 0;
        for (int j = 0; j < 8; j++) x[i] = (x[i] << 8) | s[8 * i + j];
    }
    ascon_lanes(x, rounds);
    for (int i = 0; i < 5; i++)
        for (int j = 0; j < 8; j++) s[8 * i + j] = (uint8_t)(x[i] >> (56 - 8 * j));
}

static uint16_t rl16(uint16_t x, unsigned n) {
    n &= 15;
    return n ? (uint16_t)((x << n) | (x >> (16 - n))) : x;
}
/* Keccak-p[400, rounds]: FIPS 202 with w = 16; the last `rounds` of the 20 rounds. */
static void keccak_lanes(uint16_t a[25], int rounds) {
    static const uint64_t RC[20] = {
        0x0000000000000001ULL, 0x0000000000008082ULL, 0x800000000000808AULL, 0x8000000080008000ULL,
        0x000000000000808BULL, 0x0000000080000001ULL, 0x8000000080008081ULL, 0x8000000000008009ULL,
        0x000000000000008AULL, 0x0000000000000088ULL, 0x0000000080008009ULL, 0x000000008000000AULL,
        0x000000008000808BULL, 0x800000000000008BULL, 0x8000000000008089ULL, 0x8000000000008003ULL,
        0x8000000000008002ULL, 0x8000000000000080ULL, 0x000000000000800AULL, 0x800000008000000AULL};
    static const unsigned o[25] = {0, 1, 62, 28, 27, 36, 44, 6, 55, 20, 3, 10, 43,
                                   25, 39, 41, 45, 15, 21, 8, 18, 2, 61, 56, 14};
    uint16_t b[25], c[5], d[5];
    for (int r = 20 - rounds; r < 20; r++) {
        for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        for (int x = 0; x < 5; x++) d[x] = c[(x + 4) % 5] ^ rl16(c[(x + 1) % 5], 1);
        for (int i = 0; i < 25; i++) a[i] ^= d[i % 5];
        for (int y = 0; y < 5; y++)
            for (int x = 0; x < 5; x++) b[y + 5 * ((2 * x + 3 * y) % 5)] = rl16(a[x + 5 * y], o[x + 5 * y]);
        for (int y = 0; y < 5; y++)
            for (int x = 0; x < 5; x++)
                a[x + 5 * y] = b[x + 5 * y] ^ (uint16_t)(~b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]);
        a[0] ^= (uint16_t)RC[r];
    }
}
static void keccak(uint8_t *st, int rounds) {
    uint16_t a[25];
    for (int i = 0; i < 25; i++) a[i] = (uint16_t)(st[2 * i] | (st[2 * i + 1] << 8));
    keccak_lanes(a, rounds);
    for (int i = 0; i < 25; i++) { st[2 * i] = (uint8_t)a[i]; st[2 * i + 1] = (uint8_t)(a[i] >> 8); }
}
static void perm(const par_t *p, uint8_t *s, int rounds) {
    if (p->keccak) keccak(s, rounds); else ascon(s, rounds);
}
int or_rate(int alg) { return PAR[alg].rate; }

static void iv(const par_t *p, uint8_t out[8], int kind) {
    uint8_t v[8] = {(uint8_t)kind, 128, (uint8_t)(p->rate * 8), 1, (uint8_t)p->sH, (uint8_t)p->sB, (uint8_t)p->sE, (uint8_t)p->sK};
    memcpy(out, v, 8);
}
/* state for a permutation whose bits are addressed as a byte string: for Keccak the "first bit" of a
 * byte string is, as in the ISAP reference, the most significant bit of the byte. */
static void rk(const par_t *p, uint8_t *out, int outlen, int kind, const uint8_t y[16], const uint8_t *k) {
    uint8_t s[50] = {0};
    memcpy(s, k, 16);
    iv(p, s + 16, kind);
    perm(p, s, p->sK);
    /* byte 0, bit 7, is the top bit of Ascon's lane 0 and bit 7 of Keccak's; the lanes are unpacked once for all 127 steps */
    if (p->keccak) {
        uint16_t a[25];
        for (int i = 0; i < 25; i++) a[i] = (uint16_t)(s[2 * i] | (s[2 * i + 1] << 8));
        for (int i = 0; i < 127; i++) {
            a[0] ^= (uint16_t)(((y[i / 8] >> (7 - i % 8)) & 1) << 7);
            keccak_lanes(a, p->sB);
        }
        for (int i = 0; i < 25; i++) { s[2 * i] = (uint8_t)a[i]; s[2 * i + 1] = (uint8_t)(a[i] >> 8); }
    } else {
        uint64_t x[5];
        for (int i = 0; i < 5; i++) {
            x[i] = 0;
            for (int j = 0; j < 8; j++) x[i] = (x[i] << 8) | s[8 * i + j];
        }
        for (int i = 0; i < 127; i++) {
            x[0] ^= (uint64_t)((y[i / 8] >> (7 - i % 8)) & 1) << 63;
            ascon_lanes(x, p->sB);
        }
        for (int i = 0; i < 5; i++)
            for (int j = 0; j < 8; j++) s[8 * i + j] = (uint8_t)(x[i] >> (56 - 8 * j));
    }
    s[0] ^= (uint8_t)((y[15] & 1) << 7);
    perm(p, s, p->sK);
    memcpy(out, s, (size_t)outlen);
}
static void absorb(const par_t *p, uint8_t *s, const uint8_t *d, uint64_t len) {
    uint64_t i = 0;
    for (;;) {
        int j;
        for (j = 0; j < p->rate && i < len; j++) s[j] ^= d[i++];
        if (j < p->rate) s[j] ^= 0x80;
        perm(p, s, p->sH);
        if (j < p->rate) break;
    }
}
void or_mac(int alg, uint8_t tag[16], const uint8_t *c, uint64_t clen, const uint8_t *ad, uint64_t adlen,
            const uint8_t *n, const uint8_t *k) {
    const par_t *p = &PAR[alg];
    uint8_t s[50] = {0}, y[16], ka[16];
    memcpy(s, n, 16);
    iv(p, s + 16, 1);
    perm(p, s, p->sH);
    absorb(p, s, ad, adlen);
    s[p->n - 1] ^= 1;
    absorb(p, s, c, clen);
    memcpy(y, s, 16);
    rk(p, ka, 16, 2, y, k);
    memcpy(s, ka, 16);
    perm(p, s, p->sH);
    memcpy(tag, s, 16);
}
void or_stream(int alg, uint8_t *out, const uint8_t *in, uint64_t len, const uint8_t *n, const uint8_t *k) {
    const par_t *p = &PAR[alg];
    uint8_t s[50] = {0};
    rk(p, s, p->n - 16, 3, n, k);
    memcpy(s + p->n - 16, n, 16);
    for (uint64_t i = 0; i < len; i++) {
        if (i % (unsigned)p->rate == 0) perm(p, s, p->sE);
        out[i] = in[i] ^ s[i % (unsigned)p->rate];
    }
}
void or_encrypt(int alg, uint8_t *c, const uint8_t *m, uint64_t mlen, const uint8_t *ad, uint64_t adlen,
                const uint8_t *n, const uint8_t *k) {
    if (mlen) or_stream(alg, c, m, mlen, n, k);
    or_mac(alg, c + mlen, c, mlen, ad, adlen, n, k);
}
void or_hash(uint8_t out[32], const uint8_t *in, uint64_t len) {
    static const uint8_t ivh[8] = {0, 0x40, 0x0c, 0, 0, 0, 1, 0};
    par_t p = {0, 8, 40, 12, 0, 0, 0};
    uint8_t s[50] = {0};
    memcpy(s, ivh, 8);
    perm(&p, s, 12);
    absorb(&p, s, in, len);
    for (int i = 0; i < 4; i++) {
        if (i) perm(&p, s, 12);
        memcpy(out + 8 * i, s, 8);
    }
}
