/* Executable model of ISAP v2.0 and Ascon-Hash, written from the specifications only. */
#ifndef ORACLE_H
#define ORACLE_H
#include <stddef.h>
#include <stdint.h>
enum { ALG_A128A = 0, ALG_A128 = 1, ALG_K128A = 2, ALG_K128 = 3 };
void or_encrypt(int alg, uint8_t *c, const uint8_t *m, uint64_t mlen, const uint8_t *ad, uint64_t adlen,
                const uint8_t *n, const uint8_t *k);
void or_mac(int alg, uint8_t tag[16], const uint8_t *c, uint64_t clen, const uint8_t *ad, uint64_t adlen,
            const uint8_t *n, const uint8_t *k);
void or_stream(int alg, uint8_t *out, const uint8_t *in, uint64_t len, const uint8_t *n, const uint8_t *k);
void or_hash(uint8_t out[32], const uint8_t *in, uint64_t len);
int or_rate(int alg); /* bytes per block of the MAC and of the stream */
#endif
