/* Prints what the oracle computes for the inputs of the published known-answer files, in their order. */
#include "oracle.h"
#include <stdio.h>
#include <stdlib.h>
static void pr(const uint8_t *p, int n) { for (int i = 0; i < n; i++) printf("%02X", p[i]); puts(""); }
int main(int argc, char **argv)
{
    uint8_t b[1100], c[80];
    int alg = atoi(argv[1]);
    for (int i = 0; i < 1100; i++) b[i] = (uint8_t)i;
    if (alg == 4) { for (int n = 0; n <= 1024; n++) or_hash(c, b, n), pr(c, 32); return 0; }
    for (int m = 0; m <= 32; m++)
        for (int a = 0; a <= 32; a++) or_encrypt(alg, c, b, m, b, a, b, b), pr(c, m + 16);
    return argc > 9;
}
