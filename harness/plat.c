/* A freestanding conformity monitor: runs an implementation against the model on processors for which no C library is
   installed (clang + lld build it, qemu's user emulation runs it). Same output protocol as engine.h. */
#include "oracle.h"
#include <stddef.h>
#include <stdint.h>
#include <string.h>
typedef unsigned char u8;
typedef unsigned long long ull;
int crypto_aead_encrypt(u8 *c, ull *clen, const u8 *m, ull mlen, const u8 *ad, ull adlen, const u8 *nsec, const u8 *npub, const u8 *k);
int crypto_aead_decrypt(u8 *m, ull *mlen, u8 *nsec, const u8 *c, ull clen, const u8 *ad, ull adlen, const u8 *npub, const u8 *k);
int crypto_hash(u8 *out, const u8 *in, ull inlen);

/* ---------------- system calls: write and exit */
#if defined(__x86_64__)
#define NR_write 1
#define NR_exit 60
static long sys3(long n, long a, long b, long c) { long r; __asm__ volatile("syscall" : "=a"(r) : "0"(n), "D"(a), "S"(b), "d"(c) : "rcx", "r11", "memory"); return r; }
#elif defined(__i386__)
#define NR_write 4
#define NR_exit 1
static long sys3(long n, long a, long b, long c) { long r; __asm__ volatile("int $0x80" : "=a"(r) : "0"(n), "b"(a), "c"(b), "d"(c) : "memory"); return r; }
#elif defined(__aarch64__)
#define NR_write 64
#define NR_exit 93
static long sys3(long n, long a, long b, long c) { register long x8 __asm__("x8") = n, x0 __asm__("x0") = a, x1 __asm__("x1") = b, x2 __asm__("x2") = c; __asm__ volatile("svc 0" : "+r"(x0) : "r"(x8), "r"(x1), "r"(x2) : "memory"); return x0; }
#elif defined(__arm__)
#define NR_write 4
#define NR_exit 1
static long sys3(long n, long a, long b, long c) { register long r7 __asm__("r7") = n, r0 __asm__("r0") = a, r1 __asm__("r1") = b, r2 __asm__("r2") = c; __asm__ volatile("svc 0" : "+r"(r0) : "r"(r7), "r"(r1), "r"(r2) : "memory"); return r0; }
#elif defined(__riscv)
#define NR_write 64
#define NR_exit 93
static long sys3(long n, long a, long b, long c) { register long a7 __asm__("a7") = n, a0 __asm__("a0") = a, a1 __asm__("a1") = b, a2 __asm__("a2") = c; __asm__ volatile("ecall" : "+r"(a0) : "r"(a7), "r"(a1), "r"(a2) : "memory"); return a0; }
#elif defined(__mips__)
#ifdef __mips64
#define NR_write 5001
#define NR_exit 5058
#else
#define NR_write 4004
#define NR_exit 4001
#endif
static long sys3(long n, long a, long b, long c) { register long v0 __asm__("$2") = n, a0 __asm__("$4") = a, a1 __asm__("$5") = b, a2 __asm__("$6") = c, a3 __asm__("$7"); __asm__ volatile("syscall" : "+r"(v0), "=r"(a3) : "r"(a0), "r"(a1), "r"(a2) : "memory", "$1", "$3", "$8", "$9", "$10", "$11", "$12", "$13", "$14", "$15", "$24", "$25"); return v0; }
#elif defined(__powerpc__)
#define NR_write 4
#define NR_exit 1
static long sys3(long n, long a, long b, long c) { register long r0 __asm__("r0") = n, r3 __asm__("r3") = a, r4 __asm__("r4") = b, r5 __asm__("r5") = c; __asm__ volatile("sc" : "+r"(r0), "+r"(r3), "+r"(r4), "+r"(r5) : : "memory", "cr0", "r6", "r7", "r8", "r9", "r10", "r11", "r12"); return r3; }
#elif defined(__s390x__)
#define NR_write 4
#define NR_exit 1
static long sys3(long n, long a, long b, long c) { register long r1 __asm__("r1") = n, r2 __asm__("r2") = a, r3 __asm__("r3") = b, r4 __asm__("r4") = c; __asm__ volatile("svc 0" : "+r"(r2) : "r"(r1), "r"(r3), "r"(r4) : "memory"); return r2; }
#elif defined(__loongarch__)
#define NR_write 64
#define NR_exit 93
static long sys3(long n, long a, long b, long c) { register long a7 __asm__("$a7") = n, a0 __asm__("$a0") = a, a1 __asm__("$a1") = b, a2 __asm__("$a2") = c; __asm__ volatile("syscall 0" : "+r"(a0) : "r"(a7), "r"(a1), "r"(a2) : "memory", "$t0", "$t1", "$t2", "$t3", "$t4", "$t5", "$t6", "$t7", "$t8"); return a0; }
#endif
_Noreturn void exit(int r) { for (;;) sys3(NR_exit, r, 0, 0); }

/* ---------------- the few library routines that compiled code refers to */
#ifdef __clang__
#define NOLOOP __attribute__((noinline, optnone))
#else
#define NOLOOP __attribute__((noinline, optimize("O1", "no-tree-loop-distribute-patterns")))
#endif
NOLOOP void *memcpy(void *restrict d, const void *restrict s, size_t n) { u8 *a = d; const u8 *b = s; while (n--) *a++ = *b++; return d; }
NOLOOP void *memmove(void *d, const void *s, size_t n) { u8 *a = d; const u8 *b = s; if (a < b) while (n--) *a++ = *b++; else while (n--) a[n] = b[n]; return d; }
NOLOOP void *memset(void *d, int c, size_t n) { u8 *a = d; while (n--) *a++ = (u8)c; return d; }
NOLOOP int memcmp(const void *x, const void *y, size_t n) { const u8 *a = x, *b = y; for (; n; n--, a++, b++) if (*a != *b) return *a - *b; return 0; }
NOLOOP int bcmp(const void *x, const void *y, size_t n) { return memcmp(x, y, n); }
NOLOOP void *memchr(const void *x, int c, size_t n) { const u8 *a = x; for (; n; n--, a++) if (*a == (u8)c) return (void *)a; return 0; }
NOLOOP size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
NOLOOP int strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (u8)*a - (u8)*b; }
_Noreturn void abort(void);
void *stdin, *stdout, *stderr;
int printf(const char *f, ...) { return 0; }
int fprintf(void *s, const char *f, ...) { return 0; }
int putchar(int c) { return c; }
int puts(const char *s) { return 0; }
void *__stack_chk_guard;
void __stack_chk_fail(void) { abort(); }
/* 64-bit helpers for 32-bit processors */
typedef union { uint64_t v; uint32_t w[2]; } w64;
#if __BYTE_ORDER__ == __ORDER_BIG_ENDIAN__
#define LO 1
#define HI 0
#else
#define LO 0
#define HI 1
#endif
NOLOOP uint64_t __ashldi3(uint64_t a, int b) { w64 x = { a }; if (b >= 32) x.w[HI] = x.w[LO] << (b - 32), x.w[LO] = 0; else if (b) x.w[HI] = x.w[HI] << b | x.w[LO] >> (32 - b), x.w[LO] <<= b; return x.v; }
NOLOOP uint64_t __lshrdi3(uint64_t a, int b) { w64 x = { a }; if (b >= 32) x.w[LO] = x.w[HI] >> (b - 32), x.w[HI] = 0; else if (b) x.w[LO] = x.w[LO] >> b | x.w[HI] << (32 - b), x.w[HI] >>= b; return x.v; }
NOLOOP int64_t __ashrdi3(int64_t a, int b) { w64 x = { (uint64_t)a }; uint32_t s = (uint32_t)((int32_t)x.w[HI] >> 31); if (b >= 32) x.w[LO] = (uint32_t)((int32_t)x.w[HI] >> (b - 32)), x.w[HI] = s; else if (b) x.w[LO] = x.w[LO] >> b | x.w[HI] << (32 - b), x.w[HI] = (uint32_t)((int32_t)x.w[HI] >> b); return (int64_t)x.v; }
NOLOOP static uint64_t divmod(uint64_t a, uint64_t b, uint64_t *rem) { uint64_t q = 0, r = 0; for (int i = 63; i >= 0; i--) { r = r + r + ((uint32_t)__lshrdi3(a, i) & 1); if (r >= b) { r -= b; q = q | __ashldi3(1, i); } } *rem = r; return q; }
NOLOOP uint64_t __udivdi3(uint64_t a, uint64_t b) { uint64_t r; return divmod(a, b, &r); }
NOLOOP uint64_t __umoddi3(uint64_t a, uint64_t b) { uint64_t r; divmod(a, b, &r); return r; }
NOLOOP uint64_t __muldi3(uint64_t a, uint64_t b) { uint64_t r = 0; for (int i = 0; i < 64; i++) { if ((uint32_t)a & 1) r += b; a = __lshrdi3(a, 1), b = __ashldi3(b, 1); } return r; }
#if defined(__arm__)
NOLOOP uint64_t __aeabi_llsl(uint64_t a, int b) { return __ashldi3(a, b); }
NOLOOP uint64_t __aeabi_llsr(uint64_t a, int b) { return __lshrdi3(a, b); }
NOLOOP void __aeabi_memcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); }
NOLOOP void __aeabi_memcpy4(void *d, const void *s, size_t n) { memcpy(d, s, n); }
NOLOOP void __aeabi_memcpy8(void *d, const void *s, size_t n) { memcpy(d, s, n); }
NOLOOP void __aeabi_memmove(void *d, const void *s, size_t n) { memmove(d, s, n); }
NOLOOP void __aeabi_memset(void *d, size_t n, int c) { memset(d, c, n); }
NOLOOP void __aeabi_memset4(void *d, size_t n, int c) { memset(d, c, n); }
NOLOOP void __aeabi_memset8(void *d, size_t n, int c) { memset(d, c, n); }
NOLOOP void __aeabi_memclr(void *d, size_t n) { memset(d, 0, n); }
NOLOOP void __aeabi_memclr4(void *d, size_t n) { memset(d, 0, n); }
NOLOOP void __aeabi_memclr8(void *d, size_t n) { memset(d, 0, n); }
NOLOOP unsigned __aeabi_uidiv(unsigned a, unsigned b) { unsigned q = 0, r = 0; for (int i = 31; i >= 0; i--) { r = r + r + (a >> i & 1); if (r >= b) r -= b, q |= 1u << i; } return q; }
NOLOOP int __aeabi_idiv(int a, int b) { unsigned q = __aeabi_uidiv(a < 0 ? -(unsigned)a : a, b < 0 ? -(unsigned)b : b); return (a < 0) != (b < 0) ? -(int)q : (int)q; }
__attribute__((used)) static uint64_t aeabi_divmod(uint64_t a, uint64_t b, uint64_t *r) { return divmod(a, b, r); }
__attribute__((naked)) void __aeabi_uldivmod(void) { __asm__("push {r6, lr}\n sub sp, sp, #16\n add r6, sp, #8\n str r6, [sp]\n bl aeabi_divmod\n ldr r2, [sp, #8]\n ldr r3, [sp, #12]\n add sp, sp, #16\n pop {r6, pc}"); }
/* quotient in r0, remainder in r1 (as the two halves of one result) */
NOLOOP uint64_t __aeabi_uidivmod(unsigned a, unsigned b) { unsigned q = __aeabi_uidiv(a, b); w64 x; x.w[0] = q, x.w[1] = a - q * b; return x.v; }
NOLOOP uint64_t __aeabi_idivmod(int a, int b) { int q = __aeabi_idiv(a, b); w64 x; x.w[0] = q, x.w[1] = a - q * b; return x.v; }
#endif

/* ---------------- output */
static char out[1024];
static unsigned on;
static void put(const char *s) { while (*s && on < sizeof out - 2) out[on++] = *s++; }
static void num(uint32_t v) { char b[12]; int n = 11; b[n] = 0; do { uint32_t q = 0, r = 0; for (int i = 31; i >= 0; i--) { r = r + r + (v >> i & 1); if (r >= 10) r -= 10, q |= 1u << i; } b[--n] = (char)('0' + r), v = q; } while (v); put(b + n); }
static void hexs(const u8 *p, uint32_t n) { char b[3] = { 0 }; for (uint32_t i = 0; i < n && i < 32; i++) b[0] = "0123456789abcdef"[p[i] >> 4], b[1] = "0123456789abcdef"[p[i] & 15], put(b); }
static void flush(void) { out[on++] = '\n'; sys3(NR_write, 1, (long)out, on); on = 0; }
static uint32_t evals, nontriv, nviol;
_Noreturn static void end(void) { put("S eval="), num(evals), put(" nontriv="), num(nontriv), put(" platform_calls="), num(evals), flush(); exit(0); }
_Noreturn void abort(void) { put("V crash abort() is called"), flush(); end(); }

/* ---------------- workload */
static uint32_t ps = 2463534242u ^ (SEED * 2654435761u);
static uint32_t rnd(void) { ps ^= ps << 13, ps ^= ps >> 17, ps ^= ps << 5; return ps; }
static uint32_t rn(uint32_t n) { uint32_t r = 0, x = rnd() >> 8; for (int i = 31; i >= 0; i--) { r = r + r + (x >> i & 1); if (r >= n) r -= n; } return r; }
static void fill(u8 *p, uint32_t n, int cls)
{
    u8 c = (u8)rnd();
    for (uint32_t i = 0; i < n; i++) p[i] = cls == 1 ? 0 : cls == 2 ? 0xff : cls == 3 ? c : cls == 4 ? (u8)(c + i) : cls == 5 ? (rnd() & 0x100 ? 0x80 : 0x7f) : (u8)(rnd() >> 11);
}
#define CAP 8192
static u8 bk[64], bn[64], bm[CAP + 64], bad[CAP + 64], bc[CAP + 96], bp[CAP + 64], ex[CAP + 96], bh[64];
static void report(const char *kind, const char *what, uint32_t ml, uint32_t al, const u8 *k, const u8 *n, const u8 *got, const u8 *want, uint32_t len)
{
    uint32_t i = 0;
    while (i < len && got[i] == want[i]) i++;
    put("V "), put(kind), put(" "), put(what), put(": mlen="), num(ml), put(" adlen="), num(al), put(" first wrong byte "), num(i), put(" key="), hexs(k, 16), put(" nonce="), hexs(n, 16);
    if (i < len) put(" got "), hexs(got + i, len - i < 16 ? len - i : 16), put(" specified "), hexs(want + i, len - i < 16 ? len - i : 16);
    flush();
    if (++nviol >= 4) end();
}
static void one(uint32_t ml, uint32_t al, int cls, int mis)
{
    u8 *k = bk + (mis ? rn(16) : 0), *n = bn + (mis ? rn(16) : 0), *m = bm + (mis ? rn(32) : 0), *ad = bad + (mis ? rn(32) : 0), *c = bc + (mis ? rn(32) : 0), *p = bp + (mis ? rn(32) : 0);
    fill(k, 16, cls), fill(n, 16, rn(8) ? 0 : cls), fill(m, ml, cls), fill(ad, al, rn(4) ? 0 : cls);
    or_encrypt(ALG, ex, m, ml, ad, al, n, k);
    memset(c, 0xA5, ml + 16);
    ull l = 0xdeadbeefcafef00dull;
    int r = crypto_aead_encrypt(c, &l, m, ml, ad, al, 0, n, k);
    evals++, nontriv += ml || al;
    if (r || l != ml + 16 || memcmp(c, ex, ml + 16)) report("enc-value", r ? "encryption fails" : l != ml + 16 ? "encryption reports a wrong length" : "encryption", ml, al, k, n, c, ex, ml + 16);
    memcpy(c, ex, ml + 16), memset(p, 0xA5, ml), l = 0xdeadbeefcafef00dull;
    r = crypto_aead_decrypt(p, &l, 0, c, ml + 16, ad, al, n, k);
    evals++, nontriv += ml || al;
    if (r || l != ml || memcmp(p, m, ml)) report("dec-value", r ? "genuine ciphertext rejected" : l != ml ? "decryption reports a wrong length" : "decryption", ml, al, k, n, p, m, ml);
    { uint32_t at = rn(4) ? ml + rn(16) : rn(ml + 16); c[at] ^= (u8)(1u << rn(8)); }
    r = crypto_aead_decrypt(p, &l, 0, c, ml + 16, ad, al, n, k);
    evals++, nontriv++;
    if (!r) report("dec-value", "forgery accepted", ml, al, k, n, c, ex, ml + 16);
#if HAS_HASH
    u8 *h = bh + (mis ? rn(16) : 0);
    or_hash(ex, m, ml);
    r = crypto_hash(h, m, ml);
    evals++, nontriv += ml > 0;
    if (r || memcmp(h, ex, 32)) report("hash-value", "hash", ml, 0, k, n, h, ex, 32);
#endif
}
#ifndef G
#define G 10
#endif
#ifndef W
#define W 60
#endif
#ifndef NR
#define NR 40
#endif
__attribute__((used)) static void run(void)
{
    for (int i = 0; i < 4; i++) rnd();
    for (uint32_t a = 0; a <= G; a++) for (uint32_t b = 0; b <= G; b++) one(a, b, 0, 0);
    for (uint32_t a = G; a <= W; a++) one(a, rn(20), rn(3) ? 0 : (int)rn(6), 0), one(rn(20), a, 0, MISALIGN);
    for (uint32_t i = 0; i < NR; i++) one(rn(3) ? rn(64) : rn(500), rn(3) ? rn(64) : rn(500), (int)rn(6), MISALIGN && (i & 1));
    one(CAP - 100 + rn(90), 5, 0, 0), one(9, CAP - 100 + rn(90), 0, 0);
    put("X last case of "), num(evals), put(" calls"), flush();
    end();
}
#if defined(__i386__) || defined(__x86_64__)
__attribute__((force_align_arg_pointer))
#endif
void _start(void) { run(); }
