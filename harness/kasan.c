/* A small AddressSanitizer runtime for 32-bit ARM user-mode emulation: shadow memory at a fixed offset, redzones of
 * stack objects written by the compiler's inline code, redzones of globals registered by constructors. */
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#define OFF 0x20000000u
#define SH(a) ((signed char *)(((uintptr_t)(a) >> 3) + OFF))
static int ready;
static void init(void)
{
    if (ready) return;
    ready = 1;
    void *p = mmap((void *)OFF, 0x20000000u, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *)OFF) { static const char e[] = "E shadow memory not available\n"; (void)!write(1, e, sizeof e - 1); _exit(3); }
}
__attribute__((constructor(50))) static void early(void) { init(); }
static int bad;
static void check(uintptr_t a, size_t n, int wr, uintptr_t pc)
{
    if (!ready) return;
    for (size_t i = 0; i < n; i++) {
        signed char s = *SH(a + i);
        if (s && (s < 0 || (int)((a + i) & 7) >= s)) {
            char b[300];
            int l = snprintf(b, sizeof b, "V out-of-bounds %s of %zu bytes at %#lx (byte %zu, shadow %02x: %s) by code at %#lx\n", wr ? "write" : "read", n, (unsigned long)a, i, (unsigned char)s,
                             (unsigned char)s == 0xf9 ? "beside a global object" : "beside a stack object", (unsigned long)pc);
            (void)!write(1, b, l);
            if (++bad >= 3) _exit(0);
            return;
        }
    }
}
#define RA ((uintptr_t)__builtin_return_address(0))
#define A(n) \
    void __asan_load##n##_noabort(uintptr_t a) { check(a, n, 0, RA); } \
    void __asan_store##n##_noabort(uintptr_t a) { check(a, n, 1, RA); }
A(1) A(2) A(4) A(8) A(16)
void __asan_loadN_noabort(uintptr_t a, size_t n) { check(a, n, 0, RA); }
void __asan_storeN_noabort(uintptr_t a, size_t n) { check(a, n, 1, RA); }
void __asan_handle_no_return(void)
{
    uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
    memset(SH(sp - 65536), 0, 2 * 65536 / 8);
}
void __asan_set_shadow_00(uintptr_t a, size_t n) { memset((void *)a, 0, n); }
void __asan_set_shadow_f1(uintptr_t a, size_t n) { memset((void *)a, 0xf1, n); }
void __asan_set_shadow_f2(uintptr_t a, size_t n) { memset((void *)a, 0xf2, n); }
void __asan_set_shadow_f3(uintptr_t a, size_t n) { memset((void *)a, 0xf3, n); }
void __asan_set_shadow_f5(uintptr_t a, size_t n) { memset((void *)a, 0xf5, n); }
void __asan_set_shadow_f8(uintptr_t a, size_t n) { memset((void *)a, 0xf8, n); }
static void poison(uintptr_t a, size_t n, int v) { memset(SH(a), v, n / 8); }
void __asan_poison_stack_memory(uintptr_t a, size_t n) { poison(a, n & ~7u, 0xf8); if (n & 7) *SH(a + (n & ~7u)) = (signed char)0xf8; }
void __asan_unpoison_stack_memory(uintptr_t a, size_t n) { poison(a, n & ~7u, 0); if (n & 7) *SH(a + (n & ~7u)) = (signed char)(n & 7); }
void __asan_alloca_poison(uintptr_t a, size_t n) { (void)a, (void)n; }
void __asan_allocas_unpoison(uintptr_t a, uintptr_t b) { (void)a, (void)b; }
typedef struct { uintptr_t beg; size_t size, size_with_redzone; const char *name, *module; size_t dyn; void *loc; size_t odr; } glob;
long kasan_globals;
void __asan_register_globals(glob *g, size_t n)
{
    init();
    for (size_t i = 0; i < n; i++) {
        size_t al = (g[i].size + 7) & ~7u;
        if (g[i].size & 7) *SH(g[i].beg + (g[i].size & ~7u)) = (signed char)(g[i].size & 7);
        poison(g[i].beg + al, g[i].size_with_redzone - al, 0xf9);
        kasan_globals++;
    }
}
void __asan_unregister_globals(glob *g, size_t n) { (void)g, (void)n; }
void __asan_init(void) { init(); }
void __asan_version_mismatch_check_v8(void) {}
