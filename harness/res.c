/* C15: resource monitors on the release build.
 *   stack : the high-water mark of a painted call stack, over lengths and contents; the same calls watch the heap; CPU time per byte
 *   sys   : the calls run where the kernel reports every system call (x86: seccomp; ARM: marks in qemu's own system call log) */
#include "engine.h"
#include <stdio_ext.h>
#include <errno.h>
#include <stddef.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
static int AC;
static char **AV;
static long K(const char *k, long d)
{
    size_t n = strlen(k);
    for (int i = 2; i < AC; i++) if (!strncmp(AV[i], k, n) && AV[i][n] == '=') return strtol(AV[i] + n + 1, 0, 0);
    return d;
}
/* ---------------- heap: this program's allocator is ours, so the C library's callers come here too */
static u8 *ar;
static size_t ar_used, ar_cap;
static volatile long heap_calls, heap_out;
static const char *volatile heap_what;
static void *get(size_t n, size_t al)
{
    if (!ar) {
        ar_cap = (size_t)1 << (sizeof(void *) == 8 ? 34 : 28);
        ar = mmap(0, ar_cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (ar == MAP_FAILED) die("arena");
    }
    if (al < 16) al = 16;
    size_t o = (ar_used + 16 + al - 1) & ~(al - 1);
    if (o + n > ar_cap || n > ar_cap) { errno = ENOMEM; return 0; }
    *(size_t *)(ar + o - 16) = n;
    ar_used = o + n;
    return ar + o;
}
static void seen(const char *w) { if (incall) heap_calls++, heap_what = w; else heap_out++; }
void *malloc(size_t n) { seen("malloc"); return get(n, 16); }
void free(void *p) { if (p) seen("free"); }
void *calloc(size_t a, size_t b) { seen("calloc"); size_t n; if (__builtin_mul_overflow(a, b, &n)) return 0; return get(n, 16); }
void *realloc(void *p, size_t n)
{
    seen("realloc");
    void *q = get(n, 16);
    if (p && q) { size_t o = *(size_t *)((u8 *)p - 16); memcpy(q, p, o < n ? o : n); }
    return q;
}
void *memalign(size_t a, size_t n) { seen("memalign"); return get(n, a); }
void *aligned_alloc(size_t a, size_t n) { seen("aligned_alloc"); return get(n, a); }
void *valloc(size_t n) { seen("valloc"); return get(n, PG); }
void *pvalloc(size_t n) { seen("pvalloc"); return get((n + PG - 1) & ~(PG - 1), PG); }
int posix_memalign(void **p, size_t a, size_t n) { seen("posix_memalign"); *p = get(n, a); return *p ? 0 : ENOMEM; }
size_t malloc_usable_size(void *p) { return p ? *(size_t *)((u8 *)p - 16) : 0; }

/* ---------------- a call on a stack of its own */
enum { OP_ENC, OP_DEC, OP_REJ, OP_HASH, OP_SHORT, NOP };
static const char *on[] = { "encryption", "decryption", "rejected decryption", "hash", "decryption of less than a tag" };
static tcase T;
static u8 *tc, *tp, hbuf[32];
static ull outlen;
static int t_op, t_ret;
static void body(void)
{
    incall = 1;
    if (t_op == OP_ENC) t_ret = crypto_aead_encrypt(tc, &outlen, T.m, T.mlen, T.ad, T.adlen, 0, T.n, T.k);
    else if (t_op == OP_HASH) t_ret = crypto_hash(hbuf, T.m, T.mlen);
    else if (t_op == OP_SHORT) t_ret = crypto_aead_decrypt(tp, &outlen, 0, tc, T.mlen & 15, T.ad, T.adlen, T.n, T.k);
    else t_ret = crypto_aead_decrypt(tp, &outlen, 0, tc, T.mlen + 16, T.ad, T.adlen, T.n, T.k);
    incall = 0;
}
static void prepare(int op, size_t ml, size_t al, int cls)
{
    T.mlen = ml, T.adlen = al, t_op = op;
    fill(T.m, ml, cls), fill(T.ad, al, cls), secrets_fill(&T, cls, cls);
    if (op == OP_DEC || op == OP_REJ) {
        if (ml > 200000 || al > 200000) { /* genuine by their own word: here only resources are judged */
            int o = t_op;
            t_op = OP_ENC, body(), t_op = o;
        } else or_encrypt(ALG, tc, T.m, ml, T.ad, al, T.n, T.k);
        if (op == OP_REJ) tc[rn(ml + 16)] ^= 1 << rn(8);
    }
    snprintf(curdesc, sizeof curdesc, "%s with %zu bytes of message, %zu of associated data", on[op], ml, al);
}
#define PAINT 0xC3A55A3Cu
static ucontext_t um, uc_;
static u8 *stk;
static size_t stk_sz;
static long maxstack;
static size_t painted_call(void)
{
    getcontext(&uc_);
    uc_.uc_stack.ss_sp = stk, uc_.uc_stack.ss_size = stk_sz, uc_.uc_link = &um;
    makecontext(&uc_, body, 0);
    heap_calls = 0;
    swapcontext(&um, &uc_);
    size_t i = 0;
    uint32_t *w = (uint32_t *)stk;
    while (i < stk_sz / 4 && w[i] == PAINT) i++;
    for (size_t j = i; j < stk_sz / 4; j++) w[j] = PAINT;
    size_t used = stk_sz - 4 * i;
    if ((long)used > maxstack) maxstack = used;
    if (heap_calls) viol("heap", "%s is called inside %s", heap_what, curdesc);
    return used;
}
static u8 *guard_lo;
static size_t guard_sz;
static void overflow(int s, siginfo_t *si, void *u)
{
    (void)s, (void)u;
    u8 *a = si->si_addr;
    if (incall && a >= guard_lo && a < guard_lo + guard_sz) {
        viol("stack", "the call stack of %zu KiB overflows in %s", stk_sz >> 10, curdesc);
        finish(), _exit(0);
    }
}
static size_t base_of[NOP];
static double cpu(void)
{
    struct timespec ts;
    clock_gettime(CLOCK_THREAD_CPUTIME_ID, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}
static double per_byte(int op, int which, size_t n, int reps)
{
    double best = 1e9;
    prepare(op, which ? 3 : n, which ? n : 3, D_RAND);
    for (int i = 0; i < reps; i++) {
        double t = cpu();
        body();
        t = cpu() - t;
        if (t < best) best = t;
    }
    return best / n;
}
static void stack(void)
{
    long small = K("SMALL", 300), large = K("LARGE", 12), top = K("TOP", 1 << 20);
    xalloc((size_t)top + 4096);
    T.m = B_M, T.ad = B_AD, tc = B_C, tp = B_P;
    guard_sz = (size_t)64 << 20, stk_sz = (size_t)K("STACK", 2 << 20);
    u8 *z = mmap(0, guard_sz + stk_sz, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (z == MAP_FAILED || mprotect(z + guard_sz, stk_sz, PROT_READ | PROT_WRITE)) die("stack");
    guard_lo = z, stk = z + guard_sz, segv_hook = overflow;
    for (size_t i = 0; i < stk_sz / 4; i++) ((uint32_t *)stk)[i] = PAINT;
    /* time per byte: library routines, whose work the event counter cannot see, show here */
    long t1 = K("T1", 1 << 15), t2 = K("T2", 1 << 20), timed = 0;
    double worst = 0;
    int slow_ = 0;
    if (t2 > top) t2 = top;
    for (int op = 0; op < 4; op++)
        for (int w = 0; w < (op == OP_HASH ? 1 : 2); w++) {
            if (op == OP_HASH && !HAS_HASH) continue;
            double r = 0;
            for (long t = t1 * 4; r < 6; t = t * 8 < t2 ? t * 8 : t2) { /* step by step, so that not much time is lost if it is superlinear */
                for (int try = 0; try < 4; try++) { /* other load on the machine can only make one measurement longer */
                    double a = per_byte(op, w, t1, 3), b = per_byte(op, w, t, try + 1);
                    if (a <= 0) break;
                    r = b / a;
                    if (r < 6) break;
                }
                if (t >= t2) break;
            }
            timed++;
            if (r > worst) worst = r;
            if (r >= 6) slow_ = 1, viol("superlinear", "%s, %s: a byte takes %.0f times as long in %ld bytes as in %ld", on[op], w ? "associated data" : "message", r, t2, t1);
        }
    if (slow_) top = top < 65536 ? top : 65536;
    static const int edge[][2] = { { 0, 0 }, { 1, 0 }, { 0, 1 }, { 8, 8 }, { 16, 16 }, { 18, 18 }, { 33, 40 }, { 80, 80 } };
    for (int op = 0; op < NOP; op++) {
        if (op == OP_HASH && !HAS_HASH) continue;
        for (long i = 0; i < small; i++) {
            size_t ml = i < 8 ? edge[i][0] : rn(120), al = i < 8 ? edge[i][1] : rn(120);
            if (op == OP_SHORT) ml &= 15;
            prepare(op, ml, al, i < 8 ? D_RAND : rcls());
            size_t u = painted_call();
            if (u > base_of[op]) base_of[op] = u;
            count_case(case_hash(300 + op, &T), 1);
        }
        for (long i = 0; i < large; i++) {
            size_t n = i < 6 ? (size_t)4096 << i : i == 6 ? (size_t)top : rsize_(top), o = i % 3 == 0 ? rn(100) : rsize_(4096);
            if (n > (size_t)top) n = top;
            for (int w = 0; w < (op == OP_HASH ? 1 : 2); w++) {
                if (op == OP_SHORT && !w) continue;
                prepare(op, w ? op == OP_SHORT ? rn(16) : o : n, w ? n : o, i % 4 ? D_RAND : rcls());
                size_t u = painted_call();
                count_case(case_hash(300 + op, &T), 1);
                if (u > base_of[op] + 1024)
                    viol("stack", "%s uses %zu bytes of stack; at most %zu for all of %ld short inputs", curdesc, u, base_of[op], small);
            }
        }
        double c0 = cpu(), lim = K("MASS_MS", 0) / 1000.0 / NOP;
        for (long i = 0; lim > 0 && cpu() - c0 < lim; i++) {
            size_t ml = rn(3) ? rn(200) : rsize_(3000), al = rn(3) ? rn(200) : rsize_(3000);
            prepare(op, op == OP_SHORT ? ml & 15 : ml, al, rcls());
            size_t u = painted_call();
            count_case(case_hash(300 + op, &T), 1);
            if (u > base_of[op] + 1024)
                viol("stack", "%s uses %zu bytes of stack; at most %zu for all of %ld short inputs", curdesc, u, base_of[op], small);
        }
        if (op == OP_DEC) sample("decryption: %zu bytes of stack, whatever the lengths up to %ld and contents; no allocation", base_of[op], top);
    }
    stat_add("max_stack_bytes=%ld heap_calls_outside=%ld timings=%ld max_time_ratio_percent=%ld ", maxstack, heap_out, timed, (long)(100 * worst));
}

/* ---------------- system calls */
typedef struct { volatile long n, nr[16], op[16]; volatile long calls, started; size_t ml[16], al[16]; } shared;
static shared *S;
static void one(int op, size_t ml, size_t al, int cls)
{
    prepare(op, ml, al, cls);
    S->calls++;
}
#if defined(__x86_64__)
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#define MAGIC 0x5a
static void bye(void) { __asm__ __volatile__("syscall" ::"a"(SYS_exit_group), "D"(MAGIC) : "rcx", "r11", "memory"); for (;;); }
static void on_sys(int s, siginfo_t *si, void *u)
{
    (void)s;
    long i = S->n++;
    if (i < 16) S->nr[i] = si->si_syscall, S->op[i] = incall ? t_op : -1, S->ml[i] = T.mlen, S->al[i] = T.adlen;
    if (si->si_syscall == SYS_exit_group || si->si_syscall == SYS_exit || i > 1000) bye();
    ((ucontext_t *)u)->uc_mcontext.gregs[REG_RAX] = -ENOSYS;
}
static int install(void)
{
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_sys, sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGSYS, &sa, 0);
    struct sock_filter f[] = {
        BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)),
        BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_rt_sigreturn, 3, 0),
        BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_exit_group, 0, 3),
        BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, args)),
        BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, MAGIC, 0, 1),
        BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
        BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP),
    };
    struct sock_fprog p = { sizeof f / sizeof *f, f };
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) return 1;
    return prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p);
}
#else
static void bye(void) { _exit(0x5a); }
static int install(void) { return 0; }
#endif
static void sys(void)
{
    long n = K("N", 200), max = K("MAX", 20000), big = K("BIG", 1 << 20), bign = K("BIGN", 3);
    S = mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    xalloc((size_t)big + 4096);
    T.m = B_M, T.ad = B_AD, tc = B_C, tp = B_P;
    for (int i = 0; i < 6; i++) memset(xbuf[i], 1, big + 4096); /* present: page faults are no system calls, but stay out of the way */
    count_case(1, 1), st_eval = st_nontriv = 0; /* allocates its table */
#if defined(__x86_64__)
    pid_t p = fork();
    if (p == 0) {
        if (install()) S->started = -1, _exit(0x5a);
        S->started = 1;
#else
    {
#endif
        for (long i = 0; i < n + bign * 8; i++) {
            int op = i < n ? (int)(i % NOP) : (int)(i % 4);
            if (op == OP_HASH && !HAS_HASH) op = OP_ENC;
            size_t ml = i < n ? rsize_(max) : i & 1 ? (size_t)big : rn(100), al = i < n ? rsize_(max) : i & 1 ? rn(100) : (size_t)big;
            one(op, ml, al, rcls());
#if !defined(__x86_64__)
            syscall(SYS_getppid);
            body();
            syscall(SYS_getpgid, 0);
            if (__fpending(stdout)) { __fpurge(stdout), viol("system-call", "text for the standard output is left in its buffer by %s with %zu bytes of message, %zu of associated data", on[op], ml, al); }
#else
            body();
            if (__fpending(stdout) && S->n < 15) { __fpurge(stdout), S->nr[S->n] = -1, S->op[S->n] = op, S->ml[S->n] = ml, S->al[S->n] = al, S->n++; }
            count_case(case_hash(400 + op, &T), 1), S->nr[15] = st_eval; /* counters travel through the shared page */
            S->op[15] = st_nontriv;
#endif
#if !defined(__x86_64__)
            count_case(case_hash(400 + op, &T), 1);
#endif
        }
#if defined(__x86_64__)
        bye();
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (S->started == -1) { stat_add("seccomp_unavailable=1 "); return; }
    st_eval = S->nr[15], st_nontriv = S->op[15];
    for (long i = 0; i < S->n && i < 15; i++) {
        if (S->op[i] < 0) { die("system call of the harness"); }
        if (S->nr[i] == -1) { viol("system-call", "text for the standard output is left in its buffer by %s with %zu bytes of message, %zu of associated data", on[S->op[i]], S->ml[i], S->al[i]); continue; }
        viol("system-call", "system call %ld inside %s with %zu bytes of message, %zu of associated data", S->nr[i], on[S->op[i]], S->ml[i], S->al[i]);
    }
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0x5a) { if (!S->n) die("the watched process ended early"); }
#else
    }
    (void)install, (void)bye;
#endif
    sample("%ld calls watched for system calls, lengths up to %ld: none", S->calls, big);
    stat_add("calls_watched_for_system_calls=%ld ", S->calls);
}
int main(int argc, char **argv)
{
    AC = argc, AV = argv;
    rseed(K("SEED", 1) * 1000003ull + K("SALT", 0));
    maxviol = K("MAXV", 3);
    init_signals(0);
    if (argc < 2 || strcmp(argv[1], "sys")) watch_hang(K("HANG", 40));
    if (!strcmp(argc > 1 ? argv[1] : "", "sys")) sys(); else stack();
    finish();
    return 0;
}
