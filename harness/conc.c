/* C09: concurrency monitors.
 *   stress : many threads at once (release build, and under ThreadSanitizer)
 *   sched  : two or three real threads of which one runs at a time; the implementation is compiled with a hook at every basic
 *            block and memory access, and the hooks hand over at chosen points
 *   first  : the same, every schedule in a fresh process whose first calls these are (what is set up once, lazily, is raced for)
 *   nested : the hook at a chosen point makes the second call itself, on the same thread, like a signal handler
 * Every result is compared with the result of the same call made alone. */
#include "engine.h"
#include <errno.h>
#include <pthread.h>
#include <sys/mman.h>
#include <semaphore.h>
#include <sys/wait.h>
#include <time.h>
static int AC;
static char **AV;
static long K(const char *k, long d)
{
    size_t n = strlen(k);
    for (int i = 2; i < AC; i++) if (!strncmp(AV[i], k, n) && AV[i][n] == '=') return strtol(AV[i] + n + 1, 0, 0);
    return d;
}
enum { O_ENC, O_DEC, O_REJ, O_HASH, O_SHORT };
static const char *opn[] = { "encryption", "decryption", "rejected decryption", "hash", "short decryption" };
#define ML 640
typedef struct {
    int op;
    u8 k[16], n[16];
    size_t mlen, adlen;
    u8 *in, *ad;     /* may be shared between calls */
    u8 buf[ML + 32], adb[ML];
    int r;           /* result of the call alone */
    ull l;
    u8 out[ML + 32];
} job;
static size_t outlen_of(const job *j) { return j->op == O_ENC ? j->mlen + 16 : j->op == O_HASH ? 32 : j->op == O_DEC ? j->mlen : 0; }
static int perform(const job *j, u8 *out, ull *l)
{
    switch (j->op) {
    case O_ENC: return crypto_aead_encrypt(out, l, j->in, j->mlen, j->ad, j->adlen, 0, j->n, j->k);
    case O_HASH: return crypto_hash(out, j->in, j->mlen);
    case O_SHORT: return crypto_aead_decrypt(out, l, 0, j->in, j->mlen & 15, j->ad, j->adlen, j->n, j->k);
    default: return crypto_aead_decrypt(out, l, 0, j->in, j->mlen + 16, j->ad, j->adlen, j->n, j->k);
    }
}
static int pick_op(void) { static const int o[] = { O_ENC, O_ENC, O_DEC, O_DEC, O_REJ, O_REJ, O_HASH, O_SHORT }; int x = o[rn(8)]; return x == O_HASH && !HAS_HASH ? O_ENC : x; }
static long unstable;
/* false: the implementation does not even repeat itself when alone, which is another property's concern */
static void inputs(job *j, int op, size_t ml, size_t al, const job *share)
{
    j->op = op, j->mlen = ml, j->adlen = al, j->in = j->buf, j->ad = j->adb;
    fill(j->k, 16, D_RAND), fill(j->n, 16, D_RAND), fill(j->buf, ml + 16, D_RAND), fill(j->adb, al, D_RAND);
    if (share && rn(2)) memcpy(j->k, share->k, 16);
    if (share && rn(2)) memcpy(j->n, share->n, 16);
    if (share && rn(3) == 0 && share->adlen >= al) j->ad = share->ad;
    if (share && rn(3) == 0 && (op == O_ENC || op == O_HASH) && share->mlen >= ml) j->in = share->in;
    if (op == O_DEC || op == O_REJ) {
        static u8 m[ML];
        fill(m, ml, D_RAND);
        or_encrypt(ALG, j->buf, m, ml, j->ad, al, j->n, j->k);
        if (op == O_REJ) j->buf[rn(2) ? ml + rn(16) : rn(ml + 16)] ^= 1 << rn(8);
    }
    memset(j->out, 0xA5, sizeof j->out), j->l = 0;
}
static int make(job *j, int op, size_t ml, size_t al, const job *share)
{
    inputs(j, op, ml, al, share);
    fflush(0);
    pid_t pid = fork(); /* a call that crashes even alone, in a process of its own, is another property's concern */
    if (pid == 0) {
        static const int sg[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT };
        for (int i = 0; i < 5; i++) signal(sg[i], SIG_DFL);
        alarm(20);
        perform(j, j->out, &j->l);
        _exit(0);
    }
    int st = 0;
    if (pid > 0 && waitpid(pid, &st, 0) == pid && st) { unstable++; return 0; }
    j->r = perform(j, j->out, &j->l);
    u8 o2[ML + 32];
    ull l2 = 0;
    memset(o2, 0xA5, sizeof o2);
    int r2 = perform(j, o2, &l2);
    if (r2 != j->r || memcmp(o2, j->out, sizeof o2)) { unstable++; return 0; }
    return 1;
}
static int same(const job *j, int r, const u8 *out, ull l)
{
    if (!r != !j->r) return 0;
    if (r) return 1;
    if (j->op != O_HASH && l != j->l) return 0;
    return !memcmp(out, j->out, outlen_of(j));
}
static uint64_t jhash(const job *j) { return fnv(fnv(fnv(j->op, j->k, 16), j->n, 16), j->in, j->mlen) + j->adlen; }

/* ------------------------------------------------------------------ stress */
static int NT, JOBS;
static job *J;
static pthread_barrier_t bar;
typedef struct { int id; long calls; int bad; uint64_t s; } thr;
static void *worker(void *p)
{
    thr *t = p;
    long reps = K("REPS", 20);
    u8 *out = malloc(ML + 32);
    for (long rep = 0; rep < reps; rep++) {
        pthread_barrier_wait(&bar);
        for (int i = 0; i < 12; i++) {
            t->s = t->s * 6364136223846793005ull + 1442695040888963407ull;
            /* the same call in all threads, neighbours, or anything */
            int x = (int)(rep % 3 == 0 ? rep * 12 + i : rep % 3 == 1 ? rep + i + t->id : (long)(t->s >> 40)) % JOBS;
            ull l = 0;
            memset(out, 0xA5, ML + 32);
            int r = perform(&J[x], out, &l);
            t->calls++;
            if (!same(&J[x], r, out, l) && !t->bad) t->bad = x + 1;
        }
    }
    free(out);
    return 0;
}
static void stress(void)
{
    NT = (int)K("THREADS", 8), JOBS = (int)K("JOBS", 40);
    long max = K("MAX", 200);
    J = calloc(JOBS, sizeof *J);
    int n = 0;
    for (int i = 0; i < JOBS * 2 && n < JOBS; i++) {
        size_t ml = rn(4) ? rn(60) : rn(max), al = rn(3) ? rn(40) : rn(max);
        if (make(&J[n], i < 4 ? i == 3 && !HAS_HASH ? 0 : i : pick_op(), ml, al, n ? &J[rn(n)] : 0)) count_case(jhash(&J[n]), 1), n++;
    }
    JOBS = n;
    if (!n) { stat_add("unstable_alone=%ld ", unstable); return; }
    pthread_t th[64];
    thr t[64];
    pthread_barrier_init(&bar, 0, NT);
    long calls = 0;
    for (int i = 0; i < NT; i++) t[i] = (thr){ .id = i, .s = rnd() }, pthread_create(&th[i], 0, worker, &t[i]);
    for (int i = 0; i < NT; i++) {
        pthread_join(th[i], 0), calls += t[i].calls;
        if (t[i].bad) viol("interference", "%s of %zu bytes, %zu bytes of associated data: with %d threads calling at once the result differs from the call alone", opn[J[t[i].bad - 1].op], J[t[i].bad - 1].mlen, J[t[i].bad - 1].adlen, NT);
    }
    st_eval += calls;
    sample("%d threads, %ld calls at once, %d different calls", NT, calls, JOBS);
    stat_add("concurrent_calls=%ld unstable_alone=%ld ", calls, unstable);
}

/* ------------------------------------------------------------------ sched */
#define NS 3
static sem_t go[NS];
static sem_t all_done;
static volatile int active, nthreads, turn, done[NS];
static volatile long countdown[NS], events[NS], switches, stuck;
static uint64_t sched_state;
static int sched_random; /* 0: one hand-over at a chosen event; n: hand-over at about every n-th event */
static __thread int me = -1;
static job *sj[NS];
static u8 sout[NS][ML + 32];
static ull sl_[NS];
static int sr_[NS];
static uint64_t trace_h; /* identifies the interleaving */
static void wait_turn(int i)
{
    struct timespec ts;
    for (;;) {
        clock_gettime(CLOCK_REALTIME, &ts);
        ts.tv_sec += 3;
        if (!sem_timedwait(&go[i], &ts)) return;
        if (errno == EINTR) continue;
        /* the other does not proceed: it waits for something we hold. Let us run on */
        __sync_fetch_and_add(&stuck, 1);
        return;
    }
}
static int next_of(int i)
{
    for (int d = 1; d < nthreads; d++) if (!done[(i + d) % nthreads]) return (i + d) % nthreads;
    return -1;
}
static void hand_over(int i)
{
    int n = next_of(i);
    if (n < 0) return;
    switches++;
    trace_h = (trace_h ^ (uint64_t)(events[i] * 4 + n)) * 0x100000001b3ull;
    turn = n;
    sem_post(&go[n]);
    wait_turn(i);
}
static volatile int tracing, nest_at;
static volatile long tr_n;
static volatile uint64_t tr_h;
static inline void point(uintptr_t pc)
{
    int i = me;
    if (tracing) {
        tr_n++, tr_h = (tr_h ^ pc) * 0x100000001b3ull;
        if (nest_at && --nest_at == 0) {
            tracing = 0;
            sl_[1] = 0, sr_[1] = perform(sj[1], sout[1], &sl_[1]);
            tracing = 1;
        }
        return;
    }
    if (i < 0 || !active) return;
    events[i]++;
    if (sched_random) {
        sched_state = sched_state * 6364136223846793005ull + 1442695040888963407ull;
        if ((sched_state >> 33) % sched_random == 0) hand_over(i);
    } else if (countdown[i] && --countdown[i] == 0) hand_over(i);
}
#define RA ((uintptr_t)__builtin_return_address(0))
void __sanitizer_cov_trace_pc(void) { point(RA); }
#define A(n) \
    void __asan_load##n##_noabort(uintptr_t a) { (void)a; point(RA); } \
    void __asan_store##n##_noabort(uintptr_t a) { (void)a; point(RA); } \
    void __asan_load##n(uintptr_t a) { (void)a; point(RA); } \
    void __asan_store##n(uintptr_t a) { (void)a; point(RA); }
A(1) A(2) A(4) A(8) A(16)
void __asan_loadN_noabort(uintptr_t a, uintptr_t n) { (void)a, (void)n; point(RA); }
void __asan_storeN_noabort(uintptr_t a, uintptr_t n) { (void)a, (void)n; point(RA); }
void __asan_handle_no_return(void) {}
#define C(n, t) \
    void __sanitizer_cov_trace_cmp##n(t a, t b) { (void)a, (void)b; } \
    void __sanitizer_cov_trace_const_cmp##n(t a, t b) { (void)a, (void)b; }
C(1, uint8_t) C(2, uint16_t) C(4, uint32_t) C(8, uint64_t)
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *c) { (void)v, (void)c; }
static void *agent(void *p)
{
    int i = (int)(long)p;
    for (;;) {
        sem_wait(&go[i]);
        if (!sj[i]) return 0;
        me = i;
        sr_[i] = perform(sj[i], sout[i], &sl_[i]);
        me = -1;
        done[i] = 1;
        int n = next_of(i);
        if (n >= 0) turn = n, sem_post(&go[n]);
        else sem_post(&all_done);
    }
}
static void run_sched(int n)
{
    nthreads = n, switches = 0, trace_h = 0xcbf29ce484222325ull;
    for (int i = 0; i < n; i++) done[i] = 0, events[i] = 0, sl_[i] = 0, memset(sout[i], 0xA5, sizeof sout[i]);
    active = 1, turn = 0;
    sem_post(&go[0]);
    sem_wait(&all_done);
    active = 0;
    for (int i = 0; i < n; i++) while (!sem_trywait(&go[i]));
}
static void judge_sched(int n, long at)
{
    for (int i = 0; i < n; i++)
        if (!same(sj[i], sr_[i], sout[i], sl_[i])) {
            viol("interference", "%s of %zu+%zu bytes gives another result (return %d, alone %d) when %s of %zu+%zu bytes runs %s event %ld of %ld", opn[sj[i]->op], sj[i]->mlen, sj[i]->adlen, sr_[i], sj[i]->r,
                 opn[sj[(i + 1) % n]->op], sj[(i + 1) % n]->mlen, sj[(i + 1) % n]->adlen, at ? "in the middle, at" : "interleaved with it,", at, events[0]);
            return;
        }
}
static void sched(void)
{
    long pairs = K("PAIRS", 12), per = K("PER", 250), rnds = K("RND", 120), max = K("MAX", 60);
    pthread_t th[NS];
    static job P[NS];
    sem_init(&all_done, 0, 0);
    for (int i = 0; i < NS; i++) sem_init(&go[i], 0, 0), pthread_create(&th[i], 0, agent, (void *)(long)i);
    long points = 0, sw = 0, exhaustive = 0;
    static const int fixed[][2] = { { O_DEC, O_DEC }, { O_ENC, O_ENC }, { O_DEC, O_REJ }, { O_REJ, O_DEC }, { O_ENC, O_DEC }, { O_DEC, O_ENC }, { O_HASH, O_ENC }, { O_HASH, O_HASH }, { O_ENC, O_HASH }, { O_REJ, O_ENC } };
    for (long p = 0; p < pairs; p++) {
        int a = p < 10 ? fixed[p][0] : pick_op(), b = p < 10 ? fixed[p][1] : pick_op();
        if (!HAS_HASH && (a == O_HASH || b == O_HASH)) continue;
        if (!make(&P[0], a, rn(max), rn(3) ? rn(20) : 0, 0) || !make(&P[1], b, rn(max), rn(3) ? rn(20) : 0, &P[0]) || !make(&P[2], pick_op(), rn(max), rn(20), &P[1])) continue;
        sj[0] = &P[0], sj[1] = &P[1], sj[2] = &P[2];
        sched_random = 0, countdown[0] = countdown[1] = countdown[2] = 0;
        run_sched(2);
        long nA = events[0];
        if (nA == 0) die("no events");
        points += nA;
        /* one hand-over, at every event if there are few, else spread over all and dense at both ends */
        if (nA <= per) exhaustive++;
        for (long x = 0; x < (nA <= per ? nA : per); x++) {
            long at = nA <= per ? x + 1 : x < per / 4 ? nA - x : x < per / 3 ? 1 + (x - per / 4) : 1 + (long)(((double)x * nA) / per + rn(nA / per + 1)) % nA;
            countdown[0] = at, countdown[1] = countdown[2] = 0;
            run_sched(2);
            count_case(fnv(trace_h, &p, sizeof p), switches > 0), sw += switches;
            judge_sched(2, at);
            if (stuck > 3) { stat_add("blocked=%ld ", stuck); finish(); _exit(0); } /* locks: the stress runs have to do */
        }
        /* many hand-overs, two and three threads */
        for (long x = 0; x < rnds; x++) {
            int n = 2 + (int)(x & 1);
            sched_random = 0, countdown[0] = countdown[1] = countdown[2] = 0;
            static const int every[] = { 3, 20, 100, 400, 1500 };
            sched_random = every[x % 5];
            if (nA / sched_random > 60) sched_random = (int)(nA / 60) + 1;
            sched_state = rnd();
            run_sched(n);
            count_case(fnv(trace_h, &p, sizeof p), switches > 0), sw += switches;
            judge_sched(n, 0);
        }
    }
    for (int i = 0; i < NS; i++) sj[i] = 0, sem_post(&go[i]), pthread_join(th[i], 0);
    sample("last schedule: %s with %s, %ld hand-overs over %ld events", opn[P[0].op], opn[P[1].op], switches, events[0]);
    stat_add("preemption_points=%ld hand_overs=%ld pairs_with_every_point=%ld unstable_alone=%ld blocked=%ld ", points, sw, exhaustive, unstable, stuck);
}
/* ------------------------------------------------------------------ first */
typedef struct { job p[NS]; long n1, n2; uint64_t h1, h2; long bad; int r; } shared;
static shared *S;
static pid_t kid(void)
{
    fflush(0);
    pid_t pid = fork();
    if (pid == 0) {
        static const int sg[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT };
        for (int i = 0; i < 5; i++) signal(sg[i], SIG_DFL);
        alarm(60);
    }
    return pid;
}
static int reap(pid_t pid)
{
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    return st;
}
/* the result of the call as the first one of a process; its events, and those of the same call made again */
static int alone(job *j)
{
    static u8 o[ML + 32];
    for (int t = 0; t < 2; t++) {
        pid_t pid = kid();
        if (pid == 0) {
            tr_n = 0, tr_h = 0, tracing = 1;
            ull l = 0;
            memset(o, 0xA5, sizeof o);
            int r = perform(j, o, &l);
            S->n1 = tr_n, S->h1 = tr_h, tr_n = 0, tr_h = 0;
            if (t && (r != j->r || memcmp(o, j->out, sizeof o))) _exit(1);
            memcpy(j->out, o, sizeof o), j->r = r, j->l = l;
            r = perform(j, o, &l);
            S->n2 = tr_n, S->h2 = tr_h;
            if (r != j->r || memcmp(o, j->out, outlen_of(j))) _exit(1);
            _exit(0);
        }
        if (pid < 0 || reap(pid)) { unstable++; return 0; }
    }
    return 1;
}
static const int pairs_of[][2] = { { O_ENC, O_ENC }, { O_DEC, O_DEC }, { O_HASH, O_HASH }, { O_ENC, O_DEC }, { O_DEC, O_REJ }, { O_REJ, O_ENC }, { O_HASH, O_ENC }, { O_ENC, O_HASH }, { O_DEC, O_ENC }, { O_REJ, O_REJ } };
static int report(int st, long at, const char *how)
{
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { stuck++; return 0; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { stuck++; return 0; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    int i = WIFEXITED(st) ? S->r : 0;
    if (WIFSIGNALED(st)) viol("interference", "the process dies with signal %d when %s and %s (%zu+%zu, %zu+%zu bytes) run %s event %ld", WTERMSIG(st), opn[sj[0]->op], opn[sj[1]->op], sj[0]->mlen, sj[0]->adlen, sj[1]->mlen, sj[1]->adlen, how, at);
    else viol("interference", "%s of %zu+%zu bytes gives another result than alone when %s of %zu+%zu bytes runs %s event %ld", opn[sj[i]->op], sj[i]->mlen, sj[i]->adlen, opn[sj[!i]->op], sj[!i]->mlen, sj[!i]->adlen, how, at);
    return 1;
}
static void first(void)
{
    long pairs = K("PAIRS", 10), per = K("PER", 300), few = K("FEW", 12), max = K("MAX", 20), forks = 0, lazy = 0, sw = 0;
    for (long p = 0; p < pairs && stuck < 3; p++) {
        int a = p < 10 ? pairs_of[p][0] : pick_op(), b = p < 10 ? pairs_of[p][1] : pick_op();
        if (!HAS_HASH && (a == O_HASH || b == O_HASH)) continue;
        int ok = 1;
        long n = 0, l = 0;
        for (int i = 1; i >= 0 && ok; i--) {
            inputs(&S->p[i], i ? b : a, rn(max), rn(3) ? rn(20) : 0, 0), ok = alone(&S->p[i]);
            n = S->n1, l |= S->n1 != S->n2 || S->h1 != S->h2;
        }
        if (!ok) continue;
        sj[0] = &S->p[0], sj[1] = &S->p[1];
        lazy += l != 0;
        /* a first call that executes just what later ones do sets nothing up: few schedules are enough */
        long m = l ? per : few;
        for (long x = 0; x < m && stuck < 3; x++) {
            long at = n <= m ? x + 1 : x < m / 2 && l ? 1 + x : 1 + (long)(((double)x * n) / m + rn(n / m + 1)) % n;
            if (at > n) break;
            sched_random = x % 8 == 7 ? 3 + (int)rn(60) + (int)(n / 200) : 0, sched_state = rnd();
            pid_t pid = kid();
            if (pid == 0) {
                pthread_t th[NS];
                sem_init(&all_done, 0, 0);
                for (int i = 0; i < 2; i++) sem_init(&go[i], 0, 0), pthread_create(&th[i], 0, agent, (void *)(long)i);
                countdown[0] = at, countdown[1] = countdown[2] = 0;
                run_sched(2);
                S->n1 = switches, S->h1 = trace_h;
                if (stuck) _exit(3);
                for (int i = 0; i < 2; i++) if (!same(sj[i], sr_[i], sout[i], sl_[i])) { S->r = i; _exit(1); }
                _exit(0);
            }
            if (pid < 0) die("fork");
            S->n1 = S->h1 = 0;
            int st = reap(pid);
            forks++, sw += S->n1;
            count_case(fnv(S->h1, &p, sizeof p), S->n1 > 0);
            if (report(st, at, sched_random ? "as the first two of a process, interleaved at many points, seed" : "as the first two of a process, handed over at")) break;
        }
    }
    sample("%ld fresh processes, %ld pairs with a first call unlike the second", forks, lazy);
    stat_add("fresh_processes=%ld pairs_with_lazy_setup=%ld hand_overs=%ld unstable_alone=%ld blocked=%ld ", forks, lazy, sw, unstable, stuck);
}
static void nested(void)
{
    long pairs = K("PAIRS", 10), per = K("PER", 300), max = K("MAX", 40), points = 0;
    for (long p = 0; p < pairs; p++) {
        int a = p < 10 ? pairs_of[p][0] : pick_op(), b = p < 10 ? pairs_of[p][1] : pick_op();
        if (!HAS_HASH && (a == O_HASH || b == O_HASH)) continue;
        int ok = 1;
        long n = 0;
        for (int i = 1; i >= 0 && ok; i--) inputs(&S->p[i], i ? b : a, rn(max), rn(3) ? rn(20) : 0, i ? 0 : &S->p[1]), ok = alone(&S->p[i]), n = S->n1;
        if (!ok) continue;
        sj[0] = &S->p[0], sj[1] = &S->p[1];
        S->bad = 0;
        uint64_t seed = rnd();
        pid_t pid = kid();
        if (pid == 0) {
            rseed(seed);
            long m = n <= per ? n : per;
            for (long x = 0; x < m; x++) {
                long at = n <= per ? x + 1 : x < per / 4 ? n - x : 1 + (long)(((double)x * n) / per + rn(n / per + 1)) % n;
                S->bad = at;
                memset(sout[0], 0xA5, sizeof sout[0]), memset(sout[1], 0xA5, sizeof sout[1]), sl_[0] = 0;
                nest_at = (int)at, tracing = 1;
                sr_[0] = perform(sj[0], sout[0], &sl_[0]);
                tracing = 0;
                if (nest_at) { nest_at = 0; continue; }
                S->n2 = x + 1;
                for (int i = 0; i < 2; i++) if (!same(sj[i], sr_[i], sout[i], sl_[i])) { S->r = i; _exit(1); }
            }
            _exit(0);
        }
        if (pid < 0) die("fork");
        S->n2 = 0;
        int st = reap(pid);
        for (long x = 0; x < S->n2; x++) { uint64_t h = p * 1000003ull + x; count_case(fnv(0x77, &h, 8), 1); }
        points += S->n2;
        report(st, S->bad, "nested, the second inside the first at");
    }
    sample("%ld calls made inside other calls", points);
    stat_add("nested_calls=%ld unstable_alone=%ld blocked=%ld ", points, unstable, stuck);
}
/* uncontrolled: the first calls of a process, made by several threads at once (for ThreadSanitizer) */
static pthread_barrier_t fb;
static void *fworker(void *p)
{
    int i = (int)(long)p;
    pthread_barrier_wait(&fb);
    sr_[i] = perform(sj[i], sout[i], &sl_[i]);
    return 0;
}
static void race_first(void)
{
    long reps = K("FIRST", 6);
    for (long x = 0; x < reps; x++) {
        static const int ops[] = { O_ENC, O_DEC, O_HASH, O_REJ, O_ENC, O_DEC };
        int op = ops[x % 6];
        if (op == O_HASH && !HAS_HASH) op = O_ENC;
        for (int i = 0; i < NS; i++) inputs(&S->p[i], i == 2 ? O_ENC : op, rn(40), rn(20), 0), sj[i] = &S->p[i];
        pid_t pid = kid();
        if (pid == 0) {
            for (int i = 0; i < NS; i++) perform(sj[i], sout[i], &sl_[i]);
            _exit(0);
        }
        if (pid < 0 || reap(pid)) { unstable++; continue; }
        pid = kid();
        if (pid == 0) {
            pthread_t th[NS];
            pthread_barrier_init(&fb, 0, NS);
            for (int i = 0; i < NS; i++) pthread_create(&th[i], 0, fworker, (void *)(long)i);
            for (int i = 0; i < NS; i++) pthread_join(th[i], 0);
            _exit(0);
        }
        if (pid > 0) reap(pid);
    }
    stat_add("raced_first_calls=%ld ", reps);
}
int main(int argc, char **argv)
{
    AC = argc, AV = argv;
    rseed(K("SEED", 1) * 1000003ull + K("SALT", 0));
    maxviol = K("MAXV", 3);
    init_signals(0);
    incall = 1; /* a fault in a thread is the implementation's */
    snprintf(curdesc, sizeof curdesc, "concurrent calls");
    S = mmap(0, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (S == MAP_FAILED) die("mmap");
    const char *m = argc > 1 ? argv[1] : "";
    if (!strcmp(m, "stress")) race_first(), stress();
    else if (!strcmp(m, "first")) first(), nested();
    else sched();
    finish();
    return 0;
}
