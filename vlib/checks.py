"""One function per property: which programs are built, under which monitors, with which workloads."""
import hashlib, json, os, subprocess, sys
from . import build as B
from .core import Ctx, Job, judge, run_jobs, run_job, conclude, salt

REL = ["-O3", "-DNDEBUG"]                    # the flags of the project's own test builds
COV = ["-O1", "-fsanitize-coverage=trace-pc,trace-cmp"]
MON, FUZZ = ["mon.c", "oracle.c"], ["cmpfuzz.c", "oracle.c"]
KAT_SHA = ["4982a074ffdc6c0a3dd2ac05bd51885b70322049ed4596c9455e7da60dff1f01",
           "0323b698dc86f13b6c5baf06868e0dc22fcadab119549283ae27646761399564",
           "acfec2355f8dbe41a46fc677fae6a7ac82f50591cb5b75cd741de1e495dce88b",
           "63a046687c36b49660c82b55b7b103704c7f6c4dd05a2b85baa2f30612b10229",
           "c6da6ace2e03facf64636fade552ca605e5e1698efbb2fa9f85d4046cfdae1cb"]
PROPS = {}


def prop(pid, level="exploration"):
    def d(f):
        PROPS[pid] = (f, level)
        return f
    return d


def kv(**k):
    return [f"{a}={b}" for a, b in k.items()]


def slow(i):
    """Relative cost of one permutation-heavy call: key setup dominates in the byte-sliced -128 variants."""
    n = i.name
    if i.alg == 3: return 3 if i.x86 and "isapxv20" not in n else 4
    if i.alg == 2 or i.arm or i.alg == 1: return 2
    return 1


def base_args(ctx, i, mode, label):
    return [mode] + kv(SEED=ctx.seed, SALT=salt(i, label))


def oracle_selftest(scratch):
    """The oracle must reproduce every published known answer: it is what judges everything else."""
    exe = os.path.join(scratch, "selftest")
    r = subprocess.run(["gcc", "-O2", "-I" + B.HARN, os.path.join(B.HARN, "selftest.c"), os.path.join(B.HARN, "oracle.c"), "-o", exe],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        return "oracle does not build: " + r.stdout.decode()[-500:]
    for a in range(5):
        o = subprocess.run([exe, str(a)], stdout=subprocess.PIPE).stdout
        if hashlib.sha256(o).hexdigest() != KAT_SHA[a]:
            return f"oracle disagrees with the known answers of algorithm {a}"
    return None


def setup():
    import tempfile, shutil
    d = tempfile.mkdtemp(prefix="isapmon_")
    e = oracle_selftest(d)
    shutil.rmtree(d, True)
    for t in ("gcc", "clang", "arm-linux-gnueabi-gcc", "qemu-arm", "valgrind"):
        import shutil as s
        print(f"{t}: {s.which(t)}")
    print("oracle: " + (e or f"reproduces all {4 * 33 * 33 + 1025} known answers"))
    return 1 if e else 0


def run(pid, tier, seed):
    if pid not in PROPS:
        print("unknown property", pid, "known:", " ".join(sorted(PROPS)), file=sys.stderr)
        return 2
    f, level = PROPS[pid]
    ctx = Ctx(pid, tier, seed)
    e = oracle_selftest(ctx.scratch)
    if e:
        ctx.error(e)
        return conclude(ctx, level, "-")
    rule = f(ctx)
    return conclude(ctx, level, rule)


def replay(path):
    """Runs the recorded job again on the current tree: exit 1 if it still reports the violation."""
    v = json.load(open(path))
    ctx = Ctx(v["property"], "quick", 1)
    sp = v["replay"]
    impl = next((i for i in B.impls() if i.name == sp["impl"]), None)
    if impl is None:
        print("implementation gone:", sp["impl"])
        return 2
    if sp.get("special") == "arm_registers":
        arm_registers(ctx, impl, sp["args"], sp["label"], sp["req"]["icf"])
        print("reproduced" if ctx.viols else "not reproduced")
        return 1 if ctx.viols else 0
    j = Job(impl, args=sp["args"], env=sp.get("env"), wrap=sp.get("wrap", ()), san=sp.get("san"), runpre=sp.get("runpre"), kinds=sp.get("kinds"), **sp["req"])
    if sp.get("march") is not None:
        j.impl = j.req["impl"] = B.variant(impl, sp["arch"], sp["march"])
    run_jobs(ctx, [j])
    for x in ctx.viols:
        print(x["impl"], x["kind"], x["message"])
    print("reproduced" if ctx.viols else "not reproduced")
    return 1 if ctx.viols else 0


# ---------------------------------------------------------------- C01, C02, C11: conformity
CONF_RULE = ("A case is one call (key, nonce, associated data, plaintext) judged against the executable model of the specification: every single key and nonce bit, "
             "all pairs of lengths up to G, sweeps of each length, lengths around powers of two and block multiples, structured and random contents, and cases steered "
             "towards the lengths and values that the running code compares against (comparison feedback). Non-trivial: plaintext or associated data not empty, counted once per distinct input.")


def conf(ctx, mode):
    jobs = []
    kinds = {"enc": "enc-.*|crash|hang|corruption", "dec": "dec-.*|crash|hang|corruption", "hash": "hash-.*|crash|hang|corruption"}[mode]
    for i in ctx.impls(hash_only=mode == "hash"):
        s = slow(i)
        if ctx.quick:
            k = dict(G=[0, 40, 36, 24, 14][s], W=[0, 1100, 700, 360, 200][s], NR=[0, 600, 300, 150, 80][s],
                     BULK=[0, 1 << 21, 1 << 20, 1 << 18, 1 << 16][s], P2=[0, 18, 17, 15, 14][s])
        else:
            k = dict(G=[0, 150, 90, 70, 60][s], W=[0, 9000, 6000, 3000, 1500][s], NR=[0, 20000, 9000, 3000, 1500][s], RMAX=20000,
                     BULK=[0, 1 << 25, 1 << 24, 1 << 22, 1 << 21][s], P2=[0, 22, 20, 18, 17][s])
        if mode == "hash":
            k = dict(W=1500 if ctx.quick else 9000, NR=400 if ctx.quick else 20000, P2=18 if ctx.quick else 22, BULK=(1 << 21) if ctx.quick else 1 << 25)
            if i.arm: k["BULK"] >>= 3
        # more than 2^16 blocks at least
        k["BULK"] = max(k["BULK"], 65536 * (18 if i.alg >= 2 else 8) + 4096)
        k["MASS_MS"] = ([0, 5000, 6000, 8000, 8000][s] if mode != "hash" else 8000) if ctx.quick else 600000
        jobs.append(Job(i, "release", MON, base_args(ctx, i, mode, "rel") + kv(**k), REL, timeout=600 if ctx.quick else 7200, kinds=kinds))
        q = ctx.quick
        k = dict(MAXEX=[0, 4000, 3000, 1500, 700][s] * (1 if q else 12), HAVOC=[0, 1500, 1200, 700, 400][s] * (1 if q else 20),
                 CAP=[0, 1 << 17, 1 << 16, 1 << 15, 1 << 14][s] << (0 if q else 3), MAXD=60 if q else 300, SUBMAX=400 if q else 2000)
        jobs.append(Job(i, "cmpfuzz", FUZZ, base_args(ctx, i, mode, "cov") + kv(**k), COV, timeout=600 if ctx.quick else 7200, kinds=kinds))
    run_jobs(ctx, jobs)
    return CONF_RULE


@prop("C01")
def c01(ctx): return conf(ctx, "enc")


@prop("C02")
def c02(ctx): return conf(ctx, "dec")


@prop("C11")
def c11(ctx): return conf(ctx, "hash")


# ---------------------------------------------------------------- C03 forgeries
@prop("C03")
def c03(ctx):
    jobs = []
    for i in ctx.impls():
        s, q = slow(i), ctx.quick
        k = dict(CASES=[0, 14, 10, 6, 3][s], BITS=[0, 80, 64, 32, 16][s], BIG=[0, 60, 30, 12, 5][s], BIGMAX=[0, 40000, 20000, 8000, 4000][s], PADSHIFT=[0, 120, 60, 24, 16][s], FULL=int(s < 4))
        if not q:
            k = dict(CASES=[0, 300, 150, 60, 30][s], BITS=300, BIG=[0, 2000, 900, 300, 100][s], BIGMAX=100000, PADSHIFT=[0, 4000, 2000, 600, 200][s], FULL=1)
        jobs.append(Job(i, "release", MON, base_args(ctx, i, "forge", "rel") + kv(**k), REL, timeout=600 if q else 7200, kinds="accepted|crash|hang|corruption"))
        k = dict(MAXEX=[0, 4000, 3000, 1500, 700][s] * (1 if q else 12), HAVOC=[0, 1500, 1200, 700, 400][s] * (1 if q else 20),
                 CAP=[0, 1 << 15, 1 << 14, 1 << 13, 1 << 12][s] << (0 if q else 3), MAXD=60 if q else 300, SUBMAX=400 if q else 2000)
        jobs.append(Job(i, "cmpfuzz", FUZZ, base_args(ctx, i, "raw", "cov") + kv(**k), COV, timeout=600 if q else 7200, kinds="accepted|crash|hang|corruption"))
    run_jobs(ctx, jobs)
    return ("A case is one decryption of a message that differs from what encryption produces (the model decides): each tag bit and tag byte value, pairs that cancel under xor, sums and "
            "carries, permuted, constant and partly right tags, body, associated-data, nonce and key changes, truncations, extensions and boundary moves, and tags steered by the comparisons "
            "the running code makes. Violation: return value 0. Each is non-trivial; counted once per distinct input.")


# ---------------------------------------------------------------- C05 short inputs
@prop("C05")
def c05(ctx):
    jobs = []
    for i in ctx.impls():
        jobs.append(Job(i, "release", MON, base_args(ctx, i, "short", "rel") + kv(REPS=(6 if ctx.quick else 120)), REL, timeout=60 if ctx.quick else 1800))
        if i.x86:  # the same under AddressSanitizer: internal objects too
            jobs.append(Job(i, "asan", MON, base_args(ctx, i, "short", "asan") + kv(REPS=(4 if ctx.quick else 60)),
                            ["-O1", "-g", "-fsanitize=address"], ldf=["-fsanitize=address"], hcf=["-O1", "-fsanitize=address", "-DNO_CRASH_MONITOR"], san="asan",
                            env={"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=0"}, timeout=120 if ctx.quick else 1800))
    run_jobs(ctx, jobs)
    return ("A case is one decryption with ciphertext length 0..15 and every associated-data size class, all inputs flush with an inaccessible page, the plaintext buffer inaccessible or null, contents "
            "random, constant or a prefix/suffix of the tag of the empty message. Violation: return 0, any fault, or no return. Each is non-trivial; counted once per distinct input.")


# ---------------------------------------------------------------- C08 purity
AMBIENT = ("rand random lrand48 mrand48 getpid getppid getuid geteuid sched_getcpu clock getenv secure_getenv getauxval sysconf time clock_gettime gettimeofday getrandom getentropy").split()


@prop("C08")
def c08(ctx):
    jobs = []
    for i in ctx.impls():
        s, q = slow(i), ctx.quick
        k = dict(N=[0, 6000, 4000, 2000, 1000][s], TINY=[0, 140000, 70000, 20000, 9000][s], ALIAS=[0, 300, 200, 100, 60][s])
        k["TINY"] = max(k["TINY"], 66600)
        if not q: k = {a: b * 20 for a, b in k.items()}
        k["REPS_MS"] = 25000 if q else 600000
        jobs.append(Job(i, "release", MON, base_args(ctx, i, "pure", "rel") + kv(**k), REL, timeout=600 if q else 7200, kinds="history|input-write|corruption"))
        jobs.append(Job(i, "ambient", MON, base_args(ctx, i, "ambient", "amb") + kv(N=[0, 600, 300, 150, 80][s] * (1 if q else 20)), REL, hcf=["-O1"], hdefs=["-DAMBIENT"], ldf=["-Wl,--wrap=" + f for f in AMBIENT],
                        timeout=600 if q else 7200, kinds="ambient|crash|hang"))
    run_jobs(ctx, jobs)
    return ("A case is one call inside a long history of encryptions, accepted, rejected and short decryptions and hashes (same and changing keys), on a stack dirtied with known contents, with inputs in "
            "write-protected memory that may overlap one another; its result is judged by the model, which has no history. Then the same calls with other answers of the system to every question about time, randomness, environment variables and processor features. Non-trivial: not an exact repeat of an earlier input with both texts empty.")


# ---------------------------------------------------------------- C12 placement
@prop("C12")
def c12(ctx):
    jobs = []
    for i in ctx.impls():
        s, q = slow(i), ctx.quick
        k = dict(MAXO=[0, 64, 64, 32, 16][s], NR=[0, 1500, 700, 300, 120][s])
        if not q: k["NR"] *= 30
        jobs.append(Job(i, "release", MON, base_args(ctx, i, "place", "rel") + kv(**k), REL, timeout=600 if q else 7200))
        for label, march, icf in CROSS(i):
            v = B.variant(i, "armv6" if "armv6" in label else "thumb2", march)
            k2 = dict(MAXO=16, NR=[0, 300, 200, 80, 40][s] * (1 if q else 20))
            jobs.append(Job(v, label, MON, base_args(ctx, i, "place", label) + kv(**k2), icf, timeout=600 if q else 7200, optional=True))
        if i.x86 and "avx" not in i.name:
            k2 = dict(MAXO=16, NR=150)
            fl = ["-fsanitize=alignment", "-fno-sanitize-recover=alignment"]
            jobs.append(Job(i, "ubsan-alignment", MON, base_args(ctx, i, "place", "ubal") + kv(**k2), ["-O1"] + fl, cc="clang", hcf=["-O1"], ldf=fl, san="ubsan", timeout=600))
    run_jobs(ctx, jobs)
    return ("A case is an encryption, the decryption of its result and a rejected decryption (or a hash) with all buffers at given addresses: each buffer at every offset modulo 64, joint small offsets, page "
            "crossings, null pointers for empty inputs; natively, with alignment instrumentation, and with every portable implementation cross-built for ARM, where a multi-word load from an unaligned address faults. "
            "Non-trivial: each, counted once per distinct placement and lengths.")


def CROSS(i):
    """Portable C implementations built for the 32-bit ARM targets of the project."""
    if i.arch != "x86" or i.has_asm:
        return []
    return [("cross-armv6", ["-march=armv6", "-marm"], ["-O3"]), ("cross-thumb2", ["-march=armv7-a", "-mthumb"], ["-O2"])]


# ---------------------------------------------------------------- C04 nothing released before verification
KASAN = ["-O1", "-g", "-fsanitize=kernel-address", "--param", "asan-instrumentation-with-call-threshold=0", "--param", "asan-stack=0",
         "--param", "asan-globals=0", "-fsanitize-coverage=trace-pc,trace-cmp"]
TRACE = ["trace.c", "oracle.c"]


@prop("C04")
def c04(ctx):
    jobs, q = [], ctx.quick
    for i in ctx.impls():
        s = slow(i)
        kinds = "crash|input-write|released|accepted|work-before-verification|corruption"
        k = dict(CASES=[0, 400, 300, 200, 120][s], MAX=[0, 9000, 6000, 3000, 1500][s])
        if not q: k = {a: b * 10 for a, b in k.items()}
        jobs.append(Job(i, "release", MON, base_args(ctx, i, "norelease", "rel") + kv(**k), REL, timeout=600 if q else 7200, kinds=kinds))
        k = dict(MAXEX=[0, 4000, 3000, 1500, 700][s] * (1 if q else 12), HAVOC=[0, 1500, 1200, 700, 400][s] * (1 if q else 20), REL=1,
                 CAP=[0, 1 << 15, 1 << 14, 1 << 13, 1 << 12][s] << (0 if q else 3), MAXD=60 if q else 300, SUBMAX=400 if q else 2000)
        jobs.append(Job(i, "cmpfuzz", FUZZ, base_args(ctx, i, "raw", "rel") + kv(**k), COV, timeout=600 if q else 7200, kinds=kinds))
        k = dict(N=40 if q else 400, MAX=[0, 16384, 8192, 4096, 2048][s])
        jobs.append(Job(i, "work", TRACE, base_args(ctx, i, "work", "work") + kv(**k), KASAN, timeout=600 if q else 7200, kinds=kinds))
    run_jobs(ctx, jobs)
    if ctx.counts.get("work_compared", 0) < 5 * len(ctx.per):
        ctx.error("the work monitor compared too few executions")
    return ("A case is one rejected decryption: (a) with the plaintext buffer write-protected or at an inaccessible page, over all short lengths, random lengths and contents steered by comparison feedback, "
            "a write, even one that is undone later, faults; (b) with every basic block and memory access counted: the events of a rejected decryption grow with the message length like authentication alone, not like "
            "authentication plus decryption. Non-trivial: message not empty; counted once per distinct input.")


# ---------------------------------------------------------------- C06 memory accesses in bounds
ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=0:detect_stack_use_after_return=1"}


@prop("C06")
def c06(ctx):
    jobs, q = [], ctx.quick
    kinds = "crash|input-write|out-of-bounds-write|asan|corruption|out-of-bounds"
    for i in ctx.impls():
        s = slow(i)
        if i.arm and i.alg >= 2: s = 4
        k = dict(G=[0, 20, 16, 10, 7][s], W=[0, 400, 240, 120, 60][s], NR=[0, 150, 80, 30, 12][s], RMAX=[0, 20000, 12000, 5000, 2500][s])
        if not q: k = dict(G=[0, 60, 40, 36, 20][s], W=[0, 4000, 2000, 900, 500][s], NR=[0, 6000, 3000, 700, 300][s], RMAX=60000)
        k["MASS_MS"] = [0, 5000, 6000, 8000, 8000][s] if q else 600000
        if q: k["RMAX"] = max(k["RMAX"], 8192)
        jobs.append(Job(i, "release", MON, base_args(ctx, i, "guard", "rel") + kv(**k), REL, timeout=600 if q else 7200, kinds=kinds))
        for mode in ("enc", "dec", "raw"):
            k = dict(MAXEX=[0, 2500, 1600, 700, 300][s] * (1 if q else 12), HAVOC=[0, 900, 600, 300, 150][s] * (1 if q else 20), GUARD=2,
                     CAP=[0, 1 << 16, 1 << 15, 1 << 13, 1 << 12][s] << (0 if q else 3), MAXD=40 if q else 300, SUBMAX=300 if q else 2000)
            jobs.append(Job(i, "cmpfuzz-" + mode, FUZZ, base_args(ctx, i, mode, "guard") + kv(**k), COV, timeout=600 if q else 7200, kinds=kinds))
        k = dict(G=[0, 12, 10, 7, 5][s], W=[0, 150, 100, 50, 30][s], NR=[0, 60, 40, 15, 8][s], RMAX=[0, 9000, 6000, 2500, 1200][s])
        if not q: k = dict(G=36, W=1000, NR=[0, 2000, 1000, 300, 150][s], RMAX=40000)
        if i.x86:
            cc = "gcc" if i.arch == "avx512" else "clang"
            jobs.append(Job(i, "asan", MON, base_args(ctx, i, "guard", "asan") + kv(**k), ["-O1", "-g", "-fsanitize=address", "-fsanitize-address-use-after-scope"], cc=cc,
                            ldf=["-fsanitize=address"], hcf=["-O1", "-fsanitize=address", "-DNO_CRASH_MONITOR"], san="asan", env=ASAN_ENV, timeout=600 if q else 7200, kinds=kinds))
        else:
            jobs.append(Job(i, "kasan", MON + ["kasan.c"], base_args(ctx, i, "guard", "asan") + kv(**k), KASAN_ARM, hcf=["-O1"], timeout=600 if q else 7200, kinds=kinds))
    run_jobs(ctx, jobs)
    return ("A case is one call with every buffer exactly sized and flush with an inaccessible page, on either side, canary bytes on the other side and inputs write-protected: all pairs of short lengths, sweeps, random "
            "lengths, lengths steered by comparison feedback, for encryption, accepted and rejected decryption and hashing; the release build and builds with AddressSanitizer (ARM: the same compiler instrumentation over "
            "a shadow memory of ours), which also watches objects inside the implementation. Non-trivial: a text not empty; counted once per distinct input.")


KASAN_ARM = ["-O1", "-g", "-fsanitize=kernel-address", "-fasan-shadow-offset=0x20000000", "--param", "asan-instrumentation-with-call-threshold=0",
             "--param", "asan-stack=1", "--param", "asan-globals=1"]


def slowcc(i):
    """Big unrolled functions: clang's sanitizers take a minute on them when optimising."""
    return i.arch == "x86" and any(x in i.name for x in ("opt_64", "opt_32", "bi_32"))


# ---------------------------------------------------------------- C07 undefined behaviour, uninitialised memory
@prop("C07")
def c07(ctx):
    jobs, q = [], ctx.quick
    kinds = "ubsan|msan|crash|memcheck|uninitialised.*"
    tmo = 600 if q else 7200
    for i in ctx.impls():
        s = slow(i)
        if i.arm and i.alg >= 2: s = 4
        k = dict(G=[0, 16, 12, 8, 5][s], W=[0, 200, 120, 60, 40][s], P2=[0, 13, 12, 10, 9][s], NR=[0, 100, 60, 30, 12][s], RMAX=3000, BULK=0, KB=int(s < 3), REPS=2, CASES=[0, 3, 2, 1, 1][s], BITS=16, FULL=0,
                 BIG=4, BIGMAX=3000, MAXO=[0, 16, 16, 8, 8][s], DN=[0, 80, 60, 40, 20][s])
        if not q: k = dict(G=40, W=1500, P2=16, NR=[0, 3000, 1500, 500, 200][s], RMAX=20000, BULK=1 << 18, KB=1, REPS=20, CASES=[0, 40, 20, 8, 4][s], BITS=64, FULL=1, BIG=60, BIGMAX=30000, MAXO=64, DN=600)
        a = kv(**k)
        if i.x86:
            big = "isapk" in i.name and "opt_64" in i.name
            fl = ["-fsanitize=undefined"]
            cc = "gcc" if i.arch == "avx512" else "clang"
            if cc == "clang": fl += ["-fno-sanitize=vptr"]
            jobs.append(Job(i, "ubsan", MON, base_args(ctx, i, "mix", "ub") + a, ["-O0" if big or q and slowcc(i) else "-O1", "-g1"] + fl, cc=cc, hcf=["-O1"], ldf=fl, san="ubsan", timeout=tmo, kinds=kinds))
        else:
            fl = ["-fsanitize=undefined", "-fsanitize-undefined-trap-on-error"]
            jobs.append(Job(i, "ubsan-trap", MON, base_args(ctx, i, "mix", "ub") + a, ["-O1", "-g1"] + fl, hcf=["-O1"], timeout=tmo, kinds=kinds))
            jobs.append(Job(i, "dirty-stack", MON, base_args(ctx, i, "dirty", "rel") + kv(DN=k["DN"] * 2), REL, timeout=tmo, kinds=kinds))
        if i.arch == "x86":
            jobs.append(Job(i, "msan", MON, base_args(ctx, i, "mix", "ms") + a, ["-O0" if big else "-O1", "-g1", "-fsanitize=memory"], cc="clang", hcf=["-O1", "-fsanitize=memory", "-DNO_CRASH_MONITOR"], ldf=["-fsanitize=memory"],
                            env={"MSAN_OPTIONS": "exitcode=0:poison_in_dtor=0"}, san="msan", timeout=tmo, kinds=kinds))
            jobs.append(Job(i, "memcheck", ["vg.c", "oracle.c"], base_args(ctx, i, "uninit", "vg") + kv(NR=[0, 60, 40, 20, 10][s] * (1 if q else 20), G=[0, 10, 8, 6, 4][s] * (1 if q else 3)),
                            REL + ["-g"], wrap=["valgrind", "-q", "--error-limit=no", "--num-callers=6"], timeout=tmo, kinds=kinds))
        elif i.arch == "avx512":
            jobs.append(Job(i, "dirty-stack", MON, base_args(ctx, i, "dirty", "rel") + kv(DN=k["DN"] * 6), REL, timeout=tmo, kinds=kinds))
        # arithmetic on lengths: nominal lengths up to 2^45 (ARM: 2^31), of which the first part is processed
        pk = kv(PRE=32768 if i.x86 else 4096, RND=4 if q else 60)
        if i.x86:
            jobs.append(Job(i, "ubsan-lengths", ["big.c", "oracle.c"], base_args(ctx, i, "prefix", "ubl") + pk, ["-O0" if big or q and slowcc(i) else "-O1", "-g1"] + fl, cc=cc, hcf=["-O1"], ldf=fl, san="ubsan", timeout=tmo, kinds=kinds))
        else:
            jobs.append(Job(i, "ubsan-lengths", ["big.c", "oracle.c"], base_args(ctx, i, "prefix", "ubl") + pk, ["-O1", "-g1"] + fl, hcf=["-O1"], timeout=tmo, kinds=kinds))
    run_jobs(ctx, jobs)
    return ("A case is one call (conforming, forged, short, misaligned, with null pointers for empty inputs) executed by an instrumented build: UndefinedBehaviorSanitizer (ARM: trapping), MemorySanitizer, and memcheck on the "
            "release build, which must also find every output byte defined; where those do not exist (ARM, AVX-512), the same calls on stacks holding different stale contents. Non-trivial: a text not empty; counted once per distinct input.")


# ---------------------------------------------------------------- C10 secrets do not steer execution
@prop("C10")
def c10(ctx):
    jobs, q = [], ctx.quick
    tmo = 600 if q else 7200
    kinds = "secret-dependent"
    for i in ctx.impls():
        s = slow(i)
        heavy = i.alg == 3 and "ref" in i.name
        k = dict(SETS=6 if q else 40, REPS=10 if heavy else 24, REJ=70 if heavy else 80, HINTS=60 if heavy else 300)
        if not q: k.update(REPS=24 if heavy else 100, REJ=90 if heavy else 400, HINTS=2000)
        jobs.append(Job(i, "trace", TRACE, base_args(ctx, i, "ct", "tr") + kv(**k), KASAN, ldf=["-no-pie"] if i.x86 else [], timeout=tmo, kinds=kinds))
        # the same on optimised code
        jobs.append(Job(i, "trace-O3", TRACE, base_args(ctx, i, "ct", "tr3") + kv(**k), ["-O3"] + KASAN[1:], ldf=["-no-pie"] if i.x86 else [], timeout=tmo, kinds=kinds))
        if i.arch == "x86":
            jobs.append(Job(i, "taint", ["vg.c", "oracle.c"], base_args(ctx, i, "taint", "vg") + kv(SETS=5 if q else 60, REJ=26), REL + ["-g"],
                            wrap=["valgrind", "-q", "--error-limit=no", "--num-callers=6"], timeout=tmo, kinds=kinds))
        if i.x86 and (not q or i.arch == "avx512"):
            jobs.append(Job(i, "single-step", TRACE, base_args(ctx, i, "ct", "ss") + kv(BUDGET=2000000 if q else 60000000, SETS=6 if q else 20), REL, hcf=["-O1", "-DSTEP"], ldf=["-no-pie"], timeout=tmo, kinds=kinds))
    run_jobs(ctx, jobs)
    return ("A case is one traced call: lengths, nonce and associated data fixed, key, message and tag varied (structured, random, values taken from comparisons the code makes, tags that differ in every single byte, prefix and suffix). "
            "Every basic block entered and every address accessed (instrumented builds), or every instruction (single-stepped release build), must equal the reference trace of the same verdict; memcheck with the secrets marked undefined must see no "
            "dependent branch or address in encryption and only the verdict in decryption. Counted once per distinct input.")


# ---------------------------------------------------------------- C13 build configurations
X86_CONF = [("gcc-O0", "gcc", ["-O0"]), ("gcc-O1-uchar-pattern", "gcc", ["-O1", "-funsigned-char", "-ftrivial-auto-var-init=pattern"]), ("gcc-O2-noinline", "gcc", ["-O2", "-fno-inline", "-fstack-protector-all"]),
            ("gcc-Os", "gcc", ["-Os"]), ("gcc-O3-native-lto", "gcc", ["-O3", "-march=native", "-flto"]), ("gcc-O3-unroll-pic", "gcc", ["-O3", "-funroll-all-loops", "-fPIC", "-fomit-frame-pointer"]),
            ("clang-O0-pattern", "clang", ["-O0", "-ftrivial-auto-var-init=pattern"]), ("clang-O1", "clang", ["-O1"]), ("clang-O2", "clang", ["-O2"]), ("clang-O3-native", "clang", ["-O3", "-march=native"]),
            ("clang-Oz-uchar", "clang", ["-Oz", "-funsigned-char"])]
ARM_CONF = [("gcc-O0", None, ["-O0"]), ("gcc-O1-pattern", None, ["-O1", "-ftrivial-auto-var-init=pattern"]), ("gcc-O2", None, ["-O2"]), ("gcc-Os", None, ["-Os"]),
            ("clang-O2", "clang-arm", ["-O2"]), ("clang-Os", "clang-arm", ["-Os"]), ("gcc-O3-schar", None, ["-O3", "-fsigned-char"]), ("gcc-O2-noinline-fp", None, ["-O2", "-fno-inline", "-fno-omit-frame-pointer"])]


def toggled(ctx, i):
    """A scratch copy of the implementation with the hash switch in its configuration header turned over."""
    import glob, re, shutil
    d = os.path.join(ctx.scratch, "toggle_" + i.name.replace("/", "_"))
    shutil.copytree(os.path.join(B.REPO, i.dir), d, symlinks=False)
    n = 0
    for h in glob.glob(d + "/*.h"):
        s = open(h).read()
        s2 = re.sub(r"(#\s*define\s+ENABLE_HASH\s+)([01])", lambda m: m.group(1) + "10"[int(m.group(2))], s)
        if s2 != s:
            n += 1
            open(h, "w").write(s2)
    if not n:
        return None
    srcs = sorted(glob.glob(d + "/*.[csS]"))
    hh = not i.has_hash and any(re.search(r"\bcrypto_hash\s*\(", open(s, errors="replace").read()) for s in srcs)
    return B.Impl(i.name, i.alg, i.arch, i.dir, srcs, ["-I" + d, "-I" + os.path.join(B.REPO, "tests"), "-DCRYPTO_AEAD"], hh, i.march)


@prop("C13")
def c13(ctx):
    jobs, q = [], ctx.quick
    tmo = 600 if q else 7200
    kinds = "enc-.*|dec-.*|hash-.*|crash|hang|corruption"
    nconf = set()
    for i in ctx.impls():
        s = slow(i)
        k = dict(G=[0, 14, 11, 8, 5][s], W=[0, 120, 80, 40, 24][s], P2=[0, 12, 11, 10, 9][s], NR=[0, 80, 50, 25, 12][s], RMAX=2000, BULK=0, KB=int(s < 4))
        if not q: k = dict(G=[0, 50, 40, 30, 20][s], W=[0, 2000, 1200, 600, 300][s], P2=16, NR=[0, 3000, 1500, 500, 250][s], RMAX=20000, BULK=1 << 20, KB=1)
        for label, cc, fl in (X86_CONF if i.x86 else ARM_CONF):
            if i.arch == "avx512":
                if "-O0" in fl or cc == "clang" and "isapa" in i.name: continue
            nconf.add(label)
            jobs.append(Job(i, label, MON, base_args(ctx, i, "all", label) + kv(**k), fl, cc=cc, hcf=["-O1"], hcc=cc, ldf=[f for f in fl if f == "-flto"] and ["-flto", "-O3"], timeout=tmo,
                            kinds=kinds, optional=cc == "clang" or "-march=native" in fl or i.arm))
        # NDEBUG off, hash switch turned over
        jobs.append(Job(i, "no-NDEBUG", MON, base_args(ctx, i, "all", "nd") + kv(**k), ["-O3"], hcf=["-O1"], timeout=tmo, kinds=kinds))
        t = None if i.dir == B.XREF else toggled(ctx, i)
        if t:
            jobs.append(Job(t, "hash-switch-turned", MON, base_args(ctx, i, "all", "tg") + kv(**k), REL, hcf=["-O1"], timeout=tmo, kinds=kinds, optional=True))
            nconf.add("hash-switch-turned")
        for label, march, icf in CROSS(i):
            v = B.variant(i, "armv6" if "armv6" in label else "thumb2", march)
            nconf.add(label)
            k2 = dict(k, G=max(4, k["G"] // 2), W=k["W"] // 3, P2=8, NR=k["NR"] // 2, KB=0)
            jobs.append(Job(v, label, MON, base_args(ctx, i, "all", label) + kv(**k2), icf, hcf=["-O1"], timeout=tmo, kinds=kinds, optional=True))
    run_jobs(ctx, jobs)
    ctx.extra["configurations"] = sorted(nconf | {"gcc-O3-without-NDEBUG"})
    return ("A case is one call of one build judged against the model; builds are all implementations x compilers, optimisation levels, inlining, signedness of char, automatic-variable initialisation patterns, native instruction "
            "sets, link-time optimisation, hash switch, assertions, and 32-bit ARM cross builds of the portable code. Non-trivial: a text not empty; counted once per build and distinct input.")


# ---------------------------------------------------------------- C16 leakage-resilient tag verification
def arm_registers(ctx, i, args, label, icf):
    """qemu's register log of every instruction, judged by the same monitor in a native process."""
    import re
    try:
        exe = ctx.builder.program(i, label, ["stp.c", "oracle.c"], icf=icf, hcf=["-O2"], hdefs=["-DTARGET"])
        con = os.path.join(ctx.scratch, "stp_consumer")
        with ctx.lock:
            if not os.path.exists(con):
                r = B.sh(["gcc", "-O2", "-DCONSUMER", "-w", "-I" + B.HARN, os.path.join(B.HARN, "stp.c"), os.path.join(B.HARN, "oracle.c"), "-o", con])
                if r.returncode: raise B.BuildError(r.stdout.decode()[-500:])
    except B.BuildError as e:
        ctx.error(f"{i.name}: build failed ({label}): {str(e)[-600:]}")
        return
    syms = [l.split() for l in B.sh(["arm-linux-gnueabi-nm", "-n", exe]).stdout.decode().splitlines()]
    entry = next(int(s[0], 16) & ~1 for s in syms if s[-1] == "crypto_aead_decrypt")
    text = [int(s[0], 16) & ~1 for s in syms if len(s) == 3 and s[1] in "tT"]

    def run(rng, extra):
        cmd = f"qemu-arm -one-insn-per-tb -d cpu,nochain -dfilter {rng} {exe} {' '.join(args)} {extra} 2>&1 >/dev/null </dev/null | {con} {' '.join(args)} ENTRY={entry} {extra}"
        return subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.PIPE, errors="replace", timeout=600 if ctx.quick else 7200).stdout
    pil = run(f"{min(text):#x}..{max(text):#x}", "TRIALS=64 PILOT=1")
    m = re.search(r"P steps=(\d+) first=(-?\d+)", pil)
    pcs = sorted({int(l[2:], 16) for l in pil.splitlines() if l.startswith("A ")})
    if not m or not pcs:
        ctx.error(f"{i.name} {label}: no register log: {pil[:200]}")
        return
    # from the first sight of the expected tag on: those instructions and their neighbourhood
    rng, lo, hi = [], None, None
    for p in sorted(set(pcs) | {entry}):
        if lo is None or p > hi + 192:
            if lo is not None: rng.append((lo, hi))
            lo = max(0, p - 64)
        hi = p + 64
    rng.append((lo, hi))
    if len(rng) > 60: rng = [(min(pcs) - 64, max(pcs) + 64)]
    # two small harness functions between the trials must not be counted: start at the entry, which is in a range
    j = Job(i, label, ["stp.c", "oracle.c"], args, icf, label=label)
    j.req["hdefs"] = ["-DTARGET"]
    out = run(",".join(f"{a:#x}..{b:#x}" for a, b in rng), "")
    ctx.times.append((0, 0, i.name, label))
    for line in out.splitlines():
        t, _, rest = line.partition(" ")
        if t == "V":
            kind, _, msg = rest.partition(" ")
            sp = j.spec()
            sp["special"] = "arm_registers"
            ctx.violation(i.name, kind, msg, sp)
        elif t == "S":
            from .core import STAT_RE
            st = {k: int(v) for k, v in STAT_RE.findall(rest)}
            with ctx.lock:
                for k, v in st.items(): ctx.counts[k] = ctx.counts.get(k, 0) + v
                p = ctx.per.setdefault(i.name, {})
                p[label] = p.get(label, 0) + st.get("eval", 0)
        elif t == "X":
            with ctx.lock: ctx.samples.append(f"[{i.name} | {label}] {rest[:400]}")
        elif t == "E":
            ctx.error(f"{i.name} {label}: {rest[:300]}")
    if "S eval" not in out: ctx.error(f"{i.name} {label}: no verdict: {out[:300]}")


@prop("C16")
def c16(ctx):
    import threading
    jobs, th = [], []
    q = ctx.quick
    stp = ctx.impls(filt=lambda i: "_stp" in i.name)
    kinds = "tags-compared"
    shapes = [(0, 0), (9, 5)] if q else [(0, 0), (9, 5), (1, 0), (0, 17), (40, 33)]
    for i in stp:
        builds = [("release", REL, None)] + ([] if q else [("O0", ["-O0"], None), ("O2", ["-O2"], None), ("Os", ["-Os"], None)] + ([("clang-O2", ["-O2"], "clang")] if i.x86 else []))
        for n, (ml, al) in enumerate(shapes):
            for label, fl, cc in builds:
                if q and n and "aead_hash" in i.name: continue
                a = kv(SEED=ctx.seed, SALT=salt(i, label + str(n)), TRIALS=(128 if i.x86 else 64) if q else 256, ML=ml, AL=al)
                if i.x86:
                    jobs.append(Job(i, f"{label}-{ml}-{al}", ["stp.c", "oracle.c"], a, fl, cc=cc, hcf=["-O2"], hcc="gcc", timeout=600 if q else 7200, kinds=kinds))
                elif "-O0" not in fl:
                    t = threading.Thread(target=arm_registers, args=(ctx, i, a, f"{label}-{ml}-{al}", fl))
                    th.append(t)
    if q:
        for t in th: t.start()
        run_jobs(ctx, jobs, workers=6)
        for t in th: t.join()
    else:
        run_jobs(ctx, jobs)
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as p: list(p.map(lambda t: t.run(), th))
    ctx.extra["rejections_per_build"] = 128 if q else 256
    return ("A case is one rejected decryption executed instruction by instruction, half with tags that differ from the expected one in a single bit, half with unrelated tags. All general registers, vector registers and flags at every step "
            "after the expected tag exists are lined up over all cases: none may equal a bit of the tag difference, none may separate the two classes. Every case is non-trivial; all have distinct keys and tags.")


# ---------------------------------------------------------------- C14 full-width lengths
@prop("C14")
def c14(ctx):
    jobs, q = [], ctx.quick
    kinds = "truncated|length-truncated|index-wraps|wild-access|big-.*|hang|crash"
    tmo = 800 if q else 20000
    BIG = ["big.c", "oracle.c"]
    native = ["-march=native"]
    full = []
    for i in ctx.impls():
        pre = 600 if slow(i) < 3 and "tiny" not in i.name and i.x86 else 200
        jobs.append(Job(i, "prefix", BIG, base_args(ctx, i, "prefix", "pre") + kv(PRE=pre * 1024 if not i.arm else 100000, RND=6 if q else 200), REL, hcf=["-O2"], timeout=tmo, kinds=kinds))
        if not i.x86: continue
        dup = i.has_hash and "isapa128av20" in i.name
        for op, bud in ((0, 75), (1, 55)) + (((4, 50),) if i.has_hash else ()):
            if q and dup and op != 4: continue
            full.append(Job(i, f"full-{op}", BIG, base_args(ctx, i, "full", "full") + kv(OP=op, BUDGET=bud if q else 4000), REL + (native if i.arch == "x86" else []), hcf=["-O2"], timeout=tmo, kinds=kinds))
            if not q:
                full.append(Job(i, f"value-{op}", BIG, base_args(ctx, i, "value", "val") + kv(OP=op), REL + (native if i.arch == "x86" else []), hcf=["-O2"], timeout=tmo, kinds=kinds))
    if q:
        run_jobs(ctx, full + jobs)
    else:
        run_jobs(ctx, [j for j in full if "value" not in j.label] + jobs)
        run_jobs(ctx, [j for j in full if "value" in j.label], workers=3)  # 4.3 to 8.6 GiB each
    res = {}
    for j in full:
        for l in (getattr(j, "out", "") or "").splitlines():
            if l.startswith("R "):
                _, op, v = l.split()
                res.setdefault((j.impl.alg, op), {}).setdefault(v, []).append(j)
            elif l.startswith("K "):
                ctx.skip(f"{j.impl.name}: {l[2:]}, beyond this tier's budget")
    for (alg, op), vs in res.items():
        ctx.add(**{"results_of_4GiB_runs_compared": sum(map(len, vs.values()))})
        if len(vs) > 1:
            top = max(len(x) for x in vs.values())
            tie = sum(len(x) == top for x in vs.values()) > 1
            for v, js in vs.items():
                if len(js) == top and not tie: continue
                for j in js:
                    judge(ctx, j, "big-value", f"{j.label}: result {v} for a 4 GiB input differs from that of other implementations of the same algorithm ({[x.impl.name for o, xs in vs.items() if o != v for x in xs][:4]})")
    return ("A case is one call with a length of 2^31 to 2^45 bytes: nominal lengths (around multiples of 2^32, powers of two, multiples of 18 * 2^32) over a region of which only the first part is accessible, where returning without touching the rest "
            "is a truncation; and complete runs over slightly more than 4 GiB, watched part by part for untouched parts and parts visited again and again, results compared between implementations (thorough: judged by the model). "
            "All are non-trivial; counted once per operation and length.")


# ---------------------------------------------------------------- C09 concurrency
SCHED = KASAN[:-1] + ["-fsanitize-coverage=trace-pc"]


@prop("C09")
def c09(ctx):
    jobs, q = [], ctx.quick
    kinds = "interference|tsan|crash|hang"
    tmo = 600 if q else 7200
    for i in ctx.impls():
        s = slow(i)
        k = dict(PAIRS=(14 if s < 4 else 8) if i.x86 else 10, PER=[0, 500, 400, 200, 80][s] if i.x86 else [0, 200, 160, 100, 60][s], RND=[0, 250, 200, 100, 30][s] if i.x86 else 60)
        if i.alg == 3 and "ref" in i.name.lower(): k.update(PAIRS=8, PER=40, RND=10)
        if not q: k = dict(PAIRS=40, PER=[0, 20000, 12000, 4000, 2000][s] // (1 if i.x86 else 4), RND=[0, 6000, 4000, 1500, 800][s] // (1 if i.x86 else 4), MAX=120)
        jobs.append(Job(i, "sched", ["conc.c", "oracle.c"], base_args(ctx, i, "sched", "sched") + kv(**k), SCHED, hcf=["-O2"], ldf=["-pthread"], timeout=tmo, kinds=kinds))
        # unoptimised: the compiler merges no two accesses of the source, so every window between them can be entered
        k = dict(k, PER=k["PER"] // (1 if s < 2 else 3), RND=k["RND"] // 4)
        jobs.append(Job(i, "sched-O0", ["conc.c", "oracle.c"], base_args(ctx, i, "sched", "sched0") + kv(**k), ["-O0"] + SCHED[1:], hcf=["-O2"], ldf=["-pthread"], timeout=tmo, kinds=kinds, optional=True))
        # fresh processes whose first calls interleave; calls inside calls on one thread
        k = dict(PER=[0, 300, 250, 150, 60][s], FEW=8 if i.x86 else 3, MAX=20)
        if not q: k = dict(PER=[0, 4000, 3000, 1500, 600][s], FEW=60 if i.x86 else 12, MAX=100, PAIRS=40)
        jobs.append(Job(i, "first-nested", ["conc.c", "oracle.c"], base_args(ctx, i, "first", "first") + kv(**k), SCHED, hcf=["-O2"], ldf=["-pthread"], timeout=tmo, kinds=kinds))
        k = dict(THREADS=8, JOBS=60, REPS=[0, 300, 200, 80, 30][s] if i.x86 else [0, 60, 50, 30, 15][s])
        if not q: k = dict(THREADS=16, JOBS=200, REPS=k["REPS"] * 40, MAX=600)
        jobs.append(Job(i, "stress", ["conc.c", "oracle.c"], base_args(ctx, i, "stress", "stress") + kv(**k), REL, hcf=["-O2"], ldf=["-pthread"], timeout=tmo, kinds=kinds))
        if i.x86:
            cc = "gcc" if i.arch == "avx512" else "clang"
            k = dict(THREADS=4, JOBS=30, REPS=[0, 30, 20, 8, 4][s] * (1 if q else 40), MAX=200)
            jobs.append(Job(i, "tsan", ["conc.c", "oracle.c"], base_args(ctx, i, "stress", "tsan") + kv(**k), ["-O1", "-g1", "-fsanitize=thread"], cc=cc, hcf=["-O1", "-fsanitize=thread", "-DNO_CRASH_MONITOR"],
                            ldf=["-fsanitize=thread"], san="tsan", env={"TSAN_OPTIONS": "exitcode=0:report_bugs=1"}, wrap=["setarch", "-R"] if setarch_ok() else [], timeout=tmo, kinds=kinds))
    run_jobs(ctx, jobs)
    if ctx.counts.get("hand_overs", 0) < 1000:
        ctx.error("hardly any controlled hand-over took place")
    return ("A case is one interleaving of two or three calls in real threads, of which the instrumented implementation lets one run at a time and hands over at a chosen basic block or memory access (every one for short calls, sampled for longer, "
            "and many random hand-overs), or one call among many threads; the result must be that of the call alone. ThreadSanitizer watches for races. Non-trivial: at least one hand-over inside a call; counted once per distinct interleaving "
            "(hash of the hand-over points) and input.")


# ---------------------------------------------------------------- C18 other processors
# little-endian, as everything the project is written for; 32 and 64 bits, char signed and unsigned, unaligned accesses allowed and not
PLATS = {
    "i386": ("", ["--target=i686-linux-gnu"]),
    "aarch64": ("qemu-aarch64", ["--target=aarch64-linux-gnu"]),
    "aarch64-strict": ("qemu-aarch64", ["--target=aarch64-linux-gnu", "-mstrict-align"]),
    "riscv32": ("qemu-riscv32", ["--target=riscv32-linux-gnu", "-march=rv32imac", "-mabi=ilp32"]),
    "riscv64": ("qemu-riscv64", ["--target=riscv64-linux-gnu", "-march=rv64imac", "-mabi=lp64"]),
    "mipsel": ("qemu-mipsel", ["--target=mipsel-linux-gnu", "-mno-abicalls", "-fno-pic", "-G0", "-mno-gpopt"]),
    "mips64el": ("qemu-mips64el", ["--target=mips64el-linux-gnu", "-mno-abicalls", "-fno-pic", "-G0", "-mno-gpopt"]),
    "ppc64le": ("qemu-ppc64le", ["--target=powerpc64le-linux-gnu"]),
    "loongarch64": ("qemu-loongarch64", ["--target=loongarch64-linux-gnu"]),
}
# the processors the ARM implementations are named after
CORES = [("armv6m-gcc", "gcc", ["-march=armv6s-m", "-mthumb", "-mfloat-abi=soft"]), ("armv7m-gcc", "gcc", ["-march=armv7-m", "-mthumb", "-mfloat-abi=soft"]),
         ("armv6-gcc", "gcc", ["-march=armv6", "-marm"]), ("armv5te-gcc", "gcc", ["-march=armv5te", "-marm"]), ("armv6m-clang", "clang", ["--target=thumbv6m-linux-gnueabi"]),
         ("armv7m-clang", "clang", ["--target=thumbv7m-linux-gnueabi"]), ("armv8m-clang", "clang", ["--target=thumbv8m.main-linux-gnueabi"]), ("armv6-clang", "clang", ["--target=armv6-linux-gnueabi", "-marm"]),
         ("armv7-clang", "clang", ["--target=armv7-linux-gnueabi"])]


@prop("C18")
def c18(ctx):
    import shutil
    jobs, q = [], ctx.quick
    tmo = 600 if q else 7200
    kinds = "enc-.*|dec-.*|hash-.*|crash|hang|corruption"
    plats = {n: v for n, v in PLATS.items() if not v[0] or shutil.which(v[0])}
    for n in set(PLATS) - set(plats): ctx.skip(f"{n}: no emulator")
    seen = set()
    for i in ctx.impls():
        s = slow(i)
        if i.arch == "x86" and not i.has_asm:
            for m, (pl, (qemu, fl)) in enumerate(sorted(plats.items())):
                big = "isapk" in i.name and "opt_64" in i.name  # a minute of optimiser time
                opts = ["-O0" if m % 3 else "-O1"] if big and q else [["-O2", "-O3", "-Os", "-O1"][(m + salt(i, "opt")) % 4]] if q else ["-O0", "-O1", "-O2", "-O3", "-Os", "-Oz"]
                for o in opts:
                    base = fl + ["-nostdlibinc", "-isystem", os.path.join(B.HARN, "plat")]
                    d = dict(G=[0, 12, 10, 8, 6][s], W=[0, 140, 100, 70, 50][s], NR=[0, 200, 120, 60, 40][s]) if q else dict(G=[0, 60, 50, 36, 24][s], W=[0, 2000, 1200, 500, 300][s], NR=[0, 6000, 3000, 1000, 500][s])
                    d.update(SEED=ctx.seed * 1000 + salt(i, pl + o) % 1000, MISALIGN=1)
                    label = f"{pl}{o}"
                    v = B.variant(i, "plat:" + qemu, base)
                    jobs.append(Job(v, label, ["plat.c", "oracle.c"], [], [o, "-DNDEBUG"], cc="clang", hcf=["-O1"], hdefs=[f"-D{a}={b}" for a, b in d.items()],
                                    ldf=fl + ["-nostdlib", "-fuse-ld=lld", "-Wl,-e,_start"], timeout=tmo, kinds=kinds, optional=True))
                    seen.add(label)
        if i.arm or i.arch == "x86" and not i.has_asm:
            for core, cc, fl in CORES:
                if q and not i.arm and salt(i, core + str(ctx.seed)) % 3: continue
                k = dict(G=[0, 10, 8, 7, 5][s], W=[0, 100, 80, 50, 40][s], NR=[0, 120, 80, 40, 30][s]) if q else dict(G=[0, 50, 40, 30, 20][s], W=[0, 1000, 700, 400, 300][s], NR=[0, 4000, 2000, 800, 400][s])
                for o in [["-O3", "-O2", "-Os"][salt(i, core) % 3]] if q else ["-O1", "-O2", "-O3", "-Os"]:
                    if q and "isapk" in i.name and "opt_64" in i.name: o = "-O1" if cc == "gcc" else "-O0"
                    d = dict(k, SEED=ctx.seed * 1000 + salt(i, core + o) % 1000, MISALIGN=1)
                    base = fl + (["-nostdlibinc"] if cc == "clang" else ["-fno-stack-protector"]) + ["-isystem", os.path.join(B.HARN, "plat")]
                    jobs.append(Job(B.variant(i, "plat:qemu-arm", base), core + o, ["plat.c", "oracle.c"], [], [o, "-DNDEBUG"], cc="clang" if cc == "clang" else "arm-linux-gnueabi-gcc", hcf=["-O1", "-ffreestanding"],
                                    hdefs=[f"-D{a}={b}" for a, b in d.items()], ldf=fl + ["-fuse-ld=lld"] * (cc == "clang") + ["-nostdlib", "-Wl,-e,_start"], timeout=tmo, kinds=kinds, optional=True))
                    seen.add(core + o)
        # the project's own builds on other models of the processor: code may ask what the processor can do
        n = dict(G=[0, 12, 10, 8, 6][s], W=[0, 60, 40, 30, 24][s], P2=[0, 10, 9, 8, 7][s], NR=[0, 40, 30, 20, 10][s], RMAX=600, BULK=0, KB=0)
        if not q: n = dict(G=[0, 40, 30, 24, 16][s], W=[0, 600, 400, 200, 100][s], P2=13, NR=[0, 1000, 600, 300, 150][s], RMAX=4000, BULK=0, KB=1)
        models = {"x86": ["qemu64", "Nehalem", "Haswell", "max"], "armv6": ["arm1136", "arm1176", "cortex-a7"], "thumb2": ["cortex-a8", "cortex-a9", "cortex-a15"]}.get(i.arch, [])
        if q: models = [models[(salt(i, "model") + ctx.seed + 2 * t) % len(models)] for t in range(min(2, len(models)))]
        for mdl in models:
            if not shutil.which("qemu-x86_64" if i.x86 else "qemu-arm"): continue
            jobs.append(Job(i, "model-" + mdl, MON, base_args(ctx, i, "all", "model" + mdl) + kv(**n), REL, hcf=["-O1"], wrap=["qemu-x86_64"] if i.x86 else [], env={"QEMU_CPU": mdl}, timeout=tmo, kinds=kinds))
            seen.add(mdl)
    run_jobs(ctx, jobs)
    ctx.extra["processors"] = sorted(seen)
    return ("A case is one encryption, decryption, rejected decryption or hash judged against the model on a processor family other than the one the tests use: all pairs of short lengths, sweeps, random lengths and "
            "contents, misaligned buffers; portable implementations on nine little-endian platforms and, with the ARM implementations, on the ARM cores they are written for as far as the compiler accepts them. Non-trivial: "
            "a text not empty, or a rejection.")


# ---------------------------------------------------------------- C17 the declared interface
@prop("C17")
def c17(ctx):
    jobs, q = [], ctx.quick
    for i in ctx.impls():
        s = slow(i)
        hdr = ['-DAPI_HDR="%s"' % os.path.join(B.REPO, i.dir, "api.h")]
        k = dict(NR=[0, 300, 160, 70, 45][s], BITS=[0, 8, 6, 4, 3][s])
        if not q: k = {a: b * 12 for a, b in k.items()}
        jobs.append(Job(i, "release", MON, base_args(ctx, i, "iface", "if") + kv(**k), REL, hdefs=hdr, timeout=600 if q else 7200, kinds="interface|crash|hang|corruption"))
    run_jobs(ctx, jobs)
    return ("A case is a set of calls with buffers of exactly the sizes that the implementation's api.h declares, flush with an inaccessible page after or before them: encryption and decryption twice over different old "
            "contents of the outputs, with an inaccessible secret-number argument, the length outputs surrounded by canaries, bits of every declared key, nonce, associated-data, message and tag byte flipped, and the same "
            "for the hash. Non-trivial: each, counted once per distinct sizes and key.")


# ---------------------------------------------------------------- C19 calling convention
@prop("C19")
def c19(ctx):
    jobs, q = [], ctx.quick
    for i in ctx.impls():
        s = slow(i)
        n = [0, 1200, 600, 250, 150][s] * (1 if q else 20)
        conf = [("release", None, REL), ("gcc-O1", None, ["-O1"]), ("gcc-Os", None, ["-Os"])]
        if i.arm: conf += [("gcc-O2", None, ["-O2"]), ("clang-O2", "clang-arm", ["-O2"])]
        elif not slowcc(i) or not q: conf += [("clang-O2", "clang", ["-O2"])]
        if i.x86 and not q: conf += [("native", None, ["-O3", "-march=native"]), ("clang-native", "clang", ["-O2", "-march=native"])]
        for label, cc, fl in conf:
            jobs.append(Job(i, "abi-" + label, ["abi.c", "abi_call.S", "oracle.c"], kv(SEED=ctx.seed, SALT=salt(i, "abi" + label), NR=n), fl, cc=cc, hcc="gcc" if i.x86 else None, hcf=["-O1"],
                            timeout=600 if q else 7200, kinds="abi.*|crash|hang", optional=label != "release"))
    run_jobs(ctx, jobs)
    return ("A case is one encryption, decryption, rejection or hash called through a trampoline that has filled every scratch register (vector and mask registers too), every preserved register, the flags, the "
            "floating-point control words and the words of the caller's stack with chosen values, on a stack of varying alignment (on ARM from ARM and from Thumb state). Afterwards preserved registers, stack pointer, "
            "the caller's stack, control words and processor modes are compared, and the result with that of a plain call. Non-trivial: each; counted once per distinct input.")


# ---------------------------------------------------------------- C15 resources
@prop("C15")
def c15(ctx):
    jobs, sysarm, q = [], [], ctx.quick
    kinds = "stack|heap|system-call|superlinear|hang"
    tmo = 600 if q else 7200
    RES = ["res.c", "oracle.c"]
    for i in ctx.impls():
        s = slow(i)
        k = dict(SMALL=[0, 300, 240, 150, 100][s], LARGE=[0, 20, 14, 8, 8][s], TOP=1 << 20, T1=1 << 15, T2=1 << 20)
        if s >= 3 and i.x86: k.update(TOP=1 << 19, T2=1 << 18, T1=1 << 14)
        if i.arm: k.update(TOP=1 << 17 if s < 3 else 1 << 15, T1=1 << 11, T2=1 << 16 if s < 3 else 1 << 15, SMALL=100)
        if not q: k.update(SMALL=6000 if s < 3 else 2000, LARGE=400 if s < 3 else 150, TOP=k["TOP"] * (16 if i.x86 else 8), T2=k["T2"] * (8 if i.x86 else 4))
        k["MASS_MS"] = 2000 if q else 60000
        builds = [("release", REL, None)]
        if not q: builds += [("O0", ["-O0"], None), ("Os", ["-Os"], None)] + ([("clang-O2", ["-O2"], "clang")] if i.x86 else [])
        for label, fl, cc in builds:
            jobs.append(Job(i, "stack-" + label, RES, base_args(ctx, i, "stack", "st" + label) + kv(**k), fl, cc=cc, hcc="gcc" if i.x86 else None, hcf=["-O2"], ldf=["-Wl,-z,now"], timeout=tmo, kinds=kinds, optional=label != "release"))
            n = dict(N=300, MAX=20000, BIG=1 << 19, BIGN=2) if i.x86 else dict(N=100, MAX=2000, BIG=1 << 15, BIGN=1)
            if not q: n = {a: b * 8 for a, b in n.items()}
            j = Job(i, "sys-" + label, RES, base_args(ctx, i, "sys", "sy" + label) + kv(**n), fl, cc=cc, hcc="gcc" if i.x86 else None, hcf=["-O2"], ldf=["-Wl,-z,now"], timeout=tmo, kinds=kinds,
                    runpre=["qemu-arm", "-strace"] if i.arm else None, optional=label != "release")
            jobs.append(j)
            if i.arm: sysarm.append(j)
        top = 1 << (11 if s >= 3 or i.arm else 12)
        jobs.append(Job(i, "linear", TRACE, base_args(ctx, i, "linear", "lin") + kv(TOP=top if q else top * 16), KASAN, timeout=tmo, kinds=kinds))
    run_jobs(ctx, jobs)
    for j in sysarm:  # calls lie between getppid() and getpgid(0) in the log
        inside, marks = False, 0
        for l in (getattr(j, "err", "") or "").splitlines():
            c = l.split(" ", 1)[-1]
            if c.startswith("getppid("):
                inside, marks = True, marks + 1
            elif c.startswith("getpgid(0"):
                inside = False
            elif inside and "(" in c:
                judge(ctx, j, "system-call", f"{j.label}: {c[:120]} inside call {marks} of the run {j.args}")
        if not marks and getattr(j, "out", None) and " V " not in j.out: ctx.skip(f"{j.impl.name} {j.label}: no system call log")
    if ctx.counts.get("seccomp_unavailable"):
        ctx.skip("no seccomp here: system calls of the x86 implementations not watched")
    return ("A case is one call: with lengths up to 1 MiB (thorough 16 MiB) on a painted stack of its own, whose high-water mark must not exceed that of short inputs of the same operation, every allocator entry point and every system call "
            "being reported; or with its executed basic blocks and memory accesses counted, and its CPU time measured, over a geometric series of lengths, which must grow linearly. All non-trivial; counted once per distinct input.")


def setarch_ok():
    return subprocess.run(["setarch", "-R", "true"], stdout=subprocess.PIPE, stderr=subprocess.PIPE).returncode == 0
