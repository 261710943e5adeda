"""Builds every implementation found in /repo's working tree, linked with a harness, in many flavours.

Nothing is written inside /repo: objects go to a scratch directory given by the caller."""
import glob, hashlib, os, re, shutil, subprocess, threading
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARN = os.path.join(VERIF, "harness")
ALGS = {"isapa128av20": 0, "isapa128v20": 1, "isapk128av20": 2, "isapk128v20": 3}
ALGN = ["ISAP-A-128A", "ISAP-A-128", "ISAP-K-128A", "ISAP-K-128"]
XREF = "crypto_aead/isapxv20/ref"
NCPU = os.cpu_count() or 4


def cpu_has_avx512():
    try:
        flags = open("/proc/cpuinfo").read()
    except OSError:
        return False
    return all(f in flags for f in ("avx512f", "avx512bw", "avx512cd", "avx512dq", "avx512vl"))


AVX512_OK = cpu_has_avx512()


class Impl:
    def __init__(self, name, alg, arch, dirs, sources, flags, has_hash, march=()):
        self.name, self.alg, self.arch = name, alg, arch  # arch: x86 | avx512 | armv6 | thumb2
        self.sources, self.flags, self.has_hash, self.march = sources, flags, has_hash, list(march)
        self.dir = dirs

    @property
    def x86(self):
        return self.arch in ("x86", "avx512")

    @property
    def arm(self):
        return not self.x86

    @property
    def has_asm(self):
        return any(s.endswith((".s", ".S")) for s in self.sources)

    def runnable(self):
        return self.arch != "avx512" or AVX512_OK

    def __repr__(self):
        return self.name


def impls():
    out = []
    cwd = REPO
    for d in sorted(glob.glob(os.path.join(cwd, "crypto_aead*/*/*/"))):
        rel = os.path.relpath(d, cwd)
        if rel == XREF:
            continue
        alg = os.path.basename(os.path.dirname(rel))
        if alg not in ALGS:
            continue
        impl = os.path.basename(rel)
        srcs = sorted(glob.glob(os.path.join(d, "*.[csS]")))
        if not srcs:
            continue
        if "avx" in impl:
            arch, march = "avx512", ["-march=x86-64-v4"]
        elif impl.endswith("_armv6"):
            arch, march = "armv6", ["-march=armv6", "-marm"]
        elif "arm" in impl:
            arch, march = "thumb2", ["-march=armv7-a", "-mthumb"]
        else:
            arch, march = "x86", []
        out.append(Impl(rel, ALGS[alg], arch, rel, srcs, ["-I" + os.path.join(cwd, rel), "-I" + os.path.join(cwd, "tests"), "-DCRYPTO_AEAD"]
                        + ["-DCRYPTO_HASH"] * rel.startswith("crypto_aead_hash/"),
                        rel.startswith("crypto_aead_hash/"), march))
    x = os.path.join(cwd, XREF)
    xs = [s for s in sorted(glob.glob(x + "/*.c") + glob.glob(x + "/lib/*/*.c")) if "genkat" not in os.path.basename(s)]
    for size, perm, alg in (("ISAP128A", "ASCON", 0), ("ISAP128", "ASCON", 1), ("ISAP128A", "KECCAKP400", 2), ("ISAP128", "KECCAKP400", 3)):
        if xs:
            out.append(Impl(f"{XREF}:{size}-{perm}", alg, "x86", XREF, xs,
                            ["-D" + size, "-D" + perm, "-DDEBUG=0"], False))
    return out


def variant(i, arch, march):
    """The same sources for another target."""
    return Impl(i.name, i.alg, arch, i.dir, i.sources, i.flags, i.has_hash, march)


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


CLANG_ARM = ["clang", "--target=arm-linux-gnueabi", "--sysroot=/usr/arm-linux-gnueabi", "-isystem", "/usr/arm-linux-gnueabi/include"]


class Builder:
    """flavour = (cc, cflags for the implementation, cflags for the harness, ldflags)."""

    def __init__(self, scratch, jobs=None):
        self.scratch = scratch
        self.lock = threading.Lock()
        self.cache = {}
        self.pool = ThreadPoolExecutor(jobs or NCPU)
        os.makedirs(scratch, exist_ok=True)

    def _obj(self, cmd):
        """Compile once per distinct command; returns the object path."""
        key = hashlib.sha256("\0".join(cmd).encode()).hexdigest()[:24]
        with self.lock:
            fut = self.cache.get(key)
            owner = fut is None
            if owner:
                from concurrent.futures import Future
                fut = self.cache[key] = Future()
        if not owner:
            return fut.result()
        try:
            obj = os.path.join(self.scratch, key + ".o")
            r = sh(cmd + ["-o", obj], cwd=REPO)
            if r.returncode:
                raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-3000:])
            fut.set_result(obj)
        except BaseException as e:
            fut.set_exception(e)
        return fut.result()

    def program(self, impl, tag, harness, hdefs=(), cc=None, icf=(), hcf=None, ldf=(), hcc=None):
        """Builds impl + harness sources. icf: flags for the implementation; hcf: for the harness."""
        arm = impl.arm
        if cc is None:
            cc = "arm-linux-gnueabi-gcc" if arm else "gcc"
        icc, lcc = [cc], cc
        if cc == "clang-arm":  # clang for the implementation, gcc's library and linker for the rest
            icc, lcc = CLANG_ARM, "arm-linux-gnueabi-gcc"
            hcc = hcc or lcc
        if hcc is None or hcc == "clang-arm":
            hcc = lcc
        hcf = list(hcf if hcf is not None else icf)
        objs = []
        for s in impl.sources:
            fl = [f for f in icf] if s.endswith(".c") else [f for f in icf if not f.startswith("-fsanitize")]
            objs.append(self._obj(icc + impl.march + fl + impl.flags + ["-w", "-c", s]))
        defs = [f"-DALG={impl.alg}", f"-DHAS_HASH={int(impl.has_hash)}"] + list(hdefs)
        march = impl.march if arm else []
        for h in harness:
            h2 = h if os.path.isabs(h) else os.path.join(HARN, h)
            if os.path.basename(h2) == "oracle.c":
                inst = ["-fsanitize=memory"] if "-fsanitize=memory" in hcf else []
                objs.append(self._obj([hcc] + march + ["-O2"] + inst + ["-c", h2]))
            else:
                objs.append(self._obj([hcc] + march + hcf + defs + ["-I" + HARN, "-w", "-c", h2]))
        exe = os.path.join(self.scratch, hashlib.sha256((impl.name + tag + " ".join(objs)).encode()).hexdigest()[:16] + ".exe")
        if True:
            link = [lcc] + (["-static"] if arm else []) + objs + list(ldf) + ["-o", exe]
            r = sh(link)
            if r.returncode:
                raise BuildError(" ".join(link) + "\n" + r.stdout.decode(errors="replace")[-3000:])
        return exe

    def programs(self, reqs):
        """reqs: list of dicts of program() arguments -> list of exe paths or BuildError, in order."""
        # big sources first
        order = sorted(range(len(reqs)), key=lambda i: "isapk" not in reqs[i]["impl"].name or "opt_64" not in reqs[i]["impl"].name)
        futs = {}
        for i in order:
            futs[i] = self.pool.submit(self._try, reqs[i])
        return [futs[i].result() for i in range(len(reqs))]

    def _try(self, r):
        try:
            return self.program(**r)
        except BuildError as e:
            return e


def runner(impl):
    if impl.arch.startswith("plat:"):  # a foreign processor, see harness/plat.c
        q = impl.arch[5:]
        return [q] if q else []
    return ["qemu-arm"] if impl.arm else []
