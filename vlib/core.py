"""Running monitors, turning what they saw into verdicts and evidence."""
import atexit, json, os, re, shutil, subprocess, sys, tempfile, threading, time, zlib
from concurrent.futures import ThreadPoolExecutor
from . import build as B

VERIF = B.VERIF
EVID = os.path.join(VERIF, "evidence")


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="isapmon_", dir=os.environ.get("VERIF_SCRATCH", "/tmp"))
        atexit.register(shutil.rmtree, self.scratch, True)
        self.builder = B.Builder(self.scratch)
        self.viols, self.errors, self.skipped, self.samples = [], [], [], []
        self.counts = {}
        self.per = {}
        self.lock = threading.Lock()
        self.extra = {}
        self.assume = []
        self.times = []
        self.foreign = []

    def impls(self, x86=True, arm=True, hash_only=False, filt=None):
        out = []
        for i in B.impls():
            if not i.runnable():
                self.skip(f"{i.name}: this machine has no AVX-512")
                continue
            if (i.x86 and not x86) or (i.arm and not arm) or (hash_only and not i.has_hash):
                continue
            if filt and not filt(i):
                continue
            if not re.search(os.environ.get("VERIF_ONLY", ""), i.name):  # for development
                self.skip(f"{i.name}: excluded by VERIF_ONLY")
                continue
            out.append(i)
        if not out:
            self.error("no implementation found in the working tree")
        return out

    def skip(self, what):
        with self.lock:
            if what not in self.skipped:
                self.skipped.append(what)

    def error(self, what):
        with self.lock:
            self.errors.append(what)

    def violation(self, impl, kind, msg, replay):
        with self.lock:
            self.viols.append(dict(property=self.prop, impl=impl, kind=kind, message=msg, replay=replay))

    def stop(self):
        """Calls that do not end take long to observe: a few are enough."""
        return sum(v["kind"] == "hang" for v in self.viols) >= 3

    def add(self, **kw):
        with self.lock:
            for k, v in kw.items():
                self.counts[k] = self.counts.get(k, 0) + v


class Job:
    """One monitored execution: build request, arguments, environment."""

    def __init__(self, impl, tag, harness, args, icf, cc=None, hcf=("-O1",), ldf=(), hdefs=(), hcc=None, env=None,
                 timeout=300, optional=False, wrap=(), label=None, san=None, runpre=None, kinds=None):
        self.req = dict(impl=impl, tag=tag, harness=list(harness), icf=list(icf), cc=cc, hcf=list(hcf), ldf=list(ldf),
                        hdefs=list(hdefs), hcc=hcc)
        self.impl, self.args, self.env, self.timeout, self.optional = impl, [str(a) for a in args], env or {}, timeout, optional
        self.wrap, self.label, self.san = list(wrap), label or tag, san
        self.runpre = runpre
        self.kinds = kinds  # regex of the violation kinds that belong to this property; others are only counted
        self.result = None
        if timeout > 1500:
            self.args.append("HANG=1000")
        if kinds and not any(a.startswith("MAXV=") for a in self.args):
            self.args.append("MAXV=400")  # reports that belong to other properties do not end the run

    def spec(self):
        return dict(impl=self.impl.name, req={k: v for k, v in self.req.items() if k != "impl"}, args=self.args, env=self.env,
                    wrap=self.wrap, label=self.label, kinds=self.kinds, san=self.san, runpre=self.runpre, arch=self.impl.arch, march=self.impl.march)


SAN_RE = re.compile(r"(ERROR: \w+Sanitizer.*|WARNING: (?:Thread|Memory)Sanitizer.*|.*runtime error: .*|==\d+== (?:Invalid (?:read|write).*|Conditional jump.*|Use of uninit.*))")
STAT_RE = re.compile(r"(\w+)=(-?\d+)")


def judge(ctx, job, kind, msg):
    """True if this is a violation of the property being checked."""
    if job.kinds and not re.fullmatch(job.kinds, kind):
        ctx.add(foreign_reports=1)
        with ctx.lock:
            if len(ctx.foreign) < 10:
                ctx.foreign.append(f"{job.impl.name} {job.label}: {kind}: {msg[:200]}")
        return False
    ctx.violation(job.impl.name, kind, msg, job.spec())
    return True


def run_job(ctx, job, exe):
    cmd = job.wrap + (B.runner(job.impl) if job.runpre is None else job.runpre) + [exe] + job.args
    env = dict(os.environ, **job.env)
    hung = 0
    tmo = job.timeout if not ctx.quick else min(job.timeout, 300)
    while True:
        if ctx.stop(): return ""
        if hung and ctx.quick: tmo = max(60, min(tmo, 780 - (time.time() - ctx.t0)))
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=tmo, errors="replace",
                               stdin=subprocess.DEVNULL, cwd=ctx.scratch)
            out, err, rc = r.stdout, r.stderr, r.returncode
        except subprocess.TimeoutExpired:
            hung += 1
            if hung == 2:
                if not judge(ctx, job, "hang", f"{job.label}: no result within {tmo} s, twice; args {job.args}"):
                    ctx.error(f"{job.impl.name} {job.label}: no result within {tmo} s, twice")
                return ""
            continue
        if rc < 0 and rc != -9 and not hung:  # killed by a signal the harness could not catch: once more before judging
            hung = 100
            continue
        break
    viol = False
    harness_fault = None
    for line in out.splitlines():
        t, _, rest = line.partition(" ")
        if t == "V":
            kind, _, msg = rest.partition(" ")
            if kind == "HARNESS":
                harness_fault = msg
            else:
                viol = True
                judge(ctx, job, kind, msg)
        elif t == "S":
            st = {k: int(v) for k, v in STAT_RE.findall(rest)}
            with ctx.lock:
                for k, v in st.items():
                    ctx.counts[k] = max(ctx.counts.get(k, 0), v) if k.startswith("max") else ctx.counts.get(k, 0) + v
                p = ctx.per.setdefault(job.impl.name, {})
                p[job.label] = p.get(job.label, 0) + st.get("eval", 0)
        elif t == "X":
            with ctx.lock:
                if len(ctx.samples) < 8:
                    ctx.samples.append(f"[{job.impl.name} | {job.label}] {rest[:400]}")
        elif t == "E":
            ctx.error(f"{job.impl.name} {job.label}: {rest[:300]}")
        elif t == "T":
            ctx.error(f"{job.impl.name} {job.label}: inconclusive: {rest[:300]}")
    if harness_fault and not viol:
        # the harness never faults by itself: the code under test has damaged its memory. Judge only if it repeats.
        if not getattr(job, "again", False):
            job.again = True
            return run_job(ctx, job, exe)
        viol = True
        judge(ctx, job, "corruption", f"{job.label}: memory damaged by an earlier call: {harness_fault[:400]}")
    if job.san:
        rep = [m.group(1).strip() for m in map(SAN_RE.search, err.splitlines()) if m]
        if rep:
            viol = True
            frames = [l.strip() for l in err.splitlines() if re.match(r"\s*#\d+ ", l)][:4]
            case = next((l for l in out.splitlines() if l.startswith("C ")), "")
            judge(ctx, job, job.san, f"{job.label}: {rep[0][:300]} | {' '.join(frames)[:500]} {case[:400]}")
    if not viol and rc not in (0,) and rc != 3:
        if rc == -9 or rc == 137:
            ctx.error(f"{job.impl.name} {job.label}: killed (memory?)")
        elif rc < 0 or rc >= 128:
            judge(ctx, job, "crash", f"{job.label}: the process died with status {rc}: {err[-300:]}")
        else:
            ctx.error(f"{job.impl.name} {job.label}: exit status {rc}: {err[-300:]}")
    job.out, job.err = out, err
    return out


def run_jobs(ctx, jobs, keep=None, workers=None):
    """Builds and runs the jobs, build and run overlapped; expensive ones first."""
    order = sorted(range(len(jobs)), key=lambda i: -cost(jobs[i]))
    outs = [None] * len(jobs)

    def one(i):
        j = jobs[i]
        if ctx.stop(): return
        t0 = time.time()
        try:
            exe = ctx.builder.program(**j.req)
        except B.BuildError as e:
            if j.optional:
                ctx.skip(f"{j.impl.name}: does not build as {j.label}")
            else:
                ctx.error(f"{j.impl.name}: build failed ({j.label}): {str(e)[-600:]}")
            return
        t1 = time.time()
        outs[i] = run_job(ctx, j, exe)
        ctx.times.append((round(t1 - t0, 1), round(time.time() - t1, 1), j.impl.name, j.label))

    with ThreadPoolExecutor(workers or B.NCPU) as p:
        list(p.map(one, order))
    if os.environ.get("VERIF_DEBUG"):
        for t in sorted(ctx.times, key=lambda t: -t[0] - t[1])[:12]:
            print("   ", *t)
        print("    total build", sum(t[0] for t in ctx.times), "run", sum(t[1] for t in ctx.times))
    return outs


def cost(j):
    n = j.impl.name
    c = 1.0
    if j.impl.arm: c += 4
    if "isapk128v20" in n or "ISAP128-KECCAK" in n: c *= 4
    elif "isapk" in n or "KECCAK" in n: c *= 2
    if "opt_64" in n and "isapk" in n: c += 6  # slow to compile
    return c


# ---------------------------------------------------------------- known findings
def known_findings():
    """known_findings.txt: 'finding: property=<id> impl=<regex> kind=<regex> match=<regex> | text' and 'fixed: ...' lines."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"finding: property=(\S+) impl=(\S+) kind=(\S+) match=(.*?) \| (.*)", l.strip())
            if m:
                out.append(m.groups())
    return out


def conclude(ctx, level, rule, extra=None, min_eval=1):
    """Writes evidence, prints the verdict, returns the exit status."""
    known, new = [], []
    for v in ctx.viols:
        k = next((f for f in known_findings() if f[0] == v["property"] and re.fullmatch(f[1], v["impl"]) and
                  re.fullmatch(f[2], v["kind"]) and re.search(f[3], v["message"])), None)
        (known if k else new).append((v, k))
    os.makedirs(EVID, exist_ok=True)
    c = dict(ctx.counts)
    cov = dict(evaluations=c.pop("eval", 0), distinct_nontrivial=c.pop("nontriv", 0), rule=rule,
               samples=ctx.samples[:8] or ["(none)"], implementations=len(ctx.per), observed=c,
               per_implementation={k: v for k, v in sorted(ctx.per.items())}, skipped=ctx.skipped)
    cov.update(ctx.extra)
    if extra:
        cov.update(extra)
    status = 0
    if cov["evaluations"] < min_eval and not new:
        ctx.error(f"the monitors observed only {cov['evaluations']} executions")
    if new:
        status = 1
    elif ctx.errors:
        status = 2
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level=level, coverage=cov, wall_s=round(time.time() - ctx.t0, 2))
    verdict = ["held on everything explored", "violated", "inconclusive"][status]
    cov["verdict"] = verdict
    if ctx.foreign:
        cov["reports_of_other_properties"] = ctx.foreign
    if ctx.errors:
        cov["errors"] = ctx.errors[:20]
    ev["violations"] = len(new)
    if new:
        cov["violations_seen"] = [v for v, _ in new[:20]]
    if ctx.assume:
        ev["assumptions"] = ctx.assume
    tmp = os.path.join(EVID, f".{ctx.prop}.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(EVID, f"{ctx.prop}.json"))
    seen = set()
    for v, k in known:
        if k not in seen:
            seen.add(k)
            print(f"KNOWN-FINDING: property={ctx.prop} {k[4]}")
    for n, (v, _) in enumerate(new[:5]):
        path = os.path.join(EVID, f"replay_{ctx.prop}_{n}.json")
        json.dump(v, open(path, "w"), indent=1)
        print(f"  {v['impl']}: {v['kind']}: {v['message'][:600]}")
        print(f"VIOLATION property={ctx.prop} replay={path}")
    for e in ctx.errors[:5]:
        print("ERROR:", e[:800], file=sys.stderr)
    print(f"{ctx.prop} {ctx.tier}: {verdict}; {cov['evaluations']} evaluations on {len(ctx.per)} implementations, "
          f"{ev['wall_s']} s" + (f"; {len(new)} violations" if new else ""))
    return status


def salt(impl, extra=""):
    return zlib.crc32((impl.name + extra).encode()) & 0x7fffffff
