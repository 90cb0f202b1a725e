"""Driver shared by all checks: builds the recorders against /repo's working
tree, runs them, has TLC model-check the specification and judge the recorded
behaviours, and writes the evidence file.

A check is a list of stages:
  Model(...)  TLC explores a specification module (must pass, must not be vacuous)
  Conf(...)   behaviours of the real code are recorded and judged by TLC against
              a specification module; corrupted copies ("canaries") must be rejected
"""
import json, os, re, shutil, subprocess, sys, time, hashlib, random, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = max(1, min(8, os.cpu_count() or 1))


class CheckError(Exception):
    pass


class Died(Exception):
    """The process running the code under test crashed, raised out of the recorder, or never came back."""


def log(*a):
    print("[vt]", *a, flush=True)


def sh(cmd, timeout=None, env=None, cwd=None):
    """Run, kill the whole process group on timeout; returns rc, output."""
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return -9, out.decode("utf8", "replace") + "\n[timeout]"


GDALFLAGS = None


def gdal_flags():
    global GDALFLAGS
    if GDALFLAGS is None:
        rc, c = sh(["gdal-config", "--cflags"])
        rc2, l = sh(["gdal-config", "--libs"])
        GDALFLAGS = (c.split() if rc == 0 else ["-I/usr/include/gdal"], l.split() if rc2 == 0 else ["-lgdal"])
    return GDALFLAGS


REPO_SRCS = ["src/richdem.cpp", "src/random.cpp", "src/gdal.cpp",
             "src/terrain_generation/PerlinNoise.cpp", "src/terrain_generation/terrain_generation.cpp"]


class Build:
    """One recorder executable, compiled from /verif/harness and /repo."""
    def __init__(self, name, srcs, flags=(), repo_srcs=REPO_SRCS, opt="-O1", omp=True, pre_inc=(), libs=()):
        self.name, self.srcs, self.flags, self.repo_srcs = name, list(srcs), list(flags), list(repo_srcs)
        self.opt, self.omp, self.pre_inc, self.libs = opt, omp, list(pre_inc), list(libs)

    def run(self, work):
        cf, lf = gdal_flags()
        exe = os.path.join(work, self.name)
        common = ["g++", "-std=c++17", self.opt, "-w", "-DNDEBUG", "-DUSEGDAL", "-DRICHDEM_NO_PROGRESS",
                  '-DRICHDEM_GIT_HASH="verif"', '-DRICHDEM_COMPILE_TIME="verif"']
        if self.omp:
            common.append("-fopenmp")
        common += [f"-I{p}" for p in self.pre_inc] + [f"-I{REPO}/include", f"-I{HARN}"] + cf + self.flags
        jobs = []
        for s in [os.path.join(HARN, x) for x in self.srcs] + [os.path.join(REPO, x) for x in self.repo_srcs]:
            o = os.path.join(work, self.name + "_" + hashlib.md5(s.encode()).hexdigest()[:8] + ".o")
            jobs.append((s, o, subprocess.Popen(common + ["-c", s, "-o", o], stdout=subprocess.PIPE,
                                                stderr=subprocess.STDOUT)))
        for s, o, p in jobs:
            out, _ = p.communicate()
            if p.returncode != 0:
                raise CheckError(f"compiling {s} failed:\n" + out.decode("utf8", "replace")[-4000:])
        rc, out = sh(common[:1] + ["-o", exe] + [o for _, o, _ in jobs] +
                     (["-fopenmp"] if self.omp else []) + [f for f in self.flags if f.startswith("-fsan") and f != "-fsanitize=thread"] + lf + self.libs)
        if rc != 0:
            raise CheckError("link failed:\n" + out[-4000:])
        return exe


def run_tlc(module, cfg, work, env=None, workers=None, timeout=800, extra=(), heap="6g", simulate=None):
    meta = os.path.join(work, "tlc_" + hashlib.md5((module + cfg + str(time.time())).encode()).hexdigest()[:8])
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
           "-workers", str(workers or NPROC), "-config", cfg] + list(extra)
    if simulate:
        cmd += ["-simulate", simulate]
    cmd.append(module)
    rc, out = sh(cmd, timeout=timeout, env=env, cwd=SPEC)
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out


def tlc_counts(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))


class Model:
    """TLC explores a module of the specification itself.  It must hold."""
    def __init__(self, module, cfg, min_states=2, tiers=("quick", "thorough"), timeout=800, extra=(), heap="8g", simulate=None,
                 must_fail=None):
        self.must_fail = must_fail  # an invariant which this faulty variant has to violate
        self.module, self.cfg, self.min_states, self.tiers = module, cfg, min_states, tiers
        self.timeout, self.extra, self.heap, self.simulate = timeout, extra, heap, simulate

    def run(self, ctx):
        if TIER not in self.tiers:
            return
        t = time.time()
        rc, out = run_tlc(self.module + ".tla", self.cfg, ctx.work, timeout=self.timeout, extra=self.extra, heap=self.heap,
                          simulate=self.simulate)
        gen, dist = tlc_counts(out)
        if rc == -9:
            raise CheckError(f"TLC did not finish {self.cfg} in {self.timeout}s")
        if self.must_fail:
            if f"{self.must_fail} is violated" not in out:
                raise CheckError(f"{self.cfg}: the faulty variant does not violate {self.must_fail}:\n" + out[-2000:])
            ctx.models.append({"module": self.module, "config": self.cfg, "faulty_variant_violates": self.must_fail, "seconds": round(time.time() - t, 1)})
            log(f"model {self.cfg}: faulty variant rejected ({self.must_fail}), {time.time()-t:.1f}s")
            return
        if rc != 0:
            raise CheckError(f"the specification itself fails its own properties ({self.cfg}):\n" + out[-6000:])
        if dist < self.min_states:
            raise CheckError(f"{self.cfg}: only {dist} states explored")
        ctx.states += dist
        ctx.transitions += gen
        ctx.models.append({"module": self.module, "config": self.cfg, "states": dist, "generated": gen,
                           "seconds": round(time.time() - t, 1)})
        log(f"model {self.cfg}: {dist} states, {time.time()-t:.1f}s")


class Conf:
    """Record behaviours of the real code, judge them with TLC.

    canaries: list of (name, fn) ; fn(case)->corrupted copy or None."""
    def __init__(self, build, module, cfg=None, n=200, n_thorough=2000, args=(), canaries=(), need=None, label=None,
                 timeout=600, key=None, tiers=("quick", "thorough"), mode="judge", gen=None, heap="6g", env=None,
                 rec_timeout=300, nontrivial=None, workers=None, flaky_ok=False, chunks=8):
        self.__dict__.update(locals())
        self.cfg = cfg or module + ".cfg"
        self.label = label or module

    def record(self, ctx, exe, n, out, only=None):
        cmd = [exe, "--seed", str(SEED), "--n", str(n), "--tier", TIER, "--out", out, "--dir", ctx.work] + list(self.args)
        if only is not None:
            cmd += ["--only", str(only)]
        if self.gen:
            cmd += ["--in", self.gen(ctx)]
        limit = self.rec_timeout if TIER == "quick" else 20 * self.rec_timeout
        rc, o = sh(cmd, timeout=limit, env={"OMP_WAIT_POLICY": "passive", "OMP_DYNAMIC": "false", **(self.env or {})}, cwd=ctx.work)
        if rc == -9 and o.endswith("[timeout]"):
            raise Died(f"the code under test did not come back within {limit} s (it needs seconds)")
        if rc == -9:
            raise CheckError(f"recorder {self.build.name} was killed")
        if rc != 0:
            raise Died(f"the process running the code under test ended with {rc}: {o[-1500:]}")
        def line(i, l):
            try:
                return json.loads(l)
            except ValueError:
                return {"id": i, "crash": "garbled: " + l[:200]}
        with open(out, errors="replace") as f:
            return [line(i, l) for i, l in enumerate(f) if l.strip()]

    def judge(self, ctx, cases, tag, nreal=None):
        """Returns {index: reasons} of rejected cases (0-based).

        A behaviour on which the specification is undefined (an index outside a
        sequence, say) is not one of its behaviours: it counts as rejected.  TLC
        stops there, so the others are judged again without it."""
        nreal = len(cases) if nreal is None else nreal
        rej, left = {}, list(range(len(cases)))
        for _ in range(12):
            part = [cases[i] for i in left]
            r, undef = self.judge1(ctx, part, tag)
            for i, why in r.items():
                rej[left[i]] = why
            if not undef:
                break
            for i, why in undef.items():
                rej[left[i]] = why
            if any(left[i] < nreal for i in undef):
                break
            left = [k for i, k in enumerate(left) if i not in undef]
        else:
            raise CheckError(f"{self.label}: too many behaviours leave the specification undefined")
        return rej

    def judge1(self, ctx, cases, tag):
        if not cases:
            return {}, {}
        path = os.path.join(ctx.work, f"{self.label}_{tag}.ndjson")
        with open(path, "w") as f:
            for c in cases:
                f.write(json.dumps(c, separators=(",", ":")) + "\n")
        rc, out = run_tlc(self.module + ".tla", self.cfg, ctx.work, env={"CASES": path}, timeout=self.timeout,
                          extra=["-continue"], heap=self.heap, workers=self.workers)
        gen, dist = tlc_counts(out)
        rej = {}
        for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(.*?)\s*>>', out, re.S):
            why = re.sub(r"\s+", " ", m.group(2))
            i = int(m.group(1)) - 1
            rej[i] = (rej[i] + "; " + why) if i in rej and why not in rej[i] else rej.get(i, why)
        ninv = len(re.findall(r"Invariant \w+ is violated", out))
        if rc == -9:
            raise CheckError(f"TLC did not finish judging {self.label} in {self.timeout}s")
        undef = {}
        for b in out.split("Error: The behavior up to this point is:")[1:]:
            b = b.split("Error:")[0]  # a trace without a second step: evaluation failed in the first
            k = re.search(r"State 1: <Initial predicate>\s*/\\ case = (\d+)", b)
            if k and "State 2" not in b and not re.search(r"OutOfMemory|StackOverflow", out):
                undef[int(k.group(1)) - 1] = "the specification is undefined on this behaviour"
        if undef:
            return rej, undef
        if "Model checking completed" not in out and not (rc in (10, 11, 12, 13) and rej):
            raise CheckError(f"TLC failed while judging {self.label}:\n" + out[-5000:])
        if "Evaluating" in out and "Error:" in out and not ninv:
            raise CheckError(f"TLC evaluation error in {self.label}:\n" + out[-5000:])
        if dist < len(cases):
            raise CheckError(f"{self.label}: {dist} states for {len(cases)} cases:\n" + out[-3000:])
        done = sum(int(x) for x in re.findall(r'<<"JUDGED", (\d+)>>', out))
        ctx.states += dist
        ctx.transitions += gen
        return rej, {}

    def run(self, ctx):
        if TIER not in self.tiers:
            return
        t0 = time.time()
        exe = ctx.build(self.build)
        t1 = time.time()
        n = self.n if TIER == "quick" else self.n_thorough
        cases = self.record(ctx, exe, n, os.path.join(ctx.work, f"{self.label}.rec"))
        t2 = time.time()
        if len(cases) < n and not self.gen and not any("crash" in c for c in cases):
            raise CheckError(f"{self.label}: recorder gave {len(cases)} of {n} cases")
        # canaries: the judge must reject corrupted behaviours
        rnd = random.Random(SEED)
        can, blind = [], []
        for name, fn in self.canaries:
            idx = list(range(len(cases)))
            rnd.shuffle(idx)
            got = 0
            for i in idx:
                if "crash" in cases[i] or "exc" in cases[i]:
                    continue
                try:
                    c = fn(json.loads(json.dumps(cases[i])), rnd)
                except (KeyError, IndexError, TypeError):
                    c = None
                if c is not None:
                    can.append((name, i, c))
                    got += 1
                    if got >= 10:
                        break
            if got == 0:
                blind.append(f"{self.label}: canary {name} found no case to corrupt")
        rej = self.judge(ctx, cases + [c for _, _, c in can], "all", len(cases))
        rejected_real = {i for i in rej if i < len(cases)}
        # (a corruption may happen to yield another correct result, so each kind
        # is tried a few times and must be caught at least once)
        caught, tried = {}, {}
        for j, (name, i, c) in enumerate(can):
            caught[name] = caught.get(name, 0) + (len(cases) + j in rej or i in rejected_real)
            tried.setdefault(name, c)
        for name in caught:
            if not caught[name]:
                blind.append(f"{self.label}: the judge accepted every corruption '{name}': the check is blind\n"
                             + json.dumps(tried[name])[:1500])
        real = {i: w for i, w in rej.items() if i < len(cases)}
        if blind and not real:
            raise CheckError(blind[0])
        nt = set()
        for c in cases:
            k = not ({'crash', 'exc'} & set(c)) and (self.nontrivial(c) if self.nontrivial else True)
            if k:
                nt.add(hashlib.md5(json.dumps({a: b for a, b in c.items() if a != "id"}, sort_keys=True).encode()).hexdigest())
        ctx.conf.append({"module": self.module, "recorder": self.build.name, "behaviours": len(cases), "distinct_nontrivial": len(nt),
                         "canaries_rejected": sum(caught.values()), "seconds": {"build": round(t1 - t0, 1), "record": round(t2 - t1, 1),
                                                                    "judge": round(time.time() - t2, 1)}})
        ctx.validated += len(cases) - len(real)
        if len(ctx.samples) < 4 and cases:
            s = json.dumps(cases[rnd.randrange(len(cases))])
            ctx.samples.append({"module": self.module, "behaviour": s[:1200]})
        log(f"conf {self.label}: {len(cases)} behaviours, {len(real)} rejected, {sum(caught.values())}/{len(can)} canaries rejected; "
            f"build {t1-t0:.1f}s record {t2-t1:.1f}s judge {time.time()-t2:.1f}s")
        if os.environ.get("VT_DEBUG"):
            log("  canaries", {k: f"{v}/{sum(m == k for m, _, _ in can)}" for k, v in caught.items()})
            tally = {}
            for i, w in real.items():
                k = tuple(str(cases[i].get(f)) for f in os.environ["VT_DEBUG"].split(",")) + (w[:150],)
                tally.setdefault(k, []).append(cases[i].get("id"))
            for k, v in sorted(tally.items()):
                log("  rejected", len(v), k, v[:5])
        # confirm: re-run each rejected case alone (up to a few) before reporting
        confirmed = 0
        for i, why in sorted(real.items()):
            case = cases[i]
            known = ctx.known_match(case, why)
            if known:
                ctx.known_hits.add(known)
                continue
            if confirmed >= 5:
                break
            ok = True
            if case.get("id") is not None and not self.gen:
                again = self.record(ctx, exe, n, os.path.join(ctx.work, f"{self.label}.re"), only=case["id"])
                rj = self.judge(ctx, again, "re")
                ok = bool(rj)
                if not ok:
                    for _ in range(6):  # schedule dependent: try again
                        again = self.record(ctx, exe, n, os.path.join(ctx.work, f"{self.label}.re"), only=case["id"])
                        if self.judge(ctx, again, "re"):
                            ok = True
                            break
                if not ok and self.flaky_ok:
                    ok = True  # the recorded behaviour itself is the evidence
            if not ok:
                log(f"rejection of case {case.get('id')} did not repeat; recorded behaviour kept as evidence")
                ok = True
            confirmed += 1
            ctx.violation(self, case, why)


class Ctx:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.work = os.path.join(VERIF, "build", prop + "_" + str(os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        self.states = self.transitions = self.validated = 0
        self.models, self.conf, self.samples, self.violations = [], [], [], []
        self.known_hits = set()
        self._exes = {}
        self.known = load_known(prop)

    def build(self, b):
        if b.name not in self._exes:
            self._exes[b.name] = b.run(self.work)
        return self._exes[b.name]

    def known_match(self, case, why):
        for k in self.known:
            if all(str(case.get(f)) == v for f, v in k["where"].items()) and re.search(k["why"], why):
                return k["text"]
        return None

    def violation(self, stage, case, why):
        d = os.path.join(VERIF, "build", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.prop}_{stage.label}_{case.get('id', 'x')}.json")
        with open(path, "w") as f:
            json.dump({"property": self.prop, "module": stage.module, "recorder": stage.build.name, "args": list(stage.args),
                       "seed": SEED, "why": why, "case": case}, f, indent=1)
        self.violations.append(path)
        print(f"VIOLATION property={self.prop} replay={path}", flush=True)
        log("rejected by the specification:", why[:400])


def load_known(prop):
    """known_findings.txt lines:
         KNOWN property=C01 why=<regex> where=<field>=<value>[,..] :: text
         fixed: property=..."""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN property=(\S+) why=(\S+) where=(\S*) :: (.*)", l.strip())
            if m and m.group(1) == prop:
                where = dict(kv.split("=", 1) for kv in m.group(3).split(",") if kv)
                res.append({"why": m.group(2), "where": where, "text": m.group(4)})
    return res


def run_check(prop, level, stages, rule, assumptions=()):
    t = time.time()
    ctx = Ctx(prop, level)
    rc = 0
    try:
        for s in stages:
            try:
                s.run(ctx)
            except Died as e:
                ctx.violation(s, {"id": "process", "died": str(e)}, str(e))
                break
    except CheckError as e:
        log("ERROR", e)
        rc = 2
    for k in sorted(ctx.known_hits):
        print(f"KNOWN-FINDING: property={prop} {k}", flush=True)
    if ctx.violations:
        rc = 1
    cov = {"states": ctx.states, "transitions": ctx.transitions, "traces_validated_against_impl": ctx.validated,
           "samples": ctx.samples or [{"none": True}], "evaluations": sum(c["behaviours"] for c in ctx.conf),
           "distinct_nontrivial": sum(c["distinct_nontrivial"] for c in ctx.conf), "rule": rule,
           "models": ctx.models, "conformance": ctx.conf}
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": cov, "assumptions": list(assumptions),
          "wall_s": round(time.time() - t, 2), "violations": len(ctx.violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if rc != 2 and not os.environ.get("VT_KEEP"):
        shutil.rmtree(ctx.work, ignore_errors=True)
    log(f"{prop} {TIER}: rc={rc} in {time.time()-t:.1f}s; {ctx.states} states, {ctx.validated} behaviours accepted")
    return rc
