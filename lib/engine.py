"""Runs harness programs over bounded spaces, confirms what they report, and writes evidence."""

import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor, as_completed

import build as B

VERIF = B.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
QUICK = TIER == "quick"


class CheckError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Job:
    """One command.  Everything that is needed to run it again is in `spec`."""

    def __init__(self, impl, args, config=B.RELEASE, harness=("runner.c",), defs=(), link=(), env=None, timeout=700, weight=1.0,
                 tag="", wrap=(), parse=None, post=None):
        self.impl, self.args, self.config, self.harness = impl, [str(a) for a in args], config, tuple(harness)
        self.defs, self.link, self.env, self.timeout, self.weight = tuple(defs), tuple(link), env or {}, timeout, weight
        self.tag, self.wrap, self.parse, self.post = tag, list(wrap), parse, post
        self.exe = None
        self.optional = False

    @property
    def label(self):
        return f"{self.impl.name} [{self.config.name}{' ' + self.tag if self.tag else ''}] {' '.join(os.path.basename(a) for a in self.args)}"

    def command(self):
        return self.wrap + (B.runner(self.impl) if not self.wrap else []) + [self.exe] + self.args


class Result:
    def __init__(self, job, rc, out, err, secs):
        self.job, self.rc, self.out, self.err, self.secs = job, rc, out, err, secs
        self.stats, self.fails, self.lines = {}, [], out.splitlines()
        self.done = False
        for l in self.lines:
            p = l.split(" ", 1)
            if p[0] == "STAT":
                key, val = p[1].rsplit(" ", 1)
                self.stats[key] = self.stats.get(key, 0) + int(val)
            elif p[0] in ("FAIL", "HANG"):
                self.fails.append(l)
            elif p[0] in ("DONE", "STOPPED"):
                self.done = True


def run_job(job):
    env = dict(os.environ)
    env.update(job.env)
    env.setdefault("ASAN_OPTIONS", "detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigbus=0:handle_sigill=0:handle_sigfpe=0:use_sigaltstack=0:halt_on_error=1:exitcode=66")
    t = time.time()
    p = subprocess.Popen(job.command(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, start_new_session=True)
    try:
        out, err = p.communicate(timeout=job.timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, err = p.communicate()
        rc = "timeout"
    r = Result(job, rc, out.decode(errors="replace"), err.decode(errors="replace"), time.time() - t)
    if job.parse:
        job.parse(r)
    return r


def verdict(r):
    """None: held.  Otherwise a description.  Raises CheckError if the run says nothing."""
    if r.fails:
        return r.fails[0]
    if r.rc == 0 and r.done:
        return None
    if r.rc == "timeout":
        raise CheckError(f"{r.job.label}: no answer within {r.job.timeout} s")
    if r.rc in (-9, 137):
        raise CheckError(f"{r.job.label}: killed")
    if "ERROR" in r.out and r.rc == 2:
        raise CheckError(f"{r.job.label}: {r.out[-300:]} {r.err[-300:]}")
    if "AddressSanitizer" in r.err or "runtime error" in r.err or "stack smashing" in r.err or (isinstance(r.rc, int) and (r.rc < 0 or r.rc > 128 or r.rc == 66)):
        return f"CRASH {r.job.args[0]} the program died (status {r.rc}): {r.err.strip()[-400:]}"
    raise CheckError(f"{r.job.label}: ended with {r.rc}: {r.out[-300:]} {r.err[-500:]}")


def case_of(line):
    p = line.split(" ")
    return p[1] if len(p) > 1 else "?"


class Check:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.stats, self.per_impl = {}, {}
        self.traces = []
        self.violations, self.known_hits = [], []
        self.assumptions, self.samples = [], []
        self.coverage = {}
        self.results = []
        self.skipped = []
        self.scratch = tempfile.mkdtemp(prefix=f"{prop}-", dir=self.scratch_root())
        self.lock = threading.Lock()
        self.known = self.load_known()
        import atexit
        atexit.register(lambda: shutil.rmtree(self.scratch, ignore_errors=True))

    @staticmethod
    def scratch_root():
        d = os.path.join(B.BUILD, "scratch")
        os.makedirs(d, exist_ok=True)
        return d

    def load_known(self):
        """Lines `known: property=<id> match=<regular expression> :: <what fails>`.  `fixed:` lines suppress nothing."""
        res = []
        try:
            for l in open(KNOWN):
                m = re.match(r"known: property=(\S+) match=(.*?) :: (.*)$", l.strip())
                if m and m.group(1) == self.prop:
                    res.append((re.compile(m.group(2)), m.group(3)))
        except OSError:
            pass
        return res

    # ---- building blocks

    def gen(self, *specs):
        """Each spec: (set, instance, args...).  Returns paths of the trace files, made by exploring the model now."""
        exe = self.model_exe("gentrace.c")
        def one(i_spec):
            i, spec = i_spec
            out = os.path.join(self.scratch, f"t{len(self.traces)}_{i}.bin")
            r = subprocess.run([exe, spec[0], str(spec[1]), out] + [str(a) for a in spec[2:]], capture_output=True, timeout=800)
            if r.returncode:
                raise CheckError(f"trace generation failed: {spec} {r.stderr.decode()}")
            return out, json.loads(r.stdout)
        with ThreadPoolExecutor(B.JOBS) as ex:
            res = list(ex.map(one, enumerate(specs)))
        self.traces += [r[1] for r in res]
        return [r[0] for r in res]

    def model_exe(self, main, model=True):
        objs = [B.compile_object(["gcc", "-O2", "-Wall", "-std=gnu11", "-I" + B.SRC], os.path.join(B.SRC, s), B.SRC) for s in (main,) + (("isapmodel.c",) if model else ())]
        exe = os.path.join(B.BUILD, "exe", B.sha(repr(objs)))
        if not os.path.exists(exe):
            B.atomic(["gcc"] + objs, exe, B.SRC)
        return exe

    def build(self, jobs):
        """Builds the program of every job.  A job marked optional is dropped if it cannot be built."""
        uniq = {}
        for j in jobs:
            uniq.setdefault((j.impl.name, j.config.name, j.harness, j.defs, j.link, repr(j.config.opt), repr(j.config.extra)), []).append(j)
        keys = list(uniq)
        res = B.build_many([(uniq[k][0].impl, uniq[k][0].config, {"harness": uniq[k][0].harness, "defs": uniq[k][0].defs, "link": uniq[k][0].link}) for k in keys])
        keep = []
        for k, r in zip(keys, res):
            if isinstance(r, B.BuildError):
                if uniq[k][0].optional:
                    self.skipped.append(f"{k[0]} [{k[1]}]: does not build")
                    continue
                raise CheckError(f"cannot build {k[0]} [{k[1]}]: {r}")
            for j in uniq[k]:
                j.exe = r
        return [j for j in jobs if j.exe]

    def run(self, jobs, after=None, built=False):
        """Runs all jobs, confirms every failure by running it again alone.  after(result) sees every result."""
        runnable = []
        for j in jobs:
            if B.runnable(j.impl):
                runnable.append(j)
            else:
                s = f"{j.impl.name}: this processor cannot run it"
                if s not in self.skipped:
                    self.skipped.append(s)
        jobs = runnable if built else self.build(runnable)
        jobs.sort(key=lambda j: -j.weight)
        stop = threading.Event()
        out = []

        def one(j):
            if stop.is_set():
                return None
            r = run_job(j)
            bad = verdict_or_error(r)
            if bad is not None and not isinstance(bad, CheckError) and not self.is_known(j, bad):
                stop.set()
            return r, bad

        def verdict_or_error(r):
            try:
                return verdict(r)
            except CheckError as e:
                return e

        errors = []
        with ThreadPoolExecutor(B.JOBS) as ex:
            for f in as_completed([ex.submit(one, j) for j in jobs]):
                x = f.result()
                if x is None:
                    continue
                r, bad = x
                self.account(r)
                out.append(r)
                if isinstance(bad, CheckError):
                    errors.append((r, bad))
                elif bad is not None:
                    self.confirm(r, bad)
                if after:
                    after(r)
        for r, e in errors:
            if self.violations:
                break
            log("running again:", e)
            r2 = run_job(r.job)
            bad = verdict(r2)           # raises if there is still no answer
            self.account(r2)
            if bad:
                self.confirm(r2, bad)
        return out

    def is_known(self, job, line):
        text = f"{job.label} {line}"
        return any(rx.search(text) for rx, _ in self.known)

    def confirm(self, r, bad):
        text = f"{r.job.label} {bad}"
        for rx, desc in self.known:
            if rx.search(text):
                if desc not in self.known_hits:
                    self.known_hits.append(desc)
                # look past it: are there other failures in the same run?
                rest = [l for l in r.fails if not rx.search(f"{r.job.label} {l}")]
                if not rest:
                    return
                bad = rest[0]
        if self.violations:
            return
        again = run_job(r.job)
        if not again.fails and (again.rc == 0 or again.rc == "timeout"):
            # not reproducible by the same deterministic exploration: try twice more before calling it noise
            for _ in range(2):
                again = run_job(r.job)
                if again.fails or again.rc not in (0, "timeout"):
                    break
            else:
                raise CheckError(f"{r.job.label}: reported '{bad[:300]}' once but not when run again")
        self.violate(r.job, bad, again)

    def violate(self, job, bad, again=None, extra=None):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.prop}-{job.impl.slug if job else 'x'}-{B.sha(bad)[:8]}.json")
        rec = {"property": self.prop, "tier": TIER, "what": bad}
        if job:
            args = []
            for a in job.args:
                if a.startswith(self.scratch) and os.path.exists(a):
                    keep = os.path.join(d, f"{self.prop}-{os.path.basename(a)}")
                    shutil.copy(a, keep)
                    a = keep
                args.append(a)
            rec.update(implementation=job.impl.name, config=job.config.name, opt=job.config.opt, cc=job.config.cc, extra=job.config.extra,
                       config_link=job.config.link, drop=sorted(job.config.drop), rename=job.config.rename, harness=job.harness, defs=job.defs,
                       link=job.link, env=job.env, args=args, wrap=job.wrap)
        if again is not None:
            rec["output"] = again.out[-3000:]
            rec["stderr"] = again.err[-2000:]
        if extra:
            rec.update(extra)
        with open(path, "w") as f:
            json.dump(rec, f, indent=1)
        self.violations.append((job.label if job else "", bad, path))

    def account(self, r):
        with self.lock:
            self.results.append(r)
            for k, v in r.stats.items():
                if k.startswith("max:") or k.startswith("stack_"):
                    self.stats[k] = max(self.stats.get(k, 0), v)
                else:
                    self.stats[k] = self.stats.get(k, 0) + v
            e = self.per_impl.setdefault(r.job.impl.name, 0)
            self.per_impl[r.job.impl.name] = e + r.stats.get("cases", 0)

    # ---- the end

    def finish(self):
        if not self.violations and (self.stats.get("cases", 0) == 0):
            raise CheckError("nothing was explored")
        cov = dict(self.coverage)
        if self.traces:
            cov.setdefault("states", sum(t["states"] for t in self.traces))
            cov.setdefault("transitions", sum(t["transitions"] for t in self.traces))
            cov["model_traces"] = sum(t["traces"] for t in self.traces)
        cov["implementations"] = len(self.per_impl)
        cov["cases_per_implementation"] = self.per_impl
        cov["measured"] = self.stats
        cov["samples"] = self.samples or [r.job.label for r in self.results[:3]]
        if self.skipped:
            cov["skipped"] = self.skipped
        if self.known_hits:
            cov["known_findings"] = self.known_hits
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
        for d in self.known_hits:
            print(f"KNOWN-FINDING: property={self.prop} {d}")
        for label, bad, path in self.violations[:5]:
            print(f"{label}\n  {bad}")
            print(f"VIOLATION property={self.prop} replay={path}")
        if os.environ.get("VERIF_DEBUG"):
            for r in sorted(self.results, key=lambda r: -r.secs)[:25]:
                log(f"{r.secs:8.1f} s {r.job.label} {r.stats.get('cases')}")
        cases = self.stats.get("cases", 0)
        print(f"{self.prop} {TIER}: {len(self.per_impl)} programs, {cases} cases, {ev['wall_s']} s: " + ("VIOLATED" if self.violations else "held"))
        sys.stdout.flush()
        return 1 if self.violations else 0


def replay(path):
    """Runs the recorded command again against the current tree."""
    rec = json.load(open(path))
    if "implementation" not in rec:
        print(json.dumps(rec, indent=1))
        return 0
    impl = [i for i in B.impls() if i.name == rec["implementation"]][0]
    cfg = B.Config(rec["config"], rec["opt"], rec["cc"], rec["extra"], rec["config_link"], rec["drop"], rec["rename"])
    j = Job(impl, rec["args"], cfg, rec["harness"], rec["defs"], rec["link"], rec["env"], wrap=rec["wrap"])
    j.exe = B.build(impl, cfg, harness=j.harness, defs=j.defs, link=j.link)
    r = run_job(j)
    print("$", " ".join(j.command()))
    print(r.out[-4000:], r.err[-2000:])
    return 1 if verdict(r) else 0
