#!/usr/bin/env python3
"""check.py ID            decide one property (VERIF_TIER=quick or thorough)
   check.py --replay FILE  run a recorded violation again
   check.py --setup        build the model and the programs that most checks use"""

import os, re, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import build as B
import memtab
from engine import Check, CheckError, Job, QUICK, TIER, replay, log

A = lambda q, t: q if QUICK else t


def slow(i):
    """implementations of the slowest instance that take milliseconds per call"""
    return i.inst == 3 and not i.name.endswith("64")


def fast(i):
    return i.inst in (0, 2) and not i.arm and not re.search("_8|/ref", i.name)


def weight(i):
    return 20 if slow(i) else 6 if "8_tiny" in i.name else 4 if i.inst in (1, 3) else 3 if i.arm or "_8" in i.name else 1


def tier(i):
    return 0 if slow(i) else 2 if fast(i) else 1


def chunked(n, parts):
    step = (n + parts - 1) // parts
    return [(a, min(n, a + step)) for a in range(0, n, step)]


def conf_jobs(traces, what, config=B.RELEASE, impls=None, tierof=tier, optional=False, harness_defs=()):
    """traces: {instance: [(path, count)]}"""
    jobs = []
    for i in impls or B.impls():
        for path, n in traces[i.inst]:
            parts = 4 if slow(i) and n > 3000 else 2 if weight(i) >= 4 and n > 3000 else 1
            for lo, hi in chunked(n, parts):
                j = Job(i, ["conf", path, what, tierof(i), lo, hi], config=config, weight=weight(i) * n / parts, defs=harness_defs)
                j.optional = optional
                jobs.append(j)
    return jobs


def traces_for(c, sets):
    """sets: list of (set name, args...), made for each of the four instances"""
    specs = [(s[0], inst) + tuple(s[1:]) for s in sets for inst in range(4)]
    n0 = len(c.traces)
    paths = c.gen(*specs)
    by = {}
    for sp, p, t in zip(specs, paths, c.traces[n0:]):
        by.setdefault(sp[1], []).append((p, t["traces"]))
    return by


AEAD_SETS = A([("grid", 96, 48, 4), ("ladder", 300, 1100, 70000, 4200), ("values",), ("pairs",)],
              [("grid", 200, 110, 8), ("ladder", 900, 4300, 1200000, 9000), ("values",), ("pairs",)])


def model_conformance(prop, what):
    c = Check(prop, "model_checking")
    by = traces_for(c, AEAD_SETS)
    res = c.run(conf_jobs(by, what))
    c.coverage["traces_validated_against_impl"] = c.stats.get("cases", 0)
    c.coverage["samples"] = [t for t in c.traces[:4]] + [r.job.label for r in res[:2]]
    c.samples = c.coverage["samples"]
    c.coverage["exhaustive"] = True
    c.assumptions += ["the model (src/isapmodel.c) is ISAP v2.0; it reproduces the known-answer files of all four instances",
                      "lengths, byte values and positions outside the enumerated sets behave as inside (see DESIGN.md for the bounds)",
                      "ARM programs are executed by qemu-arm"]
    return c.finish()


def C01():
    return model_conformance("C01", 1)


def C02():
    return model_conformance("C02", 2)


def rejlen_jobs(release):
    L = A((60, 400), (330, 2100))
    return [Job(i, ["rejlen", L[0] if slow(i) else L[1], A(4100 if slow(i) else 66000, 66000 if slow(i) else 1050000 if fast(i) else 270000), release],
                weight=weight(i) * 2, timeout=A(700, 3000)) for i in B.impls()]


def C03():
    c = Check("C03", "exploration")
    by = traces_for(c, [("forge", 1500)])
    jobs = []
    for i in B.impls():
        level = A(1 if not slow(i) else 0, 2 if fast(i) else 1)
        jobs.append(Job(i, ["forge", by[i.inst][0][0], level], weight=weight(i) * (level + 1), timeout=A(700, 3000)))
    jobs += rejlen_jobs(0)
    res = c.run(jobs)
    c.coverage.update(evaluations=c.stats.get("cases", 0), distinct_nontrivial=c.stats.get("rejected", 0),
                      rule="every tampering of the classes in src/runner.c (tamper) applied to model-made ciphertexts; non-trivial: the input differs "
                           "from the honest one, which the same program accepted, and was refused", exhaustive=True)
    c.samples = [f"{k}: {v}" for k, v in c.stats.items() if k.startswith("class:")]
    c.assumptions += ["a 128-bit tag does not collide by chance on the enumerated forgeries"]
    return c.finish()


def C04():
    c = Check("C04", "exploration")
    by = traces_for(c, [("forge", 3000)])
    jobs = []
    for i in B.impls():
        level = A(1 if fast(i) else 0, 2 if fast(i) else 1)
        jobs.append(Job(i, ["release", by[i.inst][0][0], level], weight=weight(i) * (level + 1), timeout=A(700, 3000)))
    # every ciphertext length, refused for a wrong tag and for a wrong body
    jobs += rejlen_jobs(1)
    c.run(jobs)
    c.coverage.update(evaluations=c.stats.get("cases", 0), distinct_nontrivial=c.stats.get("rejected", 0),
                      rule="every forged input of C03's classes, and every ciphertext length, decrypted into a write-protected plaintext buffer: "
                           "any store to it during a call that rejects is reported", exhaustive=True)
    c.samples = [f"{k}: {v}" for k, v in c.stats.items() if k.startswith("class:")]
    return c.finish()


ASAN = B.Config("asan", ("-O1", "-g", "-fsanitize=address,bounds", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"), link=("-fsanitize=address,bounds",))
O0 = B.Config("O0", ("-O0",))
O1 = B.Config("O1", ("-O1",))
O2 = B.Config("O2", ("-O2",))
OS = B.Config("Os", ("-Os",))


def guard_far(i):
    return A(4100 if slow(i) or i.arm else 66000, 66000)


def C05():
    c = Check("C05", "exploration")
    jobs = []
    for i in B.impls():
        g = A((24, 40, 3, 700) if slow(i) else (40, 72, 1, 1100), (60, 100, 1, 4200))
        for cfg in [B.RELEASE] + ([O0] if not i.arm else [OS]):
            gg = g if cfg is B.RELEASE else A((20, 40, 3, 300) if slow(i) else (24, 48, 1, 500), g)
            j = Job(i, ["guard"] + list(gg) + [guard_far(i)], config=cfg, weight=weight(i) * (2 if cfg is B.RELEASE else 1.9), timeout=A(700, 3000))
            j.optional = cfg is not B.RELEASE
            jobs.append(j)
        if not i.arm:
            j = Job(i, ["guard"] + A([20, 40, 3, 300, 4100] if slow(i) else [24, 72, 1, 700, 9000], [60, 100, 1, 2100, 66000]), config=ASAN, weight=weight(i) * 2.5, timeout=A(700, 3000))
            j.optional = True
            jobs.append(j)
    c.run(jobs)
    c.coverage.update(evaluations=c.stats.get("calls", 0), distinct_nontrivial=c.stats.get("cases", 0),
                      rule="every pair of lengths in the grid and every longer length of one buffer, with every buffer ending at (then starting at) an "
                           "unmapped page, inputs read-only, outputs surrounded by checked bytes; each case is a distinct shape and runs encryption, decryption, "
                           "a refused decryption and where possible a short one; x86 programs also under AddressSanitizer with strict array bounds", exhaustive=True)
    c.assumptions += ["in ARM programs accesses to internal arrays that stay inside the stack frame are not observed"]
    return c.finish()


def C06():
    c = Check("C06", "exploration")
    jobs = []
    for i in B.impls():
        for cfg in [B.RELEASE] + ([O0] if not i.arm else [OS]):
            j = Job(i, ["short", A(70, 300), A(int(fast(i)), 1)], config=cfg, weight=weight(i))
            j.optional = cfg is not B.RELEASE
            jobs.append(j)
    c.run(jobs)
    c.coverage.update(evaluations=c.stats.get("calls", 0), distinct_nontrivial=c.stats.get("cases", 0),
                      rule="every ciphertext length 0..15, every associated-data length up to the bound, 12 contents (pieces of valid ciphertexts among them), 3 earlier "
                           "values of the length variable, buffers against unmapped pages on either side, plaintext buffer write-protected", exhaustive=True)
    c.samples = ["clen in 0..15 x adlen x contents x placement"]
    return c.finish()


def C07():
    c = Check("C07", "exploration")
    jobs = []
    for i in B.impls():
        cfgs = [B.RELEASE] + ([O1, OS] if i.arm else []) + A([], [O2, O1, B.Config("clangO3", ("-O3",), cc="clang")] if not i.arm else [O2])
        for cfg in cfgs:
            j = Job(i, ["align", A(0 if weight(i) > 3 or cfg is not B.RELEASE else 1, 1)], config=cfg, weight=weight(i) * (1 if cfg is B.RELEASE else 0.5), timeout=A(700, 3000))
            j.optional = cfg is not B.RELEASE
            jobs.append(j)
    c.run(jobs)
    c.coverage.update(evaluations=c.stats.get("calls", 0), distinct_nontrivial=c.stats.get("cases", 0),
                      rule="every pair of buffers at every pair of offsets modulo 16 (8 for slow programs), all orders of gaplessly adjacent buffers, overlapping and "
                           "coinciding inputs, buffers across 2^31 and 2^32 boundaries; each placement is distinct and its outputs are compared with those of an aligned call", exhaustive=True)
    c.samples = ["placement = (shape, arena, buffer pair, offset pair)"]
    return c.finish()


def C08():
    c = Check("C08", "model_checking")
    jobs = []
    for i in B.impls():
        s = slow(i)
        jobs.append(Job(i, ["seq", 2, A(1, 1 if s else 2), A(300 if s else 2500 if i.arm or i.inst in (1, 3) else 70000 if fast(i) else 4000, 3000 if s else 70000), 15],
                        weight=weight(i) * 3, timeout=A(700, 3400)))
        jobs.append(Job(i, ["seq", 3, 0, 0, A(2 if s else 5 if fast(i) else 3, 4 if s else 15 if fast(i) else 8)], tag="deep", weight=weight(i) * 3, timeout=A(700, 3400)))
        jobs.append(Job(i, ["seq", A(4, 5), 0, 0, A(1, 1 if s else 2)], tag="deeper", weight=weight(i) * 2, timeout=A(700, 3400)))
    c.run(jobs)
    w = c.stats.get("windows", 0)
    c.coverage.update(states=c.stats.get("operations", 0) + w, transitions=c.stats.get("cases", 0), traces_validated_against_impl=w, exhaustive=True)
    c.samples = [r.job.label + " -> " + str({k: r.stats.get(k) for k in ("operations", "windows")}) for r in c.results[:4]]
    c.assumptions += ["states: operations in their first-call state plus distinct histories (windows of a de Bruijn sequence over the operations); transitions: calls made",
                      "residue that shows only after longer histories than the bounds, or after other operations than those in the alphabet, is not seen"]
    return c.finish()


MOVES = "-Wl," + ",".join("--wrap=" + f for f in ("memcpy", "memmove", "memset", "memcmp"))


def tsan(opt):
    return B.Config("tsan" + opt, (opt, "-DNDEBUG", "-fsanitize=thread", "-fno-builtin", "-fsanitize-coverage=trace-pc"), rename=True)


def C09():
    c = Check("C09", "model_checking")
    jobs = []
    for i in B.impls():
        for opt in A(["-O3", "-O1", "-O0"], ["-O3", "-O2", "-Os", "-O1", "-O0"]):
            j = Job(i, ["conc", A(1, 2), A(4000, 40000), A(150, 2500)], config=tsan(opt), harness=("trace.c",), link=(MOVES,), weight=weight(i), timeout=A(700, 3400))
            j.optional = opt != "-O3"
            jobs.append(j)
    c.run(jobs)
    c.coverage.update(states=c.stats.get("events", 0), transitions=c.stats.get("schedules", 0), traces_validated_against_impl=c.stats.get("schedules", 0),
                      exhaustive=not (c.stats.get("pairs_capped") or c.stats.get("pairs_out_of_time")))
    c.samples = [r.job.label + " -> " + str({k: r.stats.get(k) for k in ("schedules", "shared_written_words", "max:points", "events")}) for r in c.results[:4]]
    c.assumptions += ["states: observed accesses and blocks at which a switch was possible; transitions: complete schedules executed on the real code",
                      "two threads, sequentially consistent memory, at most two preemptions; accesses that commute (no call writes the word) are not scheduling points",
                      "writes from inline assembly to static data are found by comparing the data after the call; then every block is a scheduling point"]
    return c.finish()


def C10():
    c = Check("C10", "model_checking")
    paths = c.gen(("hash", 0) + A((4200, 66000), (20000, 4300000)))
    jobs = []
    n = c.traces[0]["traces"]
    for i in B.impls():
        if i.has_hash:
            parts = 3 if "_8" in i.name else 1
            for lo, hi in chunked(n, parts):
                jobs.append(Job(i, ["conf", paths[0], 4, 1, lo, hi], weight=weight(i) / parts, timeout=A(700, 3000)))
    c.run(jobs)
    c.coverage.update(traces_validated_against_impl=c.stats.get("cases", 0), exhaustive=True)
    c.samples = c.traces[:1] + [r.job.label for r in c.results[:3]]
    c.assumptions += ["the model reproduces the Ascon-Hash known-answer file"]
    return c.finish()


CTBUILD = B.Config("instrumented", ("-O3", "-DNDEBUG", "-fsanitize=kernel-address", "--param", "asan-instrumentation-with-call-threshold=0", "--param", "asan-stack=0",
                                    "--param", "asan-globals=0", "-fsanitize-coverage=trace-pc"), rename=True)
KINDS = ["encryption, key", "encryption, plaintext", "accepted decryption, key or plaintext", "refused decryption, tag or key"]


def observed(c, i, args, tracer, timeout, weight, pc_only=False):
    """A run of the unmodified optimised program with every instruction and accessed address observed."""
    link = () if i.arm else ("-static", "-no-pie")
    exe = B.build(i, B.RELEASE, harness=("ctreal.c",), link=link)
    tab = os.path.join(c.scratch, i.slug + ".tab")
    if not os.path.exists(tab):
        (memtab.arm if i.arm else memtab.x86)(exe, tab + ".tmp")
        os.replace(tab + ".tmp", tab)
    j = Job(i, args + ["-" if i.arm else tab], harness=("ctreal.c",), link=link, timeout=timeout, weight=weight, tag="observed")
    j.exe = exe
    if i.arm:
        lo, hi = memtab.code_range(exe, B.objects(i, B.RELEASE))
        marks = memtab.markers(exe)
        j.wrap = [tracer, "-" if pc_only else tab] + marks + ["--", "qemu-arm", "-one-insn-per-tb", "-d", "exec,nochain" if pc_only else "exec,cpu,nochain",
                  "-D", "/dev/fd/9", "-dfilter", ",".join([f"0x{lo:x}..0x{hi:x}"] + memtab.mem_functions(exe))]
    j.parse = read_diffs
    return j


def read_diffs(r):
    calls = {}
    for l in r.lines:
        p = l.split()
        if l.startswith("CALL "):
            calls[p[1], p[2]] = p[3:]
    diffs = []
    for l in r.lines:
        if not l.startswith("DIFF "):
            continue
        p = l.split(" ", 5) if not r.job.impl.arm else l.split(" ", 3)
        if r.job.impl.arm:
            who, text = calls.get((p[1], p[2])), p[3]
            base = calls.get((p[1], "0"))
        else:
            who, text = p[1:5], p[5]
        if who:
            diffs.append((who, text))
    r.diffs = diffs
    for who, text in diffs[:3]:
        r.fails.append(f"FAIL trace.{'.'.join(who)} {KINDS[int(who[1])]}: secret {who[3]} of shape {who[0]} (level {who[2]}) does not execute the same instructions on the same addresses as secret 0: {text}")


def C11():
    c = Check("C11", "exploration")
    tracer = c.model_exe("tracecmp.c", model=False)
    impls = [i for i in B.impls() if B.runnable(i)]
    cands = {}

    def look(r):
        for l in r.lines:
            if l.startswith("CAND "):
                p = l.split()
                cands.setdefault(r.job.impl.name, []).append(p[1:5])

    jobs = []
    for i in B.impls():
        s = slow(i)
        for lv, ns in A([(0, 3)] if s else [(1, 7)] if fast(i) else [(1, 2), (0, 5)], [(1, 7)] if s else [(2, 7)]):
            jobs.append(Job(i, ["ct", lv, ns], config=CTBUILD, harness=("trace.c",), link=(MOVES,), weight=weight(i), timeout=A(700, 3400)))
        jobs.append(Job(i, ["ct", 0, 8, 7], config=CTBUILD, harness=("trace.c",), link=(MOVES,), weight=weight(i) * 2, timeout=A(700, 3400)))
    c.run(jobs, after=look)
    # the unmodified programs
    builds = B.build_many([(i, B.RELEASE, {"harness": ("ctreal.c",), "link": () if i.arm else ("-static", "-no-pie")}) for i in impls])
    for i, b in zip(impls, builds):
        if isinstance(b, B.BuildError):
            raise CheckError(f"cannot build {i.name}: {b}")
    # what the instrumented build showed: does the unmodified program do it as well?
    unconfirmed = 0
    for i in impls:
        for n, cand in enumerate(cands.get(i.name, [])[:6]):
            if c.violations:
                break
            c.run([observed(c, i, ["one"] + cand, tracer, 700, 1)], built=True)
            if not c.violations:
                unconfirmed += 1
    jobs = []
    for i in impls:
        w = 40 if slow(i) else 15 if i.inst == 3 else 12 if "8_tiny" in i.name else 8 if i.inst == 1 else 6 if "_8" in i.name or i.arm else 4 if "/ref" in i.name else 1
        stride = A(200 if w == 40 else 60 if w >= 8 or i.arm else 20 if w > 1 else 6, 20 if w == 40 else 2)
        jobs.append(observed(c, i, ["run", "0", A("1", "3" if w < 6 else "1"), str(stride)], tracer, A(700, 3400), w * (5 + 100 / stride), pc_only=QUICK and slow(i)))
    if not c.violations:
        c.run(jobs, built=True)
    c.coverage.update(evaluations=c.stats.get("calls", 0), distinct_nontrivial=c.stats.get("cases", 0),
                      rule="every secret of src/secrets.h (keys, plaintexts, tags; each distinct) in one call per shape of lengths; the whole sequence of basic blocks and accessed "
                           "addresses is compared with that of secret 0 in the same program (instrumented -O3 build), and for a subset the sequence of instructions and addresses of "
                           "the unmodified -O3 program (single-stepped on x86, qemu's execution log on ARM)", exhaustive=True, candidates_not_confirmed=unconfirmed)
    c.samples = [r.job.label + " -> " + str(r.stats) for r in c.results[:4]]
    c.assumptions += ["differences that only the instrumented build shows are reported when the unmodified program shows them for the same pair of secrets",
                      "an instruction takes a time that does not depend on its operands; ARM conditional execution of non-memory instructions counts as executed",
                      "in quick, the two slowest ARM programs are observed without addresses outside the instrumented build"]
    return c.finish()


def C12():
    c = Check("C12", "model_checking")
    by = traces_for(c, [("ladder", 20, 40, A(4800000, 4800000))])
    far = traces_for(c, [("ladder", 20, 40, 35000000)]) if not QUICK else by
    hp = c.gen(("hash", 0, 40, 4300000), *A([], [("hash", 0, 40, 35000000)]))
    jobs = []
    for i in B.impls():
        jobs.append(Job(i, ["probe", A(12 if slow(i) or "8_tiny" in i.name else 4, 1)], weight=weight(i) * 8, timeout=A(700, 3400)))
        jobs.append(Job(i, ["conf", (far if fast(i) else by)[i.inst][0][0], 3, 2 if fast(i) else 1], weight=weight(i) * 20, timeout=A(700, 3400)))
        if i.has_hash:
            jobs.append(Job(i, ["conf", hp[-1 if fast(i) else 0], 4, 1], weight=weight(i) * 10, timeout=A(700, 3400)))
    jobs += huge_jobs(c)
    c.run(jobs)
    c.coverage.update(traces_validated_against_impl=c.stats.get("cases", 0), exhaustive=True)
    c.samples = [r.job.label for r in c.results[:4]]
    c.assumptions += ["a call that has read past the existing part of its input does not stop early afterwards",
                      "beyond 2^32 bytes only the listed lengths are run to the end, on the programs that are fast enough"]
    return c.finish()


def huge_jobs(c):
    gold = os.path.join(B.VERIF, "data", "huge.txt")
    jobs = []
    if not os.path.exists(gold):
        return jobs
    for line in open(gold):
        p = line.split()
        if len(p) < 6 or p[0].startswith("#"):
            continue
        inst, kind, length, tiers, tag, want = int(p[0]), p[1], p[2], p[3], p[4], " ".join(p[5:])
        for i in B.impls():
            if i.inst != inst or (kind == "2" and not i.has_hash) or i.arm:
                continue
            if QUICK and (tiers != "quick" or not quick_huge(i, kind)):
                continue
            jobs.append(Job(i, ["huge", kind, length] + ([tag] if kind == "1" else []), weight=1000 * weight(i), timeout=A(800, 3500), parse=expect(want)))
    return jobs


# probes cover the length of every program; these are run to the end even in quick
QUICK_HUGE = {"1": ["crypto_aead/isapa128av20/opt_64", "crypto_aead/isapa128av20/bi_32", "crypto_aead/isapa128av20/opt_32", "crypto_aead/isapa128av20/avx_512",
                    "crypto_aead/isapa128v20/opt_64", "crypto_aead/isapk128av20/opt_64"],
              "2": ["crypto_aead_hash/isapa128av20/opt_64", "crypto_aead_hash/isapa128av20/opt_32"]}


def quick_huge(i, kind):
    if kind == "0":
        return re.search("isapa128a?v20/ref$|ref:isapa128av20$", i.name)
    return i.name in QUICK_HUGE[kind]


def expect(want):
    def f(r):
        got = [l[7:] for l in r.lines if l.startswith("RESULT ")]
        if got and got[0] != want:
            r.fails.append(f"FAIL huge.{r.job.args[1]}.{r.job.args[2]} result {got[0]}, model {want}")
    return f


def load_dump(path):
    with open(path, "rb") as f:
        data = f.read()
    return {(k, r): (ret, ln, dig) for k, ret, ln, dig in struct.iter_unpack("<QQQQ", data) for r in (0,)}


def C13():
    c = Check("C13", "model_checking")
    by = traces_for(c, A([("values",), ("grid", 44, 30, 3), ("ladder", 70, 300, 70000, 300)], [("values",), ("pairs",), ("grid", 96, 60, 4), ("ladder", 300, 1100, 300000, 1200)]))
    jobs, dumps = [], {}
    for i in B.impls():
        for n, (path, cnt) in enumerate(by[i.inst]):
            out = os.path.join(c.scratch, f"{i.slug}.{n}.dump")
            j = Job(i, ["dump", path, 0 if slow(i) else 1, out], weight=weight(i) * cnt, timeout=A(700, 3000))
            jobs.append(j)
            dumps.setdefault((i.inst, n), []).append(j)
        for other in range(4):
            if other != i.inst:
                jobs.append(Job(i, ["refuse", by[other][0][0], A(0, 0 if slow(i) else 1)], weight=weight(i) * 500))
    c.run(jobs)
    compared = 0
    if not c.violations:
        for (inst, n), js in sorted(dumps.items()):
            tabs = [(j, load_dump(j.args[3])) for j in js if os.path.exists(j.args[3])]
            if len(tabs) < 2:
                continue
            # the value that most programs give is the reference; the odd one out is reported
            big = max(tabs, key=lambda t: len(t[1]))[1]
            for key in big:
                votes = {}
                for j, t in tabs:
                    if key in t:
                        votes.setdefault(t[key], []).append(j)
                compared += sum(len(v) for v in votes.values())
                if len(votes) > 1:
                    odd = min(votes.values(), key=len)
                    same = max(votes.values(), key=len)
                    idx, kind = key[0] & 0xffffffff, key[0] >> 32
                    what = f"FAIL dump.{inst}.{n}.{kind}.{idx} call {kind} (0 encrypt, 1 decrypt, >1 forged) on trace {idx}: {odd[0].impl.name} gives {[k for k, v in votes.items() if v is odd][0]}, {same[0].impl.name} gives {[k for k, v in votes.items() if v is same][0]} (return code, length, digest)"
                    if not c.is_known(odd[0], what):
                        c.violate(odd[0], what)
                        break
            if c.violations:
                break
    c.coverage.update(traces_validated_against_impl=c.stats.get("cases", 0), outcomes_compared=compared, exhaustive=True)
    c.samples = [r.job.label for r in c.results[:4]]
    c.assumptions += ["outputs are compared by 64-bit digest"]
    return c.finish()


def c14_configs():
    P = "-ftrivial-auto-var-init="
    both = [B.Config("O1", ("-O1",)), B.Config("O2", ("-O2",)), B.Config("Os", ("-Os",)), B.Config("O3-assert", ("-O3",)),
            B.Config("O2-signed-char", ("-O2", "-fsigned-char")), B.Config("O3-unsigned-char", ("-O3", "-DNDEBUG", "-funsigned-char")),
            B.Config("O2-init-pattern", ("-O2", P + "pattern")), B.Config("O3-init-zero", ("-O3", "-DNDEBUG", P + "zero")),
            B.Config("O0", ("-O0",)), B.Config("O1-nostrict", ("-O1", "-fno-strict-aliasing", "-fwrapv"))]
    x86 = [B.Config("O3-native", ("-O3", "-DNDEBUG", "-march=native")), B.Config("lto", ("-O2", "-flto"), link=("-O2", "-flto")),
           B.Config("clang-O0", ("-O0",), cc="clang"), B.Config("clang-O2", ("-O2",), cc="clang"), B.Config("clang-O3", ("-O3", "-DNDEBUG"), cc="clang"),
           B.Config("clang-Os", ("-Os",), cc="clang"), B.Config("clang-O1-init-pattern", ("-O1", P + "pattern"), cc="clang"),
           B.Config("clang-O3-native", ("-O3", "-DNDEBUG", "-march=native", "-funsigned-char"), cc="clang"),
           B.Config("O0-init-pattern", ("-O0", P + "pattern", "-funsigned-char"))]
    if not QUICK:
        both += [B.Config("Og", ("-Og", "-g")), B.Config("Oz", ("-Oz",)), B.Config("O3-unroll", ("-O3", "-funroll-all-loops", "-DNDEBUG")),
                 B.Config("O3-pic-protector", ("-O3", "-fPIC", "-fstack-protector-all")), B.Config("O1-init-pattern", ("-O1", P + "pattern")),
                 B.Config("short-enums-c99", ("-O2", "-std=gnu99", "-fshort-enums")), B.Config("frame-noinline", ("-O2", "-fno-inline", "-fno-omit-frame-pointer"))]
        x86 += [B.Config("v2", ("-O3", "-march=x86-64-v2")), B.Config("v3", ("-O3", "-march=x86-64-v3")), B.Config("clang-Oz", ("-Oz",), cc="clang"),
                B.Config("clang-lto", ("-O2", "-flto=thin"), cc="clang", link=("-O1",)), B.Config("clang-O2-zero", ("-O2", P + "zero"), cc="clang"),
                B.Config("O3-no-vec", ("-O3", "-fno-tree-vectorize", "-fno-tree-slp-vectorize"))]
    return both, x86


def native_ok(cfg):
    return True


def C14():
    c = Check("C14", "model_checking")
    by = traces_for(c, A([("mini", 26)], [("mini", 50), ("values",)]))
    hp = c.gen(("hash", 0, 400, A(1000, 4200)))
    fp = traces_for(c, [("forge", A(40, 300))])
    both, x86 = c14_configs()
    jobs = []
    for i in B.impls():
        for cfg in both + ([] if i.arm else x86):
            for path, n in by[i.inst]:
                j = Job(i, ["conf", path, 3, 0 if slow(i) or cfg.name.endswith("O0") else tier(i)], config=cfg, weight=weight(i), timeout=A(700, 3000))
                jobs.append(j)
            jobs.append(Job(i, ["forge", fp[i.inst][0][0], -1], config=cfg, weight=weight(i)))
            if i.has_hash:
                jobs.append(Job(i, ["conf", hp[0], 4, 0], config=cfg, weight=weight(i)))
    # the generic reference with its debug output switched on
    for i in B.impls():
        if i.name.startswith(B.XREF):
            for lv in ("1",):
                cfg = B.Config("debug-output", drop=("-DDEBUG=0",), extra=("-DDEBUG=" + lv,))
                jobs.append(Job(i, ["quietconf", by[i.inst][0][0], 3, 0, 0, A(150, 500)], config=cfg, weight=weight(i)))
    for j in jobs:
        j.optional = True
    c.run(jobs)
    if len(c.skipped) > len(jobs) // 4:
        raise CheckError(f"too many configurations do not build: {c.skipped[:3]}")
    c.coverage.update(traces_validated_against_impl=c.stats.get("cases", 0), configurations=len(both) + len(x86) + 1, exhaustive=True)
    c.samples = [r.job.label for r in c.results[::200]]
    c.assumptions += ["configurations that a program cannot be compiled with are skipped and listed (inline assembly that needs optimisation, gcc-only intrinsics)"]
    return c.finish()


def C15():
    c = Check("C15", "model_checking")
    by = traces_for(c, [("ladder", A(130, 400), A(400, 1100), A(66000, 300000), 140)])
    hp = c.gen(("hash", 0, 40, 100))
    jobs = []
    for i in B.impls():
        for cfg in [B.RELEASE] + [OS if i.arm else O1 if slow(i) else O0]:
            jobs.append(Job(i, ["empty", by[i.inst][0][0], tier(i) if cfg is B.RELEASE else 0], config=cfg, weight=weight(i)))
            if i.has_hash:
                jobs.append(Job(i, ["empty", hp[0], 0], config=cfg, weight=0.1))
    for j in jobs:
        j.optional = j.config is not B.RELEASE
    c.run(jobs)
    c.coverage.update(traces_validated_against_impl=c.stats.get("cases", 0), exhaustive=True)
    c.samples = [r.job.label for r in c.results[:4]]
    return c.finish()


WRAP = "-Wl," + ",".join("--wrap=" + f for f in ("malloc", "calloc", "realloc", "aligned_alloc", "posix_memalign", "free"))


def strace(r):
    """system calls between the two markers in qemu's trace"""
    calls = [l for l in r.err.splitlines() if re.match(r"^\d+ \w+\(", l)]
    marks = [n for n, l in enumerate(calls) if " getppid(" in l]
    if len(marks) != 2:
        if not r.fails and r.rc == 0:
            r.done = False
        return
    between = calls[marks[0] + 1:marks[1]]
    if between:
        r.fails.append(f"FAIL syscalls a call made the system call {between[0][:80]}")


def C16():
    c = Check("C16", "exploration")
    jobs = []
    for i in B.impls():
        for cfg in [B.RELEASE] + ([OS]):
            j = Job(i, ["stack", A(20000 if slow(i) else 140000, 2200000), A(100, 1100)], config=cfg, defs=("-DWRAP_MALLOC",), link=(WRAP,), weight=weight(i), timeout=A(700, 3000))
            j.optional = cfg is not B.RELEASE
            jobs.append(j)
        j = Job(i, ["syscalls", A(3000, 70000)], weight=weight(i))
        if i.arm:
            j.wrap, j.parse = ["qemu-arm", "-strace"], strace
        jobs.append(j)
    c.run(jobs)
    c.coverage.update(evaluations=c.stats.get("calls", 0), distinct_nontrivial=c.stats.get("cases", 0),
                      rule="every length up to a bound and a ladder beyond, each of encryption, decryption, refusal and hash on a painted stack with an unmapped page below it; "
                           "heap functions counted; then the same calls in a process in which any system call is fatal (ARM: in qemu's system-call trace)", exhaustive=True)
    c.samples = [f"{k}: {v}" for k, v in c.stats.items() if k.startswith("stack_")]
    c.assumptions += ["heap use is seen at malloc, calloc, realloc, aligned_alloc, posix_memalign and free"]
    return c.finish()


def C18():
    c = Check("C18", "exploration")
    jobs = []
    for i in B.impls():
        cfgs = [B.RELEASE, O2, OS] + ([O1] if i.arm else [O0, B.Config("clangO3", ("-O3",), cc="clang")]) + A([], [B.Config("O3-no-fp", ("-O3", "-fomit-frame-pointer")), B.Config("Og", ("-Og",))])
        for cfg in cfgs:
            main = cfg is B.RELEASE
            g = A((5, 20, 300) if slow(i) else (20, 40, 1100) if main else (8, 20, 300), (20, 40, 1100) if slow(i) else (40, 90, 9000) if main else (20, 40, 1100))
            j = Job(i, ["regs"] + list(g), config=cfg, harness=("regs.c",), weight=weight(i) * (1 if main else 0.5), timeout=A(700, 3000))
            j.optional = not main
            jobs.append(j)
    c.run(jobs)
    c.coverage.update(evaluations=c.stats.get("calls", 0), distinct_nontrivial=c.stats.get("cases", 0),
                      rule="every pair of lengths in the grid, and notable longer ones, under three fillings of all scratch, flag, vector and mask registers: after each of "
                           "encryption, decryption, refused and short decryption and hash the registers to be preserved, the caller's frame and the modes are compared with those before, "
                           "the results with those of a plain call", exhaustive=True)
    c.samples = [r.job.label + " -> " + str(r.stats) for r in c.results[:4]]
    c.assumptions += ["a register that the compiled implementation saves itself although an inner routine clobbers it shows no violation in that build"]
    return c.finish()


CHECKS = {n: f for n, f in list(globals().items()) if re.fullmatch(r"C\d\d", n)}


def setup():
    c = Check("setup", "other")
    for m in ("gentrace.c", "kattest.c"):
        c.model_exe(m)
    res = B.build_many([(i, B.RELEASE, {}) for i in B.impls()])
    for r in res:
        if isinstance(r, B.BuildError):
            log(r)
    log(f"{len(res)} programs built")
    return 0


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    try:
        if sys.argv[1] == "--setup":
            return setup()
        if sys.argv[1] == "--replay":
            return replay(sys.argv[2])
        return CHECKS[sys.argv[1]]()
    except CheckError as e:
        print("ERROR", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
