"""Builds the implementations in /repo together with a harness, always from the current working tree.

Objects are cached in BUILD (git-ignored) under a hash of the preprocessed text, the command and the compiler,
so a change of the tree can never be masked by an old object."""

import glob, hashlib, json, os, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ISAP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SRC = os.path.join(VERIF, "src")
XREF = "crypto_aead/isapxv20/ref"
ALGS = ["isapa128av20", "isapa128v20", "isapk128av20", "isapk128v20"]
JOBS = max(2, os.cpu_count() or 2)

TARGETS = {
    "x86": (["gcc"], []),
    "avx512": (["gcc", "-march=x86-64-v4"], []),
    "armv6": (["arm-linux-gnueabi-gcc", "-march=armv6", "-marm"], ["qemu-arm"]),
    "thumb2": (["arm-linux-gnueabi-gcc", "-march=armv7-a", "-mthumb"], ["qemu-arm"]),
}


class Impl:
    def __init__(self, name, alg, target, flags, sources, has_hash):
        self.name, self.alg, self.target, self.flags = name, alg, target, flags
        self.sources, self.has_hash = sources, has_hash
        self.inst = ALGS.index(alg)

    @property
    def arm(self):
        return self.target in ("armv6", "thumb2")

    @property
    def slug(self):
        return self.name.replace("/", "__").replace(":", "_")

    def __repr__(self):
        return self.name


def cpu_has_avx512():
    try:
        text = open("/proc/cpuinfo").read()
    except OSError:
        return False
    flags = set()
    for line in text.splitlines():
        if line.startswith("flags"):
            flags = set(line.split(":", 1)[1].split())
            break
    return {"avx512f", "avx512bw", "avx512dq", "avx512vl", "avx512cd"} <= flags


def impls():
    """Every implementation directory of the package, as its test harness builds it."""
    found = []
    for d in sorted(glob.glob(os.path.join(REPO, "crypto_aead*/*/*/"))):
        d = os.path.relpath(d, REPO)
        if d == XREF:
            continue
        top, alg, impl = d.split("/")
        if alg not in ALGS:
            continue
        sources = sorted(os.path.relpath(s, REPO) for s in glob.glob(os.path.join(REPO, d, "*.[cs]")))
        if not any(s.endswith("crypto_aead.c") for s in sources):
            continue
        if "avx" in impl:
            target = "avx512"
        elif impl.endswith("_armv6"):
            target = "armv6"
        elif "arm" in impl:
            target = "thumb2"
        else:
            target = "x86"
        has_hash = top == "crypto_aead_hash"
        flags = ["-I" + d, "-Itests", "-DCRYPTO_AEAD"] + ["-DCRYPTO_HASH"] * has_hash
        found.append(Impl(d, alg, target, flags, sources, has_hash))
    xs = sorted(os.path.relpath(s, REPO) for s in
                glob.glob(os.path.join(REPO, XREF, "*.c")) + glob.glob(os.path.join(REPO, XREF, "lib/*/*.c")))
    xs = [s for s in xs if not s.endswith("genkat_aead.c")]
    if xs:
        for size, perm, alg in (("ISAP128A", "ASCON", ALGS[0]), ("ISAP128", "ASCON", ALGS[1]),
                                ("ISAP128A", "KECCAKP400", ALGS[2]), ("ISAP128", "KECCAKP400", ALGS[3])):
            found.append(Impl(f"{XREF}:{alg}", alg, "x86", ["-D" + size, "-D" + perm, "-DDEBUG=0"], xs, False))
    return found


class Config:
    """A way to compile.  opt replaces the test suite's -O3 -DNDEBUG; cc replaces gcc on x86 targets."""

    def __init__(self, name, opt=("-O3", "-DNDEBUG"), cc=None, extra=(), link=(), drop=(), rename=False):
        self.name, self.opt, self.cc, self.extra, self.link = name, list(opt), cc, list(extra), list(link)
        self.drop, self.rename = set(drop), rename

    def compiler(self, target):
        base, _ = TARGETS[target]
        if self.cc and base[0] == "gcc":
            return [self.cc] + base[1:]
        return list(base)


RELEASE = Config("release")
_versions = {}


def version(cc):
    if cc not in _versions:
        _versions[cc] = subprocess.run([cc, "-v"], capture_output=True).stderr
    return _versions[cc]


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        p = p if isinstance(p, bytes) else str(p).encode()
        h.update(str(len(p)).encode() + b":" + p)
    return h.hexdigest()[:40]


class BuildError(Exception):
    pass


def atomic(cmd, out, cwd):
    os.makedirs(os.path.dirname(out), exist_ok=True)
    fd, tmp = tempfile.mkstemp(dir=os.path.dirname(out), suffix=".o")
    os.close(fd)
    r = subprocess.run(cmd + ["-o", tmp], capture_output=True, cwd=cwd)
    if r.returncode != 0:
        if os.path.exists(tmp):
            os.unlink(tmp)
        raise BuildError(" ".join(cmd) + "\n" + r.stderr.decode(errors="replace")[-3000:])
    os.chmod(tmp, 0o755)
    os.rename(tmp, out)


def compile_object(base, source, cwd, post=()):
    if source.endswith((".c", ".S")):
        r = subprocess.run(base + ["-E", "-P", source], capture_output=True, cwd=cwd)
        if r.returncode != 0:
            raise BuildError(" ".join(base + [source]) + "\n" + r.stderr.decode(errors="replace")[-3000:])
        text = r.stdout
    else:
        with open(os.path.join(cwd, source), "rb") as f:
            text = f.read()
    key = sha(version(base[0]), repr(base), os.path.basename(source), text, repr(post))
    obj = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(obj):
        atomic(base + ["-c", source], obj, cwd)
        if post:
            r = subprocess.run(list(post) + [obj], capture_output=True)
            if r.returncode != 0:
                os.unlink(obj)
                raise BuildError(" ".join(post) + r.stderr.decode(errors="replace"))
    return obj


def harness_object(target, config, source, defs):
    cc = config.compiler(target) if target.startswith("arm") or target == "thumb2" else ["gcc"]
    if target == "avx512":
        cc = ["gcc"]
    base = cc + ["-O2", "-g0", "-std=gnu11", "-Wall", "-I" + SRC] + list(defs)
    return compile_object(base, os.path.join(SRC, source), SRC)


def objects(impl, config):
    flags = [f for f in impl.flags if f not in config.drop]
    base = config.compiler(impl.target) + config.opt + flags + config.extra
    return [compile_object(base, s, REPO) for s in impl.sources]


def build(impl, config=RELEASE, harness=("runner.c",), defs=(), link=()):
    """Returns the path of the linked program."""
    flags = [f for f in impl.flags if f not in config.drop]
    base = config.compiler(impl.target) + config.opt + flags + config.extra
    post = ()
    if config.rename:
        pre = "arm-linux-gnueabi-" if impl.arm else ""
        post = (pre + "objcopy", "--rename-section", ".data=impl_data,alloc,load,data,contents",
                "--rename-section", ".bss=impl_bss,alloc,load,data,contents")
    objs = [compile_object(base, s, REPO, post) for s in impl.sources]
    hd = list(defs) + (["-DCRYPTO_HASH"] if impl.has_hash else [])
    hobjs = [harness_object(impl.target, config, h, hd) for h in harness]
    lcc = config.compiler(impl.target)
    cmd = lcc + config.link + list(link) + (["-static"] if impl.arm else []) + hobjs[:1] + objs + hobjs[1:] + ["-lpthread"]
    exe = os.path.join(BUILD, "exe", sha(repr(cmd), version(lcc[0])))
    if not os.path.exists(exe):
        atomic(cmd, exe, REPO)
    return exe


def runner(impl):
    return TARGETS[impl.target][1]


def runnable(impl):
    return impl.target != "avx512" or cpu_has_avx512()


def build_many(jobs, pool=None):
    """jobs: list of (impl, config, kwargs).  Returns list of exe or BuildError."""
    def one(j):
        try:
            return build(j[0], j[1], **j[2])
        except BuildError as e:
            return e
    own = pool is None
    pool = pool or ThreadPoolExecutor(JOBS)
    try:
        # slow compilations first
        order = sorted(range(len(jobs)), key=lambda i: not ("isapk" in jobs[i][0].name and "64" in jobs[i][0].name or "avx" in jobs[i][0].name))
        futs = {i: pool.submit(one, jobs[i]) for i in order}
        return [futs[i].result() for i in range(len(jobs))]
    finally:
        if own:
            pool.shutdown()


if __name__ == "__main__":
    for i in impls():
        print(i.name, i.alg, i.target, i.has_hash, len(i.sources))
