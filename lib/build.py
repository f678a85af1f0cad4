"""Builds the conformance driver from /repo's current working tree and the harness.

Objects are cached in /verif/build by the hash of everything that goes into them (flags,
source text and the text of every header of the repository and the harness), so a changed
tree is always rebuilt and an unchanged one is not.  The LLVM and standard headers, which
are not part of the repository, are precompiled.
"""
import concurrent.futures, glob, hashlib, os, re, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("JF_REPO", "/repo")
LLVM = "/usr/lib/llvm-19"
BUILD = os.path.join(VERIF, "build")
CXX = "clang++"


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update((p if isinstance(p, bytes) else p.encode()) + b"\0")
    return h.hexdigest()[:24]


def _run(cmd, what):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(f"{what} does not build:\n{r.stderr[-3000:]}")


def build(variant="plain"):
    """variant: plain | asan | tsan.  Returns the path of the driver."""
    base = ["-std=gnu++17", "-DNDEBUG", "-w", "-pthread", "-O1"]
    base += {"plain": [],
             "asan": ["-gline-tables-only", "-fsanitize=address,undefined", "-fno-sanitize=vptr,function,alignment,pointer-overflow,nonnull-attribute",
                      "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
             "tsan": ["-gline-tables-only", "-fsanitize=thread", "-fno-omit-frame-pointer"]}[variant]
    inc = ["-isystem", LLVM + "/include", f"-I{REPO}/include", f"-I{REPO}/athena", f"-I{REPO}"]
    srcs = sorted(glob.glob(f"{REPO}/src/**/*.cc", recursive=True)) + sorted(glob.glob(f"{REPO}/athena/*.cc"))
    hdrs = sorted(glob.glob(f"{REPO}/include/*") + glob.glob(f"{REPO}/src/**/*.h", recursive=True)
                  + glob.glob(f"{REPO}/athena/*.h*"))
    own = sorted(glob.glob(f"{VERIF}/harness/*.cc"))
    ownh = sorted(glob.glob(f"{VERIF}/harness/*.h"))
    hdr_hash = _sha(*[x for h in hdrs for x in (h, _read(h))])
    own_hash = _sha(*[x for h in ownh for x in (h, _read(h))])
    os.makedirs(BUILD + "/obj", exist_ok=True)

    # precompiled LLVM and standard headers: a fixed list, where present
    pch_src = f"{VERIF}/harness/pch.inc"
    pch = f"{BUILD}/obj/pch-{_sha(_read(pch_src), *base)}.pch"
    if not os.path.exists(pch):
        tmp = f"{pch}.{os.getpid()}.tmp"
        _run([CXX, *base, "-isystem", LLVM + "/include", "-fpch-instantiate-templates", "-x", "c++-header", pch_src,
              "-o", tmp], "the precompiled header")
        os.rename(tmp, pch)

    jobs, objs = [], []
    for s in srcs + own:
        # the library's own headers in src/ are on the include path of the library only
        f = base + inc + ([f"-I{REPO}/src"] if s in srcs else [f"-I{VERIF}/harness"])
        o = f"{BUILD}/obj/{_sha(s, hdr_hash, own_hash if s in own else '', pch, _read(s), *f)}.o"
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((os.path.getsize(s), s, o, f))
    jobs.sort(key=lambda j: (0 if j[1] in own else 1, -j[0]))

    def cc(job):
        _, s, o, f = job
        tmp = f"{o}.{os.getpid()}.tmp"
        try:
            _run([CXX, *f, "-include-pch", pch, "-c", s, "-o", tmp], s)
        except BuildError:
            _run([CXX, *f, "-c", s, "-o", tmp], s)      # without the precompiled header
        os.rename(tmp, o)

    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for _ in ex.map(cc, jobs):
            pass
    exe = f"{BUILD}/jfdrive-{variant}-{_sha(*objs, *base)}"
    if not os.path.exists(exe):
        libs = subprocess.run([f"{LLVM}/bin/llvm-config", "--libs"], capture_output=True, text=True).stdout.split()
        tmp = f"{exe}.{os.getpid()}.tmp"
        _run([CXX, *base, "-rdynamic", *objs, f"-L{LLVM}/lib", f"-Wl,-rpath,{LLVM}/lib", *libs, "-o", tmp], "the driver")
        os.rename(tmp, exe)
    # drop what no current build uses
    for old in glob.glob(f"{BUILD}/jfdrive-{variant}-*"):
        if old != exe and not old.endswith(".tmp"):
            try:
                os.remove(old)
            except OSError:
                pass
    return exe


if __name__ == "__main__":
    try:
        print(build(*sys.argv[1:2]))
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(3)
