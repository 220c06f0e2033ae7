"""Build helper: compiles /repo's current sources and /verif harnesses, offline, content-hash cached."""
import glob, hashlib, os, re, subprocess, sys, time, json
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SUB = os.path.join(REPO, "subpackages/mav_trajectory_generation")
INC = ["-I" + REPO + "/include", "-I" + REPO + "/include/dynamic_trajectory_generator",
       "-I" + SUB + "/include", "-I/usr/include/eigen3", "-I" + VERIF + "/mc", "-I" + VERIF + "/harness"]
LIBS = ["-lglog", "-lgflags", "-lnlopt", "-lyaml-cpp", "-lpthread", "-ldl"]
COMMON = ["-std=c++17", "-g1", "-w", "-fno-omit-frame-pointer"]
TSAN = ["-fsanitize=thread"]
TSAN_ATOMIC_ONLY = TSAN + ["-mllvm", "-tsan-instrument-memory-accesses=0", "-mllvm", "-tsan-instrument-memintrinsics=0"]
FLAVOURS = {
    # race: every access instrumented; fast: only synchronisation instrumented; plain: no instrumentation
    "race": ["-O1", "-D_GLIBCXX_ASSERTIONS"] + TSAN,
    "fast": ["-O2", "-D_GLIBCXX_ASSERTIONS"] + TSAN_ATOMIC_ONLY,
    "plain": ["-O2", "-D_GLIBCXX_ASSERTIONS"],
    "asan": ["-O1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined"],
}


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _headers_hash(own):
    pats = [REPO + "/include/**/*", SUB + "/include/**/*"] + ([VERIF + "/mc/*.h", VERIF + "/harness/*.h"] if own else [])
    fs = sorted({f for p in pats for f in glob.glob(p, recursive=True) if os.path.isfile(f)})
    return _sha(*[x for f in fs for x in (f, _read(f))])


def repo_sources(dyn=True, math=True):
    out = []
    if math:
        out += sorted(glob.glob(SUB + "/src/**/*.cpp", recursive=True))
    if dyn:
        out += sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))
    res = []
    for f in out:
        src = re.sub(rb"//[^\n]*|/\*.*?\*/", b"", _read(f), flags=re.S)
        if re.search(rb"\bint\s+main\s*\(", src):
            continue
        res.append(f)
    return res


class BuildError(Exception):
    pass


def build(name, flavour, harness, dyn, mcrt, extra=()):
    """Returns the path of the linked executable."""
    os.makedirs(BUILD + "/obj", exist_ok=True)
    os.makedirs(BUILD + "/bin", exist_ok=True)
    hh, hr = _headers_hash(True), _headers_hash(False)
    jobs = []
    for f in repo_sources(dyn=dyn):
        jobs.append((f, COMMON + FLAVOURS[flavour] + INC + list(extra)))
    for f in harness:
        jobs.append((f, COMMON + FLAVOURS[flavour] + INC + list(extra)))
    if mcrt:
        jobs.append((VERIF + "/mc/mcrt.cpp", ["-std=c++17", "-g1", "-w", "-O2", "-fno-omit-frame-pointer", "-I" + VERIF + "/mc"]))

    def comp(job):
        src, flags = job
        key = _sha(hr if src.startswith(REPO + "/") else hh, src, _read(src), " ".join(flags))
        obj = f"{BUILD}/obj/{os.path.basename(src)}.{key}.o"
        if not os.path.exists(obj):
            tmp = obj + f".{os.getpid()}.tmp"
            r = subprocess.run(["clang++"] + flags + ["-c", src, "-o", tmp], capture_output=True, text=True)
            if r.returncode:
                raise BuildError(f"compiling {src}:\n{r.stderr[-4000:]}")
            os.replace(tmp, obj)
        else:
            os.utime(obj)
        return obj

    # biggest first
    order = sorted(jobs, key=lambda j: -(os.path.getsize(j[0]) + (200000 if "dynamic_trajectory" in j[0] or "/harness/" in j[0] else 0)))
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(comp, order))
    exe = f"{BUILD}/bin/{name}.{_sha(*objs)}"
    if not os.path.exists(exe):
        tmp = exe + f".{os.getpid()}.tmp"
        link = ["clang++", "-g1"] + (["-fsanitize=address,undefined"] if flavour == "asan" else []) + \
               ["-rdynamic"] * 0 + objs + ["-o", tmp] + LIBS
        r = subprocess.run(link, capture_output=True, text=True)
        if r.returncode:
            raise BuildError("linking:\n" + r.stderr[-4000:])
        os.replace(tmp, exe)
    _gc()
    return exe


def _gc(limit=1500 << 20):
    """keep the cache below `limit` bytes, dropping the oldest objects first"""
    try:
        fs = [f for d in ("obj", "bin") for f in glob.glob(f"{BUILD}/{d}/*") if os.path.isfile(f)]
        st = sorted((os.path.getmtime(f), os.path.getsize(f), f) for f in fs)
        total = sum(s for _, s, _ in st)
        for m, s, f in st:
            if total < limit or time.time() - m < 1800:
                break
            os.unlink(f)
            total -= s
    except OSError:
        pass
