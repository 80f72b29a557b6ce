"""Builds instrumented copies of /repo's sources and the harnesses, outside /repo."""
import glob, hashlib, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = "g++"
PY = ["-I/usr/include/python3.12", "-I/usr/lib/python3/dist-packages/numpy/core/include"]
BASE = ["-std=c++11", "-w", "-pthread", "-DUSE_PTHREAD", "-DHAS_NUMPY_DEV",
        "-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION", "-I" + REPO + "/include", "-I" + REPO + "/external"] + PY
VARIANTS = {
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
             "-fno-sanitize=nonnull-attribute,pointer-overflow"],
    "tsan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
    "plain": ["-O2", "-g1"],
}
class BuildError(Exception):
    pass

def _digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:24]

def _read(p):
    with open(p, "rb") as f:
        return f.read()

def _headers():
    fs = []
    for root in (REPO + "/include", REPO + "/external", REPO + "/src", REPO + "/tools"):
        for d, _, names in os.walk(root):
            fs += [os.path.join(d, n) for n in names if n.endswith((".h", ".hpp", ".inl"))]
    return fs

_hdr = None
def header_digest():
    global _hdr
    if _hdr is None:
        h = hashlib.sha256()
        for f in sorted(_headers()):
            h.update(f.encode()); h.update(_read(f))
        _hdr = h.hexdigest()
    return _hdr

def lib_sources():
    fs = sorted(glob.glob(REPO + "/src/sol/**/*.cc", recursive=True) + glob.glob(REPO + "/src/sol/**/*.cpp", recursive=True))
    fs += sorted(glob.glob(REPO + "/external/json/*.cpp"))
    return fs

def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-6000:])

def _compile(src, variant, extra=(), extra_digest=""):
    flags = BASE + VARIANTS[variant] + list(extra)
    key = _digest(" ".join(flags), header_digest(), extra_digest, src, _read(src))
    d = os.path.join(BUILD, "obj", variant); os.makedirs(d, exist_ok=True)
    obj = os.path.join(d, os.path.basename(src) + "." + key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        _run([CXX] + flags + ["-c", src, "-o", tmp]); os.rename(tmp, obj)
    return obj

def _harness_hdr_digest():
    h = hashlib.sha256()
    for f in sorted(glob.glob(VERIF + "/harness/*.h")):
        h.update(_read(f))
    return h.hexdigest()

def build(targets, jobs=8):
    """targets: list of (kind, name, variant): kind 'h' = harness/<name>.cc with the library, 't' = /repo/tools/<name>.cc.
    Returns {target: path}."""
    jobs_list = []
    variants = sorted({t[2] for t in targets})
    hd = _harness_hdr_digest()
    with ThreadPoolExecutor(jobs) as ex:
        libf = {v: [ex.submit(_compile, s, v) for s in lib_sources()] for v in variants}
        tf = {}
        for t in targets:
            kind, name, v = t
            if kind == "h":
                tf[t] = ex.submit(_compile, VERIF + "/harness/" + name + ".cc", v, ("-I" + VERIF + "/harness",), hd)
            else:
                tf[t] = ex.submit(_compile, REPO + "/tools/" + name + ".cc", v)
        libs = {v: [f.result() for f in fs] for v, fs in libf.items()}
        def link(t):
            kind, name, v = t
            obj = tf[t].result()
            wrap = []
            if kind == "h":
                first = _read(VERIF + "/harness/" + name + ".cc").decode("utf8", "replace")
                for line in first.split("\n")[:5]:
                    if line.startswith("// LINK:"):
                        wrap = line[len("// LINK:"):].split()
            flags = BASE + VARIANTS[v]
            key = _digest(" ".join(libs[v]), obj, " ".join(wrap))
            d = os.path.join(BUILD, "bin", v); os.makedirs(d, exist_ok=True)
            exe = os.path.join(d, ("" if kind == "h" else "tool_") + name + "." + key)
            if not os.path.exists(exe):
                tmp = exe + ".%d.tmp" % os.getpid()
                _run([CXX] + flags + [obj] + libs[v] + wrap + ["-ldl", "-o", tmp]); os.rename(tmp, exe)
            return exe
        res = {t: ex.submit(link, t) for t in targets}
        return {t: f.result() for t, f in res.items()}
