"""Builds instrumented variants of the real extension from /repo's current tree.

Every variant is compiled from the .cc files the project's own build globs
(wicked/*/*.cc); nothing is taken from /repo/_build.  Objects are cached under
/verif/.build by a hash of all headers, the source and the flags, so that an
edited tree can never be served a stale object.
"""
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("WV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("WV_BUILD", os.path.join(VERIF, ".build"))
EXT = "_wicked.cpython-312-x86_64-linux-gnu.so"

BASE = ["-std=c++20", "-fPIC", "-fvisibility=hidden", "-w"]
BOOST = ["-DUSE_BOOST_1024_INT"]

VARIANTS = {
    # the shipped configuration
    "plain": dict(cxx="g++", flags=["-O1"] + BOOST, link=[], sources="all"),
    # 64-bit integer configuration (no boost)
    "noboost": dict(cxx="g++", flags=["-O1"], link=[], sources="all"),
    # AddressSanitizer + UndefinedBehaviorSanitizer + checked libstdc++
    "asan": dict(
        cxx="g++",
        flags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
               "-fno-sanitize=vptr", "-fno-sanitize-recover=all", "-D_GLIBCXX_DEBUG"] + BOOST,
        link=["-fsanitize=address,undefined"], sources="all"),
    # ThreadSanitizer
    "tsan": dict(
        cxx="g++",
        flags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"] + BOOST,
        link=["-fsanitize=thread"], sources="all"),
}


class BuildError(Exception):
    pass


def _sources():
    src = []
    for d in ("", "algebra", "diagrams", "helpers", "api", "fmt"):
        src += sorted(glob.glob(os.path.join(REPO, "wicked", d, "*.cc")))
    if not src:
        raise BuildError("no sources under " + REPO)
    return src


def _header_hash():
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(os.path.join(REPO, "wicked"))):
        dirs[:] = sorted(d for d in dirs if d != "__pycache__")
        for f in sorted(files):
            if f.endswith((".h", ".hpp", ".hh", ".inc", ".ipp")):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, REPO).encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()


def includes():
    w = os.path.join(REPO, "wicked")
    import sysconfig
    return ["-I" + w, "-I" + w + "/algebra", "-I" + w + "/diagrams", "-I" + w + "/fmt",
            "-I/usr/include/python3.12"]


def build(variant, verbose=True):
    """Returns a directory to put on PYTHONPATH (it holds the package `wicked`)."""
    spec = VARIANTS[variant]
    hh = _header_hash()
    objdir = os.path.join(BUILD, "obj")
    os.makedirs(objdir, exist_ok=True)
    srcs = _sources()
    # big translation units first
    srcs.sort(key=lambda s: ("/api/" not in s, -os.path.getsize(s)))
    objs = {}
    jobs = []
    for s in srcs:
        flags = spec["flags"]
        key = hashlib.sha256(
            "\0".join([spec["cxx"], *BASE, *flags, hh, os.path.relpath(s, REPO)]).encode()
            + open(s, "rb").read()).hexdigest()[:32]
        o = os.path.join(objdir, key + ".o")
        objs[s] = o
        if not os.path.exists(o):
            jobs.append((s, o, flags))

    def compile_one(job):
        s, o, flags = job
        tmp = o + ".%d.tmp" % os.getpid()
        r = subprocess.run([spec["cxx"], *BASE, *flags, *includes(), "-c", s, "-o", tmp],
                           capture_output=True, text=True)
        if r.returncode:
            return s + "\n" + r.stderr[:3000]
        os.replace(tmp, o)
        return None

    with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        errs = [e for e in ex.map(compile_one, jobs) if e]
    if errs:
        raise BuildError("compilation failed:\n" + "\n".join(errs[:3]))

    py = {}
    for f in ("__init__.py", "utils.py"):
        py[f] = open(os.path.join(REPO, "wicked", f), "rb").read()
    for p in sorted(glob.glob(os.path.join(REPO, "wicked", "*.py"))):
        py[os.path.basename(p)] = open(p, "rb").read()
    key = hashlib.sha256(repr((sorted(objs.values()), spec["link"],
                               sorted(py.items()))).encode()).hexdigest()[:20]
    pkg = os.path.join(BUILD, "pkg", variant + "-" + key)
    if not os.path.exists(os.path.join(pkg, "wicked", EXT)):
        os.makedirs(os.path.join(BUILD, "pkg"), exist_ok=True)
        tmp = tempfile.mkdtemp(dir=os.path.join(BUILD, "pkg"), prefix="tmp-")
        os.makedirs(os.path.join(tmp, "wicked"))
        for f, b in py.items():
            open(os.path.join(tmp, "wicked", f), "wb").write(b)
        r = subprocess.run([spec["cxx"], "-shared", *spec["link"], "-o",
                            os.path.join(tmp, "wicked", EXT), *objs.values()],
                           capture_output=True, text=True)
        if r.returncode:
            shutil.rmtree(tmp)
            raise BuildError("link failed:\n" + r.stderr[:3000])
        try:
            os.rename(tmp, pkg)
        except OSError:
            shutil.rmtree(tmp)
    _prune()
    return pkg


def build_shim():
    """The schedule/allocation perturbation library (LD_PRELOAD)."""
    src = os.path.join(VERIF, "native", "jitter.c")
    key = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    so = os.path.join(BUILD, "jitter-%s.so" % key)
    if not os.path.exists(so):
        tmp = so + ".%d" % os.getpid()
        r = subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", tmp, src, "-ldl", "-lpthread"],
                           capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr)
        os.replace(tmp, so)
    return so


def _prune(limit=1500):
    """Keep the cache bounded (oldest objects and packages go first)."""
    for sub, keep in (("obj", limit), ("pkg", 40)):
        d = os.path.join(BUILD, sub)
        if not os.path.isdir(d):
            continue
        ents = sorted((os.path.getmtime(os.path.join(d, e)), e) for e in os.listdir(d))
        for _, e in ents[:-keep] if len(ents) > keep else []:
            p = os.path.join(d, e)
            try:
                shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
            except OSError:
                pass


def san_lib(name):
    return subprocess.run(["gcc", "-print-file-name=lib%s.so" % name],
                          capture_output=True, text=True).stdout.strip()


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain"]:
        print(v, build(v))
