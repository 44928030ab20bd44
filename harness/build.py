"""Builds the code under test from /repo's working tree, outside /repo.

Builds are keyed by the content of everything they are made from, so an unchanged tree is
not compiled twice in the same copy of /verif, and a changed tree always is.
"""
import fcntl
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
import time

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
BUILD = os.path.join(ROOT, ".build")
PY = "/opt/boozenv/bin/python"


class BuildError(Exception):
    pass


def _files():
    out = []
    for base in ("src", "cmake", "externalPackages"):
        for d, dn, fn in os.walk(os.path.join(REPO, base)):
            dn[:] = [x for x in dn if x != "__pycache__" and not x.endswith(".egg-info")]
            out += [os.path.join(d, f) for f in fn]
    for f in ("CMakeLists.txt", "pyproject.toml", "setup.py"):
        out.append(os.path.join(REPO, f))
    for f in glob.glob(os.path.join(REPO, "tests", "*.cpp")):
        out.append(f)
    return sorted(f for f in out if os.path.isfile(f))


def tree_hash(extra=()):
    h = hashlib.sha256()
    for f in _files():
        h.update(f.encode())
        h.update(open(f, "rb").read())
    for f in extra:
        h.update(f.encode())
        if os.path.isfile(f):
            h.update(open(f, "rb").read())
    return h.hexdigest()[:16]


def version():
    m = re.search(r'^version\s*=\s*"([^"]+)"', open(os.path.join(REPO, "pyproject.toml")).read(), re.M)
    return m.group(1) if m else None


def _env():
    e = dict(os.environ)
    e["PATH"] = "/opt/boozenv/bin:" + e.get("PATH", "/usr/bin:/bin")
    for k in ("CMAKE_GENERATOR", "MAKEFLAGS", "CXXFLAGS", "LDFLAGS", "PYTHONPATH", "MALLOC_PERTURB_"):
        e.pop(k, None)
    e["LC_ALL"] = "C.UTF-8"
    return e


def _run(cmd, log, **kw):
    r = subprocess.run(cmd, stdout=log, stderr=subprocess.STDOUT, env=_env(), **kw)
    return r.returncode


def _prune(keep):
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if "-" in d and not d.endswith(".lock")]
        ds = [d for d in ds if os.path.isdir(d)]
        ds.sort(key=os.path.getmtime, reverse=True)
        for d in ds[40:]:
            if d != keep and d.startswith(BUILD + os.sep):
                shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


def _locked(name, extra, maker):
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, "%s-%s" % (name, tree_hash(extra)))
    with open(d + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        ok = os.path.join(d, "OK")
        if not os.path.exists(ok):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            t = time.time()
            with open(os.path.join(d, "log"), "wb") as log:
                maker(d, log)
            with open(ok, "w") as f:
                f.write("%.1f\n" % (time.time() - t))
            _prune(d)
    return d


def _fail(d, what):
    tail = open(os.path.join(d, "log"), errors="replace").read()[-3000:]
    raise BuildError("%s failed:\n%s" % (what, tail))


def release():
    """The package as users get it. Returns dict(site=..., exe=...)."""
    def make(d, log):
        cm = os.path.join(d, "cmake")
        cmd = ["cmake", "-S", REPO, "-B", cm, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release",
               "-DBOOZ_XFORM_REQUIRE_OPENMP=ON", "-DPython_EXECUTABLE=" + PY, "-DPYTHON_EXECUTABLE=" + PY,
               "-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCMAKE_CXX_COMPILER=/usr/bin/g++"]
        v = version()
        if v:
            cmd.append("-DBOOZ_XFORM_VERSION=" + v)
        if _run(cmd, log):
            _fail(d, "cmake")
        if _run(["cmake", "--build", cm, "--target", "_booz_xform", "xbooz_xform"], log):
            _fail(d, "build")
        site = os.path.join(d, "site", "booz_xform")
        shutil.copytree(os.path.join(REPO, "src", "booz_xform"), site,
                        ignore=shutil.ignore_patterns("__pycache__", "*.so"))
        so = glob.glob(os.path.join(cm, "_booz_xform*.so"))
        if len(so) != 1:
            _fail(d, "finding the extension module")
        shutil.copy(so[0], site)
    d = _locked("release", (), make)
    return {"site": os.path.join(d, "site"), "exe": os.path.join(d, "cmake", "xbooz_xform")}


def native(name, compiler, cflags, ldflags, extra_sources, define_version=True):
    """Compile the library sources plus extra_sources with the given flags into one program."""
    def make(d, log):
        src = [f for f in sorted(glob.glob(os.path.join(REPO, "src", "_booz_xform", "*.cpp")))
               if os.path.basename(f) not in ("xbooz_xform.cpp", "bindings.cpp")]
        inc = ["-I" + os.path.join(REPO, "src", "_booz_xform"),
               "-isystem", os.path.join(REPO, "externalPackages", "eigen")]
        nc = subprocess.run(["nc-config", "--cflags"], capture_output=True, text=True).stdout.split()
        ncl = subprocess.run(["nc-config", "--libs"], capture_output=True, text=True).stdout.split() or ["-lnetcdf"]
        procs, objs = [], []
        for s in src + list(extra_sources):
            o = os.path.join(d, os.path.basename(s) + ".o")
            objs.append(o)
            procs.append(subprocess.Popen([compiler, "-std=c++17", "-ftemplate-depth=1024", "-DVERSION_INFO=verif",
                                           "-w"] + cflags + inc + nc + ["-c", s, "-o", o],
                                          stdout=log, stderr=subprocess.STDOUT, env=_env()))
        bad = [p for p in procs if p.wait()]
        if bad:
            _fail(d, "compiling " + name)
        if _run([compiler] + objs + ldflags + ncl + ["-o", os.path.join(d, "prog")], log):
            _fail(d, "linking " + name)
    heads = tuple(sorted(glob.glob(os.path.join(HERE, "native", "*.hpp"))))
    d = _locked(name, tuple(extra_sources) + heads + tuple(["flags:" + " ".join(cflags + ldflags)]), make)
    return os.path.join(d, "prog")


if __name__ == "__main__":
    t = time.time()
    print(release(), "%.1f s" % (time.time() - t))
