"""Builds the extension module from /repo's current working tree, outside /repo.

The project's own setup.py is run (as /opt/vp/pybuild.py does), with objects
compiled in parallel and build products below /verif/.work/<hash of the
sources>.  A private ccache directory, seeded from the one the repository's
build leaves behind when there is one, makes repeated builds cheap; nothing is
written into /repo."""

import hashlib
import os
import shutil
import subprocess
import sys
import time

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(VERIF, ".work")

DRIVER = r'''
import os, runpy, sys
from concurrent.futures import ThreadPoolExecutor
import setuptools
try:
    from distutils.ccompiler import CCompiler
except ImportError:
    from setuptools._distutils.ccompiler import CCompiler
def compile(self, sources, output_dir=None, macros=None, include_dirs=None,
            debug=0, extra_preargs=None, extra_postargs=None, depends=None):
    extra_postargs = list(extra_postargs or []) + os.environ.get("VERIF_CFLAGS", "").split()
    macros, objects, extra_postargs, pp_opts, build = self._setup_compile(
        output_dir, macros, include_dirs, sources, depends, extra_postargs)
    cc_args = self._get_cc_args(pp_opts, debug, extra_preargs)
    with ThreadPoolExecutor(os.cpu_count() or 4) as pool:
        jobs = [pool.submit(self._compile, obj, *build[obj], cc_args,
                            extra_postargs, pp_opts)
                for obj in objects if obj in build]
    for job in jobs:
        job.result()
    return objects
CCompiler.compile = compile
_link = CCompiler.link_shared_object
def link(self, objects, output_filename, output_dir=None, libraries=None, library_dirs=None,
         runtime_library_dirs=None, export_symbols=None, debug=0, extra_preargs=None,
         extra_postargs=None, build_temp=None, target_lang=None):
    return _link(self, objects, output_filename, output_dir, libraries, library_dirs,
                 runtime_library_dirs, export_symbols, debug, extra_preargs,
                 list(extra_postargs or []) + os.environ.get("VERIF_LDFLAGS", "").split(),
                 build_temp, target_lang)
CCompiler.link_shared_object = link
repo, temp, lib = sys.argv[1:4]
os.chdir(repo)
sys.argv = ["setup.py", "build_ext", "--force", "--build-temp", temp, "--build-lib", lib]
sys.path.insert(0, repo)
runpy.run_path("setup.py", run_name="__main__")
'''


def tree_hash(repo=REPO, extra=""):
    h = hashlib.sha256(extra.encode())
    for top in ("src", "setup.py"):
        p = os.path.join(repo, top)
        if os.path.isfile(p):
            files = [p]
        else:
            files = []
            for d, _, fs in os.walk(p):
                files += [os.path.join(d, f) for f in fs]
        for f in sorted(files):
            if f.endswith((".o", ".so", ".pyc")):
                continue
            h.update(os.path.relpath(f, repo).encode() + b"\0")
            with open(f, "rb") as fp:
                h.update(hashlib.sha256(fp.read()).digest())
    return h.hexdigest()[:20]


def _env(sanitize):
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", CC="gcc", CXX="g++",
               LC_ALL="C.UTF-8", LANG="C.UTF-8",
               CCACHE_MAXSIZE="1G", CCACHE_COMPILERCHECK="content")
    env.pop("LC_CTYPE", None)
    env.pop("LC_MESSAGES", None)
    if shutil.which("ccache") and os.path.isdir("/usr/lib/ccache"):
        env["PATH"] = "/usr/lib/ccache:/usr/local/bin:/usr/bin:/bin"
        cdir = os.path.join(WORK, "ccache")
        if not os.path.isdir(cdir):
            src = os.path.join(REPO, "_build", "ccache")
            try:
                if os.path.isdir(src):
                    tmp = cdir + ".tmp%d" % os.getpid()
                    shutil.copytree(src, tmp)
                    os.rename(tmp, cdir)
            except (OSError, shutil.Error):
                pass
        os.makedirs(cdir, exist_ok=True)
        env["CCACHE_DIR"] = cdir
    if sanitize:
        env["VERIF_CFLAGS"] = "-fsanitize=address -fno-omit-frame-pointer -O1 -g1"
        env["VERIF_LDFLAGS"] = "-fsanitize=address"
    return env


def build(sanitize=False, log=sys.stderr):
    """Returns the directory that holds _graphillion*.so."""
    os.makedirs(WORK, exist_ok=True)
    key = tree_hash(extra="asan" if sanitize else "plain")
    out = os.path.join(WORK, "build-" + key)
    lib = os.path.join(out, "lib")
    if os.path.exists(os.path.join(out, "ok")):
        return lib
    # keep few old builds around
    olds = sorted((os.path.join(WORK, d) for d in os.listdir(WORK) if d.startswith("build-")),
                  key=os.path.getmtime)
    for d in olds[:-6]:
        shutil.rmtree(d, ignore_errors=True)
    tmp = out + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    drv = os.path.join(tmp, "driver.py")
    with open(drv, "w") as fp:
        fp.write(DRIVER)
    py = "/opt/vp/venv/bin/python"
    if not os.path.exists(py):
        py = sys.executable
    t0 = time.time()
    r = subprocess.run([py, drv, REPO, os.path.join(tmp, "obj"), os.path.join(tmp, "lib")],
                       env=_env(sanitize), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        log.write(r.stdout[-4000:])
        raise SystemExit("build of the extension failed")
    shutil.rmtree(os.path.join(tmp, "obj"), ignore_errors=True)
    open(os.path.join(tmp, "ok"), "w").close()
    try:
        os.rename(tmp, out)
    except OSError:
        if not os.path.exists(os.path.join(out, "ok")):
            raise
        shutil.rmtree(tmp, ignore_errors=True)
    log.write("built extension in %.1fs\n" % (time.time() - t0))
    return lib


def build_countmem():
    """The allocator that counts (see countmem.c)."""
    src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "countmem.c")
    with open(src, "rb") as fp:
        key = hashlib.sha256(fp.read()).hexdigest()[:16]
    os.makedirs(WORK, exist_ok=True)
    so = os.path.join(WORK, "countmem-%s.so" % key)
    if not os.path.exists(so):
        tmp = so + ".tmp%d" % os.getpid()
        subprocess.run(["gcc", "-O2", "-fPIC", "-shared", "-fno-builtin", "-o", tmp, src], check=True)
        os.rename(tmp, so)
    return so


def build_native(log=sys.stderr):
    """The driver of the C++ class (native.cc), compiled against the headers
    of the current tree; its undefined symbols are those of the extension."""
    src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "native.cc")
    with open(src, "rb") as fp:
        key = tree_hash(extra="native" + hashlib.sha256(fp.read()).hexdigest())
    os.makedirs(WORK, exist_ok=True)
    so = os.path.join(WORK, "native-%s.so" % key)
    if not os.path.exists(so):
        for f in os.listdir(WORK):
            if f.startswith("native-") and time.time() - os.path.getmtime(os.path.join(WORK, f)) > 3600:
                os.unlink(os.path.join(WORK, f))
        tmp = so + ".tmp%d" % os.getpid()
        inc = os.path.join(REPO, "src")
        r = subprocess.run(["g++", "-std=c++17", "-O1", "-g1", "-w", "-fPIC", "-fopenmp", "-DB_64",
                            "-I" + inc, "-I" + os.path.join(inc, "SAPPOROBDD"),
                            "-shared", "-o", tmp, src],
                           env=_env(False), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            log.write(r.stdout[-4000:])
            raise SystemExit("build of the driver of the C++ class failed")
        os.rename(tmp, so)
    return so


if __name__ == "__main__":
    print(build(sanitize="--asan" in sys.argv))
    build_native()
