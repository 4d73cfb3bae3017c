"""The four compiled extensions, built from /repo's present sources.

The .so files lying in /repo may be stale, so they are never imported: a meta
path finder maps each extension name to a private build (or, in pure mode, to
ImportError so that the Python fallback runs)."""
import fcntl
import glob
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

from .common import REPO, VERIF, CheckError

EXTS = {
    "Utilities._akima": "Utilities/akima.c",
    "Utilities._maputils": "Utilities/maputils.f90",
    "PressureInterface._pressureProfile": "PressureInterface/pressureProfile.f90",
    "wind._windmodels": "wind/windmodels.f90",
}
CACHE = os.path.join(VERIF, ".cache", "ext")


def _run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    if r.returncode:
        raise CheckError("%s failed:\n%s" % (cmd[0], r.stdout.decode()[-3000:]))


def _build(name, source, target):
    import numpy
    import numpy.f2py
    f2py = os.path.join(os.path.dirname(numpy.f2py.__file__), "src")
    inc = ["-I" + sysconfig.get_path("include"), "-I" + numpy.get_include(),
           "-I" + os.path.join(numpy.get_include(), "numpy"), "-I" + f2py]
    cc = ["/usr/bin/gcc", "-O2", "-g", "-fPIC", "-w", *inc, "-c"]
    fc = ["/usr/bin/gfortran", "-O2", "-g", "-fPIC", "-c"]
    module = name.rsplit(".", 1)[1]
    work = tempfile.mkdtemp(prefix="ext-", dir=CACHE)
    try:
        if source.endswith(".c"):
            _run([*cc, source, "-o", "source.o"], work)
            linker = "/usr/bin/gcc"
        else:
            _run([sys.executable, "-m", "numpy.f2py", "--quiet", "-m", module,
                  source], work)
            _run([*fc, source, "-o", "source.o"], work)
            for c in [*glob.glob(work + "/*.c"), f2py + "/fortranobject.c"]:
                _run([*cc, c, "-o", os.path.basename(c)[:-2] + ".o"], work)
            for f in glob.glob(work + "/*-f2pywrappers*.f*"):
                _run([*fc, f, "-o", os.path.basename(f).rsplit(".", 1)[0] + ".o"],
                     work)
            linker = "/usr/bin/gfortran"
        _run([linker, "-shared", *sorted(glob.glob(work + "/*.o")), "-o", "out.so"],
             work)
        os.replace(os.path.join(work, "out.so"), target)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def build_all():
    """{extension name: path of an .so built from the current source}"""
    os.makedirs(CACHE, exist_ok=True)
    out = {}
    with open(os.path.join(CACHE, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        for name, rel in EXTS.items():
            src = os.path.join(REPO, rel)
            if not os.path.exists(src):
                continue
            with open(src, "rb") as fh:
                key = hashlib.sha256(fh.read()).hexdigest()[:24]
            d = os.path.join(CACHE, key)
            so = os.path.join(d, name.rsplit(".", 1)[1] +
                              sysconfig.get_config_var("EXT_SUFFIX"))
            if not os.path.exists(so):
                os.makedirs(d, exist_ok=True)
                _build(name, src, so)
            out[name] = so
    return out


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, paths):
        self.paths = paths
        self.pure = False

    def find_spec(self, name, path=None, target=None):
        if name not in EXTS:
            return None
        if self.pure or name not in self.paths:
            raise ImportError("%s is not available" % name, name=name)
        so = self.paths[name]
        loader = importlib.machinery.ExtensionFileLoader(name, so)
        return importlib.util.spec_from_file_location(name, so, loader=loader)


_finder = None


def install(paths):
    global _finder
    _finder = _Finder(paths)
    sys.meta_path.insert(0, _finder)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def pure(flag=True):
    """Hide (or show) the extensions to later imports."""
    _finder.pure = flag
