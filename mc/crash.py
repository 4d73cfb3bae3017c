"""Crash and fault injection at the system calls that change files.

A preloaded library counts the calls (create, write, truncate, rename, unlink, mkdir)
on files under one directory, and at the chosen one either kills the process (SIGKILL)
before the call or after half of a write, makes the call fail with an error code, or
lets another rank run first.
The files left behind are then those a killed program leaves."""
import ctypes
import hashlib
import os
import subprocess
import sys

from . import common

SRC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "shim.c")


def build():
    with open(SRC, "rb") as fh:
        key = hashlib.sha256(fh.read()).hexdigest()[:16]
    d = os.path.join(common.VERIF, ".cache")
    os.makedirs(d, exist_ok=True)
    so = os.path.join(d, "shim-%s.so" % key)
    if not os.path.exists(so):
        tmp = "%s.%d" % (so, os.getpid())
        r = subprocess.run(["/usr/bin/gcc", "-O1", "-w", "-shared", "-fPIC", SRC, "-o", tmp, "-ldl"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise common.CheckError(r.stdout.decode()[-2000:])
        os.replace(tmp, so)
    return so


_lib = None


def require():
    """Restart this process with the library loaded, unless it is."""
    global _lib
    so = build()
    if os.environ.get("TCRM_MC_SHIM") != so:
        env = dict(os.environ, LD_PRELOAD=so, TCRM_MC_SHIM=so)
        sys.stdout.flush()
        os.execve(sys.executable, [sys.executable, "-B", "-m", "mc.run"] + sys.argv[1:], env)
    os.environ.pop("LD_PRELOAD", None)
    os.environ.pop("TCRM_MC_SHIM", None)
    _lib = ctypes.CDLL(so)
    _lib.cut_arm.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_int, ctypes.c_int]
    _lib.cut_disarm.restype = ctypes.c_long
    _lib.cut_count.restype = ctypes.c_long


def arm(directory, at=0, torn=False, errno=0):
    """Count operations under directory from now on; act at number `at` (0: never)."""
    _lib.cut_arm(directory.encode(), at, int(torn), errno)


_CB = ctypes.CFUNCTYPE(None)
_cb = None


def pause_with(fn):
    """Call fn() just before the chosen operation instead of killing the process."""
    global _cb
    _cb = _CB(fn)
    _lib.cut_pause(_cb)


def disarm():
    return _lib.cut_disarm()
