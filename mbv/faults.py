"""Fault injection into file system calls through an LD_PRELOAD shim (shim.c)."""
import os, sys, ctypes, subprocess
from .engine import HarnessError, HERE

WOPEN, WRITE, COPY, LINK, MKDIR, REMOVE, META, ROPEN, READ, DIR, CLOSE = [1 << i for i in range(11)]
NAMES = ["create/open for writing", "write", "copy (sendfile)", "link", "mkdir", "rename/remove", "set times or mode",
         "open for reading", "read", "list directory", "close after writing"]


def build(dest=None):
    """compile the shim; returns its path (in a directory the caller removes)"""
    import tempfile
    if dest is None:
        dest = tempfile.mkdtemp(prefix="mbv-run-")
    out = os.path.join(dest, "mbvshim.so")
    for cc in ("gcc", "cc", "clang"):
        try:
            r = subprocess.run([cc, "-O1", "-shared", "-fPIC", "-o", out, os.path.join(HERE, "mbv", "shim.c"), "-ldl"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        except OSError:
            continue
        if r.returncode == 0:
            return out
        raise HarnessError("the fault shim does not compile: %s" % r.stdout.decode()[-1500:])
    raise HarnessError("no C compiler for the fault shim")


_lib = None


def lib():
    global _lib
    if _lib is None:
        so = os.environ.get("MBV_SHIM")
        if not so or so not in os.environ.get("LD_PRELOAD", ""):
            raise HarnessError("the fault shim is not loaded")
        _lib = ctypes.CDLL(so)
        _lib.mbv_firstpath.restype = ctypes.c_char_p
    return _lib


def shimmed_env(dest):
    so = build(dest)
    env = dict(os.environ)
    env["MBV_SHIM"] = so
    env["LD_PRELOAD"] = so
    return env


def run(func, root, mask, k=0, err=0, sticky=False, nolink=False):
    """call func() with the k-th (0: none) file system call of the given kinds below root failing.
    returns (result or None, exception or None, number of calls, what failed or None)"""
    import gc
    l = lib()
    res = exc = None
    l.mbv_nolink(1 if nolink else 0)
    l.mbv_arm(os.fsencode(os.path.realpath(root)), mask, k, err, int(sticky))
    try:
        try:
            res = func()
        except Exception as ex:
            exc = ex
        # files left to the garbage collector are written now
        if exc is None:
            gc.collect()
    finally:
        n = l.mbv_disarm()
    what = None
    if l.mbv_fired():
        what = (NAMES[l.mbv_firstkind().bit_length() - 1], os.fsdecode(l.mbv_firstpath()))
    if exc is not None:
        # the traceback keeps half-open files alive; drop it
        msg = "%s: %s" % (type(exc).__name__, exc)
        exc.__traceback__ = None
        exc = msg
    return res, exc, n, what


def kinds(n):
    l = lib()
    return [l.mbv_kind(i) for i in range(1, n + 1)]
