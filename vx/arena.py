"""Speeds the analysis up where a C compiler is at hand (see native/arena.c); without one nothing changes."""
import ctypes
import hashlib
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def install():
    try:
        src = os.path.join(ROOT, "native", "arena.c")
        h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:12]
        d = os.path.join(ROOT, "build")
        os.makedirs(d, exist_ok=True)
        so = os.path.join(d, "arena-%s.so" % h)
        if not os.path.exists(so):
            tmp = "%s.%d" % (so, os.getpid())
            subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", tmp, src], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            os.rename(tmp, so)
        lib = ctypes.CDLL(so)
        ctypes.pythonapi.PyObject_SetArenaAllocator(ctypes.byref((ctypes.c_void_p * 3).in_dll(lib, "vx_arena")))
        return True
    except Exception:
        return False
