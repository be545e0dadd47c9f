"""Arrays next to inaccessible pages: an access beyond them is a SIGSEGV."""
import ctypes
import mmap

import numpy as np

_libc = ctypes.CDLL(None, use_errno=True)
_libc.mmap.restype = ctypes.c_void_p
_libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int,
                       ctypes.c_int, ctypes.c_int, ctypes.c_long]
_libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
_libc.munmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
PAGE = mmap.PAGESIZE


class Guarded:
    """Copy of ``a`` that ends (or starts) exactly at a guard page."""

    def __init__(self, a, side, readonly=True):
        a = np.ascontiguousarray(a)
        body = -(-max(a.nbytes, 1) // PAGE) * PAGE
        self.size = body + 2 * PAGE
        self.addr = _libc.mmap(None, self.size, 3, 0x22, -1, 0)
        if self.addr in (None, ctypes.c_void_p(-1).value):
            raise OSError("mmap")
        start = self.addr + PAGE + (body - a.nbytes if side == "end" else 0)
        buf = (ctypes.c_char * a.nbytes).from_address(start)
        self.array = np.frombuffer(buf, dtype=a.dtype).reshape(a.shape)
        self.array[...] = a
        for p in (self.addr, self.addr + PAGE + body):
            if _libc.mprotect(p, PAGE, 0):
                raise OSError("mprotect")
        if readonly and _libc.mprotect(self.addr + PAGE, body, 1):
            raise OSError("mprotect")
        self.array.flags.writeable = False

    def free(self):
        self.array = None
        _libc.munmap(self.addr, self.size)
