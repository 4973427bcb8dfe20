"""Faults injected into writes."""
import contextlib
import os
import resource
import sys

LIB = os.sep + 'dliswriter' + os.sep


class Injected(RuntimeError):
    pass


class Interrupted(KeyboardInterrupt):
    pass


# calls out of the library that may fail in reality
OUTSIDE = {'io': {'open', 'write', 'flush', 'close', 'truncate', 'seek'}, 'pack': {'pack', 'pack_into', 'to_bytes'}, 'text': {'encode'},
           'data': {'astype', 'tobytes', 'byteswap', 'array', 'zeros', 'newbyteorder', 'asarray', 'ascontiguousarray', 'frombuffer'}}


def hit(frame, event, arg, outside):
    if LIB not in frame.f_code.co_filename:
        return False
    if outside:
        return event == 'c_call' and getattr(arg, '__name__', '') in OUTSIDE[outside]
    return event == 'call'


class Counter:
    """counts the calls of library functions, or (outside) those out of the library that may fail"""

    def __init__(self, outside=None):
        self.n = 0
        self.outside = outside

    def __enter__(self):
        def prof(frame, event, arg):
            if hit(frame, event, arg, self.outside):
                self.n += 1
        sys.setprofile(prof)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)


@contextlib.contextmanager
def raise_at(k, outside=None, exc=Injected):
    """the k-th call of a library function (or out of the library) raises"""
    n = 0

    def prof(frame, event, arg):
        nonlocal n
        if hit(frame, event, arg, outside):
            n += 1
            if n == k:
                sys.setprofile(None)
                raise exc(f"injected at call {k}, {frame.f_code.co_qualname}")
    sys.setprofile(prof)
    try:
        yield
    finally:
        sys.setprofile(None)


@contextlib.contextmanager
def file_size_limit(n):
    """writing beyond n bytes of a file fails"""
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (n, hard))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
