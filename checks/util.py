"""Shared pieces of the oracles."""
import sys
import numpy as np
from sim.core import Violation

CANARY = 0x5A


class Guarded:
    """An array view of a given layout inside a larger buffer whose other bytes must not change."""

    def __init__(self, shape, dtype, layout, pad=16):
        dtype = np.dtype(dtype)
        shape = tuple(shape)
        nd = len(shape)
        steps = {"C": 1, "F": 1, "step2": 2, "step3": 3, "neg": -1, "padC": 1, "padF": 1, "bigC": 2, "bigF": 2}[layout]
        big = [max(s, 1) for s in shape]
        order = "F" if layout in ("F", "padF", "bigF") else "C"
        if layout in ("padC", "padF"):
            big = [b + 3 for b in big]
        if abs(steps) > 1:
            big = [b * abs(steps) for b in big]
        n = int(np.prod(big))
        self.raw = np.full(n * dtype.itemsize + 2 * pad * dtype.itemsize, CANARY, dtype=np.uint8)
        body = self.raw[pad * dtype.itemsize: pad * dtype.itemsize + n * dtype.itemsize].view(dtype).reshape(big, order=order)
        if layout == "neg":
            sl = tuple(slice(None, None, -1) if i == 0 else slice(None) for i in range(nd))
        else:
            sl = tuple(slice(0, s * abs(steps), abs(steps)) for s in shape)
        v = body[sl]
        v = v[tuple(slice(0, s) for s in shape)]
        assert v.shape == shape, (v.shape, shape)
        self.a = v
        mask = np.zeros(self.raw.shape, bool)
        m = mask[pad * dtype.itemsize: pad * dtype.itemsize + n * dtype.itemsize].view()
        flag = np.zeros(n, dtype="u1")
        f2 = flag.reshape(big, order=order)[sl][tuple(slice(0, s) for s in shape)]
        f2[...] = 1
        m[...] = np.repeat(flag.astype(bool), dtype.itemsize)
        self.mask = mask

    def check(self, what):
        bad = (self.raw != CANARY) & ~self.mask
        if bad.any():
            raise Violation("writes-outside-output", "%s: %d bytes outside the array were changed (first at %d)" % (what, bad.sum(), int(np.argmax(bad))))


class Frozen:
    """Inputs that an operation must not change."""

    def __init__(self, **arrays):
        self.items = {k: (v, v.copy()) for k, v in arrays.items()}

    def check(self, what):
        for k, (v, c) in self.items.items():
            if not np.array_equal(v, c, equal_nan=v.dtype.kind in "fc"):
                raise Violation("input-modified", "%s changed its input %s" % (what, k))


def close(got, want, tol, kind, msg, scale=None):
    got = np.asarray(got)
    want = np.asarray(want)
    if got.shape != want.shape:
        raise Violation(kind + ":shape", "%s: shape %s, expected %s" % (msg, got.shape, want.shape))
    if got.size == 0:
        return
    err = np.abs(got - want)
    lim = tol * (np.maximum(1.0, np.abs(want)) if scale is None else scale)
    bad = ~(err <= lim)
    if bad.any():
        i = np.unravel_index(int(np.argmax(bad)), bad.shape)
        raise Violation(kind, "%s: %d of %d entries differ, first at %s: got %r, expected %r" % (
            msg, int(bad.sum()), bad.size, tuple(int(x) for x in i), got[i].item() if hasattr(got[i], "item") else got[i],
            want[i].item() if hasattr(want[i], "item") else want[i]))


def rnd(rs, shape, dtype, ints=False):
    dtype = np.dtype(dtype)
    if ints:
        x = rs.randint(-3, 4, size=shape).astype(float)
        if dtype.kind == "c":
            x = x + 1j * rs.randint(-3, 4, size=shape)
        return x.astype(dtype)
    x = rs.uniform(-1, 1, size=shape)
    if dtype.kind == "c":
        x = x + 1j * rs.uniform(-1, 1, size=shape)
    return x.astype(dtype)


class Interrupted(BaseException):
    """Stands for a KeyboardInterrupt delivered between two lines of the library."""


class interrupt:
    """Raises Interrupted before the k-th line executed inside the quspin package (k=0: never); .fired tells whether it happened."""

    def __init__(self, k, part="/quspin/"):
        self.k, self.left, self.part, self.fired = k, k, part, False
        self.files = {}

    def inside(self, code):
        r = self.files.get(code)
        if r is None:
            r = self.files[code] = self.part in code.co_filename
        return r

    def call(self, frame, event, arg):
        return self.line if self.inside(frame.f_code) else None

    def line(self, frame, event, arg):
        if event == "line":
            self.left -= 1
            if self.left == 0:
                self.fired = True
                sys.settrace(None)
                raise Interrupted()
        return self.line

    def __enter__(self):
        if self.k:
            self.old = sys.gettrace()
            sys.settrace(self.call)
        return self

    def __exit__(self, t, v, tb):
        if self.k:
            sys.settrace(self.old)
        return t is Interrupted
