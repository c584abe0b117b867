"""What the property modules share: draws, violations, comparison helpers."""
import functools
import math
import os
import random
import zlib

REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    """The property does not hold on this case."""


class NoAnswer(Violation):
    """The code under test gave no result in many times the CPU time it normally needs."""


class HarnessError(Exception):
    """The check is wrong, not the code under test."""


class Invalid(Exception):
    """The case is outside of the property's domain (nothing is concluded from it)."""


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def short(x, n=700):
    r = repr(x)
    return r if len(r) <= n else r[:n] + " ..."


def check(cond, msg, *args):
    if not cond:
        fail(msg, *args)


def eq(got, expected, what):
    """Exact equality, including type for numbers versus strings (but 1 == 1.0 == True)."""
    try:
        same = bool(got == expected)
    except Exception:
        same = False
    if not same:
        raise Violation("%s: got %s, expected %s" % (what, short(got), short(expected)))


def close(got, expected, what, tol=1e-9):
    ok = isinstance(got, (int, float)) or hasattr(got, "item")
    ok = ok and math.isfinite(float(got)) == math.isfinite(expected)
    ok = ok and (not math.isfinite(expected) or abs(float(got) - expected) <= tol * max(1.0, abs(expected)))
    if not ok:
        raise Violation("%s: got %s, expected %s" % (what, short(got), short(expected)))


def raises(fn, what, types=Exception):
    try:
        r = fn()
    except types as e:
        return e
    raise Violation("%s: expected an error, got %s" % (what, short(r)))


def reset_globals():
    """Each case starts from the same global random states (cases set their own seeds on top)."""
    import numpy as np
    random.seed(12345)
    np.random.seed(12345)


def norm(x):
    """A canonical form for hashing: plain Python values only."""
    import numpy as np
    if isinstance(x, np.generic):
        x = x.item()
    if isinstance(x, np.ndarray):
        x = x.tolist()
    if isinstance(x, (list, tuple)):
        return tuple(norm(v) for v in x)
    if isinstance(x, dict):
        return tuple(sorted(((norm(k), norm(v)) for k, v in x.items()), key=repr))
    return x


def h(*xs):
    """A stable hash of plain values."""
    return zlib.crc32(repr(norm(xs)).encode())


@functools.lru_cache(None)
def _ints(a, b):
    from hypothesis import strategies as st
    return st.integers(a, b)


class D:
    """Draws, from Hypothesis (small cases, which shrink) or from a seeded generator (large cases)."""

    def __init__(self, draw=None, rnd=None, scale=1, spike=0):
        self.spike = spike      # one of the sizes, chosen at random, is up to `spike` times the largest; the others are small
        self._draw = draw
        self._rnd = rnd
        self.scale = scale
        self.big = rnd is not None

    def int(self, a, b):
        if b <= a:
            return a
        if self._draw is not None:
            return self._draw(_ints(a, b))
        return self._rnd.randint(a, b)

    def size(self, lo, small, large):
        """A size from lo to `small` in small cases, up to `large` (at full scale) in large ones."""
        if self.spike > 1:
            if self._rnd.random() < 0.4:
                k, self.spike = self.spike, 1
                return self.int(large, large * k)
            return self.int(lo, max(lo, small))
        if self.spike == 1:
            return self.int(lo, max(lo, small))
        if self.big:
            return self.int(lo, max(lo, small, small + (large - small) * self.scale // 4))
        return self.int(lo, max(lo, small))

    def bool(self, p=0.5):
        return self.int(0, 99) >= 100 - int(round(p * 100))

    def choice(self, seq):
        return seq[self.int(0, len(seq) - 1)]

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = self.int(i, len(seq) - 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def sample(self, seq, k):
        return self.shuffle(seq)[:k]

    def subset(self, seq, p=0.5):
        return [x for x in seq if self.bool(p)]

    def seed(self):
        return self.int(0, 2 ** 31 - 1)

    def num(self, lo=-20, hi=20):
        """A float with a short exact representation."""
        return self.int(lo * 8, hi * 8) / 8.0

    def real(self, lo, hi):
        """Any float between lo and hi."""
        return lo + (hi - lo) * (self.int(0, 10 ** 9) / 1e9)

    def weighted(self, pairs):
        total = sum(w for _, w in pairs)
        k = self.int(0, total - 1)
        for v, w in pairs:
            if k < w:
                return v
            k -= w
