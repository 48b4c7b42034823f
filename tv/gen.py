"""Choice-sequence generator with internal shrinking.

A case is a pure function of a list of small integers ("choices"); random
generation records them, replay feeds them back, shrinking edits the list."""
import os
import random
import numpy as np


class Discard(Exception):
    """the drawn case is outside the domain of the property"""


class Violation(Exception):
    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.sig = sig


class Src:
    def __init__(self, seed=None, choices=None):
        self.rng = random.Random(seed) if choices is None else None
        self.replay = choices
        self.pos = 0
        self.rec = []
        self.log = None

    def raw(self, n):
        """0 <= c < n"""
        if n <= 1:
            return 0
        if self.replay is None:
            c = self.rng.randrange(n)
        else:
            c = self.replay[self.pos] if self.pos < len(self.replay) else 0
            if c >= n:
                c = n - 1
            self.pos += 1
        self.rec.append(c)
        if self.log is not None:
            os.write(self.log, b"%d " % c)
        return c

    def int(self, lo, hi):
        return lo + self.raw(hi - lo + 1)

    def bool(self, p=0.5):
        # shrinks to False
        return self.raw(1000) >= 1000 - int(p * 1000)

    def choice(self, xs):
        return xs[self.raw(len(xs))]

    def weighted(self, pairs):
        """pairs: [(weight, value)]; first one is the simplest"""
        tot = sum(w for w, _ in pairs)
        c = self.raw(tot)
        for w, v in pairs:
            if c < w:
                return v
            c -= w
        return pairs[-1][1]

    def size(self, hi, lo=1):
        """small-biased size with occasional large values"""
        k = self.raw(10)
        if k < 6:
            return self.int(lo, min(hi, lo + 5))
        if k < 9:
            return self.int(lo, max(lo, min(hi, lo + (hi - lo) // 3)))
        return self.int(lo, hi)

    def shape(self, nd, hi=6, lo=1, limit=4096):
        s = []
        p = 1
        for _ in range(nd):
            d = self.size(max(lo, min(hi, limit // max(p, 1))), lo)
            s.append(d)
            p *= max(d, 1)
        return tuple(s)

    def perm(self, n):
        xs = list(range(n))
        for i in range(n - 1):
            j = i + self.raw(n - i)
            xs[i], xs[j] = xs[j], xs[i]
        return xs

    def subset(self, xs, p=0.5):
        return [x for x in xs if self.bool(p)]

    def nprng(self):
        return np.random.Generator(np.random.PCG64(self.raw(1 << 30)))

    # ---- array data
    def farray(self, shape, dtype=np.float32, kind=None):
        """float data of a drawn flavour; index flavour so wrong addressing shows"""
        kind = kind if kind is not None else self.choice(["ints", "index", "unit", "normal", "wide", "sparse"])
        g = self.nprng()
        n = int(np.prod(shape)) if len(shape) else 1
        if kind == "ints":
            a = g.integers(-8, 9, n)
        elif kind == "index":
            a = (np.arange(n) % 97) - 48 + 0.25
        elif kind == "unit":
            a = g.uniform(-1, 1, n)
        elif kind == "normal":
            a = g.normal(0, 3, n)
        elif kind == "wide":
            a = g.normal(0, 1, n) * 10.0 ** g.integers(-3, 3, n)
        else:
            a = g.normal(0, 2, n) * (g.uniform(0, 1, n) < 0.3)
        return np.asarray(a, dtype).reshape(shape)

    def iarray(self, shape, dtype=np.int32, lo=None, hi=None):
        g = self.nprng()
        info = np.iinfo(dtype)
        lo = info.min if lo is None else max(lo, info.min)
        hi = info.max if hi is None else min(hi, info.max)
        n = int(np.prod(shape)) if len(shape) else 1
        return g.integers(lo, hi, n, dtype=dtype, endpoint=True).reshape(shape)


def shrink(choices, test, budget):
    """test(list)->bool (True = still fails). budget(): False when exhausted."""
    best = list(choices)

    def attempt(c):
        nonlocal best
        if c == best or not budget():
            return False
        if test(c):
            best = c
            return True
        return False

    improved = True
    while improved and budget():
        improved = False
        k = max(1, len(best) // 2)
        while k >= 1 and budget():
            i = 0
            while i < len(best) and budget():
                c = best[:i] + best[i + k:]
                if attempt(c):
                    improved = True
                else:
                    i += k
            if k == 1:
                break
            k //= 2
        i = 0
        while i < len(best) and budget():
            if best[i]:
                if attempt(best[:i] + [0] + best[i + 1:]):
                    improved = True
                else:
                    lo, hi = 0, best[i]
                    while hi - lo > 1 and budget():
                        m = (lo + hi) // 2
                        if attempt(best[:i] + [m] + best[i + 1:]):
                            hi = m
                            improved = True
                        else:
                            lo = m
            i += 1
    return best
