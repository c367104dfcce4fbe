"""Primitive generators shared by all writers.

A writer emits text in the layout CASTEP uses together with the data that text states.
Numbers are drawn so that (nearly) every printed value is distinct: a value that turns up
in the wrong place is then visible.  Expected values are produced by ``float``/``int`` of
the printed token itself: never by code of the package under test.
"""
from __future__ import annotations

import random

ELEMENTS = ["H", "He", "Li", "Be", "B", "C", "N", "O", "F", "Ne", "Na", "Mg", "Al", "Si", "P",
            "S", "Cl", "Ar", "K", "Ca", "Ti", "V", "Cr", "Mn", "Fe", "Co", "Ni", "Cu", "Zn",
            "Ga", "Ge", "As", "Se", "Br", "Sr", "Y", "Zr", "Nb", "Mo", "Ag", "Cd", "In", "Sn",
            "I", "Cs", "Ba", "La", "Ce", "W", "Pt", "Au", "Hg", "Pb", "U"]
WORDS = ["alpha", "beta", "gamma", "lorem", "ipsum", "dolor", "sit", "amet", "quick", "brown",
         "fox", "jumps", "lazy", "dog", "castle", "keep", "tower", "moat", "geo-opt", "run2", "x86_64", "v1.2"]


class Tok(str):
    """A printed number; ``.v`` is the value it states."""
    __slots__ = ("v",)

    def __new__(cls, text, v):
        self = super().__new__(cls, text)
        self.v = v
        return self


class G:
    """Random source with CASTEP-flavoured primitives."""

    def __init__(self, rng: random.Random):
        self.r = rng
        #: Few distinct numbers: entries that are equal to others, or nearly.
        self.few = [rng.choice([0.0, 1.0, -1.0, 0.5, -0.25, rng.uniform(-9, 9)]) for _ in range(3)] if rng.random() < 0.12 else None

    # plain randomness
    def ri(self, a, b):
        return self.r.randint(a, b)

    def choice(self, xs):
        return self.r.choice(xs)

    def maybe(self, p=0.5):
        return self.r.random() < p

    def many(self, *xs, big=(101, 104, 112), p=0.02):
        """A number of rows: rarely one of three digits."""
        return self.r.choice(big if self.r.random() < p else xs)

    def sample(self, xs, k):
        return self.r.sample(list(xs), k)

    # numbers ---------------------------------------------------------------
    def mag(self, lo=-3, hi=2, signed=True, zero=0.03):
        """A value with random magnitude."""
        if self.r.random() < zero:
            return 0.0
        if self.few:
            v = self.r.choice(self.few)
            return v if signed else abs(v)
        v = self.r.uniform(1.0, 10.0) * 10.0 ** self.r.randint(lo, hi)
        if signed and self.r.random() < 0.5:
            v = -v
        return v

    def f(self, width=12, dec=6, lo=-3, hi=2, signed=True, zero=0.03):
        """Fixed-point token, Fortran Fw.d."""
        v = self.mag(lo, hi, signed, zero)
        t = f"{v:{width}.{dec}f}"
        return Tok(t, float(t))

    def e(self, width=25, dec=16, lo=-8, hi=3, signed=True, zero=0.05, exp3=True, lower=False):
        """Exponent token, Fortran Ew.dE3 (or E2)."""
        v = self.mag(lo, hi, signed, zero)
        if self.r.random() < 0.03:
            v *= 10.0 ** self.r.choice([-90, -30, 30, 60])
        m, x = f"{v:.{dec}E}".split("E")
        t = f"{m}E{int(x):+04d}" if exp3 else f"{m}E{int(x):+03d}"
        if lower:
            t = t.lower()
        t = f"{t:>{width}}"
        return Tok(t, float(t))

    def i(self, a=0, b=99, width=0):
        v = self.r.randint(a, b)
        return Tok(f"{v:{width}d}" if width else str(v), v)

    def vec(self, n=3, **kw):
        return [self.f(**kw) for _ in range(n)]

    def evec(self, n=3, **kw):
        return [self.e(**kw) for _ in range(n)]

    # names -------------------------------------------------------------------
    def species(self, n=None, tags=False):
        n = n or self.ri(1, 3)
        out = self.sample(ELEMENTS, n)
        if tags:
            out = [s + (":" + self.choice(["1", "2", "a", "up", "tag", "x_1", "0", "LongTag7"]) if self.maybe(0.25) else "")
                   for s in out]
        return out

    def atoms(self, nmax=6, tags=False, nmin=1, species=None):
        """[(species, index)] grouped by species with per-species index."""
        species = species or self.species(tags=tags)
        nmax = self.many(nmax, big=(14, 36), p=0.01)
        out = []
        for s in species:
            for k in range(self.ri(1, max(1, nmax // len(species)))):
                out.append((s, k + 1))
        while len(out) < nmin:
            s = species[-1]
            out.append((s, 1 + sum(1 for a in out if a[0] == s)))
        return out

    def words(self, n=3):
        return " ".join(self.r.choice(WORDS) for _ in range(n))

    def word(self):
        return self.r.choice(WORDS)


def vals(toks):
    return [t.v for t in toks]
