"""Merging of equal sub-expressions before a query (in the manner of SAT sweeping).

Nested sums that agree numerically at sample points are candidates for being the
same polynomial (up to sign); the solver proves each candidate with the sums nested
inside it kept opaque, and proved pairs are merged in the queries that follow.  A
candidate that is not proved is simply left alone, so this can only make queries
smaller, never change a verdict.
"""
import hashlib
import math
import random

import z3

from . import term as T
from . import solve


class Rnd(dict):
    def __init__(self, seed):
        self.seed = seed

    def __missing__(self, n):
        r = random.Random(hashlib.sha256(f"{self.seed}/{n}".encode()).digest())
        v = self[n] = r.uniform(0.3, 1.7) * (1 if r.random() < 0.5 else -1)
        return v


class Ev(T.Eval):
    def _base(self, b):
        if b.kind == "var":
            v = self.env[b.args[0]]
            return abs(v) if b.nn else v
        if b.kind in ("uf", "floor", "sin", "cos", "log", "nonfinite"):
            return self.env[f"{b.kind}:{b.id}"]
        if b.kind == "exp":
            return abs(self.env[f"exp:{b.id}"])
        if b.kind == "ite":
            return abs(self.env[f"ite:{b.id}"]) if b.nn else self.env[f"ite:{b.id}"]
        r = super()._base(b)
        return r


_size = {}


def nested(v):
    for m, _ in v.items:
        for b, e in m.items:
            if b.kind == "sum":
                yield b, e


def esize(v, h=0):
    """upper bound on the number of monomials after multiplying out (sums of height
    at most h staying opaque)"""
    r = _size.get((v.id, h))
    if r is None:
        r = 0
        for m, _ in v.items:
            t = 1
            for b, e in m.items:
                if b.kind == "sum" and T.height(b) > h:
                    e = abs(e)
                    n = esize(b.args[0], h)
                    k = max(1, int(e))
                    t *= min(n**k, 10**12)
            r += t
        r = min(r, 10**12)
        _size[(v.id, h)] = r
    return r


def lsize(v, d):
    """the same with sums opened d levels deep only"""
    r = 0
    for m, _ in v.items:
        t = 1
        for b, e in m.items:
            if b.kind == "sum" and d > 0:
                t *= lsize(b.args[0], d - 1) ** max(1, int(abs(e)))
        r += t
        if r > 10**6:
            break
    return r


depth = T.height


class Sweep:
    def __init__(self):
        self.rep = {}  # base -> (k, base) | (0, None)
        self.seen = set()
        self.classes = {}
        self.evs = [Ev(Rnd(i)) for i in range(3)]
        self.maj = [T.Majorant(e) for e in self.evs]
        self.merged = 0
        self.tries = 0

    def collect(self, xs):
        out, todo, mark = [], list(xs), set()
        while todo:
            x = todo.pop()
            if x is None or isinstance(x, (int, float, str)) or isinstance(x, T.Fr):
                continue
            if isinstance(x, tuple):
                todo += list(x)
                continue
            if isinstance(x, T.CV):
                todo += [x.re, x.im]
                continue
            k = (type(x), x.id)
            if k in mark:
                continue
            mark.add(k)
            if isinstance(x, T.V):
                if len(x.items) > 1:
                    for b, _ in T.factor(x)[1].items:
                        todo.append(b)
                else:
                    for m, _ in x.items:
                        for b, _e in m.items:
                            todo.append(b)
            elif isinstance(x, T.Base):
                if x.kind == "sum" and x not in self.seen:
                    out.append(x)
                todo += list(x.args)
                if x.kind == "sum":
                    for m, _ in x.args[0].items:
                        for b, _e in m.items:
                            todo.append(b)
            elif isinstance(x, T.Bo):
                todo += list(x.args)
        return sorted(set(out), key=lambda b: (depth(b), b.id))

    def sig(self, b):
        vs = []
        for ev, mj in zip(self.evs, self.maj):
            try:
                v = ev.v(b.args[0])
                sc = mj.v(b.args[0])
            except (OverflowError, ValueError, T.Unsupported, ZeroDivisionError, TypeError):
                return None
            if isinstance(v, complex) or not math.isfinite(v) or not math.isfinite(sc):
                return None
            vs.append(0.0 if abs(v) < 1e-12 * sc else v)
        if all(v == 0.0 for v in vs):
            return "zero", 1
        if vs[0] == 0.0:
            return None
        s = 1 if vs[0] > 0 else -1
        return tuple(f"{abs(v):.7e}" + ("+" if v * s > 0 else "-") for v in vs), s

    def same(self, b, r, k):
        """does the solver prove b == k * r with nested sums opaque / partly open?"""
        self.tries += 1
        vs = [b.args[0]] + ([r.args[0]] if r is not None else [])
        top = max(depth(b), depth(r) if r is not None else 0)
        tries = []
        for d in (0, 1, 2):
            if max(lsize(v, d) for v in vs) > 20000 or d >= top:
                break
            tries.append(dict(depth=d))
        last = None
        for h in range(min(top - 1, 6), -1, -1):
            n = max(esize(v, h) for v in vs)
            if n > 60000:
                break
            if n != last:
                tries.append(dict(height=h))
            last = n
        for t in tries:
            x = solve.Expander(rep=self.rep, cap=1000000, **t)
            try:
                p = x.poly(b.args[0])
                y = {} if r is None else {m: c * k for m, c in x.poly(r.args[0]).items()}
                sc = x.script([x.ne(p, y)])
            except solve.TooBig:
                break
            s, _ = solve.check_flat(sc, 3000, "sweep")
            if s == z3.unsat:
                return True
        return False

    def run(self, xs, deadline):
        import time

        for b in self.collect(xs):
            self.seen.add(b)
            if time.time() > deadline:
                break
            g = self.sig(b)
            if g is None:
                continue
            key, s = g
            if key == "zero":
                if self.same(b, None, 0):
                    self.rep[b] = (0, None)
                    self.merged += 1
                continue
            for r, rs in self.classes.get(key, [])[:4]:
                if self.same(b, r, s * rs):
                    self.rep[b] = (s * rs, r)
                    self.merged += 1
                    break
            else:
                self.classes.setdefault(key, []).append((b, s))
