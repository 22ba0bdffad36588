"""Discharging queries over `term` expressions with z3.

`Encoder` translates expressions to SMT terms.  Denominators are cleared (each one
left a non-zero obligation when it was created), fractional powers become a fresh
non-negative root variable with its defining equation, and the remaining opaque
functions (abs, exp, log, sin, cos, floor, if-then-else) become variables with
defining constraints.  In `abstract` mode those definitions are left out: an `unsat`
answer is then still a proof, a `sat` answer means nothing.
"""
import math
import time
import random
from fractions import Fraction as Fr

import z3

from . import term as T
from .term import V, CV, Bo

Z = z3


class Stats:
    def __init__(self):
        self.queries = self.unsat = self.sat = self.unknown = 0
        self.time = 0.0
        self.by = {}

    def add(self, kind, r, dt):
        self.queries += 1
        self.time += dt
        n = str(r)
        setattr(self, n, getattr(self, n) + 1)
        k = f"{kind}:{n}"
        self.by[k] = self.by.get(k, 0) + 1

    def dump(self):
        return {
            "queries": self.queries,
            "unsat": self.unsat,
            "sat": self.sat,
            "unknown": self.unknown,
            "solver_s": round(self.time, 3),
            "by": self.by,
        }


STATS = Stats()


def q(x):
    f = Fr(x)
    return z3.RealVal(f"{f.numerator}/{f.denominator}")


class TooBig(Exception):
    pass


class Encoder:
    def __init__(self, abstract=False, subst=None, rep=None, open_depth=None):
        self.abstract = abstract
        self.mb, self.mv, self.mbo = {}, {}, {}
        self.defs = []  # defining constraints
        self.Q = {}
        self.subst = subst or {}  # var base -> V
        self.rep = rep or {}  # merged sums (see sweep)
        self.absv = {}
        self.open_depth = open_depth  # nested sums deeper than this stay opaque
        self.level = 0
        self.n = 0
        self.vars = {}
        self.sincos = {}
        self.ufs = {}

    # -- exponents: find the root index needed for every base
    def scan(self, *xs):
        seen = set()
        todo = list(xs)
        while todo:
            x = todo.pop()
            if x is None or isinstance(x, (int, str, float, Fr)):
                continue
            if isinstance(x, tuple):
                todo += list(x)
                continue
            if isinstance(x, CV):
                todo += [x.re, x.im]
                continue
            key = (type(x), x.id)
            if key in seen:
                continue
            seen.add(key)
            if isinstance(x, V):
                if len(x.items) > 1:
                    _, m = T.factor(x)
                    for b, e in m.items:
                        self._q(b, e)
                        todo.append(b)
                for m, _ in x.items:
                    for b, e in m.items:
                        self._q(b, e)
                        todo.append(b)
            elif isinstance(x, T.Base):
                if x in self.rep and self.rep[x][1] is not None:
                    c = self.rep[x][1]
                    qx, qc = self.Q.get(x, 1), self.Q.get(c, 1)
                    self.Q[c] = qx * qc // math.gcd(qx, qc)
                    todo.append(c)
                if x in self.subst:
                    todo.append(self.subst[x])
                todo += list(x.args)
            elif isinstance(x, Bo):
                todo += list(x.args)

    def _q(self, b, e):
        if isinstance(e, Fr):
            d = e.denominator
            o = self.Q.get(b, 1)
            self.Q[b] = o * d // math.gcd(o, d)

    def fresh(self, tag, sort="r"):
        self.n += 1
        n = f"{tag}!{self.n}"
        return z3.Int(n) if sort == "i" else z3.Real(n)

    # -- values
    def base_raw(self, b):
        """the value of base b (exponent 1), ignoring roots"""
        k, a = b.kind, b.args
        if b in self.subst:
            n, d = self.ratio(self.subst[b])
            return n if d is None else n / d
        if k == "var":
            if b.isint:
                x = z3.ToReal(z3.Int(a[0]))
            else:
                x = z3.Real(a[0])
            self.vars[a[0]] = b
            if b.nn:
                self.defs.append(x >= 0)
            return x
        if k == "sum":
            if self.open_depth is not None and self.level >= self.open_depth:
                return self.opaque(b)
            self.level += 1
            r = self.poly(a[0])
            self.level -= 1
            return r
        if k == "opq":
            r = self.fresh("scale")
            self.defs.append(r > 0)
            if not self.abstract:
                self.defs.append(self.eqv(r, a[0]))
            return r
        if k == "nnwrap":
            n, d = self.ratio(a[0])
            e = n if d is None else n / d
            return e
        if k == "num":
            return q(a[0])
        if k == "abs":
            key, kk = a[0], 1
            if key in self.rep:
                kk, key = self.rep[key]
                if key is None:
                    return q(0)
            kk = abs(kk)
            if T.base_nn(key) and self.Q.get(key, 1) == 1:
                r = self.base(key)[0]
            else:
                r = self.absv.get(key)
                if r is None:
                    r = self.absv[key] = self.fresh("abs")
                    self.defs.append(r >= 0)
                    if not self.abstract:
                        e = z3.simplify(self.val(T.of_base(key)), som=True, som_blowup=10000000)
                        if z3.is_rational_value(e):
                            r = self.absv[key] = q(abs(Fr(e.as_fraction())))
                        else:
                            self.defs.append(z3.Or(r == e, r == -e))
            return r if kk == 1 else q(kk) * r
        if k == "exp":
            r = self.fresh("exp")
            self.defs.append(r > 0)
            return r
        if k == "log":
            return self.fresh("log")
        if k in ("sin", "cos"):
            s = self.sincos.get(a[0].id)
            if s is None:
                s = self.sincos[a[0].id] = (self.fresh("sin"), self.fresh("cos"))
                self.defs.append(s[0] * s[0] + s[1] * s[1] == 1)
                self.defs.append(s[0] <= 1)
                self.defs.append(s[0] >= -1)
                self.defs.append(s[1] <= 1)
                self.defs.append(s[1] >= -1)
            return s[0] if k == "sin" else s[1]
        if k == "ite":
            r = self.fresh("ite")
            if not self.abstract:
                c = self.bool(a[0])
                self.defs.append(z3.Implies(c, self.eqv(r, a[1])))
                self.defs.append(z3.Implies(z3.Not(c), self.eqv(r, a[2])))
            elif b.nn:
                self.defs.append(r >= 0)
            return r
        if k == "uf":
            args = [self.val(x) for x in a[1:]]
            f = self.ufs.get(a[0])
            if f is None:
                f = z3.Function(a[0], *([z3.RealSort()] * (len(args) + 1)))
                self.ufs[a[0]] = f
            r = f(*args)
            if b.nn:
                self.defs.append(r >= 0)
            if not b.nn and b.isint:
                pass
            return r
        if k == "floor":
            i = self.fresh("floor", "i")
            r = z3.ToReal(i)
            e = self.val(a[0])
            self.defs += [r <= e, e < r + 1]
            return r
        if k == "nonfinite":
            return self.fresh("nonfinite")
        raise T.Unsupported("encode " + k)

    def opaque(self, b):
        r = self.fresh("sum")
        if b.nn:
            self.defs.append(r >= 0)
        return r

    def eqv(self, r, v):
        n, d = self.ratio(v)
        return r == n if d is None else r * d == n

    def base(self, b):
        """(z3 atom x, Q) with value of b equal to x**Q"""
        if self.rep and b.kind == "sum" and b in self.rep:
            k, c = self.rep[b]
            if c is None:
                return q(0), 1
            if self.Q.get(b, 1) == self.Q.get(c, 1) == 1:
                x, _ = self.base(c)
                return (x if k == 1 else q(k) * x), 1
            if k == 1:
                return self.base(c)
        r = self.mb.get(b)
        if r is None:
            Q = self.Q.get(b, 1)
            if Q == 1:
                r = (self.base_raw(b), 1)
            else:
                x = self.fresh("root")
                self.defs.append(x >= 0)
                if b.kind == "exp":
                    self.defs.append(x > 0)
                if not self.abstract or b.kind in ("var", "num"):
                    raw = self.base_raw(b)
                    p = x
                    for _ in range(Q - 1):
                        p = p * x
                    self.defs.append(p == raw)
                r = (x, Q)
            self.mb[b] = r
        return r

    def powr(self, b, e):
        """z3 expr of b**e for e > 0"""
        x, Q = self.base(b)
        e = e * Q
        e = int(e)
        r = x
        for _ in range(e - 1):
            r = r * x
        return r

    def mono(self, items, coef=1):
        fs = [self.powr(b, e) for b, e in items]
        if coef != 1 or not fs:
            fs = [q(coef)] + fs
        r = fs[0]
        for f in fs[1:]:
            r = r * f
        return r

    def poly(self, v):
        """z3 expr of a V all of whose exponents are >= 0"""
        r = self.mv.get(v.id)
        if r is None:
            ts = [self.mono(m.items, c) for m, c in v.items]
            r = q(0) if not ts else ts[0] if len(ts) == 1 else z3.Sum(ts)
            self.mv[v.id] = r
        return r

    def split(self, v):
        """(coef, positive items, negative items)"""
        if not v.items:
            return 0, [], []
        c, m = T.factor(v)
        return (
            c,
            [(b, e) for b, e in m.items if e > 0],
            [(b, -e) for b, e in m.items if e < 0],
        )

    def ratio(self, v):
        c, p, n = self.split(v)
        if c == 0:
            return q(0), None
        N = self.mono(p, c)
        return N, (self.mono(n) if n else None)

    def val(self, v):
        n, d = self.ratio(v)
        return n if d is None else n / d

    # -- booleans
    def bool(self, b):
        r = self.mbo.get(b.id)
        if r is None:
            r = self._bool(b)
            self.mbo[b.id] = r
        return r

    def _bool(self, b):
        k, a = b.kind, b.args
        if k == "true":
            return z3.BoolVal(True)
        if k == "false":
            return z3.BoolVal(False)
        if k == "eq":
            n, d = self.ratio(a[0])
            return n == 0
        if k in ("ge", "gt"):
            n, d = self.ratio(a[0])
            e = n
            if d is not None:
                # sign(n/d) = sign(n*d); drop factors known to be positive
                c, p, neg = self.split(a[0])
                neg = [(x, y) for x, y in neg if not T.base_nn(x)]
                neg = [(x, y if not isinstance(y, int) else y % 2) for x, y in neg]
                neg = [(x, y) for x, y in neg if y]
                if neg:
                    e = n * self.mono(neg)
            return e >= 0 if k == "ge" else e > 0
        if k == "not":
            return z3.Not(self.bool(a[0]))
        if k == "and":
            return z3.And(*[self.bool(x) for x in a])
        if k == "or":
            return z3.Or(*[self.bool(x) for x in a])
        if k == "bvar":
            return z3.Bool(a[0])
        raise T.Unsupported(k)

    def cross(self, l, r):
        """z3 pair (x, y) such that l == r iff x == y, denominators being non-zero"""
        cl, ml = T.factor(l) if l.items else (0, T.MONE)
        cr, mr = T.factor(r) if r.items else (0, T.MONE)
        dl, dr = dict(ml.items), dict(mr.items)
        if cl == 0:
            dl = {}
        if cr == 0:
            dr = {}
        L, R = {}, {}
        for b in set(dl) | set(dr):
            x, y = dl.get(b, 0), dr.get(b, 0)
            lo = min(x, y)
            if cl == 0 or cr == 0:
                lo = min(x, y, 0)
            if x - lo:
                L[b] = x - lo
            if y - lo:
                R[b] = y - lo
        key = lambda t: t[0].id
        return (
            self.mono(sorted(L.items(), key=key), cl) if cl else q(0),
            self.mono(sorted(R.items(), key=key), cr) if cr else q(0),
        )


class Expander:
    """Sum-of-products form of polynomials, distributed while encoding.

    Non-sum bases (and sums nested deeper than `depth`, or under fractional powers)
    are atoms; every product of atoms becomes one SMT constant, so the solver decides
    equality of two polynomials as a linear problem over their monomials."""

    W = 7  # bits per exponent

    def __init__(self, subst=None, rep=None, depth=10**9, cap=2 * 10**7, height=0, keep=(), roots=None):
        self.keep = keep  # sums that stay opaque
        self.roots = roots or {}  # bases occurring with fractional exponents: opaque too
        self.subst, self.rep, self.depth = subst or {}, rep or {}, depth
        self.height = height  # sums of at most this height stay opaque
        self.left = cap
        self.idx, self.memo, self.z = {}, {}, {}

    def atom(self, b, e=1):
        e = e * self.roots.get(b, 1)
        if e != int(e) or e < 0:
            raise TooBig
        e = int(e)
        i = self.idx.setdefault(b, len(self.idx))
        if e >= 1 << (self.W - 2):
            raise TooBig
        return {e << (self.W * i): 1}

    def mul(self, p, q_):
        self.left -= len(p) * len(q_)
        if self.left < 0:
            raise TooBig
        if len(p) > len(q_):
            p, q_ = q_, p
        r = {}
        get = r.get
        for a, c in p.items():
            for b, d in q_.items():
                k = a + b
                r[k] = get(k, 0) + c * d
        return {k: c for k, c in r.items() if c}

    def base(self, b, lev):
        if b in self.roots:
            return self.atom(b)
        if b in self.rep:
            k, c = self.rep[b]
            if c is None:
                return {}
            p = self.base(c, lev)
            return p if k == 1 else {m: x * k for m, x in p.items()}
        if b in self.keep:
            return self.atom(b)
        if b in self.subst:
            v = self.subst[b]
            if all(e > 0 and isinstance(e, int) for m, _ in v.items for _b, e in m.items):
                return self.poly(v, lev)
            return self.atom(b)
        if b.kind == "sum" and lev < self.depth and T.height(b) > self.height:
            return self.poly(b.args[0], lev + 1)
        return self.atom(b)

    def mono(self, items, coef, lev):
        r = {0: coef}
        for b, e in sorted(items, key=lambda t: t[0].kind == "sum"):
            if b in self.roots and e > 0:
                r = self.mul(self.atom(b, e), r)
                continue
            if not isinstance(e, int) or e < 0:
                raise TooBig
            if b.kind != "sum" and b not in self.rep and b not in self.subst:
                r = self.mul(self.atom(b, e), r)
                continue
            p = self.base(b, lev)
            for _ in range(e):
                r = self.mul(p, r)
        return r

    def poly(self, v, lev=0):
        k = (v.id, min(lev, self.depth))
        r = self.memo.get(k)
        if r is None:
            r = {}
            for m, c in v.items:
                for a, x in self.mono(m.items, c, lev).items():
                    r[a] = r.get(a, 0) + x
            r = self.memo[k] = {a: x for a, x in r.items() if x}
        return r

    def smt(self, p):
        """SMT-LIB text of the sum"""
        ts = []
        for k, c in p.items():
            x = self.z.get(k)
            if x is None:
                x = self.z[k] = f"m{len(self.z)}" if k else "1.0"
            if c == 1:
                ts.append(x)
            else:
                n, d = (c.numerator, c.denominator) if isinstance(c, Fr) else (c, 1)
                t = f"{abs(n)}.0" if d == 1 else f"(/ {abs(n)}.0 {d}.0)"
                ts.append(f"(* {t if n > 0 else '(- ' + t + ')'} {x})")
        return "0.0" if not ts else ts[0] if len(ts) == 1 else "(+ " + " ".join(ts) + ")"

    def ne(self, p, q_):
        return f"(not (= {self.smt(p)} {self.smt(q_)}))"

    def script(self, parts, eqs=()):
        decl = "\n".join(f"(declare-const {v} Real)" for k, v in self.z.items() if k)
        decl += "".join(f"\n(assert {e})" for e in eqs)
        return decl + "\n(assert (or false " + "\n".join(parts) + "))\n"

    def differ(self, l, r):
        """SMT formula l != r for two products with cleared denominators"""
        cl, cr = T.factor(l) if l.items else (0, T.MONE), T.factor(r) if r.items else (0, T.MONE)
        (al, ml), (ar, mr) = cl, cr
        dl, dr = dict(ml.items) if al else {}, dict(mr.items) if ar else {}
        L, R = {}, {}
        for b in set(dl) | set(dr):
            x, y = dl.get(b, 0), dr.get(b, 0)
            lo = min(x, y) if al and ar else min(x, y, 0)
            if x - lo:
                L[b] = T._norm(x - lo)
            if y - lo:
                R[b] = T._norm(y - lo)
        key = lambda t: t[0].id
        x = self.mono(sorted(L.items(), key=key), al, 0) if al else {}
        y = self.mono(sorted(R.items(), key=key), ar, 0) if ar else {}
        self.last = (x, y)
        return self.ne(x, y)

    def divide(self, g, t):
        """monomial g / t, or None"""
        m = (1 << self.W) - 1
        a, b = g, t
        while b:
            if a & m < b & m:
                return None
            a >>= self.W
            b >>= self.W
        return g - t

    def instances(self, hyps, monos, cap=20000, rounds=1):
        """multiples of the equations `hyps` (polynomials equal to zero) that mention
        the monomials of the goal, as SMT equations"""
        seen, out, new = set(), [], set(monos)
        known = set(monos)
        for _ in range(rounds):
            nxt = set()
            for i, h in enumerate(hyps):
                for t in h:
                    if not t:
                        continue
                    for g in new:
                        k = self.divide(g, t)
                        if k is None or (i, k) in seen:
                            continue
                        seen.add((i, k))
                        inst = {a + k: c for a, c in h.items()}
                        out.append(inst)
                        nxt |= inst.keys() - known
                        if len(out) > cap:
                            raise TooBig
            known |= nxt
            new = nxt
        return [f"(= {self.smt(p)} 0.0)" for p in out]


def check_flat(script, timeout_ms, kind):
    """A linear query over monomials"""
    t0 = time.time()
    s = z3.SolverFor("QF_LRA")
    s.set("timeout", int(timeout_ms))
    try:
        s.from_string(script)
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS.add(kind, r, time.time() - t0)
    return r, s


def check(constraints, timeout_ms, kind, seed=0, som=True):
    """One solver call; returns (result, solver)"""
    t0 = time.time()
    if som:
        s = z3.Then(
            z3.With("simplify", som=True, som_blowup=10000000, hoist_mul=False), "solve-eqs", "smt"
        ).solver()
    else:
        s = z3.Solver()
    s.set("timeout", int(timeout_ms))
    try:
        s.set("random_seed", seed)
    except z3.Z3Exception:
        pass
    for c in constraints:
        s.add(c)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS.add(kind, r, time.time() - t0)
    return r, s


def check_nra(constraints, timeout_ms, kind):
    t0 = time.time()
    s = z3.Then(
        z3.With("simplify", som=False), "solve-eqs", "qfnra-nlsat"
    ).solver()
    s.set("timeout", int(timeout_ms))
    for c in constraints:
        s.add(c)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS.add(kind, r, time.time() - t0)
    return r, s
