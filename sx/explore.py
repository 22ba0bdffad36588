"""Path exploration, the harness API (`Ctx`) and the decision procedure.

A harness is a Python function `h(ctx, **cfg)` that builds inputs from `ctx`, calls
the real TorchMPS code and states what must hold.  It runs in two modes:

* symbolic: the inputs are solver variables; every branch on a symbolic value forks
  (the solver says which sides are feasible) and every statement is discharged by
  the solver under the path condition;
* native: the inputs are the numbers of a counterexample (or of a random point used
  to validate the encoding) and the untouched code runs on ordinary torch tensors.
"""
import os
import hashlib
import math
import random
import sys
import time
import traceback
from fractions import Fraction as Fr

import numpy as np
import torch
import z3
from torch.utils._python_dispatch import TorchDispatchMode

from . import term as T
from . import symt as S
from . import solve
from . import sweep
from .term import V, CV, Bo, Unsupported, TRUE, FALSE


class Abort(BaseException):
    """Path abandoned (infeasible or over budget)"""


class Budget(Exception):
    pass


class Arr:
    """An input: `.t` goes into the code under test, `.a` into the specification"""

    def __init__(self, t, a):
        self.t, self.a = t, a

    def __getitem__(self, k):
        return self.a[k]

    @property
    def shape(self):
        return self.a.shape


# --------------------------------------------------------------------- sampling
class Env(dict):
    """Lazy assignment of the variables: deterministic in (seed, name)"""

    def __init__(self, decl, seed, *a):
        super().__init__(*a)
        self.decl, self.seed = decl, seed

    def __missing__(self, name):
        d = self.decl.get(name)
        h = hashlib.sha256(f"{self.seed}/{name}".encode()).digest()
        r = random.Random(h)
        if d is None:
            d = ("real", None, None)
        if d[0] == "derived":
            d[1](self)  # fills self for a whole group of names
            return self[name]
        v = sample(r, *d)
        self[name] = v
        return v


def sample(r, kind, lo, hi):
    if kind == "int":
        return r.randint(lo, hi)
    if kind == "unif":
        return r.randint(0, 63) / 64
    if lo is None and hi is None:
        v = 0
        while v == 0:
            v = r.randint(-24, 24)
        return v / 16
    lo_, hi_ = (-2 if lo is None else lo), (2 if hi is None else hi)
    return float(lo_ + (hi_ - lo_) * Fr(r.randint(1, 63), 64))


def fixed(name, kind, lo, hi):
    """constant taking the place of an input entry in the large configurations"""
    r = random.Random(hashlib.sha256(f"fixed/{name}".encode()).digest())
    if kind == "int":
        return T.const(r.randint(lo, hi))
    if lo is None and hi is None:
        return T.const(Fr(r.choice([-1, 1]) * r.choice([1, 2, 3, 4, 5, 6]), 4))
    lo_, hi_ = (-2 if lo is None else lo), (2 if hi is None else hi)
    return T.const(Fr(lo_) + (Fr(hi_) - Fr(lo_)) * Fr(r.randint(1, 7), 8))


# ------------------------------------------------------------- native randomness
class NativeRandom(TorchDispatchMode):
    """Replays the model's values for random draws in native runs"""

    def __init__(self, ctx):
        super().__init__()
        self.ctx = ctx

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        name = func.overloadpacket.__name__ if hasattr(func, "overloadpacket") else ""
        out = func(*args, **kwargs)
        kind = None
        if name in ("randn", "randn_like", "normal_", "normal"):
            kind = "normal"
        elif name in ("rand", "rand_like", "uniform_"):
            kind = "unif"
        elif name in ("empty", "empty_like", "new_empty", "empty_strided"):
            kind = "uninit"
        if kind and isinstance(out, torch.Tensor) and S.is_floaty(out.dtype):
            vals = self.ctx.draw(kind, out.numel(), out.dtype)
            z = torch.tensor(vals, dtype=out.dtype).reshape(out.shape)
            if name == "uniform_":
                lo = args[1] if len(args) > 1 else kwargs.get("from", 0.0)
                hi = args[2] if len(args) > 2 else kwargs.get("to", 1.0)
                z = lo + (hi - lo) * z
            elif name == "normal_":
                mu = args[1] if len(args) > 1 else kwargs.get("mean", 0.0)
                sd = args[2] if len(args) > 2 else kwargs.get("std", 1.0)
                z = mu + sd * z
            elif name == "normal" and func._overloadname == "float_float":
                z = args[0] + args[1] * z
            elif name == "normal":
                return out
            with torch.no_grad():
                out.copy_(z)
        return out


# ------------------------------------------------------------------- violations
class Cex:
    def __init__(self, label, env, note, kind="eq"):
        self.label, self.env, self.note, self.kind = label, env, note, kind


class Ctx:
    strided = False
    eval_mode = False  # put modules into eval mode
    sparse = None  # numbers of symbolic entries per input tensor and in total (None: all)

    def __init__(self, mode, runner=None, env=None, tol=None, seed=0):
        self.mode = mode
        self.sym = mode == "sym"
        self.r = runner
        self.env = env
        self.decl = runner.decl if runner else {}
        self.assumptions = []
        self.pc = []
        self.draws = 0
        self.plan = None  # (kind, running index) -> value of a random draw
        self.planned = {}
        self.checks = []  # (label, actual array)
        self.fails = []  # native failures
        self.obl_assumed = set()
        self.tol = tol
        self.svds = []
        self.lemmas = []  # known equalities that are only used as linear hypotheses
        self.defs = {}
        self.notes = []
        self.seed = seed
        self.cut = None

    # -- inputs -------------------------------------------------------------
    def _var(self, name, kind="real", lo=None, hi=None):
        self.decl.setdefault(name, (kind, lo, hi))
        if self.sym:
            v = T.var(name, nonneg=(lo is not None and lo >= 0) or kind == "unif", isint=kind == "int")
            if lo is not None and not (lo >= 0 and lo == 0):
                self.assume(T.vge(v, T.const(lo)))
            if hi is not None:
                self.assume(T.vge(T.const(hi), v))
            return v
        return T.var(name, nonneg=(lo is not None and lo >= 0) or kind == "unif", isint=kind == "int")

    def real(self, name, shape=(), lo=None, hi=None, dtype=None, cx=False):
        shape = tuple(shape)
        out = np.empty(shape, dtype=object)
        var = self.free(name, math.prod(shape) * (1 + cx))
        for p in np.ndindex(shape):
            n = name + "[" + ",".join(map(str, p)) + "]" if shape else name
            x = var()(n, "real", lo, hi)
            if cx:
                x = T.CV(x, var()(n + "i", "real", lo, hi))
            out[p] = x
        if dtype is None:
            dtype = torch.get_default_dtype()
            if cx:
                dtype = torch.complex128 if dtype == torch.float64 else torch.complex64
        return Arr(self.layout(out, dtype), out)

    def free(self, name, n):
        """called for one of `n` entries of an input after the other: the constructor of
        a variable, or of a fixed number"""
        if self.sparse is None:
            return lambda: self._var
        per, total = self.sparse
        k = min(per, n, total)
        self.sparse = (per, total - k)
        r = random.Random(hashlib.sha256(f"free/{name}".encode()).digest())
        free = set(r.sample(range(n), k))
        it = iter(range(n))
        return lambda: self._var if next(it) in free else fixed

    def layout(self, arr, dtype):
        """the tensor itself, or (in configurations about memory layout) a view of it
        that is not contiguous and does not start at the beginning of its storage"""
        if not self.strided or arr.ndim == 0 or not arr.size:
            return self.tensor(arr, dtype)
        back = tuple(range(arr.ndim))[::-1]
        z = np.empty((1,) + arr.T.shape[1:], dtype=object)
        z[...] = T.ZERO
        return self.tensor(np.concatenate([z, arr.T], 0), dtype)[1:].permute(back)

    def ints(self, name, shape, lo, hi):
        shape = tuple(shape)
        out = np.empty(shape, dtype=object)
        var = self.free(name, math.prod(shape))
        for p in np.ndindex(shape):
            n = name + "[" + ",".join(map(str, p)) + "]" if shape else name
            out[p] = var()(n, "int", lo, hi)
        return Arr(self.layout(out, torch.int64), out)

    def int(self, name, lo, hi):
        v = self._var(name, "int", lo, hi)
        return S.SymNum(v, True) if self.sym else int(self.env[name])

    def num(self, name, lo=None, hi=None):
        """a symbolic Python float"""
        v = self._var(name, "real", lo, hi)
        return S.SymNum(v, False) if self.sym else float(self.env[name])

    def tensor(self, arr, dtype=None):
        """tensor with the given entries (terms or numbers)"""
        arr = np.asarray(arr, dtype=object)
        dtype = dtype or torch.get_default_dtype()
        if self.sym:
            return S.mk(S.ew(T.lift, arr) if arr.size else arr, dtype)
        ev = T.Eval(self.env)
        vals = [ev.v(T.lift(x)) for x in arr.reshape(-1)]
        if not dtype.is_floating_point and not dtype.is_complex:
            vals = [int(round(x)) for x in vals]
        return torch.tensor(vals, dtype=dtype).reshape(arr.shape)

    def const(self, arr, dtype=None):
        """concrete data used both by code and specification"""
        a = np.asarray(arr, dtype=object)
        a = S.ew(T.lift, a)
        return Arr(self.tensor(a, dtype), a)

    def havoc(self, module, prefix="", only=None, cx=None):
        """Overwrite every parameter with arbitrary values; returns name -> terms"""
        out = {}
        if self.eval_mode:
            module.eval()
        with torch.no_grad():
            for n, p in module.named_parameters():
                if only is not None and n not in only:
                    continue
                x = self.real(prefix + n, tuple(p.shape), dtype=p.dtype, cx=p.dtype.is_complex)
                p.copy_(x.t)
                out[n] = x.a
        return out

    def draw(self, kind, n, dtype, params=None):
        if self.plan is not None and kind in ("normal", "unif"):
            c = self.planned
            out = []
            for i in range(n):
                x = T.lift(self.plan(kind, c.get(kind, 0)))
                c[kind] = c.get(kind, 0) + 1
                if dtype.is_complex:
                    x = T.CV(x, T.lift(self.plan(kind, c[kind])))
                    c[kind] += 1
                out.append(x)
            if self.sym:
                return out
            ev = T.Eval(self.env)
            return [ev.v(x) for x in out]
        k = self.draws
        self.draws += 1
        out = []
        for i in range(n):
            nm = f"{kind}#{k}[{i}]"
            lo, hi = (0, None) if kind == "unif" else (None, None)
            x = self._var(nm, "unif" if kind == "unif" else "real", lo, 1 if kind == "unif" else None)
            if dtype.is_complex:
                x = T.CV(x, self._var(nm + "i"))
            out.append(x)
        if self.sym:
            return out
        ev = T.Eval(self.env)
        return [ev.v(x) for x in out]

    def drawing(self, plan, fn):
        """fn() with random draw number i of a kind given by plan(kind, i);
        returns its result and the number of draws of each kind"""
        self.plan, self.planned = plan, {}
        try:
            return fn(), dict(self.planned)
        finally:
            self.plan = None

    # -- logic --------------------------------------------------------------
    def terms(self, x):
        if isinstance(x, Arr):
            return x.a
        if isinstance(x, torch.Tensor):
            if not isinstance(x, S.SymTensor) and S.is_floaty(x.dtype):
                with torch.no_grad():
                    v = x.detach().resolve_conj().reshape(-1).tolist()
                out = np.empty(len(v), dtype=object)
                for i, y in enumerate(v):
                    out[i] = T.lift(y)
                return out.reshape(tuple(x.shape))
            return S.terms(x)
        if isinstance(x, np.ndarray):
            return S.ew(T.lift, x) if x.size else x
        if isinstance(x, (list, tuple)):
            a = np.empty(len(x), dtype=object)
            for i, y in enumerate(x):
                a[i] = T.lift(y)
            return a
        a = np.empty((), dtype=object)
        a[()] = x.b if isinstance(x, S.SymBool) else T.lift(x)
        return a

    def scalar(self, x):
        return self.terms(x)[()] if np.ndim(self.terms(x)) == 0 else self.terms(x).reshape(-1)[0]

    def assume(self, b, filt=True):
        if isinstance(b, S.SymBool):
            b = b.b
        if isinstance(b, bool):
            b = T.bconst(b)
        if b is TRUE:
            return
        if self.sym:
            if b not in self.assumptions:
                self.assumptions.append(b)
                if filt:
                    self.r.filter_pool(b)

    def domain(self, *kinds):
        """Obligations of these kinds are assumed (documented), not checked"""
        self.obl_assumed |= set(kinds)

    def define(self, v, expr):
        """assume variable v == expr, used as a substitution"""
        b = T.factor(v)[1].items[0][0]
        self.defs[b] = expr

    def holds(self, b):
        """decide a condition, exploring both answers"""
        b = b.b if isinstance(b, S.SymBool) else b
        if isinstance(b, bool):
            return b
        if self.sym:
            return bool(S.SymBool(b))
        return T.Eval(self.env).b(b)

    def svd(self, A, dtype=None, rank=None):
        """singular value decomposition of a matrix of terms: (U, S, V^H); with `rank`,
        the matrix is assumed to have at most that rank"""
        dtype = dtype or torch.get_default_dtype()
        if self.sym:
            return svd_stub(self, A, False, dtype, rank)
        ev = T.Eval(self.env)
        M = np.array([[ev.v(x) for x in row] for row in A], dtype=complex if dtype.is_complex else float)
        return tuple(np.frompyfunc(T.lift, 1, 1)(x.astype(object)) for x in np.linalg.svd(M.reshape(A.shape), full_matrices=False))

    def lowrank(self, name, n, m, r):
        """entries of an arbitrary n x m matrix, for use where its rank is assumed to
        be at most r (sampled points have that rank)"""
        nm = np.empty((n, m), dtype=object)
        for p in np.ndindex(n, m):
            nm[p] = f"{name}[{p[0]},{p[1]}]"

        def fill(env):
            rnd = random.Random(hashlib.sha256(f"{env.seed}/{name}".encode()).digest())
            g = lambda *s: np.array([rnd.choice([-1, 1]) * rnd.randint(2, 24) / 16 for _ in range(s[0] * s[1])]).reshape(s)
            M = g(n, r) @ g(r, m)
            for p in np.ndindex(n, m):
                env[nm[p]] = float(M[p])

        for x in nm.reshape(-1):
            self.decl.setdefault(x, ("derived", fill, None))
        return np.frompyfunc(T.var, 1, 1)(nm)

    def eq(self, label, actual, expected, tol=None):
        a, e = self.terms(actual), self.terms(expected)
        if a.shape != e.shape:
            return self.fail(label, f"shape {a.shape} instead of {e.shape}")
        self._check(label, "eq", a, e, 0, 0, tol)

    def close(self, label, actual, expected, atol=0, rtol=0):
        """|actual - expected| <= atol + rtol*|expected| (as stated by the property)"""
        a, e = self.terms(actual), self.terms(expected)
        if a.shape != e.shape:
            return self.fail(label, f"shape {a.shape} instead of {e.shape}")
        self._check(label, "close", a, e, atol, rtol, None)

    def true(self, label, cond):
        if isinstance(cond, S.SymBool):
            cond = cond.b
        if isinstance(cond, torch.Tensor):
            cond = T.band(*[S._tob(x) for x in S.terms(cond).reshape(-1)])
        if isinstance(cond, (bool, np.bool_)):
            cond = T.bconst(bool(cond))
        a = np.empty((1,), dtype=object)
        a[0] = cond
        if self.sym:
            self.checks.append((label, "true", a, None, self.snapshot()))
            self.r.prove_true(self, label, cond)
        else:
            ok = T.Eval(self.env).b(cond)
            self.checks.append((label, "true", [float(ok)], None))
            if not ok:
                self.fails.append((label, "false"))

    def fail(self, label, why):
        """Reaching this point is a violation"""
        if self.sym:
            self.r.candidate(self, label, why)
        else:
            self.fails.append((label, why))

    def snapshot(self):
        return (list(self.pc), list(self.assumptions))

    def raises(self, label, fn, exc=Exception):
        """fn() must raise"""
        try:
            fn()
        except exc as e:
            if isinstance(e, (Unsupported, Budget)):
                raise
            if self.sym:
                self.checks.append((label, "raises", np.empty(0, dtype=object), None, self.snapshot()))
                self.r.count("raises")
            else:
                self.checks.append((label, "raises", [], None))
            return
        self.fail(label, "no error raised")

    def _check(self, label, kind, a, e, atol, rtol, tol):
        if self.sym:
            self.checks.append((label, kind, a, e, self.snapshot()))
            self.r.prove_eq(self, label, kind, a, e, atol, rtol)
            return
        ev = T.Eval(self.env)
        av = [ev.v(x) if not isinstance(x, Bo) else float(ev.b(x)) for x in a.reshape(-1)]
        xv = [ev.v(x) if not isinstance(x, Bo) else float(ev.b(x)) for x in e.reshape(-1)]
        self.checks.append((label, kind, av, xv))
        t = tol or self.tol
        scale = max([abs(x) for x in xv if _fin(x)] + [0.0])
        for i, (x, y) in enumerate(zip(av, xv)):
            if not _fin(y):
                if y != y or not (x == y):
                    continue
                continue
            if kind == "close":
                bound = atol + rtol * abs(y) + 1e-5 * (1e-3 + abs(y))
            else:
                bound = t * (abs(y) + 0.05 * scale) + t * 1e-3
            if not _fin(x) or abs(x - y) > bound:
                self.fails.append((label, f"entry {i}: got {x!r}, expected {y!r}"))
                break


def _fin(x):
    if isinstance(x, complex):
        return math.isfinite(x.real) and math.isfinite(x.imag)
    return math.isfinite(x)


# ------------------------------------------------------------------------ runner
class Runner:
    def __init__(self, fn, cfg, name, seed=0, budget=120.0, max_paths=64, validate=2):
        self.fn, self.cfg, self.name, self.seed = fn, cfg, name, seed
        self.deadline = time.time() + budget
        self.max_paths = max_paths
        self.decl = {}
        self.stats = {}
        self.paths = 0
        self.proved = 0
        self.cexs = []  # confirmed violations
        self.incon = []  # inconclusive reasons
        self.cands = []
        self.validated = 0
        self.nvalidate = validate
        self.samples = []
        self.assumed = []
        self.domain = set()
        self.obl = {}
        self.cache = set()
        self.vac = None
        self.sweep = sweep.Sweep()

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def left(self):
        return self.deadline - time.time()

    # -- pool of random points satisfying everything assumed on this path
    def new_pool(self, n=6):
        self.pool = [Env(self.decl, f"{self.seed}/{i}") for i in range(n)]

    def filter_pool(self, b):
        keep = []
        for env in self.pool:
            try:
                if T.Eval(env, self.ufs()).b(b):
                    keep.append(env)
            except (Unsupported, OverflowError, KeyError):
                pass
        self.pool = keep

    def ufs(self):
        return DEFAULT_UFS

    # -- solver interface
    def encode(self, ctx, abstract, *xs):
        e = solve.Encoder(abstract=abstract, subst=ctx.defs)
        e.scan(*xs)
        return e

    def decide(self, ctx, goals, kind, full=True, timeout=None, quick=False):
        """Is (assumptions and path condition) and any of `goals` unsatisfiable?
        goals: list of Bo (negated statements).  -> 'unsat' | 'sat' | 'unknown'"""
        timeout = timeout or 20000
        base = list(ctx.assumptions) + list(ctx.pc)
        goals = list(goals)
        est = est1 = est2 = 0
        for g in goals:
            for v in self.values_of(g):
                est = max(est, sweep.esize(v))
                est1 = max(est1, sweep.esize(v, 1))
                est2 = max(est2, sweep.esize(v, 2))
        cap = lambda t: int(min(t, max(1000, self.left() * 1000)))
        steps = []
        eqs = self.equations(base + ctx.lemmas)
        if eqs and est <= 10**5:
            steps += ["flat0", ("hyp", 1)]
        if est <= 3000:
            steps.append((dict(abstract=True), False, 4000))
        if est <= 20000:
            steps.append("flat0")
        elif est1 <= 20000:
            steps.append("flat1")
        dens = self.denominators(goals) if S.Session.sgn_nonzero else []
        if S.Session.sgn_nonzero:
            # derivatives: scale factors that cancel stay opaque
            for k in range(len(dens) - 1, -1, -1):
                steps.append(("keep", dens[:k]))
        steps.append("sweep")
        steps += [f"flat{h}" for h, n in ((2, est2), (1, est1), (0, est)) if n <= 6 * 10**6]
        if eqs and est <= 10**5:
            steps += [("hyp", 1), ("hyp", 2)]
        for d in (1, 2, 3):
            steps.append((dict(abstract=True, open_depth=d), False, 4000))
        steps.append((dict(abstract=True), False, timeout))
        if base:
            steps.append((dict(abstract=True), True, timeout))
        if full:
            steps.append((dict(abstract=False), True, timeout))
        if quick:
            steps = [x for x in steps if x[0] in ("hyp", "keep") or isinstance(x, str) and x != "sweep"]
        swept = 0
        last, cs, asked = None, None, set()
        for st in steps:
            if st == "sweep":
                before = self.sweep.merged
                self.sweep.run(goals, time.time() + min(60, max(1, self.left() / 3)))
                swept = self.sweep.merged - before
                continue
            if st[0] == "keep":
                if self.flat(ctx, goals, kind, 0, keep=st[1], roots=True, cap=4 * 10**6) == z3.unsat:
                    return "unsat"
                continue
            if st[0] == "hyp":
                if self.flat(ctx, goals, kind, 0, eqs, st[1]) == z3.unsat:
                    return "unsat"
                continue
            if isinstance(st, str):
                if (st, swept) in asked:
                    continue
                asked.add((st, swept))
                if self.flat(ctx, goals, kind, int(st[4:])) == z3.unsat:
                    return "unsat"
                continue
            opt, asm, tm = st
            if opt.get("open_depth") and not self.has_depth(goals, opt["open_depth"]):
                continue
            if not asm and last == z3.sat and opt == dict(abstract=True) and not swept:
                continue  # already asked
            if opt == dict(abstract=True) and not asm and est > 10**6 and not swept:
                pass
            bs = base if asm else []
            e = solve.Encoder(subst=ctx.defs, rep=self.sweep.rep, **opt)
            e.scan(*(goals + bs))
            g = z3.Or(*[self.enc_goal(e, x) for x in goals])
            cs = [g] + [e.bool(b) for b in bs]
            cs += e.defs
            r, s = solve.check(cs, cap(tm), kind)
            if r == z3.unsat:
                return "unsat"
            last = r
        if last == z3.sat:
            return "sat" if full else "unknown"
        if cs is None:
            return "unknown"
        r, s = solve.check_nra(cs, cap(timeout), kind + "-nra")
        return str(r)

    def denominators(self, goals, kinds=("sum",)):
        """sums the actual values are divided by, innermost first"""
        out = {}
        for g in goals:
            for v in (g[0].real, g[0].imag) if isinstance(g, tuple) else ():
                if v.items:
                    for b, e in T.factor(v)[1].items:
                        if e < 0 and b.kind in kinds:
                            out[b] = (T.height(b), b.id)
        return sorted(out, key=out.get)

    def flat(self, ctx, goals, kind, height, hyps=(), rounds=1, keep=(), roots=False, cap=2 * 10**7, timeout=8000):
        """Equalities decided as linear problems over monomials.  `hyps` are values
        known to be zero: the multiples of them that share monomials with the goal are
        given to the solver as further linear equations."""
        q = None
        if roots:
            e = solve.Encoder(subst=ctx.defs, rep=self.sweep.rep)
            e.scan(*goals)
            q = {b: n for b, n in e.Q.items() if n > 1}
            if not q and not keep:
                return None
        x = solve.Expander(subst=ctx.defs, rep=self.sweep.rep, height=height, keep=frozenset(keep), roots=q, cap=cap)
        cs, eqs, monos = [], [], set()
        try:
            for g in goals:
                if isinstance(g, tuple):
                    l, r = g
                    for u, v in ((l.real, r.real), (l.imag, r.imag)):
                        if u is not v:
                            cs.append(x.differ(u, v))
                            for p in x.last:
                                monos |= p.keys()
                elif g.kind == "not" and g.args[0].kind == "eq":
                    cs.append(x.differ(g.args[0].args[0], T.ZERO))
                    for p in x.last:
                        monos |= p.keys()
                else:
                    return None
            if hyps:
                hs = []
                for h in hyps:
                    x.differ(h, T.ZERO)
                    if x.last[0]:
                        hs.append(x.last[0])
                eqs = x.instances(hs, monos, 4000, rounds)
        except solve.TooBig:
            return None
        if not cs:
            return z3.unsat
        r, _ = solve.check_flat(x.script(cs, eqs), timeout, kind + "-flat")
        return r

    def equations(self, bs):
        """values the conditions force to be zero"""
        out = []
        for b in bs:
            if b.kind == "eq":
                out.append(b.args[0])
            elif b.kind == "and":
                out += self.equations(b.args)
        return out

    def values_of(self, g):
        todo, out = [g], []
        while todo:
            x = todo.pop()
            if isinstance(x, (tuple, list)):
                todo += list(x)
            elif isinstance(x, CV):
                out += [x.re, x.im]
            elif isinstance(x, V):
                out.append(x)
            elif isinstance(x, Bo):
                todo += [a for a in x.args if isinstance(a, (Bo, V))]
        return out

    def has_depth(self, goals, d):
        for g in goals:
            for v in self.values_of(g):
                for m, _ in v.items:
                    for b, _e in m.items:
                        if b.kind == "sum" and sweep.depth(b) > d:
                            return True
                if len(v.items) > 1:
                    for b, _e in T.factor(v)[1].items:
                        if b.kind == "sum" and sweep.depth(b) > d:
                            return True
        return False

    def enc_goal(self, e, g):
        if isinstance(g, tuple):  # (l, r): l != r
            out = []
            l, r = g
            for x, y in ((l.real, r.real), (l.imag, r.imag)):
                if x is y and not x.items:
                    continue
                a, b = e.cross(x, y)
                out.append(a != b)
            return z3.Or(*out) if out else z3.BoolVal(False)
        return e.bool(g)

    # -- branching
    def fork(self, b):
        ctx = self.ctx
        if self.left() < 0:
            raise Budget("time budget exhausted")
        if b in ctx.pc:
            return True
        if T.bnot(b) in ctx.pc:
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            ft = self.feasible(ctx, b)
            ff = self.feasible(ctx, T.bnot(b)) if ft else True
            if ft and ff:
                d = True
                self.todo.append(self.trace + [False])
                self.count("forks")
            else:
                d = ft
        self.trace.append(d)
        c = b if d else T.bnot(b)
        if c not in ctx.pc:
            ctx.pc.append(c)
        self.filter_pool(c)
        return d

    def feasible(self, ctx, b):
        if b is FALSE:
            return False
        if b is TRUE:
            return True
        for env in self.pool:
            try:
                if T.Eval(env, self.ufs()).b(b):
                    return True
            except (Unsupported, OverflowError, KeyError):
                pass
        r = self.decide(ctx, [b], "branch", timeout=8000)
        if r == "unknown":
            self.count("branch_unknown")
        return r != "unsat"

    def entails(self, b, parts=None):
        """b holds for every input of this path (the solver says so)"""
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        for env in self.pool:
            try:
                if not self.near(env, parts or [b]):
                    return False
            except (Unsupported, OverflowError, KeyError):
                pass
        return self.decide(self.ctx, [T.bnot(b)], "entails", timeout=20000) == "unsat"

    def zero(self, v):
        """0 if the solver proves v == 0, otherwise v  (for the cotangent that reaches a
        scale factor; the entries the scale was computed from are atoms first)"""
        if T.is_const(v):
            return v
        if v.id in self.zeros:
            return self.zeros[v.id]
        self.zeros[v.id] = v
        for i, env in enumerate(self.pool[:2]):
            if len(self.evals) <= i:
                self.evals.append(T.Eval(env, self.ufs()))
            ev = self.evals[i]
            try:
                if not abs(ev.v(v)) <= 1e-9 * T.Majorant(ev).v(v):
                    return v
            except (Unsupported, OverflowError, KeyError):
                return v
        t = time.time()
        opts = []
        for b in self.denominators([(v, T.ZERO)], ("sum", "opq"))[:4]:
            opts.append(self.atoms(b.args[0]))
            if b.kind == "sum":
                opts.append(opts[-1] | {b})
        opts.append(set())
        r = False
        for k in opts:
            if self.flat(self.ctx, [(v, T.ZERO)], "zero", 0, keep=k, cap=3 * 10**5 if k else 10**6, timeout=3000) == z3.unsat:
                r = True
                break
        self.count("zero" if r else "zero?")
        if os.environ.get("DBG"):
            print("zero", r, [len(k) for k in opts], round(time.time() - t, 2))
        if r:
            self.zeros[v.id] = T.ZERO
        return self.zeros[v.id]

    def atoms(self, v):
        """the sums a scale factor was computed from"""
        keep, todo = set(), [v]
        while todo:
            for m, _ in todo.pop().items:
                for b, e in m.items:
                    if b.kind == "abs":
                        b = b.args[0]
                    if b.kind == "sum":
                        if e == 1:
                            keep.add(b)
                        else:
                            todo.append(b.args[0])
        return keep

    def near(self, env, parts):
        """numerically consistent with every part (equalities up to rounding)"""
        ev = T.Eval(env, self.ufs())
        for p in parts:
            if p.kind == "eq":
                v = p.args[0]
                if abs(ev.v(v)) > 1e-11 * T.Majorant(ev).v(v) + 1e-300:
                    return False
            elif p.kind == "true":
                continue
            elif p.kind == "and":
                if not self.near(env, p.args):
                    return False
        return True

    # -- statements
    def prove_eq(self, ctx, label, kind, a, e, atol, rtol):
        if self.left() < 0:
            raise Budget("time budget exhausted")
        pairs = []
        for x, y in zip(a.reshape(-1), e.reshape(-1)):
            if isinstance(x, Bo) or isinstance(y, Bo):
                x, y = T.lift(x), T.lift(y)
            pairs.append((x, y))
        if not pairs:
            return
        for x, _ in pairs:
            if T.has_nonfinite(x):
                return self.candidate(ctx, label, "non-finite value")
        if kind == "close":
            goals = []
            for x, y in pairs:
                d = T.csub(x, y)
                bound = T.const(Fr(atol)) + T.const(Fr(rtol)) * T.cabs(y)
                if isinstance(d, CV):
                    goals.append(T.vgt(T.cabs2(d), T.vmul(bound, bound)))
                else:
                    goals += [T.vgt(d, bound), T.vgt(-d, bound)]
            goals = [g for g in goals if g is not FALSE]
            if not goals:
                self.proved += 1
                self.count("trivial")
                return
        else:
            goals = pairs
        if kind == "close":
            bad = T.bor(*goals)
        else:
            bad = T.bor(*[T.bnot(T.ceq(x, y)) for x, y in pairs])
        if self.probe(ctx, label, bad, pairs if kind == "eq" else None):
            return
        r = self.decide(ctx, goals, "eq", timeout=60000)
        if r == "unsat":
            self.proved += 1
            self.count("entries", len(pairs))
            if len(self.samples) < 3:
                self.samples.append(
                    {
                        "config": self.name,
                        "statement": label,
                        "entries": len(pairs),
                        "lhs": str(pairs[0][0])[:200],
                        "rhs": str(pairs[0][1])[:200],
                        "verdict": "unsat (negation)",
                    }
                )
            return
        self.search_cex(ctx, label, bad, pairs if kind == "eq" else None, r)

    def prove_true(self, ctx, label, cond):
        if cond is TRUE:
            self.proved += 1
            self.count("trivial")
            return
        if cond is FALSE:
            return self.candidate(ctx, label, "false")
        if self.probe(ctx, label, T.bnot(cond), None):
            return
        r = self.decide(ctx, [T.bnot(cond)], "true", timeout=30000)
        if r == "unsat":
            self.proved += 1
            return
        self.search_cex(ctx, label, T.bnot(cond), None, r)

    def candidate(self, ctx, label, why):
        """The path itself violates the property: find an input that takes it"""
        self.search_cex(ctx, label, TRUE, None, "sat", why)

    def probe(self, ctx, label, bad, pairs):
        """Where sampled points of the path suggest that the statement is false, ask the
        solver for a counterexample near them before attempting a proof"""
        points = []
        for env in self.pool[:3]:
            try:
                ev = T.Eval(env, self.ufs())
                if pairs is None:
                    hit = ev.b(bad)
                else:
                    mj, hit = T.Majorant(ev), False
                    for x, y in pairs:
                        for u, v in ((T.lift(x).real, T.lift(y).real), (T.lift(x).imag, T.lift(y).imag)) if isinstance(x, CV) or isinstance(y, CV) else ((x, y),):
                            if u is v:
                                continue
                            if isinstance(u, Bo) or isinstance(v, Bo):
                                hit = hit or ev.b(T.lift(u)) != ev.b(T.lift(v))
                            else:
                                hit = hit or abs(ev.v(u) - ev.v(v)) > 1e-6 * (1 + mj.v(u) + mj.v(v))
                if hit and self.in_domain(ctx, env):
                    points.append(env)
            except (Unsupported, OverflowError, ZeroDivisionError, ValueError, AttributeError):
                continue
        return bool(points) and self.search_cex(ctx, label, bad, pairs, "sat", points=points)

    def search_cex(self, ctx, label, bad, pairs, verdict, why=None, points=None):
        """Concrete inputs for a violated statement, confirmed on the native code"""
        if any(c.label == label for c in self.cexs):
            return True
        note = why or f"solver: {verdict}"
        tried = 0
        for env in self.model_points(ctx, bad, pairs, points):
            if not self.in_domain(ctx, env):
                continue
            tried += 1
            got = self.native(env)
            if got is None:
                continue
            lab, msg, prec = got
            self.cexs.append(Cex(label, dict(env), f"{msg} [{prec}]"))
            if len(self.samples) < 4:
                self.samples.append({"config": self.name, "statement": label, "verdict": "counterexample", "native": msg})
            return True
        if points is None:
            self.incon.append(f"{label}: {note}; {tried} candidate(s) did not reproduce")
        return False

    def in_domain(self, ctx, env):
        """no quantity assumed to be non-zero (a norm, a trace) vanishes at this point"""
        ev = T.Eval(env, self.ufs())
        mj = T.Majorant(ev)
        for kind, b in T.ST.obl:
            if kind not in ("div", "logz") or kind not in ctx.obl_assumed:
                continue
            if b.kind != "not" or b.args[0].kind != "eq":
                continue
            v = b.args[0].args[0]
            try:
                if abs(ev.v(v)) <= 1e-9 * mj.v(v):
                    return False
            except (Unsupported, OverflowError, ZeroDivisionError, ValueError):
                pass
        return True

    def model_points(self, ctx, bad, pairs, points=None):
        """Candidate inputs: solver models with most variables fixed to random
        values, so that the remaining query is small and the model is ordinary"""
        base = list(ctx.assumptions) + list(ctx.pc)
        want = base + [bad]
        names = self.var_names(ctx, want, pairs)
        rnd = random.Random(f"{self.seed}-{self.name}")
        pool = list(self.pool) if points is None else points
        t_end = min(self.deadline, time.time() + 60)
        # 1. sampled points of this path; the solver completes two free variables
        for env in pool[:4]:
            if time.time() > t_end:
                break
            m = self.solve_partial(ctx, want, env, names, rnd, 2, pairs)
            if m is not None:
                yield m
        if points is not None:
            return
        # 2. full model from the solver (needed for thin sets, e.g. zeros)
        e = self.encode(ctx, False, *want)
        cs = [e.bool(b) for b in want] + e.defs
        bnds = []
        for n, b in e.vars.items():
            x = z3.ToReal(z3.Int(n)) if b.isint else z3.Real(n)
            bnds += [x <= 64, x >= -64]
        for som in (False, True):
            r, s = solve.check(cs + bnds, 15000, "model", som=som)
            if r == z3.sat:
                yield self.from_model(s.model(), e, Env(self.decl, f"{self.seed}/m"))
                break
        if r != z3.sat:
            r, s = solve.check_nra(cs + bnds, 15000, "model-nra")
            if r == z3.sat:
                yield self.from_model(s.model(), e, Env(self.decl, f"{self.seed}/m"))
        # 3. more partially fixed points, more freedom
        for i in range(6):
            if time.time() > t_end:
                break
            env = Env(self.decl, f"{self.seed}/x{i}")
            m = self.solve_partial(ctx, want, env, names, rnd, 2 + 2 * i, pairs)
            if m is not None:
                yield m

    def var_names(self, ctx, want, pairs):
        e = self.encode(ctx, False, *want)
        for b in want:
            e.bool(b)
        return {n: b for n, b in e.vars.items()}

    def solve_partial(self, ctx, want, env, names, rnd, k, pairs=None):
        ns = sorted(names)
        free = set(rnd.sample(ns, min(k, len(ns)))) if ns else set()
        sub = dict(ctx.defs)
        derived = False
        for n in ns:
            d = self.decl.get(n)
            if d and d[0] == "derived":
                derived = True
        if derived:
            free = set()  # sampled groups satisfy their equations together
        fixed = {}
        for n in ns:
            if n not in free:
                fixed[names[n]] = T.const(Fr(env[n]))
        cenv = dict(env)
        e = solve.Encoder(abstract=False, subst={**fixed, **{b: v for b, v in ctx.defs.items() if b not in fixed}})
        if derived:
            # equations of derived groups hold only approximately at floats: evaluate
            try:
                ev = T.Eval(env, self.ufs())
                return env if all(ev.b(b) for b in want[-1:]) else None
            except (Unsupported, OverflowError):
                return None
        e.scan(*want)
        cs = [e.bool(b) for b in want] + e.defs
        for n in free:
            b = names[n]
            x = z3.ToReal(z3.Int(n)) if b.isint else z3.Real(n)
            cs += [x <= 4, x >= -4] if not b.isint else []
        if pairs:
            # robust: the two sides differ noticeably
            rob = []
            for l, r in pairs[:64]:
                for x, y in ((l.real, r.real), (l.imag, r.imag)):
                    if x is y:
                        continue
                    d = e.val(x) - e.val(y)
                    lim = z3.If(e.val(y) >= 0, e.val(y), -e.val(y)) / 8 + q2(1, 8)
                    rob.append(z3.Or(d > lim, d < -lim))
            if rob:
                r, s = solve.check(cs + [z3.Or(*rob)] + e.defs, 4000, "model", som=False)
                if r == z3.sat:
                    return self.from_model(s.model(), e, env)
        r, s = solve.check(cs, 4000, "model", som=False)
        if r == z3.sat:
            return self.from_model(s.model(), e, env)
        return None

    def from_model(self, model, e, env):
        out = Env(self.decl, env.seed, env)
        for n, b in e.vars.items():
            x = z3.Int(n) if b.isint else z3.Real(n)
            v = model.eval(x, model_completion=True)
            if z3.is_int_value(v):
                out[n] = v.as_long()
            elif z3.is_rational_value(v):
                out[n] = float(Fr(v.as_fraction()))
            elif z3.is_algebraic_value(v):
                out[n] = float(Fr(v.approx(20).as_fraction()))
        return out

    def native(self, env):
        """Run the harness on the untouched code; (label, message, precision) if it
        violates something"""
        for dt, tol in ((torch.float32, 2e-2), (torch.float64, 1e-5)):
            try:
                ctx = run_native(self.fn, self.cfg, env, self.decl, dt, tol)
            except Exception as ex:  # the code raised: only a violation if it does at
                # both precisions
                if dt == torch.float32:
                    first = ex
                    continue
                return ("exception", f"{type(ex).__name__}: {ex}"[:300], "native")
            if ctx.fails:
                return ctx.fails[0] + ("float32" if dt == torch.float32 else "float64",)
        return None

    # -- main loop
    def run(self):
        T0 = time.time()
        self.todo = [[]]
        torch.set_default_dtype(torch.float32)
        while self.todo:
            if self.paths >= self.max_paths:
                self.incon.append(f"more than {self.max_paths} paths")
                break
            if self.left() < 0:
                self.incon.append("time budget exhausted")
                break
            if len(self.cexs) >= 3:
                break
            self.prefix = self.todo.pop()
            self.trace = []
            self.one_path()
        self.wall = time.time() - T0
        return self

    def one_path(self):
        T.reset_state()
        self.new_pool()
        ctx = self.ctx = Ctx("sym", self)
        S.Session.fork = self.fork
        S.Session.fresh_hook = lambda kind, n, dt, p: ctx.draw(kind, n, dt, p)
        S.Session.svd_hook = lambda A, full, dt: svd_stub(ctx, A, full, dt)
        S.Session.sgn_nonzero = S.Session.backward = False
        S.Session.tested = set()
        self.zeros, self.evals = {}, []
        S.Session.exact_close = False
        S.Session.entails = self.entails
        S.Session.zero = self.zero
        S.Session.assume = ctx.assume
        self.paths += 1
        try:
            try:
                with S.symbolic():
                    self.fn(ctx, **self.cfg)
            finally:
                torch.set_grad_enabled(True)
            self.obligations(ctx)
        except Abort:
            self.count("aborted")
            return
        except Unsupported as ex:
            self.incon.append(f"not encodable: {ex} @ {where(ex)}")
            return
        except Budget as ex:
            self.incon.append(str(ex))
            return
        except z3.Z3Exception as ex:
            self.incon.append(f"z3: {ex}")
            return
        except Exception as ex:
            msg = f"{type(ex).__name__}: {ex}"[:200] + " @ " + where(ex)
            self.candidate(ctx, "unexpected exception", msg)
            return
        self.domain |= ctx.obl_assumed
        self.twin(ctx)
        for b in ctx.assumptions:
            s = str(b)
            if s not in self.assumed and len(self.assumed) < 20:
                self.assumed.append(s[:160])
        self.validate(ctx)

    def obligations(self, ctx):
        """Divisions, logarithms and roots taken on this path must be defined"""
        todo = []
        for kind, b in T.ST.obl:
            if kind in ctx.obl_assumed:
                self.obl[kind + ":assumed"] = self.obl.get(kind + ":assumed", 0) + 1
                continue
            todo.append((kind, b))
        if not todo:
            return
        goals = [T.bnot(b) for _, b in todo]
        if len(goals) > 4 and self.decide(ctx, goals, "obligation", timeout=2000, full=False) == "unsat":
            for kind, _ in todo:
                self.obl[kind] = self.obl.get(kind, 0) + 1
            self.proved += 1
            return
        for kind, b in todo:
            r = self.decide(ctx, [T.bnot(b)], "obligation", timeout=10000)
            if r == "unsat":
                self.obl[kind] = self.obl.get(kind, 0) + 1
                continue
            self.search_cex(ctx, f"defined:{kind}", T.bnot(b), None, r)
            if self.cexs or self.incon:
                return

    def twin(self, ctx):
        """Vacuity guard: the path is satisfiable, and a false statement in place of
        the first one is not provable"""
        if self.vac is not None:
            return
        if self.pool:
            self.vac = "sampled witness"
        else:
            r = self.decide(ctx, [TRUE], "vacuity", timeout=15000)
            if r == "unsat":
                self.incon.append("vacuous: assumptions contradict each other")
                return
            self.vac = "solver: " + r
        for lab, kind, a, e, snap in ctx.checks:
            if kind == "eq" and a.size:
                x, y = a.reshape(-1)[0], e.reshape(-1)[0]
                if isinstance(x, Bo) or isinstance(y, Bo):
                    continue
                if self.pool and self.differs(x, y):
                    self.vac += "; false twin refuted by the witness"
                    break
                r = self.decide(ctx, [(T.lift(x), T.cadd(T.lift(y), T.ONE))], "twin", timeout=3000, full=False, quick=True)
                if r == "unsat":
                    self.incon.append("vacuous: a false twin of " + lab + " was proved")
                self.vac += "; false twin refuted" if r != "unsat" else ""
                break

    def differs(self, x, y):
        """x != y + 1 at the sampled witness"""
        try:
            ev = T.Eval(self.pool[0], self.ufs())
            a, b = ev.v(T.lift(x)), ev.v(T.lift(y)) + 1
            return abs(a - b) > 1e-6 * (1 + abs(a))
        except (Unsupported, OverflowError, ValueError):
            return False

    def validate(self, ctx):
        """Encoding validation: native outputs equal the expressions' values"""
        # only values of paths a sampled point takes
        if self.validated >= self.nvalidate or not self.pool:
            return
        env = self.pool[0]
        if not self.in_domain(ctx, env):
            return
        try:
            n = run_native(self.fn, self.cfg, env, self.decl, torch.float64, 1e-5)
        except Unsupported:
            return
        except Exception as ex:
            got = self.native(env)
            if got:
                self.cexs.append(Cex("unexpected exception", dict(env), got[1] + " (encoding validation point)"))
            return
        if n.fails:
            got = self.native(env)
            if got:
                self.cexs.append(Cex(n.fails[0][0], dict(env), got[1] + " (encoding validation point)"))
                return
        ev = T.Eval(env, self.ufs())
        if len(n.checks) != len(ctx.checks):
            self.incon.append("encoding validation: different statements reached natively")
            return
        for (lab, kind, a, e, snap), nat in zip(ctx.checks, n.checks):
            if kind not in ("eq", "close"):
                continue
            vals = nat[2]
            sv = [ev.v(x) if not isinstance(x, Bo) else float(ev.b(x)) for x in a.reshape(-1)]
            if len(sv) != len(vals):
                self.incon.append(f"encoding validation: {lab}: shapes differ")
                return
            sc = max([abs(x) for x in sv if _fin(x)] + [0])
            for x, y in zip(sv, vals):
                if not _fin(x) and not _fin(y):
                    continue
                if not abs(x - y) <= 1e-4 * (1e-3 + abs(x) + 0.05 * sc):
                    self.incon.append(f"encoding validation: {lab}: symbolic {x} native {y}")
                    return
        self.validated += 1


def q2(a, b):
    return z3.RealVal(f"{a}/{b}")


def where(ex):
    for f in reversed(traceback.extract_tb(ex.__traceback__)):
        if "torchmps" in f.filename or "/props/" in f.filename:
            return f"{f.filename.split('/')[-1]}:{f.lineno}"
    return ""


DEFAULT_UFS = T.DEFAULT_UFS


def run_native(fn, cfg, env, decl, dtype, tol):
    torch.set_default_dtype(dtype)
    try:
        e = env if isinstance(env, Env) else Env(decl, "replay", env)
        ctx = Ctx("num", None, e, tol)
        ctx.decl = decl
        torch.set_grad_enabled(True)
        with NativeRandom(ctx):
            fn(ctx, **cfg)
        return ctx
    finally:
        torch.set_default_dtype(torch.float32)
        torch.set_grad_enabled(True)


# ---------------------------------------------------------------------- SVD stub
def same_matrix(A, B):
    """row and column permutations taking B to A, as index lists, or None.  Exact:
    entries are compared as terms."""
    if A.shape != B.shape:
        return None
    key = lambda x: (id(x.re), id(x.im)) if isinstance(x, CV) else (id(x), 0)
    ka = [[key(x) for x in r] for r in A]
    kb = [[key(x) for x in r] for r in B]
    if ka == kb:
        return list(range(A.shape[0])), list(range(A.shape[1]))
    if sorted(map(sorted, ka)) != sorted(map(sorted, kb)):
        return None
    flat = [k for r in ka for k in r]
    if len(set(flat)) != len(flat):
        return None  # repeated entries: a permutation would have to be searched for
    pos = {k: p for p, k in np.ndenumerate(np.array([[hash(k) for k in r] for r in kb]))}
    pos = {kb[i][j]: (i, j) for i in range(len(kb)) for j in range(len(kb[0]))}
    rows = [pos[r[0]][0] for r in ka]
    cols = [pos[k][1] for k in ka[0]]
    for i, r in enumerate(ka):
        for j, k in enumerate(r):
            if pos[k] != (rows[i], cols[j]):
                return None
    return rows, cols


def unit_matrix(A):
    """position and value of the only non-zero entry of a constant matrix, if positive"""
    out = None
    for p, v in np.ndenumerate(A):
        if not isinstance(v, V) or not T.is_const(v):
            return None
        if v is not T.ZERO:
            if out or T.const_val(v) < 0:
                return None
            out = (p, v)
    return out


def svd_stub(ctx, A, full, dtype, rank=None):
    """A = U diag(S) V^H with orthonormal columns and sorted non-negative S; nothing
    else is known about the result (this is torch.linalg.svd's contract).  Matrices that
    are equal up to transposition and permutations of rows and columns share one
    decomposition, permuted accordingly."""
    n, m = A.shape
    k = min(n, m)
    if full and n != m:
        raise Unsupported("full svd")
    cx = dtype.is_complex
    for A0, U0, S0, V0 in ctx.svds:
        p = same_matrix(A, A0)
        if p:
            return U0[p[0], :].copy(), S0.copy(), V0[:, p[1]].copy()
        p = same_matrix(A.T, A0)
        if p:
            # A = A0[p]^T = (U S V)^T = V^T S U^T
            return V0[:, p[1]].T.copy(), S0.copy(), U0[p[0], :].T.copy()
    one = unit_matrix(A)
    if one:
        U, Sg, V_ = (np.empty(q, dtype=object) for q in ((n, k), (k,), (k, m)))
        (r, c), v = one
        ro = [r] + [i for i in range(n) if i != r]
        co = [c] + [i for i in range(m) if i != c]
        for a in range(k):
            Sg[a] = v if a == 0 else T.ZERO
            for b in range(n):
                U[b, a] = T.ONE if b == ro[a] else T.ZERO
            for b in range(m):
                V_[a, b] = T.ONE if b == co[a] else T.ZERO
        return U, Sg, V_
    i = len(ctx.svds)
    nm = f"svd{i}"

    def names(s, sh):
        out = np.empty(sh, dtype=object)
        for p in np.ndindex(sh):
            out[p] = f"{nm}.{s}" + str(list(p)).replace(" ", "")
        return out

    nu, ns, nv = names("U", (n, k)), names("S", (k,)), names("V", (k, m))

    def fill(env):
        ev = T.Eval(env, DEFAULT_UFS)
        M = np.array([[ev.v(x) for x in row] for row in A], dtype=complex if cx else float)
        M = M.reshape(n, m)
        u, s, vh = np.linalg.svd(M, full_matrices=False)
        s = np.where(s < 1e-12 * max(1e-300, s[0] if len(s) else 0), 0.0, s)
        for arr, val in ((nu, u), (ns, s), (nv, vh)):
            for p in np.ndindex(arr.shape):
                env[arr[p]] = float(val[p].real)
                if cx and arr is not ns:
                    env[arr[p] + "i"] = float(val[p].imag)

    for arr in (nu, ns, nv):
        for x in arr.reshape(-1):
            ctx.decl[x] = ("derived", fill, None)
            if cx and arr is not ns:
                ctx.decl[x + "i"] = ("derived", fill, None)
    if cx:
        mkv = np.frompyfunc(lambda x: T.CV(T.var(x), T.var(x + "i")), 1, 1)
    else:
        mkv = np.frompyfunc(lambda x: T.var(x), 1, 1)
    U, V_ = mkv(nu), mkv(nv)
    Sg = np.frompyfunc(lambda x: T.var(x, nonneg=True), 1, 1)(ns)
    if rank is not None:
        for a in range(rank, k):
            Sg[a] = T.ZERO  # assumed by the caller
    ctx.svds.append((A, U, Sg, V_))
    spec = S.matmul2(S.ew(T.cmul, U, np.broadcast_to(Sg[None, :], U.shape)), V_)
    plain = {}

    def give(v, e):
        b = None
        if isinstance(v, V) and len(v.items) == 1:
            c, mm = T.factor(v)
            if c == 1 and len(mm.items) == 1 and mm.items[0][1] == 1 and mm.items[0][0].kind == "var":
                b = mm.items[0][0]
        if b is not None and b not in ctx.defs and b not in plain:
            plain[b] = e
        else:
            ctx.assume(T.ceq(v, e), False)

    for p in np.ndindex(A.shape):
        v, e = A[p], spec[p]
        if cx:
            give(v.real, e.real)
            give(v.imag, e.imag)
        else:
            give(v, e)
    ctx.defs.update(plain)
    for a in range(k - 1):
        if Sg[a + 1] is not T.ZERO:
            ctx.assume(T.vge(Sg[a], Sg[a + 1]), False)
    if getattr(ctx, "svd_orth", False):
        for a in range(k):
            for b in range(a, k):
                t = T.const(1 if a == b else 0)
                for l in (S.dot(np.frompyfunc(conj, 1, 1)(U[:, a]), U[:, b]), S.dot(V_[a], np.frompyfunc(conj, 1, 1)(V_[b]))):
                    ctx.lemmas.append(T.ceq(l.real, t))
                    if cx:
                        ctx.lemmas.append(T.ceq(l.imag, T.ZERO))
    return U.copy(), Sg.copy(), V_.copy()


def conj(x):
    return x.conjugate() if isinstance(x, CV) else x
