"""Shared pieces of the harnesses: reference semantics written from the documented
mathematics, over exact symbolic scalars.  Nothing here imports TorchMPS."""
import itertools
from fractions import Fraction as Fr

import numpy as np
import torch

from sx import term as T, symt as S

mm = S.matmul2
dot = S.dot


def arr(x):
    return np.asarray(x, dtype=object)


def chain(mats, left=None, right=None):
    """left^T M_1 ... M_n right (either boundary may be absent)"""
    if left is not None:
        v = left
        for m in mats:
            v = mm(v[None, :], m)[0]
        return v if right is None else dot(v, right)
    if right is not None:
        v = right
        for m in mats[::-1]:
            v = mm(m, v[:, None])[:, 0]
        return v
    out = mats[0]
    for m in mats[1:]:
        out = mm(out, m)
    return out


def seqs(L, d):
    return list(itertools.product(range(d), repeat=L))


def lin(vec, core):
    """sum_i vec[i] core[i]  for core of shape (d, D, D)"""
    out = None
    for i in range(len(vec)):
        t = S.ew(lambda c: T.cmul(T.lift(vec[i]), c), core[i])
        out = t if out is None else S.ew(T.cadd, out, t)
    return out


def add(a, b):
    return S.ew(T.cadd, a, b)


def exp(a):
    return S.ew(T.cexp, a) if isinstance(a, np.ndarray) else T.cexp(a)


def mul(a, b):
    return S.ew(T.cmul, a, b)


def pick(vals, i):
    """vals[i] for a symbolic index i"""
    out = vals[-1]
    for k in range(len(vals) - 2, -1, -1):
        out = ite(T.ceq(T.lift(i), T.const(k)), vals[k], out)
    return out


def ite(c, a, b):
    if isinstance(a, T.CV) or isinstance(b, T.CV):
        return T.cplx(T.ite(c, a.real, b.real), T.ite(c, a.imag, b.imag))
    return T.ite(c, a, b)


def to_cores(p, L, bias):
    """list of L arrays (d, D, D): site tensors with the bias matrix added"""
    c = p["core_tensors"]
    sites = [c] * L if c.ndim == 3 else [c[t] for t in range(L)]
    if bias:
        sites = [S.ew(T.cadd, s, np.broadcast_to(p["bias_mat"], s.shape)) for s in sites]
    return sites


def psi(sites, edges, x):
    """amplitude of a discrete sequence, or of a sequence of vectors"""
    mats = []
    for t, s in enumerate(sites):
        xi = x[t]
        if isinstance(xi, (int, np.integer)):
            mats.append(s[int(xi)])
        else:
            mats.append(lin(xi, s))
    return chain(mats, edges[0], edges[1])


def psi_sym(sites, edges, x):
    """amplitude of a discrete sequence of symbolic indices"""
    mats = []
    for t, s in enumerate(sites):
        D = s.shape[1]
        m = np.empty((D, D), dtype=object)
        for p in np.ndindex((D, D)):
            m[p] = pick([s[i][p] for i in range(s.shape[0])], x[t])
        mats.append(m)
    return chain(mats, edges[0], edges[1])


def total(sites, edges):
    """sum over all discrete sequences of |amplitude|^2, by enumeration"""
    L, d = len(sites), sites[0].shape[0]
    return T.csum([T.cabs2(psi(sites, edges, x)) for x in seqs(L, d)])


def vec(*xs):
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = x
    return a


def conf(name, fn, cost=1, budget=150, max_paths=64, **cfg):
    return dict(name=name, fn=fn, cfg=cfg, cost=cost, budget=budget, max_paths=max_paths)


def strided(c):
    """the configuration with inputs that are non-contiguous views"""
    f = c["fn"]

    def fn(ctx, **kw):
        ctx.strided = True
        return f(ctx, **kw)

    return dict(c, name=c["name"] + "-strided", fn=fn)


def evaluated(c):
    """the configuration without gradients, with modules in eval mode"""
    f = c["fn"]

    def fn(ctx, **kw):
        ctx.eval_mode = True
        with torch.no_grad():
            return f(ctx, **kw)

    return dict(c, name=c["name"] + "-eval", fn=fn)


def evals(confs, step):
    """every `step`-th of the cheaper half of the configurations, without gradients"""
    plain = [c for c in confs if "-sparse" not in c["name"] and "-strided" not in c["name"]]
    if not plain:
        return []
    mid = sorted(c["cost"] for c in plain)[len(plain) // 2]
    return [evaluated(c) for c in [c for c in plain if c["cost"] <= mid][::step]]


def sparse(c, k=1, total=12):
    """the configuration with at most `k` symbolic real numbers per input tensor and
    `total` over all of them, the others fixed: for sizes that cannot be covered with
    every entry symbolic"""
    f = c["fn"]

    def fn(ctx, **kw):
        ctx.sparse = (k, total)
        return f(ctx, **kw)

    return dict(c, name=c["name"] + f"-sparse{k}", fn=fn)


# ---------------------------------------------------------------------- MPS
def mps_parts(p, n, site):
    """(first sites, label core (o, l, r), second sites, first bias, second bias) from
    the parameters of a non-adaptive MPS; bias None if absent"""
    k = 0
    pre = "linear_region.module_list."
    A = B = ba = bb = None


    def bias():
        b = p.get(f"{pre}{k}.bias_mat")
        return b if b is not None and b.size else None

    if site > 0:
        A, ba = p[f"{pre}{k}.tensor"], bias()
        k += 1
    O = p[f"{pre}{k}.tensor"]
    k += 1
    if site < n:
        B, bb = p[f"{pre}{k}.tensor"], bias()
    return A, O, B, ba, bb


def trans(core, x, bias=None):
    """sum_i x_i core[:, :, i] (+ bias)"""
    out = lin(x, np.moveaxis(core, -1, 0))
    return out if bias is None else S.ew(T.cadd, out, bias.reshape(out.shape))


def mps_ref(p, n, site, xs, periodic):
    """outputs (batch, o) of the chain for embedded samples xs[b][t] (vector)"""
    A, O, B, ba, bb = mps_parts(p, n, site)
    out = np.empty((len(xs), O.shape[0]), dtype=object)
    for s, x in enumerate(xs):
        left = [trans(A[t], x[t], ba) for t in range(site)]
        right = [trans(B[t - site], x[t], bb) for t in range(site, n)]
        for o in range(O.shape[0]):
            out[s, o] = close_chain(left + [O[o]] + right, periodic)
    return out


def close_chain(mats, periodic):
    """entry (0, 0), or the trace, of a product of matrices"""
    if periodic:
        m = mats[0]
        for a in mats[1:]:
            m = mm(m, a)
        return T.csum([m[i, i] for i in range(m.shape[0])])
    v = mats[0][0]
    for a in mats[1:]:
        v = mm(v[None], a)[0]
    return v[0]


def plain(x):
    """default embedding of a pixel"""
    return vec(x, T.csub(T.ONE, T.lift(x)))


def ti_ref(p, m, fe, xs, bias):
    """p: havocked parameters, fixed quantities read from their documented values"""
    D, o = m.bond_dim, m.output_dim
    eye = arr([[T.ONE if i == j else T.ZERO for j in range(o)] for i in range(D)])
    v0 = p.get("init_vector.vec", vec(*[T.ONE] * D))
    term = p.get("terminal_mat.mat", eye)
    A = p["core_tensor"]
    b = None
    if bias:
        b = p.get("bias_mat", arr([[T.ONE if i == j else T.ZERO for j in range(D)] for i in range(D)]))
    out = np.empty((len(xs), o), dtype=object)
    for s, x in enumerate(xs):
        v = v0
        for t in range(len(x)):
            v = mm(v[None], trans(A, x[t], b))[0]
        out[s] = mm(v[None], term)[0]
    return out
