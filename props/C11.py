"""Adaptive merging and splitting preserves the function"""
from .common import *
from . import adaptive as A
from torchmps import MPS

BOUNDS = {
    "input_dim": "1..5 (6 thorough), every label_site, both boundary conditions, both merge states",
    "feature_dim": "1..2", "output_dim": "1..2", "bond_dim": "1..2 (3 for single flips of short chains)",
    "values": "every value of the merged cores with rank at most bond_dim across every merged bond, every pixel; cutoff 0 or any positive number between 0 and the smallest non-zero singular value",
    "outside": "accuracy of the SVD, rounding; cores that vanish identically (their norm cannot be equalised)",
}
ASSUMPTIONS = [
    "real arithmetic instead of floating point",
    "torch.linalg.svd returns A = U diag(S) V^T with S sorted and non-negative",
    "norms of the split cores are non-zero",
]


def make(n, site, d, o, D, per, par, cutoff, thr):
    return MPS(n, o, D, feature_dim=d, periodic_bc=per, parallel_eval=par, label_site=site, adaptive_mode=True, cutoff=cutoff, merge_threshold=thr)


def low(ctx, n, site, off, ts, ranks, cutoff):
    """nothing but zeros is removed: ranks within bond_dim, and the cutoff lies below the
    non-zero singular values"""
    for (_, a), r in zip(A.matrices(n, site, off, ts), ranks):
        _, Sg, _ = ctx.svd(a, rank=r)
        if cutoff is not None:
            ctx.assume(T.vge(T.lift(Sg[min(r, len(Sg)) - 1]), cutoff))


def h_flip(ctx, n, site, d, o, D, per, par, off, B, cut, ranks, again=0):
    ctx.domain("log", "logz", "div")
    cutoff, c = 0.0, None
    if cut:
        cutoff = ctx.num("cutoff", 0, Fr(1, 64))
        c = T.lift(ctx.scalar(cutoff))
        ctx.assume(T.vgt(c, T.ZERO))
    thr = 2 * B
    m = make(n, site, d, o, D, per, par, cutoff, thr)
    A.start(ctx, m, off, thr)
    ts = A.havoc(ctx, m, off, ranks=ranks)
    x = ctx.real("x", (B, n, d))
    low(ctx, n, site, off, ts, ranks, c)
    ref = A.reference(n, site, off, ts, x.a, per)
    ctx.eq("before the flip", m(x.t), ref)
    ctx.eq("before the flip, repeated", m(x.t), ref)
    y = m(x.t)
    ctx.eq("after the flip", y, ref)
    new = [ctx.terms(t) for t in A.tensors(m, 1 - off)]
    ctx.eq("contraction of the current cores", A.reference(n, site, 1 - off, new, x.a, per), ctx.terms(y))
    for i in range(again):
        # training changes the cores, then the state flips again
        off = 1 - off
        r2 = [1 + (i + j + 1) % D for j in range(len(A.splits(n, off)))]
        ts = A.havoc(ctx, m, off, f"again{i}.", ranks=r2)
        low(ctx, n, site, off, ts, r2, c)
        ref = A.reference(n, site, off, ts, x.a, per)
        ctx.eq(f"before flip {i + 2}", m(x.t), ref)
        y = m(x.t)
        ctx.eq(f"after flip {i + 2}", y, ref)
        new = [ctx.terms(t) for t in A.tensors(m, 1 - off)]
        ctx.eq(f"current cores after flip {i + 2}", A.reference(n, site, 1 - off, new, x.a, per), ctx.terms(y))


def h_states(ctx, n, site, d, o, D, per, par):
    """every state computes the contraction of its own cores, whatever the other state's
    (stale) cores are"""
    for off in (0, 1):
        m = make(n, site, d, o, D, per, par, 0.0, 6)
        A.start(ctx, m, off, 6)
        A.havoc(ctx, m, 1 - off, "stale.")
        ts = A.havoc(ctx, m, off, "cur.")
        for B in (2, 0, 1):
            x = ctx.real(f"x{B}", (B, n, d))
            ctx.eq(f"state {off}, batch {B}", m(x.t), A.reference(n, site, off, ts, x.a, per) if B else np.empty((0, o), dtype=object))
        for p, a in zip(A.tensors(m, off), ts):
            ctx.eq("parameters unchanged without a flip", p, a)


def h_merge(ctx, n, site, d, o, D, per):
    """both states of a new model come from merging the same cores"""
    m = MPS(n, o, D, feature_dim=d, periodic_bc=per, label_site=site, adaptive_mode=True, init_std=0.5)
    x = ctx.real("x", (2, n, d))
    r = [A.reference(n, site, off, [ctx.terms(t) for t in A.tensors(m, off)], x.a, per) for off in (0, 1)]
    ctx.eq("both merge states of a new model agree", r[1], r[0])
    ctx.eq("output of a new model", m(x.t), r[0])


def configs(tier):
    out = []
    big = tier == "thorough"
    for per in (False, True):
        t = "per" if per else "open"
        for n in (1, 2, 3, 4, 5) + ((6,) if big else ()):
            for site in range(n + 1):
                for off in (0, 1):
                    sizes = [(2, 2, 1, 2), (1, 1, 2, 1)]
                    if n <= 3:
                        sizes.append((2, 2, 2, 2))
                    if n <= 2:
                        sizes += [(2, 1, 3, 1), (3, 1, 2, 1)]
                    for d, o, D, B in sizes:
                        k = len(A.splits(n, off))
                        for cut in (False, True):
                            for ranks in itertools.product(range(1, D + 1), repeat=k) if cut else [(D,) * k]:
                                if cut and k == 0:
                                    continue
                                for par in (False, True):
                                    if par and (cut or D == 1):
                                        continue
                                    out.append(conf(f"flip-{t}-n{n}s{site}o{off}-d{d}o{o}D{D}B{B}{'-cut' if cut else ''}{''.join(map(str, ranks)) if cut else ''}{'-par' if par else ''}", h_flip, n=n, site=site, d=d, o=o, D=D, per=per, par=par, off=off, B=B, cut=cut, ranks=ranks, again=2 if n <= 3 and not par and ranks.count(D) == len(ranks) else 0, cost=n * D * D))
                for d, o, D in ((2, 2, 2), (1, 3, 2), (3, 1, 1)):
                    for par in (False, True):
                        out.append(conf(f"states-{t}-n{n}s{site}-d{d}o{o}D{D}{'-par' if par else ''}", h_states, n=n, site=site, d=d, o=o, D=D, per=per, par=par, cost=n))
                    out.append(conf(f"merge-{t}-n{n}s{site}-d{d}o{o}D{D}", h_merge, n=n, site=site, d=d, o=o, D=D, per=per, cost=n))
    return out
