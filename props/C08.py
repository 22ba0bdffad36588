"""MPS computes the contraction of its cores with the input"""
from .common import *
from torchmps import MPS

BOUNDS = {
    "input_dim": "1..5 (6 thorough), every label_site", "feature_dim": "1..3", "output_dim": "1..3", "bond_dim": "1..3", "batch": "0..3",
    "values": "every real value of cores, label core, bias matrices and data (raw or embedded)",
    "outside": "rounding; complex parameters (MPS has none)",
    "larger sizes": "input_dim up to 65, bond_dim up to 17, feature_dim up to 12, output_dim up to 11, batch up to 130; with 1..6 symbolic real numbers per tensor, the other entries being fixed",
}
ASSUMPTIONS = ["real arithmetic instead of floating point"]


def h(ctx, n, site, d, o, D, B, per, par, bias, raw):
    m = MPS(n, o, D, feature_dim=d, periodic_bc=per, parallel_eval=par, label_site=site, use_bias=bias)
    p = ctx.havoc(m)
    if site is None:
        site = n // 2
    x = ctx.real("x", (B, n) if raw else (B, n, d))
    out = m(x.t)
    xs = [[plain(v) if raw else v for v in r] for r in x.a]
    ctx.true("real", not out.dtype.is_complex)
    ctx.true("len", len(m) == n)
    ctx.eq("contraction", out, mps_ref(p, n, site, xs, per))
    for k in p:
        ctx.eq("parameter unchanged " + k, dict(m.named_parameters())[k], p[k])
    ctx.eq("input unchanged", x.t, x.a)


def h_moves(ctx, n, D, per, par):
    """where the label core sits only matters through the order of the chain: a core
    equal to the identity for output 0 can be moved freely when biases agree"""
    ref = None
    x = ctx.real("x", (2, n, 2))
    A = ctx.real("A", (n, D, D, 2))
    b = ctx.real("b", (D, D))
    for site in range(n + 1):
        m = MPS(n, 1, D, periodic_bc=per, parallel_eval=par, label_site=site)
        with torch.no_grad():
            for k, q in m.named_parameters():
                if k.endswith("bias_mat"):
                    q.copy_(b.t.reshape(q.shape))
                elif q.ndim == 3:
                    q.copy_(torch.eye(D)[None])
                elif site and ".0." in k:
                    q.copy_(A.t[:site])
                else:
                    q.copy_(A.t[site:])
        y = ctx.terms(m(x.t))
        if ref is None:
            ref = y
        else:
            ctx.eq(f"label core moved to {site}", y, ref)


def configs(tier):
    out = []
    big = tier == "thorough"
    for per in (False, True):
        for par in (False, True):
            for bias in (True, False):
                t = f"{'per' if per else 'open'}-{'par' if par else 'ser'}{'-b' if bias else ''}"
                for n in (1, 2, 3, 4, 5) + ((6, 7) if big else ()):
                    for site in list(range(n + 1)) + [None]:
                        sizes = [(2, 2, 2, 2)]
                        if n <= 3 or big and n <= 5:
                            sizes += [(3, 1, 2, 1), (1, 3, 3, 2), (2, 1, 1, 3)]
                        if big and n <= 4:
                            sizes += [(3, 3, 3, 2), (2, 2, 4, 1)]
                        for d, o, D, B in sizes:
                            for raw in (False, True):
                                if raw and d != 2:
                                    continue
                                out.append(conf(f"{t}-n{n}s{site}d{d}o{o}D{D}B{B}{'-raw' if raw else ''}", h, n=n, site=site, d=d, o=o, D=D, B=B, per=per, par=par, bias=bias, raw=raw, cost=n * D))
                out.append(conf(f"{t}-B0", h, n=3, site=1, d=2, o=2, D=2, B=0, per=per, par=par, bias=bias, raw=False))
            for n in (1, 2, 3):
                out.append(conf(f"{t}-moves-n{n}", h_moves, n=n, D=2, per=per, par=par))
    # larger sizes with few symbolic entries
    big_ = []
    for n, site, d, o, D, B in ((6, 2, 3, 2, 4, 2), (9, 4, 2, 11, 3, 3), (11, None, 2, 2, 2, 9), (16, 16, 2, 3, 3, 2), (17, 0, 2, 3, 3, 2), (33, 20, 2, 2, 2, 2), (5, 1, 12, 3, 3, 17), (4, 2, 2, 3, 17, 2), (3, 1, 2, 2, 2, 130), (7, 3, 7, 7, 7, 7), (65, 32, 2, 1, 2, 1)):
        for per in (False, True):
            for par in (False, True):
                for bias in (False, True):
                    if bias and n > 40:
                        continue
                    big_.append(sparse(conf(f"{'per' if per else 'open'}-{'par' if par else 'ser'}{'-b' if bias else ''}-n{n}s{site}d{d}o{o}D{D}B{B}", h, n=n, site=site, d=d, o=o, D=D, B=B, per=per, par=par, bias=bias, raw=d == 2, cost=n * D), 1 if bias and n > 6 else 2, 8 if n < 7 else 3 if bias else 6))
    return out + big_ + [strided(c) for c in out[::4]] + evals(out, 11)
