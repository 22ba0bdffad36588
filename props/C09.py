"""Paths route inputs, and feature maps embed them"""
from .common import *
from torch import nn
from torchmps import MPS, TI_MPS

BOUNDS = {
    "input_dim": "1..4, data of up to 5 pixels", "paths": "identity, reversed, subsets, repeated pixels; as list and as tensor; none and empty",
    "feature maps": "functions and modules with symbolic coefficients (polynomials of degree up to 3), feature_dim 1..3",
    "values": "every real parameter, weight and pixel", "outside": "negative or out of range path entries; feature maps that are not polynomial",
    "larger sizes": "input_dim 5..16, data of up to 40 pixels, feature_dim up to 11; with 1..6 symbolic real numbers per tensor, the other entries being fixed",
}
ASSUMPTIONS = ["real arithmetic instead of floating point"]


class Map(nn.Module):
    """trainable polynomials of a pixel"""

    def __init__(self, k, d):
        super().__init__()
        self.w = nn.Parameter(torch.zeros(k, d))

    def forward(self, x):
        out = self.w[0]
        y = x
        for i in range(1, len(self.w)):
            out = out + y * self.w[i]
            y = y * x
        return out


def poly(w, x):
    """terms: w (k, d), x scalar term"""
    out = np.empty((w.shape[1],), dtype=object)
    x = T.lift(x)
    for j in range(w.shape[1]):
        v, y = w[0, j], T.ONE
        for i in range(1, w.shape[0]):
            y = T.cmul(y, x)
            v = T.cadd(v, T.cmul(y, w[i, j]))
        out[j] = v
    return out


def route(path, as_tensor):
    if path is None or not as_tensor:
        return path
    return torch.tensor(path, dtype=torch.long)


def h_path(ctx, n, N, path, as_tensor, site, d, per, par, raw, adaptive):
    D, o = 2, 2
    m = MPS(n, o, D, feature_dim=d, periodic_bc=per, parallel_eval=par, label_site=site, path=route(path, as_tensor), adaptive_mode=adaptive)
    ref = MPS(n, o, D, feature_dim=d, periodic_bc=per, parallel_eval=par, label_site=site, adaptive_mode=adaptive)
    p = ctx.havoc(m)
    with torch.no_grad():
        for k, q in ref.named_parameters():
            q.copy_(dict(m.named_parameters())[k])
    x = ctx.real("x", (2, N) if raw else (2, N, d))
    eff = list(range(n)) if not path else path
    want = ctx.tensor(x.a[:, eff])
    out = m(x.t)
    ctx.eq("as if given the routed pixels", out, ctx.terms(ref(want)))
    if not adaptive:
        xs = [[plain(r[k]) if raw else r[k] for k in eff] for r in x.a]
        ctx.eq("contraction", out, mps_ref(p, n, site, xs, per))
    if as_tensor:
        ctx.true("path unchanged", m.path.tolist() == path)
    elif path is not None:
        ctx.true("path unchanged", list(m.path) == path)
    ctx.eq("input unchanged", x.t, x.a)


def h_map(ctx, n, N, path, site, d, k, per, bias, module):
    D, o = 2, 2
    m = MPS(n, o, D, feature_dim=d, periodic_bc=per, label_site=site, path=path, use_bias=bias)
    f, w = feature(ctx, module, k, d)
    m.register_feature_map(f)
    names = [nm for nm, _ in m.named_parameters()]
    ctx.true("module parameters become model parameters", (not module) or any(q is f.w for q in m.parameters()))
    p = ctx.havoc(m)
    if module:
        w = p[[nm for nm, q in m.named_parameters() if q is f.w][0]]
    x = ctx.real("x", (2, N))
    eff = list(range(n)) if not path else path
    xs = [[poly(w, r[t]) for t in eff] for r in x.a]
    ctx.eq("mapped pixels", m(x.t), mps_ref(p, n, site, xs, per))
    y = ctx.real("y", (2, N, d))
    ctx.eq("embedded data is used as is", m(y.t), mps_ref(p, n, site, [[r[t] for t in eff] for r in y.a], per))
    # the map can be replaced and removed
    g, v = feature(ctx, False, 2, d, "second")
    m.register_feature_map(g)
    ctx.true("replaced module is gone", not (module and any(q is f.w for q in m.parameters())))
    xs = [[poly(v, r[t]) for t in eff] for r in x.a]
    ctx.eq("second map", m(x.t), mps_ref(p, n, site, xs, per))
    for bad in (lambda z: torch.stack([z * 1.0] * (d + 1)), lambda z: torch.ones(d, 1), Map(2, d + 1)):
        ctx.raises("wrong output size", lambda: m.register_feature_map(bad), ValueError)
    ctx.eq("rejected map changes nothing", m(x.t), mps_ref(p, n, site, xs, per))
    m.register_feature_map(None)
    if d == 2:
        xs = [[plain(r[t]) for t in eff] for r in x.a]
        ctx.eq("default map restored", m(x.t), mps_ref(p, n, site, xs, per))
    else:
        ctx.raises("default map needs feature_dim 2", lambda: m(x.t), RuntimeError)
    ctx.eq("embedded data after reset", m(y.t), mps_ref(p, n, site, [[r[t] for t in eff] for r in y.a], per))


def feature(ctx, module, k, d, name="map"):
    if module:
        return Map(k, d), None
    w = ctx.real(name, (k, d))

    def f(x):
        out = w.t[0]
        y = x
        for i in range(1, k):
            out = out + y * w.t[i]
            y = y * x
        return out

    return f, w.a


def h_ti(ctx, n, d, k, fe, bias, fb, module, aslist):
    D, o = 2, 2
    m = TI_MPS(o, D, feature_dim=d, fixed_ends=fe, use_bias=bias, fixed_bias=fb)
    f, w = feature(ctx, module, k, d)
    g = (lambda t: list(t)) if aslist else (lambda t: t)
    x = ctx.real("x", (2, n))
    if d != 2:
        ctx.raises("default map needs feature_dim 2", lambda: m(g(x.t)), RuntimeError)
    m.register_feature_map(f)
    ctx.true("module parameters become model parameters", (not module) or any(q is f.w for q in m.parameters()))
    p = ctx.havoc(m)
    if module:
        w = p[[nm for nm, q in m.named_parameters() if q is f.w][0]]
    ctx.eq("mapped pixels", m(g(x.t)), ti_ref(p, m, fe, [[poly(w, v) for v in r] for r in x.a], bias))
    y = ctx.real("y", (2, n, d))
    ctx.eq("embedded data is used as is", m(g(y.t)), ti_ref(p, m, fe, [list(r) for r in y.a], bias))
    for bad in (lambda z: torch.stack([z * 1.0] * (d + 1)), lambda z: torch.ones(d, 1), Map(2, d + 1)):
        ctx.raises("wrong output size", lambda: m.register_feature_map(bad), ValueError)
    h2, v = feature(ctx, False, 2, d, "second")
    m.register_feature_map(h2)
    ctx.eq("second map", m(g(x.t)), ti_ref(p, m, fe, [[poly(v, q) for q in r] for r in x.a], bias))
    m.register_feature_map(None)
    if d == 2:
        ctx.eq("default map restored", m(g(x.t)), ti_ref(p, m, fe, [[plain(q) for q in r] for r in x.a], bias))
    else:
        ctx.raises("default map needs feature_dim 2", lambda: m(g(x.t)), RuntimeError)


PATHS = {
    1: [(1, None), (1, []), (3, [2]), (2, [0])],
    2: [(2, None), (2, [1, 0]), (4, [3, 1]), (3, [1, 1])],
    3: [(3, []), (3, [2, 0, 1]), (5, [4, 0, 2]), (3, [0, 1, 2]), (2, [1, 0, 1])],
    4: [(4, None), (4, [3, 2, 1, 0]), (5, [1, 4, 0, 3])],
}


def configs(tier):
    out = []
    big = tier == "thorough"
    for n, ps in PATHS.items():
        for N, path in ps:
            for tens in (False, True):
                if tens and not path:
                    continue
                for site in range(n + 1):
                    for per in (False, True):
                        for d in (2, 3):
                            for raw in (False, True):
                                if raw and d != 2:
                                    continue
                                for ad in (False, True):
                                    for par in (False, True):
                                        if par and (n < 3 or ad or not big and d == 3):
                                            continue
                                        nm = f"path-n{n}N{N}-{'none' if path is None else ''.join(map(str, path)) or 'empty'}{'t' if tens else ''}-s{site}d{d}{'-per' if per else ''}{'-raw' if raw else ''}{'-ad' if ad else ''}{'-par' if par else ''}"
                                        out.append(conf(nm, h_path, n=n, N=N, path=path, as_tensor=tens, site=site, d=d, per=per, par=par, raw=raw, adaptive=ad, cost=n))
    for n, N, path in ((1, 1, None), (2, 2, None), (2, 4, [3, 1]), (3, 3, [2, 0, 1])):
        for site in (0, n) if n > 1 else (0, 1):
            for d in (1, 2, 3):
                for k in (2, 3):
                    for module in (False, True):
                        for per in (False, True):
                            for bias in (False, True):
                                if n == 3 and (k == 3 or bias) and not big:
                                    continue
                                out.append(conf(f"map-n{n}N{N}s{site}d{d}k{k}{'-mod' if module else ''}{'-per' if per else ''}{'-b' if bias else ''}", h_map, n=n, N=N, path=path, site=site, d=d, k=k, per=per, bias=bias, module=module, cost=n * d * k))
    for n in (1, 2, 3) if big else (1, 2):
        for d in (1, 2, 3):
            for fe in (False, True):
                for bias, fb in ((True, True), (True, False), (False, False)):
                    for module in (False, True):
                        for aslist in (False, True):
                            out.append(conf(f"ti-n{n}d{d}{'-fe' if fe else ''}-{'b' if bias else 'n'}{'f' if fb else 't'}{'-mod' if module else ''}{'-list' if aslist else ''}", h_ti, n=n, d=d, k=2, fe=fe, bias=bias, fb=fb, module=module, aslist=aslist, cost=n * d))
    # larger sizes with few symbolic entries
    big_ = []
    for n, N, path in ((6, 6, None), (7, 9, [8, 1, 3, 2, 4, 6, 5]), (9, 12, [0, 2, 4, 6, 8, 10, 11, 9, 7]), (12, 30, [29, 11, 10, 20, 21, 22, 1, 0, 2, 19, 7, 7]), (16, 16, list(range(15, -1, -1))), (5, 40, [5, 6, 7, 8, 39]), (5, 5, [])):
        for tens in (False, True):
            if tens and not path:
                continue
            for site in (0, n // 2, n):
                for per, par, ad, d in ((False, False, False, 2), (True, True, False, 3), (False, False, True, 2), (True, False, True, 4)):
                    if ad and n > 9:
                        continue
                    nm = f"path-n{n}N{N}-{'none' if path is None else '.'.join(map(str, path)) or 'empty'}{'t' if tens else ''}-s{site}d{d}{'-per' if per else ''}{'-ad' if ad else ''}{'-par' if par else ''}"
                    big_.append(sparse(conf(nm, h_path, n=n, N=N, path=path, as_tensor=tens, site=site, d=d, per=per, par=par, raw=d == 2, adaptive=ad, cost=n), 2 if n < 10 else 1, 12 if n < 10 else 4))
    for n, N, path, site, d, k in ((6, 8, [7, 6, 0, 1, 2, 3], 3, 4, 2), (9, 9, None, 0, 2, 3), (4, 4, None, 4, 11, 2), (12, 12, [], 5, 2, 2)):
        for module in (False, True):
            for per in (False, True):
                big_.append(sparse(conf(f"map-n{n}N{N}s{site}d{d}k{k}{'-mod' if module else ''}{'-per' if per else ''}", h_map, n=n, N=N, path=path, site=site, d=d, k=k, per=per, bias=True, module=module, cost=n * d * k), 1))
    for n, d in ((5, 4), (9, 2), (3, 9)):
        for module in (False, True):
            for aslist in (False, True):
                big_.append(sparse(conf(f"ti-n{n}d{d}{'-mod' if module else ''}{'-list' if aslist else ''}", h_ti, n=n, d=d, k=2, fe=False, bias=True, fb=True, module=module, aslist=aslist, cost=n * d), 1, 4))
    return out + big_ + [strided(c) for c in out[::9]] + evals(out, 23)
