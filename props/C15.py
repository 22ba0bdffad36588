"""Initialisation: mean and noise of every entry, for all random draws"""
import math
import warnings

from .common import *
from torchmps import MPS, TI_MPS, ProbMPS, ProbUnifMPS
from torchmps.mps_base import near_eye_init, normal_init
from torchmps.utils import init_tensor

BOUNDS = {
    "shapes": "cores with 1..3 inputs, sites and bond dimensions 1..4, and up to 9 for some (square; rectangular for single cores and init_tensor)",
    "draws": "every value of every standard normal draw and of every uniform draw; the standard deviation is symbolic where it is an argument",
    "models": "input_dim / seq_len 1..3, bond_dim 1..3, output_dim 1..3, real and complex",
    "outside": "the quality of the random number generator; rounding of constant factors (relative 1e-5)",
}
ASSUMPTIONS = [
    "randn / rand return independent standard normal and uniform draws, each represented by a free variable",
    "real arithmetic instead of floating point",
]


def law(ctx, make, mean, std, phases=False, rows=None, label="", exact=True):
    """Every entry of the tensor made by make() is mean + std * (own standard normal),
    times a random phase of its own: the tensor is affine in the draws, with the given
    value at zero and a Jacobian J with J J^T = std^2; std: number or term, per entry.

    rows: indices that share their normal draws (edge vectors), as index of the owner"""
    mean = arr(mean)
    n = mean.size
    z, cnt = ctx.drawing(lambda k, i: 0, make)
    zt = ctx.terms(z).reshape(-1)
    eq = (lambda l, a, b: ctx.eq(label + l, a, b)) if exact else (lambda l, a, b: ctx.close(label + l, a, b, atol=1e-12, rtol=1e-5))
    ctx.true(label + "shape", tuple(z.shape) == tuple(mean.shape))
    eq("mean", zt, S.ew(T.lift, mean.reshape(-1)))
    nn, nu = cnt.get("normal", 0), cnt.get("unif", 0)
    own = n if rows is None else len(set(rows))
    ctx.true(label + "number of draws", nn >= own and (nu >= n if phases else True))
    # Jacobian from unit draws without phases
    J = np.empty((n, nn), dtype=object)
    for j in range(nn):
        u, _ = ctx.drawing(lambda k, i: int(k == "normal" and i == j), make)
        J[:, j] = S.ew(T.csub, ctx.terms(u).reshape(-1), zt)
    var = T.cmul(T.lift(std), T.lift(std))
    own_of = list(range(n)) if rows is None else rows
    C = np.empty((n, n), dtype=object)
    W = np.empty((n, n), dtype=object)
    for a in range(n):
        for b in range(n):
            C[a, b] = T.csum([T.cmul(J[a, j], conj(J[b, j])) for j in range(nn)]) if nn else T.ZERO
            W[a, b] = var if own_of[a] == own_of[b] else T.ZERO
    eq("covariance", C.reshape(-1), W.reshape(-1))
    # affine in all draws
    N = ctx.real("normal", (nn,)).a
    U = ctx.real("unif", (max(nu, 1),), lo=0, hi=1).a
    zero = lambda k, i: N[i] if k == "normal" else 0
    x0 = ctx.terms(ctx.drawing(zero, make)[0]).reshape(-1)
    full, _ = ctx.drawing(lambda k, i: N[i] if k == "normal" else U[i], make)
    ref = np.empty(n, dtype=object)
    hits = [[] for _ in range(n)]
    if phases:
        for k in range(nu):
            xk = ctx.terms(ctx.drawing(lambda q, i: N[i] if q == "normal" else (U[i] if i == k else 0), make)[0]).reshape(-1)
            for e in range(n):
                if not same(xk[e], x0[e]):
                    hits[e].append(k)
        # (values of a single replay need not reveal every phase)
        ctx.true(label + "one phase per entry", not ctx.sym or (all(len(h) == 1 for h in hits) and len({h[0] for h in hits}) == n))
    for e in range(n):
        d = T.csum([T.cmul(J[e, j], T.lift(N[j])) for j in range(nn)]) if nn else T.ZERO
        for k in hits[e]:
            d = T.cmul(d, T.cexp(T.CV(T.ZERO, T.cmul(T.const(2 * math.pi), U[k]))))
        ref[e] = T.cadd(T.lift(mean.reshape(-1)[e]), d)
    # the mean is compared above, possibly up to rounding
    base = S.ew(T.csub, S.ew(T.cadd, ref, zt), S.ew(T.lift, mean.reshape(-1)))
    got = ctx.terms(full).reshape(-1)
    if exact:
        ctx.eq(label + "noise", got, base)
    else:
        ctx.close(label + "noise", got, base, atol=1e-9, rtol=1e-5)
    return full


def conj(a):
    return T.cplx(a.real, T.csub(T.ZERO, a.imag)) if isinstance(a, T.CV) else a


def same(a, b):
    a, b = T.lift(a), T.lift(b)
    if isinstance(a, T.CV) or isinstance(b, T.CV):
        return a.real is b.real and a.imag is b.imag or (a.real == b.real and a.imag == b.imag)
    return a is b or a == b


def eyes(shape, dims=(-2, -1), k=None):
    """identity matrices (k ones, if given) in the two given modes"""
    out = np.zeros(shape, dtype=object)
    for p in np.ndindex(*shape):
        i, j = p[dims[0]], p[dims[1]]
        out[p] = T.ONE if i == j and (k is None or i < k) else T.ZERO
    return out


def quiet(fn):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn()


def h_init(ctx, shape, bonds, how, k, sym, default):
    std = ctx.num("std", lo=0) if sym else 1e-9
    if how == "random_zero":
        mean = np.full(shape, T.ZERO, dtype=object)
    else:
        d = (bonds.index("l"), bonds.index("r"))
        kk = None if how == "random_eye" else min(k, shape[d[0]], shape[d[1]])
        mean = eyes(shape, d, kk)
    method = how if default else ((how, std, k) if how == "min_random_eye" else (how, std))
    make = lambda: init_tensor(shape=list(shape), bond_str=bonds, init_method=method)
    law(ctx, make, mean, ctx.scalar(std) if sym else T.const(1e-9))


def h_core(ctx, which, shape, cx, sym, args):
    D = shape[-1]
    f = near_eye_init if which == "eye" else normal_init
    a = ctx.num("scale", lo=0) if sym else None
    root = math.isqrt(shape[-1] * shape[-2])
    exact = root * root == shape[-1] * shape[-2]
    kw = {"is_complex": cx} if cx else {}
    if sym:
        kw["noise" if which == "eye" else "rel_std"] = a
    make = lambda: quiet(lambda: f(tuple(shape), **kw))
    val = ctx.scalar(a) if sym else T.const(1e-3 if which == "eye" else 1.0)
    if which == "eye":
        std = T.cmul(val, T.const(Fr(1, root) if exact else 1 / math.sqrt(shape[-1] * shape[-2])))
        mean = eyes(shape)
    else:
        std = T.cmul(val, T.const(Fr(1, D)))
        mean = np.full(shape, T.ZERO, dtype=object)
    out = law(ctx, make, mean, std, phases=cx, exact=sym and (exact or which != "eye") and D in (1, 2, 4))
    ctx.true("complex exactly when requested", out.is_complex() == cx)


def h_core_bad(ctx, which):
    f = near_eye_init if which == "eye" else normal_init
    for shp in ((2, 2, 2, 3), (3, 1, 1, 2), (2, 3, 2, 4, 1)):
        ctx.raises(f"batches of non-square cores {shp}", lambda: quiet(lambda: f(shp)), ValueError)
    for shp in ((2, 2), (3,), ()):
        ctx.raises(f"missing dimensions {shp}", lambda: quiet(lambda: f(shp)))
    for shp in ((2, 2, 3), (1, 2, 2, 3)):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            out = f(shp)
        ctx.true("warns about non-square cores", len(w) >= 1)
        ctx.true("shape", tuple(out.shape) == shp)
    law(ctx, lambda: quiet(lambda: f((2, 2, 2))), eyes((2, 2, 2)) if which == "eye" else np.full((2, 2, 2), T.ZERO, dtype=object), T.const(0.0005 if which == "eye" else 0.5), exact=False)


def h_init_bad(ctx):
    for nm, a in (
        ("unknown method", ([2, 2], "lr", "random_one")), ("unknown method in a tuple", ([2, 2], "lr", ("eye", 1e-3))), ("bond string too short", ([2, 2], "l", "random_eye")), ("bond string too long", ([2, 2], "lri", "random_zero")),
        ("repeated index", ([2, 2, 2], "lrr", "random_eye")), ("no right bond", ([2, 2], "li", "random_eye")), ("no left bond", ([2, 2], "ri", ("min_random_eye", 1e-3, 1))),
    ):
        ctx.raises(nm, lambda: init_tensor(shape=a[0], bond_str=a[1], init_method=a[2]))
    law(ctx, lambda: init_tensor(shape=[2, 2], bond_str="lr", init_method=("random_eye", 0.5)), eyes((2, 2)), T.const(0.5))


def param(m, n):
    return dict(m.named_parameters())[n]


def h_prob(ctx, kind, L, d, D, cx, bias, how):
    kw = dict(complex_params=cx, use_bias=bias)
    if how:
        kw["init_method"] = how
    mk = (lambda: ProbMPS(L, d, D, **kw)) if kind == "prob" else (lambda: ProbUnifMPS(d, D, **kw))
    m = mk()
    shape = (L, d, D, D) if kind == "prob" else (d, D, D)
    want = {"core_tensors": shape, "edge_vecs": (2, D)}
    if bias:
        want["bias_mat"] = (D, D)
    ctx.true("parameters", {n: tuple(p.shape) for n, p in m.named_parameters()} == want)
    ctx.true("dtype", all(p.dtype.is_complex == cx for n, p in m.named_parameters()))
    eye = how != "normal"
    std = T.const(1e-3 / D if eye else 1 / D)
    # draws other than those of the tensor are set to zero by restricting to its own
    mean = eyes(shape) if eye else np.full(shape, T.ZERO, dtype=object)
    part(ctx, mk, "core_tensors", mean, std, cx)
    rows = [i % D for i in range(2 * D)]
    part(ctx, mk, "edge_vecs", np.full((2, D), T.ZERO, dtype=object), T.const(1 / math.sqrt(D)), cx, rows)
    if bias:
        N = [ctx.real("n", (200,)).a, ctx.real("u", (200,), lo=0, hi=1).a]
        full, _ = ctx.drawing(lambda k, i: N[0][i] if k == "normal" else N[1][i], mk)
        ctx.eq("bias starts at zero", param(full, "bias_mat"), np.full((D, D), T.ZERO, dtype=object))
    ctx.true("no embedding", m.embedding is None)
    ctx.true("attributes", (m.bond_dim == D or kind != "prob") and m.complex_params == cx and m.use_bias == bias)
    # equal magnitudes
    N = [ctx.real("n", (200,)).a, ctx.real("u", (200,), lo=0, hi=1).a]
    full, _ = ctx.drawing(lambda k, i: N[0][i] if k == "normal" else N[1][i], mk)
    e = ctx.terms(param(full, "edge_vecs"))
    ctx.eq("edge vectors have equal magnitudes", S.ew(T.cabs2, e[0]), S.ew(T.cabs2, e[1]))
    if not cx:
        ctx.eq("edge vectors are equal", e[0], e[1])


def part(ctx, mk, name, mean, std, cx=False, rows=None):
    """law of one parameter; draws that do not influence it are filtered out"""
    n = arr(mean).size
    z, cnt = ctx.drawing(lambda k, i: 0, mk)
    used = {"normal": [], "unif": []}
    base = ctx.terms(param(z, name)).reshape(-1)
    for j in range(cnt.get("normal", 0)):
        t = ctx.terms(param(ctx.drawing(lambda k, i: int(k == "normal" and i == j), mk)[0], name)).reshape(-1)
        if any(not same(a, b) for a, b in zip(t, base)):
            used["normal"].append(j)
    one = ctx.terms(param(ctx.drawing(lambda k, i: int(k == "normal"), mk)[0], name)).reshape(-1)
    for j in range(cnt.get("unif", 0)):
        t = ctx.terms(param(ctx.drawing(lambda k, i: 1 if k == "normal" else (0.25 if i == j else 0), mk)[0], name)).reshape(-1)
        if any(not same(a, b) for a, b in zip(t, one)):
            used["unif"].append(j)
    plan = {}

    def make():
        outer, count = ctx.plan, ctx.planned
        back = {k: {j: i for i, j in enumerate(v)} for k, v in used.items()}
        inner = lambda k, i: outer(k, back[k][i]) if i in back[k] else 0
        r, _ = ctx.drawing(inner, mk)
        ctx.plan, ctx.planned = outer, {k: len(v) for k, v in used.items()}
        return param(r, name).detach()

    law(ctx, make, mean, std, phases=cx, rows=rows, label=name + ": ", exact=False)


def h_mps(ctx, n, o, D, d, site, bias, std):
    s = None if site is None else site
    kw = dict(feature_dim=d, use_bias=bias)
    if s is not None:
        kw["label_site"] = s
    else:
        s = n // 2
    if std is not None:
        kw["init_std"] = std
    mk = lambda: MPS(n, o, D, **kw)
    m = mk()
    shapes = {k: tuple(p.shape) for k, p in m.named_parameters() if p.numel()}
    pre, want, k, means = "linear_region.module_list.", {}, 0, {}
    for cnt in (s, None, n - s):
        if cnt == 0:
            continue
        if cnt is None:
            want[f"{pre}{k}.tensor"] = (o, D, D)
            means[f"{pre}{k}.tensor"] = eyes((o, D, D))
        else:
            want[f"{pre}{k}.tensor"] = (cnt, D, D, d)
            means[f"{pre}{k}.tensor"] = np.full((cnt, D, D, d), T.ZERO, dtype=object)
            if bias:
                want[f"{pre}{k}.bias_mat"] = (1, D, D)
        k += 1
    ctx.true("parameters", shapes == want)
    for nm, mean in means.items():
        part(ctx, mk, nm, mean, T.const(1e-9 if std is None else std))
    N = ctx.real("n", (300,)).a
    full, _ = ctx.drawing(lambda k, i: N[i], mk)
    for nm, shp in want.items():
        if nm.endswith("bias_mat"):
            ctx.eq("bias is the identity", param(full, nm), eyes(shp))
    ctx.true("attributes", (len(m), m.output_dim, m.bond_dim, m.feature_dim, m.label_site) == (n, o, D, d, s))
    ctx.true("number of cores", m.core_len() == n + 1)


def h_adapt(ctx, n, o, D, d, site, periodic):
    """merged cores of a new adaptive model (without noise): truncated identities"""
    m, _ = ctx.drawing(lambda k, i: 0, lambda: MPS(n, o, D, feature_dim=d, label_site=site, adaptive_mode=True, periodic_bc=periodic))
    ctx.true("no bias", not m.use_bias and all(not k.endswith("bias_mat") or p.numel() == 0 for k, p in m.named_parameters()))
    k = min(o, D)
    x = ctx.real("x", (2, n))
    out = m(x.t)
    ref = np.empty((2, o), dtype=object)
    for b in range(2):
        # every transition matrix is x + (1 - x) = 1 times the truncated identity
        ref[b] = vec(*[T.const(k) if periodic else T.ONE] * o)
    ctx.eq("initial output", out, ref)
    for nm, p in m.named_parameters():
        if not p.numel() or "module_list_" not in nm:
            continue
        r = p.ndim
        dims = {5: (1, 2), 4: (1, 2), 3: (1, 2) if p.shape[0] == o and nm_is_out(m, nm) else (0, 1)}[r]
        ctx.eq("merged cores start as truncated identities", p, eyes(tuple(p.shape), dims, k))
    ctx.true("bond list", m.bond_list.tolist() == [D if periodic else 1] + [D] * n + [D if periodic else 1])
    ctx.true("singular values", m.sv_list.shape == (n + 2, D) and m.sv_list.tolist() == [[-1.0] * D] * (n + 2))


def nm_is_out(m, nm):
    mod = m
    for a in nm.split(".")[:-1]:
        mod = getattr(mod, a)
    return type(mod).__name__ == "OutputSite"


def h_ti(ctx, o, D, d, fe, bias, fb, std):
    kw = dict(feature_dim=d, fixed_ends=fe, use_bias=bias, fixed_bias=fb)
    if std is not None:
        kw["init_std"] = std
    mk = lambda: TI_MPS(o, D, **kw)
    m = mk()
    want = {"core_tensor": (D, D, d)}
    buf = {}
    (buf if fe else want)["init_vector.vec"] = (D,)
    (buf if fe else want)["terminal_mat.mat"] = (D, o)
    if bias:
        (buf if fb else want)["bias_mat"] = (D, D)
    ctx.true("parameters", {k: tuple(p.shape) for k, p in m.named_parameters()} == want)
    ctx.true("buffers", {k: tuple(p.shape) for k, p in m.named_buffers()} == buf)
    st = T.const(1e-9 if std is None else std)
    part(ctx, mk, "core_tensor", np.full((D, D, d), T.ZERO, dtype=object), st)
    N = ctx.real("n", (200,)).a
    full, _ = ctx.drawing(lambda k, i: N[i], mk)
    sd = {**dict(full.named_parameters()), **dict(full.named_buffers())}
    ctx.eq("initial vector of ones", sd["init_vector.vec"], np.full((D,), T.ONE, dtype=object))
    if fe:
        ctx.eq("terminal identity", sd["terminal_mat.mat"], eyes((D, o)))
    else:
        part(ctx, mk, "terminal_mat.mat", eyes((D, o)), T.const(1 / D))
    if bias and fb:
        ctx.eq("identity bias", sd["bias_mat"], eyes((D, D)))
    elif bias:
        part(ctx, mk, "bias_mat", eyes((D, D)), st)


def configs(tier):
    out = []
    big = tier == "thorough"
    shapes = [((1, 1), "lr"), ((2, 2), "lr"), ((2, 3), "lr"), ((3, 2), "rl"), ((2, 2, 2), "lri"), ((2, 3, 2), "olr"), ((1, 2, 2, 2), "slri"), ((2, 2, 1, 2), "slri"), ((2, 3, 2), "lir"), ((2, 2, 3), "irl"), ((0, 2, 2, 2), "slri"), ((1, 4, 4), "olr")]
    if big:
        shapes += [((3, 3, 3), "olr"), ((2, 2, 2, 3), "slri"), ((4, 3, 2), "ril"), ((2, 4, 4), "olr")]
    for shp, b in shapes:
        for how in ("random_eye", "random_zero", "min_random_eye"):
            for k in (1, 2, 3, 7) if how == "min_random_eye" else (0,):
                for sym, dflt in ((True, False), (False, True)):
                    if dflt and (how == "min_random_eye" or sum(shp) > 6):
                        continue
                    nm = f"init-{how}{k or ''}-{b}-{'x'.join(map(str, shp))}{'-default' if dflt else ''}"
                    out.append(conf(nm, h_init, shape=shp, bonds=b, how=how, k=k, sym=sym, default=dflt, cost=int(np.prod(shp))))
    # larger sizes
    for shp, b in (((5, 7), "lr"), ((9, 4), "rl"), ((3, 6, 5), "olr"), ((3, 3, 5, 2), "slri"), ((7, 3, 3, 2), "slri"), ((3, 8, 4), "lir"), ((9, 9), "lr")):
        for how in ("random_eye", "random_zero", "min_random_eye"):
            out.append(conf(f"init-{how}-{b}-{'x'.join(map(str, shp))}", h_init, shape=shp, bonds=b, how=how, k=3 if how == "min_random_eye" else 0, sym=True, default=False, cost=30))
    out.append(conf("init-bad", h_init_bad))
    cores = [(1, 1, 1), (2, 2, 2), (2, 1, 1), (3, 2, 2), (2, 1, 2, 2), (1, 2, 3, 3), (1, 4, 4), (2, 2, 2, 2), (2, 1, 4), (1, 1, 4, 1), (1, 2, 3), (1, 1, 2, 1, 1)]
    if big:
        cores += [(2, 3, 3), (3, 2, 2, 2), (2, 4, 4), (1, 2, 2, 8)]
    for shp in cores:
        for fn in ("eye", "normal"):
            for cx in (False, True):
                for sym in (True, False):
                    if not sym and int(np.prod(shp)) > 12:
                        continue
                    out.append(conf(f"core-{fn}-{'x'.join(map(str, shp))}{'-cx' if cx else ''}{'' if sym else '-default'}", h_core, which=fn, shape=shp, cx=cx, sym=sym, args=None, cost=int(np.prod(shp)) * (3 if cx else 1)))
    for shp in ((1, 5, 5), (5, 1, 2, 2), (2, 7, 3)):
        for fn in ("eye", "normal"):
            for cx in (False, True):
                out.append(conf(f"core-{fn}-{'x'.join(map(str, shp))}{'-cx' if cx else ''}", h_core, which=fn, shape=shp, cx=cx, sym=True, args=None, cost=60))
    for fn in ("eye", "normal"):
        out.append(conf(f"core-bad-{fn}", h_core_bad, which=fn))
    for kind in ("prob", "unif"):
        for L, d, D in ((1, 1, 1), (2, 2, 1), (1, 2, 2), (2, 1, 2), (1, 1, 3)) + (((3, 2, 2), (2, 2, 3), (1, 3, 4)) if big else ()):
            if kind == "unif" and L > 1:
                continue
            for cx in (False, True):
                for bias in (False, True):
                    for how in (None, "near_eye", "normal"):
                        if how == "near_eye" and bias:
                            continue
                        out.append(conf(f"{kind}-L{L}d{d}D{D}{'-cx' if cx else ''}{'-bias' if bias else ''}-{how}", h_prob, kind=kind, L=L, d=d, D=D, cx=cx, bias=bias, how=how, cost=30))
    for n, o, D, d in ((1, 1, 1, 2), (1, 2, 2, 2), (2, 1, 2, 2), (3, 2, 1, 2), (2, 2, 2, 1), (2, 1, 2, 3)) + (((3, 2, 2, 2), (2, 3, 3, 2)) if big else ()):
        for site in [None] + list(range(n + 1)):
            for bias in (True, False):
                for std in (None, 0.25):
                    if std is None and n * D * D * d > 8:
                        continue
                    out.append(conf(f"mps-n{n}o{o}D{D}d{d}s{site}{'-bias' if bias else ''}-{std}", h_mps, n=n, o=o, D=D, d=d, site=site, bias=bias, std=std, cost=20))
    for n, o, D, d in ((6, 3, 2, 2), (9, 2, 2, 2), (4, 5, 3, 4), (1, 2, 7, 2), (2, 9, 3, 2)):
        for site in sorted({0, n // 2, n}):
            for bias in (True, False):
                out.append(conf(f"mps-n{n}o{o}D{D}d{d}s{site}{'-bias' if bias else ''}-0.25", h_mps, n=n, o=o, D=D, d=d, site=site, bias=bias, std=0.25, cost=60))
    for n, o, D, d in ((1, 1, 1, 2), (2, 2, 2, 2), (3, 1, 2, 2), (4, 2, 3, 2), (2, 3, 2, 2), (5, 2, 2, 2)):
        for site in range(n + 1):
            for per in (False, True):
                out.append(conf(f"adapt-n{n}o{o}D{D}s{site}{'-per' if per else ''}", h_adapt, n=n, o=o, D=D, d=d, site=site, periodic=per, cost=n * D))
    for o, D, d in ((5, 6, 3), (10, 4, 2), (2, 7, 2)):
        for bias, fb in ((True, True), (True, False), (False, True)):
            out.append(conf(f"ti-o{o}D{D}d{d}-{'b' if bias else 'n'}{'f' if fb else 't'}-0.5", h_ti, o=o, D=D, d=d, fe=False, bias=bias, fb=fb, std=0.5, cost=60))
    for o, D, d in ((1, 1, 2), (2, 2, 2), (1, 2, 1), (2, 3, 1), (3, 2, 2)):
        for fe in (False, True):
            if fe and o > D:
                continue
            for bias, fb in ((True, True), (True, False), (False, True)):
                for std in (None, 0.5):
                    out.append(conf(f"ti-o{o}D{D}d{d}{'-fe' if fe else ''}-{'b' if bias else 'n'}{'f' if fb else 't'}-{std}", h_ti, o=o, D=D, d=d, fe=fe, bias=bias, fb=fb, std=std, cost=20))
    return out
