"""Embeddings and their normalisers are exact"""
from math import comb

from .common import *
from .C02 import Coarse, Poly, Tab, table
from torch import nn
from torchmps import ProbMPS, ProbUnifMPS
from torchmps.embeddings import (DataDomain, FixedEmbedding, TrainableEmbedding, init_mlp_embed, onehot_embed,
                                 sincos_embed, trig_embed, unit_interval)
from torchmps.utils import onehot

BOUNDS = {
    "functions": "onehot_embed, utils.onehot, trig_embed, sincos_embed, FixedEmbedding, TrainableEmbedding (tables and polynomials with symbolic coefficients, real and complex), init_mlp_embed, DataDomain, the embed_fun/domain arguments of ProbMPS and ProbUnifMPS",
    "sizes": "embedding dimension 1..4 (5 for trig_embed), 1..4 discrete values, grids of 2..5 points with concrete and symbolic interval ends, the default grid of 1000 points for affine functions of dimension 1..2; data of rank 0..3",
    "values": "every real (complex) embedding vector, coefficient, weight, data value and interval end",
    "shortening": "explored with exact equality (all shapes) and with allclose's own tolerances; in the latter case the shortened form has to agree with the full matrix up to 1e-6 + 1e-3 |entry|",
    "outside": "rounding; the transcendental functions beyond sin^2 + cos^2 = 1; custom MLP activations",
    "larger sizes": "embedding dimension up to 300 (one-hot), 11 (trig), 17 (normalisers), up to 300 values, grids of up to 101 points; with 1..6 symbolic real numbers per tensor, the other entries being fixed",
}
ASSUMPTIONS = ["real arithmetic instead of floating point", "sigmoid is an uninterpreted positive function"]


def full(ctx, lam, d):
    """the matrix a (possibly shortened) normaliser stands for"""
    a = ctx.terms(lam)
    out = np.empty((d, d), dtype=object)
    for i in range(d):
        for j in range(d):
            out[i, j] = a[i, j] if a.ndim == 2 else (T.ZERO if i != j else a[i] if a.ndim == 1 else a[()])
    return out


def outer_sum(vecs, ws, d):
    out = np.empty((d, d), dtype=object)
    for i in range(d):
        for j in range(d):
            out[i, j] = T.csum([T.cmul(w, T.cmul(T.lift(v[i]), T.lift(v[j]).conjugate())) for v, w in zip(vecs, ws)])
    return out


# ------------------------------------------------------------- embedding functions
def h_onehot(ctx, shape, d, how):
    if how == "utils":
        for ls in seqs(shape[0], d):
            z = np.empty((len(ls), d), dtype=object)
            z[...] = T.ZERO
            for i, j in enumerate(ls):
                z[i, j] = T.ONE
            for labels in (list(ls), torch.tensor(ls, dtype=torch.long)):
                ctx.eq("one-hot labels", onehot(labels, d), z)
        return
    x = ctx.ints("x", shape, 0, d - 1)
    out = onehot_embed(x.t, d)
    want = np.empty(tuple(shape) + (d,), dtype=object)
    for i in np.ndindex(*shape):
        for j in range(d):
            want[i + (j,)] = T.ite(T.ceq(T.lift(x.a[i]), T.const(j)), T.ONE, T.ZERO)
    ctx.true("shape", tuple(out.shape) == tuple(shape) + (d,))
    ctx.eq("one-hot", out, want)


def h_trig(ctx, shape, d, alias=False):
    x = ctx.real("x", shape)
    out = sincos_embed(x.t) if alias else trig_embed(x.t) if d == 2 and len(shape) == 1 else trig_embed(x.t, emb_dim=d)
    # the module's own constant pi/2, whatever float it is
    c, s = ctx.terms(torch.cos(x.t * math_pi / 2)), ctx.terms(torch.sin(x.t * math_pi / 2))
    want = np.empty(tuple(shape) + (d,), dtype=object)
    o = ctx.terms(out)
    for i in np.ndindex(*shape):
        for j in range(d):
            w = T.vpow(T.const(comb(d - 1, j)), Fr(1, 2))
            want[i + (j,)] = T.csum([T.vprod([w] + [c[i]] * (d - 1 - j) + [s[i]] * j)])
    ctx.eq("components", out, want)
    ctx.true("shape", tuple(out.shape) == tuple(shape) + (d,))
    nrm = np.empty(tuple(shape), dtype=object)
    for i in np.ndindex(*shape):
        nrm[i] = T.csum([T.cmul(v, v) for v in o[i]])
    one = np.empty(tuple(shape), dtype=object)
    one[...] = T.ONE
    ctx.eq("unit length", nrm, one)


math_pi = 3.141592653589793


# --------------------------------------------------------------------- normalisers
def grid(lo, hi, n):
    lo, hi = T.lift(lo), T.lift(hi)
    st = T.cmul(T.csub(hi, lo), T.const(Fr(1, n - 1)))
    pts = [T.cadd(lo, T.cmul(T.const(i), st)) for i in range(n)]
    ws = [T.cmul(st, T.const(Fr(1, 2) if i in (0, n - 1) else 1)) for i in range(n)]
    return pts, ws


def h_lambda(ctx, kind, dom, d, n, cx, struct="dense", exact=True, lo=0.0, hi=1.0, quad=False, twice=False):
    """kind: fixed / train;  dom: 'disc' (n values), 'cont' (n grid points), 'sym' (symbolic interval ends)"""
    if ctx.sym:
        S.Session.exact_close = exact
    dt = None
    if cx:
        dt = torch.complex64 if torch.get_default_dtype() == torch.float32 else torch.complex128
    if dom == "sym":
        lo = ctx.num("lo", -4, 4)
        w = ctx.num("width", Fr(1, 8), 4)
        hi = lo + w
    D = DataDomain(False, n) if dom == "disc" else DataDomain(True, hi, lo)
    lo_t, hi_t = (getattr(x, "term", x) if not isinstance(x, float) else T.const(Fr(x)) for x in (lo, hi))
    k = 3 if quad else 2

    def value(tab, x):
        if dom == "disc":
            return [tab[x, i] for i in range(d)]
        out = []
        for i in range(d):
            t = [tab[0, i], T.cmul(tab[1, i], x)] + ([T.cmul(tab[2, i], T.cmul(x, x))] if quad else [])
            out.append(T.csum(t))
        return out

    def matrix(tab):
        if dom == "disc":
            return outer_sum([value(tab, i) for i in range(n)], [T.ONE] * n, d)
        pts, ws = grid(lo_t, hi_t, n)
        return outer_sum([value(tab, p) for p in pts], ws, d)

    def check(e, tab, label):
        m = matrix(tab)
        if exact:
            ctx.eq("normaliser" + label, full(ctx, e.lamb_mat, d), m)
        else:
            ctx.close("normaliser" + label, full(ctx, e.lamb_mat, d), m, atol=1e-6, rtol=1e-3)
        ctx.true("dimension", e.emb_dim == d)

    if kind == "fixed":
        if dom == "disc":
            t = table(ctx, struct, n, d, cx)
            f = lambda x: t[x]
        else:
            t = ctx.real("coef", (k, d), cx=cx).t
            f = lambda x: t[0] + x[..., None] * t[1] + (x[..., None] * x[..., None] * t[2] if quad else 0)
        tab = ctx.terms(t)
        e = FixedEmbedding(f, D) if n == 1000 or dom == "disc" else Few(f, D, n)
        ctx.true("no trainable parameters", len(list(e.parameters())) == 0)
    else:
        mod = Tab(n, d, dt) if dom == "disc" else Poly(k, d, dt)
        if dom == "disc" or n == 1000:
            e = TrainableEmbedding(mod, D)
        else:
            e = Coarse(mod, D)
            e.pts = n
        tab = ctx.havoc(mod, "coef.")["w"]
        ps = list(e.parameters())
        ctx.true("the module's parameters are exposed", len(ps) == 1 and ps[0] is mod.w)
        e.make_lambda()
    check(e, tab, "")
    for r in range(2 if twice else 1):
        if twice and r == 1:
            tab = ctx.havoc(mod, "new.")["w"]
        # data of several shapes; using a trainable embedding refreshes its normaliser
        for sh in ((), (2,), (2, 1), (1, 2, 2)) if not r else ((2,),):
            if dom == "disc":
                x = np.empty(sh, dtype=int)
                x.reshape(-1)[...] = [(i * 2 + 1) % n for i in range(x.size)]
                out = e(torch.tensor(x))
            else:
                a = ctx.real(f"x{len(sh)}{r}", sh)
                x, out = a.a, e(a.t)
            want = np.empty(tuple(sh) + (d,), dtype=object)
            for i in np.ndindex(*sh):
                want[i] = vec(*value(tab, x[i]))
            ctx.eq(f"values {len(sh)}", out, want)
            if kind == "train" or not r:
                check(e, tab, f" after use {len(sh)}" + (" with new weights" if r else ""))


class Few(FixedEmbedding):
    """normaliser on a small grid (num_points is an argument of the public API)"""

    def __init__(self, f, dom, pts):
        self.pts = None
        object.__setattr__(self, "_pts", pts)
        super().__init__(f, dom)

    def make_lambda(self, num_points=None):
        super().make_lambda(num_points or self._pts)


# ------------------------------------------------------------------------- the MLP
def h_mlp(ctx, out_dim, layers, hidden, dom, shape):
    D = None if dom is None else DataDomain(*dom)
    kw = {} if D is None else dict(data_domain=D)
    e = init_mlp_embed(out_dim, num_layers=layers, hidden_dims=hidden, **kw)
    ctx.true("trainable embedding", isinstance(e, TrainableEmbedding))
    d = e.domain
    ctx.true("domain", (d is D) if D is not None else (d.continuous and d.min_val == 0 and d.max_val == 1))
    hid = [hidden] * (layers - 1) if isinstance(hidden, int) else list(hidden)
    dims = [1] + hid + [out_dim]
    ps = list(e.named_parameters())
    ctx.true("parameter shapes", [tuple(p.shape) for _, p in ps] == [s for i in range(layers) for s in ((dims[i + 1], dims[i]), (dims[i + 1],))])
    ctx.true("parameters are trainable", all(p.requires_grad for _, p in ps))
    w = list(ctx.havoc(e, "mlp.").values())
    x = ctx.real("x", shape)
    out = e.emb_fun(x.t)
    want = np.empty(tuple(shape) + (out_dim,), dtype=object)
    for i in np.ndindex(*shape):
        v = [x.a[i]]
        for l in range(layers):
            W, b = w[2 * l], w[2 * l + 1]
            v = [S._sigmoid(T.csum([b[o]] + [T.cmul(W[o, j], v[j]) for j in range(len(v))])) for o in range(dims[l + 1])]
        want[i] = vec(*v)
    ctx.eq("values", out, want)


def h_mlp_bad(ctx, layers, hidden):
    ctx.raises("number of hidden dimensions", lambda: init_mlp_embed(2, num_layers=layers, hidden_dims=hidden))


# -------------------------------------------------------------- domains, rejections
def h_domain(ctx):
    lo, hi = ctx.num("lo", -4, 4), ctx.num("hi", -4, 4)
    if ctx.holds(T.vgt(hi.term if ctx.sym else T.lift(hi), lo.term if ctx.sym else T.lift(lo))):
        d = DataDomain(True, hi, lo)
        ctx.true("kept", d.continuous and d.min_val is lo and d.max_val is hi)
    else:
        ctx.raises("empty interval", lambda: DataDomain(True, hi, lo))
    ctx.raises("negative number of values", lambda: DataDomain(False, -1))
    d = DataDomain(False, 3)
    ctx.true("discrete", not d.continuous and d.max_val == 3)
    u = unit_interval
    ctx.true("unit interval", u.continuous and u.min_val == 0 and u.max_val == 1)


class Bad(nn.Module):
    def __init__(self, f):
        super().__init__()
        self.f = f
        self.w = nn.Parameter(torch.zeros(3))

    def forward(self, x):
        return self.f(x[..., 0], self.w)


def h_reject(ctx, kind, dom, how):
    D = DataDomain(False, 3) if dom == "disc" else DataDomain(True, 1.0, 0.0)
    a = ctx.real("a", (3,))
    t = a.t
    shape = {
        "rank1": lambda x, w: w[0] * x,
        "rank3": lambda x, w: (w[0] * x)[..., None, None].expand(*x.shape, 2, 2),
        "short": lambda x, w: (w[0] * x)[..., None].expand(*x.shape, 2)[:-1],
        "long": lambda x, w: torch.cat([(w[0] * x)[..., None].expand(*x.shape, 2)] * 2),
    }[how]
    if kind == "fixed":
        ctx.raises("wrong output shape", lambda: FixedEmbedding(lambda x: shape(x, t), D))
    else:
        e = TrainableEmbedding(Bad(shape), D)
        ctx.raises("wrong output shape", lambda: e.make_lambda())
        ctx.raises("wrong output shape on use", lambda: e(torch.zeros(2).long() if dom == "disc" else torch.zeros(2)))


def h_misc(ctx):
    D = DataDomain(False, 2)
    ctx.raises("a function is not a module", lambda: TrainableEmbedding(lambda x: x, D))
    ctx.raises("not callable", lambda: FixedEmbedding(3, D))
    ctx.raises("not callable", lambda: FixedEmbedding(torch.zeros(2, 2), D))


def h_model(ctx, kind, d, e, how, cx):
    """models accept embeddings of their own dimension only"""
    t = ctx.real("emb", (2, e))
    D = DataDomain(False, 2)
    mk = (lambda **k: ProbMPS(2, d, 2, complex_params=cx, **k)) if kind == "fix" else (lambda **k: ProbUnifMPS(d, 2, complex_params=cx, **k))
    if ctx.sym:
        S.Session.exact_close = "generic"
    f = lambda x: t.t[x]
    if how == "fun":
        build = lambda: mk(embed_fun=f, domain=D)
    elif how == "fixed":
        build = lambda: mk(embed_fun=FixedEmbedding(f, D))
    elif how == "train":
        em = TrainableEmbedding(Tab(2, e), D)
        ctx.havoc(em, "w.")
        em.make_lambda()
        build = lambda: mk(embed_fun=em)
    if how == "nodomain":
        return ctx.raises("a function without a domain", lambda: mk(embed_fun=f))
    if e != d:
        return ctx.raises("wrong dimension", build)
    m = build()
    x = torch.tensor([[0, 1]])
    ctx.eq("the model's embedding", m.embedding(x)[0], ctx.terms(em.emb_module.w) if how == "train" else t.a)


def configs(tier):
    out = []
    big = tier == "thorough"
    for d in (1, 2, 3, 4):
        for sh in ((), (2,), (2, 1), (1, 2, 2), (0,)):
            out.append(conf(f"onehot-d{d}-{len(sh)}{'z' if 0 in sh else ''}", h_onehot, shape=sh, d=d, how="embed"))
        for n in (1, 3):
            out.append(conf(f"onehot-labels-d{d}n{n}", h_onehot, shape=(n,), d=d, how="utils"))
    for d in (1, 2, 3, 4, 5) + ((6, 7) if big else ()):
        for sh in ((), (2,), (1, 2), (2, 1, 1), (0,)):
            out.append(conf(f"trig-d{d}-{len(sh)}{'z' if 0 in sh else ''}", h_trig, shape=sh, d=d, cost=d))
    out.append(conf("sincos", h_trig, shape=(2, 2), d=2, alias=True))
    for kind in ("fixed", "train"):
        for cx in (False, True):
            c = "c" if cx else "r"
            for d in (1, 2, 3) + ((4,) if big else ()):
                for n in (1, 2, 3, 4):
                    # all shortenings under exact equality
                    if n * d <= (6 if not cx else 4) or big and n * d <= 9:
                        out.append(conf(f"{kind}-{c}-disc-d{d}n{n}", h_lambda, kind=kind, dom="disc", d=d, n=n, cx=cx, exact="generic" if cx and d > 1 and not (big and kind == "fixed") else True, twice=kind == "train" and d * n <= 4, cost=d * n * (1 + cx)))
                    # the tolerances of allclose
                    if n <= 2 and d <= 2 and not cx or big and n * d <= 6:
                        out.append(conf(f"{kind}-{c}-disc-d{d}n{n}-tol", h_lambda, kind=kind, dom="disc", d=d, n=n, cx=cx, exact=False, cost=d * n * 2))
                for pts in (2, 3, 5):
                    if d * pts > 6 and (cx or not big) and d > 1:
                        continue
                    for quad in (False, True):
                        if quad and d > 1 + big:
                            continue
                        q = "-quad" if quad else ""
                        out.append(conf(f"{kind}-{c}-cont-d{d}p{pts}{q}", h_lambda, kind=kind, dom="cont", d=d, n=pts, cx=cx, exact="generic" if cx and d > 1 and not (big and kind == "fixed") else True, lo=-1.0, hi=0.5, quad=quad, twice=kind == "train" and d == 1, cost=d * pts * (1 + cx)))
                        if not cx and d <= 2 and pts <= 3 and not (d > 1 and pts > 2):
                            out.append(conf(f"{kind}-{c}-sym-d{d}p{pts}{q}", h_lambda, kind=kind, dom="sym", d=d, n=pts, cx=cx, quad=quad, exact="generic" if d > 1 and not big else True, cost=d * pts * 2))
            for s in ("diag", "scaled"):
                if kind == "fixed":
                    for d in (2, 3):
                        out.append(conf(f"fixed-{c}-{s}-d{d}", h_lambda, kind=kind, dom="disc", d=d, n=d, cx=cx, struct=s, cost=d))
                        if not cx:
                            out.append(conf(f"fixed-{c}-{s}-d{d}-tol", h_lambda, kind=kind, dom="disc", d=d, n=d, cx=cx, struct=s, exact=False, cost=d))
            out.append(conf(f"{kind}-{c}-default-d1", h_lambda, kind=kind, dom="cont", d=1, n=1000, cx=cx, lo=0.0, hi=1.0, cost=20))
        out.append(conf(f"{kind}-r-default-d2", h_lambda, kind=kind, dom="cont", d=2, n=1000, cx=False, lo=-1.0, hi=2.0, exact="generic" if kind == "train" and not big else True, cost=30))
    for o, l, hid, dom in ((2, 2, [2], None), (1, 1, [], None), (2, 3, [1, 2], (True, 3.0, -1.0)), (2, 3, 2, None), (3, 2, 1, (False, 3)), (2, 1, 5, None)):
        for sh in ((2,), (1, 2), ()):
            out.append(conf(f"mlp-{o}-{l}-{hid}-{len(sh)}", h_mlp, out_dim=o, layers=l, hidden=hid, dom=dom, shape=sh, cost=l))
    out.append(conf("mlp-bad-0", h_mlp_bad, layers=2, hidden=[]))
    out.append(conf("mlp-bad-1", h_mlp_bad, layers=2, hidden=[2, 2]))
    out.append(conf("domain", h_domain))
    out.append(conf("misc", h_misc))
    for kind in ("fixed", "train"):
        for dom in ("disc", "cont"):
            for how in ("rank1", "rank3", "short", "long"):
                out.append(conf(f"reject-{kind}-{dom}-{how}", h_reject, kind=kind, dom=dom, how=how))
    for kind in ("fix", "uni"):
        for cx in (False, True):
            for d in (1, 2, 3):
                for e in (1, 2, 3, 4):
                    for how in ("fun", "fixed", "train"):
                        out.append(conf(f"model-{kind}-{'c' if cx else 'r'}-{how}-d{d}e{e}", h_model, kind=kind, d=d, e=e, how=how, cx=cx))
            out.append(conf(f"model-{kind}-{'c' if cx else 'r'}-nodomain", h_model, kind=kind, d=2, e=2, how="nodomain", cx=cx))
    # larger sizes with few symbolic entries
    for d, sh in ((7, (5, 3)), (16, (9,)), (33, (2,)), (300, (2,)), (3, (40, 3)), (5, (2, 3, 2, 2))):
        out.append(sparse(conf(f"onehot-d{d}-{'x'.join(map(str, sh))}", h_onehot, shape=sh, d=d, how="embed", cost=50), 6))
    for d, sh in ((8, (2,)), (11, (1,)), (3, (17, 2)), (2, (40,)), (6, (2, 3))):
        out.append(sparse(conf(f"trig-d{d}-{'x'.join(map(str, sh))}", h_trig, shape=sh, d=d, cost=50), 2))
    for kind in ("fixed", "train"):
        for cx in (False, True):
            c = "c" if cx else "r"
            for d, n in ((5, 5), (4, 9), (9, 4), (2, 40), (17, 17), (2, 300)):
                if d * n < 200 or not cx:
                    out.append(sparse(conf(f"{kind}-{c}-disc-d{d}n{n}", h_lambda, kind=kind, dom="disc", d=d, n=n, cx=cx, exact="generic", cost=d * n), 4))
            for d, n in ((5, 7), (2, 33), (8, 3), (3, 100), (2, 101)):
                for quad in (False, True):
                    if d * n < 200 or not cx:
                        out.append(sparse(conf(f"{kind}-{c}-cont-d{d}p{n}{'-quad' if quad else ''}", h_lambda, kind=kind, dom="cont", d=d, n=n, cx=cx, exact="generic", lo=-1.0, hi=0.5, quad=quad, cost=d * n), 3))
    return out + evals(out, 7)
