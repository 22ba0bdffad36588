"""Normalisation: probabilities sum to one over the embedding's domain"""
from .common import *
from torch import nn
from torchmps import ProbMPS, ProbUnifMPS
from torchmps.embeddings import DataDomain, FixedEmbedding, TrainableEmbedding, onehot_embed, trig_embed

BOUNDS = {
    "seq_len": "1..3 (grid sums: all input sequences)", "input_dim": "1..3", "bond_dim": "1..2 (3 thorough)",
    "embeddings": "none, tables of 1..3 symbolic vectors (dense, diagonal, multiples of one-hot, complex), polynomial functions of a real variable with symbolic coefficients on grids of 2..4 points, trainable modules with symbolic weights",
    "values": "every real (complex) value of cores, edge vectors, bias, embedding vectors and weights",
    "outside": "the default of 1000 grid points (C18 checks the normaliser at that resolution); rounding; torch.allclose in make_lambda is read as exact equality",
    "larger sizes": "seq_len 4..8, input_dim up to 7, bond_dim up to 6, 2..5 embedding vectors; with 1..6 symbolic real numbers per tensor, the other entries being fixed",
}
ASSUMPTIONS = [
    "real arithmetic instead of floating point; allclose(x, y) in make_lambda holds only if x = y; embeddings on a grid and larger models: dense normalisers are not close to diagonal ones",
    "the norm and the partial transfer traces it is computed from are non-zero",
]


class Tab(nn.Module):
    """trainable vectors for the values 0..n-1"""

    def __init__(self, n, d, dtype=None):
        super().__init__()
        self.w = nn.Parameter(torch.zeros(n, d, dtype=dtype or torch.get_default_dtype()))

    def forward(self, data):
        return self.w[data[..., 0]]


class Poly(nn.Module):
    """trainable affine or quadratic functions of a real number"""

    def __init__(self, k, d, dtype=None):
        super().__init__()
        self.w = nn.Parameter(torch.zeros(k, d, dtype=dtype or torch.get_default_dtype()))

    def forward(self, data):
        out = self.w[0] + data * self.w[1]
        if len(self.w) > 2:
            out = out + data * data * self.w[2]
        return out


class Coarse(TrainableEmbedding):
    """normaliser on a small grid (num_points is an argument of the public API)"""

    pts = 3

    def make_lambda(self, num_points=None):
        super().make_lambda(num_points or self.pts)


def table(ctx, kind, n, d, cx):
    """terms of an n x d table of embedding vectors"""
    dt = (torch.complex64 if torch.get_default_dtype() == torch.float32 else torch.complex128) if cx else None
    if kind == "dense":
        x = ctx.real("emb", (n, d), cx=cx)
        return x.t
    z = np.empty((n, d), dtype=object)
    z[:] = T.ZERO
    s = ctx.real("emb", (n,), cx=cx)
    for i in range(n):
        z[i, i] = s.a[i] if kind == "diag" else s.a[0]
    return ctx.tensor(z, dt)


def make(ctx, kind, L, d, D, cx, bias, emb, n, ecx, pts, lo, hi):
    kw, dom, fin = {}, None, None
    if emb == "none":
        n = d
    elif emb in ("dense", "diag", "scaled"):
        t = table(ctx, emb, n, d, ecx)
        kw = dict(embed_fun=lambda x: t[x], domain=DataDomain(False, n))
    elif emb == "fixed":
        t = table(ctx, "dense", n, d, ecx)
        kw = dict(embed_fun=FixedEmbedding(lambda x: t[x], DataDomain(False, n)))
    elif emb == "onehot":
        kw = dict(embed_fun=lambda x: onehot_embed(x, d), domain=DataDomain(False, d))
        n = d
    elif emb == "train":
        kw = dict(embed_fun=TrainableEmbedding(Tab(n, d), DataDomain(False, n)))
    elif emb in ("poly", "trig"):
        c = ctx.real("emb", (2, d), cx=ecx)
        f = (lambda x: c.t[0] + x[..., None] * c.t[1]) if emb == "poly" else (lambda x: trig_embed(x, d))
        dom = DataDomain(True, hi, lo)
        kw = dict(embed_fun=f, domain=dom)
        fin = lambda m: m.embedding.make_lambda(num_points=pts)
    elif emb in ("trainpoly", "trainquad"):
        dom = DataDomain(True, hi, lo)
        e = Coarse(Poly(2 if emb == "trainpoly" else 3, d), dom)
        e.pts = pts
        kw = dict(embed_fun=e)
    if kind == "fix":
        m = ProbMPS(L, d, D, complex_params=cx, use_bias=bias, **kw)
    else:
        m = ProbUnifMPS(d, D, complex_params=cx, use_bias=bias, **kw)
    if fin:
        fin(m)
    if dom is None:
        xs = torch.tensor(seqs(L, n))
        ws = [T.ONE] * len(xs)
    else:
        grid = [Fr(lo) + (Fr(hi) - Fr(lo)) * Fr(i, pts - 1) for i in range(pts)]
        h = (Fr(hi) - Fr(lo)) / (pts - 1)
        w1 = [h / 2 if i in (0, pts - 1) else h for i in range(pts)]
        idx = seqs(L, pts)
        z = np.empty((len(idx), L), dtype=object)
        for a, s in enumerate(idx):
            for b, i in enumerate(s):
                z[a, b] = T.const(grid[i])
        xs = ctx.tensor(z)
        ws = [T.const(math_prod(w1[i] for i in s)) for s in idx]
    return m, xs, ws


def math_prod(it):
    out = Fr(1)
    for x in it:
        out *= x
    return out


def h(ctx, kind, L, d, D, cx, bias, emb, n=2, ecx=False, pts=3, lo=0, hi=1, ev={}, twice=False, direct=False, exact=False):
    ctx.domain("div", "log", "logz")
    if ctx.sym:
        # exact: both answers of allclose are explored; generic: only embeddings whose
        # normaliser is dense unless its structure makes it diagonal
        S.Session.exact_close = True if exact else "generic"
    m, xs, ws = make(ctx, kind, L, d, D, cx, bias, emb, n, ecx, pts, lo, hi)
    ctx.havoc(m)

    def check(label):
        lp = ctx.terms(m(xs, **ev))
        ctx.true("one value per sequence", lp.shape == (len(ws),))
        if direct:
            tot = T.csum([T.cmul(w, T.vexp(x)) for w, x in zip(ws, lp)])
            return ctx.eq(label, arr(tot), arr(T.ONE))
        # the same multiplied by the model's own norm, which is easier to decide
        lz = ctx.scalar(m.log_norm() if kind == "fix" else m.log_norm(L))
        tot = T.csum([T.cmul(w, T.vexp(T.vadd(x, lz))) for w, x in zip(ws, lp)])
        ctx.eq(label, arr(tot), arr(T.vexp(lz)))

    check("sum of probabilities")
    if twice:
        # the parameters change, as in training
        ctx.havoc(m, "new.")
        check("sum of probabilities after a parameter change")
        lz = m.log_norm() if kind == "fix" else m.log_norm(L)
        ctx.havoc(m, "third.")
        # log_norm first, then the evaluation of a fresh call
        lz = m.log_norm() if kind == "fix" else m.log_norm(L)
        lp = ctx.terms(m(xs, **ev))
        lz2 = m.log_norm() if kind == "fix" else m.log_norm(L)
        ctx.eq("log norm before and after evaluation", exp(ctx.terms(lz)), exp(ctx.terms(lz2)))


EV = {"ser": {}, "par": {"parallel_eval": True}, "slim": {"slim_eval": True}}


def configs(tier):
    out = []
    big = tier == "thorough"

    def add(name, **k):
        c = k["L"] * k["d"] * k["D"] * (1 + 3 * k["cx"])
        out.append(conf(name, h, cost=c, **k))

    for kind in ("fix", "uni"):
        for cx in (False, True):
            for bias in (False, True):
                t = f"{kind}-{'c' if cx else 'r'}{'b' if bias else ''}"
                sizes = [(1, 2, 2), (2, 2, 1), (2, 2, 2)] + ([(3, 2, 1), (1, 3, 2)] if not cx else [])
                if big:
                    sizes += [(3, 2, 2), (1, 2, 3), (2, 3, 2)] if not cx else []
                for L, d, D in sizes:
                    if cx and bias and (L, d, D) == (2, 2, 2) and not big:
                        continue
                    s = f"{t}-L{L}d{d}D{D}"
                    big_ = L * D >= 4
                    for e in EV:
                        if bias and e == "slim":
                            continue
                        add(f"{s}-none-{e}", kind=kind, L=L, d=d, D=D, cx=cx, bias=bias, emb="none", ev=EV[e], direct=L * D <= 2)
                    if big_ and (cx or bias) and not big:
                        continue
                    for emb, n in (("dense", 2), ("dense", 1), ("dense", 3), ("fixed", 2), ("diag", d), ("scaled", d), ("onehot", d), ("train", 2)):
                        if big_ and n == 3 and not big:
                            continue
                        add(f"{s}-{emb}{n}", kind=kind, L=L, d=d, D=D, cx=cx, bias=bias, emb=emb, n=n, exact=(emb, n) in (("dense", 2), ("fixed", 2), ("dense", 3), ("diag", 2)) and L * D * d <= (4 if not big else 8) and not (L > 2 and n > 2) and not (L > 1 and cx and bias), twice=emb == "train" and not big_)
                        if cx and emb in ("dense", "diag") and n == d and not big_:
                            add(f"{s}-{emb}{n}-cemb", kind=kind, L=L, d=d, D=D, cx=cx, bias=bias, emb=emb, n=n, ecx=True)
                    for emb in ("poly", "trainpoly", "trainquad"):
                        if (L * D >= 4 and (emb == "trainquad" or cx) or L > 1 and cx and bias and emb == "trainquad") and not big:
                            continue
                        for pts, lo, hi in ((3, 0, 1), (2, -1, 2), (4, 0, Fr(1, 2))):
                            if (pts, emb) in ((4, "trainquad"),) or pts == 4 and L > 1:
                                continue
                            add(f"{s}-{emb}-{pts}", kind=kind, L=L, d=d, D=D, cx=cx, bias=bias, emb=emb, pts=pts, lo=float(lo), hi=float(hi), twice=emb == "trainpoly" and not big_)
    # larger sizes with few symbolic entries
    for kind in ("fix", "uni"):
        for L, d, D in ((5, 2, 2), (4, 3, 2), (8, 2, 2), (3, 4, 3), (2, 7, 2), (2, 3, 6)):
            for cx in (False, True):
                for bias in (False, True):
                    if cx and (bias or L == 8) and L != 2 and not big:
                        continue
                    s = f"{kind}-{'c' if cx else 'r'}{'b' if bias else ''}-L{L}d{d}D{D}"
                    for e in EV if kind == "fix" else ("ser",):
                        if not (bias and e == "slim"):
                            out.append(sparse(conf(f"{s}-none-{e}", h, kind=kind, L=L, d=d, D=D, cx=cx, bias=bias, emb="none", ev=EV[e], cost=100), 1, 3))
                    if L < 5 and (big or not (cx and L > 2)):
                        for emb, n in (("dense", 2), ("dense", 5), ("fixed", 3), ("diag", d), ("onehot", d), ("train", 4)):
                            if n ** L <= 100:
                                out.append(sparse(conf(f"{s}-{emb}{n}", h, kind=kind, L=L, d=d, D=D, cx=cx, bias=bias, emb=emb, n=n, cost=100), 1, 3))
    return out + evals(out, 7)
