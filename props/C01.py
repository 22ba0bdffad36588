"""Born rule: the model's log probabilities are log(|psi(x)|^2 / Z)"""
from .common import *
from torchmps import ProbMPS, ProbUnifMPS

BOUNDS = {
    "seq_len": "1..5", "input_dim": "1..3", "bond_dim": "1..3", "batch": "all input_dim^seq_len sequences, or 2 sequences of symbolic indices, or 2 sequences of symbolic vectors",
    "values": "every real (complex) value of every core, edge vector and bias entry, and of vector inputs",
    "outside": "rounding; sequences longer than 5",
    "larger sizes": "seq_len 5..33 (50 thorough), input_dim up to 10, bond_dim up to 9; with 1..6 symbolic real numbers per tensor, the other entries being fixed",
}
ASSUMPTIONS = [
    "real arithmetic instead of floating point",
    "the model's norm (and the partial transfer traces it is computed from) is non-zero; log 0 is read as -inf, exp(-inf) as 0",
]


def build(ctx, kind, L, d, D, cx, bias, **kw):
    if kind == "fix":
        m = ProbMPS(L, d, D, complex_params=cx, use_bias=bias, **kw)
    else:
        m = ProbUnifMPS(d, D, complex_params=cx, use_bias=bias, **kw)
    p = ctx.havoc(m)
    return m, p


def inputs(ctx, inp, L, d, B=2):
    """(tensor for the model, list of sequences for the specification)"""
    if inp == "all":
        xs = seqs(L, d)
        return torch.tensor(xs), xs
    if inp == "sym":
        x = ctx.ints("x", (B, L), 0, d - 1)
        return x.t, [list(r) for r in x.a]
    x = ctx.real("v", (B, L, d))
    return x.t, [list(r) for r in x.a]


def lognorm(m, kind, L):
    return m.log_norm() if kind == "fix" else m.log_norm(L)


def amps(sites, edges, inp, xs):
    if inp == "sym":
        return [psi_sym(sites, edges, x) for x in xs]
    return [psi(sites, edges, x) for x in xs]


def h_born(ctx, kind, L, d, D, cx, bias, ev, inp):
    ctx.domain("div", "log", "logz")
    m, p = build(ctx, kind, L, d, D, cx, bias)
    x, xs = inputs(ctx, inp, L, d)
    sites = to_cores(p, L, bias)
    lp = m(x, **ev)
    ctx.true("shape", tuple(lp.shape) == (len(xs),))
    ctx.true("log-probabilities are real", not lp.dtype.is_complex)
    lz = ctx.scalar(lognorm(m, kind, L))
    ps = [T.cabs2(a) for a in amps(sites, p["edge_vecs"], inp, xs)]
    ctx.eq("P(x) Z = |psi(x)|^2", exp(add(ctx.terms(lp), arr(lz))), vec(*ps))


def h_z(ctx, kind, L, d, D, cx, bias):
    ctx.domain("div", "log", "logz")
    m, p = build(ctx, kind, L, d, D, cx, bias)
    z = exp(ctx.terms(lognorm(m, kind, L)))
    ctx.true("scalar", z.shape == ())
    ctx.eq("Z = sum |psi|^2", z, arr(total(to_cores(p, L, bias), p["edge_vecs"])))


def h_loss(ctx, kind, L, d, D, cx, bias, ev, inp):
    ctx.domain("div", "log", "logz")
    m, p = build(ctx, kind, L, d, D, cx, bias)
    x, xs = inputs(ctx, inp, L, d, 3)
    lp = ctx.terms(m(x, **ev))
    n = len(xs)
    # compare as probabilities: the loss is the mean negative log likelihood
    sites = to_cores(p, L, bias)
    lz = ctx.scalar(lognorm(m, kind, L))
    loss = ctx.terms(m.loss(x, **ev))
    ctx.true("scalar loss", loss.shape == ())
    ps = T.vprod([T.cabs2(a) for a in amps(sites, p["edge_vecs"], inp, xs)])
    ctx.eq(
        "exp(-n loss) Z^n = prod |psi|^2",
        arr(T.vexp(T.vadd(T.vscale(loss[()], -n), T.vscale(lz, n)))),
        arr(ps),
    )


EV = {"ser": {}, "par": {"parallel_eval": True}, "slim": {"slim_eval": True}, "both": {"slim_eval": True, "parallel_eval": True}}


def configs(tier):
    out = []
    big = tier == "thorough"
    sizes = [(1, 2, 2), (2, 2, 2), (3, 2, 2), (2, 3, 2), (2, 2, 3), (3, 1, 2), (4, 2, 1), (4, 2, 2)]
    if big:
        sizes += [(5, 2, 2), (3, 3, 2), (3, 2, 3), (4, 2, 3), (6, 2, 2), (2, 2, 4)]
    for kind in ("fix", "uni"):
        for L, d, D in sizes:
            for cx in (False, True):
                for bias in (False, True):
                    for e in EV:
                        if bias and e == "slim":
                            continue
                        for inp in ("all", "sym", "vec"):
                            if inp == "sym" and (e in ("par", "both") or L > 3) and not big:
                                continue
                            if (L, d, D) in ((2, 3, 2), (2, 2, 3), (3, 1, 2), (4, 2, 1)) and bias and e != "ser" and not big:
                                continue
                            if inp == "all" and d**L > 16 and not big:
                                continue
                            if e == "both" and (L, d, D) != (3, 2, 2):
                                continue
                            out.append(conf(f"{kind}-L{L}d{d}D{D}{'c' if cx else 'r'}{'b' if bias else ''}-{e}-{inp}", h_born, kind=kind, L=L, d=d, D=D, cx=cx, bias=bias, ev=EV[e], inp=inp, cost=L * D * (1 + cx) ** 2))
                    if (D ** 2 * L * (1 + cx) <= 16 and d == 2) or big:
                        if (kind, L, d, D, cx, bias) == ("fix", 4, 2, 1, True, True) or cx and bias and L >= 3:
                            continue
                        if D >= 3 and L >= 4 or D >= 4 or L * D * (1 + cx) >= 16:
                            continue
                        out.append(conf(f"{kind}-L{L}d{d}D{D}{'c' if cx else 'r'}{'b' if bias else ''}-Z", h_z, kind=kind, L=L, d=d, D=D, cx=cx, bias=bias, cost=50 * L * D * (1 + cx) ** 2))
        for cx in (False, True):
            for bias in (False, True):
                for e in ("ser", "par", "slim"):
                    if bias and e == "slim":
                        continue
                    for inp in ("sym", "vec"):
                        out.append(conf(f"{kind}-loss-{'c' if cx else 'r'}{'b' if bias else ''}-{e}-{inp}", h_loss, kind=kind, L=2, d=2, D=2, cx=cx, bias=bias, ev=EV[e], inp=inp))
    # larger sizes with few symbolic entries
    for kind in ("fix", "uni"):
        for L, d, D in ((5, 2, 3), (7, 3, 2), (9, 2, 2), (16, 2, 2), (17, 2, 2), (33, 2, 2), (3, 7, 3), (4, 2, 6), (2, 3, 11), (1, 10, 9)) + (((50, 2, 2), (3, 17, 4), (3, 2, 17)) if big else ()):
            for cx in (False, True):
                for bias in (False, True):
                    for e in ("ser", "par", "slim"):
                        if bias and (e == "slim" or L > 9 and not big):
                            continue
                        if kind == "uni" and L > 9 and (cx or L > 17 or e == "par" and not big):
                            continue
                        if cx and D in (6, 11) and (bias or kind == "uni") and not big:
                            continue
                        for inp in ("sym", "vec"):
                            if inp == "sym" and e == "par" and not big:
                                continue
                            out.append(sparse(conf(f"{kind}-L{L}d{d}D{D}{'c' if cx else 'r'}{'b' if bias else ''}-{e}-{inp}", h_born, kind=kind, L=L, d=d, D=D, cx=cx, bias=bias, ev=EV[e], inp=inp, cost=L * D), 2 if L < 5 else 1, (4 if cx else 6) if L < 5 else 3 if L < 9 else 2))
    return out + evals(out, 7)
