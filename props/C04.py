"""Evaluation strategies and batching never change results"""
from .common import *
from . import C02
from torchmps import MPS, TI_MPS, ProbMPS, ProbUnifMPS

BOUNDS = {
    "seq_len": "1..4 (5..9, thorough 12, with one feature)", "input_dim": "1..3", "bond_dim": "1..3", "batch": "1..4 samples, reordered, repeated, split",
    "values": "every real (complex) parameter, index, pixel or input vector",
    "outside": "rounding differences between strategies",
    "larger sizes": "length 5..33, bond_dim up to 17, input_dim up to 12, output_dim up to 11, sequences of up to 17 in lists; with 1..6 symbolic real numbers per tensor, the other entries being fixed",
}
ASSUMPTIONS = ["real arithmetic instead of floating point", "the norm and its partial transfer traces are non-zero", "normalisers of embeddings are dense (allclose with a diagonal matrix fails)"]

STRAT = {"ser": {}, "par": {"parallel_eval": True}, "slim": {"slim_eval": True}, "both": {"slim_eval": True, "parallel_eval": True}}


def prob(ctx, kind, L, d, D, cx, bias, emb):
    kw, x = {}, None
    if emb == "table":
        t = ctx.real("emb", (3, d))
        from torchmps.embeddings import DataDomain

        kw = dict(embed_fun=lambda i: t.t[i], domain=DataDomain(False, 3))
    m = (ProbMPS(L, d, D, complex_params=cx, use_bias=bias, **kw) if kind == "fix" else ProbUnifMPS(d, D, complex_params=cx, use_bias=bias, **kw))
    ctx.havoc(m)
    return m


def pdata(ctx, inp, B, L, d, emb):
    if inp == "idx":
        return ctx.ints("x", (B, L), 0, (3 if emb == "table" else d) - 1)
    return ctx.real("v", (B, L, d))


def vals(ctx, m, lp, kind, L):
    """probabilities times norm"""
    lz = ctx.scalar(m.log_norm() if kind == "fix" else m.log_norm(L))
    return exp(add(ctx.terms(lp), arr(lz)))


def h_prob(ctx, kind, L, d, D, cx, bias, emb, inp, B):
    ctx.domain("div", "log", "logz")
    if ctx.sym:
        S.Session.exact_close = "generic"
    m = prob(ctx, kind, L, d, D, cx, bias, emb)
    x = pdata(ctx, inp, B, L, d, emb)
    ref = vals(ctx, m, m(x.t), kind, L)
    for s in ("par", "slim", "both"):
        if s == "slim" and bias:
            ctx.raises("slim evaluation with a bias is rejected", lambda: m(x.t, slim_eval=True), ValueError)
            continue
        ctx.eq(s, vals(ctx, m, m(x.t, **STRAT[s]), kind, L), ref)


def h_both(ctx, kind, bias):
    """parallel_eval wins: the computation is that of parallel_eval alone, also where
    slim evaluation would be rejected"""
    ctx.domain("div", "log", "logz")
    L, d, D = 3, 2, 2
    m = prob(ctx, kind, L, d, D, False, bias, None)
    x = ctx.ints("x", (2, L), 0, d - 1)
    a = m(x.t, parallel_eval=True)
    b = m(x.t, slim_eval=True, parallel_eval=True)
    ctx.eq("slim_eval is overridden", exp(ctx.terms(a)), exp(ctx.terms(b)))
    l1, l2 = m.loss(x.t, parallel_eval=True), m.loss(x.t, slim_eval=True, parallel_eval=True)
    ctx.eq("slim_eval is overridden in loss", exp(ctx.terms(l1)), exp(ctx.terms(l2)))
    if bias:
        ctx.raises("loss: slim evaluation with a bias is rejected", lambda: m.loss(x.t, slim_eval=True), ValueError)


def h_loss(ctx, kind, cx, bias, inp):
    """loss is the mean over the batch in every strategy"""
    ctx.domain("div", "log", "logz")
    L, d, D = 2, 2, 2
    m = prob(ctx, kind, L, d, D, cx, bias, None)
    x = pdata(ctx, inp, 2, L, d, None)
    ref = T.vexp(T.vscale(ctx.terms(m.loss(x.t))[()], -2))
    lz = ctx.scalar(m.log_norm() if kind == "fix" else m.log_norm(L))
    lp = ctx.terms(m(x.t))
    ctx.eq("loss is the mean", arr(T.vmul(ref, T.vexp(T.vscale(lz, 2)))), arr(T.vmul(*exp(add(lp, arr(lz))))))
    for s in ("par", "slim"):
        if s == "slim" and bias:
            continue
        v = T.vexp(T.vscale(ctx.terms(m.loss(x.t, **STRAT[s]))[()], -2))
        ctx.eq(s, arr(T.vmul(v, T.vexp(T.vscale(lz, 2)))), arr(T.vmul(ref, T.vexp(T.vscale(lz, 2)))))


def h_loss_big(ctx, kind, B, s, bias):
    """large batches: the loss is the mean of the log probabilities, evaluated together
    or in parts"""
    ctx.domain("div", "log", "logz")
    L, d, D = 2, 3, 2
    m = prob(ctx, kind, L, d, D, False, bias, None)
    x = pdata(ctx, "vec", B, L, d, None)
    lp = ctx.terms(m(x.t, **STRAT[s]))
    ctx.eq("loss is the mean", T.vscale(ctx.terms(m.loss(x.t, **STRAT[s]))[()], -B), T.csum(list(lp)))
    for i in range(0, B, 50):
        ctx.eq(f"samples {i}..", ctx.terms(m(x.t[i:i + 50], **STRAT[s])), lp[i:i + 50])


SPLITS = (([0],), ([2], [1]), ([2, 0, 1],), ([1, 1, 0, 2],), ([0, 1], [2, 0]))


def h_pbatch(ctx, kind, L, d, D, cx, bias, emb, inp, s):
    ctx.domain("div", "log", "logz")
    if ctx.sym:
        S.Session.exact_close = "generic"
    m = prob(ctx, kind, L, d, D, cx, bias, emb)
    x = pdata(ctx, inp, 3, L, d, emb)
    ref = vals(ctx, m, m(x.t, **STRAT[s]), kind, L)
    for sp in SPLITS:
        for idx in sp:
            y = vals(ctx, m, m(x.t[idx], **STRAT[s]), kind, L)
            ctx.eq(f"samples {idx}", y, ref[idx])


def twins(ctx, mk):
    """serial and parallel model with the same parameters"""
    a, b = mk(False), mk(True)
    p = ctx.havoc(a)
    with torch.no_grad():
        for k, q in b.named_parameters():
            q.copy_(dict(a.named_parameters())[k])
    return a, b, p


def mdata(ctx, B, n, d, raw):
    return ctx.real("x", (B, n) if raw else (B, n, d))


def h_mps(ctx, n, site, d, o, D, per, bias, raw):
    a, b, _ = twins(ctx, lambda par: MPS(n, o, D, feature_dim=d, periodic_bc=per, label_site=site, use_bias=bias, parallel_eval=par))
    x = mdata(ctx, 3, n, d, raw)
    ra, rb = ctx.terms(a(x.t)), ctx.terms(b(x.t))
    ctx.eq("serial and parallel", ra, rb)
    for m, r in ((a, ra), (b, rb)):
        for sp in SPLITS:
            for idx in sp:
                ctx.eq(f"samples {idx}", m(x.t[idx]), r[idx])


def h_ti(ctx, n, d, o, D, fe, bias, fb, raw, aslist):
    a, b, _ = twins(ctx, lambda par: TI_MPS(o, D, feature_dim=d, parallel_eval=par, fixed_ends=fe, use_bias=bias, fixed_bias=fb))
    x = mdata(ctx, 3, n, d, raw)
    f = (lambda t: list(t)) if aslist else (lambda t: t)
    ra, rb = ctx.terms(a(f(x.t))), ctx.terms(b(f(x.t)))
    ctx.eq("serial and parallel", ra, rb)
    for m, r in ((a, ra), (b, rb)):
        for sp in SPLITS:
            for idx in sp:
                ctx.eq(f"samples {idx}", m(f(x.t[idx])), r[idx])


def h_mixed(ctx, o, D, lens, raw):
    """lists of sequences of different lengths: order and company are irrelevant"""
    a, b, _ = twins(ctx, lambda par: TI_MPS(o, D, parallel_eval=par))
    xs = [ctx.real(f"x{i}", (n,) if raw else (n, 2)).t for i, n in enumerate(lens)]
    ra, rb = ctx.terms(a(xs)), ctx.terms(b(xs))
    ctx.eq("serial and parallel", ra, rb)
    for m, r in ((a, ra), (b, rb)):
        for sp in SPLITS:
            for idx in sp:
                ctx.eq(f"samples {idx}", m([xs[i] for i in idx]), r[idx])


def h_long(ctx, what, n, site, per):
    """long chains, one feature, bond dimension two"""
    if what in ("fix", "uni"):
        ctx.domain("div", "log", "logz")
        m = prob(ctx, what, n, 1, 2, False, False, None)
        x = torch.zeros(1, n, dtype=torch.long)
        lz = ctx.scalar(m.log_norm() if what == "fix" else m.log_norm(n))
        # the tensor itself, not its square: signs of the amplitude are irrelevant
        ref = add(ctx.terms(m(x)), arr(lz))
        for s in ("par", "slim"):
            ctx.eq(s, exp(add(ctx.terms(m(x, **STRAT[s])), arr(lz))), exp(ref))
        return
    if what == "mps":
        a, b, _ = twins(ctx, lambda par: MPS(n, 1, 2, feature_dim=1, periodic_bc=per, label_site=site, use_bias=False, parallel_eval=par))
    else:
        a, b, _ = twins(ctx, lambda par: TI_MPS(1, 2, feature_dim=1, parallel_eval=par))
    x = torch.ones(1, n, 1)
    ctx.eq("serial and parallel", ctx.terms(a(x)), ctx.terms(b(x)))


def h_adaptive(ctx, n, site, D, per):
    """adaptive models between flips"""
    a, b, _ = twins(ctx, lambda par: MPS(n, 2, D, periodic_bc=per, label_site=site, adaptive_mode=True, parallel_eval=par))
    x = mdata(ctx, 3, n, 2, True)
    ra, rb = ctx.terms(a(x.t)), ctx.terms(b(x.t))
    ctx.eq("serial and parallel", ra, rb)
    for idx in ([2], [1, 2, 0]):
        ctx.eq(f"samples {idx}", a(x.t[idx]), ra[idx])


def configs(tier):
    out = []
    big = tier == "thorough"
    for kind in ("fix", "uni"):
        for cx in (False, True):
            for bias in (False, True):
                t = f"{kind}-{'c' if cx else 'r'}{'b' if bias else ''}"
                for L, d, D in ((1, 2, 2), (2, 2, 2), (3, 2, 2), (4, 2, 2), (2, 3, 2), (2, 2, 3), (3, 1, 1)) + (((5, 2, 2), (3, 3, 2), (3, 2, 3)) if big else ()):
                    for inp in ("idx", "vec"):
                        for emb in (None, "table"):
                            if emb and (inp == "vec" or L > 2 and not big):
                                continue
                            if inp == "idx" and L > 3 and not big:
                                continue
                            c = L * D * (1 + 3 * cx)
                            out.append(conf(f"strat-{t}-L{L}d{d}D{D}-{inp}{'-emb' if emb else ''}", h_prob, kind=kind, L=L, d=d, D=D, cx=cx, bias=bias, emb=emb, inp=inp, B=2, cost=c))
                            if (L, d, D) in ((2, 2, 2), (3, 2, 2), (3, 1, 1)) and not (cx and L > 2 and not big):
                                for s in ("ser", "par", "slim"):
                                    if s == "slim" and bias:
                                        continue
                                    out.append(conf(f"batch-{t}-L{L}d{d}D{D}-{inp}{'-emb' if emb else ''}-{s}", h_pbatch, kind=kind, L=L, d=d, D=D, cx=cx, bias=bias, emb=emb, inp=inp, s=s, cost=c))
                for inp in ("idx", "vec"):
                    out.append(conf(f"loss-{t}-{inp}", h_loss, kind=kind, cx=cx, bias=bias, inp=inp))
        for bias in (False, True):
            out.append(conf(f"both-{kind}{'-b' if bias else ''}", h_both, kind=kind, bias=bias))
    for per in (False, True):
        for bias in (True, False):
            for n in (1, 2, 3, 4):
                for site in range(n + 1):
                    for d, o, D in ((2, 2, 2), (3, 1, 1)):
                        if n == 4 and not big and (d == 3 or site not in (0, 2, 4)):
                            continue
                        for raw in (False, True):
                            if raw and d != 2:
                                continue
                            out.append(conf(f"mps-{'per' if per else 'open'}{'-b' if bias else ''}-n{n}s{site}d{d}o{o}D{D}{'-raw' if raw else ''}", h_mps, n=n, site=site, d=d, o=o, D=D, per=per, bias=bias, raw=raw, cost=n * D))
        for n in (1, 2, 3, 4):
            for site in range(n + 1):
                out.append(conf(f"adaptive-{'per' if per else 'open'}-n{n}s{site}", h_adaptive, n=n, site=site, D=2, per=per, cost=n))
    for fe in (False, True):
        for bias, fb in ((True, True), (True, False), (False, False)):
            for n in (1, 2, 3, 4):
                for d, o, D in ((2, 2, 2), (3, 1, 1)):
                    for raw in (False, True):
                        if raw and d != 2:
                            continue
                        for aslist in (False, True):
                            if aslist and n == 4:
                                continue
                            out.append(conf(f"ti-{'fe-' if fe else ''}{'b' if bias else 'n'}{'f' if fb else 't'}-n{n}d{d}o{o}D{D}{'-raw' if raw else ''}{'-list' if aslist else ''}", h_ti, n=n, d=d, o=o, D=D, fe=fe, bias=bias, fb=fb, raw=raw, aslist=aslist, cost=n))
    # long chains: every order of parallel reduction
    for n in (5, 6, 7, 8, 9) + ((10, 11, 12) if big else ()):
        for per in (False, True):
            for site in (0, n // 2, n):
                out.append(conf(f"mps-long-{'per' if per else 'open'}-n{n}s{site}", h_long, what="mps", n=n, site=site, per=per, cost=n))
        out.append(conf(f"ti-long-n{n}", h_long, what="ti", n=n, site=0, per=False, cost=n))
        for kind in ("fix", "uni"):
            out.append(conf(f"prob-long-{kind}-n{n}", h_long, what=kind, n=n, site=0, per=False, cost=n))
    for lens in ((1, 2, 3), (3, 3, 1), (2, 4, 1)):
        for raw in (False, True):
            out.append(conf(f"mixed-{''.join(map(str, lens))}{'-raw' if raw else ''}", h_mixed, o=2, D=2, lens=lens, raw=raw, cost=8))
    # larger sizes with few symbolic entries
    for kind in ("fix", "uni"):
        for L, d, D in ((6, 3, 3), (9, 2, 3), (11, 2, 2), (13, 2, 2), (17, 2, 2), (33, 2, 2), (3, 6, 4), (2, 2, 8)) + (((24, 2, 2), (31, 2, 2), (3, 11, 3), (3, 2, 12)) if big else ()):
            for cx in (False, True):
                for bias in (False, True):
                    if kind == "uni" and L > 6 and (cx or L > (17 if big else 12)) or cx and L > 17:
                        continue
                    if L <= 17:
                        out.append(sparse(conf(f"strat-{kind}-{'c' if cx else 'r'}{'b' if bias else ''}-L{L}d{d}D{D}", h_prob, kind=kind, L=L, d=d, D=D, cx=cx, bias=bias, emb=None, inp="vec", B=3, cost=L * D), 1, 4 if L < 5 else 2))
                    elif not bias:
                        out.append(sparse(conf(f"strat-{kind}-r-L{L}d{d}D{D}", h_prob, kind=kind, L=L, d=d, D=D, cx=cx, bias=bias, emb=None, inp="idx", B=3, cost=L * D), 1, 2))
    for kind in ("fix", "uni"):
        for B in (7, 33, 65, 130):
            for s in STRAT:
                out.append(sparse(conf(f"loss-{kind}-B{B}-{s}", h_loss_big, kind=kind, B=B, s=s, bias=s == "par"), 3, 5))
    for n, site, d, o, D in ((6, 2, 3, 2, 4), (9, 7, 2, 11, 3), (11, 4, 2, 2, 2), (16, 8, 2, 3, 3), (17, 0, 2, 3, 3), (33, 21, 2, 2, 2), (5, 5, 12, 3, 3), (3, 2, 2, 2, 17)):
        for per in (False, True):
            for bias in (False, True):
                out.append(sparse(conf(f"mps-{'per' if per else 'open'}{'-b' if bias else ''}-n{n}s{site}d{d}o{o}D{D}", h_mps, n=n, site=site, d=d, o=o, D=D, per=per, bias=bias, raw=False, cost=n * D), 1 if bias and n > 6 else 2, 8 if n < 7 else 3 if bias else 6))
            if D < 5 and n < 20:
                out.append(sparse(conf(f"adaptive-{'per' if per else 'open'}-n{n}s{site}D{D}", h_adaptive, n=n, site=site, D=D, per=per, cost=n * D), 2))
    for n, d, o, D in ((6, 3, 2, 4), (9, 2, 11, 3), (11, 2, 2, 2), (16, 3, 2, 2)) + (((17, 2, 2, 2),) if big else ()):
        for bias, fb in ((True, True), (True, False), (False, False)):
            out.append(sparse(conf(f"ti-{'b' if bias else 'n'}{'f' if fb else 't'}-n{n}d{d}o{o}D{D}", h_ti, n=n, d=d, o=o, D=D, fe=False, bias=bias, fb=fb, raw=False, aslist=n % 2 == 0, cost=n * D), 1, 1 if n > 11 else 2 if n > 8 else 6))
    for lens in ((5, 9, 7), (12, 11, 3), (9, 9, 9)):
        out.append(sparse(conf(f"mixed-{'.'.join(map(str, lens))}", h_mixed, o=2, D=2, lens=lens, raw=False, cost=20), 1))
    return out + evals(out, 9)
