"""TI_MPS output depends only on each sequence"""
from .common import *
from torchmps import TI_MPS

BOUNDS = {
    "length": "1..5 (7 thorough), lists of up to 4 sequences of different lengths", "feature_dim": "1..3", "bond_dim": "1..3", "output_dim": "1..3",
    "values": "every real value of core, ends, bias and data; embedded or not; serial and parallel",
    "outside": "rounding; sequences of length 0 in lists; complex parameters",
    "larger sizes": "length 5..17, lists of up to 18 sequences, bond_dim up to 17, feature_dim up to 12, output_dim up to 11, batch up to 130; with 1..6 symbolic real numbers per tensor, the other entries being fixed",
}
ASSUMPTIONS = ["real arithmetic instead of floating point"]


def model(ctx, d, o, D, fe, bias, fb, par):
    m = TI_MPS(o, D, feature_dim=d, parallel_eval=par, fixed_ends=fe, use_bias=bias, fixed_bias=fb)
    return m, ctx.havoc(m)


def emb(r, raw):
    return [plain(v) if raw else v for v in r]


def h_batch(ctx, n, d, o, D, B, fe, bias, fb, par, raw):
    m, p = model(ctx, d, o, D, fe, bias, fb, par)
    x = ctx.real("x", (B, n) if raw else (B, n, d))
    out = m(x.t)
    ref = ti_ref(p, m, fe, [emb(r, raw) for r in x.a], bias)
    ctx.eq("output", out, ref)
    if B:
        ctx.eq("list of the same sequences", m(list(x.t)), ref)
    y = m(x.t)
    ctx.eq("repeated", y, ref)
    ctx.eq("input unchanged", x.t, x.a)
    want = {"core_tensor"} | (set() if fe else {"init_vector.vec", "terminal_mat.mat"}) | ({"bias_mat"} if bias and not fb else set())
    ctx.true("trainable parameters", set(p) == want)


def h_list(ctx, lens, d, o, D, fe, par, raw):
    m, p = model(ctx, d, o, D, fe, True, True, par)
    xs = [ctx.real(f"x{i}", (n,) if raw else (n, d)) for i, n in enumerate(lens)]
    out = m([x.t for x in xs])
    ref = ti_ref(p, m, fe, [emb(x.a, raw) for x in xs], True)
    ctx.eq("every sequence has its own output", out, ref)
    for i, x in enumerate(xs):
        ctx.eq(f"sequence {i} alone", m([x.t]), ref[i : i + 1])
        ctx.eq(f"sequence {i} alone, as a tensor", m(x.t[None]), ref[i : i + 1])
        ctx.eq("sequence unchanged", x.t, x.a)
    k = len(lens)
    perm = list(range(k))[::-1]
    ctx.eq("other order", m([xs[i].t for i in perm]), ref[perm])
    ctx.eq("repeated sequences", m([xs[0].t, xs[-1].t, xs[0].t]), ref[[0, k - 1, 0]])


def h_reject(ctx, lens, fe, bias, fb, raw):
    """different lengths without a fixed bias"""
    m, p = model(ctx, 2, 2, 2, fe, bias, fb, False)
    xs = [ctx.real(f"x{i}", (n,) if raw else (n, 2)) for i, n in enumerate(lens)]
    ctx.raises("different lengths are rejected", lambda: m([x.t for x in xs]), ValueError)
    ref = ti_ref(p, m, fe, [emb(xs[0].a, raw)] * 2, bias)
    ctx.eq("equal lengths still work", m([xs[0].t, xs[0].t]), ref)


def h_bad(ctx, fb):
    """malformed lists"""
    m, p = model(ctx, 2, 2, 2, False, True, fb, False)
    e, r = torch.ones(3, 2), torch.ones(3)
    for nm, bad in (
        ("embedded and unembedded", [e, r]), ("wrong feature dimension", [torch.ones(3, 3), e]), ("three indices", [torch.ones(1, 3, 2)]),
        ("not tensors", [[1.0, 2.0], [0.0, 1.0]]), ("tensor and list", [e, [[1.0, 2.0]]]), ("empty list", []), ("tuple", (e, e)), ("scalars", [torch.tensor(1.0)]),
        ("tensor of rank 4", torch.ones(1, 1, 3, 2)), ("tensor of rank 1", torch.ones(3)), ("feature dimension", torch.ones(2, 3, 3)), ("none", None), ("string", "ab"),
    ):
        ctx.raises(nm, lambda: m(bad))
    x = ctx.real("x", (2, 3, 2))
    ctx.eq("later calls", m(x.t), ti_ref(p, m, False, [list(q) for q in x.a], True))


def configs(tier):
    out = []
    big = tier == "thorough"
    kinds = [(fe, bias, fb) for fe in (False, True) for bias, fb in ((True, True), (True, False), (False, False), (False, True))]
    for fe, bias, fb in kinds:
        for par in (False, True):
            t = f"{'fe-' if fe else ''}{'b' if bias else 'n'}{'f' if fb else 't'}{'-par' if par else ''}"
            for n in (1, 2, 3, 4, 5) + ((6, 7) if big else ()):
                for d, o, D, B in ((2, 2, 2, 2), (3, 1, 2, 1), (1, 3, 3, 2), (2, 2, 1, 3)):
                    if fe and o > D:
                        continue
                    if n > 3 and (d, o, D, B) != (2, 2, 2, 2) and not big:
                        continue
                    for raw in (False, True):
                        if raw and (d != 2 or n > 4):
                            continue
                        out.append(conf(f"batch-{t}-n{n}d{d}o{o}D{D}B{B}{'-raw' if raw else ''}", h_batch, n=n, d=d, o=o, D=D, B=B, fe=fe, bias=bias, fb=fb, par=par, raw=raw, cost=n * D))
            out.append(conf(f"batch-{t}-empty", h_batch, n=2, d=2, o=2, D=2, B=0, fe=fe, bias=bias, fb=fb, par=par, raw=False))
    for lens in ((1, 2), (3, 1), (2, 4, 1), (1, 1, 3), (2, 2), (3,), (1, 2, 3, 4), (4, 1, 2)) + (((5, 1), (1, 6, 2)) if big else ()):
        for fe in (False, True):
            for par in (False, True):
                for d, o, D in ((2, 2, 2), (3, 1, 2), (1, 2, 3)):
                    for raw in (False, True):
                        if raw and d != 2:
                            continue
                        if len(lens) > 3 and (D > 2 or d > 2) and not big:
                            continue
                        out.append(conf(f"list-{''.join(map(str, lens))}-{'fe' if fe else 'te'}{'-par' if par else ''}-d{d}o{o}D{D}{'-raw' if raw else ''}", h_list, lens=lens, d=d, o=o, D=D, fe=fe, par=par, raw=raw, cost=sum(lens) * D))
    for fe, bias, fb in kinds:
        if bias and fb:
            continue
        for lens in ((1, 2), (3, 1, 3)):
            for raw in (False, True):
                out.append(conf(f"reject-{''.join(map(str, lens))}-{'fe-' if fe else ''}{'b' if bias else 'n'}{'f' if fb else 't'}{'-raw' if raw else ''}", h_reject, lens=lens, fe=fe, bias=bias, fb=fb, raw=raw))
    for fb in (False, True):
        out.append(conf(f"bad-{fb}", h_bad, fb=fb))
    # larger sizes with few symbolic entries
    big_ = []
    for fe, bias, fb in kinds:
        for par in (False, True):
            t = f"{'fe-' if fe else ''}{'b' if bias else 'n'}{'f' if fb else 't'}{'-par' if par else ''}"
            for n, d, o, D, B in ((6, 3, 2, 4, 3), (9, 2, 11, 3, 2), (11, 2, 2, 2, 9), (16, 2, 2, 2, 2), (3, 12, 2, 2, 17), (2, 2, 3, 17, 2), (2, 2, 2, 2, 130)):
                if fe and o > D:
                    continue
                big_.append(sparse(conf(f"batch-{t}-n{n}d{d}o{o}D{D}B{B}", h_batch, n=n, d=d, o=o, D=D, B=B, fe=fe, bias=bias, fb=fb, par=par, raw=d == 2, cost=n * D), 1, 1 if n > 11 and par else 2 if n > 8 else 6))
    for lens in ((5, 9, 7), (10, 11, 3, 2), (12,) * 3, (1, 2, 3, 4, 5, 6, 7, 8, 9), (2,) * 17, (3, 1) * 9):
        for fe in (False, True):
            for par in (False, True):
                for d, o, D in ((2, 2, 3), (5, 3, 4)) if max(lens) < 12 else ((2, 2, 2),):
                    big_.append(sparse(conf(f"list-{'.'.join(map(str, lens))}-{'fe' if fe else 'te'}{'-par' if par else ''}-d{d}o{o}D{D}", h_list, lens=lens, d=d, o=o, D=D, fe=fe, par=par, raw=d == 2, cost=sum(lens) * D), 1, 6 if max(lens) < 12 else 3))
    return out + big_ + [strided(c) for c in out[::5]] + evals(out, 9)
