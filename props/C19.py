"""Malformed inputs and configurations are rejected"""
import warnings

from .common import *
from torchmps import MPS, TI_MPS, ProbMPS, ProbUnifMPS
from torchmps.embeddings import DataDomain, FixedEmbedding, onehot_embed
from torchmps.mps_base import contract_matseq, get_log_norm, near_eye_init, normal_init, slim_eval_fun
from torchmps.utils2 import batch_broadcast, shape_broadcast

BOUNDS = {
    "models": "MPS (open/periodic, serial/parallel, static/adaptive/merged, with path, feature map, feature_dim 1..3), TI_MPS (serial/parallel, tensors and lists), ProbMPS and ProbUnifMPS (real/complex, bias, every strategy, with and without embedding)",
    "functions": "contract_matseq, slim_eval_fun, get_log_norm, near_eye_init, normal_init, batch_broadcast, shape_broadcast, constructors",
    "shapes": "lengths 0..n+2, feature dimensions 1..d+1, ranks 0..4, boundary and lambda sizes 1..d+1 around every correct shape (lengths 1..3, d 1..3); correct batches of 1..4 (0 for MPS and TI_MPS)",
    "values": "every real (complex) value of parameters and data: the rejected call raises for all of them, and the accepted ones that follow have the documented value",
    "outside": "negative indices, zero sizes of MPS and TI_MPS constructors, non-tensor arguments other than lists and None",
}
ASSUMPTIONS = ["real arithmetic instead of floating point", "amplitudes, norm and partial transfer traces are non-zero in the accepted calls"]


def rand(ctx, name, shape, cx=False):
    return ctx.real(name, tuple(shape), cx=cx).t


EV = {"ser": {}, "par": {"parallel_eval": True}, "slim": {"slim_eval": True}}


def h_prob(ctx, kind, L, d, cx, bias, emb, B=2, D=2):
    """kind fix: sequences of length L; uni: any length"""
    ctx.domain("div", "log", "logz")
    kw = {}
    if emb:
        kw = dict(embed_fun=lambda x: onehot_embed(x, d), domain=DataDomain(False, d))
    m = ProbMPS(L, d, D, complex_params=cx, use_bias=bias, **kw) if kind == "fix" else ProbUnifMPS(d, D, complex_params=cx, use_bias=bias, **kw)
    p = ctx.havoc(m)
    sites = to_cores(p, L, bias)
    zero = lambda *s: torch.zeros(*s, dtype=torch.long)
    idx = [(B, n) for n in range(0, L + 3) if n != L] if kind == "fix" else []
    idx += [(L,), (B, L, 1), (B, L, d + 1), (1, B, L, 1)]
    if emb or d > 1:
        idx.append((B, L, d))
    vecs = []
    if not emb:
        if kind == "fix":
            vecs += [(B, n, d) for n in range(0, L + 3) if n != L]
        vecs += [(B, L, e) for e in range(0, d + 2) if e != d]
        vecs += [(B, L), (L, d), (L,), (1, B, L, d)]

    def good(tag, ev):
        for b in (1, B):
            xs = [[(i + j) % d for j in range(L)] for i in range(b)]
            lp = ctx.terms(m(torch.tensor(xs), **ev))
            ctx.true("one value per sample", lp.shape == (b,))
            lz = ctx.scalar(m.log_norm() if kind == "fix" else m.log_norm(L))
            for i, x in enumerate(xs):
                ctx.eq("correct calls are unaffected " + tag, arr(T.vexp(T.vadd(lp[i], lz))), arr(T.cabs2(psi(sites, p["edge_vecs"], x))))

    for e, ev in EV.items():
        if bias and e == "slim":
            ctx.raises("slim evaluation with bias", lambda: m(zero(B, L), **ev))
            continue
        for s in idx:
            if len(s) == 3 and not emb and s[2] == d:
                continue  # vectors of integers
            ctx.raises(f"indices of shape {s} {e}", lambda: m(zero(*s), **ev))
        for s in vecs:
            x = rand(ctx, "v" + "_".join(map(str, s)), s)
            ctx.raises(f"vectors of shape {s} {e}", lambda: m(x, **ev))
        bad = zero(B, L)
        bad[B - 1, L - 1] = d
        ctx.raises("index outside the alphabet", lambda: m(bad, **ev))
        ctx.raises("list", lambda: m([[0] * L] * B, **ev))
        ctx.raises("nothing", lambda: m(None, **ev))
        ctx.raises("loss of malformed data", lambda: m.loss(zero(L), **ev))
        good(e, ev)


def h_mps(ctx, n, site, d, per, par, mode, B=2, o=2, D=2):
    """mode: static / adaptive / merged"""
    m = MPS(n, o, D, feature_dim=d, periodic_bc=per, parallel_eval=par, label_site=site, adaptive_mode=mode != "static")
    p = ctx.havoc(m)
    raw = [(B, k) for k in range(0, n + 3) if k != n or d != 2] + [(n,), ()]
    emb = [(B, k, d) for k in range(0, n + 3) if k != n] + [(B, n, e) for e in range(0, d + 2) if e != d] + [(1, B, n, d), (n, d) if (d, d) != (n, n) and not (d == 2 and n == 2) else (1, 1, n, d)]
    if d == 2:
        emb = [s for s in emb if not (len(s) == 2 and s[1] == n)]
    for s in raw + emb:
        x = rand(ctx, "x" + "_".join(map(str, s)), s)
        ctx.raises(f"data of shape {s}", lambda: m(x))
    ctx.raises("list", lambda: m([[0.5] * n] * B))
    ctx.raises("nothing", lambda: m(None))
    for b in (1, B, 4):
        x = ctx.real(f"good{b}", (b, n, d))
        out = m(x.t)
        ctx.true("one row per sample", tuple(out.shape) == (b, o))
        if mode == "static":
            ctx.eq("correct calls are unaffected", out, mps_ref(p, n, site, [list(r) for r in x.a], per))
    ctx.true("empty batch", tuple(m(torch.zeros(0, n, d)).shape) == (0, o))


def h_map(ctx, cls, d, par):
    """feature maps of the wrong dimension, and what they return later"""
    mk = (lambda: MPS(3, 2, 2, feature_dim=d, parallel_eval=par)) if cls == "MPS" else (lambda: TI_MPS(2, 2, feature_dim=d, parallel_eval=par))
    m = mk()
    ctx.havoc(m)
    for e in range(0, d + 2):
        if e != d:
            ctx.raises(f"feature map into dimension {e}", lambda: m.register_feature_map(lambda x: torch.stack([x] * e) if e else torch.zeros(0)))
    ctx.raises("feature map into matrices", lambda: m.register_feature_map(lambda x: torch.stack([torch.stack([x] * d)])))
    ctx.raises("feature map into lists", lambda: m.register_feature_map(lambda x: [x] * d))
    if d != 2:
        ctx.raises("default map needs dimension 2", lambda: m(rand(ctx, "x", (2, 3))))
    f = lambda x: torch.stack([x * (i + 1) for i in range(d)])
    m.register_feature_map(f)
    x = ctx.real("y", (2, 3))
    got = m(x.t)
    e = np.empty((2, 3, d), dtype=object)
    for q in np.ndindex(2, 3, d):
        e[q] = T.cmul(T.const(q[2] + 1), x.a[q[:2]])
    ctx.eq("a correct map is used afterwards", got, ctx.terms(m(ctx.tensor(e))))


def h_ti(ctx, d, par, fe, B=2, o=2, D=2):
    m = TI_MPS(o, D, feature_dim=d, parallel_eval=par, fixed_ends=fe, use_bias=True)
    p = ctx.havoc(m)
    n = 3
    for s in [(B, n, e) for e in range(0, d + 2) if e != d] + [(1, B, n, d), (n,), ()] + ([(B, n)] if d != 2 else []):
        x = rand(ctx, "x" + "_".join(map(str, s)), s)
        ctx.raises(f"data of shape {s}", lambda: m(x))
    r = lambda *s: rand(ctx, "l" + "_".join(map(str, s)), s)
    for name, l in (
        ("mixed ranks", [r(2, d), r(3)]), ("mixed ranks reversed", [r(3), r(2, d)]), ("wrong dimension", [r(2, d + 1), r(3, d + 1)]),
        ("one of the wrong dimension", [r(2, d), r(2, d + 1)]), ("rank 3", [r(1, 2, d)]), ("rank 0", [r()]), ("numbers", [[0.5, 0.5]]), ("empty list", []), ("tuple", (r(2, d),)),
    ):
        ctx.raises("list: " + name, lambda: m(l))
    ctx.raises("nothing", lambda: m(None))
    if d != 2:
        ctx.raises("unembedded list", lambda: m([r(2), r(3)]))
    for b in (1, B, 4):
        x = ctx.real(f"good{b}", (b, 2, d))
        out = m(x.t)
        ctx.true("one row per sample", tuple(out.shape) == (b, o))
        ctx.eq("correct calls are unaffected", out, ti_ref(p, m, None, [list(r_) for r_ in x.a], True))
    ctx.true("empty batch", tuple(m(torch.zeros(0, n, d)).shape) == (0, o))


def h_path(ctx, par, N):
    """a path reading pixel N - 1 needs images of at least N pixels"""
    path = [0, N - 1]
    m = MPS(2, 2, 2, path=path, parallel_eval=par)
    p = ctx.havoc(m)
    for k in range(0, N):
        x = rand(ctx, f"x{k}", (2, k))
        ctx.raises(f"image of {k} pixels", lambda: m(x))
    x = ctx.real("y", (2, N))
    ctx.eq("image of N pixels", m(x.t), mps_ref(p, 2, 1, [[plain(r[t]) for t in path] for r in x.a], False))


def h_norm(ctx, uniform, d, cx, D=2, L=2):
    ctx.domain("div", "log", "logz")
    c = ctx.real("c", (d, D, D) if uniform else (L, d, D, D), cx=cx)
    e = ctx.real("e", (2, D), cx=cx)
    ok = dict(length=L) if uniform else {}
    for n in ((None,) if uniform else [k for k in (0, 1, 2, 3, 4) if k != L]):
        ctx.raises(f"length {n}", lambda: get_log_norm(c.t, e.t, length=n))
    for s in ((2, D - 1), (2, D + 1), (1, D), (3, D), (D,) if D != 2 else (D - 1,), (2, D, D), ()):
        x = rand(ctx, "b" + "_".join(map(str, s)), s, cx)
        ctx.raises(f"boundary vectors of shape {s}", lambda: get_log_norm(c.t, x, **ok))
    for s in [(k,) for k in range(0, d + 2) if k != d] + [(i, j) for i in range(0, d + 2) for j in range(0, d + 2) if (i, j) != (d, d)] + [(d, d, d), (1, d, d)]:
        x = rand(ctx, "l" + "_".join(map(str, s)), s)
        ctx.raises(f"lambda matrix of shape {s}", lambda: get_log_norm(c.t, e.t, lamb_mat=x, **ok))
    for s in ((D, D), (1, 1, d, D, D), (d, D, D + 1) if uniform else (L, d, D, D + 1), (d, D + 1, D) if uniform else (L, d, D + 1, D)):
        x = rand(ctx, "c" + "_".join(map(str, s)), s, cx)
        ctx.raises(f"core of shape {s}", lambda: get_log_norm(x, e.t, **ok))
    sites = [c.a] * L if uniform else list(c.a)
    got = ctx.scalar(get_log_norm(c.t, e.t, **ok))
    ctx.eq("correct calls are unaffected", arr(T.vexp(got)), arr(total(sites, e.a)))


def h_slim(ctx, uniform, d, cx, D=2, L=2, B=2):
    ctx.domain("div", "log", "logz")
    c = ctx.real("c", (d, D, D) if uniform else (L, d, D, D), cx=cx)
    e = ctx.real("e", (2, D), cx=cx)
    z = lambda *s: torch.zeros(*s, dtype=torch.long)
    for s in [(L,), (1, B, L, d)] + ([] if uniform else [(B, n) for n in range(0, L + 3) if n != L]):
        ctx.raises(f"indices of shape {s}", lambda: slim_eval_fun(z(*s), c.t, e.t))
    for s in [(B, L, k) for k in range(0, d + 2) if k != d] + ([] if uniform else [(B, n, d) for n in range(0, L + 3) if n != L]):
        x = rand(ctx, "v" + "_".join(map(str, s)), s)
        ctx.raises(f"vectors of shape {s}", lambda: slim_eval_fun(x, c.t, e.t))
    for s in ((2, D - 1), (2, D + 1), (1, D), (3, D), (D + 1,), (2, D, D)):
        x = rand(ctx, "b" + "_".join(map(str, s)), s, cx)
        ctx.raises(f"boundary vectors of shape {s}", lambda: slim_eval_fun(z(B, L), c.t, x))
    for s in ((D, D), (1, 1, d, D, D)) + (() if uniform else ((L + 1, d, D, D),) + (((1, d, D, D),) if L > 1 else ())):
        x = rand(ctx, "c" + "_".join(map(str, s)), s, cx)
        ctx.raises(f"core of shape {s}", lambda: slim_eval_fun(z(B, L), x, e.t))
    a, s = slim_eval_fun(z(B, L), c.t, e.t)
    sites = [c.a] * L if uniform else list(c.a)
    ctx.eq("correct calls are unaffected", a * torch.exp(s), vec(*[psi(sites, e.a, [0] * L)] * B))


def h_seq(ctx, par, D=2, n=2, B=2):
    kw = dict(parallel_eval=par)
    m = ctx.real("m", (B, n, D, D))
    for s in ((D, D), (D,)) + (((B, n, D, D + 1), (B, n, D + 1, D)) if n > 1 else ()):
        x = rand(ctx, "m" + "_".join(map(str, s)), s)
        ctx.raises(f"matrices of shape {s}", lambda: contract_matseq(x, **kw))
    v = ctx.real("v", (D,))
    for s in ((D - 1,), (D + 1,), (B + 1, D), (B, D - 1), (B, D + 1), ()):
        x = rand(ctx, "v" + "_".join(map(str, s)), s)
        ctx.raises(f"left vector of shape {s}", lambda: contract_matseq(m.t, x, **kw))
        ctx.raises(f"right vector of shape {s}", lambda: contract_matseq(m.t, None, x, **kw))
        ctx.raises(f"right vector of shape {s}, left correct", lambda: contract_matseq(m.t, v.t, x, **kw))
        ctx.raises(f"left vector of shape {s}, right correct", lambda: contract_matseq(m.t, x, v.t, **kw))
    ctx.raises("nothing to contract", lambda: contract_matseq([], **kw))
    ctx.raises("list instead of a vector", lambda: contract_matseq(m.t, [1.0] * D, **kw))
    for name, shapes in (("inner dimensions", [(2, 3), (2, 3)]), ("outer dimension", [(2, 2), (1, 2)]), ("batches", [(2, 2, 2), (3, 2, 2)]), ("rank", [(2,), (2, 2)])):
        ms = [rand(ctx, f"{name}{i}", s) for i, s in enumerate(shapes)]
        ctx.raises("list of matrices: " + name, lambda: contract_matseq(ms, **kw))
    e = np.empty((B,), dtype=object)
    for i in range(B):
        e[i] = chain(list(m.a[i]), v.a, v.a)
    ctx.eq("correct calls are unaffected", contract_matseq(m.t, v.t, v.t, **kw), e)


def h_misc(ctx):
    warnings.simplefilter("ignore")
    for f in (near_eye_init, normal_init):
        for s in ((2, 2), (2,), (3, 2, 2, 3), (3, 2, 3, 2), (2, 2, 2, 3, 2)):
            ctx.raises(f"{f.__name__} {s}", lambda: f(s))
    for k in (dict(init_method="x"), dict(seq_len=0), dict(input_dim=0), dict(bond_dim=0), dict(bond_dim=-1), dict(embed_fun=lambda x: x), dict(init_method=None)):
        a = dict(seq_len=2, input_dim=2, bond_dim=2)
        a.update(k)
        ctx.raises(f"ProbMPS {sorted(k)}", lambda: ProbMPS(**a))
        if "seq_len" not in k:
            a.pop("seq_len")
            ctx.raises(f"ProbUnifMPS {sorted(k)}", lambda: ProbUnifMPS(**a))
    for k in (dict(label_site=-1), dict(label_site=4), dict(path=[0]), dict(path=[0, 1, 2, 3]), dict(path="ab")):
        a = dict(input_dim=3, output_dim=2, bond_dim=2)
        a.update(k)
        ctx.raises(f"MPS {sorted(k)}", lambda: MPS(**a))
    for s in ([(2,), (3,)], [(2, 1), (3, 2)], [(1, 2), (3, 3)], [(2, 3), (4,)]):
        ctx.raises(f"shapes {s}", lambda: shape_broadcast(s))
        ts = [rand(ctx, f"{s}{i}", x + (2,)) for i, x in enumerate(s)]
        ctx.raises(f"batches {s}", lambda: batch_broadcast(ts, (1,) * len(ts)))
    t = rand(ctx, "t", (2, 2))
    ctx.raises("single tensor", lambda: batch_broadcast(t, (1,)))
    ctx.raises("number of counts", lambda: batch_broadcast((t, t), (1,)))
    ctx.raises("negative count", lambda: batch_broadcast((t, t), (1, -1)))
    ctx.raises("more non-batch axes than axes", lambda: batch_broadcast((t, t), (1, 3)))
    m = ProbUnifMPS(2, 2)
    ctx.raises("log_norm needs a length", lambda: m.log_norm(None))


def configs(tier):
    out = []
    big = tier == "thorough"
    for kind in ("fix", "uni"):
        for cx in (False, True):
            for bias in (False, True):
                for emb in (False, True):
                    for L, d in ((1, 2), (2, 2), (2, 3), (3, 2)) + (((2, 1),) if not emb else ()):
                        if (cx or emb) and L * d > 4 and not big:
                            continue
                        if cx and bias and L == 2 and d == 2 and not big:
                            continue
                        out.append(conf(f"prob-{kind}-{'c' if cx else 'r'}{'b' if bias else ''}{'e' if emb else ''}-L{L}d{d}", h_prob, kind=kind, L=L, d=d, cx=cx, bias=bias, emb=emb, B=2 if L != 2 else 3, cost=L * d * (1 + cx)))
    for per in (False, True):
        for par in (False, True):
            for n in (1, 2, 3) + ((4,) if big else ()):
                for site in range(n + 1):
                    for d in (1, 2, 3):
                        for mode in ("static", "adaptive"):
                            if mode == "adaptive" and (n == 1 or d == 3 or per and not big):
                                continue
                            out.append(conf(f"mps-{'per' if per else 'open'}-{'par' if par else 'ser'}-n{n}s{site}d{d}-{mode}", h_mps, n=n, site=site, d=d, per=per, par=par, mode=mode, cost=n))
    for par in (False, True):
        for d in (1, 2, 3):
            for cls in ("MPS", "TI"):
                out.append(conf(f"map-{cls}-{'par' if par else 'ser'}-d{d}", h_map, cls=cls, d=d, par=par))
            for fe in (False, True):
                out.append(conf(f"ti-{'par' if par else 'ser'}-d{d}{'-fe' if fe else ''}", h_ti, d=d, par=par, fe=fe))
        for N in (2, 3, 4):
            out.append(conf(f"path-{'par' if par else 'ser'}-{N}", h_path, par=par, N=N))
        for D in (2, 3):
            for n in (1, 2, 3, 4):
                for B in (2, 3):
                    out.append(conf(f"seq-{'par' if par else 'ser'}-D{D}n{n}B{B}", h_seq, par=par, D=D, n=n, B=B))
    for uniform in (False, True):
        for cx in (False, True):
            for d in (1, 2, 3):
                for L in (1, 2):
                    out.append(conf(f"norm-{'u' if uniform else 's'}{'c' if cx else 'r'}-d{d}L{L}", h_norm, uniform=uniform, d=d, cx=cx, L=L, cost=d * L))
                    out.append(conf(f"slim-{'u' if uniform else 's'}{'c' if cx else 'r'}-d{d}L{L}", h_slim, uniform=uniform, d=d, cx=cx, L=L, cost=d * L))
    out.append(conf("misc", h_misc))
    return out
