"""get_mat_slices and slim_eval_fun"""
from .common import *
from torchmps.mps_base import get_mat_slices, slim_eval_fun

BOUNDS = {
    "batch": "0..3", "seq_len": "1..4 (5 thorough)", "input_dim": "1..3", "bond_dim": "1..3",
    "layout": "contiguous tensors, and non-contiguous views with a storage offset",
    "values": "every real (complex) core, boundary and vector entry; every index in range",
    "outside": "indices outside 0..input_dim-1 (negative ones count from the end, as in torch); rounding",
    "larger sizes": "batch up to 130, seq_len up to 33, input_dim up to 11, bond_dim up to 9; with 1..6 symbolic real numbers per tensor, the other entries being fixed",
}
ASSUMPTIONS = ["real arithmetic instead of floating point"]


def core(ctx, L, d, D, uni, cx):
    c = ctx.real("A", (d, D, D) if uni else (L, d, D, D), cx=cx)
    sites = [c.a] * L if uni else [c.a[t] for t in range(L)]
    return c, sites


def data(ctx, inp, B, L, d, icx=False):
    if inp == "idx":
        x = ctx.ints("x", (B, L), 0, d - 1)
    else:
        x = ctx.real("v", (B, L, d), cx=icx)
    return x


def slice_of(s, x):
    """s: (d, D, D); x: symbolic index or vector"""
    if isinstance(x, np.ndarray):
        return lin(x, s)
    D = s.shape[1]
    m = np.empty((D, s.shape[2]), dtype=object)
    for p in np.ndindex(m.shape):
        m[p] = pick([s[i][p] for i in range(s.shape[0])], x)
    return m


def h_slices(ctx, B, L, d, D, uni, cx, inp, icx):
    c, sites = core(ctx, L, d, D, uni, cx)
    x = data(ctx, inp, B, L, d, icx)
    out = get_mat_slices(x.t, c.t)
    e = np.empty((B, L, D, D), dtype=object)
    for b in range(B):
        for t in range(L):
            e[b, t] = slice_of(sites[t], x.a[b, t])
    ctx.true("dtype", out.dtype.is_complex == cx)
    ctx.eq("slices", out, e)
    ctx.eq("core unchanged", c.t, c.a)
    ctx.eq("input unchanged", x.t, x.a)


def h_slim(ctx, B, L, d, D, uni, cx, inp, icx):
    c, sites = core(ctx, L, d, D, uni, cx)
    e = ctx.real("e", (2, D), cx=cx)
    x = data(ctx, inp, B, L, d, icx)
    val, ls = slim_eval_fun(x.t, c.t, e.t)
    ctx.true("shapes", tuple(val.shape) == tuple(ls.shape) == (B,))
    ctx.true("real scale", not ls.dtype.is_complex)
    ctx.true("finite scale", torch.isfinite(ls).all())
    got = S.ew(lambda p, q: T.cmul(p, T.vexp(q)), ctx.terms(val), ctx.terms(ls))
    want = np.empty((B,), dtype=object)
    for b in range(B):
        want[b] = chain([slice_of(sites[t], x.a[b, t]) for t in range(L)], e.a[0], e.a[1])
    ctx.eq("amplitude", got, want)
    ctx.eq("core unchanged", c.t, c.a)
    ctx.eq("boundary unchanged", e.t, e.a)
    ctx.eq("input unchanged", x.t, x.a)


def h_onehot(ctx, L, d, D, uni, cx):
    """indices and their one-hot vectors are equivalent, for all index sequences"""
    c, sites = core(ctx, L, d, D, uni, cx)
    e = ctx.real("e", (2, D), cx=cx)
    idx = torch.tensor(seqs(L, d))
    hot = torch.nn.functional.one_hot(idx, d).to(torch.get_default_dtype())
    ctx.eq("slices", get_mat_slices(idx, c.t), ctx.terms(get_mat_slices(hot, c.t)))
    a, la = slim_eval_fun(idx, c.t, e.t)
    b, lb = slim_eval_fun(hot, c.t, e.t)
    f = lambda p, q: T.cmul(p, T.vexp(q))
    ctx.eq("slim", S.ew(f, ctx.terms(a), ctx.terms(la)), S.ew(f, ctx.terms(b), ctx.terms(lb)))


def h_zero(ctx, uni, inp):
    """amplitudes that vanish identically come out as zero with a finite scale"""
    d, D, L = 2, 2, 3
    c = ctx.real("A", (d, D, D) if uni else (L, d, D, D))
    z = c.a.copy()
    z[..., 0, 0] = z[..., 1, 0] = z[..., 1, 1] = T.ZERO  # nilpotent slices
    e = ctx.real("e", (2, D))
    x = data(ctx, inp, 2, L, d)
    val, ls = slim_eval_fun(x.t, ctx.tensor(z), e.t)
    ctx.true("finite scale", torch.isfinite(ls).all())
    ctx.eq("zero", val, vec(T.ZERO, T.ZERO))


def configs(tier):
    out = []
    big = tier == "thorough"
    for uni in (True, False):
        u = "uni" if uni else "fix"
        for cx in (False, True):
            c = "c" if cx else "r"
            for inp in ("idx", "vec"):
                for B, L, d, D in ((2, 3, 2, 2), (3, 2, 3, 2), (1, 4, 2, 1), (2, 2, 2, 3), (3, 1, 1, 2), (2, 2, 3, 1), (0, 2, 2, 2), (1, 1, 1, 1), (2, 2, 2, 2), (1, 2, 2, 2), (1, 3, 3, 1), (3, 3, 3, 1)) + (((3, 4, 2, 2), (2, 5, 2, 2), (2, 3, 3, 3)) if big else ()):
                    for icx in (False, True) if cx and inp == "vec" else (False,):
                        n = f"{u}-B{B}L{L}d{d}D{D}{c}-{inp}{'c' if icx else ''}"
                        out.append(conf("slice-" + n, h_slices, B=B, L=L, d=d, D=D, uni=uni, cx=cx, inp=inp, icx=icx))
                        out.append(conf("slim-" + n, h_slim, cost=L * D * (1 + 3 * cx), B=B, L=L, d=d, D=D, uni=uni, cx=cx, inp=inp, icx=icx))
            for L, d, D in ((1, 3, 2), (2, 2, 2), (3, 2, 2), (2, 3, 1)) + (((4, 2, 2), (3, 3, 2)) if big else ()):
                out.append(conf(f"onehot-{u}-L{L}d{d}D{D}{c}", h_onehot, L=L, d=d, D=D, uni=uni, cx=cx))
        for inp in ("idx", "vec"):
            out.append(conf(f"zero-{u}-{inp}", h_zero, uni=uni, inp=inp))
    # larger sizes with few symbolic entries
    big_ = []
    for uni in (True, False):
        for cx in (False, True):
            for inp in ("idx", "vec"):
                for B, L, d, D in ((4, 6, 4, 3), (9, 5, 2, 4), (17, 3, 11, 2), (2, 17, 2, 3), (33, 2, 3, 2), (130, 2, 2, 2), (2, 3, 4, 9), (5, 5, 5, 5), (3, 9, 9, 3), (2, 33, 3, 2), (2, 2, 300, 1)):
                    for icx in (False, True) if cx and inp == "vec" else (False,):
                        n = f"{'uni' if uni else 'fix'}-B{B}L{L}d{d}D{D}{'c' if cx else 'r'}-{inp}{'c' if icx else ''}"
                        big_.append(sparse(conf("slice-" + n, h_slices, cost=B * L, B=B, L=L, d=d, D=D, uni=uni, cx=cx, inp=inp, icx=icx), 4, 10))
                        big_.append(sparse(conf("slim-" + n, h_slim, cost=B * L * D * (1 + 3 * cx), B=B, L=L, d=d, D=D, uni=uni, cx=cx, inp=inp, icx=icx), 1 if uni and L > 5 else 2, 4 if L < 17 else 2))
    return out + big_ + [strided(c) for c in out if any(k in c["name"] for k in ("B2L2d2D3", "B2L2d2D2", "B3L2d3D2", "L2d2D2", "zero"))] + evals(out, 7)
