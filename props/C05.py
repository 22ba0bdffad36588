"""contract_matseq: ordered matrix product"""
from .common import *
from torchmps.mps_base import contract_matseq, mat_reduce_par, mat_reduce_seq

BOUNDS = {
    "sequence length": "0..5 (8 thorough) for arbitrary matrices, 6..11 (17 thorough) for matrices ((a, b), (0, 1))", "matrix size": "1..3, also rectangular and mixed",
    "batch shapes": "none, (2,), (2,1)/(1,2)/(2,) against each other, zero-size batches",
    "layout": "contiguous tensors, and non-contiguous views with a storage offset",
    "values": "every real (complex) entry of matrices and boundary vectors, including all that make products vanish",
    "outside": "rounding, overflow",
    "larger sizes": "up to 64 (100 thorough) matrices, sizes up to 17, batches up to 130; with 1..6 symbolic real numbers per tensor, the other entries being fixed",
}
ASSUMPTIONS = ["real arithmetic instead of floating point"]


def result(ctx, out, log, nb, label="scale shape"):
    """terms of the product the call stands for"""
    if not log:
        return ctx.terms(out)
    val, ls = out
    ctx.true("scale is real", not ls.dtype.is_complex)
    ctx.true(label, tuple(ls.shape) == tuple(val.shape[:nb]) + (1,) * (val.ndim - nb))
    ctx.true("scale is finite", torch.isfinite(ls).all())
    return S.ew(lambda x, y: T.cmul(x, T.vexp(y)), ctx.terms(val), ctx.terms(ls))


def spec(mats, l, r):
    """mats: list of 2-d arrays"""
    if not mats:
        if l is None:
            return r
        return l if r is None else arr(dot(l, r))
    x = mats[0]
    for m in mats[1:]:
        x = mm(x, m)
    if l is not None:
        x = mm(l[None], x)[0]
        return arr(dot(x, r)) if r is not None else x
    return mm(x, r[:, None])[:, 0] if r is not None else x


def h_basic(ctx, L, D, bnd, par, log, as_list, cx):
    M = ctx.real("M", (L, D, D), cx=cx)
    l = ctx.real("l", (D,), cx=cx) if "l" in bnd else None
    r = ctx.real("r", (D,), cx=cx) if "r" in bnd else None
    mats = [M.t[i] for i in range(L)] if as_list else M.t
    out = contract_matseq(mats, l.t if l else None, r.t if r else None, parallel_eval=par, log_format=log)
    A = result(ctx, out, log, 0)
    if not L and not bnd:
        e = arr([[T.ONE if i == j else T.ZERO for j in range(D)] for i in range(D)])
    elif not L and not as_list and len(bnd) == 2:
        e = arr(dot(l.a, r.a))
    else:
        e = spec([M.a[i] for i in range(L)], l and l.a, r and r.a)
    ctx.eq("product", A, e)
    if L:
        ctx.eq("inputs unchanged", M.t, M.a)


def h_batch(ctx, dims, mb, lb, rb, par, log, cx, kind):
    """dims: D_0..D_L; mb: batch shape per matrix (or one for a tensor); lb/rb: batch
    shape of the vectors or None"""
    L = len(dims) - 1
    if kind == "tensor":
        M = ctx.real("M", mb + (L, dims[0], dims[0]), cx=cx)
        arg = M.t
        ms = [M.a[..., i, :, :] for i in range(L)]
        bshapes = [mb]
    else:
        Ms = [ctx.real(f"M{i}", mb[i] + (dims[i], dims[i + 1]), cx=cx) for i in range(L)]
        arg = [m.t for m in Ms]
        if kind == "tuple":
            arg = tuple(arg)
        ms = [m.a for m in Ms]
        bshapes = list(mb)
    l = ctx.real("l", lb + (dims[0],), cx=cx) if lb is not None else None
    r = ctx.real("r", rb + (dims[-1],), cx=cx) if rb is not None else None
    bshapes += [b for b in (lb, rb) if b is not None]
    batch = np.broadcast_shapes(*bshapes)
    out = contract_matseq(arg, l.t if l else None, r.t if r else None, parallel_eval=par, log_format=log)
    A = result(ctx, out, log, len(batch))

    def at(a, nn, p):
        a = np.broadcast_to(a, batch + a.shape[a.ndim - nn:])
        return a[p]

    e = None
    for p in np.ndindex(batch):
        x = spec([at(m, 2, p) for m in ms], at(l.a, 1, p) if l else None, at(r.a, 1, p) if r else None)
        if e is None:
            e = np.empty(batch + x.shape, dtype=object)
        e[p] = x if x.ndim else x[()]
    if e is None:
        ctx.true("empty batch", tuple(A.shape[: len(batch)]) == batch)
        return
    ctx.eq("product", A, e)


def h_zero(ctx, par, log, bnd, L, pos):
    """a nilpotent pair at `pos`: the product vanishes for every value"""
    D = 2
    M = ctx.real("M", (L, D, D))
    z = M.a.copy()
    z[pos, 0, 0] = z[pos, 1, 0] = z[pos, 1, 1] = T.ZERO
    z[pos + 1, 0, 0] = z[pos + 1, 1, 0] = z[pos + 1, 1, 1] = T.ZERO
    mats = ctx.tensor(z)
    l = ctx.real("l", (D,)) if "l" in bnd else None
    r = ctx.real("r", (D,)) if "r" in bnd else None
    out = contract_matseq(mats, l.t if l else None, r.t if r else None, parallel_eval=par, log_format=log)
    A = result(ctx, out, log, 0)
    ctx.eq("exact zeros", A, np.vectorize(lambda x: T.ZERO, otypes=[object])(A) if A.ndim else arr(T.ZERO))
    raw = ctx.terms(out[0] if log else out)
    ctx.eq("raw value is zero", raw, np.vectorize(lambda x: T.ZERO, otypes=[object])(raw) if raw.ndim else arr(T.ZERO))


def h_long(ctx, L, bnd, par, log):
    """long products of affine maps (matrices ((a, b), (0, 1)) and their transposes, which
    do not commute)"""
    M = ctx.real("M", (L, 2))
    z = np.empty((L, 2, 2), dtype=object)
    for i in range(L):
        z[i] = [[M.a[i, 0], M.a[i, 1]], [T.ZERO, T.ONE]]
    l = ctx.real("l", (2,)) if "l" in bnd else None
    r = ctx.real("r", (2,)) if "r" in bnd else None
    out = contract_matseq(ctx.tensor(z), l.t if l else None, r.t if r else None, parallel_eval=par, log_format=log)
    ctx.eq("product", result(ctx, out, log, 0), spec([z[i] for i in range(L)], l and l.a, r and r.a))


def h_reject(ctx):
    M = ctx.real("M", (3, 2, 3)).t
    v, w = ctx.real("v", (2,)).t, ctx.real("w", (3,)).t
    e = (ValueError, RuntimeError, AssertionError)
    ctx.raises("empty list without boundaries", lambda: contract_matseq([]), ValueError)
    ctx.raises("empty tuple without boundaries", lambda: contract_matseq(()), ValueError)
    ctx.raises("rectangular tensor", lambda: contract_matseq(M), e)
    ctx.raises("non-matching list", lambda: contract_matseq([M[0], M[0].t() @ M[0], M[0]]), e)
    ctx.raises("left vector too long", lambda: contract_matseq([M[0]], left_vec=w), e)
    ctx.raises("right vector too short", lambda: contract_matseq([M[0]], right_vec=v), e)
    ctx.raises("right vector too short, parallel", lambda: contract_matseq([M[0]], right_vec=v, parallel_eval=True), e)
    B = ctx.real("B", (3, 4, 2, 2)).t
    C = ctx.real("C", (2, 2, 2)).t
    ctx.raises("incompatible batches", lambda: contract_matseq([B[:, 0], C]), ValueError)
    ctx.raises("incompatible batches with a vector", lambda: contract_matseq(B, left_vec=C[:, 0]), ValueError)
    ctx.raises("vectors must be tensors", lambda: contract_matseq(B, left_vec=[1.0, 2.0]), e)
    ok = contract_matseq([M[0], w[:, None]])
    ctx.eq("a correct call afterwards", ok, mm(ctx.terms(M[0]), ctx.terms(w)[:, None]))


def configs(tier):
    out = []
    big = tier == "thorough"
    for L, D in ((1, 2), (2, 2), (3, 2), (4, 2), (5, 1), (2, 3), (0, 2), (1, 1), (6, 1), (5, 2)) + (((6, 2), (7, 2), (8, 1), (3, 3), (4, 3)) if big else ()):
        for bnd in ("", "l", "r", "lr"):
            for par in (False, True):
                for log in (False, True):
                    for as_list in (False, True):
                        for cx in (False, True):
                            if L == 0 and as_list and not bnd:
                                continue  # rejected, see h_reject
                            if cx and L * D > (4 if not big else 6) or as_list and L > 3 and not big:
                                continue
                            if (L, D) in ((5, 2), (2, 3)) and as_list and not big:
                                continue
                            out.append(conf(f"L{L}D{D}{bnd}p{int(par)}g{int(log)}{'l' if as_list else ''}{'c' if cx else ''}", h_basic, cost=L * D * (1 + 3 * cx), L=L, D=D, bnd=bnd, par=par, log=log, as_list=as_list, cx=cx))
    N, B2 = (), (2,)
    lists = [
        ((2, 3), (N,)), ((1, 2, 3), (N, N)), ((3, 2, 1), (N, N)), ((2, 3, 1, 2), (N, N, N)), ((2, 1, 2), (N, N)), ((1, 2, 2, 1), (N, N, N)),
        ((2, 2, 2), (B2, N)), ((2, 3, 2), (N, B2)), ((2, 1, 2), (B2, B2)), ((2, 2, 2), ((2, 1), (1, 2))), ((1, 2, 1), ((2, 1), (2,))), ((2, 2), (B2,)), ((2, 2, 2, 2), (B2, N, B2)),
    ]
    if big:
        lists += [((2, 3, 2, 3), (N, N, N)), ((3, 1, 3, 2), (N, B2, N)), ((2, 2, 2), ((2, 2), (2,))), ((2, 2, 1, 2, 2), (N, N, N, N)), ((2, 2, 2, 2), ((2, 1), (1, 2), (2,)))]
    for i, (dims, mb) in enumerate(lists):
        for lb in (None, N, B2):
            for rb in (None, N, B2):
                for par in (False, True):
                    for log in (False, True):
                        for cx in (False, True) if big or i in (3, 6) else (False,):
                            if lb == B2 and rb == B2 and not (i in (1, 8, 11) or big):
                                continue
                            if cx and lb is not None and rb is not None and not big:
                                continue
                            out.append(conf(f"list{i}-l{lb}-r{rb}-p{int(par)}g{int(log)}{'c' if cx else ''}".replace(" ", ""), h_batch, dims=dims, mb=mb, lb=lb, rb=rb, par=par, log=log, cx=cx, kind="tuple" if i % 2 else "list"))
    for L in (1, 2, 3) + ((4,) if big else ()):
        for mb in (B2, (2, 1), (0,)):
            for lb in (None, N, B2) if mb != (0,) else (None, N, (1,)):
                for rb in (None, N, B2) if mb != (0,) else (None, N):
                    for par in (False, True):
                        for log in (False, True):
                            out.append(conf(f"tens-L{L}-{mb}-l{lb}-r{rb}-p{int(par)}g{int(log)}".replace(" ", ""), h_batch, dims=(2,) * (L + 1), mb=mb, lb=lb, rb=rb, par=par, log=log, cx=False, kind="tensor"))
    for L, pos in ((2, 0), (3, 0), (3, 1), (4, 2), (5, 1)):
        for bnd in ("", "l", "r", "lr"):
            for par in (False, True):
                for log in (False, True):
                    out.append(conf(f"zero-L{L}at{pos}{bnd}p{int(par)}g{int(log)}", h_zero, L=L, pos=pos, bnd=bnd, par=par, log=log))
    out.append(conf("rejections", h_reject))
    # long products: every order of reduction
    for L in (6, 7, 8, 9, 10, 11) + (tuple(range(12, 18)) if big else ()):
        for bnd in ("", "l", "r", "lr"):
            for par in (False, True):
                out.append(conf(f"long-L{L}{bnd}p{int(par)}", h_long, cost=L, L=L, bnd=bnd, par=par, log=L % 2 == 0))
    # larger sizes with few symbolic entries
    big_ = []
    for L, D in ((6, 3), (9, 2), (13, 3), (16, 2), (17, 3), (33, 2), (64, 2), (3, 8), (2, 17), (5, 5)) + (((100, 2), (31, 3), (7, 11)) if big else ()):
        for bnd in ("", "l", "r", "lr"):
            for par in (False, True):
                for log in (False, True):
                    for cx in (False, True):
                        if cx and L > 17 and not big:
                            continue
                        big_.append(sparse(conf(f"L{L}D{D}{bnd}p{int(par)}g{int(log)}{'c' if cx else ''}", h_basic, cost=L * D * (1 + 3 * cx), L=L, D=D, bnd=bnd, par=par, log=log, as_list=L % 2 == 0, cx=cx), 4))
    B, B3 = (9,), (17, 1)
    for i, (dims, mb) in enumerate([
        ((5, 2, 7, 3), (N, N, N)), ((1, 9, 1, 4, 6, 2), (N, N, B, N, N)), ((4, 4, 4, 4, 4, 4), (B, N, B3, N, B, N)), ((8, 1, 8), (B3, B)), ((6, 5), (B,)),
        ((2, 3, 4, 5, 4, 3, 2, 1), (N,) * 7), ((3,) * 10, (B,) * 9), ((2,) * 12, (N, B) + (N,) * 9), ((4, 3, 2, 2, 5, 1, 1, 3), (N, N, N, N, B, N, N)),
    ]):
        for lb in (None, N, B, B3):
            for rb in (None, N, B):
                if (lb == B3 and i not in (2, 3) or lb == N) and not big:
                    continue
                for par in (False, True):
                    big_.append(sparse(conf(f"list-big{i}-l{lb}-r{rb}-p{int(par)}".replace(" ", ""), h_batch, dims=dims, mb=mb, lb=lb, rb=rb, par=par, log=i % 2 == 0, cx=i % 4 == 0, kind="tuple" if i % 2 else "list"), 1 if i == 8 else 2))
    for L, D, mb in ((9, 3, (9,)), (17, 2, (5, 4)), (6, 2, (130,)), (3, 7, (33,))):
        for lb in (None, N, mb):
            for rb in (None, N, mb):
                for par in (False, True):
                    big_.append(sparse(conf(f"tens-L{L}D{D}-{mb}-l{lb}-r{rb}-p{int(par)}".replace(" ", ""), h_batch, dims=(D,) * (L + 1), mb=mb, lb=lb, rb=rb, par=par, log=L % 2 == 0, cx=False, kind="tensor"), 2))
    return out + big_ + [strided(c) for c in out if c["name"].startswith(("L2D2", "L3D2", "list1-", "list6", "tens-L2"))] + evals(out, 23)
