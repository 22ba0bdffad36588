"""get_log_norm: log of sum_ij psi_i conj(psi_j) prod_t Lambda[i_t, j_t]"""
from .common import *
from torchmps.mps_base import get_log_norm

BOUNDS = {
    "length": "1..4 (double enumeration of all index pairs up to 3)", "input_dim": "1..3", "bond_dim": "1..3",
    "values": "every real (complex) entry of cores and boundary vectors; positive scalar and diagonal metrics, diagonally dominant Hermitian metrics with diagonal in [2,4] and off-diagonal entries up to 1/2",
    "outside": "rounding; metrics for which an intermediate trace vanishes",
    "larger sizes": "length 5..33 (40 thorough), input_dim up to 9, bond_dim up to 12; with 1..6 symbolic real numbers per tensor, the other entries being fixed",
}
ASSUMPTIONS = ["real arithmetic instead of floating point", "intermediate transfer traces and the norm are non-zero (log 0 is -inf)"]


def metric(ctx, kind, d, cx):
    """(tensor or None, d x d terms)"""
    z = np.empty((d, d), dtype=object)
    z[:] = T.ZERO
    if kind == "none":
        for i in range(d):
            z[i, i] = T.ONE
        return None, z
    if kind == "scalar":
        s = ctx.real("lam", (), lo=Fr(1, 8), hi=4)
        for i in range(d):
            z[i, i] = s.a[()]
        return s.t, z
    if kind == "diag":
        s = ctx.real("lam", (d,), lo=Fr(1, 8), hi=4)
        for i in range(d):
            z[i, i] = s.a[i]
        return s.t, z
    # Hermitian, diagonally dominant and therefore positive: with an indefinite metric
    # the trace of a transfer step can be negative and its logarithm undefined
    for i in range(d):
        z[i, i] = ctx.real(f"lam{i}{i}", (), lo=2, hi=4).a[()]
        for j in range(i):
            x = ctx.real(f"lam{i}{j}", (), cx=cx, lo=-Fr(1, 2), hi=Fr(1, 2)).a[()]
            z[i, j] = x
            z[j, i] = x.conjugate()
    return ctx.tensor(z, cdtype() if cx else None), z


def cdtype():
    return torch.complex128 if torch.get_default_dtype() == torch.float64 else torch.complex64


def norm2(sites, e, lam):
    """double enumeration"""
    L, d = len(sites), sites[0].shape[0]
    out = []
    amp = {i: psi(sites, e, i) for i in seqs(L, d)}
    for i in amp:
        for j in amp:
            w = T.ONE
            for t in range(L):
                w = T.cmul(w, lam[i[t], j[t]])
            if w is T.ZERO:
                continue
            out.append(T.cmul(w, T.cmul(amp[i], amp[j].conjugate())))
    return T.csum(out)


def norm_tr(sites, e, lam):
    """the same by transfer matrices on the doubled space, right to left"""
    D, d = sites[0].shape[1], sites[0].shape[0]
    R = np.empty((D, D), dtype=object)
    for p in np.ndindex(D, D):
        R[p] = T.cmul(e[1][p[0]], e[1][p[1]].conjugate())
    conj = np.frompyfunc(lambda x: x.conjugate(), 1, 1)
    for s in sites[::-1]:
        acc = None
        for i in range(d):
            for j in range(d):
                if lam[i, j] is T.ZERO:
                    continue
                t = mm(mm(s[i], R), conj(s[j]).T)
                t = S.ew(lambda x: T.cmul(lam[i, j], x), t)
                acc = t if acc is None else add(acc, t)
        R = acc
    conj_l = conj(e[0])
    return dot(e[0], S.matmul2(R, conj_l[:, None])[:, 0])


def h(ctx, L, d, D, cx, kind, uni, spec):
    ctx.domain("div", "log", "logz")
    c = ctx.real("A", (d, D, D) if uni else (L, d, D, D), cx=cx)
    e = ctx.real("e", (2, D), cx=cx)
    lt, lam = metric(ctx, kind, d, cx)
    out = get_log_norm(c.t, e.t, length=L if uni else None, lamb_mat=lt)
    ctx.true("real scalar", tuple(out.shape) == () and not out.dtype.is_complex)
    sites = [c.a] * L if uni else [c.a[t] for t in range(L)]
    z = (norm2 if spec == "enum" else norm_tr)(sites, e.a, lam)
    ctx.eq("exp(log norm)", exp(ctx.terms(out)), arr(z.real))


def h_equiv(ctx, L, d, D, cx, uni):
    """descriptions of the same metric agree; uniform = repeated site-dependent"""
    ctx.domain("div", "log", "logz")
    c = ctx.real("A", (d, D, D), cx=cx)
    e = ctx.real("e", (2, D), cx=cx)
    core = (lambda: c.t) if uni else (lambda: torch.stack([c.t] * L))
    ln = (lambda **k: get_log_norm(core(), e.t, length=L, **k)) if uni else (lambda **k: get_log_norm(core(), e.t, **k))
    s = ctx.real("s", (), lo=Fr(1, 8), hi=4)
    base = exp(ctx.terms(ln()))
    eye = torch.eye(d)
    dt = c.t.dtype
    k = T.vpow(s.a[()], L)
    ref = mul(base, arr(k))
    ctx.eq("scalar metric", exp(ctx.terms(ln(lamb_mat=s.t))), ref)
    ctx.eq("diagonal metric", exp(ctx.terms(ln(lamb_mat=s.t * torch.ones(d)))), ref)
    ctx.eq("matrix metric", exp(ctx.terms(ln(lamb_mat=(s.t * eye).to(dt)))), ref)
    ctx.eq("identity metric", exp(ctx.terms(ln(lamb_mat=eye.to(dt)))), base)
    if uni:
        ctx.eq("site-dependent core", exp(ctx.terms(get_log_norm(torch.stack([c.t] * L), e.t))), base)
        ctx.eq("site-dependent core with length", exp(ctx.terms(get_log_norm(torch.stack([c.t] * L), e.t, length=L))), base)


def h_zero_len(ctx, D, cx):
    ctx.domain("div", "log", "logz")
    c = ctx.real("A", (2, D, D), cx=cx)
    e = ctx.real("e", (2, D), cx=cx)
    out = get_log_norm(c.t, e.t, length=0)
    ctx.eq("empty chain", exp(ctx.terms(out)), arr(T.cabs2(dot(e.a[0], e.a[1]))))


def configs(tier):
    out = []
    big = tier == "thorough"
    for uni in (True, False):
        u = "uni" if uni else "fix"
        for kind in ("none", "scalar", "diag", "mat"):
            for cx in (False, True):
                c = "c" if cx else "r"
                for L, d, D in ((1, 2, 2), (2, 2, 1), (1, 3, 2), (2, 2, 2), (1, 2, 3), (2, 1, 2), (3, 2, 1)) + (((3, 2, 2), (2, 3, 2)) if big or not cx else ()):
                    if cx and kind == "mat" and L * D >= 4 and not big and (L, d, D) != (2, 2, 2):
                        continue
                    if L * D * d >= 12 and (kind == "mat" or cx):
                        if not big or cx:
                            continue
                    out.append(conf(f"{u}-{kind}-L{L}d{d}D{D}{c}", h, cost=L * D * d * (1 + 3 * cx), L=L, d=d, D=D, cx=cx, kind=kind, uni=uni, spec="enum"))
                for L, d, D in ((3, 2, 2), (4, 2, 2)) + (((2, 2, 3), (5, 2, 2), (3, 3, 2)) if big else ()):
                    if cx and (L > 3 or D > 2 or d > 2 or (kind == "mat" and not big)):
                        continue
                    out.append(conf(f"{u}-{kind}-tr-L{L}d{d}D{D}{c}", h, cost=L * D * d * (1 + 3 * cx), L=L, d=d, D=D, cx=cx, kind=kind, uni=uni, spec="transfer"))
        for cx in (False, True):
            for L in (1, 2, 3):
                out.append(conf(f"{u}-equiv-L{L}{'c' if cx else 'r'}", h_equiv, L=L, d=2, D=2, cx=cx, uni=uni))
    for cx in (False, True):
        out.append(conf(f"zero-len-{'c' if cx else 'r'}", h_zero_len, D=2, cx=cx))
    out += [strided(c) for c in out[::2]]
    # larger sizes with few symbolic entries
    for uni in (True, False):
        for kind in ("none", "scalar", "diag", "mat"):
            for cx in (False, True):
                for L, d, D in ((5, 2, 2), (8, 2, 3), (17, 2, 2), (2, 5, 2), (2, 2, 7), (3, 4, 5), (33, 1, 2), (2, 9, 3), (1, 2, 12)) + (((40, 2, 2), (3, 12, 3), (2, 3, 20)) if big else ()):
                    if cx and uni and L > 4 and not big or cx and kind in ("mat", "diag") and L == 3 and not big:
                        continue
                    if kind == "mat" and d > 5 and not big or L == 33 and uni and not big or L == 17 and uni and not big:
                        continue
                    out.append(sparse(conf(f"{'uni' if uni else 'fix'}-{kind}-tr-L{L}d{d}D{D}{'c' if cx else 'r'}", h, cost=L * D * d, L=L, d=d, D=D, cx=cx, kind=kind, uni=uni, spec="transfer"), 2 if L < 5 else 1, 4 if L < 5 else 3 if L < 8 else 2 if uni or cx or kind in ("diag", "mat") else 3))
    return out + evals(out, 5)
