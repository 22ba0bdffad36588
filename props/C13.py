"""svd_flex returns a faithful truncated factorisation"""
from .common import *
from torchmps.utils import svd_flex

BOUNDS = {
    "matrix shapes": "1x1 .. 4x4 after grouping up to four indices of size 1..3", "max_D": "none, 1..6", "cutoff": "every real in [0, 4] (positive when max_D exceeds the number of singular values, since cutoff 0 then counts the padding)",
    "index strings": "twelve, covering every position of the new bond, permuted and interleaved index orders",
    "values": "every real (complex) tensor, through torch's SVD contract: A = U diag(S) V^H, orthonormal columns, S sorted and non-negative",
    "outside": "accuracy of the SVD itself; rounding",
}
ASSUMPTIONS = [
    "real arithmetic instead of floating point",
    "torch.linalg.svd returns one fixed decomposition with the properties above (decompositions of permuted or transposed matrices are permuted or transposed accordingly)",
]

REVERSE = "the reversed string contracts the factors again"


def spec(ctx, a, s, max_D, cutoff):
    """(kept U, S, V, truncation, U S V of what is kept as tensor in the input's order,
    all singular values)"""
    init, post = s.replace(" ", "").split("->")
    ls, rs = post.split(",")
    bond = (set(ls) & set(rs)).pop()
    lp, rp = ls.replace(bond, ""), rs.replace(bond, "")
    perm = [init.index(c) for c in lp + rp]
    t = np.transpose(a, perm)
    n = int(np.prod(t.shape[: len(lp)]))
    A = t.reshape(n, -1)
    U, Sg, V = ctx.svd(A, ctx.dtype)
    top = min(len(Sg), max_D or len(Sg))
    k = 0
    while k < top and ctx.holds(T.vge(T.lift(Sg[k]), T.lift(cutoff))):
        k += 1
    prod = np.empty(A.shape, dtype=object)
    for p in np.ndindex(A.shape):
        prod[p] = T.csum([T.cmul(T.cmul(U[p[0], j], Sg[j]), V[j, p[1]]) for j in range(k)])
    back = np.transpose(prod.reshape(t.shape), np.argsort(perm))
    return k, back, Sg, (ls, rs, bond, init)


def contract(l, r, ls, rs, init, bond):
    """sum over the bond of two arrays of terms, as in einsum"""
    dims = {}
    for st, x in ((ls, l), (rs, r)):
        for c, n in zip(st, x.shape):
            dims[c] = n
    out = np.empty([dims[c] for c in init], dtype=object)
    for p in np.ndindex(out.shape):
        at = dict(zip(init, p))
        terms_ = []
        for j in range(dims[bond]):
            at[bond] = j
            terms_.append(T.cmul(l[tuple(at[c] for c in ls)], r[tuple(at[c] for c in rs)]))
        out[p] = T.csum(terms_)
    return out


def unit(ctx, label, m, k):
    """m: (rows, bond) with orthonormal first k columns, the others zero"""
    D = m.shape[1]
    g = np.empty((D, D), dtype=object)
    w = np.empty((D, D), dtype=object)
    for i in range(D):
        for j in range(D):
            g[i, j] = T.csum([T.cmul(cj(m[a, i]), m[a, j]) for a in range(m.shape[0])])
            w[i, j] = T.ONE if i == j and i < k else T.ZERO
    ctx.eq(label, g, w)


def cj(x):
    return x.conjugate() if isinstance(x, T.CV) else x


def h(ctx, s, shape, max_D, right, cx, cut, sv, dbl=False):
    ctx.svd_orth = True
    base = torch.float64 if dbl else torch.get_default_dtype()
    ctx.dtype = {torch.float32: torch.complex64, torch.float64: torch.complex128}[base] if cx else base
    x = ctx.real("A", shape, cx=cx, dtype=ctx.dtype)
    cutoff = ctx.num("cutoff", 0, 4) if cut else 1e-10
    c = ctx.scalar(cutoff)
    if cut and max_D and max_D > len(ctx_shape(shape, s)):
        ctx.assume(T.vgt(T.lift(c), T.ZERO))  # nothing distinguishes padding from zeros
    n = len(ctx_shape(shape, s))
    kw = {}
    vec_ = None
    if sv:
        vec_ = torch.full((max_D or n,), -7.0, dtype=base)
        kw["sv_vec"] = vec_
    if not right:
        kw["sv_right"] = False
    try:
        l, r, k = svd_flex(x.t, s, max_D=max_D, cutoff=cutoff, **kw)
    except RuntimeError as e:
        if type(e).__name__ in ("Unsupported", "Budget"):
            raise
        want, _, _, _ = spec(ctx, x.a, s, max_D, c)
        ctx.true("only truncation to nothing is an error", want == 0)
        return
    want, prod, Sg, (ls, rs, bond, init) = spec(ctx, x.a, s, max_D, c)
    ctx.true("truncation to nothing is an error", want > 0)
    ctx.true("retained dimension", int(k) == want)
    ctx.true("dtype", l.dtype == ctx.dtype and r.dtype == ctx.dtype)
    la, ra = ctx.terms(l), ctx.terms(r)
    D = max_D or want
    dims = dict(zip(init, shape))
    dims[bond] = D
    ctx.true("left shape", la.shape == tuple(dims[q] for q in ls))
    ctx.true("right shape", ra.shape == tuple(dims[q] for q in rs))
    ctx.eq(REVERSE, contract(la, ra, ls, rs, init, bond), prod)
    lm = np.moveaxis(la, ls.index(bond), -1).reshape(-1, D)
    rm = np.moveaxis(ra, rs.index(bond), -1).reshape(-1, D)
    if right:
        unit(ctx, "left factor has orthonormal columns", lm, want)
        pad = rm
    else:
        unit(ctx, "right factor has orthonormal rows", np.frompyfunc(cj, 1, 1)(rm), want)
        pad = lm
    for m, nm in ((lm, "left"), (rm, "right")):
        if D > want:
            z = m[:, want:]
            ctx.eq(f"{nm} factor is padded with zeros", z, S.ew(lambda _: T.ZERO, z))
    if sv:
        e = vec(*[Sg[i] if i < len(Sg) else T.ZERO for i in range(max_D or n)])
        ctx.eq("spectrum", vec_, e)
    ctx.eq("input unchanged", x.t, x.a)


def ctx_shape(shape, s):
    init, post = s.replace(" ", "").split("->")
    ls, rs = post.split(",")
    dims = dict(zip(init, shape))
    n = int(np.prod([dims.get(c, 1) for c in ls]))
    m = int(np.prod([dims.get(c, 1) for c in rs]))
    return range(min(n, m))


def h_bad(ctx, s, shape, max_D):
    """a spectrum vector of the wrong shape is an error, and so are malformed strings"""
    x = ctx.real("A", shape)
    n = max_D or len(ctx_shape(shape, s))
    for m in (n + 1, n - 1, 2 * n):
        if m >= 0 and m != n:
            ctx.raises(f"spectrum of length {m}", lambda: svd_flex(x.t, s, max_D=max_D, cutoff=0.0, sv_vec=torch.zeros(m)), TypeError)
    ctx.raises("spectrum with two indices", lambda: svd_flex(x.t, s, max_D=max_D, cutoff=0.0, sv_vec=torch.zeros(1, n)), TypeError)
    for bad in ("ab->ac,db", "ab->ac,cd", "aa->ab,ba", "ab->abc,cb", "ab,cd", "aB->ac,cB", "abc->ad,db", "a->ab,b,c"):
        ctx.raises(f"string {bad}", lambda: svd_flex(x.t, bad, max_D=max_D, cutoff=0.0), Exception)
    ctx.eq("input unchanged", x.t, x.a)


STR = [
    ("ab->ax,xb", (2, 2)), ("ab->xa,bx", (2, 3)), ("ab->xb,ax", (3, 2)), ("ab->bx,xa", (2, 2)), ("ab->ax,xb", (3, 3)),
    ("ab->ax,xb", (1, 3)), ("ab->ax,bx", (1, 1)),
    ("lrij->lui,urj", (2, 2, 2, 2)), ("lrij->lui,urj", (1, 2, 2, 1)), ("lrij->lui,urj", (1, 1, 3, 2)),
    ("olri->olu,uri", (2, 2, 2, 1)), ("olri->our,lui", (2, 2, 2, 1)), ("olri->our,lui", (3, 1, 1, 2)),
    ("abc->bxa,cx", (2, 1, 2)), ("abc->xcb,ax", (2, 2, 1)), (" ab -> ax , xb ", (2, 2)), ("abcd->dxb,caX".lower(), (2, 1, 1, 2)),
]


def configs(tier):
    out = []
    big = tier == "thorough"
    for i, (s, shape) in enumerate(STR):
        n = len(ctx_shape(shape, s))
        size = int(np.prod(shape))
        for right in (True, False):
            for cx in (False, True):
                if cx and size > (6 if not big else 9):
                    continue
                for max_D in [None, 1, n, n + 1] + ([2, n + 2] if big or n > 2 else []):
                    if size > 9 and max_D in (1, n + 2) and not big:
                        continue
                    for cut in (True, False):
                        if not cut and (cx or i > 8 and not big):
                            continue
                        for sv in (True, False) if i < 4 else (True,):
                            nm = f"{i}-{'x'.join(map(str, shape))}-D{max_D}{'' if right else '-left'}{'-c' if cx else ''}{'' if cut else '-default'}{'' if sv else '-nosv'}"
                            if any(o["name"] == nm for o in out):
                                continue
                            out.append(conf(nm, h, s=s, shape=shape, max_D=max_D, right=right, cx=cx, cut=cut, sv=sv, dbl=i % 2 == 1, cost=size * n * (1 + 3 * cx)))
    for s, shape in (STR[0], STR[1], STR[7], STR[10]):
        for max_D in (None, 2, 5):
            out.append(conf(f"bad-{s}-{max_D}", h_bad, s=s, shape=shape, max_D=max_D))
    return out + [strided(c) for c in out[::4]] + evals(out, 11)
