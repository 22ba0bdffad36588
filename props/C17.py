"""Gradients are the derivatives of the computed function"""
from .common import *
from .C02 import Poly, Tab
from torchmps import MPS, TI_MPS, ProbMPS, ProbUnifMPS
from torchmps.embeddings import DataDomain, TrainableEmbedding
from torchmps.mps_base import contract_matseq, get_log_norm, slim_eval_fun

BOUNDS = {
    "models": "MPS (every label_site, open/periodic, serial/parallel, raw/embedded/feature map), TI_MPS (fixed/trainable ends and bias), ProbMPS and ProbUnifMPS (real/complex, bias, every strategy, vector and symbolic discrete input, trainable embedding), contract_matseq, slim_eval_fun, get_log_norm",
    "sizes": "length 1..3 (4 for MPS, 5 for matrix sequences), bond_dim 1..2 (3), input_dim 2, batch 2",
    "values": "every real (complex) value of parameters, inputs and of the cotangent the result is weighted with",
    "outside": "rounding; points where an intermediate entry that a scale factor is computed from is exactly zero (the factor is not differentiable there); second derivatives",
    "larger sizes": "MPS input_dim 4..17, TI length 3..9, bond_dim up to 7, batch up to 17; gradients of the symbolic entries; with 1..6 symbolic real numbers per tensor, the other entries being fixed",
}
ASSUMPTIONS = ["real arithmetic instead of floating point", "no entry of an intermediate product is exactly zero; amplitudes, norm and partial transfer traces are non-zero"]


def var_of(v):
    return v


def dterm(f, v):
    """partial derivative of the term f (real or complex) with respect to a real variable"""
    if isinstance(f, T.CV):
        return T.cplx(T.diff(f.re, v), T.diff(f.im, v))
    return T.diff(f, v)


def grads(ctx, out, leaves, w):
    """vector-Jacobian products; None where autograd sees no dependence"""
    S.Session.backward = S.Session.sgn_nonzero
    try:
        return torch.autograd.grad(out, leaves, grad_outputs=w, allow_unused=True)
    finally:
        S.Session.backward = False


def check(ctx, label, g, terms, dl):
    """g: gradient (or None) for a leaf with entries `terms`; dl(v): derivative of the
    weighted sum L with respect to the real variable v"""
    exp_ = np.empty(terms.shape, dtype=object)
    for i in np.ndindex(*terms.shape):
        t = terms[i]
        if isinstance(t, T.CV):
            exp_[i] = None if T.is_const(t.re) or T.is_const(t.im) else T.cplx(dl(t.re), dl(t.im))
        else:
            exp_[i] = None if T.is_const(t) else dl(t)
    # entries that are fixed numbers (in the sparse configurations) are not compared
    free = [i for i in np.ndindex(*terms.shape) if exp_[i] is not None]
    if len(free) < terms.size:
        exp_ = vec(*[exp_[i] for i in free])
        if g is not None:
            ctx.true(label + " shape", tuple(g.shape) == terms.shape)
            g = vec(*[ctx.terms(g)[i] for i in free])
    if g is None:
        g = ew0(exp_)
        if all(isinstance(x, T.V) and T.is_const(x) for x in exp_.reshape(-1)):
            return ctx.eq(label, g, exp_)
        return ctx.fail(label, "no gradient reaches this tensor")
    ctx.eq(label, g, exp_)


def ew0(a):
    z = np.empty(a.shape, dtype=object)
    z[...] = T.ZERO
    return z


def leaves_of(m, p):
    """(name, parameter, terms) of all parameters"""
    d = dict(m.named_parameters())
    return [(n, d[n], p[n]) for n in p if p[n].size]


def inner(w, f):
    """Re sum conj(w) f as a real polynomial"""
    tot = []
    for a, b in zip(w.reshape(-1), f.reshape(-1)):
        a, b = T.lift(a), T.lift(b)
        tot.append(T.cmul(a.conjugate(), b).real)
    return T.csum(tot)


# ------------------------------------------------------------ polynomial models
def h_poly(ctx, out, ref, leaves):
    """out = ref (polynomial): its gradients are those of ref"""
    w = ctx.real("w", tuple(out.shape), cx=out.dtype.is_complex)
    L = inner(w.a, ref)
    gs = grads(ctx, out, [t for _, t, _ in leaves], w.t)
    for (n, _, a), g in zip(leaves, gs):
        check(ctx, "d/d " + n, g, a, lambda v: T.diff(L, v))


def h_mps(ctx, n, site, o, D, per, par, bias, inp, B=2, path=None, d=2):
    m = MPS(n, o, D, feature_dim=d, periodic_bc=per, parallel_eval=par, label_site=site, use_bias=bias, path=path)
    fm = None
    if inp == "map":
        fm = Poly(2, d)
        m.register_feature_map(lambda x: fm(x[None]) if False else fm.w[0] + x * fm.w[1])
        q = ctx.havoc(fm, "map.")
    p = ctx.havoc(m)
    p = {k: v for k, v in p.items() if v.size}
    N = n if path is None else max(path) + 1
    x = ctx.real("x", (B, N, d) if inp == "emb" else (B, N))
    x.t.requires_grad_()
    out = m(x.t)
    order = path or range(n)
    xs = []
    for r in x.a:
        if inp == "emb":
            xs.append([r[t] for t in order])
        elif inp == "raw":
            xs.append([plain(r[t]) for t in order])
        else:
            xs.append([vec(*[T.cadd(q["w"][0][i], T.cmul(r[t], q["w"][1][i])) for i in range(d)]) for t in order])
    lv = leaves_of(m, {k: v for k, v in p.items()}) + [("input", x.t, x.a)]
    if fm is not None:
        lv.append(("map", fm.w, q["w"]))
    h_poly(ctx, out, mps_ref(p, n, site, xs, per), lv)


def h_ti(ctx, L, o, D, par, ends, bias, fixed_bias, inp, B=2, lengths=None):
    m = TI_MPS(o, D, parallel_eval=par, fixed_ends=ends, use_bias=bias, fixed_bias=fixed_bias)
    p = ctx.havoc(m)
    if lengths:
        xs_, ts, lv = [], [], []
        for i, n in enumerate(lengths):
            x = ctx.real(f"x{i}", (n, 2) if inp == "emb" else (n,))
            x.t.requires_grad_()
            ts.append(x.t)
            lv.append((f"input {i}", x.t, x.a))
            xs_.append(list(x.a) if inp == "emb" else [plain(v) for v in x.a])
        out = m(ts)
    else:
        x = ctx.real("x", (B, L, 2) if inp == "emb" else (B, L))
        x.t.requires_grad_()
        out = m(x.t)
        xs_ = [[v if inp == "emb" else plain(v) for v in r] for r in x.a]
        lv = [("input", x.t, x.a)]
    h_poly(ctx, out, ti_ref(p, m, None, xs_, bias), leaves_of(m, p) + lv)


def h_seq(ctx, n, D, left, right, par, log, cx, B, as_list=False, zero=None):
    ctx.domain("div", "log", "logz")
    S.Session.sgn_nonzero = True
    mats = ctx.real("m", (B, n, D, D) if B else (n, D, D), cx=cx)
    lv = []
    l = ctx.real("l", (D,), cx=cx) if left else None
    r = ctx.real("r", (D,), cx=cx) if right else None
    for k, a in (("matrices", mats), ("left", l), ("right", r)):
        if a is not None:
            a.t.requires_grad_()
            lv.append((k, a.t, a.a))
    arg = list(mats.t.unbind(-3)) if as_list else mats.t
    kw = dict(left_vec=l.t if left else None, right_vec=r.t if right else None, parallel_eval=par)
    if log:
        c, s = contract_matseq(arg, log_format=True, **kw)
        out = c * torch.exp(s) if s.ndim == c.ndim else c * torch.exp(s)[..., None]
    else:
        out = contract_matseq(arg, **kw)
    ref = [chain(list(m), l.a if left else None, r.a if right else None) for m in (mats.a if B else [mats.a])]
    e = np.empty(tuple(out.shape), dtype=object)
    if B:
        for i in range(B):
            e[i] = ref[i]
    elif e.ndim:
        e[...] = ref[0]
    else:
        e[()] = ref[0]
    h_poly(ctx, out, e, lv)


# ------------------------------------------------------------ log probabilities
def h_prob(ctx, kind, L, D, cx, bias, ev, inp, what, emb=None, B=2, d=2):
    ctx.domain("div", "log", "logz")
    S.Session.sgn_nonzero = True
    if ctx.sym:
        S.Session.exact_close = "generic"
    kw = {}
    if emb:
        n = 3
        kw["embed_fun"] = TrainableEmbedding(Tab(n, d), DataDomain(False, n))
    m = ProbMPS(L, d, D, complex_params=cx, use_bias=bias, **kw) if kind == "fix" else ProbUnifMPS(d, D, complex_params=cx, use_bias=bias, **kw)
    p = ctx.havoc(m)
    edges = p["edge_vecs"]
    sites = to_cores(p, L, bias)
    leaves = leaves_of(m, p)
    if emb:
        tab = p["embedding.emb_module.w"]
    if inp == "vec":
        x = ctx.real("v", (B, L, d))
        x.t.requires_grad_()
        if what != "norm":
            leaves.append(("input", x.t, x.a))
        xt, amp = x.t, [psi(sites, edges, list(r)) for r in x.a]
    elif inp == "idx":
        xs = [[0] * L, [1] + [0] * (L - 1)][:B]
        xt, amp = torch.tensor(xs), [psi(sites, edges, s) for s in xs]
    else:
        xs = seqs(L, n if emb else d)
        B = len(xs)
        xt = torch.tensor(xs)
        amp = [psi(sites, edges, [tab[i] for i in s] if emb else s) for s in xs]
    sq = [T.cabs2(a) for a in amp]
    if emb:
        Z = T.csum([T.cabs2(psi(sites, edges, [tab[i] for i in s])) for s in seqs(L, n)])
    else:
        Z = total(sites, edges)

    def dlogz(v):
        return T.cdiv(T.diff(Z, v), Z)

    # together with the model's own norm (checked by itself) the log probabilities are
    # logarithms of |psi|^2, which is easier to decide
    norm = m.log_norm() if kind == "fix" else m.log_norm(L)
    if what == "logp":
        out = m(xt, **ev) + norm
        w = ctx.real("w", (B,))
        dl = lambda v: T.csum([T.cmul(w.a[b], T.cdiv(T.diff(sq[b], v), sq[b])) for b in range(B)])
        wt = w.t
    elif what == "loss":
        out = norm - m.loss(xt, **ev)
        wt = None
        dl = lambda v: T.cmul(T.const(Fr(1, B)), T.csum([T.cdiv(T.diff(sq[b], v), sq[b]) for b in range(B)]))
    else:
        out = norm
        wt = None
        dl = dlogz
    gs = grads(ctx, out, [t for _, t, _ in leaves], wt)
    for (n_, _, a), g in zip(leaves, gs):
        check(ctx, "d/d " + n_, g, a, dl)


def h_slim(ctx, L, D, uniform, cx, inp, B=2, d=2):
    ctx.domain("div", "log", "logz")
    S.Session.sgn_nonzero = True
    c = ctx.real("c", (d, D, D) if uniform else (L, d, D, D), cx=cx)
    e = ctx.real("e", (2, D), cx=cx)
    c.t.requires_grad_()
    e.t.requires_grad_()
    lv = [("core", c.t, c.a), ("edges", e.t, e.a)]
    sites = [c.a] * L if uniform else list(c.a)
    if inp == "vec":
        x = ctx.real("x", (B, L, d))
        x.t.requires_grad_()
        lv.append(("input", x.t, x.a))
        ref = [psi(sites, e.a, list(r)) for r in x.a]
        xt = x.t
    else:
        xs = [[i % 2 for i in range(L)], [1] * L]
        ref = [psi(sites, e.a, r) for r in xs]
        xt = torch.tensor(xs)
    a, s = slim_eval_fun(xt, c.t, e.t)
    h_poly(ctx, a * torch.exp(s), vec(*ref), lv)


def h_norm(ctx, L, D, uniform, cx, lam, d=2):
    ctx.domain("div", "log", "logz")
    S.Session.sgn_nonzero = True
    c = ctx.real("c", (d, D, D) if uniform else (L, d, D, D), cx=cx)
    e = ctx.real("e", (2, D), cx=cx)
    c.t.requires_grad_()
    e.t.requires_grad_()
    lv = [("core", c.t, c.a), ("edges", e.t, e.a)]
    sites = [c.a] * L if uniform else list(c.a)
    kw, M = {}, None
    if lam == "scalar":
        l = ctx.real("lam", ())
        kw["lamb_mat"] = l.t
        g = lambda i, j: l.a[()] if i == j else T.ZERO
    elif lam == "vector":
        l = ctx.real("lam", (d,))
        kw["lamb_mat"] = l.t
        g = lambda i, j: l.a[i] if i == j else T.ZERO
    elif lam == "matrix":
        l = ctx.real("lam", (d, d), cx=False)
        if cx:  # the metric of real embedding functions is symmetric
            l.t.requires_grad_()
            kw["lamb_mat"] = l.t.triu() + l.t.triu(1).T
            g = lambda i, j: l.a[min(i, j), max(i, j)]
        else:
            kw["lamb_mat"] = l.t
            g = lambda i, j: l.a[i, j]
    if lam:
        l.t.requires_grad_()
        lv.append(("metric", l.t, l.a))
    xs = seqs(L, d)
    ps = [psi(sites, e.a, s) for s in xs]
    Z = []
    for i, s in enumerate(xs):
        for j, t in enumerate(xs):
            if lam != "matrix" and i != j:
                continue
            w = T.ONE
            if lam:
                for a, b in zip(s, t):
                    w = T.cmul(w, g(a, b))
            Z.append(T.cmul(w, T.cmul(ps[i], ps[j].conjugate())))
    Z = T.csum(Z).real
    if uniform:
        kw["length"] = L
    out = get_log_norm(c.t, e.t, **kw)
    gs = grads(ctx, out, [t for _, t, _ in lv], None)
    for (n_, _, a), gr in zip(lv, gs):
        check(ctx, "d/d " + n_, gr, a, lambda v: T.cdiv(T.diff(Z, v), Z))


EV = {"ser": {}, "par": {"parallel_eval": True}, "slim": {"slim_eval": True}}


def configs(tier):
    out = []
    big = tier == "thorough"
    for per in (False, True):
        for par in (False, True):
            t = f"mps-{'per' if per else 'open'}-{'par' if par else 'ser'}"
            for n in (1, 2, 3) + ((4,) if big else ()):
                for site in range(n + 1):
                    for bias in (True, False):
                        for inp in ("emb", "raw", "map"):
                            if inp != "emb" and not bias and not big:
                                continue
                            out.append(conf(f"{t}-n{n}s{site}{'b' if bias else ''}-{inp}", h_mps, n=n, site=site, o=2, D=2, per=per, par=par, bias=bias, inp=inp, cost=n))
            out.append(conf(f"{t}-n4", h_mps, n=4, site=2, o=1, D=2, per=per, par=par, bias=True, inp="emb", B=1, cost=6))
            out.append(conf(f"{t}-n5d1", h_mps, n=5, site=0, o=1, D=2, d=1, per=per, par=par, bias=False, inp="emb", B=1, cost=6))
            out.append(conf(f"{t}-D3", h_mps, n=2, site=1, o=3, D=3, per=per, par=par, bias=True, inp="emb", cost=6))
            out.append(conf(f"{t}-path", h_mps, n=3, site=1, o=2, D=2, per=per, par=par, bias=True, inp="raw", path=[3, 0, 3], cost=3))
    for par in (False, True):
        for ends in (False, True):
            for bias, fb in ((False, False), (True, False), (True, True)):
                t = f"ti-{'par' if par else 'ser'}{'-fe' if ends else ''}-{'b' if bias else 'n'}{'f' if fb else ''}"
                for L in (1, 2, 3):
                    for inp in ("emb", "raw"):
                        out.append(conf(f"{t}-L{L}-{inp}", h_ti, L=L, o=2, D=2, par=par, ends=ends, bias=bias, fixed_bias=fb, inp=inp, cost=L))
                if fb and bias:
                    out.append(conf(f"{t}-list", h_ti, L=0, o=2, D=2, par=par, ends=ends, bias=bias, fixed_bias=fb, inp="emb", lengths=(1, 3, 2), cost=3))
                    out.append(conf(f"{t}-list-raw", h_ti, L=0, o=2, D=2, par=par, ends=ends, bias=bias, fixed_bias=fb, inp="raw", lengths=(3, 1), cost=3))
    for left in (False, True):
        for right in (False, True):
            for par in (False, True):
                for log in (False, True):
                    for cx in (False, True):
                        for n in (1, 2, 3) + ((4,) if not cx else ()) + ((5,) if big else ()):
                            B = (0, 2)[n % 2]
                            if cx and n == 3:
                                B = 0
                            out.append(conf(f"seq-{'l' if left else ''}{'r' if right else ''}-{'par' if par else 'ser'}{'-log' if log else ''}{'-c' if cx else ''}-n{n}", h_seq, n=n, D=2, left=left, right=right, par=par, log=log, cx=cx, B=B, as_list=log, cost=n * (1 + cx)))
    for uniform in (True, False):
        for cx in (False, True):
            for L in (1, 2, 3):
                for inp in ("vec", "idx"):
                    out.append(conf(f"slim-{'u' if uniform else 's'}{'c' if cx else 'r'}-L{L}-{inp}", h_slim, L=L, D=2, uniform=uniform, cx=cx, inp=inp, cost=L * (1 + cx)))
            for L in (1, 2, 3):
                for lam in (None, "scalar", "vector", "matrix"):
                    for D in (1, 2):
                        if L == 3 and (D > 1 or cx) or cx and L == D == 2 and (lam == "matrix" or lam == "scalar" and not big):
                            continue
                        out.append(conf(f"norm-{'u' if uniform else 's'}{'c' if cx else 'r'}-L{L}D{D}-{lam}", h_norm, L=L, D=D, uniform=uniform, cx=cx, lam=lam, cost=L * D * (1 + cx)))
    for kind in ("fix", "uni"):
        for cx in (False, True):
            for bias in (False, True):
                t = f"{kind}-{'c' if cx else 'r'}{'b' if bias else ''}"
                for L, D in ((1, 2), (2, 1)) + (() if cx else ((2, 2),)):
                    if not (cx and bias):
                        out.append(conf(f"{t}-L{L}D{D}-norm", h_prob, kind=kind, L=L, D=D, cx=cx, bias=bias, ev={}, inp="idx", what="norm", cost=4 * L * D * (1 + cx)))
                    for e in EV:
                        if bias and (e == "slim" or D == 2 and (cx or L == 2)) or e == "par" and L == D == 2:
                            continue
                        for inp in ("vec", "idx") if not (cx and bias) else ():
                            out.append(conf(f"{t}-L{L}D{D}-{e}-{inp}", h_prob, kind=kind, L=L, D=D, cx=cx, bias=bias, ev=EV[e], inp=inp, what="logp", B=1 if cx and inp == "vec" else 2, cost=6 * L * D * (1 + cx)))
                        out.append(conf(f"{t}-L{L}D{D}-{e}-loss", h_prob, kind=kind, L=L, D=D, cx=cx, bias=bias, ev=EV[e], inp="idx" if cx else "vec", what="loss", cost=6 * L * D * (1 + cx)))
                for what in ("logp", "norm") if not cx else ():
                    out.append(conf(f"{t}-emb-{what}", h_prob, kind=kind, L=1, D=2, cx=cx, bias=bias, ev={}, inp="all", what=what, emb=True, cost=6))
                    out.append(conf(f"{t}-emb2-{what}", h_prob, kind=kind, L=2, D=1, cx=cx, bias=bias, ev={}, inp="all", what=what, emb=True, cost=6))
    # larger sizes with few symbolic entries
    for n, site, d, o, D, B in ((6, 2, 3, 2, 3, 2), (9, 5, 2, 4, 2, 3), (12, 12, 2, 2, 2, 2), (4, 0, 5, 3, 7, 2), (3, 2, 2, 2, 2, 17), (17, 9, 2, 1, 2, 1)):
        for per in (False, True):
            for par in (False, True):
                for inp in ("emb", "raw") if d == 2 else ("emb",):
                    out.append(sparse(conf(f"mps-{'per' if per else 'open'}-{'par' if par else 'ser'}-n{n}s{site}d{d}o{o}D{D}B{B}-{inp}", h_mps, n=n, site=site, o=o, D=D, d=d, per=per, par=par, bias=n < 7, inp=inp, B=B, cost=n * D), 2))
    for L, o, D, B in ((6, 3, 3, 2), (9, 2, 2, 3), (3, 2, 7, 2), (2, 2, 2, 17)):
        for par in (False, True):
            for bias, fb in ((False, False), (True, False), (True, True)):
                out.append(sparse(conf(f"ti-{'par' if par else 'ser'}-{'b' if bias else 'n'}{'f' if fb else ''}-L{L}o{o}D{D}B{B}", h_ti, L=L, o=o, D=D, B=B, par=par, ends=False, bias=bias, fixed_bias=fb, inp="emb", cost=L * D), 1, 3))
    for par in (False, True):
        out.append(sparse(conf(f"ti-{'par' if par else 'ser'}-list-big", h_ti, L=0, o=2, D=3, par=par, ends=False, bias=True, fixed_bias=True, inp="emb", lengths=(5, 9, 2, 2, 7), cost=9), 1, 4))
    return out
