"""Adaptive scheduling and bookkeeping"""
from .common import *
from . import adaptive as A
from torchmps import MPS

BOUNDS = {
    "histories": "every merge_threshold in 1..12 against sequences of 3..7 calls with batches of 0..9 samples",
    "input_dim": "2 for histories, 1..5 for bookkeeping, every label_site, both boundary conditions and merge states", "bond_dim": "1..3",
    "values": "every value of the merged cores, every positive cutoff that keeps at least one singular value",
    "outside": "accuracy of the SVD; cores that vanish identically; truncation of a whole bond (RuntimeError)",
}
ASSUMPTIONS = [
    "real arithmetic instead of floating point",
    "torch.linalg.svd returns one decomposition A = U diag(S) V^T with S sorted and non-negative; it is the same for matrices that differ by permutations of rows and columns or transposition",
]

MARK, BMARK = -3.0, 77


def mark(m):
    with torch.no_grad():
        m.sv_list.fill_(MARK)
        m.bond_list.fill_(BMARK)


def touched(ctx, m):
    """bonds whose entries in sv_list and bond_list differ from the marks"""
    sv, bl = ctx.terms(m.sv_list), ctx.terms(m.bond_list)
    is_ = lambda x, v: T.is_const(T.lift(x)) and T.const_val(T.lift(x)) == v
    a = [i for i in range(len(sv)) if not all(is_(x, MARK) for x in sv[i])]
    b = [i for i in range(len(bl)) if not is_(bl[i], BMARK)]
    return a, b


def h_schedule(ctx, site, D, per, batches, lo, hi):
    ctx.domain("log", "logz", "div")
    n = 2
    thr = ctx.int("threshold", lo, hi)
    m = MPS(n, 1, D, feature_dim=1, periodic_bc=per, label_site=site, adaptive_mode=True, cutoff=0.0, merge_threshold=thr)
    t = ctx.scalar(thr)
    A.havoc(ctx, m, 0)
    seen, flips = T.const(0), 0
    for i, B in enumerate(batches):
        mark(m)
        out = m(torch.ones(B, n, 1))
        ctx.true("one output per sample", tuple(out.shape) == (B, 1))
        a, b = touched(ctx, m)
        ctx.true("singular values and bond dimensions are updated together", a == b)
        due = T.vge(seen, T.lift(t))
        ctx.true(f"call {i + 1}: flip exactly when the threshold was reached", due if a else T.bnot(due))
        if a:
            ctx.true(f"call {i + 1}: bonds of the merged pairs", a == A.splits(n, flips % 2))
            flips += 1
            seen = T.csub(seen, T.lift(t))
        seen = T.cadd(seen, T.const(B))


def h_book(ctx, n, site, d, o, D, per, off, cut):
    ctx.domain("log", "logz", "div")
    cutoff = ctx.num("cutoff", 0, 4) if cut else 1e-10
    c = T.lift(ctx.scalar(cutoff))
    if cut:
        ctx.assume(T.vgt(c, T.ZERO))
        ctx.assume(T.vge(T.ONE, c))
    thr = 2
    m = MPS(n, o, D, feature_dim=d, periodic_bc=per, label_site=site, adaptive_mode=True, cutoff=cutoff, merge_threshold=thr)
    ctx.true("length of the lists", len(m.bond_list) == n + 2 and tuple(m.sv_list.shape) == (n + 2, D))
    ctx.true("initial bond dimensions", m.bond_list.tolist() == [D if per or 0 < i <= n else 1 for i in range(n + 2)])
    A.start(ctx, m, off, thr)
    ts = A.havoc(ctx, m, off)
    ks = A.matrices(n, site, off, ts)
    svs = [ctx.svd(a)[1] for _, a in ks]
    for Sg in svs:
        ctx.assume(T.vge(T.lift(Sg[0]), c))
    mark(m)
    x = torch.ones(2, n, d)
    m(x)
    ctx.true("nothing is touched without a flip", touched(ctx, m) == ([], []))
    m(x)
    sv, bl = ctx.terms(m.sv_list).copy(), ctx.terms(m.bond_list).copy()
    want_b = vec(*[T.const(BMARK)] * (n + 2))
    want_s = np.empty((n + 2, D), dtype=object)
    want_s[:] = T.lift(MARK)
    for (b, a), Sg in zip(ks, svs):
        k = 0
        while k < min(D, len(Sg)) and ctx.holds(T.vge(T.lift(Sg[k]), c)):
            k += 1
        want_b[b] = T.const(k)
        for j in range(D):
            want_s[b, j] = T.lift(Sg[j]) if j < len(Sg) else T.ZERO
    ctx.eq("retained numbers of singular values", bl, want_b)
    ctx.eq("spectra of the split cores", sv, want_s)
    for b, _ in ks:
        for j in range(D - 1):
            ctx.true("descending", T.vge(sv[b, j], sv[b, j + 1]))


def h_params(ctx, n, site, D, per, bias):
    """the parameters of the model are the same objects all along, and have no bias"""
    ctx.domain("log", "logz", "div")
    m = MPS(n, 2, D, periodic_bc=per, label_site=site, adaptive_mode=True, cutoff=0.0, merge_threshold=3, use_bias=bias)
    names = {k: p for k, p in m.named_parameters()}
    ids = sorted(id(p) for p in m.parameters())
    held = [A.tensors(m, 0), A.tensors(m, 1)]
    ctx.true("bias is disabled", not m.use_bias and not any("bias" in k for k in m.state_dict()))
    ctx.true("all cores are parameters", all(any(p is q for q in names.values()) for ts in held for p in ts))
    off = 0
    for i in range(8):
        for p in A.tensors(m, off):
            with torch.no_grad():
                p.zero_()
                p.view(-1)[0] = 1.0
                for t in p if p.ndim == 5 else ():
                    t.view(-1)[0] = 1.0
        shapes = [tuple(p.shape) for ts in held for p in ts]
        mark(m)
        y = m(torch.ones(1, n, 2))
        if i and i % 3 == 0:
            off = 1 - off
        ctx.true("same parameter objects", sorted(id(p) for p in m.parameters()) == ids)
        ctx.true("same cores", all(p is q for o in (0, 1) for p, q in zip(held[o], A.tensors(m, o))))
        ctx.true("same shapes", shapes == [tuple(p.shape) for ts in held for p in ts])
        ctx.true("trainable", all(p.requires_grad and p.is_leaf for p in m.parameters()))
        # the output depends on the current cores, through the held objects
        A_ts = [ctx.terms(t) for t in held[off]]
        ctx.eq("output of the current cores", y, A.reference(n, site, off, A_ts, np.full((1, n, 2), T.ONE, dtype=object), per))


def configs(tier):
    out = []
    big = tier == "thorough"
    hist = [(1, 1, 1), (2, 1, 3), (3, 3, 3), (1, 2, 3, 1), (5, 1, 1), (0, 2, 0, 2, 1), (4, 0, 0, 1), (7, 1, 1, 1), (2, 2, 2, 2, 2), (9, 0, 1)]
    if big:
        hist += [(1, 1, 1, 1, 1, 1), (3, 1, 4, 1, 5, 2), (6, 5, 4, 3, 2, 1), (2, 7, 1, 8), (9, 9, 1, 1, 1), (1, 2, 1, 2, 1, 2, 1)]
    for i, b in enumerate(hist):
        for site in (0, 1, 2):
            for D, per in ((1, False), (2, True), (2, False)):
                if D == 2 and (len(b) > 4 or site == 1) and not big:
                    continue
                # a threshold of 0 or a negative one flips at every call
                out.append(conf(f"sched-{'.'.join(map(str, b))}-s{site}D{D}{'-per' if per else ''}", h_schedule, site=site, D=D, per=per, batches=b, lo=1, hi=12, cost=len(b), max_paths=200))
    for per in (False, True):
        t = "per" if per else "open"
        for n in (1, 2, 3, 4, 5):
            for site in range(n + 1):
                for off in (0, 1):
                    for d, o, D in ((2, 2, 2), (1, 2, 1), (1, 1, 2), (1, 1, 3)):
                        if n > 3 and (D == 3 or d == 2) and not big:
                            continue
                        for cut in (True, False):
                            if not cut and (d, D) != (1, 2):
                                continue
                            out.append(conf(f"book-{t}-n{n}s{site}o{off}-d{d}o{o}D{D}{'-cut' if cut else ''}", h_book, n=n, site=site, d=d, o=o, D=D, per=per, off=off, cut=cut, cost=n * D * d))
                out.append(conf(f"params-{t}-n{n}s{site}", h_params, n=n, site=site, D=2, per=per, bias=site % 2 == 0, cost=n))
    return out
