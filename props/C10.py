"""Evaluation has no side effects and no hidden state"""
from .common import *
from torchmps import MPS, TI_MPS, ProbMPS, ProbUnifMPS
from torchmps.contractables import ContractableList, EdgeVec, MatRegion, OutputCore, SingleMat
from torchmps.embeddings import DataDomain, TrainableEmbedding
from torchmps.mps_base import contract_matseq, get_log_norm, get_mat_slices, slim_eval_fun
from .C02 import Poly, Tab

BOUNDS = {
    "models": "MPS (label_site first, middle, last; open, periodic; path, feature map), TI_MPS, ProbMPS, ProbUnifMPS (no, fixed, trainable embedding); small sizes",
    "modes": "every model in training mode with gradients and in eval mode under no_grad",
    "interference": "evaluation of other models of the same and of other classes, other batch sizes (0, 1, 3), contraction functions, failed calls, grad and train mode, parameter changes; histories of up to 12 calls",
    "values": "every real parameter and input", "outside": "threads; histories longer than those listed; RNG state",
}
ASSUMPTIONS = ["real arithmetic instead of floating point", "the norm and its partial transfer traces are non-zero"]


class Case:
    """a model, its inputs, and how to compare outputs"""

    def __init__(self, ctx, kind, tag=""):
        self.ctx, self.kind = ctx, kind
        self.prob = kind.startswith(("fix", "uni"))
        self.m = self.make()
        self.tag = tag
        self.p = ctx.havoc(self.m, tag)

    def make(self):
        k, ctx = self.kind, self.ctx
        if k.startswith("mps"):
            kw = dict(label_site={"0": 0, "1": 1, "2": 2}[k[3]], periodic_bc="p" in k, parallel_eval="P" in k, use_bias="n" not in k)
            if "r" in k:
                kw["path"] = [2, 0]
            if "R" in k:
                kw["path"] = [1, 0]
            m = MPS(2, 2, 2, **kw)
            if "f" in k:
                m.register_feature_map(lambda x: torch.stack([x * 1.0, x * x]))
            return m
        if k.startswith("ti"):
            m = TI_MPS(2, 2, parallel_eval="P" in k, fixed_ends="e" in k, use_bias="n" not in k, fixed_bias="t" not in k[2:])
            if "f" in k:
                m.register_feature_map(lambda x: torch.stack([x * 1.0, x * x]))
            return m
        kw = {}
        self.n = 2
        cx = k.endswith("c")
        if "tab" in k:
            kw["embed_fun"] = TrainableEmbedding(Tab(3, 2), DataDomain(False, 3))
            self.n = 3
        elif "fun" in k:
            w = ctx.real("fun", (3, 2))
            kw.update(embed_fun=lambda x: w.t[x], domain=DataDomain(False, 3))
            self.n = 3
        if k.startswith("fix"):
            return ProbMPS(2, 2, 2, use_bias="b" in k.split("-"), complex_params=cx, **kw)
        return ProbUnifMPS(2, 2, use_bias="b" in k.split("-"), complex_params=cx, **kw)

    def data(self, name, B):
        ctx, k = self.ctx, self.kind
        if self.prob:
            return ctx.ints(name, (B, 2), 0, self.n - 1)
        L = 3 if "r" in k else 2
        return ctx.real(name, (B, L) if "f" in k or "u" in k else (B, L, 2))

    def run(self, x, how="call"):
        m = self.m
        if not self.prob:
            return self.ctx.terms(m(x.t))
        if how == "loss":
            return exp(self.ctx.terms(m.loss(x.t)))
        if how == "norm":
            return exp(self.ctx.terms(m.log_norm() if self.kind.startswith("fix") else m.log_norm(2)))
        if how in ("par", "slim"):
            return exp(self.ctx.terms(m(x.t, **{how == "par" and "parallel_eval" or "slim_eval": True})))
        return exp(self.ctx.terms(m(x.t)))

    def modes(self):
        if not self.prob:
            return ["call"]
        return ["call", "loss", "norm", "par"] + ([] if "b" in self.kind.split("-") else ["slim"])

    def intact(self, label):
        q = dict(self.m.named_parameters())
        self.ctx.true(label + ": same parameters", sorted(q) == sorted(self.p))
        for k in self.p:
            self.ctx.eq(f"{label}: parameter {k} unchanged", q[k], self.p[k])
            self.ctx.true(f"{label}: {k} still trainable", q[k].requires_grad and q[k].grad is None)


def noise(ctx, case, x):
    """things a user may do between two calls; each returns nothing"""
    m = case.m
    out = []

    def call(B, tag):
        def f():
            case.run(case.data(f"n{tag}{B}", B))

        return f

    for B in (1, 3):
        out.append((f"batch of {B}", call(B, "a")))

    def other(kind):
        def f():
            o = Case(ctx, kind, f"other.{kind}.")
            d = o.data("o" + kind, 1 if kind != "mps1" else 3)
            for w in o.modes():
                o.run(d, w)

        return f

    for kind in ("mps0", "ti", "fix", "uni-b"):
        out.append((f"another model ({kind})", other(kind)))

    def fails():
        bad = torch.ones(2, 5, 7)
        for f in (lambda: m(bad), lambda: m(torch.ones(2, 2, 2, 2, 2)), lambda: m("text"), lambda: m(None)):
            try:
                f()
            except Exception as e:
                if type(e).__name__ in ("Unsupported", "Budget"):
                    raise
                continue
            ctx.fail("malformed input accepted", "no error")

    out.append(("failed calls", fails))

    def functions():
        A = ctx.real("fA", (3, 2, 2))
        v = ctx.real("fv", (2, 2))
        contract_matseq(A.t, v.t[0], v.t[1])
        contract_matseq(A.t, parallel_eval=True)
        EdgeVec(torch.ones(5, 2), is_left_vec=True) * MatRegion(torch.ones(5, 2, 2, 2))

    out.append(("contraction functions", functions))

    def modes():
        with torch.no_grad():
            case.run(x)
        m.eval()

    out.append(("no_grad and eval mode", modes))

    def back():
        m.train()
        case.run(x)
        m.train(not ctx.eval_mode)

    out.append(("train mode", back))
    return out


def h_history(ctx, kind):
    """the output stays the same through a history of other calls"""
    ctx.domain("div", "log", "logz")
    if ctx.sym:
        S.Session.exact_close = "generic"
    c = Case(ctx, kind)
    x = c.data("x", 2)
    g, dt = torch.is_grad_enabled(), torch.get_default_dtype()
    ref = {w: c.run(x, w) for w in c.modes()}
    for w in c.modes():
        ctx.eq(f"{w} repeated", c.run(x, w), ref[w])
    for name, f in noise(ctx, c, x):
        f()
        for w in c.modes():
            ctx.eq(f"{w} after {name}", c.run(x, w), ref[w])
    ctx.eq("input unchanged", x.t, x.a)
    c.intact("after the history")
    ctx.true("global modes unchanged", torch.is_grad_enabled() == g and torch.get_default_dtype() == dt)
    if "r" in kind or "R" in kind:
        ctx.true("path unchanged", list(c.m.path) == ([2, 0] if "r" in kind else [1, 0]))


def h_fresh(ctx, kind):
    """after a parameter change the model equals one freshly built with the new values"""
    ctx.domain("div", "log", "logz")
    if ctx.sym:
        S.Session.exact_close = "generic"
    c = Case(ctx, kind, "old.")
    x = c.data("x", 2)
    for w in c.modes():
        c.run(x, w)
    c.p = ctx.havoc(c.m, "new.")
    f = Case(ctx, kind, "new.")
    modes = c.modes()
    for w in modes[::-1] + modes:
        ctx.eq(f"{w} as a fresh model", c.run(x, w), f.run(x, w))
    y = c.data("y", 3)
    for w in modes:
        ctx.eq(f"{w} as a fresh model, other batch", c.run(y, w), f.run(y, w))
    for t in (x, y):
        ctx.eq("input unchanged", t.t, t.a)
    # other values of the same shape, first in another tensor, then in the same one
    z = c.data("z", 2)
    g = Case(ctx, kind, "new.")
    ref = {w: g.run(z, w) for w in modes}
    for w in modes:
        c.run(x, w)
        ctx.eq(f"{w} with other values", c.run(z, w), ref[w])
    for w in modes:
        c.run(x, w)
        with torch.no_grad():
            x.t.copy_(z.t)
        ctx.eq(f"{w} after overwriting the input", c.run(x, w), ref[w])
        with torch.no_grad():
            x.t.copy_(y.t[:2])
    c.intact("after evaluation")


def h_partial(ctx, kind):
    """one parameter after the other is changed, as some optimisers do"""
    ctx.domain("div", "log", "logz")
    if ctx.sym:
        S.Session.exact_close = "generic"
    c = Case(ctx, kind, "old.")
    x = c.data("x", 1)
    for k in list(c.p):
        c.run(x)
        c.p.update(ctx.havoc(c.m, "new.", only=[k]))
        f = Case(ctx, kind, "fresh.")
        with torch.no_grad():
            for n, q in f.m.named_parameters():
                q.copy_(ctx.tensor(c.p[n], q.dtype))
        for w in c.modes():
            ctx.eq(f"{w} after change of {k}", c.run(x, w), f.run(x, w))


def h_functions(ctx, par, cx):
    """contraction functions leave everything they are given as it was"""
    ctx.domain("div", "log", "logz")
    L, d, D = 3, 2, 2
    A = ctx.real("A", (L, d, D, D), cx=cx)
    e = ctx.real("e", (2, D), cx=cx)
    x = ctx.ints("x", (2, L), 0, d - 1)
    v = ctx.real("v", (2, L, d))
    lam = ctx.real("lam", (d,), lo=Fr(1, 8), hi=4)
    M = ctx.real("M", (L, D, D), cx=cx)
    given = [("cores", A), ("edges", e), ("indices", x), ("vectors", v), ("metric", lam), ("matrices", M)]
    mats = [M.t[i] for i in range(L)]
    same = list(mats)

    def once():
        a, la = contract_matseq(mats, e.t[0], e.t[1], parallel_eval=par, log_format=True)
        b, lb = slim_eval_fun(x.t, A.t, e.t)
        return [
            S.ew(T.cmul, ctx.terms(a), exp(ctx.terms(la))),
            ctx.terms(contract_matseq(M.t, parallel_eval=par)),
            ctx.terms(contract_matseq(mats, None, e.t[1], parallel_eval=par)),
            S.ew(T.cmul, ctx.terms(b), exp(ctx.terms(lb))),
            ctx.terms(get_mat_slices(x.t, A.t)),
            ctx.terms(get_mat_slices(v.t, A.t)),
            exp(ctx.terms(get_log_norm(A.t, e.t, lamb_mat=lam.t))),
            exp(ctx.terms(get_log_norm(A.t[0], e.t, lamb_mat=lam.t, length=2))),
        ]

    r = once()
    contract_matseq([m[None].expand(4, D, D) for m in mats], parallel_eval=True)
    for i, (p, q) in enumerate(zip(r, once())):
        ctx.eq(f"function {i} repeated", q, p)
    for n, a in given:
        ctx.eq(f"{n} unchanged", a.t, a.a)
    ctx.true("list unchanged", len(mats) == L and all(p is q for p, q in zip(mats, same)))


def h_contractables(ctx, par):
    """contractables and lists of them survive being multiplied and reduced"""
    B, D = 2, 2
    M = ctx.real("M", (B, 3, D, D))
    O = ctx.real("O", (B, 2, D, D))
    l, r = ctx.real("l", (B, D)), ctx.real("r", (B, D))
    items = [EdgeVec(l.t, is_left_vec=True), MatRegion(M.t), OutputCore(O.t), SingleMat(M.t[:, 0]), EdgeVec(r.t, is_left_vec=False)]
    given = list(items)
    cl = ContractableList(items)
    a = ctx.terms(cl.reduce(parallel_eval=par).tensor)
    EdgeVec(torch.ones(7, D), is_left_vec=True)  # another batch size in between
    EdgeVec(l.t, is_left_vec=True)
    ctx.eq("reduced again", cl.reduce(parallel_eval=not par).tensor, a)
    ctx.eq("reduced a third time", ContractableList(items).reduce(parallel_eval=par).tensor, a)
    ctx.true("list unchanged", len(items) == 5 and all(p is q for p, q in zip(items, given)))
    for n, t, w in (("left", items[0].tensor, l), ("region", items[1].tensor, M), ("core", items[2].tensor, O), ("right", items[4].tensor, r)):
        ctx.eq(n + " unchanged", t, w.a)
    ctx.eq("input unchanged", M.t, M.a)


def h_ti_list(ctx, lens, raw):
    """lists given to TI_MPS keep their tensors"""
    m = TI_MPS(2, 2)
    ctx.havoc(m)
    xs = [ctx.real(f"x{i}", (n,) if raw else (n, 2)) for i, n in enumerate(lens)]
    given = [x.t for x in xs]
    lst = list(given)
    a = ctx.terms(m(lst))
    m(given[0][None])
    ctx.eq("repeated", m(lst), a)
    ctx.true("list unchanged", len(lst) == len(lens) and all(p is q for p, q in zip(lst, given)))
    for x in xs:
        ctx.eq("sequence unchanged", x.t, x.a)


def configs(tier):
    out = []
    big = tier == "thorough"
    kinds = ["mps0", "mps1", "mps2", "mps1p", "mps0p", "mps1P", "mps1n", "mps2nP", "mps1r", "mps0f", "mps1rf", "mps1u", "mps1R", "mps0RP", "mps2Ru", "mps1Rf",
             "ti", "tiP", "tie", "tin", "tit", "tiu", "tinP", "tif", "tifP",
             "fix", "fix-b", "fix-c", "fix-tab", "fix-fun", "uni", "uni-b", "uni-c", "uni-tab", "uni-fun"]
    if big:
        kinds += ["fix-b-c", "uni-b-c", "fix-tab-b", "uni-fun-b", "mps2pP", "mps0rp", "mps1rfp", "tietP"]
    for k in kinds:
        out.append(conf(f"history-{k}", h_history, kind=k, cost=20 if k[0] in "fu" else 5))
        out.append(conf(f"fresh-{k}", h_fresh, kind=k, cost=20 if k[0] in "fu" else 5))
        out.append(conf(f"partial-{k}", h_partial, kind=k, cost=10))
    out += [evaluated(c) for c in out if big or c["name"] not in ("partial-fix-c", "partial-uni-c")]
    for par in (False, True):
        for cx in (False, True):
            out.append(conf(f"functions-{'par' if par else 'ser'}-{'c' if cx else 'r'}", h_functions, par=par, cx=cx))
        out.append(conf(f"contractables-{'par' if par else 'ser'}", h_contractables, par=par))
    for lens in ((1, 2), (2, 3, 1), (2, 2)):
        for raw in (False, True):
            out.append(conf(f"tilist-{''.join(map(str, lens))}{'-raw' if raw else ''}", h_ti_list, lens=lens, raw=raw))
    return out + [evaluated(c) for c in out if c["name"].startswith(("functions", "contr", "tilist"))]
