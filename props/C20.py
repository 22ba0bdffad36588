"""The parameter set determines the model completely"""
import copy

from .common import *
from . import adaptive as AD
from .C02 import Tab
from .C10 import Case as Base
from torch import nn
from torchmps import MPS, TI_MPS, ProbMPS, ProbUnifMPS

BOUNDS = {
    "models": "MPS (label_site first, middle, last; open, periodic, parallel; path; function and trainable module as feature map; without bias), statically merged and adaptive MPS (before and after the first and second re-merge), TI_MPS (fixed/trainable ends and bias), ProbMPS, ProbUnifMPS (no, fixed, trainable embedding; bias; complex); small sizes",
    "histories": "two models with unrelated random initialisation and unrelated later values; evaluate, save, load, evaluate, change one, evaluate the other; copies; strict loading only",
    "values": "every parameter value of both models, every random draw of both constructors, every input",
    "outside": "serialisation to files (torch.save), dtype/device moves, loading of partial or mismatched state dicts beyond being rejected",
}
ASSUMPTIONS = ["real arithmetic instead of floating point", "the norm and its partial transfer traces are non-zero",
               "contract of the singular value decomposition (adaptive models)"]


class Feat(nn.Module):
    """a trainable feature map"""

    def __init__(self):
        super().__init__()
        self.w = nn.Parameter(torch.ones(2, 2))

    def forward(self, x):
        return self.w[0] + x * self.w[1]


class Case(Base):
    def __init__(self, ctx, kind, tag="", havoc=True):
        self.ctx, self.kind, self.tag = ctx, kind, tag
        self.prob = kind.startswith(("fix", "uni"))
        self.m = self.make()
        if havoc:
            self.p = ctx.havoc(self.m, tag)

    def make(self):
        k = self.kind
        if k.endswith("F"):
            self.kind = k[:-1]
            m = super().make()
            self.kind = k
            m.register_feature_map(Feat())
            return m
        return super().make()

    def data(self, name, B):
        k = self.kind
        if k.endswith("F"):
            return self.ctx.real(name, (B, 3 if "r" in k else 2))
        return super().data(name, B)


def outputs(c, x):
    return {w: c.run(x, w) for w in c.modes()}


def same(ctx, label, c, x, ref):
    for w, r in ref.items():
        ctx.eq(f"{label} ({w})", c.run(x, w), r)


def h_load(ctx, kind, used):
    """after load_state_dict the target computes the source's function, whatever either
    was initialised with and did before; they stay independent afterwards"""
    ctx.domain("div", "log", "logz")
    if ctx.sym:
        S.Session.exact_close = "generic"
    a = Case(ctx, kind, "a.", havoc=used)
    b = Case(ctx, kind, "b.", havoc=used)
    x = a.data("x", 2)
    ref = outputs(a, x)
    if used:
        outputs(b, x)
    sd = a.m.state_dict()
    miss = b.m.load_state_dict(sd)
    ctx.true("nothing missing or unexpected", not miss.missing_keys and not miss.unexpected_keys)
    same(ctx, "loaded model", b, x, ref)
    same(ctx, "source unchanged by loading", a, x, ref)
    ctx.havoc(a.m, "a2.")
    same(ctx, "loaded model after the source changed", b, x, ref)
    ref = outputs(a, x)
    ctx.havoc(b.m, "b2.")
    same(ctx, "source after the loaded model changed", a, x, ref)


def h_copy(ctx, kind):
    ctx.domain("div", "log", "logz")
    if ctx.sym:
        S.Session.exact_close = "generic"
    a = Case(ctx, kind, "a.")
    x = a.data("x", 2)
    ref = outputs(a, x)
    b = copy.copy(a)
    b.m = copy.deepcopy(a.m)
    same(ctx, "copy", b, x, ref)
    pa, pb = dict(a.m.named_parameters()), dict(b.m.named_parameters())
    ctx.true("same parameters, none shared", sorted(pa) == sorted(pb) and not {id(p) for p in pa.values()} & {id(p) for p in pb.values()})
    ctx.true("trainable as before", all(pa[k].requires_grad == pb[k].requires_grad for k in pa))
    ctx.true("same buffers", sorted(k for k, _ in a.m.named_buffers()) == sorted(k for k, _ in b.m.named_buffers()))
    ctx.havoc(b.m, "b.")
    same(ctx, "original after its copy changed", a, x, ref)
    ref = outputs(b, x)
    ctx.havoc(a.m, "a2.")
    same(ctx, "copy after the original changed", b, x, ref)
    f = Case(ctx, kind, "b.")
    same(ctx, "fresh model with the copy's parameters", f, x, ref)


def h_train(ctx, kind):
    """a step of an optimiser, applied to what parameters() lists (captured before any
    evaluation), gives the model a fresh one has at the new values"""
    ctx.domain("div", "log", "logz")
    if ctx.sym:
        S.Session.exact_close = "generic"
    a = Case(ctx, kind, "a.", havoc=False)
    ps = list(a.m.parameters())
    ctx.havoc(a.m, "a.")
    x = a.data("x", 2)
    outputs(a, x)
    names = [k for k, _ in a.m.named_parameters()]
    new = {}
    with torch.no_grad():
        for k, p in zip(names, ps):
            s = ctx.real("step." + k, tuple(p.shape), dtype=p.dtype, cx=p.dtype.is_complex)
            p.add_(s.t)
            new[k] = ctx.terms(p)
    f = Case(ctx, kind, "f.")
    with torch.no_grad():
        for k, p in f.m.named_parameters():
            p.copy_(ctx.tensor(new[k], p.dtype))
    same(ctx, "after a step", a, x, outputs(f, x))


# trainable quantities (number of scalars) as documented, and fixed ones
def expected(kind):
    k = kind.split("-")[0]
    if k.startswith("mps"):
        site, per, F = int(k[3]), "p" in k, k.endswith("F")
        use = "n" not in k
        D, d, o = 2, 2, 2
        tr = {}

        def more(sh):
            tr[sh] = tr.get(sh, 0) + 1

        for r in (site, 2 - site):
            if r:
                more((r, D, D, d))
                if use:
                    more((1, D, D))
        more((o, D, D))
        if F:
            more((2, 2))
        return tr, {}
    if k.startswith("ti"):
        D, d, o = 2, 2, 2
        tr, fx = {(D, D, d): 1}, {}
        ends = fx if "e" in k else tr
        ends[(D,)] = 1
        ends[(D, o)] = 1
        if "n" not in k:
            bias = tr if "t" in k[2:] else fx
            bias[(D, D)] = bias.get((D, D), 0) + 1
        return tr, fx
    parts = kind.split("-")
    tr = {((2, 2, 2, 2) if k == "fix" else (2, 2, 2)): 1, (2, 2): 1}
    if "b" in parts:
        tr[(2, 2)] += 1
    if "tab" in parts:
        tr[(3, 2)] = 1
    return tr, {}


def count(ts):
    out = {}
    for t in ts:
        if t.numel():
            out[tuple(t.shape)] = out.get(tuple(t.shape), 0) + 1
    return out


def h_listed(ctx, kind):
    """parameters() lists the documented trainable tensors and nothing else, buffers the
    fixed ones; both are in the state dict"""
    c = Case(ctx, kind, "a.")
    tr, fx = expected(kind)
    got = count(c.m.parameters())
    ctx.true(f"trainable tensors {got} should be {tr}", got == tr)
    ctx.true("all trainable", all(p.requires_grad for p in c.m.parameters()))
    ctx.true("fixed tensors", count(c.m.buffers()) == fx)
    both = dict(tr)
    for s, k in fx.items():
        both[s] = both.get(s, 0) + k
    ctx.true("saved tensors", count(c.m.state_dict().values()) == both)
    if fx:
        # gradient steps on everything listed leave fixed quantities as they are
        b = [ctx.terms(t) for t in c.m.buffers()]
        ctx.havoc(c.m, "b.")
        c.run(c.data("x", 1))
        for t, r in zip(c.m.buffers(), b):
            ctx.eq("fixed quantity", t, r)


def h_influence(ctx, kind, entry):
    """with all other values positive, the output strictly increases with every listed
    tensor (scaled as a whole), and with every entry where none is cut off by the ends"""
    ctx.domain("div", "log", "logz")
    if ctx.sym:
        S.Session.exact_close = "generic"
    c = Case(ctx, kind, "a.")
    ps = [(k, p) for k, p in c.m.named_parameters() if p.numel()]
    if c.prob:
        x = None
    else:
        x0 = c.data("x", 1)
        shape = x0.t.shape
        x = np.empty(tuple(shape), dtype=object)
        for j, i in enumerate(np.ndindex(*x.shape)):
            x[i] = T.const(Fr(j % 3 + 1, 3))

    def out():
        if c.prob:
            r = c.m.log_norm() if kind.startswith("fix") else c.m.log_norm(2)
            return exp(ctx.terms(r))[()]
        return T.csum(list(ctx.terms(c.m(ctx.tensor(x))).reshape(-1)))

    def base(sh, k):
        a = np.empty(sh, dtype=object)
        for j, i in enumerate(np.ndindex(*sh)):
            a[i] = T.const(Fr((3 * j + k) % 4 + 1, 4))
        return a

    def put(vals):
        with torch.no_grad():
            for (k, p) in ps:
                p.copy_(ctx.tensor(vals[k], p.dtype))

    vals = {k: base(tuple(p.shape), j) for j, (k, p) in enumerate(ps)}
    s, t = ctx.real("s", (), lo=Fr(1, 8), hi=8), ctx.real("t", (), lo=Fr(1, 8), hi=8)
    s, t = s.a[()], t.a[()]
    ctx.assume(T.vgt(t, s))

    def compare(label, k, f):
        r = []
        for v in (s, t):
            put({**vals, k: f(vals[k], v)})
            r.append(out())
        r = [v.real if isinstance(v, T.CV) else v for v in r]
        ctx.true(f"{label} influences the output", T.vgt(r[1], r[0]))

    for k, p in ps:
        compare(k, k, lambda a, v: S.ew(lambda e: T.cmul(e, v), a))
        if entry:
            for i in np.ndindex(*p.shape):
                def one(a, v, i=i):
                    a = a.copy()
                    a[i] = v
                    return a

                compare(f"{k}{list(i)}", k, one)


# ------------------------------------------------------------------ adaptive models
def adapt(ctx, site, n, thr, **kw):
    return MPS(n, 2, 2, label_site=site, adaptive_mode=True, merge_threshold=thr, **kw)


def h_adaptive(ctx, n, site, flips, how):
    """copy or saved state of an adaptive model after `flips` re-merges: same output now,
    and independent of the original"""
    ctx.domain("div", "log", "logz")
    kw = dict(cutoff=0.0) if how.endswith("-on") else {}
    a = adapt(ctx, site, n, 4, **kw)
    AD.start(ctx, a, flips, 4)
    off = flips % 2
    pa = AD.havoc(ctx, a, off, "a.")
    x = ctx.real("x", (1, n, 2))
    ref = ctx.terms(a(x.t))
    ctx.eq("source", ref, AD.reference(n, site, off, pa, x.a, False))
    if how == "copy":
        b = copy.deepcopy(a)
    else:
        b = adapt(ctx, site, n, 4, **kw)
        AD.havoc(ctx, b, 0, "b.")
        if how == "load-used":
            b(x.t)
        if how == "load-flipped":
            AD.start(ctx, b, 1, 4)
        miss = b.load_state_dict(a.state_dict())
        ctx.true("nothing missing or unexpected", not miss.missing_keys and not miss.unexpected_keys)
    ctx.eq("target", ctx.terms(b(x.t)), ref)
    ctx.eq("source again", ctx.terms(a(x.t)), ref)
    if how.endswith("-on"):
        # both are re-merged by the next call, as they saw the same number of samples
        z = torch.zeros(2, n, 2)
        a(z), b(z)
        o = ctx.terms(a(x.t)), ctx.terms(b(x.t))
        ctx.true("both were re-merged", a.linear_region.offset == b.linear_region.offset == 1 - off)
        ctx.eq("target after re-merging", o[1], o[0])
        return
    AD.havoc(ctx, b, off, "b2.")
    ctx.eq("source after the target changed", ctx.terms(a(x.t)), ref)


def configs(tier):
    out = []
    big = tier == "thorough"
    kinds = ["mps0", "mps1", "mps2", "mps1p", "mps1P", "mps1n", "mps1r", "mps1f", "mps1F", "mps0F", "mps1rF",
             "ti", "tie", "tin", "tit", "tiet", "tiP",
             "fix", "fix-b", "fix-c", "fix-tab", "fix-fun", "uni", "uni-b", "uni-c", "uni-tab", "uni-fun"]
    if big:
        kinds += ["fix-b-c", "uni-b-c", "fix-tab-b", "uni-tab-b", "uni-fun-b", "mps2pP", "mps0rp", "mps1rfp", "tietP", "tien", "mps2nP", "mps0p"]
    for k in kinds:
        c = 20 if k[0] in "fu" else 5
        if "tab" not in k:  # its initial table is zero
            out.append(conf(f"load-new-{k}", h_load, kind=k, used=False, cost=c))
        out.append(conf(f"load-used-{k}", h_load, kind=k, used=True, cost=c))
        out.append(conf(f"copy-{k}", h_copy, kind=k, cost=c))
        out.append(conf(f"train-{k}", h_train, kind=k, cost=c))
        out.append(conf(f"listed-{k}", h_listed, kind=k))
        if "fun" not in k:  # values of a fixed embedding function may vanish
            out.append(conf(f"influence-{k}", h_influence, kind=k, entry=not k.startswith("mps") or "p" in k, cost=c))
    for n, site in ((1, 0), (2, 0), (2, 1), (2, 2), (3, 1)) + (((3, 0), (3, 2), (4, 2)) if big else ()):
        for flips in (0, 1):
            for how in ("copy", "load", "load-used", "load-flipped") + (("copy-on", "load-on") if n < 3 else ()):
                out.append(conf(f"adaptive-{n}-{site}-f{flips}-{how}", h_adaptive, n=n, site=site, flips=flips, how=how, cost=8))
    return out + evals(out, 3)
