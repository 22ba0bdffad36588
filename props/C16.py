"""Contractables multiply associatively and act as documented"""
import itertools

from .common import *
from torchmps.contractables import Contractable, ContractableList, EdgeVec, MatRegion, OutputCore, OutputMat, Scalar, SingleMat

BOUNDS = {
    "chains": "every chain of up to 4 (5 thorough) of matrix, matrix region, output core between optional left/right edge vectors or output matrices, with scalars anywhere and nested lists; every bracketing that the operators support",
    "sizes": "batch 0..3, bond dimensions 1..3 (mixed within a chain), output dimensions 1..3, regions of 1..9 matrices",
    "values": "every real (complex for a part) value of every entry",
    "outside": "rounding; bracketings for which the operators are undefined (e.g. region times region)",
    "larger sizes": "regions of 10..64 matrices, chains with regions of up to 9, batch up to 130; with 1..6 symbolic real numbers per tensor, the other entries being fixed",
}
ASSUMPTIONS = ["real arithmetic instead of floating point"]


# ------------------------------------------------------------------ reference
class Node:
    """value of a contractable: per sample an array over (outputs..., l?, r?)"""

    def __init__(self, kind, obj, val, l=None, r=None, items=None):
        self.kind, self.obj, self.val, self.l, self.r, self.items = kind, obj, val, l, r, items


def outer_mul(x, y, xr, yl):
    """contract last axis of x with the left bond of y (axis -2 if y has a right bond,
    else -1); outputs of x, then outputs of y, then bonds"""
    n = x.shape[-1]
    yy = np.moveaxis(y, yl, 0)
    x2, y2 = x.reshape(-1, n), yy.reshape(n, -1)
    return mm(x2, y2).reshape(x.shape[:-1] + yy.shape[1:])


def rmul_(A, B):
    """A, B: dict(val per sample, outs, l, r) -> product; arrays ordered outs, l, r"""
    res = []
    for a, b in zip(A["val"], B["val"]):
        yl = -2 if B["r"] else -1
        z = outer_mul(a, b, -1, yl)
        # axes: outsA, lA?, outsB, rB?  -> outsA, outsB, lA?, rB?
        if A["l"]:
            z = np.moveaxis(z, A["outs"], A["outs"] + B["outs"])
        res.append(z)
    return dict(val=res, outs=A["outs"] + B["outs"], l=A["l"], r=B["r"])


def rscale(s, A):
    return dict(A, val=[S.ew(lambda c, t=t: T.cmul(t, c), a) if a.ndim else np.asarray(T.cmul(t, a[()]), dtype=object).reshape(()) for t, a in zip(s, A["val"])])


def kind_of(A):
    return {(0, 0, 1): "lv", (0, 1, 0): "rv", (0, 1, 1): "m", (1, 1, 1): "c", (0, 0, 0): "s"}.get((A["outs"], int(A["l"]), int(A["r"])), "g")


CLS = {"lv": EdgeVec, "rv": EdgeVec, "m": SingleMat, "c": OutputCore, "s": Scalar, "ol": OutputMat, "or": OutputMat, "R": MatRegion}


class No(Exception):
    """the operators do not define this product"""


def kmul(a, b):
    """kind of the product of kinds (kind, outs, l, r)"""
    (ka, oa, la, ra), (kb, ob, lb, rb) = a, b
    if isinstance(ka, list) and isinstance(kb, list):
        raise No
    if isinstance(kb, list):
        for k in kb:
            a = kmul(a, k)
        return a
    if isinstance(ka, list):
        for k in ka[::-1]:
            b = kmul(k, b)
        return b
    if ka == "s":
        return b
    if kb == "s":
        return a
    if ka == "R" or kb == "R":
        if ka == "lv" or kb == "rv":
            return a if kb == "R" else b
        raise No
    if not (ra and lb) or (ka == "ol" and kb == "or"):
        raise No
    o = oa + ob
    l, r = la, rb
    return {(0, 0, 1): "lv", (0, 1, 0): "rv", (0, 1, 1): "m", (1, 1, 1): "c", (0, 0, 0): "s" if ka == "lv" and kb == "rv" else "g"}.get((o, l, r), "g"), o, l, r


def trees(i, j):
    if j - i == 1:
        yield i
        return
    for k in range(i + 1, j):
        for a in trees(i, k):
            for b in trees(k, j):
                yield (a, b)


def kind_tree(t, kinds):
    if isinstance(t, int):
        return kinds[t]
    return kmul(kind_tree(t[0], kinds), kind_tree(t[1], kinds))


def code_tree(t, objs):
    if isinstance(t, int):
        return objs[t]
    return code_tree(t[0], objs) * code_tree(t[1], objs)


def canon(ctx, c):
    """terms of a contractable ordered batch, outputs, l, r"""
    a = ctx.terms(c.tensor)
    s = c.bond_str
    if len(s) != a.ndim or s[0] != "b" or len(set(s)) != len(s):
        return None
    rest = [i for i, x in enumerate(s) if x not in "blr"]
    return a.transpose([0] + rest + [s.index(x) for x in "lr" if x in s])


def same(ctx, label, c, ref, kind, B):
    a = canon(ctx, c)
    if a is None:
        return ctx.fail(label, f"bond string {c.bond_str} for a tensor of order {c.tensor.ndim}")
    cls = CLS.get(kind)
    ctx.true(f"{label}: kind", isinstance(c, cls) if cls else isinstance(c, Contractable))
    ctx.true(f"{label}: bonds", ("l" in c.bond_str) == bool(ref["l"]) and ("r" in c.bond_str) == bool(ref["r"]))
    if kind == "R":
        return
    e = np.empty((B,) + (ref["val"][0].shape if B else a.shape[1:]), dtype=object)
    for i in range(B):
        v = ref["val"][i]
        e[i] = v if v.ndim else v[()]
    ctx.eq(label, a, e)


# ------------------------------------------------------------------- harnesses
INFO = {"lv": (0, 0, 1), "rv": (0, 1, 0), "m": (0, 1, 1), "c": (1, 1, 1), "ol": (1, 0, 1), "or": (1, 1, 0), "s": (0, 0, 0), "R": (0, 1, 1)}


def build(ctx, spec, B, dims, cx=False):
    """spec: kinds with optional digit ('R3': region of 3) and '-' (no batch index)"""
    objs, refs, kinds = [], [], []
    bond = itertools.cycle(dims)
    cur = next(bond)
    outs = itertools.cycle((2, 3, 1))
    Contractable.global_bs = B
    for i, k in enumerate(spec):
        nob = k.endswith("-")
        k = k.rstrip("-")
        n = int(k[1:]) if k[0] == "R" and k[1:] else 2
        k = "R" if k[0] == "R" else k
        if k in ("lv", "ol"):
            sh = (cur,) if k == "lv" else (cur, next(outs))
        elif k in ("rv", "or"):
            sh = (cur,) if k == "rv" else (cur, next(outs))
        elif k == "s":
            sh = ()
        elif k == "R":
            sh = (n, cur, cur)
        else:
            nx = next(bond)
            sh = (cur, nx) if k == "m" else (next(outs), cur, nx)
            cur = nx
        x = ctx.real(f"{k}{i}", sh if nob else (B,) + sh, cx=cx)
        if k in ("lv", "rv"):
            o = EdgeVec(x.t, is_left_vec=k == "lv")
        elif k in ("ol", "or"):
            o = OutputMat(x.t, is_left_mat=k == "ol")
        else:
            o = CLS[k](x.t)
        ctx.true(f"{k}{i}: batch", tuple(o.tensor.shape) == (B,) + sh)
        vals = [x.a if nob else x.a[b] for b in range(B)]
        if k == "R":
            vals = [chain(list(v)) for v in vals]
        if k in ("ol", "or"):
            vals = [v.T for v in vals]
        vals = [np.asarray(v, dtype=object) for v in vals]
        o_, l_, r_ = INFO[k]
        objs.append(o)
        kinds.append((k, o_, l_, r_))
        refs.append(dict(val=vals, outs=o_, l=l_, r=r_, s=k == "s"))
    return objs, refs, kinds


def ref_chain(refs, B):
    sc = [[x[()] for x in r["val"]] for r in refs if r["s"]]
    rest = [r for r in refs if not r["s"]]
    if not rest:
        out = dict(val=[np.asarray(T.ONE, dtype=object).reshape(()) for _ in range(B)], outs=0, l=0, r=0)
    else:
        out = rest[0]
        for r in rest[1:]:
            out = rmul_(out, r)
    for s in sc:
        out = rscale(s, out)
    return out


def h_chain(ctx, spec, B, dims, cx=False, some=None):
    objs, refs, kinds = build(ctx, spec, B, dims, cx)
    snap = [ctx.terms(o.tensor) for o in objs]
    ref = ref_chain(refs, B)
    n = 0
    for t in trees(0, len(spec)):
        try:
            k = kind_tree(t, kinds)
        except No:
            continue
        n += 1
        if some and n > some:
            break
        c = code_tree(t, objs)
        if k[0] == "R":
            v = c.reduce()
            same(ctx, f"{t} reduced", v, ref, "m", B)
        same(ctx, f"{t}", c, ref, k[0], B)
        same(ctx, f"{t} reduce", c.reduce(), ref, "m" if k[0] == "R" else k[0], B)
    for i, o in enumerate(objs):
        ctx.eq(f"factor {i} unchanged", o.tensor, snap[i])
    ctx.true("reached", n > 0 or len(spec) == 1)


def reduce_kind(ks, par):
    """kind of the reduced list, following the documented order: from the right end,
    from the left end where a product is undefined"""
    ks = list(ks)
    if par:
        ks = [reduced(k, False) for k in ks]
    while len(ks) > 1:
        try:
            ks[-2:] = [kmul(ks[-2], ks[-1])]
        except No:
            ks[:2] = [kmul(ks[0], ks[1])]
    return ks[0]


def reduced(k, par):
    if isinstance(k[0], list):
        return reduce_kind(k[0], par)
    return ("m",) + k[1:] if k[0] == "R" else k


def nest(objs, kinds, groups):
    """replace items i..j by a list of them"""
    oo, kk, i = [], [], 0
    for g in groups:
        if g > 0:
            oo.append(ContractableList(objs[i:i + g]))
            kk.append((kinds[i:i + g], None, None, None))
        else:
            g = 1
            oo.append(objs[i])
            kk.append(kinds[i])
        i += g
    return oo, kk


def h_list(ctx, spec, B, dims, groups=None, cx=False):
    objs, refs, kinds = build(ctx, spec, B, dims, cx)
    ref = ref_chain(refs, B)
    if groups:
        objs, kinds = nest(objs, kinds, groups)
    n = 0
    for rep in (0, 1):
        lst = ContractableList(objs)
        for par in (False, True):
            try:
                k = reduce_kind(kinds, par)
            except No:
                continue
            n += 1
            if isinstance(k[0], list):
                continue
            c = lst.reduce(parallel_eval=par)
            if k[0] == "R":
                c, k = c.reduce(), ("m",)
            same(ctx, f"reduce {'par' if par else 'ser'} {rep}", c, ref, k[0], B)
        ctx.true("list unchanged", len(lst.contractable_list) == len(objs) and all(a is b for a, b in zip(lst.contractable_list, objs)))
    # a list acts on a contractable on either side like its product
    if not groups:
        for i in range(len(spec) + 1):
            for side in ("left", "right"):
                if side == "right" and 0 < i < len(spec):
                    a, b, ka, kb = ContractableList(objs[:i]), objs[i:], (kinds[:i], 0, 0, 0), kinds[i:]
                elif side == "left" and 0 < i < len(spec):
                    a, b, ka, kb = objs[:i], ContractableList(objs[i:]), kinds[:i], (kinds[i:], 0, 0, 0)
                else:
                    continue
                # single contractables only
                o = b if side == "right" else a
                if len(o) != 1:
                    continue
                try:
                    k = kmul(ka, kb[0]) if side == "right" else kmul(ka[0], kb)
                except No:
                    continue
                n += 1
                c = a * b[0] if side == "right" else a[0] * b
                if k[0] == "R":
                    c, k = c.reduce(), ("m",)
                same(ctx, f"list times item at {i} ({side})", c, ref, k[0], B)
    ctx.true("reached", n > 0)


def h_region(ctx, n, D, B, cx=False):
    Contractable.global_bs = None
    x = ctx.real("x", (B, n, D, D), cx=cx)
    v = ctx.real("v", (B, D), cx=cx)
    w = ctx.real("w", (B, D), cx=cx)
    R = MatRegion(x.t)
    prod = [chain(list(x.a[b])) for b in range(B)]
    ctx.true("batch", Contractable.global_bs == B)
    same(ctx, "reduce", R.reduce(), dict(val=prod, outs=0, l=1, r=1), "m", B)
    V, W = EdgeVec(v.t, True), EdgeVec(w.t, is_left_vec=False)
    left = [chain(list(x.a[b]), left=v.a[b]) for b in range(B)]
    right = [chain(list(x.a[b]), right=w.a[b]) for b in range(B)]
    same(ctx, "v R", V * R, dict(val=left, outs=0, l=0, r=1), "lv", B)
    same(ctx, "R w", R * W, dict(val=right, outs=0, l=1, r=0), "rv", B)
    tot = [np.asarray(dot(left[b], w.a[b]), dtype=object).reshape(()) for b in range(B)]
    same(ctx, "(v R) w", (V * R) * W, dict(val=tot, outs=0, l=0, r=0), "s", B)
    same(ctx, "v (R w)", V * (R * W), dict(val=tot, outs=0, l=0, r=0), "s", B)
    ctx.eq("region unchanged", R.tensor, x.a)


MAKE = {
    "EdgeVec": ([3], lambda t: EdgeVec(t, True)), "EdgeVecR": ([3], lambda t: EdgeVec(t, False)),
    "SingleMat": ([2, 3], SingleMat), "OutputCore": ([2, 3, 2], OutputCore), "OutputMat": ([3, 2], lambda t: OutputMat(t, True)),
    "OutputMatR": ([3, 2], lambda t: OutputMat(t, False)), "MatRegion": ([3, 2, 2], MatRegion), "Scalar": ([], Scalar),
    "bxl": ([2, 3], lambda t: Contractable(t, "bxl")), "xl": ([2, 3], lambda t: Contractable(t, "xl" if t.ndim == 2 else "bxl")),
}


def h_expand(ctx, kind, B0, B):
    """batch index is added for tensors without one, at the size last set"""
    shape, make = MAKE[kind]
    Contractable.global_bs = None
    x = ctx.real("x", shape)
    y = ctx.real("y", [B] + shape)
    ctx.raises("no batch size known", lambda: make(x.t), RuntimeError)
    ctx.true("still unknown", Contractable.global_bs is None)
    EdgeVec(ctx.real("z", (B0, 2)).t, True)
    full = lambda n: np.broadcast_to(x.a, (n,) + tuple(shape))
    ctx.eq("expanded", make(x.t).tensor, full(B0))
    c = make(y.t)
    ctx.eq("batched", c.tensor, y.a)
    ctx.eq("expanded to the new size", make(x.t).tensor, full(B))
    ctx.eq("first unchanged", c.tensor, y.a)
    ctx.true("reduce keeps", kind == "MatRegion" or c.reduce() is c)
    for bad in range(6):
        if bad in (len(shape), len(shape) + 1):
            continue
        t = ctx.real(f"bad{bad}", [2] * bad)
        ctx.raises(f"order {bad}", lambda: make(t.t), Exception if bad == 0 else (ValueError, RuntimeError))
    ctx.eq("usable after errors", make(x.t).tensor, full(B))


def h_strings(ctx):
    """bond strings that do not fit"""
    Contractable.global_bs = 2
    x = ctx.real("x", (2, 3, 2))
    for s in ("bl", "blrx", "lbr", "lrb", "blrxy"):
        if s == "blrx":
            continue  # means: add a batch index
        ctx.raises(s, lambda s=s: Contractable(x.t, s), ValueError)
    ctx.eq("blrx", Contractable(x.t, "blxr").tensor, np.broadcast_to(x.a, (2, 2, 3, 2)))
    ctx.eq("lxr", Contractable(x.t, "lxr").tensor, np.broadcast_to(x.a, (2, 2, 3, 2)))
    M = SingleMat(ctx.real("m", (2, 2, 2)).t)
    V = EdgeVec(ctx.real("v", (2, 2)).t, True)
    W = EdgeVec(ctx.real("w", (2, 2)).t, False)
    ctx.raises("vector on the wrong side", lambda: M * V, (AssertionError, ValueError, TypeError))
    ctx.raises("vector on the wrong side (right)", lambda: W * M, (AssertionError, ValueError, TypeError))
    ctx.raises("repeated index", lambda: Contractable(ctx.real("y", (2, 2, 2)).t, "bxx") * M, Exception)
    ctx.raises("not a contractable", lambda: ContractableList([M, 3]), ValueError)
    ctx.raises("not a list", lambda: ContractableList(M), ValueError)
    ctx.raises("empty list", lambda: ContractableList([]), ValueError)
    ctx.raises("rectangular region", lambda: MatRegion(ctx.real("z", (2, 3, 2, 3)).t), ValueError)
    for B in (1, 3):
        ctx.raises(f"bond mismatch {B}", lambda: SingleMat(ctx.real("a", (2, 2, 3)).t) * SingleMat(ctx.real("c", (2, 2, 2)).t), RuntimeError)
    ctx.raises("batch mismatch", lambda: SingleMat(ctx.real("d", (2, 2, 3)).t) * SingleMat(ctx.real("e", (3, 3, 2)).t), RuntimeError)


def h_free(ctx, B):
    """other indices: outer product, whatever their names"""
    Contractable.global_bs = None
    x = ctx.real("x", (B, 2, 3, 2))
    y = ctx.real("y", (B, 2, 1, 2, 3))
    for sx, sy in itertools.product(("bxor", "bzyr", "baor"), ("bloxr", "blyzr", "blxyr")):
        X, Y = Contractable(x.t, sx), Contractable(y.t, sy)
        c = X * Y
        e = np.empty((B, 2, 3, 1, 2, 3), dtype=object)
        for p in np.ndindex(*e.shape):
            b, i, j, k, l, r = p
            e[p] = T.csum([T.cmul(x.a[b, i, j, u], y.a[b, u, k, l, r]) for u in range(2)])
        a = canon(ctx, c)
        ctx.true(f"{sx} {sy} str", a is not None and c.bond_str[-1] == "r" and "l" not in c.bond_str)
        ctx.eq(f"{sx} {sy}", a if a is not None else c.tensor, e)


def scalars_in(spec):
    for i in range(len(spec) + 1):
        yield spec[:i] + ("s",) + spec[i:]


def configs(tier):
    big = tier == "thorough"
    out = []
    inner = [s for n in range(4 if not big else 5) for s in itertools.product(("m", "R", "c"), repeat=n)]
    for mid in inner:
        if mid.count("c") > 2:
            continue
        for L in (None, "lv", "ol"):
            for R in (None, "rv", "or"):
                if "ol" in (L,) and "or" in (R,) and len(mid) > 1:
                    continue
                spec = ((L,) if L else ()) + mid + ((R,) if R else ())
                if not spec or len(spec) > (5 if big or (L in (None, "lv") and R in (None, "rv")) else 4):
                    continue
                if L == "ol" and R == "rv" or L == "lv" or L is None or R is None or not mid:
                    pass
                if not valid(spec):
                    continue
                nm = "".join(spec) or "e"
                dims = [(2, 2), (2, 3), (3, 1, 2), (1, 2)][len(out) % 4]
                B = (2, 1, 3, 0)[len(out) % 4] if len(mid) < 3 else 2
                out.append(conf(f"chain-{nm}", h_chain, spec=spec, B=B, dims=dims, cx=len(out) % 5 == 0, cost=len(spec)))
                out.append(conf(f"list-{nm}", h_list, spec=spec, B=2, dims=(2, 2) if len(spec) % 2 else (2, 3), cost=len(spec)))
                if len(spec) <= 3:
                    for sp in scalars_in(spec):
                        out.append(conf(f"chain-{''.join(sp)}", h_chain, spec=sp, B=2, dims=(2, 3), cost=len(spec)))
                        out.append(conf(f"list-{''.join(sp)}", h_list, spec=sp, B=2, dims=(2, 2), cost=len(spec)))
                if 2 <= len(spec) <= 4:
                    un = tuple(k + "-" if i % 2 else k for i, k in enumerate(spec))
                    out.append(conf(f"chain-{nm}-nobatch", h_chain, spec=un, B=2, dims=(2, 3), cost=len(spec)))
                    for g in groupings(len(spec)):
                        if ok_groups(spec, g):
                            out.append(conf(f"nest-{nm}-{''.join(map(str, g))}", h_list, spec=spec, B=2, dims=(2, 2), groups=g, cost=len(spec)))
    out.append(conf("chain-sss", h_chain, spec=("s", "s", "s"), B=2, dims=(2,)))
    for n in (1, 2, 3, 4, 5, 6, 7, 8, 9) + ((10, 11, 12, 13) if big else ()):
        for D, B in ((2, 1), (1, 2)) + (((3, 2),) if n <= 4 else ()) + (((2, 3),) if n <= 5 else ()):
            out.append(conf(f"region-n{n}D{D}B{B}", h_region, n=n, D=D, B=B, cost=n * D))
        if n <= 4:
            out.append(conf(f"region-n{n}-cx", h_region, n=n, D=2, B=2, cx=True, cost=n * 3))
            out.append(conf(f"region-n{n}-sq", h_region, n=n, D=n, B=n, cost=n * 5) if n < 4 else conf("region-n2-B0", h_region, n=2, D=2, B=0))
    for k in MAKE:
        for B0, B in ((2, 3), (3, 1), (1, 2), (2, 0)):
            out.append(conf(f"expand-{k}-{B0}{B}", h_expand, kind=k, B0=B0, B=B))
    out.append(conf("strings", h_strings))
    for B in (1, 2):
        out.append(conf(f"free-B{B}", h_free, B=B))
    seen, res = set(), []
    for c in out:
        if c["name"] not in seen:
            seen.add(c["name"])
            res.append(c)
    # larger sizes with few symbolic entries
    for n in (10, 12, 16, 17, 23, 33, 64):
        for D, B in ((2, 9), (3, 2), (5, 1)):
            if n * D < 100:
                res.append(sparse(conf(f"region-n{n}D{D}B{B}", h_region, n=n, D=D, B=B, cx=n % 4 == 0, cost=n * D), 3))
    for i, spec in enumerate((("lv", "m", "R5", "c", "R3", "rv"), ("R9", "c", "m"), ("lv", "m", "m", "m", "c", "m", "R2"), ("ol", "R7", "m", "rv"), ("m", "R3", "R4", "or"), ("lv", "R2", "c", "R2", "c", "rv"))):
        for B, dims in ((7, (3, 5, 4)), (17, (2, 3)), (130, (2,))):
            nm = ".".join(spec) + f"B{B}"
            if valid(tuple(k[0] if k[0] == "R" else k for k in spec)):
                res.append(sparse(conf(f"chain-{nm}", h_chain, spec=spec, B=B, dims=dims if i % 2 else dims[:1], cx=False, cost=60), 1))
            res.append(sparse(conf(f"list-{nm}", h_list, spec=spec, B=B, dims=dims[:1], cost=60), 1))
    return res + [strided(c) for c in res[::6]] + evals(res, 29)


def kinds_of(spec):
    return [(k,) + INFO[k] for k in spec]


def valid(spec):
    if len(spec) == 1:
        return True
    for t in trees(0, len(spec)):
        try:
            kind_tree(t, kinds_of(spec))
            return True
        except No:
            pass
    return False


def groupings(n):
    """ways to put runs of at least one item into nested lists (0: not nested)"""
    out = []
    for i in range(n):
        for g in range(1, n - i + 1):
            if g < n:
                out.append((0,) * i + (g,) + (0,) * (n - i - g))
    return out


def ok_groups(spec, g):
    ks = kinds_of(spec)
    oo, i = [], 0
    for x in g:
        if x:
            oo.append((ks[i:i + x], None, None, None))
            i += x
        else:
            oo.append(ks[i])
            i += 1
    for par in (False, True):
        try:
            k = reduce_kind(oo, par)
            return not isinstance(k[0], list)
        except No:
            pass
    return False
