"""Broadcasting of batch shapes"""
from .common import *
from torchmps.utils2 import shape_broadcast, batch_broadcast, batch_to, bundle_tensors

BOUNDS = {
    "shape_broadcast": "2 shapes of rank 0..3, 3 shapes of rank 0..2, every dimension an arbitrary integer in 0..1000",
    "batch_broadcast, batch_to": "all pairs (and triples) of batch shapes from a list of rank 0..3 with sizes 0..3, 0..2 non-batch indices, arbitrary entries",
    "bundle_tensors": "1..3 tensors of rank 1..3, every position of the new index, arbitrary entries",
    "layout": "contiguous tensors, and non-contiguous views with a storage offset",
}
ASSUMPTIONS = []


def compat(dims):
    """(condition, broadcast size) of aligned dimensions"""
    cs, out = [], T.ONE
    for i, x in enumerate(dims):
        for y in dims[:i]:
            cs.append(T.bor(T.ceq(x, T.ONE), T.ceq(y, T.ONE), T.ceq(x, y)))
    for x in dims[::-1]:
        out = T.ite(T.ceq(x, T.ONE), out, x)
    return T.band(*cs) if cs else T.TRUE, out


def h_shape(ctx, ranks):
    shapes = []
    for i, r in enumerate(ranks):
        shapes.append(tuple(ctx.int(f"n{i}_{j}", 0, 1000) for j in range(r)))
    n = max(ranks)
    cols = []
    for k in range(1, n + 1):
        cols.append([T.lift(s[-k]) for s in shapes if len(s) >= k])
    cond = [compat(c) for c in cols][::-1]
    ok = T.band(*[c for c, _ in cond]) if cond else T.TRUE
    try:
        out = shape_broadcast(list(shapes))
    except ValueError:
        ctx.true("rejected only when incompatible", T.bnot(ok))
        return
    ctx.true("accepted only when compatible", ok)
    ctx.true("tuple of the right rank", isinstance(out, tuple) and len(out) == n)
    if n:
        ctx.eq("sizes", ctx.terms([T.lift(x) for x in out]), ctx.terms([x for _, x in cond]))


SHAPES = [(), (1,), (2,), (3,), (0,), (1, 2), (2, 1), (2, 2), (1, 1), (3, 2), (2, 1, 1), (1, 3, 2), (0, 2)]
TAILS = {0: (), 1: (2,), 2: (1, 3)}


def h_batch(ctx, n1, n2):
    k = 0
    for s1 in SHAPES:
        for s2 in SHAPES:
            k += 1
            a = ctx.real(f"a{k}", s1 + TAILS[n1])
            b = ctx.real(f"b{k}", s2 + TAILS[n2])
            try:
                full = np.broadcast_shapes(s1, s2)
            except ValueError:
                ctx.raises(f"{s1} {s2}", lambda: batch_broadcast((a.t, b.t), (n1, n2)), ValueError)
                continue
            out = batch_broadcast((a.t, b.t), (n1, n2))
            ctx.true(f"{s1} {s2} two outputs", len(out) == 2)
            ctx.eq(f"{s1} {s2} first", out[0], np.broadcast_to(a.a.reshape((1,) * (len(full) - len(s1)) + a.a.shape), full + TAILS[n1]))
            ctx.eq(f"{s1} {s2} second", out[1], np.broadcast_to(b.a.reshape((1,) * (len(full) - len(s2)) + b.a.shape), full + TAILS[n2]))


def h_triple(ctx, nn):
    k = 0
    S3 = [(), (1,), (2,), (2, 1), (1, 2), (3, 1), (0,)]
    for ss in itertools.product(S3, repeat=3):
        k += 1
        ts = [ctx.real(f"t{k}_{i}", s + TAILS[n]) for i, (s, n) in enumerate(zip(ss, nn))]
        try:
            full = np.broadcast_shapes(*ss)
        except ValueError:
            ctx.raises(f"{ss}", lambda: batch_broadcast([t.t for t in ts], nn), ValueError)
            continue
        out = batch_broadcast([t.t for t in ts], nn)
        for t, o, s, n in zip(ts, out, ss, nn):
            ctx.eq(f"{ss}", o, np.broadcast_to(t.a.reshape((1,) * (len(full) - len(s)) + t.a.shape), full + TAILS[n]))


def h_to(ctx, n):
    k = 0
    for s1 in SHAPES:
        a = ctx.real(f"a{k}", s1 + TAILS[n])
        for s2 in SHAPES:
            k += 1
            try:
                full = np.broadcast_shapes(s1, s2)
            except ValueError:
                ctx.raises(f"{s1} to {s2}", lambda: batch_to(a.t, s2, n), ValueError)
                continue
            out = batch_to(a.t, s2, n)
            if full == s2:
                ctx.eq(f"{s1} to {s2}", out, np.broadcast_to(a.a.reshape((1,) * (len(full) - len(s1)) + a.a.shape), full + TAILS[n]))
        a = None
        k += 1


def h_few(ctx):
    a = ctx.real("a", (2, 3))
    ctx.eq("a single tensor", batch_broadcast((a.t,), (1,))[0], a.a)
    ctx.true("nothing", len(batch_broadcast((), ())) == 0)
    e = (AssertionError, ValueError, TypeError)
    ctx.raises("a tensor instead of a list", lambda: batch_broadcast(a.t, (1, 1)), e)
    ctx.raises("different lengths", lambda: batch_broadcast((a.t, a.t), (1,)), e)
    ctx.raises("negative number of indices", lambda: batch_broadcast((a.t, a.t), (1, -1)), e)
    ctx.raises("fewer indices than non-batch ones", lambda: batch_broadcast((a.t, a.t), (1, 3)), e)


def h_bundle(ctx):
    k = 0
    for shape in ((2,), (2, 3), (1, 2), (2, 1, 2), ()):
        for n in (1, 2, 3):
            for dim in range(-len(shape) - 1, len(shape) + 1):
                k += 1
                ts = [ctx.real(f"t{k}_{i}", shape) for i in range(n)]
                for kind in (list, tuple):
                    out = bundle_tensors(kind(t.t for t in ts), dim=dim)
                    ctx.true("a tensor", isinstance(out, torch.Tensor))
                    ctx.eq(f"{shape} {n} {dim}", out, np.stack([t.a for t in ts], dim))
            out = bundle_tensors([t.t for t in ts])
            ctx.eq(f"{shape} {n} default position", out, np.stack([t.a for t in ts], 0))
    a, b, c = ctx.real("a", (2, 2)), ctx.real("b", (2, 3)), ctx.real("c", (2, 2, 1))
    ctx.true("a tensor is returned unchanged", bundle_tensors(a.t) is a.t)
    for grp in ([a.t, b.t], [a.t, c.t], [a.t, a.t, b.t], (b.t, a.t, a.t)):
        out = bundle_tensors(grp)
        ctx.true("unequal shapes are returned unchanged", not isinstance(out, torch.Tensor) and len(out) == len(grp) and all(x is y for x, y in zip(out, grp)))
    ctx.true("an empty list is returned unchanged", len(bundle_tensors([])) == 0 and not isinstance(bundle_tensors([]), torch.Tensor))


def configs(tier):
    out = []
    big = tier == "thorough"
    rk = [(a, b) for a in range(4) for b in range(4)]
    rk += [(a, b, c) for a in range(3) for b in range(3) for c in range(3) if a + b + c <= (6 if big else 5)] + [(0,), (1,), (2,)]
    for r in rk:
        out.append(conf("shape-" + "x".join(map(str, r)), h_shape, cost=3 ** sum(r), max_paths=4000, ranks=r))
    for n1 in TAILS:
        for n2 in TAILS:
            out.append(conf(f"batch-{n1}-{n2}", h_batch, cost=50, n1=n1, n2=n2))
        out.append(conf(f"to-{n1}", h_to, cost=30, n=n1))
    for nn in ((0, 0, 0), (1, 1, 2), (2, 0, 1), (1, 2, 2)):
        out.append(conf("triple-" + "".join(map(str, nn)), h_triple, cost=60, nn=nn))
    out.append(conf("few", h_few))
    out.append(conf("bundle", h_bundle))
    return out + [strided(c) for c in out if not c["name"].startswith(("shape", "few"))] + evals(out, 9)
