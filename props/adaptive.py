"""Reference semantics of adaptive models: layout of merged cores and their contraction"""
from .common import *


def layout(n, site, offset):
    """cores in order: each a tuple of the merged elementary cores.  Elementary cores are
    0..n: inputs, and the label core at position `site`; pairs start at `offset`."""
    out, k = [], 0
    if offset:
        out.append((0,))
        k = 1
    while k <= n:
        if k + 1 <= n:
            out.append((k, k + 1))
            k += 2
        else:
            out.append((k,))
            k += 1
    return out


def pixel(k, site):
    """input read by elementary core k (None for the label core)"""
    return None if k == site else k - (k > site)


def splits(n, offset):
    """bonds inside merged cores (bond k is on the left of elementary core k)"""
    return [c[1] for c in layout(n, 0, offset) if len(c) == 2]


def groups(n, site, offset):
    """modules: consecutive merged input pairs share one tensor"""
    out = []
    for c in layout(n, site, offset):
        inp = len(c) == 2 and site not in c
        # a lone core, or the label core in between, ends a group
        if inp and out and out[-1][0] == "pairs":
            out[-1][1].append(c)
        elif inp:
            out.append(("pairs", [c]))
        else:
            out.append(("label" if site in c else "site", [c]))
    return out


def prefix(offset):
    return f"linear_region.module_list_{offset}."


def tensors(m, offset):
    """parameters of one merge state in order"""
    sd = dict(m.linear_region.state_dict(keep_vars=True))
    ks = [k for k in sd if k.startswith(f"module_list_{offset}.")]
    return [sd[k] for k in sorted(ks, key=lambda k: int(k.split(".")[1]))]


def mats_of(groups_, ts, x, site):
    """chain of matrices (functions of the output index o) for one embedded sample"""
    out = []
    for (kind, cores), t in zip(groups_, ts):
        for i, c in enumerate(cores):
            if kind == "pairs":
                a = t[i]  # l r i j
                m1 = lin(x[pixel(c[1], site)], np.moveaxis(a, 3, 0))  # l r i
                out.append(lin(x[pixel(c[0], site)], np.moveaxis(m1, 2, 0)))
            elif kind == "site":
                out.append(lin(x[pixel(c[0], site)], np.moveaxis(t, 2, 0)))
            elif len(c) == 1:
                out.append([t[o] for o in range(t.shape[0])])
            else:
                k = [e for e in c if e != site][0]
                out.append([lin(x[pixel(k, site)], np.moveaxis(t[o], 2, 0)) for o in range(t.shape[0])])
    return out


def reference(n, site, offset, ts, xs, periodic):
    g = groups(n, site, offset)
    assert len(g) == len(ts), (g, [t.shape for t in ts])
    out = None
    for b, x in enumerate(xs):
        ms = mats_of(g, ts, x, site)
        lab = [m for m in ms if isinstance(m, list)][0]
        if out is None:
            out = np.empty((len(xs), len(lab)), dtype=object)
        for o in range(len(lab)):
            out[b, o] = close_chain([m[o] if isinstance(m, list) else m for m in ms], periodic)
    return out


def matrices(n, site, offset, ts):
    """(bond, matrix whose singular values appear when the bond is split)"""
    out = []
    for (kind, cores), t in zip(groups(n, site, offset), ts):
        for i, c in enumerate(cores):
            if len(c) == 1:
                continue
            if kind == "pairs":  # l r i j -> (l i) x (r j)
                a = np.transpose(t[i], (0, 2, 1, 3))
                a = a.reshape(a.shape[0] * a.shape[1], -1)
            elif c[0] == site:  # o l r i -> (o l) x (r i)
                a = t.reshape(t.shape[0] * t.shape[1], -1)
            else:  # (l i) x (o r)
                a = np.transpose(t, (1, 3, 0, 2))
                a = a.reshape(a.shape[0] * a.shape[1], -1)
            out.append((c[1], a))
    return out


def havoc(ctx, m, offset, pre="", ranks=None):
    """arbitrary parameters in one merge state, merged cores of the given ranks (in the
    order of their bonds) across the merged bond"""
    ts = tensors(m, offset)
    n, site = m.input_dim, m.label_site
    out = []
    ranks = list(ranks) if ranks is not None else None
    with torch.no_grad():
        for gi, ((kind, cores), p) in enumerate(zip(groups(n, site, offset), ts)):
            sh = tuple(p.shape)
            nm = f"{pre}s{offset}.{gi}"
            if ranks is None or len(cores[0]) == 1:
                x = ctx.real(nm, sh)
                p.copy_(x.t)
                out.append(x.a)
                continue
            a = np.empty(sh, dtype=object)
            for i, c in enumerate(cores):
                r_ = ranks.pop(0)
                if kind == "pairs":
                    l, r, d, e = sh[1:]
                    w = ctx.lowrank(f"{nm}.{i}", l * d, r * e, r_)
                    a[i] = np.transpose(w.reshape(l, d, r, e), (0, 2, 1, 3))
                elif c[0] == site:
                    o, l, r, d = sh
                    a[:] = ctx.lowrank(nm, o * l, r * d, r_).reshape(o, l, r, d)
                else:
                    o, l, r, d = sh
                    w = ctx.lowrank(nm, l * d, o * r, r_).reshape(l, d, o, r)
                    a[:] = np.transpose(w, (2, 0, 3, 1))
            p.copy_(ctx.tensor(a))
            out.append(a)
    return out


def start(ctx, m, offset, thr):
    """bring a fresh model into a merge state, with `thr` samples to go"""
    n = m.input_dim
    for p in tensors(m, 0):
        with torch.no_grad():
            p.zero_()
            p.view(-1)[0] = 1.0
            for t in p if p.ndim == 5 else ():
                t.view(-1)[0] = 1.0
    if offset:
        z = torch.zeros(thr, n, m.feature_dim)
        m(z)
        m(z[:0])
