"""Symbolic tensors: the real TorchMPS code runs under the real torch, with every
float/complex tensor replaced by a wrapper whose entries are `term` expressions.

A `SymTensor` holds a real int64 tensor `ids` of the same shape and strides whose
entries index the global TERMS table (0 is the number zero, 1 the number one).
Operators that only move data are executed by torch itself on the id tensors, so
views, aliasing and in-place writes behave exactly as they do natively.
Arithmetic operators compute on the expressions; torch's own `meta` kernels
supply shapes, result dtypes and the errors a real call would raise.  An operator
with no rule here is decomposed by torch, or refused (`Unsupported`).
"""
import math
from fractions import Fraction as Fr

import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode, _disable_current_modes
from torch.utils._pytree import tree_map, tree_flatten

from . import term as T
from .term import V, CV, Bo, Unsupported, lift, ZERO, ONE, TRUE, FALSE

aten = torch.ops.aten
TERMS = [ZERO, ONE]
_IDX = {("v", ZERO.id): 0, ("v", ONE.id): 1}


def term_id(t):
    if isinstance(t, V):
        k = ("v", t.id)
    elif isinstance(t, CV):
        k = ("c", t.re.id, t.im.id)
    elif isinstance(t, Bo):
        if t is FALSE:
            return 0
        if t is TRUE:
            return 1
        k = ("b", t.id)
    else:
        return term_id(lift(t))
    i = _IDX.get(k)
    if i is None:
        i = len(TERMS)
        TERMS.append(t)
        _IDX[k] = i
    return i


class Session:
    """Hooks through which symbolic values steer control flow; set by `explore`"""

    fork = None  # fork(Bo) -> bool
    fresh_hook = None  # fresh_hook(kind, shape, dtype, params) -> list of terms
    svd_hook = None
    events = None
    sgn_nonzero = False
    exact_close = False
    entails = staticmethod(lambda b, parts: False)
    tested = set()  # scale factors that were compared with zero (differentiation)
    zero = staticmethod(lambda v: v)  # 0 if the solver proves v == 0
    backward = False  # gradients are being computed
    assume = None


class SymNum:
    """A symbolic Python number (an int or float that is not known)"""

    def __init__(self, term, isint=True):
        self.term, self.isint = term, isint

    def _w(self, t, o=None):
        return SymNum(t, self.isint and not isinstance(o, float))

    def __add__(self, o):
        if isinstance(o, torch.Tensor):
            return torch.add(self._t(o), o)
        return self._w(T.cadd(self.term, lift(o)), o)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, torch.Tensor):
            return torch.sub(self._t(o), o)
        return self._w(T.csub(self.term, lift(o)), o)

    def __rsub__(self, o):
        if isinstance(o, torch.Tensor):
            return torch.sub(o, self._t(o))
        return self._w(T.csub(lift(o), self.term), o)

    def __mul__(self, o):
        if isinstance(o, torch.Tensor):
            return torch.mul(self._t(o), o)
        return self._w(T.cmul(self.term, lift(o)), o)

    __rmul__ = __mul__

    def __neg__(self):
        return self._w(-self.term)

    def __truediv__(self, o):
        if isinstance(o, torch.Tensor):
            return torch.div(self._t(o), o)
        return SymNum(T.cdiv(self.term, lift(o)), False)

    def __rtruediv__(self, o):
        if isinstance(o, torch.Tensor):
            return torch.div(o, self._t(o))
        return SymNum(T.cdiv(lift(o), self.term), False)

    def __pow__(self, n):
        if isinstance(n, int) and 0 <= n <= 16:
            t = ONE
            for _ in range(n):
                t = T.cmul(t, self.term)
            return self._w(t)
        raise Unsupported("power of a symbolic number")

    def __pos__(self):
        return self

    def trunc(self):
        if self.isint:
            return self
        f = T.vfloor(self.term)
        if bool(SymBool(T.bor(T.vge(self.term, ZERO), T.ceq(f, self.term)))):
            return SymNum(f, True)
        return SymNum(T.cadd(f, ONE), True)

    def concrete(self):
        """the value as a Python int, by branching on it"""
        for k in (0, 1, 2, 3, 4, 5, 6, 7, 8, -1, -2, -3, -4):
            if bool(SymBool(T.ceq(self.term, lift(k)))):
                return k
        raise Unsupported("a symbolic number used as an index")

    def __floordiv__(self, o):
        return SymNum(T.vfloor(T.cdiv(self.term, lift(o))), True)

    def __mod__(self, o):
        o = lift(o)
        return SymNum(
            self.term - o * T.vfloor(T.cdiv(self.term, o)), self.isint
        )

    def __divmod__(self, o):
        return self // o, self % o

    def __abs__(self):
        return self._w(T.vabs(self.term))

    def __eq__(self, o):
        if o is None:
            return False
        return SymBool(T.ceq(self.term, lift(o)))

    def __ne__(self, o):
        if o is None:
            return True
        return SymBool(T.bnot(T.ceq(self.term, lift(o))))

    def __lt__(self, o):
        if isinstance(o, torch.Tensor):
            return torch.gt(o, self._t(o))
        return SymBool(T.vgt(lift(o), self.term))

    def __le__(self, o):
        if isinstance(o, torch.Tensor):
            return torch.ge(o, self._t(o))
        return SymBool(T.vge(lift(o), self.term))

    def __gt__(self, o):
        if isinstance(o, torch.Tensor):
            return torch.lt(o, self._t(o))
        return SymBool(T.vgt(self.term, lift(o)))

    def __ge__(self, o):
        if isinstance(o, torch.Tensor):
            return torch.le(o, self._t(o))
        return SymBool(T.vge(self.term, lift(o)))

    def _t(self, o):
        a = np.empty((), dtype=object)
        a[()] = self.term
        return mk(a, o.dtype)

    __hash__ = object.__hash__

    def __bool__(self):
        return bool(SymBool(T.bnot(T.eq0(self.term))))

    def __float__(self):
        if T.is_const(self.term):
            return float(T.const_val(self.term))
        raise Unsupported("float() of a symbolic number")

    def __int__(self):
        if T.is_const(self.term):
            return int(T.const_val(self.term))
        raise Unsupported("int() of a symbolic number")

    def __index__(self):
        if self.isint and T.is_const(self.term):
            return int(T.const_val(self.term))
        if self.isint:
            return self.concrete()
        raise TypeError("a float used as an index")

    def __repr__(self):
        return f"SymNum({self.term})"


class SymBool:
    def __init__(self, b):
        self.b = b
        self.term = b

    def __bool__(self):
        if self.b is TRUE:
            return True
        if self.b is FALSE:
            return False
        return Session.fork(self.b)

    def __invert__(self):
        return SymBool(T.bnot(self.b))

    def __and__(self, o):
        return SymBool(T.band(self.b, o.b if isinstance(o, SymBool) else T.bconst(o)))

    def __or__(self, o):
        return SymBool(T.bor(self.b, o.b if isinstance(o, SymBool) else T.bconst(o)))

    def __repr__(self):
        return f"SymBool({self.b})"


class SymTensor(torch.Tensor):
    @staticmethod
    def __new__(cls, ids, dtype, requires_grad=False):
        r = torch.Tensor._make_wrapper_subclass(
            cls,
            ids.size(),
            strides=ids.stride(),
            storage_offset=ids.storage_offset(),
            dtype=dtype,
            layout=torch.strided,
            device="cpu",
            requires_grad=requires_grad,
        )
        return r

    def __init__(self, ids, dtype, requires_grad=False):
        self.ids = ids

    __torch_function__ = torch._C._disabled_torch_function_impl

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})

    # ---- Python-level scalar access
    def item(self):
        if self.numel() != 1:
            raise RuntimeError(
                f"a Tensor with {self.numel()} elements cannot be converted to Scalar"
            )
        t = terms(self).reshape(-1)[0]
        if isinstance(t, Bo):
            return SymBool(t)
        if isinstance(t, V) and T.is_const(t):
            c = T.const_val(t)
            return float(c) if self.dtype.is_floating_point else int(c)
        return SymNum(t, not (self.dtype.is_floating_point or self.dtype.is_complex))

    def tolist(self):
        def go(x):
            return x.item() if x.ndim == 0 else [go(y) for y in x]

        return go(self)

    def __bool__(self):
        if self.numel() != 1:
            raise RuntimeError(
                "Boolean value of Tensor with more than one value is ambiguous"
            )
        return bool(self.item())

    def __float__(self):
        return float(self.item())

    def __int__(self):
        return int(self.item())

    def __index__(self):
        x = self.item()
        return x.__index__()

    def __contains__(self, x):
        return bool((self == x).any())

    def __repr__(self, **kw):
        return f"SymTensor({terms(self).tolist()}, dtype={self.dtype})"

    def __deepcopy__(self, memo):
        r = self.detach().clone()
        if isinstance(self, torch.nn.Parameter) or getattr(self, "_is_param", False):
            r = torch.nn.Parameter(r, self.requires_grad)
        else:
            r.requires_grad_(self.requires_grad)
        memo[id(self)] = r
        return r

    def numpy(self, **kw):
        if self.requires_grad:
            raise RuntimeError("Can't call numpy() on Tensor that requires grad.")
        raise Unsupported("numpy() of a symbolic tensor")

    def __array__(self, *a, **k):
        raise Unsupported("numpy conversion of a symbolic tensor")


class nomode:
    def __enter__(self):
        self.c = _disable_current_modes()
        self.c.__enter__()
        self.g = torch.no_grad()
        self.g.__enter__()

    def __exit__(self, *a):
        self.g.__exit__(*a)
        self.c.__exit__(*a)


def ids_of(t):
    return t.ids


_lookup = None


def terms(t):
    """numpy object array of the entries of a tensor"""
    if isinstance(t, SymTensor):
        with nomode():
            flat = t.ids.reshape(-1).tolist()
        if t.dtype == torch.bool:
            vals = [
                FALSE if i == 0 else TRUE if i == 1 else TERMS[i] for i in flat
            ]
        else:
            vals = [TERMS[i] for i in flat]
        shape = tuple(t.ids.shape)
    else:
        with nomode():
            vals = t.detach().reshape(-1).tolist()
        if t.dtype == torch.bool:
            vals = [T.bconst(x) for x in vals]
        else:
            vals = [lift(x) for x in vals]
        shape = tuple(t.shape)
    out = np.empty(len(vals), dtype=object)
    for i, x in enumerate(vals):
        out[i] = x
    return out.reshape(shape)


def mk(arr, dtype, like=None):
    """Tensor from an array of terms"""
    arr = np.asarray(arr, dtype=object)
    shape = arr.shape
    cplx = dtype.is_complex
    isb = dtype == torch.bool
    flat = []
    for x in arr.reshape(-1):
        if isb and not isinstance(x, Bo):
            x = T.bnot(T.eq0(lift(x))) if not isinstance(x, bool) else T.bconst(x)
        elif not isb and isinstance(x, Bo):
            x = lift(x)
        if isinstance(x, CV) and not cplx:
            raise Unsupported("complex value in a real tensor")
        flat.append(term_id(x))
    with nomode():
        ids = torch.tensor(flat, dtype=torch.int64).reshape(shape)
    return SymTensor(ids, dtype)


def to_sym(t):
    if isinstance(t, SymTensor):
        return t
    return mk(terms(t), t.dtype)


def is_floaty(dt):
    return dt.is_floating_point or dt.is_complex


# ------------------------------------------------------------------ dispatching
MOVE = """view _unsafe_view reshape permute transpose t expand slice select unsqueeze
squeeze alias clone contiguous diagonal unbind split split_with_sizes chunk narrow
as_strided flip roll repeat cat stack diag_embed tril triu gather index_select movedim
unfold slice_backward select_backward slice_scatter select_scatter diagonal_backward
diagonal_scatter unsafe_chunk unsafe_split lift_fresh lift resolve_conj resolve_neg
_reshape_alias expand_copy view_copy permute_copy swapaxes moveaxis hstack vstack
index unfold_backward detach repeat_interleave tile take rot90 atleast_1d block_diag
as_strided_scatter _reshape_copy concat concatenate dstack diag swapdims
broadcast_tensors ravel flatten squeeze_copy unsqueeze_copy transpose_copy
select_copy slice_copy constant_pad_nd""".split()
MOVE = set(MOVE)
META_INPLACE = {"squeeze_", "unsqueeze_", "transpose_", "t_", "swapaxes_", "swapdims_"}

HANDLERS = {}


def handles(*names):
    def deco(f):
        for n in names:
            HANDLERS[n] = f
        return f

    return deco


def wrap_ids(x, dtype):
    if isinstance(x, torch.Tensor):
        return SymTensor(x, dtype)
    if isinstance(x, (list, tuple)):
        return type(x)(wrap_ids(y, dtype) for y in x)
    return x


def meta_of(x):
    if isinstance(x, torch.Tensor):
        with nomode():
            return torch.empty_strided(
                x.size(), x.stride(), dtype=x.dtype, device="meta"
            )
    if isinstance(x, SymNum):
        return 1 if x.isint else 1.0
    return x


def meta_call(func, args, kwargs):
    a, k = tree_map(meta_of, (tuple(args), dict(kwargs)))
    if "device" in k:
        k["device"] = torch.device("meta")
    with nomode():
        return func(*a, **k)


COUNTS = {}


def dispatch(func, args, kwargs):
    name = func.overloadpacket.__name__ if hasattr(func, "overloadpacket") else str(func)
    COUNTS[name] = COUNTS.get(name, 0) + 1
    if name in META_INPLACE:
        t = args[0]
        with nomode():
            func(t.ids, *args[1:], **kwargs)
        _set_meta(t)
        return t
    if name in MOVE:
        r = do_move(func, name, args, kwargs)
        if r is not NotImplemented:
            return r
    h = HANDLERS.get(name)
    if h is not None:
        return h(func, name, args, kwargs)
    if name.endswith("_") and not name.endswith("__"):
        # in-place: functional counterpart + copy
        base = name[:-1]
        pk = getattr(aten, base, None)
        if pk is not None and (base in HANDLERS or base in MOVE):
            ov = func._overloadname
            f2 = getattr(pk, ov, None) or pk
            r = dispatch(f2, args, kwargs)
            return copy_into(args[0], r)
    if func.namespace == "aten" and hasattr(func, "decompose"):
        from torch._decomp import decomposition_table

        d = decomposition_table.get(func)
        if d is not None:
            with cur_mode():
                return d(*args, **kwargs)
        with cur_mode():
            r = func.decompose(*args, **kwargs)
        if r is not NotImplemented:
            return r
    raise Unsupported(f"operator {func}")


def _set_meta(t):
    """Make the metadata of wrapper `t` agree with its id tensor"""
    from torch.utils._mode_utils import no_dispatch

    ids = t.ids
    with no_dispatch():
        torch.ops.aten.as_strided_.default(
            t, ids.size(), ids.stride(), ids.storage_offset()
        ) if False else t.as_strided_(ids.size(), ids.stride(), ids.storage_offset())


def do_move(func, name, args, kwargs):
    flat, _ = tree_flatten((args, kwargs))
    tens = [x for x in flat if isinstance(x, torch.Tensor)]
    data = []
    if name in ("index", "gather", "index_select", "take"):
        src = args[0]
        idxs, _ = tree_flatten(args[1:])
        if any(isinstance(i, SymTensor) for i in idxs):
            return NotImplemented
        if not isinstance(src, SymTensor):
            return NotImplemented
        dt = src.dtype
        with nomode():
            out = func(src.ids, *args[1:], **kwargs)
        return wrap_ids(out, dt)
    if name == "constant_pad_nd":
        a = list(args)
        v = a[2] if len(a) > 2 else kwargs.pop("value", 0)
        vid = term_id(lift(v))
        with nomode():
            out = func(a[0].ids, a[1], vid)
        return wrap_ids(out, a[0].dtype)
    dts = {x.dtype for x in tens}
    if len(dts) > 1:
        dt = tens[0].dtype
        for x in tens[1:]:
            dt = torch.promote_types(dt, x.dtype)
    else:
        dt = dts.pop()

    def conv(x):
        if isinstance(x, SymTensor):
            return x.ids
        if isinstance(x, torch.Tensor):
            return to_sym(x).ids
        return x

    if name in ("contiguous", "clone"):
        kwargs = {k: v for k, v in kwargs.items() if v is not None}
    a, k = tree_map(conv, (tuple(args), dict(kwargs)))
    with nomode():
        out = func(*a, **k)
    return wrap_ids(out, dt)


def copy_into(dst, src):
    """dst[...] = src, element type of dst"""
    st = src if isinstance(src, torch.Tensor) else mk(lift(src), dst.dtype)
    if dst.shape != st.shape:
        meta_call(aten.copy_.default, (dst, st), {})
    s = cast(st, dst.dtype)
    with nomode():
        dst.ids.copy_(s.ids)
    return dst


def cast(t, dtype):
    if not isinstance(t, SymTensor):
        t = to_sym(t)
    if t.dtype == dtype:
        return t
    if t.dtype.is_complex and not dtype.is_complex:
        arr = terms(t)
        arr = np.frompyfunc(lambda x: x.real, 1, 1)(arr)
        return mk(arr, dtype)
    if is_floaty(t.dtype) and not is_floaty(dtype) and dtype != torch.bool:
        arr = np.frompyfunc(_trunc, 1, 1)(terms(t))
        return mk(arr, dtype)
    return mk(terms(t), dtype)


def _trunc(x):
    if T.is_const(x):
        return T.const(math.trunc(T.const_val(x)))
    return T.ite(T.ge0(x), T.vfloor(x), -T.vfloor(-x))


# --------------------------------------------------------------------- the mode
class SymMode(TorchDispatchMode):
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        flat, _ = tree_flatten((args, kwargs))
        if any(isinstance(x, SymTensor) for x in flat):
            return dispatch(func, args, kwargs)
        name = func.overloadpacket.__name__ if hasattr(func, "overloadpacket") else ""
        if name in FACTORY:
            r = factory(func, name, args, kwargs)
            if r is not NotImplemented:
                return r
        out = func(*args, **kwargs)
        if name in ("lift_fresh", "_to_copy", "to", "detach", "clone", "alias"):
            if isinstance(out, torch.Tensor) and is_floaty(out.dtype):
                return to_sym(out)
        if isinstance(out, torch.Tensor) and is_floaty(out.dtype) and name not in (
            "detach",
            "alias",
        ):
            return to_sym(out)
        return out


_MODE = []


def cur_mode():
    """Re-enter the mode (torch switches it off while one of its calls is handled)"""
    return SymMode() if _MODE else nullctx()


class nullctx:
    def __enter__(self):
        pass

    def __exit__(self, *a):
        pass


def _linspace(start, end, steps, *args, **kw):
    """torch.linspace with symbolic end points (its argument parser refuses them)"""
    if not (isinstance(start, SymNum) or isinstance(end, SymNum)):
        return LINSPACE(start, end, steps, *args, **kw)
    a, b = lift(start), lift(end)
    return mk([a + (b - a) * T.const(Fr(i, max(steps - 1, 1))) for i in range(steps)], kw.get("dtype") or torch.get_default_dtype())


LINSPACE = torch.linspace


class symbolic:
    def __enter__(self):
        _MODE.append(1)
        torch.linspace = _linspace
        self.m = SymMode()
        self.m.__enter__()

    def __exit__(self, *a):
        self.m.__exit__(*a)
        _MODE.pop()
        torch.linspace = LINSPACE


FACTORY = set(
    """empty zeros ones full eye randn rand randint normal linspace arange empty_strided
scalar_tensor new_empty new_zeros new_ones new_full zeros_like ones_like empty_like
full_like randn_like rand_like new_empty_strided randperm normal_functional logspace
bernoulli uniform tril_indices""".split()
)
RANDOM = {"randn": "normal", "randn_like": "normal", "rand": "unif", "rand_like": "unif"}


def factory(func, name, args, kwargs):
    if name in ("randint", "randperm", "bernoulli", "tril_indices"):
        return NotImplemented
    kw = {k: v for k, v in kwargs.items() if k not in ("pin_memory", "layout")}
    m = meta_call(func, args, kw)
    dt = m.dtype
    if not is_floaty(dt):
        return NotImplemented
    if name in RANDOM:
        return fresh(RANDOM[name], m.shape, dt)
    if name in ("empty", "empty_like", "new_empty", "empty_strided", "new_empty_strided"):
        return fresh("uninit", m.shape, dt)
    if name == "normal" and func._overloadname == "float_float":
        mean, std = args[0], args[1]
        z = fresh("normal", m.shape, dt)
        return mk(ew(lambda x: lift(mean) + lift(std) * x, terms(z)), dt)
    if name in ("linspace", "arange", "logspace", "normal"):
        if any(isinstance(x, SymNum) for x in args):
            if name != "linspace":
                raise Unsupported(name)
            a, b, n = lift(args[0]), lift(args[1]), kwargs.get("steps", args[2] if len(args) > 2 else None)
            return mk(
                [a + (b - a) * T.const(Fr(i, n - 1)) for i in range(n)], dt
            )
        if name == "linspace":
            a, b = Fr(args[0]), Fr(args[1])
            n = args[2] if len(args) > 2 else kwargs["steps"]
            return mk([T.const(a + (b - a) * Fr(i, max(n - 1, 1))) for i in range(n)], dt)
        if name == "arange":
            kw = dict(kwargs)
            return to_sym(func(*args, **kw))
        raise Unsupported(name)
    if name in ("zeros", "zeros_like", "new_zeros"):
        return mk(np.full(tuple(m.shape), ZERO, dtype=object), dt)
    if name in ("ones", "ones_like", "new_ones"):
        return mk(np.full(tuple(m.shape), ONE, dtype=object), dt)
    if name in ("full", "new_full", "full_like", "scalar_tensor"):
        v = args[0] if name == "scalar_tensor" else args[2 if name == "new_full" else 1]
        return mk(np.full(tuple(m.shape), lift(v), dtype=object), dt)
    if name == "eye":
        a = np.full(tuple(m.shape), ZERO, dtype=object)
        for i in range(min(a.shape)):
            a[i, i] = ONE
        return mk(a, dt)
    return NotImplemented


def fresh(kind, shape, dtype, **params):
    shape = tuple(shape)
    n = int(np.prod(shape)) if shape else 1
    ts = Session.fresh_hook(kind, n, dtype, params)
    out = np.empty(n, dtype=object)
    for i, x in enumerate(ts):
        out[i] = x
    return mk(out.reshape(shape), dtype)


def ew(f, *arrs):
    """elementwise with numpy broadcasting, always an object array"""
    if not arrs:
        return f
    bc = np.broadcast_arrays(*[np.asarray(a, dtype=object) for a in arrs])
    out = np.empty(bc[0].shape, dtype=object)
    it = zip(*[b.reshape(-1) for b in bc])
    o = out.reshape(-1)
    for i, xs in enumerate(it):
        o[i] = f(*xs)
    return o.reshape(out.shape)


def operand(x):
    if isinstance(x, torch.Tensor):
        return terms(x)
    a = np.empty((), dtype=object)
    a[()] = x.b if isinstance(x, SymBool) else lift(x)
    return a


def finish(out, meta):
    if tuple(out.shape) != tuple(meta.shape):
        raise Unsupported(f"shape rule mismatch {out.shape} vs {tuple(meta.shape)}")
    if Session.backward and out.size <= 16:
        # possibly the cotangent of a scale factor, which does not influence the result
        for i in np.ndindex(*out.shape):
            x = out[i]
            if isinstance(x, CV):
                out[i] = T.cplx(Session.zero(x.re), Session.zero(x.im))
            elif isinstance(x, V):
                out[i] = Session.zero(x)
    return mk(out, meta.dtype)


# ---------------------------------------------------------------- like-factories
def _like_handler(func, name, args, kwargs):
    r = factory(func, name, args, kwargs)
    if r is NotImplemented:
        # integer/bool output: run natively on a plain meta-free stand-in
        m = meta_call(func, args, kwargs)
        with nomode():
            if "zeros" in name:
                return torch.zeros(m.shape, dtype=m.dtype)
            if "ones" in name:
                return torch.ones(m.shape, dtype=m.dtype)
            if "full" in name:
                v = args[2] if name == "new_full" else args[1]
                if isinstance(v, SymNum):
                    raise Unsupported("full with a symbolic value")
                return torch.full(m.shape, v, dtype=m.dtype)
            if "empty" in name:
                return torch.zeros(m.shape, dtype=m.dtype)
        raise Unsupported(name)
    return r


for _n in list(FACTORY):
    HANDLERS[_n] = _like_handler


# ------------------------------------------------------------------- elementwise
def _sgn(x):
    if isinstance(x, V) and T.is_const(x):
        c = T.const_val(x)
        return T.const((c > 0) - (c < 0))
    if Session.sgn_nonzero:
        return T.cdiv(x, T.cabs(x))
    return T.ite(T.ceq(x, ZERO), ZERO, T.cdiv(x, T.cabs(x)))


def _isfinite(x):
    if isinstance(x, CV):
        return T.band(_isfinite(x.re), _isfinite(x.im))
    for m, _ in x.items:
        for b, _e in m.items:
            if b.kind == "nonfinite":
                return FALSE
    return TRUE


def _sigmoid(x):
    return T.vuf("sigmoid", (x,), nn=True)


def _clog(x):
    if isinstance(x, CV):
        raise Unsupported("log of a complex number")
    return T.vlog(_opaque(x))


def _csqrt(x):
    if isinstance(x, CV):
        raise Unsupported("sqrt of a complex number")
    return T.vpow(x, Fr(1, 2))


UNARY = {
    "neg": lambda x: -x,
    "abs": T.cabs,
    "absolute": T.cabs,
    "log": _clog,
    "exp": T.cexp,
    "sqrt": _csqrt,
    "rsqrt": lambda x: T.vpow(x, Fr(-1, 2)),
    "reciprocal": lambda x: T.cdiv(ONE, x),
    "sin": lambda x: T.vsin(x),
    "cos": lambda x: T.vcos(x),
    "tanh": lambda x: T.vuf("tanh", (x,)),
    "sigmoid": _sigmoid,
    "square": lambda x: T.cmul(x, x),
    "conj": lambda x: x.conjugate(),
    "_conj": lambda x: x.conjugate(),
    "_conj_physical": lambda x: x.conjugate(),
    "conj_physical": lambda x: x.conjugate(),
    "_neg_view": lambda x: -x,
    "real": lambda x: x.real,
    "imag": lambda x: x.imag,
    "sgn": _sgn,
    "sign": _sgn,
    "isfinite": _isfinite,
    "isnan": lambda x: T.bnot(_isfinite(x)),
    "isinf": lambda x: T.bnot(_isfinite(x)),
    "logical_not": lambda x: T.bnot(_tob(x)),
    "bitwise_not": lambda x: T.bnot(_tob(x)),
    "floor": T.vfloor,
    "ceil": lambda x: -T.vfloor(-x),
    "relu": lambda x: T.vmax(x, ZERO),
    "log2": lambda x: T.cdiv(T.vlog(x), T.vlog(T.const(2))),
    "log10": lambda x: T.cdiv(T.vlog(x), T.vlog(T.const(10))),
    "log1p": lambda x: T.vlog(x + ONE),
    "expm1": lambda x: T.vexp(x) - ONE,
    "exp2": lambda x: T.vexp(x * T.vlog(T.const(2))),
    "positive": lambda x: x,
    "nan_to_num": lambda x: x,
}


def _tob(x):
    return x if isinstance(x, Bo) else T.bnot(T.ceq(x, ZERO))


def _pow(a, b):
    if isinstance(a, CV):
        if isinstance(b, V) and T.is_const(b) and Fr(T.const_val(b)).denominator == 1:
            n = int(T.const_val(b))
            r = ONE
            for _ in range(abs(n)):
                r = T.cmul(r, a)
            return r if n >= 0 else T.cdiv(ONE, r)
        raise Unsupported("complex power")
    if isinstance(b, CV):
        raise Unsupported("complex power")
    if T.is_const(b):
        return T.vpow(a, b)
    return T.vexp(b * T.vlog(a))


BINARY = {
    "mul": T.cmul,
    "multiply": T.cmul,
    "pow": _pow,
    "eq": T.ceq,
    "ne": lambda a, b: T.bnot(T.ceq(a, b)),
    "lt": lambda a, b: T.vgt(b, a),
    "le": lambda a, b: T.vge(b, a),
    "gt": T.vgt,
    "ge": T.vge,
    "maximum": T.vmax,
    "minimum": T.vmin,
    "fmax": T.vmax,
    "fmin": T.vmin,
    "logical_and": lambda a, b: T.band(_tob(a), _tob(b)),
    "logical_or": lambda a, b: T.bor(_tob(a), _tob(b)),
    "logical_xor": lambda a, b: T.bor(
        T.band(_tob(a), T.bnot(_tob(b))), T.band(T.bnot(_tob(a)), _tob(b))
    ),
    "bitwise_and": lambda a, b: T.band(_tob(a), _tob(b)),
    "bitwise_or": lambda a, b: T.bor(_tob(a), _tob(b)),
    "__and__": lambda a, b: T.band(_tob(a), _tob(b)),
    "__or__": lambda a, b: T.bor(_tob(a), _tob(b)),
    "floor_divide": lambda a, b: T.vfloor(T.cdiv(a, b)),
    "remainder": lambda a, b: a - b * T.vfloor(T.cdiv(a, b)),
    "complex": lambda a, b: T.cplx(a, b),
}


def _zero_test(n, f):
    """Differentiation: a scale factor compared with zero is taken as non-zero (an
    obligation records it), and from then on as an arbitrary positive number"""

    def g(x, y):
        r = f(x, y)
        if Session.sgn_nonzero and isinstance(r, Bo) and not r.kind in ("true", "false"):
            for u, v, op in ((x, y, n), (y, x, {"gt": "lt", "lt": "gt", "ge": "le", "le": "ge"}.get(n, n))):
                if v is ZERO and isinstance(u, V) and T.nonneg(u):
                    T._oblige("div", T.bnot(T.ceq(u, ZERO)))
                    Session.tested.add(u.id)
                    return TRUE if op in ("ne", "gt", "ge") else FALSE
        return r

    return g


for _n in ("eq", "ne", "lt", "le", "gt", "ge"):
    BINARY[_n] = _zero_test(_n, BINARY[_n])


def _opaque(x):
    return T.opaque(x) if isinstance(x, V) and x.id in Session.tested else x


def _num(x):
    return lift(x) if isinstance(x, Bo) else x


def _mk_unary(n, f):
    boolin = n in ("logical_not", "bitwise_not")

    def h(func, name, args, kwargs):
        m = meta_call(func, args, kwargs)
        a = terms(args[0])
        if n == "nan_to_num" and len(args) == 1 and not kwargs:
            pass
        return finish(ew(f if boolin else (lambda x: f(_num(x))), a), m)

    HANDLERS[n] = h


def _mk_binary(n, f):
    boolin = n.startswith("logical") or n.startswith("bitwise") or n.startswith("__")

    def h(func, name, args, kwargs):
        m = meta_call(func, args, kwargs)
        if n.startswith("bitwise") and m.dtype != torch.bool:
            raise Unsupported(n)
        a, b = operand(args[0]), operand(args[1])
        g = f if boolin else (lambda x, y: f(_num(x), _num(y)))
        return finish(ew(g, a, b), m)

    HANDLERS[n] = h


for _n, _f in UNARY.items():
    _mk_unary(_n, _f)
for _n, _f in BINARY.items():
    _mk_binary(_n, _f)


@handles("add", "sub", "rsub", "subtract")
def _add(func, name, args, kwargs):
    m = meta_call(func, args, kwargs)
    a, b = operand(args[0]), operand(args[1])
    al = kwargs.get("alpha", args[2] if len(args) > 2 else 1)
    if name == "rsub":
        a, b, = b, a
        r = ew(lambda x, y: T.csub(x, T.cmul(lift(al), y)), ew(_num, a), ew(_num, b))
        if al != 1:
            raise Unsupported("rsub alpha")
        return finish(r, m)
    sg = 1 if name == "add" else -1
    k = T.cmul(lift(al), T.const(sg))
    a, b = ew(_num, a), ew(_num, b)
    return finish(ew(lambda x, y: T.cadd(x, T.cmul(k, y)), a, b), m)


@handles("div", "divide", "true_divide")
def _div(func, name, args, kwargs):
    m = meta_call(func, args, kwargs)
    mode = kwargs.get("rounding_mode")
    a, b = ew(_num, operand(args[0])), ew(_num, operand(args[1]))
    if Session.tested:
        b = ew(_opaque, b)
    r = ew(T.cdiv, a, b)
    if mode == "floor":
        r = ew(T.vfloor, r)
    elif mode == "trunc":
        r = ew(_trunc, r)
    return finish(r, m)


@handles("where")
def _where(func, name, args, kwargs):
    if len(args) == 1:
        raise Unsupported("where(cond)")
    m = meta_call(func, args, kwargs)
    c, a, b = [operand(x) for x in args]
    return finish(ew(lambda c, x, y: T.ite(_tob(c), x, y), c, a, b), m)


@handles("masked_fill")
def _mfill(func, name, args, kwargs):
    m = meta_call(func, args, kwargs)
    a, c, v = [operand(x) for x in args]
    r = ew(lambda x, c, y: T.ite(_tob(c), y, x), a, c, v)
    return finish(r, m)


@handles("clamp", "clamp_min", "clamp_max", "clip")
def _clamp(func, name, args, kwargs):
    m = meta_call(func, args, kwargs)
    a = terms(args[0])
    if name == "clamp_max":
        lo, hi = None, args[1]
    elif name == "clamp_min":
        lo, hi = args[1], None
    else:
        lo = args[1] if len(args) > 1 else kwargs.get("min")
        hi = args[2] if len(args) > 2 else kwargs.get("max")
    if lo is not None:
        a = ew(T.vmax, a, operand(lo))
    if hi is not None:
        a = ew(T.vmin, a, operand(hi))
    return finish(a, m)


@handles("_to_copy", "to")
def _to_copy(func, name, args, kwargs):
    dt = kwargs.get("dtype") or args[0].dtype
    t = args[0]
    if dt == t.dtype:
        with nomode():
            return SymTensor(t.ids.clone(), dt)
    r = cast(t, dt)
    return r


@handles("view_as_real")
def _var(func, name, args, kwargs):
    a = terms(args[0])
    m = meta_call(func, args, kwargs)
    out = np.stack([ew(lambda x: x.real, a), ew(lambda x: x.imag, a)], axis=-1)
    return finish(out.astype(object), m)


@handles("view_as_complex")
def _vac(func, name, args, kwargs):
    a = terms(args[0])
    m = meta_call(func, args, kwargs)
    return finish(ew(T.cplx, a[..., 0], a[..., 1]), m)


@handles("copy_")
def _copy_(func, name, args, kwargs):
    dst, src = args[0], args[1]
    if not isinstance(dst, SymTensor):
        if is_floaty(dst.dtype):
            raise Unsupported("symbolic value written into a concrete float tensor")
        src = cast(src, dst.dtype)
        vals = []
        for x in terms(src).reshape(-1):
            if not (isinstance(x, V) and T.is_const(x)) and x not in (TRUE, FALSE):
                raise Unsupported("symbolic value written into an integer tensor")
            vals.append(bool(x is TRUE) if isinstance(x, Bo) else int(T.const_val(x)))
        with nomode():
            dst.copy_(torch.tensor(vals, dtype=dst.dtype).reshape(src.shape))
        return dst
    s = to_sym(src)
    meta_call(func, (dst, s), {})
    s = cast(s, dst.dtype)
    with nomode():
        dst.ids.copy_(s.ids)
    return dst


@handles("copy")
def _copy(func, name, args, kwargs):
    m = meta_call(func, args, kwargs)
    s = cast(args[1], m.dtype)
    with nomode():
        return SymTensor(s.ids.expand(m.shape).clone(), m.dtype)


@handles("fill_")
def _fill_(func, name, args, kwargs):
    v = operand(args[1]).reshape(-1)[0]
    with nomode():
        args[0].ids.fill_(term_id(v))
    return args[0]


@handles("zero_")
def _zero_(func, name, args, kwargs):
    with nomode():
        args[0].ids.zero_()
    return args[0]


@handles("fill_diagonal_")
def _filldiag(func, name, args, kwargs):
    with nomode():
        args[0].ids.fill_diagonal_(term_id(lift(args[1])))
    return args[0]


@handles("normal_", "uniform_")
def _normal_(func, name, args, kwargs):
    t = args[0]
    lo = args[1] if len(args) > 1 else kwargs.get("mean", kwargs.get("from", 0.0))
    hi = args[2] if len(args) > 2 else kwargs.get("std", kwargs.get("to", 1.0))
    z = fresh("normal" if name == "normal_" else "unif", t.shape, t.dtype)
    a, b = lift(lo), lift(hi)
    if name == "normal_":
        r = ew(lambda x: a + b * x, terms(z))
    else:
        r = ew(lambda x: a + (b - a) * x, terms(z))
    return copy_into(t, mk(r, t.dtype))


@handles("scatter", "scatter_")
def _scatter(func, name, args, kwargs):
    t, dim, idx, src = args[:4]
    if kwargs.get("reduce"):
        raise Unsupported("scatter reduce")
    if isinstance(idx, SymTensor):
        return _scatter_sym(t, dim, idx, src, name)
    base = t.ids
    with nomode():
        if not isinstance(src, torch.Tensor):
            r = base.scatter(dim, idx, term_id(lift(src)))
        else:
            r = base.scatter(dim, idx, cast(src, t.dtype).ids)
        if name == "scatter_":
            base.copy_(r)
            return t
    return SymTensor(r, t.dtype)


def _scatter_sym(t, dim, idx, src, name):
    meta_call(getattr(aten.scatter, "src" if isinstance(src, torch.Tensor) else "value"), (t, dim, idx, src), {})
    a = terms(t).copy()
    ix = terms(idx)
    s = operand(src)
    s = np.broadcast_to(s, ix.shape)
    dim = dim % a.ndim
    for pos in np.ndindex(ix.shape):
        i = ix[pos]
        need_index(i, a.shape[dim])
        for k in range(a.shape[dim]):
            p = pos[:dim] + (k,) + pos[dim + 1 :]
            a[p] = T.ite(T.ceq(i, T.const(k)), s[pos], a[p])
    r = mk(a, t.dtype)
    return copy_into(t, r) if name == "scatter_" else r


def need_index(i, n, allow_neg=False):
    """An index must lie in range; torch raises otherwise"""
    ok = T.band(T.vge(i, T.const(-n if allow_neg else 0)), T.vgt(T.const(n), i))
    if not bool(SymBool(ok)):
        raise IndexError(f"index {i} out of range for dimension of size {n}")


@handles("index", "gather", "index_select")
def _index_sym(func, name, args, kwargs):
    """Indexing by symbolic integers: an if-then-else over the (bounded) range"""
    if name == "gather":
        t, dim, idx = args[:3]
        m = meta_call(func, args, kwargs)
        a, ix = terms(t), terms(idx)
        out = np.empty(ix.shape, dtype=object)
        dim = dim % a.ndim
        for pos in np.ndindex(ix.shape):
            i = ix[pos]
            need_index(i, a.shape[dim])
            out[pos] = _pick(i, [a[pos[:dim] + (k,) + pos[dim + 1 :]] for k in range(a.shape[dim])])
        return finish(out, m)
    if name == "index_select":
        t, dim, idx = args[:3]
        a = np.moveaxis(terms(t), dim, 0)
        ix = terms(idx)
        rows = []
        for i in ix:
            need_index(i, a.shape[0])
            rows.append(ew(lambda *xs: _pick(i, xs), *[a[k] for k in range(a.shape[0])]))
        out = np.moveaxis(np.stack(rows), 0, dim)
        return mk(out, t.dtype)
    t, idxs = args[0], list(args[1])
    for x in idxs:
        if isinstance(x, torch.Tensor) and x.dtype in (torch.bool, torch.uint8):
            raise Unsupported("symbolic mask indexing")
        if isinstance(x, SymTensor) and is_floaty(x.dtype):
            raise IndexError("tensors used as indices must be long, int, byte or bool tensors")
    m = meta_call(func, (t, [x for x in idxs]), kwargs)
    # split one symbolic index into concrete cases, entry by entry
    a = terms(t)
    ia = [None if x is None else terms(x) for x in idxs]
    ia += [None] * (a.ndim - len(ia))
    pos = [k for k, x in enumerate(ia) if x is not None]
    if pos != list(range(pos[0], pos[-1] + 1)):
        raise Unsupported("non-adjacent symbolic indices")
    bshape = np.broadcast_shapes(*[ia[k].shape for k in pos])
    bi = [np.broadcast_to(ia[k], bshape) for k in pos]
    lead, trail = a.shape[: pos[0]], a.shape[pos[-1] + 1 :]
    out = np.empty(lead + bshape + trail, dtype=object)
    a2 = a.reshape(lead + tuple(a.shape[k] for k in pos) + trail)
    for bp in np.ndindex(bshape):
        key = [bi[j][bp] for j in range(len(pos))]
        for j, i in enumerate(key):
            need_index(i, a.shape[pos[j]], allow_neg=True)
        for lp in np.ndindex(lead):
            sub = a2[lp]
            for tp in np.ndindex(trail):
                cur = sub
                # resolve indices innermost last
                def res(arr, ks):
                    if not ks:
                        return arr[tp] if tp else (arr if not isinstance(arr, np.ndarray) else arr[()])
                    i = ks[0]
                    if T.is_const(i):
                        return res(arr[int(T.const_val(i))], ks[1:])
                    return _pick(i, [res(arr[k], ks[1:]) for k in range(arr.shape[0])])

                out[lp + bp + tp] = res(cur, key)
    return finish(out, m)


def _pick(i, xs):
    if T.is_const(i):
        return xs[int(T.const_val(i))]
    n = len(xs)
    r = xs[-1]
    for k in range(n - 2, -1, -1):
        c = T.bor(T.ceq(i, T.const(k)), T.ceq(i, T.const(k - n)))
        r = T.ite(c, xs[k], r)
    return r


@handles("index_put", "index_put_", "_index_put_impl_", "_unsafe_index_put")
def _index_put(func, name, args, kwargs):
    t, idx, val = args[0], list(args[1]), args[2]
    acc = args[3] if len(args) > 3 else kwargs.get("accumulate", False)
    if any(isinstance(x, SymTensor) for x in idx):
        # one symbolic index along dim 0 (or several, all 1-per-dim): case split
        return _index_put_sym(t, idx, val, acc, name)
    t = to_sym(t) if not name.endswith("_") else t
    if not isinstance(t, SymTensor):
        raise Unsupported("index_put into a concrete tensor")
    v = val if isinstance(val, torch.Tensor) else mk(operand(val), t.dtype)
    v = cast(v, t.dtype)
    with nomode():
        if not acc:
            r = t.ids.index_put(idx, v.ids)
        else:
            lin = torch.arange(t.ids.numel()).reshape(t.ids.shape)
            sel = lin[tuple(slice(None) if i is None else i for i in idx)]
            sel_l = sel.reshape(-1).tolist()
            shape = sel.shape
    if acc:
        vv = np.broadcast_to(terms(v), tuple(shape)).reshape(-1)
        a = terms(t).copy()
        flat = a.reshape(-1)
        for j, x in zip(sel_l, vv):
            flat[j] = T.cadd(flat[j], x)
        r2 = mk(flat.reshape(a.shape), t.dtype)
        r = r2.ids
    if name.endswith("_"):
        with nomode():
            t.ids.copy_(r)
        return t
    return SymTensor(r, t.dtype)


def _index_put_sym(t, idx, val, acc, name):
    a = terms(t).copy()
    while len(idx) < a.ndim:
        idx.append(None)
    k = len([x for x in idx if x is not None])
    if any(x is None for x in idx[:k]):
        raise Unsupported("index_put with symbolic interior index")
    ia = [terms(x) for x in idx[:k]]
    bshape = np.broadcast_shapes(*[x.shape for x in ia])
    ia = [np.broadcast_to(x, bshape) for x in ia]
    v = np.broadcast_to(operand(val), bshape + a.shape[k:])
    for bp in np.ndindex(bshape):
        key = [x[bp] for x in ia]
        for j, i in enumerate(key):
            need_index(i, a.shape[j], allow_neg=True)
        for p in np.ndindex(a.shape[:k]):
            c = T.band(
                *[
                    T.bor(T.ceq(key[j], T.const(p[j])), T.ceq(key[j], T.const(p[j] - a.shape[j])))
                    for j in range(k)
                ]
            )
            for tp in np.ndindex(a.shape[k:]):
                new = T.cadd(a[p + tp], v[bp + tp]) if acc else v[bp + tp]
                a[p + tp] = T.ite(c, new, a[p + tp])
    r = mk(a, t.dtype)
    return copy_into(t, r) if name.endswith("_") else r


# -------------------------------------------------------------------- reductions
def _dims(t, dim):
    nd = t.ndim
    if dim is None or (isinstance(dim, (list, tuple)) and len(dim) == 0):
        return tuple(range(nd))
    if isinstance(dim, int):
        dim = (dim,)
    return tuple(d % nd if nd else 0 for d in dim) if nd else ()


def reduce(a, dims, keepdim, f, init=None):
    keep = [d for d in range(a.ndim) if d not in dims]
    b = a.transpose(keep + list(dims)).reshape([a.shape[d] for d in keep] + [math.prod(a.shape[d] for d in dims)])
    out = np.empty(b.shape[:-1], dtype=object)
    for p in np.ndindex(out.shape):
        out[p] = f(list(b[p]))
    if keepdim:
        out = out.reshape([1 if d in dims else a.shape[d] for d in range(a.ndim)])
    return out


def _prod(xs):
    r = ONE
    for x in xs:
        r = T.cmul(r, x)
    return r


def _vmaxl(xs):
    r = xs[0]
    for x in xs[1:]:
        r = T.vmax(r, x)
    return r


def _vminl(xs):
    r = xs[0]
    for x in xs[1:]:
        r = T.vmin(r, x)
    return r


def _lse(xs):
    return T.vlog(T.vadd(*[T.vexp(x) for x in xs]))


RED = {
    "sum": T.csum,
    "mean": lambda xs: T.cdiv(T.csum(xs), T.const(len(xs))),
    "prod": _prod,
    "all": lambda xs: T.band(*[_tob(x) for x in xs]),
    "any": lambda xs: T.bor(*[_tob(x) for x in xs]),
    "amax": _vmaxl,
    "amin": _vminl,
    "logsumexp": _lse,
    "count_nonzero": lambda xs: T.csum([lift(_tob(x)) for x in xs]),
}


def _mk_red(n, f):
    boolean = n in ("all", "any", "count_nonzero")

    def h(func, name, args, kwargs):
        m = meta_call(func, args, kwargs)
        t = args[0]
        ov = func._overloadname
        dim, keep = None, False
        if len(args) > 1:
            dim = args[1]
        dim = kwargs.get("dim", dim)
        keep = kwargs.get("keepdim", args[2] if len(args) > 2 else False)
        a = terms(t)
        if not boolean:
            a = ew(_num, a)
        return finish(reduce(a, _dims(t, dim), keep, f), m)

    HANDLERS[n] = h


for _n, _f in RED.items():
    _mk_red(_n, _f)


@handles("max", "min")
def _maxmin(func, name, args, kwargs):
    m = meta_call(func, args, kwargs)
    t = args[0]
    a = terms(t)
    if len(args) > 1 and isinstance(args[1], torch.Tensor):
        return finish(ew(T.vmax if name == "max" else T.vmin, a, terms(args[1])), m)
    if len(args) == 1 and not kwargs:
        f = _vmaxl if name == "max" else _vminl
        return finish(reduce(a, tuple(range(a.ndim)), False, f), m)
    dim = kwargs.get("dim", args[1] if len(args) > 1 else None)
    keep = kwargs.get("keepdim", args[2] if len(args) > 2 else False)
    sign = 1 if name == "max" else -1
    ix = reduce(a, _dims(t, dim), keep, lambda xs: T.const(_argbest(xs, sign)))
    f = _vmaxl if name == "max" else _vminl
    vals = reduce(a, _dims(t, dim), keep, lambda xs: xs[_argbest(xs, sign)])
    with nomode():
        it = torch.tensor(
            [int(T.const_val(x)) for x in ix.reshape(-1)], dtype=torch.int64
        ).reshape(tuple(ix.shape))
    return type(m)((finish(vals, m[0]), it)) if not isinstance(m, tuple) else (finish(vals, m[0]), it)


@handles("argmax", "argmin")
def _argmax(func, name, args, kwargs):
    t = args[0]
    dim = kwargs.get("dim", args[1] if len(args) > 1 else None)
    keep = kwargs.get("keepdim", args[2] if len(args) > 2 else False)
    sign = 1 if name == "argmax" else -1
    a = terms(t)
    ix = reduce(a, _dims(t, dim), keep, lambda xs: T.const(_argbest(xs, sign)))
    with nomode():
        return torch.tensor(
            [int(T.const_val(x)) for x in ix.reshape(-1)], dtype=torch.int64
        ).reshape(tuple(ix.shape))


def _argbest(xs, sign):
    best = 0
    for i in range(1, len(xs)):
        c = T.vgt(xs[i], xs[best]) if sign > 0 else T.vgt(xs[best], xs[i])
        if bool(SymBool(c)):
            best = i
    return best


@handles("sort", "topk", "argsort")
def _sort(func, name, args, kwargs):
    t = args[0]
    kw = dict(kwargs)
    pos = list(args[1:])
    if func._overloadname == "stable":
        stable = kw.pop("stable", None)
    if name != "sort":
        raise Unsupported(name)
    dim = kw.get("dim", pos[0] if pos and not isinstance(pos[0], bool) else -1)
    desc = kw.get("descending", pos[1] if len(pos) > 1 else False)
    a = np.moveaxis(terms(t), dim, -1) if t.ndim else terms(t)
    out = np.empty(a.shape, dtype=object)
    idx = np.empty(a.shape, dtype=np.int64)
    for p in np.ndindex(a.shape[:-1]):
        order = []
        for i, x in enumerate(a[p]):
            j = len(order)
            while j > 0:
                y = a[p][order[j - 1]]
                c = T.vgt(x, y) if desc else T.vgt(y, x)
                if not bool(SymBool(c)):
                    break
                j -= 1
            order.insert(j, i)
        for j, i in enumerate(order):
            out[p + (j,)] = a[p][i]
            idx[p + (j,)] = i
    out, idx = np.moveaxis(out, -1, dim), np.moveaxis(idx, -1, dim)
    with nomode():
        it = torch.from_numpy(np.ascontiguousarray(idx))
    return mk(out, t.dtype), it


@handles("cumsum")
def _cumsum(func, name, args, kwargs):
    m = meta_call(func, args, kwargs)
    a = np.moveaxis(ew(_num, terms(args[0])), args[1], -1)
    out = np.empty(a.shape, dtype=object)
    for p in np.ndindex(a.shape[:-1]):
        s = ZERO
        for i, x in enumerate(a[p]):
            s = T.cadd(s, x)
            out[p + (i,)] = s
    return finish(np.moveaxis(out, -1, args[1]), m)


@handles("trace")
def _trace(func, name, args, kwargs):
    m = meta_call(func, args, kwargs)
    a = terms(args[0])
    out = np.empty((), dtype=object)
    out[()] = T.csum([a[i, i] for i in range(min(a.shape))])
    return finish(out, m)


def _norm_of(xs, p):
    if p in (2, 2.0, None, "fro"):
        return T.vpow(T.vadd(*[T.cabs2(x) for x in xs]), Fr(1, 2)) if xs else ZERO
    if p in (1, 1.0):
        return T.vadd(*[T.cabs(x) for x in xs])
    if p == float("inf"):
        return _vmaxl([T.cabs(x) for x in xs])
    if p == 0:
        return T.csum([lift(_tob(x)) for x in xs])
    p = Fr(p)
    return T.vpow(T.vadd(*[T.vpow(T.cabs(x), p) for x in xs]), 1 / p)


@handles("norm", "linalg_vector_norm")
def _norm(func, name, args, kwargs):
    m = meta_call(func, args, kwargs)
    t = args[0]
    p = kwargs.get("p", kwargs.get("ord", args[1] if len(args) > 1 else 2))
    if isinstance(p, torch.dtype):
        p = 2
    dim = kwargs.get("dim", args[2] if len(args) > 2 and not isinstance(args[2], torch.dtype) else None)
    keep = kwargs.get("keepdim", args[3] if len(args) > 3 else False)
    return finish(reduce(terms(t), _dims(t, dim), keep, lambda xs: _norm_of(xs, p)), m)


# ------------------------------------------------------------------------ linalg
def dot(xs, ys):
    return T.csum([T.cmul(x, y) for x, y in zip(xs, ys)])


def matmul2(a, b):
    n, k = a.shape
    k2, m = b.shape
    out = np.empty((n, m), dtype=object)
    bt = [list(b[:, j]) for j in range(m)]
    for i in range(n):
        r = list(a[i])
        for j in range(m):
            out[i, j] = dot(r, bt[j]) if k else ZERO
    return out


@handles("mm")
def _mm(func, name, args, kwargs):
    m = meta_call(func, args, kwargs)
    return finish(matmul2(terms(args[0]), terms(args[1])), m)


@handles("bmm")
def _bmm(func, name, args, kwargs):
    m = meta_call(func, args, kwargs)
    a, b = terms(args[0]), terms(args[1])
    out = np.empty(tuple(m.shape), dtype=object)
    for i in range(a.shape[0]):
        out[i] = matmul2(a[i], b[i])
    return finish(out, m)


@handles("mv")
def _mv(func, name, args, kwargs):
    m = meta_call(func, args, kwargs)
    return finish(matmul2(terms(args[0]), terms(args[1])[:, None])[:, 0], m)


@handles("dot", "vdot")
def _dot(func, name, args, kwargs):
    m = meta_call(func, args, kwargs)
    a = terms(args[0])
    if name == "vdot":
        a = ew(lambda x: x.conjugate(), a)
    out = np.empty((), dtype=object)
    out[()] = dot(a, terms(args[1]))
    return finish(out, m)


@handles("ger", "outer")
def _ger(func, name, args, kwargs):
    m = meta_call(func, args, kwargs)
    a, b = terms(args[0]), terms(args[1])
    return finish(ew(T.cmul, a[:, None], b[None, :]), m)


@handles("addmm", "addbmm", "baddbmm", "addmv", "addr")
def _addmm(func, name, args, kwargs):
    m = meta_call(func, args, kwargs)
    beta, alpha = lift(kwargs.get("beta", 1)), lift(kwargs.get("alpha", 1))
    c, a, b = [terms(x) for x in args[:3]]
    if name == "addmm":
        p = matmul2(a, b)
    elif name == "addmv":
        p = matmul2(a, b[:, None])[:, 0]
    elif name == "baddbmm":
        p = np.stack([matmul2(x, y) for x, y in zip(a, b)])
    elif name == "addr":
        p = ew(T.cmul, a[:, None], b[None, :])
    else:
        raise Unsupported(name)
    return finish(ew(lambda x, y: beta * x + alpha * y, c, p), m)


@handles("addcmul")
def _addcmul(func, name, args, kwargs):
    m = meta_call(func, args, kwargs)
    v = lift(kwargs.get("value", 1))
    a, b, c = [terms(x) for x in args[:3]]
    return finish(ew(lambda x, y, z: x + v * y * z, a, b, c), m)


@handles("allclose")
def _allclose(func, name, args, kwargs):
    a, b = args[0], args[1]
    rtol = kwargs.get("rtol", args[2] if len(args) > 2 else 1e-5)
    atol = kwargs.get("atol", args[3] if len(args) > 3 else 1e-8)
    x, y = ew(_num, terms(a)), ew(_num, terms(b))
    if a.dtype != b.dtype:
        raise RuntimeError(f"Float did not match {b.dtype}")
    bx = np.broadcast_arrays(x, y)
    same = [T.ceq(p, q) for p, q in zip(bx[0].reshape(-1), bx[1].reshape(-1))]
    exact = T.band(*same)
    if exact is TRUE or Session.entails(exact, same):
        return True
    if Session.exact_close:
        # documented assumption: values within the tolerance are equal
        near = T.band(*[
            T.vge(T.const(atol) + T.const(rtol) * T.cabs(q), T.cabs(T.csub(p, q)))
            for p, q in zip(bx[0].reshape(-1), bx[1].reshape(-1))
        ])
        if Session.exact_close == "generic":
            Session.assume(T.bnot(near))
            return False
        Session.assume(T.bor(exact, T.bnot(near)))
        return bool(SymBool(exact))
    cs = ew(
        lambda p, q: T.vge(T.const(atol) + T.const(rtol) * T.cabs(q), T.cabs(T.csub(p, q))),
        x,
        y,
    )
    return bool(SymBool(T.band(*cs.reshape(-1)) if cs.size else TRUE))


@handles("isclose")
def _isclose(func, name, args, kwargs):
    m = meta_call(aten.eq.Tensor, args[:2], {})
    rtol = kwargs.get("rtol", args[2] if len(args) > 2 else 1e-5)
    atol = kwargs.get("atol", args[3] if len(args) > 3 else 1e-8)
    x, y = ew(_num, terms(args[0])), ew(_num, terms(args[1]))
    cs = ew(
        lambda p, q: T.vge(T.const(atol) + T.const(rtol) * T.cabs(q), T.cabs(T.csub(p, q))),
        x,
        y,
    )
    return finish(cs, m)


@handles("equal")
def _equal(func, name, args, kwargs):
    a, b = args
    if a.shape != b.shape:
        return False
    cs = [T.ceq(_num(x), _num(y)) for x, y in zip(terms(a).reshape(-1), terms(b).reshape(-1))]
    return bool(SymBool(T.band(*cs)))


@handles("_local_scalar_dense", "item")
def _lsd(func, name, args, kwargs):
    t = terms(args[0]).reshape(-1)[0]
    if isinstance(t, V) and T.is_const(t):
        c = T.const_val(t)
        return float(c) if args[0].dtype.is_floating_point else int(c)
    if t in (TRUE, FALSE):
        return t is TRUE
    raise Unsupported("scalar read of a symbolic tensor inside torch")


@handles("is_nonzero")
def _isnz(func, name, args, kwargs):
    return bool(args[0])


@handles("_linalg_svd", "linalg_svd")
def _svd(func, name, args, kwargs):
    A = args[0]
    full = args[1] if len(args) > 1 else kwargs.get("full_matrices", False)
    if A.ndim != 2:
        raise Unsupported("batched svd")
    U, S, Vh = Session.svd_hook(terms(A), full, A.dtype)
    return mk(U, A.dtype), mk(S, A.dtype if not A.dtype.is_complex else torch.float32), mk(Vh, A.dtype)


@handles("is_same_size")
def _iss(func, name, args, kwargs):
    return args[0].shape == args[1].shape


@handles("set_", "resize_")
def _refuse(func, name, args, kwargs):
    raise Unsupported(name)
