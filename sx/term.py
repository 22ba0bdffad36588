"""Exact symbolic scalars: hash-consed rational expressions over named reals.

A value `V` is a linear combination  sum_i c_i * m_i  of monomials with rational
coefficients; a monomial is a product of powers of *bases*; a base is a
variable, an opaque function application (abs, log, exp, ite, ...) or a nested
sum that is deliberately NOT expanded.  Nothing is ever multiplied out here:
deciding whether two such expressions are equal is left to the solver
(`sx.solve`).  The only rewriting done is local and valid over the reals:
x^a*x^b = x^(a+b), |x|^2 = x^2, exp(c*log x) = x^c for x > 0, and pulling common
factors out of sums.  Every division and logarithm leaves an obligation
(`OBL`) behind saying where it is defined.
"""
import math
from fractions import Fraction as Fr

_bases, _monos, _vs, _bos = {}, {}, {}, {}


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- obligations
class State:
    """Per-path state of the symbolic execution"""

    def __init__(self):
        self.obl = []  # list of (kind, Bo, note)
        self.obl_seen = set()
        self.pos = set()  # bases assumed positive (each has an obligation)
        self.nonzero = set()


ST = State()


def reset_state():
    global ST
    ST.__init__()


def _oblige(kind, cond):
    if cond is TRUE or (kind, cond.id) in ST.obl_seen:
        return
    ST.obl_seen.add((kind, cond.id))
    ST.obl.append((kind, cond))


# ---------------------------------------------------------------------- nodes
class Base:
    __slots__ = ("id", "kind", "args", "nn", "isint")

    def __repr__(self):
        if self.kind == "var":
            return self.args[0]
        return f"{self.kind}({', '.join(map(str, self.args))})"


class Mono:
    __slots__ = ("id", "items")

    def __repr__(self):
        return "*".join(f"{b}^{e}" if e != 1 else f"{b}" for b, e in self.items) or "1"


class V:
    __slots__ = ("id", "items", "_fac", "_nn")

    def __repr__(self):
        if not self.items:
            return "0"
        if len(self.items) > 6 or vsize(self) > 60:
            return f"<expr {self.id} size {vsize(self)}>"
        return "(" + " + ".join(f"{c}*{m}" for m, c in self.items) + ")"

    def __add__(self, o):
        return cadd(self, o)

    __radd__ = __add__

    def __mul__(self, o):
        return cmul(self, o)

    __rmul__ = __mul__

    def __sub__(self, o):
        return csub(self, o)

    def __rsub__(self, o):
        return csub(lift(o), self)

    def __neg__(self):
        return vscale(self, -1)

    def __truediv__(self, o):
        return cdiv(self, o)

    def __rtruediv__(self, o):
        return cdiv(lift(o), self)

    def __pow__(self, n):
        return vpow(self, n)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return ZERO


class CV:
    """Complex scalar with a possibly non-zero imaginary part"""

    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re, self.im = re, im

    def __repr__(self):
        return f"[{self.re} + i {self.im}]"

    def __add__(self, o):
        return cadd(self, o)

    __radd__ = __add__

    def __mul__(self, o):
        return cmul(self, o)

    __rmul__ = __mul__

    def __sub__(self, o):
        return csub(self, o)

    def __rsub__(self, o):
        return csub(lift(o), self)

    def __neg__(self):
        return cplx(-self.re, -self.im)

    def __truediv__(self, o):
        return cdiv(self, o)

    def __rtruediv__(self, o):
        return cdiv(lift(o), self)

    def conjugate(self):
        return cplx(self.re, -self.im)

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im


def _norm(c):
    if isinstance(c, Fr) and c.denominator == 1:
        return c.numerator
    return c


def mk_base(kind, args, nn=False, isint=False):
    key = (kind,) + tuple(a.id if hasattr(a, "id") else ("c", a) for a in args)
    if kind == "var":
        key += (nn, isint)
    b = _bases.get(key)
    if b is None:
        b = Base()
        b.id, b.kind, b.args, b.nn, b.isint = len(_bases), kind, tuple(args), nn, isint
        _bases[key] = b
    return b


def mk_mono(items):
    key = tuple((b.id, e) for b, e in items)
    m = _monos.get(key)
    if m is None:
        m = Mono()
        m.id, m.items = len(_monos), items
        _monos[key] = m
    return m


def mk_v(d):
    """d: dict mono -> coef"""
    items = [(m, _norm(c)) for m, c in d.items() if c != 0]
    items.sort(key=lambda t: t[0].id)
    key = tuple((m.id, c) for m, c in items)
    v = _vs.get(key)
    if v is None:
        v = V()
        v.id, v.items, v._fac, v._nn = len(_vs), tuple(items), None, None
        _vs[key] = v
    return v


MONE = mk_mono(())
ZERO = mk_v({})
ONE = mk_v({MONE: 1})


def const(c):
    if isinstance(c, float):
        if not math.isfinite(c):
            return of_base(mk_base("nonfinite", (repr(c),)))
        c = Fr(c)
    return mk_v({MONE: c})


def is_const(v):
    return isinstance(v, V) and (
        not v.items or (len(v.items) == 1 and v.items[0][0] is MONE)
    )


def const_val(v):
    return v.items[0][1] if v.items else 0


def of_base(b, e=1):
    if e == 1:
        return mk_v({mk_mono(((b, e),)): 1})
    k, m = mono_from({b: e})
    return mk_v({m: k})


def var(name, nonneg=False, isint=False):
    return of_base(mk_base("var", (name,), nonneg, isint))


_vsz = {}


def vsize(v):
    """size of the expression tree (saturating)"""
    r = _vsz.get(v.id)
    if r is None:
        r = 1
        for m, _ in v.items:
            for b, _e in m.items:
                r += 1
                for a in b.args:
                    if isinstance(a, V):
                        r += vsize(a)
                    elif isinstance(a, Base):
                        r += vsize(of_base(a))
            if r > 10**9:
                break
        _vsz[v.id] = r
    return r


def lift(x):
    if isinstance(x, (V, CV)):
        return x
    if isinstance(x, Bo):
        return ite(x, ONE, ZERO)
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fr)):
        return const(x)
    if isinstance(x, float):
        # math.sqrt(n) is read as the square root of n
        if 1 < x < 1000 and x != int(x):
            n = round(x * x)
            if math.sqrt(n) == x:
                return vpow(const(n), Fr(1, 2))
        return const(x)
    if isinstance(x, complex):
        return cplx(const(x.real), const(x.imag))
    if hasattr(x, "term"):
        return x.term
    raise Unsupported(f"cannot lift {type(x)}")


def cplx(re, im):
    return re if im is ZERO else CV(re, im)


# ----------------------------------------------------------------- arithmetic
def vadd(*vs):
    d = {}
    for v in vs:
        for m, c in v.items:
            d[m] = d.get(m, 0) + c
    return mk_v(d)


def vsum(vs):
    return vadd(*vs)


def vscale(v, k):
    if k == 1:
        return v
    return mk_v({m: c * k for m, c in v.items})


def base_nn(b):
    return b.nn or b in ST.pos


def mono_mul(*ms):
    """Product of monos -> (coef, mono)"""
    ms = [m for m in ms if m.items]
    if not ms:
        return 1, MONE
    if len(ms) == 1:
        return 1, ms[0]
    d = {}
    for m in ms:
        for b, e in m.items:
            d[b] = d.get(b, 0) + e
    return mono_from(d)


def mono_from(d):
    coef = 1
    out = {}
    todo = list(d.items())
    while todo:
        b, e = todo.pop()
        if isinstance(e, Fr) and e.denominator == 1:
            e = e.numerator
        if e == 0:
            continue
        if b.kind == "abs" and isinstance(e, int) and e % 2 == 0:
            b = b.args[0]
        if b.kind == "num":
            k = math.floor(e)
            if k:
                coef = coef * Fr(b.args[0]) ** k
                e = e - k
                if e == 0:
                    continue
        if b in out:
            e = out.pop(b) + e
            todo.append((b, e))
            continue
        out[b] = e
    items = tuple(sorted(out.items(), key=lambda t: t[0].id))
    return _norm(coef), mk_mono(items)


def factor(v):
    """v = coef * mono * (1 or a sum-base); returns (coef, mono)"""
    if v._fac is not None:
        return v._fac
    if len(v.items) == 0:
        r = (0, MONE)
    elif len(v.items) == 1:
        m, c = v.items[0]
        r = (c, m)
    else:
        # common powers
        first = dict(v.items[0][0].items)
        common = dict(first)
        allb = {}
        for m, _ in v.items:
            dm = dict(m.items)
            for b, e in dm.items():
                allb.setdefault(b, []).append(e)
        n = len(v.items)
        common = {}
        for b, es in allb.items():
            lo = min(es) if len(es) == n else min(min(es), 0)
            if lo != 0:
                common[b] = lo
        # content
        num, den = 0, 1
        for _, c in v.items:
            c = Fr(c)
            num = math.gcd(num, c.numerator)
            den = den * c.denominator // math.gcd(den, c.denominator)
        cont = _norm(Fr(num, den))
        cc, cm = mono_from(common)
        assert cc == 1 or True
        if common or cont != 1:
            d = {}
            for m, c in v.items:
                dm = dict(m.items)
                for b, e in common.items():
                    dm[b] = dm.get(b, 0) - e
                k, mm = mono_from(dm)
                d[mm] = d.get(mm, 0) + Fr(c) * k / Fr(cont)
            rest = mk_v(d)
        else:
            rest = v
        cont = cont * cc
        if len(rest.items) == 0:
            r = (0, MONE)
        elif len(rest.items) == 1:
            m, c = rest.items[0]
            k, mm = mono_mul(cm, m)
            r = (_norm(Fr(cont) * c * k), mm)
        else:
            sb = mk_base("sum", (rest,), nn=_sum_nn(rest))
            k, mm = mono_mul(cm, mk_mono(((sb, 1),)))
            r = (_norm(Fr(cont) * k), mm)
    v._fac = r
    return r


def _mono_nn(m):
    return all(
        base_nn(b) or (isinstance(e, int) and e % 2 == 0) for b, e in m.items
    )


def _sum_nn(v):
    return all(c >= 0 and _mono_nn(m) for m, c in v.items)


def nonneg(v):
    return _sum_nn(v)


def vmul(a, b):
    if not a.items or not b.items:
        return ZERO
    if is_const(a):
        return vscale(b, const_val(a))
    if is_const(b):
        return vscale(a, const_val(b))
    ca, ma = factor(a)
    cb, mb = factor(b)
    k, m = mono_mul(ma, mb)
    return mk_v({m: Fr(ca) * cb * k})


def vprod(vs):
    r = ONE
    for v in vs:
        r = vmul(r, v)
    return r


def vpow(v, e):
    """v ** e for rational e"""
    if isinstance(e, V):
        if not is_const(e):
            return vexp(vmul(e, vlog(v)))
        e = const_val(e)
    if isinstance(e, float):
        e = Fr(e)
    e = _norm(Fr(e))
    if e == 0:
        return ONE
    if e == 1:
        return v
    if is_const(v) and isinstance(e, int):
        c = const_val(v)
        if c == 0 and e < 0:
            _oblige("div", FALSE)
            return of_base(mk_base("nonfinite", ("1/0",)))
        return const(Fr(c) ** e)
    c, m = factor(v)
    if c == 0:
        if e > 0:
            return ZERO
        _oblige("div", FALSE)
        return of_base(mk_base("nonfinite", ("1/0",)))
    if isinstance(e, int):
        if e < 0:
            for b, x in m.items:
                if x > 0:
                    _oblige("div", bnot(eq0(of_base(b))))
        k, mm = mono_from({b: x * e for b, x in m.items})
        return mk_v({mm: Fr(c) ** e * k})
    # fractional power: needs a non-negative argument
    d = {}
    rest = {}
    sign = 1
    for b, x in m.items:
        if base_nn(b):
            d[b] = d.get(b, 0) + x * e
        elif isinstance(x, int) and x % 2 == 0:
            ab = factor(vabs(of_base(b)))[1].items
            assert factor(vabs(of_base(b)))[0] == 1
            for bb, xx in ab:
                d[bb] = d.get(bb, 0) + xx * x * e
        else:
            rest[b] = x
    if rest or c < 0:
        rv = mk_v({mono_from(rest)[1]: (-1 if c < 0 else 1)})
        _oblige("root", ge0(rv))
        if len(rest) == 1 and c > 0 and list(rest.values()) == [1]:
            rb = list(rest)[0]
        else:
            rb = mk_base("nnwrap", (rv,), nn=True)
        ST.pos.add(rb)
        d[rb] = d.get(rb, 0) + e
    if e < 0:
        for b in d:
            _oblige("div", bnot(eq0(of_base(b))))
    c = abs(Fr(c))
    k, mm = mono_from(d)
    out = mk_v({mm: k})
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        if n != 1:
            r = _iroot(n, e * s)
            if r is not None:
                out = vscale(out, r)
            else:
                k, m2 = mono_from({mk_base("num", (n,), nn=True): e * s})
                kk, m3 = mono_mul(factor(out)[1], m2)
                out = mk_v({m3: factor(out)[0] * Fr(k) * kk})
    return out


def _iroot(n, e):
    """exact n**e if rational, for integer n>0"""
    q = Fr(e).denominator
    r = round(n ** (1.0 / q))
    for k in (r - 1, r, r + 1):
        if k > 0 and k**q == n:
            return Fr(k) ** Fr(e).numerator
    return None


def vdiv(a, b):
    return vmul(a, vpow(b, -1))


def vabs(v):
    if is_const(v):
        return const(abs(const_val(v)))
    if nonneg(v):
        return v
    c, m = factor(v)
    d = {}
    rest = {}
    for b, e in m.items:
        if base_nn(b) or (isinstance(e, int) and e % 2 == 0):
            d[b] = e
        else:
            rest[b] = e
    for b, e in rest.items():
        if b.kind == "sum":
            s = b.args[0]
            if s.items[0][1] < 0:
                nb = mk_base("sum", (vscale(s, -1),), nn=_sum_nn(vscale(s, -1)))
                b = nb
        if base_nn(b):
            d[b] = d.get(b, 0) + e
        else:
            ab = mk_base("abs", (b,), nn=True)
            d[ab] = d.get(ab, 0) + e
    k, mm = mono_from(d)
    return mk_v({mm: abs(Fr(c)) * k})


def vlog(v):
    if is_const(v):
        c = const_val(v)
        if c == 1:
            return ZERO
        if c <= 0:
            _oblige("log", FALSE)
            return of_base(mk_base("nonfinite", ("log",)))
        return of_base(mk_base("log", (v,)))
    c, m = factor(v)
    if len(m.items) == 1 and m.items[0][0].kind == "exp" and c == 1:
        b, e = m.items[0]
        return vscale(b.args[0], e)
    out = []
    rest = {}
    for b, e in m.items:
        if base_nn(b):
            out.append(vscale(_log_base(b), e))
        elif isinstance(e, int) and e % 2 == 0:
            out.append(vscale(vlog(vabs(of_base(b))), e))
        else:
            rest[b] = e
    if rest or c < 0:
        if len(rest) == 1 and list(rest.values()) == [1] and c > 0:
            b = list(rest)[0]
            ST.pos.add(b)
            _oblige("log", ge0(of_base(b)))
            out.append(_log_base(b))
        elif rest:
            k, mm = mono_from(rest)
            rv = mk_v({mm: (-1 if c < 0 else 1)})
            _oblige("log", ge0(rv))
            nb = mk_base("nnwrap", (rv,), nn=True)
            out.append(_log_base(nb))
        else:
            _oblige("log", FALSE)
    c = abs(Fr(c))
    if c != 1:
        out.append(vlog(const(c)))
    return vadd(*out)


def _log_base(b):
    if b.kind == "exp":
        return b.args[0]
    _oblige("logz", bnot(eq0(of_base(b))))
    return of_base(mk_base("log", (of_base(b),)))


def vexp(v):
    d = []
    for m, c in v.items:
        if m is MONE:
            d.append(of_base(mk_base("exp", (ONE,), nn=True), c))
        elif len(m.items) == 1 and m.items[0][0].kind == "log" and m.items[0][1] == 1:
            arg = m.items[0][0].args[0]
            if is_const(arg):
                d.append(vpow(arg, c))
            else:
                k, mm = factor(arg)
                assert k == 1 and len(mm.items) == 1
                b, e = mm.items[0]
                if b.kind == "nnwrap" and isinstance(c, int):
                    d.append(vpow(b.args[0], c))
                else:
                    d.append(of_base(b, _norm(Fr(e) * c)))
        else:
            d.append(of_base(mk_base("exp", (mk_v({m: 1}),), nn=True), c))
    return vprod(d)


def vsin(v):
    if v is ZERO:
        return ZERO
    return of_base(mk_base("sin", (v,)))


def vcos(v):
    if v is ZERO:
        return ONE
    return of_base(mk_base("cos", (v,)))


def vuf(name, args, isint=False, nn=False):
    return of_base(mk_base("uf", (name,) + tuple(args), nn=nn, isint=isint))


def opaque(v):
    """v, known to be positive, without looking inside when deciding equalities"""
    if is_const(v):
        return v
    return of_base(mk_base("opq", (v,), nn=True))


def vfloor(v):
    if is_const(v):
        return const(math.floor(const_val(v)))
    return of_base(mk_base("floor", (v,), isint=True))


# --------------------------------------------------------------------- complex
def cadd(a, b):
    b = lift(b)
    if isinstance(a, V) and isinstance(b, V):
        return vadd(a, b)
    return cplx(vadd(a.real, b.real), vadd(a.imag, b.imag))


def csum(xs):
    xs = list(xs)
    if all(isinstance(x, V) for x in xs):
        return vadd(*xs)
    return cplx(vadd(*[x.real for x in xs]), vadd(*[x.imag for x in xs]))


def csub(a, b):
    b = lift(b)
    return cadd(a, -b)


def cmul(a, b):
    b = lift(b)
    if isinstance(a, V) and isinstance(b, V):
        return vmul(a, b)
    if isinstance(a, V):
        return cplx(vmul(a, b.re), vmul(a, b.im))
    if isinstance(b, V):
        return cplx(vmul(a.re, b), vmul(a.im, b))
    return cplx(
        vadd(vmul(a.re, b.re), vscale(vmul(a.im, b.im), -1)),
        vadd(vmul(a.re, b.im), vmul(a.im, b.re)),
    )


def cdiv(a, b):
    b = lift(b)
    if isinstance(b, V):
        i = vpow(b, -1)
        return cmul(a, i)
    n2 = vadd(vpow(b.re, 2), vpow(b.im, 2))
    return cmul(cmul(a, b.conjugate()), vpow(n2, -1))


def cabs(a):
    if isinstance(a, V):
        return vabs(a)
    return vpow(vadd(vmul(a.re, a.re), vmul(a.im, a.im)), Fr(1, 2))


def cabs2(a):
    if isinstance(a, V):
        return vmul(a, a)
    return vadd(vmul(a.re, a.re), vmul(a.im, a.im))


def cexp(a):
    if isinstance(a, V):
        return vexp(a)
    r = vexp(a.re)
    return cplx(vmul(r, vcos(a.im)), vmul(r, vsin(a.im)))


# -------------------------------------------------------------------- booleans
class Bo:
    __slots__ = ("id", "kind", "args")

    def __repr__(self):
        return f"{self.kind}({', '.join(map(str, self.args))})"


def mk_bo(kind, args):
    key = (kind,) + tuple(a.id if hasattr(a, "id") else ("c", a) for a in args)
    b = _bos.get(key)
    if b is None:
        b = Bo()
        b.id, b.kind, b.args = len(_bos), kind, tuple(args)
        _bos[key] = b
    return b


TRUE, FALSE = mk_bo("true", ()), mk_bo("false", ())


def bconst(x):
    return TRUE if x else FALSE


def bvar(name):
    return mk_bo("bvar", (name,))


def eq0(v):
    if is_const(v):
        return bconst(const_val(v) == 0)
    c, m = factor(v)
    if c == 0:
        return TRUE
    alts = []
    for b, e in m.items:
        if e > 0:
            if b.kind == "exp" or b.kind == "num":
                continue
            if b.kind == "abs":
                b = b.args[0]
            if b.kind == "sum" and _positive(b.args[0]):
                continue
            if b.kind == "ite":
                # a guard against zero: where(x == 0, 1, x)
                g, x, y = b.args
                ex, ey = eq0(x), eq0(y)
                if (ex is FALSE or ex is bnot(g)) and (ey is FALSE or ey is g):
                    continue
            alts.append(mk_bo("eq", (of_base(b),)))
    return bor(*alts)


def _positive(v):
    """a positive constant plus non-negative terms (or the negative of such a sum)"""
    c = [x for m, x in v.items if m is MONE]
    if not c or c[0] == 0:
        return False
    if c[0] < 0:
        v = vscale(v, -1)
    return nonneg(v)


def ge0(v):
    if is_const(v):
        return bconst(const_val(v) >= 0)
    if nonneg(v):
        return TRUE
    return mk_bo("ge", (v,))


def gt0(v):
    if is_const(v):
        return bconst(const_val(v) > 0)
    if nonneg(v) and _positive(v):
        return TRUE
    return mk_bo("gt", (v,))


def bnot(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.kind == "not":
        return b.args[0]
    if b.kind == "ge":
        return gt0(vscale(b.args[0], -1))
    if b.kind == "gt":
        return mk_bo("ge", (vscale(b.args[0], -1),))
    return mk_bo("not", (b,))


def band(*bs):
    out = []
    for b in bs:
        if b is FALSE:
            return FALSE
        if b is TRUE:
            continue
        for x in b.args if b.kind == "and" else (b,):
            if x not in out:
                out.append(x)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else mk_bo("and", tuple(out))


def bor(*bs):
    out = []
    for b in bs:
        if b is TRUE:
            return TRUE
        if b is FALSE:
            continue
        for x in b.args if b.kind == "or" else (b,):
            if x not in out:
                out.append(x)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else mk_bo("or", tuple(out))


def has_nonfinite(v):
    if isinstance(v, CV):
        return has_nonfinite(v.re) or has_nonfinite(v.im)
    return any(b.kind == "nonfinite" for m, _ in v.items for b, _e in m.items)


def _inf_sign(v):
    """+1/-1 when v is literally plus/minus infinity, else 0"""
    if isinstance(v, V) and len(v.items) == 1:
        m, c = v.items[0]
        if len(m.items) == 1 and m.items[0][0].kind == "nonfinite":
            s = m.items[0][0].args[0]
            sg = {"inf": 1, "-inf": -1}.get(s, 0)
            return sg if c > 0 else -sg
    return 0


def ceq(a, b):
    a, b = lift(a), lift(b)
    if has_nonfinite(a) != has_nonfinite(b):
        return FALSE
    d = csub(a, b)
    if isinstance(d, V):
        return eq0(d)
    return band(eq0(d.re), eq0(d.im))


def vge(a, b):
    a, b = lift(a), lift(b)
    ia, ib = _inf_sign(a), _inf_sign(b)
    if ia or ib:
        return bconst(ia >= ib)
    return ge0(csub(a, b))


def vgt(a, b):
    a, b = lift(a), lift(b)
    ia, ib = _inf_sign(a), _inf_sign(b)
    if ia or ib:
        return bconst(ia > ib)
    return gt0(csub(a, b))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if isinstance(a, Bo) or isinstance(b, Bo):
        return bor(band(c, a), band(bnot(c), b))
    a, b = lift(a), lift(b)
    if isinstance(a, CV) or isinstance(b, CV):
        return cplx(ite(c, a.real, b.real), ite(c, a.imag, b.imag))
    if a is b:
        return a
    if c.kind == "not":
        c, a, b = c.args[0], b, a
    return of_base(mk_base("ite", (c, a, b), nn=nonneg(a) and nonneg(b)))


def vmax(a, b):
    return ite(vge(a, b), a, b)


def vmin(a, b):
    return ite(vge(a, b), b, a)


# --------------------------------------------------------------- differentiate
def diff(v, x):
    """d v / d x for polynomial v and a variable x (V of a single var base)"""
    xb = factor(x)[1].items[0][0]
    memo = {}

    def dv(v):
        if v.id in memo:
            return memo[v.id]
        parts = []
        for m, c in v.items:
            for i, (b, e) in enumerate(m.items):
                if b is xb:
                    db = ONE
                elif b.kind == "sum":
                    db = dv(b.args[0])
                elif b.kind == "var":
                    continue
                else:
                    raise Unsupported("diff of " + b.kind)
                if db is ZERO:
                    continue
                rest = {bb: ee for bb, ee in m.items}
                rest[b] = e - 1
                k, mm = mono_from(rest)
                parts.append(vmul(mk_v({mm: Fr(c) * e * k}), db))
        r = vadd(*parts)
        memo[v.id] = r
        return r

    return dv(v)


# -------------------------------------------------------------- float evaluation
_hei = {}


def height(b):
    """nesting depth of sums"""
    r = _hei.get(b.id)
    if r is None:
        r = 0
        for m, _ in b.args[0].items:
            for x, _e in m.items:
                if x.kind in ("sum", "opq"):
                    r = max(r, height(x))
        r = _hei[b.id] = r + 1
    return r


class Majorant:
    """The value with every sign in every sum made positive: bounds rounding errors"""

    def __init__(self, ev):
        self.ev, self.mv = ev, {}

    def v(self, v):
        r = self.mv.get(v.id)
        if r is None:
            r = 0.0
            for m, c in v.items:
                t = abs(float(c))
                for b, e in m.items:
                    x = self.v(b.args[0]) if b.kind == "sum" and e > 0 else abs(self.ev.base(b))
                    try:
                        t *= x ** float(e)
                    except ZeroDivisionError:
                        t = math.nan
                r += t
            self.mv[v.id] = r
        return r


DEFAULT_UFS = {
    "sigmoid": lambda x: 1 / (1 + math.exp(-x)) if x > -700 else 0.0,
    "tanh": math.tanh,
}


class Eval:
    """Numerical evaluation under an assignment of the variables"""

    def __init__(self, env, ufs=None):
        self.env, self.ufs, self.mb, self.mv = env, ufs or DEFAULT_UFS, {}, {}

    def base(self, b):
        r = self.mb.get(b.id)
        if r is None:
            r = self._base(b)
            self.mb[b.id] = r
        return r

    def _base(self, b):
        k, a = b.kind, b.args
        if k == "var":
            return float(self.env[a[0]])
        if k in ("sum", "nnwrap", "opq"):
            return self.v(a[0])
        if k == "abs":
            return abs(self.base(a[0]))
        if k == "num":
            return float(a[0])
        if k == "log":
            x = self.v(a[0])
            return -math.inf if x == 0 else (math.log(x) if x > 0 else math.nan)
        if k == "exp":
            return math.exp(self.v(a[0]))
        if k == "sin":
            return math.sin(self.v(a[0]))
        if k == "cos":
            return math.cos(self.v(a[0]))
        if k == "floor":
            return math.floor(self.v(a[0]))
        if k == "ite":
            return self.v(a[1]) if self.b(a[0]) else self.v(a[2])
        if k == "uf":
            return float(self.ufs[a[0]](*[self.v(x) if isinstance(x, V) else x for x in a[1:]]))
        if k == "nonfinite":
            return math.nan
        raise Unsupported("eval " + k)

    def v(self, v):
        if isinstance(v, CV):
            return complex(self.v(v.re), self.v(v.im))
        r = self.mv.get(v.id)
        if r is None:
            r = 0.0
            for m, c in v.items:
                t = float(c)
                for b, e in m.items:
                    x = self.base(b)
                    try:
                        t *= x**e if isinstance(e, int) else x ** float(e)
                    except ZeroDivisionError:
                        t = math.nan
                r += t
            self.mv[v.id] = r
        return r

    def b(self, b):
        k, a = b.kind, b.args
        if k == "true":
            return True
        if k == "false":
            return False
        if k == "eq":
            return self.v(a[0]) == 0
        if k == "ge":
            return self.v(a[0]) >= 0
        if k == "gt":
            return self.v(a[0]) > 0
        if k == "not":
            return not self.b(a[0])
        if k == "and":
            return all(self.b(x) for x in a)
        if k == "or":
            return any(self.b(x) for x in a)
        if k == "bvar":
            return bool(self.env[a[0]])
        raise Unsupported(k)
