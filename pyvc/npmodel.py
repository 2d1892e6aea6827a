"""Assumed contracts of the numpy functions the code uses, over symbolic arrays.  Each is the documented behaviour of
numpy on real numbers; anything not listed here makes the obligation undecided (never failed)."""
import builtins
import math
from fractions import Fraction
from . import terms as T
from . import core as C
from .core import (SArr, SNum, SList, SRange, Unsupported, TRUE, FALSE, lift, is_scalar, as_arr, elementwise, snum, mkint, prod,
                   ext_int, WhereTuple, tobool, tonum, cast, branch, memo_elem, resk, NANV, binop)

NP = {}
USED = set()


def reg(*names):
    def d(f):
        for n in names:
            NP[n] = f
        return f
    return d


# ---------------------------------------------------------------- construction
def nested(x):
    """python list structure -> (shape list, leaf getter) for concrete nesting"""


@reg('array', 'asarray', 'asanyarray', 'ascontiguousarray')
def array(x, dtype=None, copy=True, **kw):
    r = _array(x)
    if dtype is not None:
        r = r.astype(dtype) if isinstance(r, SArr) else C.scalar_cast(r, C.kind_of_dtype(dtype))
    return r


def _array(x):
    if isinstance(x, SArr):
        return x.copy()
    if is_scalar(x):
        v, n, k = lift(x)
        return SArr.new([], lambda idx: (v, n), k)
    if isinstance(x, WhereTuple):
        raise Unsupported('array of indices')
    if isinstance(x, SList):
        return stack_slist(C.in_order(x))
    if isinstance(x, (list, tuple, range)):
        x = list(x)
        if not x:
            return SArr.new([(T.const(0),)], lambda idx: (T.const(0), FALSE), 'float')
        items = [_array(i) for i in x]
        return stack_items(items)
    if hasattr(x, 'pyvc_array'):
        return x.pyvc_array()
    if x is None:
        return SArr.new([], lambda idx: (_ for _ in ()).throw(Unsupported('array of None')), 'object')
    raise Unsupported('np.array of %s' % type(x).__name__)


def common_kind(items):
    k = items[0].kind
    for i in items[1:]:
        k = resk(k, i.kind) if i.kind != k else k
    return k


def stack_items(items):
    n = len(items)
    if any(i.guard is not None for i in items):
        raise Unsupported('stack of compressed arrays')
    if any(i.ndim != items[0].ndim for i in items):
        raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
    items = C.align(*items) if n > 1 and items[0].ndim else items
    k = common_kind(items)
    if n == 1:
        a = items[0]
        return SArr.new([()] + list(a.axes), a.fn(), a.kind)
    fs = [i.fn() for i in items]
    ks = [i.kind for i in items]

    def elem(idx):
        j, rest = idx[0], tuple(idx[1:])
        if T.is_const(j):
            q = int(T.cval(j))
            return cast(fs[q](rest), ks[q], k)
        r = cast(fs[-1](rest), ks[-1], k)
        for q in range(n - 2, -1, -1):
            r = C.e_ite(C.c_eq(j, T.const(q)), cast(fs[q](rest), ks[q], k), r)
        return r
    return SArr.new([(T.const(n),)] + list(items[0].axes), memo_elem(elem), k)


def stack_slist(x):
    vs = C.generic(x.exts)
    it = x.item(vs)
    if it is None and x.guard is None:
        return SArr.new([tuple(x.exts)], lambda idx: (_ for _ in ()).throw(Unsupported('array of None')), 'object')
    a = _array(it)
    if any(e.fv & set(vs) for e in a.exts):
        raise Unsupported('ragged list of arrays')
    if a.guard is not None:
        raise Unsupported('list of compressed arrays')
    if x.guard is not None and a.ndim:
        raise Unsupported('filtered list of arrays')
    f = a.fn()
    n = len(x.exts)
    na = len(a.exts)
    axes = [tuple(x.exts)] + list(a.axes)

    def elem(idx):
        tmp = tuple(T.fresh('i') for _ in range(na))
        v, nn = f(tmp)
        m = dict(zip(vs, idx[:n]))
        m.update(zip(tmp, idx[n:]))
        return T.subst(v, m), T.subst(nn, m)
    return SArr.new(axes, memo_elem(elem), a.kind, x.guard)


def shape_axes(shape):
    if is_scalar(shape) or isinstance(shape, SNum):
        shape = [shape]
    if isinstance(shape, SArr):
        shape = shape.tolist()
    axes = []
    for s in shape:
        if isinstance(s, SArr):
            s = s.scalar()
        v, _, k = lift(s)
        if k == 'float':
            raise TypeError("'float' object cannot be interpreted as an integer")
        if isinstance(s, SNum) and s.ext is not None:
            axes.append(tuple(s.ext))
        elif T.is_const(v):
            axes.append(() if T.cval(v) == 1 else (v,))
        else:
            axes.append((v,))
    return axes


def size_guard(size):
    """an array with one element per selected case, when its size is that number"""
    if isinstance(size, (tuple, list)) and len(size) == 1:
        size = size[0]
    if isinstance(size, SNum) and size.count is not None:
        exts, g = size.count
        return [tuple(exts)], lambda idx: g(tuple(idx))
    return None


@reg('full')
def full(shape, fill_value, dtype=None, **kw):
    axes = shape_axes(shape)
    a = as_arr(fill_value)
    if dtype is not None:
        a = a.astype(dtype)
    if a.ndim:
        return C.broadcast_to(a, axes).copy()
    e = a.fn()(())
    return SArr.new(axes, lambda idx: e, a.kind)


@reg('zeros')
def zeros(shape, dtype=float, **kw):
    k = C.kind_of_dtype(dtype)
    return SArr.new(shape_axes(shape), lambda idx: (FALSE if k == 'bool' else T.const(0), FALSE), k)


@reg('ones')
def ones(shape, dtype=float, **kw):
    k = C.kind_of_dtype(dtype)
    return SArr.new(shape_axes(shape), lambda idx: (TRUE if k == 'bool' else T.const(1), FALSE), k)


@reg('empty')
def empty(shape, dtype=float, **kw):
    name = C.CUR.name('uninit')
    return SArr.new(shape_axes(shape), lambda idx: (T.uf(name, idx, 'R'), FALSE), C.kind_of_dtype(dtype))


@reg('zeros_like')
def zeros_like(a, dtype=None, **kw):
    return zeros(as_arr(a).shape, dtype or as_arr(a).dtype)


@reg('ones_like')
def ones_like(a, dtype=None, **kw):
    return ones(as_arr(a).shape, dtype or as_arr(a).dtype)


@reg('full_like')
def full_like(a, v, dtype=None, **kw):
    return full(as_arr(a).shape, v, dtype or as_arr(a).dtype)


@reg('empty_like')
def empty_like(a, dtype=None, **kw):
    return empty(as_arr(a).shape, dtype or as_arr(a).dtype)


@reg('copy')
def copy(a, **kw):
    return as_arr(a).copy()


@reg('linspace')
def linspace(a, b, num=50, endpoint=True, **kw):
    if kw or endpoint is not True:
        raise Unsupported('linspace options')
    va, na, _ = lift(sc(a))
    vb, nb, _ = lift(sc(b))
    va, vb = tonum(va), tonum(vb)
    n, _, k = lift(sc(num))
    if k == 'float':
        raise TypeError('num must be an integer')
    nan = T.or_(na, nb)
    den = T.sub(n, T.const(1))
    if T.is_const(den) and T.cval(den) == 0:
        return SArr.new([()], lambda idx: (va, nan), 'float')
    if T.is_const(n) and T.cval(n) <= 0:
        raise Unsupported('empty grid')

    def elem(idx):
        return T.add(va, T.mul(idx[0], T.div(T.sub(vb, va), den))), nan
    r = SArr.new([(n,)], elem, 'float')
    if nan is FALSE:
        r.buf.grid = (va, T.div(T.sub(vb, va), den), n)
    return r


@reg('arange')
def arange(*a, dtype=None, **kw):
    if len(a) == 1:
        n = sc(a[0])
        if is_scalar(n):
            v, _, k = lift(n)
            if k == 'int':
                ext = n.ext if isinstance(n, SNum) and n.ext is not None else (v,)
                if not isinstance(n, SNum) and n == 1:
                    ext = ()
                r = SArr.new([ext], lambda idx: (C.recombine(idx, ext, (prod(ext),))[0] if len(ext) != 1 else idx[0], FALSE), 'int')
                if ext and not T.is_const(v):
                    r.parts_fn = lambda idx: tuple(idx)
                return r
    raise Unsupported('arange')


def sc(x):
    if isinstance(x, SArr) and x.ndim == 0:
        return x.scalar()
    return x


# ---------------------------------------------------------------- elementwise
def unary(f, kf=lambda k: 'float'):
    def g(x, *a, **kw):
        if a or kw:
            raise Unsupported('ufunc options')
        x = _arrlike(x)
        if is_scalar(x):
            v, n, k = lift(x)
            return snum(f((v, n)), kf(k), pypy=False)
        return elementwise(f, kf, x)
    return g


def _arrlike(x):
    if isinstance(x, (list, tuple, SList)):
        return array(x)
    if isinstance(x, SArr) or is_scalar(x):
        return x
    if hasattr(x, 'pyvc_array'):
        return x.pyvc_array()
    raise Unsupported('array operation on %s' % type(x).__name__)


def numk(k):
    return 'int' if k == 'bool' else k


NP['abs'] = NP['absolute'] = NP['fabs'] = unary(C.e_abs, lambda k: k)
NP['square'] = unary(lambda e: (T.powi(tonum(e[0]), 2), e[1]), numk)
NP['negative'] = unary(C.e_neg, numk)


def e_sqrt(e):
    v = tonum(e[0])
    return T.sqrt(v), e[1]


NP['sqrt'] = unary(e_sqrt)
def positive_fact(t):
    """t is positive because it is a product of normal densities and tails (all strictly positive as real numbers)"""
    p = T.as_poly(t)
    if len(p) == 1:
        (m, c), = p.items()
        return c > 0 and all(getattr(a, 'op', None) == 'uf' and a.attr in ('phi', 'Phi') for a, _ in m)
    if len(p) == 2 and p.get(()) == 1:
        (m, c), = [(m, c) for m, c in p.items() if m != ()]
        return c == -1 and len(m) == 1 and m[0][1] == 1 and getattr(m[0][0], 'op', None) == 'uf' and m[0][0].attr == 'Phi'
    return False


def exp_term(t):
    """exp(t), with exp(n log x + r) = x^n exp(r) for integers n where x is positive"""
    fac, rest = T.const(1), T.const(0)
    for m, c in T.as_poly(t).items():
        a = m[0][0] if len(m) == 1 and m[0][1] == 1 else None
        if a is not None and c.denominator == 1 and abs(c) <= 8 and getattr(a, 'op', None) == 'uf' and a.attr == 'log' and positive_fact(a.args[0]):
            fac = T.mul(fac, T.powi(a.args[0], int(c)))
        else:
            rest = T.add(rest, T._poly({m: c}))
    return fac if T.is_const(rest) and T.cval(rest) == 0 else T.mul(fac, T.uf('exp', (rest,)))


NP['exp'] = unary(lambda e: (exp_term(tonum(e[0])), e[1]))
NP['log'] = unary(lambda e: (T.uf('log', (tonum(e[0]),)), e[1]))
for _n in ('floor', 'ceil', 'rint', 'trunc'):
    NP[_n] = unary(lambda e, _n=_n: (tonum(e[0]) if tonum(e[0]).sort == "I" else T.uf('np' + _n, (tonum(e[0]),)), e[1]))
NP['fix'] = NP['trunc']


def round_(x, decimals=0, **kw):
    if kw or not isinstance(decimals, int):
        raise Unsupported('rounding options')

    def f(e):
        v = tonum(e[0])
        return (v if v.sort == "I" and decimals >= 0 else T.uf('nearest', (v, T.const(decimals)))), e[1]
    return unary(f, lambda k: k)(x)


NP['round'] = NP['around'] = NP['round_'] = round_


def nextafter(x, y):
    if isinstance(y, float) and y in (float('inf'), -float('inf')):
        return unary(lambda e: (T.uf('stepup' if y > 0 else 'stepdown', (tonum(e[0]),)), e[1]))(x)
    raise Unsupported('nextafter')


NP['nextafter'] = nextafter
NP['isnan'] = unary(lambda e: (e[1], FALSE), lambda k: 'bool')
NP['isfinite'] = unary(lambda e: (T.not_(e[1]), FALSE), lambda k: 'bool')
NP['isinf'] = unary(lambda e: (FALSE, FALSE), lambda k: 'bool')
NP['logical_not'] = NP['invert'] = unary(C.e_not, lambda k: 'bool')
NP['float64'] = NP['float32'] = None
NP['sign'] = unary(lambda e: (T.sub(T.ind(T.lt(T.const(0), tonum(e[0]))), T.ind(T.lt(tonum(e[0]), T.const(0)))), e[1]), numk)


def binary(op):
    def g(a, b, *r, **kw):
        if r or kw:
            raise Unsupported('ufunc options')
        a, b = _arrlike(a), _arrlike(b)
        return binop(op, a, b)
    return g


for _n, _op in (('add', 'add'), ('subtract', 'sub'), ('multiply', 'mul'), ('divide', 'truediv'), ('true_divide', 'truediv'),
                ('power', 'pow'), ('greater', 'gt'), ('greater_equal', 'ge'), ('less', 'lt'), ('less_equal', 'le'), ('equal', 'eq'), ('not_equal', 'ne'),
                ('float_power', 'pow'), ('floor_divide', 'floordiv'), ('mod', 'mod')):
    NP[_n] = binary(_op)


def _logical(f):
    def g(a, b, **kw):
        if kw:
            raise Unsupported('ufunc options')
        a, b = _arrlike(a), _arrlike(b)
        if is_scalar(a) and is_scalar(b):
            x, y = lift(a), lift(b)
            return snum(f((x[0], x[1]), (y[0], y[1])), 'bool')
        return elementwise(f, lambda *k: 'bool', a, b)
    return g


NP['logical_and'] = NP['bitwise_and'] = _logical(C.e_and)
NP['logical_or'] = NP['bitwise_or'] = _logical(C.e_or)
NP['logical_xor'] = NP['bitwise_xor'] = _logical(C.e_xor)


def _minmax(mx, ign=False):
    def f(a, b):
        x, y = tonum(a[0]), tonum(b[0])
        v = T.max_(x, y) if mx else T.min_(x, y)
        if not ign:
            return v, T.or_(a[1], b[1])
        return C.e_ite(a[1], (y, b[1]), C.e_ite(b[1], (x, a[1]), (v, FALSE)))

    def g(a, b, **kw):
        if kw:
            raise Unsupported('ufunc options')
        a, b = _arrlike(a), _arrlike(b)
        if is_scalar(a) and is_scalar(b):
            x, y = lift(a), lift(b)
            return snum(f((x[0], x[1]), (y[0], y[1])), resk(x[2], y[2]))
        return elementwise(f, lambda p, q: resk(p, q), a, b)
    return g


NP['maximum'] = _minmax(True)
NP['minimum'] = _minmax(False)
NP['fmax'] = _minmax(True, True)
NP['fmin'] = _minmax(False, True)


@reg('clip')
def clip(a, lo=None, hi=None, out=None, **kw):
    lo = kw.pop('a_min', kw.pop('min', lo))
    hi = kw.pop('a_max', kw.pop('max', hi))
    if kw:
        raise Unsupported('clip options')
    r = a
    if lo is not None:
        r = NP['maximum'](r, lo)
    if hi is not None:
        r = NP['minimum'](r, hi)
    if out is not None:
        out.write_all(r)
        return out
    return r


@reg('nan_to_num')
def nan_to_num(a, nan=0.0, **kw):
    v, _, _ = lift(nan)
    return unary(lambda e: C.e_ite(e[1], (v, FALSE), (e[0], FALSE)))(a)


@reg('where')
def where(c, a=None, b=None):
    c = _arrlike(c)
    if a is None and b is None:
        m = as_arr(c)
        if m.kind != 'bool':
            m = NP['not_equal'](m, 0)
        return where_tuple(m)
    c, a, b = as_arr(c), as_arr(_arrlike(a)), as_arr(_arrlike(b))
    k = resk(a.kind, b.kind) if a.kind != b.kind else a.kind

    def f(x, y, z):
        return C.e_ite(tobool(x), cast(y, a.kind, k), cast(z, b.kind, k))
    return elementwise(f, lambda *ks: k, c, a, b)


def where_tuple(m):
    arrs = []
    g0 = m.fn()
    if m.guard is not None:
        raise Unsupported('where on a compressed array')
    exts = m.exts
    pos = 0
    guard = lambda idx: tobool(g0(idx))
    for ax in m.axes:
        p, n = pos, len(ax)
        pos += n

        def elem(idx, p=p, n=n, ax=ax):
            pt = tuple(idx[p:p + n])
            return (pt[0] if n == 1 else C.recombine(pt, ax, (prod(ax),))[0] if n else T.const(0)), FALSE
        a = SArr.new([tuple(exts)], elem, 'int', guard)
        a.parts_fn = lambda idx, p=p, n=n: tuple(idx[p:p + n])
        a.mask_of = m
        arrs.append(a)
    return WhereTuple(m, arrs)


@reg('nonzero')
def nonzero(a):
    return where(a)


@reg('flatnonzero')
def flatnonzero(a):
    return where(as_arr(a).ravel())[0]


# ---------------------------------------------------------------- reductions
def norm_axes(a, axis):
    if axis is None:
        return list(range(a.ndim))
    if isinstance(axis, SArr):
        axis = axis.tolist()
    if not isinstance(axis, (tuple, list)):
        axis = (axis,)
    out = []
    for x in axis:
        x = sc(x)
        if isinstance(x, float) or isinstance(x, SNum) and x.kind == 'float':
            raise TypeError("'float' object cannot be interpreted as an integer")
        if isinstance(x, SNum):
            x = x.__index__()
        if not -a.ndim <= x < a.ndim:
            raise AxisError('axis %d is out of bounds for array of dimension %d' % (x, a.ndim))
        x %= a.ndim
        if x in out:
            raise ValueError('duplicate value in axis')
        out.append(x)
    return out


class AxisError(ValueError, IndexError):
    pass


def reduce_(a, axis, f, kf, keepdims=False):
    """f(binders, element, guard) -> (value, nan)"""
    a = as_arr(_arrlike(a))
    if isinstance(axis, list):
        raise TypeError("'list' object cannot be interpreted as an integer")
    ax = norm_axes(a, axis)
    red, keep, p, atoms = [], [], 0, []
    axes = []
    for k, x in enumerate(a.axes):
        atoms.append(range(p, p + len(x)))
        p += len(x)
        if k not in ax:
            axes.append(x)
        elif keepdims:
            axes.append(())
    redat = [j for k in range(a.ndim) if k in ax for j in atoms[k]]
    keepat = [j for k in range(a.ndim) if k not in ax for j in atoms[k]]
    exts = a.exts
    g = a.fn()
    if a.guard is not None and keepat:
        raise Unsupported('partial reduction of a compressed array')
    guard = a.guard

    def elem(idx):
        vs = {j: T.fresh('i') for j in redat}
        full_ = [None] * len(exts)
        for j, t in zip(keepat, idx):
            full_[j] = t
        for j in redat:
            full_[j] = vs[j]
        e = g(tuple(full_))
        gd = guard(tuple(full_)) if guard is not None else TRUE
        return f([(vs[j], exts[j]) for j in redat], e, gd)
    k = kf(a.kind)
    r = SArr.new(axes, memo_elem(elem), k)
    if not axes:
        return snum(r.fn()(()), k, pypy=False)
    return r


def total(bs, gd):
    return T.sum_(bs, T.ind(gd)) if gd is not TRUE else prod([e for _, e in bs])


def ex(bs, c):
    return T.bind('exists', bs, [c]) if bs else c


def r_sum(bs, e, gd):
    v = tonum(e[0])
    n = T.and_(gd, e[1])
    v = T.mul(v, T.ind(gd)) if gd is not TRUE else v
    return T.sum_(bs, v), ex(bs, n)


def r_nansum(bs, e, gd):
    g = T.and_(gd, T.not_(e[1]))
    return T.sum_(bs, T.mul(T.ind(g), tonum(e[0]))), FALSE


def zero_count(n):
    if T.is_const(n):
        return T.const(bool(T.cval(n) == 0))
    l = C.lowb(n)
    if l is not None and l > 0:
        return FALSE
    return T.eq(n, T.const(0))


def r_mean(bs, e, gd):
    s, n = r_sum(bs, e, gd)
    c = total(bs, gd)
    return T.div(s, c), T.or_(n, zero_count(c))


def r_nanmean(bs, e, gd):
    g = T.and_(gd, T.not_(e[1]))
    s, _ = r_nansum(bs, e, gd)
    c = total(bs, g)
    return T.div(s, c), zero_count(c)


def r_ext(kind):
    def f(bs, e, gd):
        v = tonum(e[0])
        if not bs:
            return v, e[1]
        return T.bind(kind, bs, [gd, v]), ex(bs, T.and_(gd, e[1]))
    return f


def r_nanext(kind):
    def f(bs, e, gd):
        v = tonum(e[0])
        g = T.and_(gd, T.not_(e[1]))
        if not bs:
            return v, e[1]
        return T.bind(kind, bs, [g, v]), T.not_(ex(bs, g))
    return f


def r_var(ddof=0, nan=False):
    def f(bs, e, gd):
        g = T.and_(gd, T.not_(e[1])) if nan else gd
        v = tonum(e[0])
        gi = T.ind(g)
        c = total(bs, g)
        s1 = T.sum_(bs, T.mul(gi, v))
        m = T.div(s1, c)
        d = T.sub(v, m)
        s2 = T.sum_(bs, T.mul(gi, d, d))
        nn = zero_count(c) if nan else T.or_(ex(bs, T.and_(gd, e[1])), zero_count(c))
        return T.div(s2, T.sub(c, T.const(ddof))), nn
    return f


def _red(f, kf):
    def g(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
        if kw or out is not None:
            raise Unsupported('reduction options')
        if isinstance(keepdims, SNum):
            keepdims = bool(keepdims)
        r = reduce_(a, axis, f, kf, keepdims)
        if dtype is not None:
            r = r.astype(dtype)
        return r
    return g


_fl = lambda k: 'float'
NP['sum'] = _red(r_sum, numk)
NP['nansum'] = _red(r_nansum, numk)
NP['mean'] = _red(r_mean, _fl)
NP['nanmean'] = _red(r_nanmean, _fl)


def _ranged(f):
    def g(a, *b, **kw):
        r = f(a, *b, **kw)
        if isinstance(a, SArr) and a.buf.irange is not None and isinstance(r, SNum) and r.v.op == 'poly' or \
                isinstance(a, SArr) and a.buf.irange is not None and isinstance(r, SNum) and r.v.op == 'bind':
            m = list(T.as_poly(r.v).items())
            if len(m) == 1 and m[0][1] == 1 and len(m[0][0]) == 1 and m[0][0][0][0].op == 'bind':
                T.IRANGE[m[0][0][0][0]] = a.buf.irange
        return r
    return g


NP['max'] = NP['amax'] = _ranged(_red(r_ext('bmax'), lambda k: k))
NP['min'] = NP['amin'] = _red(r_ext('bmin'), lambda k: k)
NP['nanmax'] = _red(r_nanext('bmax'), lambda k: k)
NP['nanmin'] = _red(r_nanext('bmin'), lambda k: k)


@reg('average')
def average(a, axis=None, weights=None, **kw):
    if weights is not None or kw:
        raise Unsupported('weighted average')
    return NP['mean'](a, axis)


@reg('ptp')
def ptp(a, axis=None, **kw):
    return NP['max'](a, axis) - NP['min'](a, axis)


@reg('var')
def var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    if kw or out is not None:
        raise Unsupported('var options')
    return reduce_(a, axis, r_var(_int(ddof)), _fl, keepdims)


@reg('nanvar')
def nanvar(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    return reduce_(a, axis, r_var(_int(ddof), True), _fl, keepdims)


@reg('std')
def std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    return NP['sqrt'](var(a, axis, None, None, ddof, keepdims))


@reg('nanstd')
def nanstd(a, axis=None, ddof=0, **kw):
    return NP['sqrt'](nanvar(a, axis, ddof=ddof))


def _int(x):
    x = sc(x)
    return x.__index__() if isinstance(x, SNum) else x


@reg('median')
def median(a, axis=None, **kw):
    return quant(a, 0.5, axis, False)


@reg('nanmedian')
def nanmedian(a, axis=None, **kw):
    return quant(a, 0.5, axis, True)


def quant(a, q, axis, nan):
    vq, _, _ = lift(sc(q))

    def f(bs, e, gd):
        g = T.and_(gd, T.not_(e[1])) if nan else gd
        v = tonum(e[0])
        if not bs:
            return v, e[1]
        nn = T.not_(ex(bs, g)) if nan else T.or_(ex(bs, T.and_(gd, e[1])), zero_count(total(bs, gd)))
        return T.bind('quantile', bs, [g, v], [vq]), nn
    return reduce_(a, axis, f, _fl)


def _quantile(nan):
    def g(a, q, axis=None, **kw):
        if kw:
            raise Unsupported('quantile options')
        if isinstance(q, (list, tuple)):
            return array([quant(a, x, axis, nan) for x in q])
        if isinstance(q, SArr) and q.ndim == 1:
            n = q.axis_len(0)
            if not isinstance(n, int):
                raise Unsupported('symbolic quantiles')
            return array([quant(a, q[k], axis, nan) for k in range(n)])
        return quant(a, q, axis, nan)
    return g


NP['quantile'] = _quantile(False)
NP['nanquantile'] = _quantile(True)


def _percentile(nan):
    f = _quantile(nan)

    def g(a, q, axis=None, **kw):
        if isinstance(q, (list, tuple)):
            q = [x / 100 for x in q]
        else:
            q = q / 100
        return f(a, q, axis, **kw)
    return g


NP['percentile'] = _percentile(False)
NP['nanpercentile'] = _percentile(True)


def count_of(a, axis, r):
    """remember which elements a total of booleans counts"""
    a = as_arr(_arrlike(a))
    if isinstance(r, SNum) and axis is None and a.kind == 'bool' and a.guard is None:
        f = a.fn()
        C.counted(r, a.exts, lambda idx: tobool(f(tuple(idx))))
    return r


@reg('count_nonzero')
def count_nonzero(a, axis=None, keepdims=False):
    def f(bs, e, gd):
        return T.sum_(bs, T.ind(T.and_(gd, tobool(e)))), FALSE
    if isinstance(axis, list):
        raise TypeError('list axis')
    return count_of(a, axis, reduce_(a, axis, f, lambda k: 'int', keepdims))


@reg('any')
def any_(a, axis=None, **kw):
    if kw.pop('keepdims', False) or kw:
        raise Unsupported('any options')
    return reduce_(a, axis, lambda bs, e, gd: (ex(bs, T.and_(gd, tobool(e))), FALSE), lambda k: 'bool')


@reg('all')
def all_(a, axis=None, **kw):
    if kw.pop('keepdims', False) or kw:
        raise Unsupported('all options')
    return reduce_(a, axis, lambda bs, e, gd: (T.not_(ex(bs, T.and_(gd, T.not_(tobool(e))))), FALSE), lambda k: 'bool')


@reg('prod', 'product')
def prod_(a, axis=None, **kw):
    if isinstance(a, (list, tuple)):
        if axis is not None or kw:
            raise Unsupported('prod options')
        if not a:
            return SNum(T.const(1), FALSE, 'float', ext=(), pypy=False)
        v, n, kk, e = T.const(1), FALSE, 'bool', ()
        for x in a:
            y, m, k = lift(sc(x))
            v, n = T.mul(v, tonum(y)), T.or_(n, m)
            kk = resk(kk, k)
            ee = C.ext_of(x)
            e = e + ee if e is not None and ee is not None else None
        return SNum(v, n, 'int' if kk == 'bool' else kk, ext=e, pypy=False)
    a = as_arr(a)
    n = a.axis_len(0) if a.ndim == 1 else None
    if isinstance(n, int) and axis is None:
        r = 1
        for k in range(n):
            r = a[k] * r
        return r
    raise Unsupported('prod')


@reg('cumsum')
def cumsum(a, axis=None, **kw):
    raise Unsupported('cumsum')


# ---------------------------------------------------------------- shape
@reg('moveaxis')
def moveaxis(a, source, destination):
    a = as_arr(_arrlike(a))
    if isinstance(source, (list, tuple)) or isinstance(destination, (list, tuple)):
        src = [_nax(a, s) for s in source]
        dst = [_nax(a, d) for d in destination]
    else:
        src, dst = [_nax(a, source)], [_nax(a, destination)]
    order = [n for n in range(a.ndim) if n not in src]
    for d, s in sorted(zip(dst, src)):
        order.insert(d, s)
    return a.permute(order)


def _nax(a, x):
    x = sc(x)
    if isinstance(x, SNum):
        x = x.__index__()
    if not isinstance(x, int):
        raise TypeError('axis must be an integer')
    if not -a.ndim <= x < a.ndim:
        raise AxisError('axis %d is out of bounds for array of dimension %d' % (x, a.ndim))
    return x % a.ndim


NP['rollaxis'] = lambda a, axis, start=0: moveaxis(a, axis, start - 1 if start > _nax(a, axis) else start)
NP['swapaxes'] = lambda a, i, j: as_arr(a).swapaxes(i, j)
NP['transpose'] = lambda a, axes=None: as_arr(a).transpose(axes)
NP['reshape'] = lambda a, shape, **k: as_arr(_arrlike(a)).reshape(shape)
NP['ravel'] = lambda a, **k: as_arr(_arrlike(a)).ravel(**k)
NP['squeeze'] = lambda a, axis=None: as_arr(a).squeeze(axis)
NP['shape'] = lambda a: as_arr(_arrlike(a)).shape
NP['ndim'] = lambda a: as_arr(_arrlike(a)).ndim
NP['size'] = lambda a, axis=None: as_arr(_arrlike(a)).size if axis is None else as_arr(a).axis_len(axis)


@reg('expand_dims')
def expand_dims(a, axis):
    a = as_arr(_arrlike(a))
    if isinstance(axis, (tuple, list)):
        if len(axis) != 1:
            raise Unsupported('several new axes')
        axis = axis[0]
    n = a.ndim + 1
    if not -n <= axis < n:
        raise AxisError('axis out of bounds')
    return a.expand_dims(axis)


@reg('atleast_1d')
def atleast_1d(a):
    a = as_arr(_arrlike(a))
    return a if a.ndim else a.expand_dims(0)


@reg('broadcast_to')
def broadcast_to(a, shape, **kw):
    return C.broadcast_to(as_arr(a), shape_axes(shape))


def broadcast_arrays(*a):
    return C.align(*a)


NP['broadcast_arrays'] = broadcast_arrays


@reg('tile', 'repeat', 'roll', 'flip', 'take', 'put', 'histogram', 'searchsorted', 'argmax', 'argmin', 'cov', 'dot', 'einsum', 'outer', 'diff', 'meshgrid', 'trapz', 'trapezoid', 'nanargmax', 'interp', 'convolve', 'correlate')
def _unsup(*a, **k):
    raise Unsupported('numpy function outside the model')


def diff(a, n=1, axis=-1):
    a = as_arr(a)
    if n != 1:
        raise Unsupported('diff order')
    ax = _nax(a, axis)
    k1 = tuple([slice(None)] * ax + [slice(1, None)])
    k0 = tuple([slice(None)] * ax + [slice(None, -1)])
    return a[k1] - a[k0]


NP['diff'] = diff


@reg('concatenate')
def concatenate(xs, axis=0, **kw):
    if kw:
        raise Unsupported('concatenate options')
    if isinstance(xs, SArr):
        xs = C.to_iter(xs)
    if isinstance(xs, SList):
        return concat_slist(xs, axis)
    xs = [as_arr(_arrlike(x)) for x in xs]
    if not xs:
        raise ValueError('need at least one array to concatenate')
    if any(x.guard is not None for x in xs):
        raise Unsupported('concatenation of compressed arrays')
    if axis is None:
        xs = [x.ravel() for x in xs]
        axis = 0
    nd = xs[0].ndim
    if nd == 0:
        raise ValueError('zero-dimensional arrays cannot be concatenated')
    if any(x.ndim != nd for x in xs):
        raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
    ax = _nax(xs[0], axis)
    if len(xs) == 1:
        return xs[0].copy()
    ref = xs[0]
    # the other axes have to agree
    for x in xs[1:]:
        for k in range(nd):
            if k != ax and x.axes[k] != ref.axes[k]:
                if prod(x.axes[k]) is prod(ref.axes[k]):
                    raise Unsupported('concatenation with other factors')
                if branch(T.eq(prod(x.axes[k]), prod(ref.axes[k]))):
                    raise Unsupported('concatenation of conditionally equal axes')
                raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
    sizes = [prod(x.axes[ax]) for x in xs]
    if any(len(x.axes[ax]) > 1 for x in xs):
        raise Unsupported('concatenation along a merged axis')
    n = T.add(*sizes)
    p = sum(len(a) for a in ref.axes[:ax])
    fs = [x.fn() for x in xs]
    k = common_kind(xs)
    starts = [T.const(0)]
    for s in sizes:
        starts.append(T.add(starts[-1], s))

    def elem(idx):
        head, j, tail = tuple(idx[:p]), idx[p], tuple(idx[p + 1:])
        r = None
        for q in range(len(xs) - 1, -1, -1):
            mid = (T.sub(j, starts[q]),) if xs[q].axes[ax] else ()
            c = C.c_lt(j, starts[q + 1])
            if r is not None and c is FALSE:
                continue
            e = cast(fs[q](head + mid + tail), xs[q].kind, k)
            r = e if r is None else C.e_ite(c, e, r)
            if False:
                break
        return r
    axes = list(ref.axes)
    axes[ax] = (n,)
    return SArr.new(axes, memo_elem(elem), k)


def concat_slist(x, axis):
    if x.unordered or x.guard is not None:
        raise Unsupported('concatenation of an unordered list')
    vs = C.generic(x.exts)
    a = as_arr(x.item(vs))
    if a.guard is not None:
        raise Unsupported('list of compressed arrays')
    if a.ndim == 0:
        raise ValueError('zero-dimensional arrays cannot be concatenated')
    ax = _nax(a, axis)
    if any(e.fv & set(vs) for e in a.exts):
        raise Unsupported('ragged list of arrays')
    f = a.fn()
    na = len(a.exts)
    p = sum(len(q) for q in a.axes[:ax])
    nl = len(x.exts)
    na_ax = len(a.axes[ax])
    axes = list(a.axes)
    axes[ax] = tuple(x.exts) + tuple(a.axes[ax])

    def elem(idx):
        tmp = tuple(T.fresh('i') for _ in range(na))
        v, nn = f(tmp)
        li = idx[p:p + nl]
        ai = tuple(idx[:p]) + tuple(idx[p + nl:])
        m = dict(zip(vs, li))
        m.update(zip(tmp, ai))
        return T.subst(v, m), T.subst(nn, m)
    return SArr.new(axes, memo_elem(elem), a.kind)


@reg('vstack')
def vstack(xs):
    if isinstance(xs, SList):
        return concat_slist(C.map_list(lambda a: atleast_2d(a), xs), 0)
    return concatenate([atleast_2d(x) for x in xs], 0)


@reg('hstack')
def hstack(xs):
    if isinstance(xs, SList):
        raise Unsupported('hstack of a symbolic list')
    xs = [atleast_1d(x) for x in xs]
    return concatenate(xs, 0 if xs[0].ndim == 1 else 1)


def atleast_2d(a):
    a = as_arr(_arrlike(a))
    while a.ndim < 2:
        a = a.expand_dims(0)
    return a


NP['atleast_2d'] = atleast_2d


@reg('stack')
def stack(xs, axis=0, **kw):
    if kw:
        raise Unsupported('stack options')
    r = stack_slist(xs) if isinstance(xs, SList) and not xs.unordered else stack_items([as_arr(_arrlike(x)) for x in C.to_iter(xs)])
    n = r.ndim
    if not -n <= axis < n:
        raise AxisError('axis out of bounds')
    return moveaxis(r, 0, axis)


@reg('split')
def split(a, n, axis=0):
    a = as_arr(a)
    ax = _nax(a, axis)
    if isinstance(n, (list, tuple, SArr)):
        raise Unsupported('split at positions')
    v, _, k = lift(n)
    N = prod(a.axes[ax])
    if v is N or (T.is_const(v) and T.is_const(N) and v is N):
        ext = a.axes[ax]

        def item(idx):
            r = a[tuple([slice(None)] * ax + [SNum(T.const(0), FALSE, 'int', parts=tuple(idx))])] if ext else None
            if ext == ():
                return a
            r = as_arr(r)
            return r.expand_dims(ax)
        if ext == ():
            return [a]
        return SList(ext, item)
    if C.SOLVER.decide(T.eq(v, N), C.hyps()) is True:
        raise Unsupported('split with a differently written length')
    raise Unsupported('split into blocks')


@reg('array_split')
def array_split(a, n, axis=0):
    a = as_arr(a)
    ax = _nax(a, axis)
    if isinstance(n, (list, tuple, SArr)):
        raise Unsupported('split at positions')
    nb, _, k = lift(n)
    ext = a.axes[ax]
    N = prod(ext)
    if nb is N:
        return split(a, n, axis)
    f = a.fn()
    p = sum(len(q) for q in a.axes[:ax])
    q = T.uf('idiv', (N, nb), 'I')
    r = T.sub(N, T.mul(q, nb))

    def start(g):
        return T.add(T.mul(g, q), T.min_(g, r))

    def size(g):
        return T.add(q, T.ind(T.lt(g, r)))

    def item(idx):
        g = idx[0]
        st, sz = start(g), size(g)
        axes = list(a.axes)
        axes[ax] = (sz,)

        def elem(ix):
            j = T.add(ix[p], st)
            mid = (j,) if len(ext) == 1 else () if not ext else C.divmod_parts(j, ext)
            return f(tuple(ix[:p]) + tuple(mid) + tuple(ix[p + 1:]))
        return SArr.new(axes, memo_elem(elem), a.kind)
    if a.guard is not None:
        raise Unsupported('split of a compressed array')
    if T.is_const(nb):
        return [item((T.const(g),)) for g in range(int(T.cval(nb)))]
    return SList((nb,), item)


@reg('delete')
def delete(a, obj, axis=None):
    if isinstance(a, (list, tuple)):
        l = list(a)
        obj = _int(obj)
        if not isinstance(obj, int):
            raise Unsupported('delete of several')
        if not -len(l) <= obj < len(l):
            raise IndexError('index %d is out of bounds for axis 0 with size %d' % (obj, len(l)))
        del l[obj]
        return ShapeList(l)
    raise Unsupported('np.delete')


class ShapeList(list):
    """a small integer array of shape entries"""

    def astype(self, t):
        return self

    @property
    def shape(self):
        return (len(self),)

    def pyvc_array(self):
        return stack_items([_array(x) for x in self])


@reg('apply_along_axis')
def apply_along_axis(fn, axis, a, *args, **kw):
    a = as_arr(_arrlike(a))
    ax = _nax(a, axis)
    exts = a.exts
    pos, p = [], 0
    for k, x in enumerate(a.axes):
        if k != ax:
            pos += list(range(p, p + len(x)))
        p += len(x)
    oexts = [exts[j] for j in pos]
    b = moveaxis(a, ax, -1)
    if a.guard is not None:
        raise Unsupported('apply over a compressed array')
    if not oexts:
        return as_or_scalar(as_arr(_arrlike(fn(a.reshape(-1) if a.ndim > 1 else a, *args, **kw))))
    vs = C.generic(oexts)
    key, q = [], 0
    for x in b.axes[:-1]:
        n = len(x)
        key.append(SNum(T.const(0), FALSE, 'int', parts=tuple(vs[q:q + n])))
        q += n

    def run():
        row = b[tuple(key)]
        return as_arr(_arrlike(fn(row, *args, **kw)))
    res = C.explore_local(oexts, vs, run)
    it = SList(oexts, lambda idx: None)
    C.fold_effects(it, vs, [(c, l) for c, _, l in res])
    val = res[0][1] if len(res) == 1 else C.merge([(c, r) for c, r, _ in res])
    val = as_arr(val)
    if val.guard is not None or any(e.fv & set(vs) for e in val.exts):
        raise Unsupported('apply_along_axis with a varying result shape')
    f = val.fn()
    no, ni = len(oexts), len(val.exts)
    oaxes = list(b.axes[:-1])

    def elem(idx):
        tmp = tuple(T.fresh('i') for _ in range(ni))
        v, n = f(tmp)
        m = dict(zip(vs, idx[:no]))
        m.update(zip(tmp, idx[no:]))
        return T.subst(v, m), T.subst(n, m)
    r = SArr.new(oaxes + list(val.axes), memo_elem(elem), val.kind)
    no_ax = len(oaxes)
    order = list(range(ax)) + list(range(no_ax, r.ndim)) + list(range(ax, no_ax))
    return r.permute(order)


def as_or_scalar(a):
    return a


# ---------------------------------------------------------------- ordering, counting
@reg('sort')
def sort(a, axis=-1, **kw):
    if isinstance(a, (list, tuple)) and all(isinstance(x, int) for x in a):
        return array(sorted(a))
    a = as_arr(_arrlike(a))
    if a.ndim == 1 and isinstance(a.axis_len(0), int):
        vals = [a[k] for k in range(a.axis_len(0))]
        if all(isinstance(v, (int, float)) or T.is_const(v.v) for v in vals):
            return array(sorted(vals, key=lambda v: v if isinstance(v, (int, float)) else T.cval(v.v)))
    if a.guard is not None:
        raise Unsupported('sort of symbolic values')
    if axis is None:
        a, axis = a.ravel(), -1
    return take_along_axis(a, argsort(a, axis), axis)


@reg('take_along_axis')
def take_along_axis(a, ind, axis=-1, **kw):
    if kw:
        raise Unsupported('take_along_axis options')
    a, ind = as_arr(_arrlike(a)), as_arr(_arrlike(ind))
    if axis is None or a.guard is not None or ind.guard is not None or [len(x) for x in a.axes] != [len(x) for x in ind.axes] \
            or any(x is not y for p, q in zip(a.axes, ind.axes) for x, y in zip(p, q)):
        raise Unsupported('take_along_axis of other shapes')
    ax = _nax(a, axis)
    off = sum(len(x) for x in a.axes[:ax])
    ext = a.axes[ax]
    f, g = a.fn(), ind.fn()

    def elem(idx):
        k = g(tuple(idx))[0]
        parts = () if not ext else (k,) if len(ext) == 1 else tuple(C.divmod_parts(k, ext))
        return f(tuple(idx[:off]) + parts + tuple(idx[off + len(ext):]))
    return SArr.new(list(a.axes), memo_elem(elem), a.kind)


def position(vs, ext):
    return vs[0] if len(ext) == 1 else C.recombine(tuple(vs), ext, (prod(ext),))[0]


@reg('argsort')
def argsort(a, axis=-1, kind=None, **kw):
    a = as_arr(_arrlike(a))
    if kind not in (None, 'stable', 'mergesort', 'quicksort', 'heapsort') or kw or a.guard is not None:
        raise Unsupported('argsort options')
    if a.ndim != 1:
        if axis is None:
            a = a.ravel()
        else:
            return argsort_nd(a, _nax(a, axis))
    ext = a.axes[0]
    if not ext:
        return SArr.new([()], lambda idx: (T.const(0), FALSE), 'int')
    f = a.fn()
    vs = [T.fresh('i') for _ in ext]
    e = f(tuple(vs))

    def elem(idx):
        k = idx[0] if len(ext) == 1 else C.recombine(idx, ext, (prod(ext),))[0]
        return T.bind('argsort', list(zip(vs, ext)), [tonum(e[0]), e[1], position(vs, ext)], [k]), FALSE
    r = SArr.new([ext], memo_elem(elem), 'int')
    N = prod(ext)
    C.CUR.__dict__.setdefault('argsorts', []).append(r)
    if len(ext) > 1:
        r.parts_fn = lambda idx: C.divmod_parts(elem(idx)[0], ext)
    else:
        r.parts_fn = lambda idx: (elem(idx)[0],)
    return r


def argsort_nd(a, ax):
    off = sum(len(x) for x in a.axes[:ax])
    ext = a.axes[ax]
    if not ext:
        return SArr.new(list(a.axes), lambda idx: (T.const(0), FALSE), 'int')
    f = a.fn()
    vs = [T.fresh('i') for _ in ext]

    def elem(idx):
        e = f(tuple(idx[:off]) + tuple(vs) + tuple(idx[off + len(ext):]))
        own = tuple(idx[off:off + len(ext)])
        k = own[0] if len(ext) == 1 else C.recombine(own, ext, (prod(ext),))[0]
        return T.bind('argsort', list(zip(vs, ext)), [tonum(e[0]), e[1], position(vs, ext)], [k]), FALSE
    return SArr.new(list(a.axes), memo_elem(elem), 'int')


@reg('unique')
def unique(a, **kw):
    if kw:
        raise Unsupported('unique options')
    a = as_arr(_arrlike(a)).ravel()
    return UniqueVals(a)


class UniqueVals:
    """sorted distinct values of an array: a set given by its membership predicate"""

    def __init__(self, src, pred=None):
        self.src, self.pred = src, pred

    def filt(self, op, v):
        return UniqueMask(self, op, v)

    def __gt__(self, v):
        return self.filt('gt', v)

    def __ge__(self, v):
        return self.filt('ge', v)

    def __ne__(self, v):
        return self.filt('ne', v)

    def __getitem__(self, k):
        if isinstance(k, UniqueMask) and k.u is self:
            p0 = self.pred

            def pred(x):
                c = tobool(C.BIN[k.op][0]((x, FALSE), lift(k.v)[:2]))
                return T.and_(p0(x), c) if p0 else c
            return UniqueVals(self.src, pred)
        if isinstance(k, SNum) and k.parts is not None and isinstance(k.pypy, tuple) and k.pypy[0] == 'uniq' and k.pypy[1] is self:
            return SNum(k.parts[0], FALSE, self.src.kind, pypy=False)
        raise Unsupported('element of np.unique')

    def as_distinct(self):
        return C.Distinct(self, False)

    def __iter__(self):
        raise Unsupported('native iteration over distinct values')

    @property
    def size(self):
        return UniqLen(self)

    @property
    def shape(self):
        return (UniqLen(self),)

    def nonempty(self):
        vs = [(T.fresh('i'), e) for e in self.src.exts]
        e = self.src.fn()(tuple(v for v, _ in vs))
        return T.bind('exists', vs, [self.pred(tonum(e[0]))]) if self.pred else TRUE

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('np.unique result')


class UniqLen:
    """number of distinct values: only compared with zero"""

    def __init__(self, u):
        self.u = u

    def __bool__(self):
        return C.branch(self.u.nonempty())

    def __gt__(self, n):
        if isinstance(n, int) and n == 0:
            return bool(self)
        raise Unsupported('number of distinct values')

    def __ge__(self, n):
        if isinstance(n, int) and n == 1:
            return bool(self)
        raise Unsupported('number of distinct values')

    def __eq__(self, n):
        if isinstance(n, int) and n == 0:
            return not bool(self)
        raise Unsupported('number of distinct values')

    def __ne__(self, n):
        return not self == n
    __hash__ = None


class UniqueMask:
    def __init__(self, u, op, v):
        self.u, self.op, self.v = u, op, v


def grid_of(b):
    """(start, step, number) of the equally spaced values an array or a contiguous part of it holds"""
    g = b.buf.grid
    if g is None or b.guard is not None or len(b.src) != 1 or b.src[0][0] != 'i':
        return None
    off = b.src[0][2]
    return (g[0] if off is None else T.add(g[0], T.mul(off if hasattr(off, 'op') else T.const(off), g[1]))), g[1], b.exts[0]


@reg('digitize')
def digitize(x, bins, right=False):
    x = as_arr(_arrlike(x))
    bins = as_arr(_arrlike(bins))
    if bins.ndim != 1 or len(bins.axes[0]) > 1:
        raise Unsupported('bins')
    bf = bins.fn()
    ext = bins.axes[0]
    right = bool(right)
    grid = grid_of(bins)
    if grid is not None and not right and C.SOLVER.decide(T.lt(T.const(0), grid[1]), C.hyps()) is True:
        # equally spaced bins: the number of the interval is the whole part of the scaled distance (lemma: monotone edges)
        a, w, n = grid
        last = T.sub(n, T.const(1))
        f0 = x.fn()
        vs = [T.fresh('i') for _ in x.exts]
        H = C.hyps() + [h for v, q in zip(vs, x.exts) for h in (T.le(T.const(0), v), T.lt(v, q))]
        e0 = f0(tuple(vs))
        inside = C.SOLVER.prove(T.le(a, tonum(e0[0])), H) and C.SOLVER.prove(T.lt(tonum(e0[0]), T.add(a, T.mul(last, w))), H)

        def g(e):
            v = tonum(e[0])
            t = T.toint(T.div(T.sub(v, a), w))
            T.IRANGE[t] = (T.const(0), T.sub(last, T.const(1)))
            d = T.add(t, T.const(1))
            if not inside:
                d = T.ite(T.lt(v, a), T.const(0), T.ite(T.le(T.add(a, T.mul(last, w)), v), n, d))
            return T.ite(e[1], n, d) if e[1] is not FALSE else d, FALSE
        r = elementwise(g, lambda k: 'int', x)
        if isinstance(r, SArr) and T.is_const(n):
            r.buf.irange = (T.const(0), n)
        return r

    def f(e):
        bs = [(T.fresh('i'), q) for q in ext]
        b = bf(tuple(v for v, _ in bs))
        c = T.lt(tonum(b[0]), tonum(e[0])) if right else T.le(tonum(b[0]), tonum(e[0]))
        n = T.sum_(bs, T.ind(c))
        return T.ite(e[1], prod(ext), n) if e[1] is not FALSE else n, FALSE
    r = elementwise(f, lambda k: 'int', x)
    return r


@reg('bincount')
def bincount(x, weights=None, minlength=0):
    x = as_arr(_arrlike(x))
    if x.ndim != 1:
        raise ValueError('object too deep for desired array')
    ml, _, _ = lift(sc(minlength))
    f = x.fn()
    exts = x.exts
    vs = [T.fresh('i') for _ in exts]
    gd = x.guard(tuple(vs)) if x.guard is not None else TRUE
    e = f(tuple(vs))
    H = C.hyps() + [T.and_(T.le(T.const(0), v), T.lt(v, q)) for v, q in zip(vs, exts)] + ([gd] if gd is not TRUE else [])
    if not C.SOLVER.prove(T.lt(e[0], ml), H) or not C.SOLVER.prove(T.le(T.const(0), e[0]), H):
        raise Unsupported('bincount: identifiers not known to be below minlength')
    wf = as_arr(weights) if weights is not None else None
    if wf is not None:
        _, w2 = C.align(x, wf)
        wfn = w2.fn()

    def elem(idx):
        bs = [(T.fresh('i'), q) for q in exts]
        ix = tuple(v for v, _ in bs)
        g = x.guard(ix) if x.guard is not None else TRUE
        hit = T.and_(g, C.c_eq(f(ix)[0], idx[0]))
        if wf is None:
            return T.sum_(bs, T.ind(hit)), FALSE
        w = wfn(ix)
        return T.sum_(bs, T.mul(T.ind(hit), tonum(w[0]))), ex(bs, T.and_(hit, w[1]))
    return SArr.new([(ml,)], memo_elem(elem), 'int' if wf is None else 'float')


@reg('corrcoef')
def corrcoef(x, y=None, **kw):
    if y is None or kw:
        raise Unsupported('corrcoef form')
    x, y = C.align(as_arr(_arrlike(x)), as_arr(_arrlike(y)))
    if x.ndim != 1:
        raise Unsupported('corrcoef of matrices')
    fx, fy = x.fn(), y.fn()
    exts = x.exts

    def cov(f, g, kx, ky):
        bs = [(T.fresh('i'), q) for q in exts]
        ix = tuple(v for v, _ in bs)
        gd = x.guard(ix) if x.guard is not None else TRUE
        gi = T.ind(gd)
        c = total(bs, gd)
        a, b = f(ix), g(ix)
        a = (tonum(a[0]), a[1])
        b = (tonum(b[0]), b[1])
        ma, mb = T.div(T.sum_(bs, T.mul(gi, a[0])), c), T.div(T.sum_(bs, T.mul(gi, b[0])), c)
        return T.div(T.sum_(bs, T.mul(gi, T.sub(a[0], ma), T.sub(b[0], mb))), T.sub(c, T.const(1))), ex(bs, T.and_(gd, T.or_(a[1], b[1])))
    cxy, n = cov(fx, fy, x.kind, y.kind)
    cxx, _ = cov(fx, fx, x.kind, x.kind)
    cyy, _ = cov(fy, fy, y.kind, y.kind)
    r = T.div(cxy, T.sqrt(T.mul(cxx, cyy)))
    one = (T.const(1), n)

    def elem(idx):
        i, j = idx
        return C.e_ite(C.c_eq(i, j), one, (r, n))
    two = (T.const(2),)
    return SArr.new([two, two], elem, 'float')


# ---------------------------------------------------------------- random numbers
def loopvars():
    return [v for l in C.CUR.loops for v in l.vars]


def new_draw(base, **info):
    no = C.CUR.__dict__.setdefault('drawno', {})
    no[base] = no.get(base, 0) + 1
    n = 'draw%s~%s%d' % (base, C.CUR.__dict__.get('drawrun', ''), no[base])
    info['name'] = n
    info['lve'] = [e for l in C.CUR.loops for e in l.exts]
    C.CUR.draws.append(info)
    return n


def reseed():
    """the random stream starts again: equal calls draw equal numbers"""
    C.CUR.__dict__['drawno'] = {}


def choice(pop, size=None, replace=True, p=None):
    if p is not None:
        raise Unsupported('choice with probabilities')
    replace = bool(replace)
    lv = loopvars()
    if isinstance(pop, range):
        pop = list(pop)
    if isinstance(pop, (list, tuple)):
        pop = array(pop)
    if is_scalar(pop):
        pop = arange(pop)
    exts = tuple(pop.exts)
    guard = pop.guard
    axes = [] if size is None else shape_axes(size)
    nm = new_draw('', kind='choice', replace=replace, exts=exts, guard=guard, axes=axes, lv=tuple(lv))
    oe = [e for a in axes for e in a]

    def parts(idx):
        return tuple(T.uf('%s.%d' % (nm, k), tuple(lv) + tuple(idx), 'I') for k in range(len(exts)))
    DRAWEXT.update({'%s.%d' % (nm, k): e for k, e in enumerate(exts)})
    if isinstance(pop, SList):
        vs = C.generic(exts)
        it = pop.item(vs)
        v, n, k = lift(it)
        ip = it.parts if isinstance(it, SNum) else None

        def elem(idx):
            m = dict(zip(vs, parts(idx)))
            return T.subst(v, m), T.subst(n, m)
        r = SArr.new(axes, memo_elem(elem), k)
        if ip is not None:
            r.parts_fn = lambda idx: tuple(T.subst(q, dict(zip(vs, parts(idx)))) for q in ip)
    else:
        f = pop.fn()
        r = SArr.new(axes, memo_elem(lambda idx: f(parts(idx))), pop.kind)
        pf = getattr(pop, 'parts_fn', None)
        if pf is not None:
            r.parts_fn = lambda idx: pf(parts(idx))
        if guard is not None:
            r.drawn_guard = guard
    if not axes:
        return snum(r.fn()(()), r.kind)
    return r


DRAWEXT = {}


def randint(low, high=None, size=None, **kw):
    if kw:
        raise Unsupported('randint options')
    lv = loopvars()
    if high is None:
        low, high = 0, low
    if isinstance(low, (list, SList)):
        low = array(low)
    if isinstance(high, (list, SList)):
        high = array(high)
    if isinstance(low, SArr) and low.ndim or isinstance(high, SArr) and high.ndim:
        al = C.align(as_arr(low), as_arr(high))
        if size is not None:
            axes = shape_axes(size)
            al = [C.broadcast_to(p, axes) for p in al]
        axes, fl, fh = al[0].axes, al[0].fn(), al[1].fn()
        guard = next((p.guard for p in al if p.guard is not None), None)
        nm = new_draw('', kind='randint', array=True, lowf=lambda idx: fl(idx)[0], highf=lambda idx: fh(idx)[0], axes=axes, lv=tuple(lv), guard=guard)

        def elem(idx):
            return T.add(fl(idx)[0], T.uf(nm + '.0', tuple(lv) + tuple(idx), 'I')), T.or_(fl(idx)[1], fh(idx)[1])
        return SArr.new(axes, memo_elem(elem), 'int', guard)
    lo, hi = lift(sc(low)), lift(sc(high))
    axes = [] if size is None else shape_axes(size)
    guard = size_guard(size)
    if guard is not None:
        axes, guard = guard
    ext = None
    if isinstance(high, SNum) and high.ext is not None and isinstance(low, int) and low == 0:
        ext = tuple(high.ext)
    n = T.sub(hi[0], lo[0])
    if T.is_const(n) and T.cval(n) <= 0:
        raise ValueError('low >= high')
    if C.branch(T.le(n, T.const(0))):
        raise ValueError('low >= high')
    if ext is None:
        nm = new_draw('', kind='randint', low=lo[0], high=hi[0], exts=(n,), axes=axes, lv=tuple(lv), guard=guard)
        DRAWEXT[nm + '.0'] = n

        def elem(idx):
            return T.add(lo[0], T.uf(nm + '.0', tuple(lv) + tuple(idx), 'I')), FALSE
        r = SArr.new(axes, memo_elem(elem), 'int', guard)
    else:
        nm = new_draw('', kind='randint', exts=ext, axes=axes, lv=tuple(lv), guard=None, low=lo[0], high=hi[0])
        for k, e in enumerate(ext):
            DRAWEXT['%s.%d' % (nm, k)] = e

        def parts(idx):
            return tuple(T.uf('%s.%d' % (nm, k), tuple(lv) + tuple(idx), 'I') for k in range(len(ext)))

        def elem(idx):
            pt = parts(idx)
            return (pt[0] if len(pt) == 1 else C.recombine(pt, ext, (prod(ext),))[0] if pt else T.const(0)), FALSE
        r = SArr.new(axes, memo_elem(elem), 'int', guard)
        r.parts_fn = parts
    if not axes:
        return snum(r.fn()(()), 'int')
    return r


# ---------------------------------------------------------------- memory maps (ghost file system)
def memmap(filename, dtype=None, mode='r+', offset=0, shape=None, order='C'):
    fs = C.CUR.fs
    if fs is None:
        raise Unsupported('memory map without a modelled file system')
    k = C.kind_of_dtype(dtype) if dtype is not None else 'int'
    axes = shape_axes(shape)
    if mode in ('w+', 'write'):
        a = SArr.new(axes, lambda idx: (T.const(0), FALSE), k)
        fs.files[filename] = ('map', a.buf, axes)
        fs.log.append(('create', filename))
        return a
    ent = fs.files.get(filename)
    if ent is None or ent[0] != 'map':
        raise FileNotFoundError(filename)
    if [prod(x) for x in ent[2]] != [prod(x) for x in axes]:
        raise Unsupported('memory map with another shape')
    b = ent[1]
    r = SArr(b, ent[2], [('i', j, None) for j in range(len(b.exts))])
    if mode in ('r', 'readonly'):
        r.readonly = True
    elif mode not in ('r+', 'readwrite'):
        raise ValueError('mode must be one of r, r+, w+')
    return r


# ---------------------------------------------------------------- the module object
class Ns:
    def __init__(self, name, d):
        self.__dict__['_n'] = name
        self.__dict__['_d'] = d

    def __getattr__(self, k):
        d = self.__dict__['_d']
        if k in d:
            USED.add(self._n + '.' + k)
            v = d[k]
            if v is None:
                raise Unsupported(self._n + '.' + k)
            return v
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('%s.%s is not modelled' % (self._n, k))

    def __setattr__(self, k, v):
        raise Unsupported('assignment to a library attribute')


def _runiform(low=0.0, high=1.0, size=None):
    from . import libmodels as L
    return L.draw_dist('uniform', [low, high - low], size)


def _rrandom(size=None):
    from . import libmodels as L
    return L.draw_dist('uniform', [0, 1], size)


def _rnormal(loc=0.0, scale=1.0, size=None):
    from . import libmodels as L
    return L.draw_dist('norm', [loc, scale], size)


class TypeShim:
    def __init__(self, kind, name):
        self.pyvc_kind = kind
        self.__name__ = name

    def __call__(self, x=0):
        return C.scalar_cast(x, self.pyvc_kind)


def module():
    d = dict(NP)
    d.pop('ndarray', None)
    d.update(inf=float('inf'), nan=float('nan'), NaN=float('nan'), NAN=float('nan'), pi=SNum(T.uf('pi', (), 'R'), FALSE, 'float'), newaxis=None, ndarray=SArr,
             float64=TypeShim('float', 'float64'), float32=TypeShim('float', 'float32'), int64=TypeShim('int', 'int64'), int32=TypeShim('int', 'int32'),
             bool_=TypeShim('bool', 'bool_'), memmap=memmap, integer=TypeShim('int', 'integer'), floating=TypeShim('float', 'floating'),
             random=Ns('numpy.random', {'choice': choice, 'randint': randint, 'uniform': _runiform, 'random': _rrandom, 'random_sample': _rrandom,
                                        'sample': _rrandom, 'ranf': _rrandom, 'rand': lambda *s: _rrandom(s or None),
                                        'normal': _rnormal, 'randn': lambda *s: _rnormal(size=s or None)}),
             errstate=_ErrState, AxisError=AxisError, array=array, warnings=None)
    d['None'] = None
    d['newaxis'] = NEWAXIS
    return Np('numpy', d)


NEWAXIS = None


class Np(Ns):
    def __getattr__(self, k):
        if k == 'newaxis':
            return None
        return Ns.__getattr__(self, k)


class _ErrState:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False
