"""Symbolic execution of the real source: paths, symbolic scalars and arrays, loop summaries.

Values the program computes are terms over symbolic extents, symbolic data (uninterpreted functions of the index)
and assumed library functions.  Rank is concrete, every extent is symbolic and unbounded.
"""
import re
import itertools
from fractions import Fraction
from . import terms as T

TRUE, FALSE = T.TRUE, T.FALSE


class Unsupported(BaseException):
    """the program left the fragment the verifier models: the obligation is undecided, never failed"""


class PathEnd(BaseException):
    """infeasible path"""


# ---------------------------------------------------------------- execution context
class Ctx:
    def __init__(self, decisions=()):
        self.dec = list(decisions)
        self.pos = 0
        self.taken = []
        self.forks = []
        self.pc = []
        self.loops = []
        self.draws = []
        self.counter = itertools.count(1)
        self.events = []
        self.calls = []
        self.env = {}
        self.fs = None
        self.lits = {}
        self.nbranch = 0

    def name(self, base):
        return '%s~%d' % (base, next(self.counter))

    def assume(self, t):
        if t is FALSE:
            raise PathEnd()
        if t is not TRUE and t not in self.pc:
            self.pc.append(t)


CUR = Ctx()
SOLVER = None            # set by smt.py


def cur():
    return CUR


def set_ctx(c):
    T.RANKOF.clear()
    global CUR
    CUR = c


def hyps():
    h = list(CUR.pc)
    for l in CUR.loops:
        h += l.facts()
    return h


SYMLOOPS = False         # long loops over constant ranges are summarised instead of unrolled (second attempt of a configuration)


def branch(t):
    """decide a boolean term on this path"""
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    if T.INF in t.fv:
        raise Unsupported('arithmetic with infinity')
    c = CUR
    c.nbranch += 1
    if c.nbranch > 4000:
        raise Unsupported('too many decisions on one path')
    H = hyps()
    d = SOLVER.decide(t, H)
    if d is not None:
        return d
    for l in reversed(c.loops):
        if any(v in t.fv for v in l.vars):
            return l.local_branch(t)
    if c.pos < len(c.dec):
        b = c.dec[c.pos]
    else:
        b = True
        if getattr(c, 'native', 0):
            c.nfork = getattr(c, 'nfork', 0) + 1
            if c.nfork > 5:
                raise Unsupported('too many paths in a long loop')
        c.forks.append(c.taken + [False])
    c.pos += 1
    c.taken.append(b)
    c.assume(t if b else T.not_(t))
    return b


# ---------------------------------------------------------------- symbolic scalars
_TOK = {}


def token(x):
    k = 'v%d%s' % (x.v.id, x.kind[0])
    if x.nan is not FALSE:
        k += 'n%d' % x.nan.id
    _TOK[k] = x
    return '\u27e6%s\u27e7' % k


_ATOK = {}


def arr_token(a):
    """text of all elements in order (a function of the shape and the values; different contents, different text)"""
    vs = tuple(tuple(T.var('@%d.%d' % (k, j), 'I') for j in range(len(x))) for k, x in enumerate(a.axes))
    flat = tuple(v for x in vs for v in x)
    e = a.fn()(flat)
    k = (tuple(a.axes), a.kind, e, a.guard(flat) if a.guard is not None else None)
    return '\u27e6a%d\u27e7' % _ATOK.setdefault(k, len(_ATOK) + 1)


def from_token(s):
    if isinstance(s, str) and s.startswith('\u27e6') and s.endswith('\u27e7') and s.count('\u27e6') == 1:
        return _TOK.get(s[1:-1])
    return None


_SID, _SOBJ = {}, {}


def strtoken(obj):
    """a text that depends on symbolic values: ('join', separator, extents, variables, text) or ('ite', ((condition, text), ...))"""
    k = _SID.get(obj)
    if k is None:
        k = _SID[obj] = 's%d' % (len(_SID) + 1)
        _SOBJ[k] = obj
    return '\u27e6%s\u27e7' % k


_TOKRE = re.compile('\u27e6([^\u27e7]*)\u27e7')


def text_subst(s, m):
    """the text with index terms replaced"""
    if '\u27e6' not in s:
        return s

    def one(mt):
        k = mt.group(1)
        if k in _TOK:
            return token(subst_val(_TOK[k], m))
        if k in _SOBJ:
            o = _SOBJ[k]
            if o[0] == 'join':
                m2 = {x: y for x, y in m.items() if x not in o[3]}
                new = tuple(T.fresh('i') for _ in o[3])
                m2.update(zip(o[3], new))
                return strtoken(('join', o[1], tuple(T.subst(e, m2) for e in o[2]), new, text_subst(o[4], m2)))
            return strtoken(('ite', tuple((T.subst(c, m), text_subst(x, m)) for c, x in o[1])))
        for (axes, kind, e, g), i in _ATOK.items():
            if k == 'a%d' % i:
                fv = set(e[0].fv) | set(e[1].fv)
                if any(x in fv for x in m):
                    raise Unsupported('text of an array that depends on the loop')
                return mt.group(0)
        raise Unsupported('symbolic text')
    return _TOKRE.sub(one, s)


NANV = T.var('nan.value', 'R')


class SNum:
    """scalar: value term, NaN flag, kind int/float/bool; ext: extents if it is the length of an axis;
    parts: index terms if it indexes such an axis"""
    __slots__ = ('v', 'nan', 'kind', 'ext', 'parts', 'pypy', 'count')
    __array_priority__ = 100

    def __init__(self, v, nan=FALSE, kind='float', ext=None, parts=None, pypy=True):
        self.v, self.nan, self.kind, self.ext, self.parts, self.pypy = v, nan, kind, ext, parts, pypy
        self.count = None                         # (extents, guard): the number of elements selected by the guard

    # numpy scalar look
    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def dtype(self):
        return DType(self.kind)

    def astype(self, t):
        k = kind_of_dtype(t)
        if k == self.kind:
            return self
        return snum(cast((self.v, self.nan), self.kind, k), k)

    def item(self):
        return self

    def ravel(self):
        return as_arr(self).ravel()

    def reshape(self, *s):
        return as_arr(self).reshape(*s)

    def copy(self):
        return self

    def squeeze(self, *a):
        return self

    def numpy(self):
        return self

    def mean(self, *a, **k):
        return self

    def sum(self, *a, **k):
        return self

    def __repr__(self):
        return token(self)
    __str__ = __repr__

    def __format__(self, spec):
        if spec in ('', 's', 'd'):
            return token(self)
        raise Unsupported('formatted number')

    def __bool__(self):
        if self.kind == 'bool':
            return branch(self.v)
        return branch(T.or_(self.nan, T.ne(self.v, T.const(0))))

    def __index__(self):
        if T.is_const(self.v) and T.cval(self.v).denominator == 1:
            return int(T.cval(self.v))
        raise Unsupported('symbolic integer used as a concrete index')

    def __int__(self):
        return self.__index__()

    def __float__(self):
        if T.is_const(self.v):
            return float(T.cval(self.v))
        raise Unsupported('symbolic number converted to float')

    def __hash__(self):
        return hash((self.v.id, self.nan.id))

    def __len__(self):
        raise TypeError('object of type scalar has no len()')

    def __iter__(self):
        raise TypeError('scalar is not iterable')


def lift(x):
    """python / symbolic scalar -> (v, nan, kind)"""
    if isinstance(x, SNum):
        return x.v, x.nan, x.kind
    if isinstance(x, bool):
        return (TRUE if x else FALSE), FALSE, 'bool'
    if isinstance(x, int):
        return T.const(x), FALSE, 'int'
    if isinstance(x, float):
        if x != x:
            return NANV, TRUE, 'float'
        if x in (float('inf'), float('-inf')):
            return (T.INF if x > 0 else T.neg(T.INF)), FALSE, 'float'
        return T.const(x), FALSE, 'float'
    if isinstance(x, Fraction):
        return T.const(x), FALSE, 'float'
    raise Unsupported('not a number: %r' % (type(x).__name__,))


def is_scalar(x):
    return isinstance(x, (SNum, int, float, bool, Fraction))


def snum(e, kind, **kw):
    v, nan = e
    if kind == 'bool' and v.sort != 'B':
        v = T.ne(v, T.const(0))
    return SNum(v, nan, kind, **kw)


def mkint(v, ext=None, parts=None):
    if T.is_const(v) and T.cval(v).denominator == 1:
        return int(T.cval(v))
    return SNum(v, FALSE, 'int', ext=ext, parts=parts)


def tonum(v):
    return T.ind(v) if v.sort == 'B' else v


def cast(e, k0, k1):
    v, nan = e
    if k0 == k1:
        return e
    if k1 == 'float':
        return tonum(v), nan
    if k1 == 'int':
        return (T.toint(tonum(v)), FALSE)
    if k1 == 'bool':
        return (T.or_(nan, T.ne(tonum(v), T.const(0))), FALSE)
    raise Unsupported('cast to ' + k1)


class DType:
    def __init__(self, k):
        self.k = k
        self.kind = {'float': 'f', 'int': 'i', 'bool': 'b', 'object': 'O'}[k]
        self.name = {'float': 'float64', 'int': 'int64', 'bool': 'bool', 'object': 'object'}[k]
        self.itemsize = 8

    def __eq__(self, o):
        try:
            return kind_of_dtype(o) == self.k
        except Unsupported:
            return False

    def __hash__(self):
        return hash(self.k)

    def __call__(self, x):
        return scalar_cast(x, self.k)


def kind_of_dtype(t):
    if isinstance(t, DType):
        return t.k
    if isinstance(t, str):
        s = t.lstrip('<>=')
        if s.startswith('float') or s in ('f8', 'd'):
            return 'float'
        if s.startswith('int') or s.startswith('uint') or s in ('i8',):
            return 'int'
        if s.startswith('bool'):
            return 'bool'
    k = getattr(t, 'pyvc_kind', None)
    if k:
        return k
    if t is float:
        return 'float'
    if t is int:
        return 'int'
    if t is bool:
        return 'bool'
    if t is object:
        return 'object'
    raise Unsupported('dtype %r' % (t,))


def scalar_cast(x, k):
    if is_scalar(x):
        v, nan, k0 = lift(x)
        if k0 == k:
            return x
        if not isinstance(x, SNum):
            return {'float': float, 'int': int, 'bool': bool}[k](x)
        r = snum(cast((v, nan), k0, k), k)
        if k == 'int' and isinstance(x, SNum):
            r.ext, r.parts = x.ext, x.parts
        return r
    if isinstance(x, SArr):
        if x.ndim == 0:
            return scalar_cast(x.scalar(), k)
        return x.astype(k)
    t = from_token(x)
    if t is not None:
        return scalar_cast(t, k)
    raise Unsupported('conversion of %s to %s' % (type(x).__name__, k))


# ---------------------------------------------------------------- element operations
def _or(*n):
    return T.or_(*n)


def resk(k1, k2):
    if 'float' in (k1, k2):
        return 'float'
    if 'int' in (k1, k2):
        return 'int'
    return 'bool'


def e_add(a, b):
    return T.add(tonum(a[0]), tonum(b[0])), _or(a[1], b[1])


def e_sub(a, b):
    return T.sub(tonum(a[0]), tonum(b[0])), _or(a[1], b[1])


def e_mul(a, b):
    return T.mul(tonum(a[0]), tonum(b[0])), _or(a[1], b[1])


def e_div(a, b):
    return T.div(tonum(a[0]), tonum(b[0])), _or(a[1], b[1])


def e_floordiv(a, b):
    x, y = tonum(a[0]), tonum(b[0])
    if T.is_const(x) and T.is_const(y) and T.cval(y) != 0:
        return T.const(T.cval(x) // T.cval(y)), _or(a[1], b[1])
    return T.uf('idiv', (x, y), 'I'), _or(a[1], b[1])


def e_mod(a, b):
    x, y = tonum(a[0]), tonum(b[0])
    return T.sub(x, T.mul(y, e_floordiv((x, FALSE), (y, FALSE))[0])), _or(a[1], b[1])


def e_pow(a, b):
    return T.pow_(tonum(a[0]), tonum(b[0])), _or(a[1], b[1])


def cmp_op(f):
    def g(a, b):
        n = T.and_(T.not_(a[1]), T.not_(b[1]))
        if n is FALSE:
            return FALSE, FALSE
        return T.and_(n, f(tonum(a[0]), tonum(b[0]))), FALSE
    return g


NONNEG = ('i', 'N', '%', 'b!', 'k!', 'draw')


def nonneg_atom(a):
    if a.op == 'var':
        return a.attr.startswith(NONNEG) and a.sort == 'I'
    if a.op == 'uf':
        return a.attr.startswith(('draw', 'start', 'gsize', 'perm', 'argsort'))
    if a.op == 'ind':
        return True
    if a.op == 'bind' and a.attr[0] == 'sum':
        b = a.args[len(a.attr[1])]
        return all(c >= 0 and all(nonneg_atom(x) for x, e in m) for m, c in T.as_poly(b).items())
    return False


def lowb(t):
    """a constant lower bound of an index term, or None"""
    lo = Fraction(0)
    for m, c in T.as_poly(t).items():
        if m == ():
            lo += c
        elif c < 0 or not all(nonneg_atom(a) for a, e in m):
            return None
        elif len(m) and all(a.op == 'var' and a.attr.startswith('N') and e > 0 for a, e in m):
            lo += c                               # an extent is at least one
    return lo


def c_lt(a, b):
    if a.sort == 'I' and b.sort == 'I':
        d = T.sub(b, a)
        l = lowb(d)
        if l is not None and l > 0:
            return TRUE
        l = lowb(T.neg(d))
        if l is not None and l >= 0:
            return FALSE
    return T.lt(a, b)


def c_le(a, b):
    return T.not_(c_lt(b, a)) if c_lt(b, a) in (TRUE, FALSE) else T.le(a, b)


def c_eq(a, b):
    if a.sort == 'I' and b.sort == 'I':
        for d in (T.sub(a, b), T.sub(b, a)):
            l = lowb(d)
            if l is not None and l > 0:
                return FALSE
    return T.eq(a, b)


e_lt = cmp_op(c_lt)
e_le = cmp_op(c_le)
e_gt = cmp_op(lambda a, b: c_lt(b, a))
e_ge = cmp_op(lambda a, b: c_le(b, a))
e_eq = cmp_op(c_eq)


def e_ne(a, b):
    return T.not_(e_eq(a, b)[0]), FALSE


def tobool(e):
    v, n = e
    return v if v.sort == 'B' else T.or_(n, T.ne(v, T.const(0)))


def e_and(a, b):
    return T.and_(tobool(a), tobool(b)), FALSE


def e_or(a, b):
    return T.or_(tobool(a), tobool(b)), FALSE


def e_xor(a, b):
    return T.not_(T.iff(tobool(a), tobool(b))), FALSE


def e_neg(a):
    return T.neg(tonum(a[0])), a[1]


def e_abs(a):
    return T.abs_(tonum(a[0])), a[1]


def e_not(a):
    return T.not_(tobool(a)), FALSE


def e_ite(c, a, b):
    """c: B term; a, b elements of the same kind"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    va, vb = a[0], b[0]
    if va.sort != vb.sort and 'B' in (va.sort, vb.sort):
        va, vb = tonum(va), tonum(vb)
    if a[1] is TRUE and vb.sort != 'B':
        va = vb                                   # the value below a NaN flag is irrelevant
    if b[1] is TRUE and va.sort != 'B':
        vb = va
    return T.ite(c, va, vb), T.ite(c, a[1], b[1])


BIN = {'add': (e_add, 'num'), 'sub': (e_sub, 'num'), 'mul': (e_mul, 'num'), 'truediv': (e_div, 'float'),
       'floordiv': (e_floordiv, 'num'), 'mod': (e_mod, 'num'), 'pow': (e_pow, 'num'),
       'lt': (e_lt, 'bool'), 'le': (e_le, 'bool'), 'gt': (e_gt, 'bool'), 'ge': (e_ge, 'bool'), 'eq': (e_eq, 'bool'), 'ne': (e_ne, 'bool'),
       'and': (e_and, 'bool'), 'or': (e_or, 'bool'), 'xor': (e_xor, 'bool')}


def out_kind(op, rk, k1, k2):
    if rk != 'num':
        return rk
    k = resk(k1, k2)
    if k == 'bool':
        return 'int'
    return k


def binop(op, a, b):
    f, rk = BIN[op]
    for x in (a, b):
        if isinstance(x, str) or x is None:
            if op == 'eq':
                return False
            if op == 'ne':
                return True
            raise TypeError('unsupported operand')
    if isinstance(a, (SList,)) or isinstance(b, (SList,)):
        if isinstance(a, SNum) or isinstance(b, SNum):
            return NotImplemented
    if isinstance(a, (list, tuple)) and isinstance(b, SNum) and op == 'mul':
        return list_repeat(a, b)
    if isinstance(b, (list, tuple)) and isinstance(a, SNum) and op == 'mul':
        return list_repeat(b, a)
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if isinstance(a, SArr) or isinstance(b, SArr):
            from . import npmodel
            return binop(op, npmodel.array(a) if isinstance(a, (list, tuple)) else a, npmodel.array(b) if isinstance(b, (list, tuple)) else b)
        return NotImplemented
    if is_scalar(a) and is_scalar(b):
        va, na, ka = lift(a)
        vb, nb, kb = lift(b)
        if op in ('and', 'or', 'xor') and (ka != 'bool' or kb != 'bool'):
            raise Unsupported('bitwise operation on integers')
        v, n = f((va, na), (vb, nb))
        k = out_kind(op, rk, ka, kb)
        r = SNum(v, n, k)
        if op == 'mul' and k == 'int':            # product of lengths
            ea = ext_of(a)
            eb = ext_of(b)
            if ea is not None and eb is not None:
                r.ext = ea + eb
        if T.is_const(v) and n is FALSE and k in ('int',) and T.cval(v).denominator == 1:
            return int(T.cval(v))
        if k == 'bool' and v in (TRUE, FALSE):
            return v is TRUE
        return r
    if isinstance(a, SArr) or isinstance(b, SArr):
        if not (isinstance(a, SArr) or is_scalar(a)) or not (isinstance(b, SArr) or is_scalar(b)):
            return NotImplemented
        return elementwise(lambda x, y: f(x, y), lambda k1, k2: out_kind(op, rk, k1, k2), a, b)
    return NotImplemented


def ext_of(x):
    if isinstance(x, SNum):
        if x.ext is not None:
            return x.ext
        return None
    if isinstance(x, int) and not isinstance(x, bool):
        return () if x == 1 else (T.const(x),)
    return None


def _install():
    def mk(op, refl):
        if refl:
            def f(self, o):
                return binop(op, o, self)
        else:
            def f(self, o):
                return binop(op, self, o)
        return f
    for cls in (SNum, SArr):
        for op in BIN:
            setattr(cls, '__%s__' % op, mk(op, False))
            if op not in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
                setattr(cls, '__r%s__' % op, mk(op, True))
        cls.__hash__ = (lambda self: id(self)) if cls is SArr else SNum.__hash__
    SNum.__neg__ = lambda s: snum(e_neg((s.v, s.nan)), 'int' if s.kind == 'bool' else s.kind)
    SNum.__pos__ = lambda s: s
    SNum.__abs__ = lambda s: snum(e_abs((s.v, s.nan)), s.kind)
    SNum.__invert__ = lambda s: snum(e_not((s.v, s.nan)), 'bool')
    SArr.__neg__ = lambda s: elementwise(e_neg, lambda k: k, s)
    SArr.__pos__ = lambda s: s.copy()
    SArr.__abs__ = lambda s: elementwise(e_abs, lambda k: k, s)
    SArr.__invert__ = lambda s: elementwise(e_not, lambda k: 'bool', s)
    for op in ('add', 'sub', 'mul', 'truediv', 'pow', 'and', 'or', 'xor', 'floordiv'):
        def ip(self, o, op=op):
            r = binop(op, self, o)
            if r is NotImplemented:
                return r
            if not isinstance(r, SArr) or r.ndim != self.ndim:
                raise Unsupported('in-place operation changing the shape')
            self.write_all(r)
            return self
        setattr(SArr, '__i%s__' % op, ip)


# ---------------------------------------------------------------- arrays
class Buf:
    __slots__ = ('elem', 'exts', 'kind', 'owner', 'name', 'guard', 'born', 'grid', 'irange', '__weakref__')

    def __init__(self, exts, elem, kind, owner=None, name=None):
        self.exts, self.elem, self.kind, self.owner, self.name = tuple(exts), elem, kind, owner, name
        self.irange = None                        # smallest and largest value of an integer array (constants)
        self.grid = None                          # (start, step, count) of an equally spaced array
        self.born = tuple(CUR.loops)              # created inside these running iterations


class MergedSlice(Unsupported):
    pass


def _nolayout():
    raise Unsupported('memory layout of a computed array')


class SArr:
    """view of a buffer.  axes: per axis the extents of its atoms (row-major); src: per buffer atom how it is
    addressed: ('i', k, offset) atom k of the view plus an offset, ('r', k, c) c minus atom k, ('f', term) fixed."""
    __array_priority__ = 200

    def __init__(self, buf, axes, src, guard=None, maybe_copy=False):
        self.buf, self.axes, self.src = buf, [tuple(a) for a in axes], tuple(src)
        self.guard = guard                        # closure flat idx -> B term: a compressed one-dimensional array
        self.maybe_copy = maybe_copy

    # ---- construction
    @staticmethod
    def new(axes, elem, kind, guard=None, owner=None, name=None):
        exts = [e for a in axes for e in a]
        b = Buf(exts, elem, kind, owner, name)
        return SArr(b, axes, [('i', k, None) for k in range(len(exts))], guard)

    @property
    def kind(self):
        return self.buf.kind

    @property
    def dtype(self):
        return DType(self.buf.kind)

    @property
    def ndim(self):
        return len(self.axes)

    @property
    def T(self):
        return self.transpose()

    @property
    def exts(self):
        return [e for a in self.axes for e in a]

    def axis_len(self, k):
        if self.guard is not None:
            return counted(mkint(self.count()), self.exts, self.guard)
        return ext_int(self.axes[k])

    def count(self):
        vs = [T.fresh('i') for _ in self.exts]
        return T.sum_(list(zip(vs, self.exts)), T.ind(self.guard(tuple(vs))))

    @property
    def shape(self):
        return tuple(self.axis_len(k) for k in range(len(self.axes)))

    @property
    def size(self):
        r = 1
        for s in self.shape:
            r = s * r if isinstance(s, SNum) else r * s
        return r

    @property
    def nbytes(self):
        return self.size * 8

    @property
    def flags(self):
        raise Unsupported('memory layout inspection')

    @property
    def strides(self):
        raise Unsupported('memory layout inspection')

    @property
    def flat(self):
        return self.ravel()

    @property
    def data(self):
        return self

    def fn(self):
        """snapshot of the element function: flat index tuple -> element"""
        be, src = self.buf.elem, self.src
        if all(s[0] == 'i' and s[1] == k and s[2] is None for k, s in enumerate(src)) and len(src) == len(self.exts):
            return be

        def f(idx):
            out = []
            for s in src:
                if s[0] == 'i':
                    out.append(idx[s[1]] if s[2] is None else T.add(idx[s[1]], s[2]))
                elif s[0] == 'r':
                    out.append(T.sub(s[2], idx[s[1]]))
                else:
                    out.append(s[1])
            return be(tuple(out))
        return f

    def scalar(self):
        if self.exts or self.ndim:
            raise Unsupported('array used as a scalar')
        return snum(self.fn()(()), self.kind)

    def __bool__(self):
        if self.ndim == 0:
            return bool(self.scalar())
        n = self.size
        if isinstance(n, int) and n == 1:
            return bool(snum(self.fn()(()), self.kind))
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    def __float__(self):
        return float(self.scalar())

    def __len__(self):
        if self.ndim == 0:
            raise TypeError('len() of unsized object')
        n = self.axis_len(0)
        if isinstance(n, int):
            return n
        raise Unsupported('len() of a symbolic array')

    def __repr__(self):
        return '<array %s>' % (self.shape,)

    def __format__(self, s):
        return repr(self)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        n = self.axis_len(0)
        if isinstance(n, int):
            return iter([self[i] for i in range(n)])
        raise Unsupported('iteration over a symbolic axis')

    # ---- views
    def _nat(self, k):
        return len(self.axes[k])

    def _pos(self, k):
        return sum(len(a) for a in self.axes[:k])

    def _ax(self, k):
        if isinstance(k, SNum):
            k = k.__index__()
        if not -self.ndim <= k < self.ndim:
            raise IndexError('axis %d is out of bounds for array of dimension %d' % (k, self.ndim))
        return k % self.ndim if self.ndim else 0

    def permute(self, order):
        order = [self._ax(o) for o in order]
        if sorted(order) != list(range(self.ndim)):
            raise ValueError("axes don't match array")
        newpos, axes, p = {}, [], 0
        for o in order:
            st = self._pos(o)
            for j in range(self._nat(o)):
                newpos[st + j] = p
                p += 1
            axes.append(self.axes[o])
        src = [(s[0], newpos[s[1]], s[2]) if s[0] in 'ir' else s for s in self.src]
        g = None
        if self.guard is not None:
            if self.ndim != 1:
                raise Unsupported('permutation of a compressed array')
            g = self.guard
        return SArr(self.buf, axes, src, g, self.maybe_copy)

    def transpose(self, *ax):
        if len(ax) == 1 and (ax[0] is None or isinstance(ax[0], (list, tuple))):
            ax = ax[0]
        if not ax and ax != []:
            ax = None
        if ax is None:
            ax = list(range(self.ndim))[::-1]
        return self.permute(list(ax))

    def swapaxes(self, a, b):
        o = list(range(self.ndim))
        a, b = self._ax(a), self._ax(b)
        o[a], o[b] = o[b], o[a]
        return self.permute(o)

    def expand_dims(self, at):
        axes = list(self.axes)
        n = len(axes) + 1
        if not -n <= at < n:
            raise IndexError('axis out of bounds')
        axes.insert(at % n, ())
        if self.guard is not None:
            raise Unsupported('expand_dims of a compressed array')
        return SArr(self.buf, axes, self.src, None, self.maybe_copy)

    def squeeze(self, axis=None):
        axes = list(self.axes)
        if axis is None:
            for e in self.exts:
                if not T.is_const(e):
                    if branch(T.eq(e, T.const(1))):
                        raise Unsupported('squeeze of an axis of length one')
            keep = [a for a in axes if a]
            return SArr(self.buf, keep, self.src, self.guard, self.maybe_copy)
        axis = [axis] if not isinstance(axis, (list, tuple)) else axis
        axis = [self._ax(a) for a in axis]
        for a in axis:
            if axes[a]:
                if branch(T.eq(prod(axes[a]), T.const(1))):
                    raise Unsupported('squeeze of an axis that happens to have length one')
                raise ValueError('cannot select an axis to squeeze out which has size not equal to one')
        return SArr(self.buf, [a for k, a in enumerate(axes) if k not in axis], self.src, self.guard, self.maybe_copy)

    def reshape(self, *shape, order='C'):
        if order != 'C' and self.ndim > 1:
            if self.fortran(order, 'A') and (shape[0] if len(shape) == 1 else 0) in (-1, (-1,)):
                return self.transpose().copy().reshape(-1)
            if order == 'F':
                raise Unsupported('reshape order')
        if len(shape) == 1 and isinstance(shape[0], (list, tuple)):
            shape = shape[0]
        shape = list(shape)
        if self.guard is not None:
            if len(shape) == 1 and isinstance(shape[0], int) and shape[0] == -1:
                return self
            if len(shape) == 2 and isinstance(shape[0], int) and shape[0] == -1 and shape[1] == 1 or \
               len(shape) == 2 and isinstance(shape[1], int) and shape[1] == -1 and shape[0] == 1:
                raise Unsupported('two-dimensional compressed array')
            raise Unsupported('reshape of a compressed array')
        exts = self.exts
        axes = split_exts(exts, shape)
        return SArr(self.buf, axes, self.src, None, True)

    def fortran(self, order, allowed='AK'):
        """does the given order mean column-major?  The layout of an array in memory is the caller's choice"""
        if order == 'C' or order is None:
            return False
        if order == 'F':
            return True
        if order in allowed:
            return branch(T.var('column-major layout of ' + str(self.buf.name), 'B')) if self.buf.name else _nolayout()
        raise ValueError('order')

    def ravel(self, order='C'):
        if self.guard is not None and self.ndim == 1:
            return self
        if self.ndim > 1 and self.fortran(order):
            return self.transpose().copy().ravel()
        return SArr(self.buf, [tuple(self.exts)], self.src, self.guard, True)

    def flatten(self, order='C'):
        return self.ravel(order).copy()

    def copy(self, *a, **k):
        return SArr.new(self.axes, self.fn(), self.kind, self.guard)

    def astype(self, t, copy=True, **kw):
        k = kind_of_dtype(t)
        f, k0 = self.fn(), self.kind
        return SArr.new(self.axes, (lambda idx: cast(f(idx), k0, k)), k, self.guard)

    def tolist(self):
        if self.ndim == 0:
            return self.scalar()
        if isinstance(self.axis_len(0), int):
            return [x.tolist() if isinstance(x, SArr) else x for x in self]
        l = SList.of_array(self)
        if self.ndim > 1:
            it = l._item
            l._item = lambda idx: it(idx).tolist()
        l.text = self
        return l

    def item(self, *a):
        if a:
            return self[a]
        return snum(self.fn()(()), self.kind) if not self.exts else _unsup('item')

    def to_numpy(self):
        return self

    def numpy(self):
        return self

    # ---- indexing
    def _norm_key(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        n = sum(1 for k in key if k is not None and k is not Ellipsis and not (isinstance(k, SArr) and k.kind == 'bool'))
        for k in key:
            if isinstance(k, SArr) and k.kind == 'bool':
                n += k.ndim
        if any(k is Ellipsis for k in key):
            j = [x is Ellipsis for x in key].index(True)
            key[j:j + 1] = [slice(None)] * (self.ndim - n)
        else:
            key += [slice(None)] * (self.ndim - n)
        return key

    def __getitem__(self, key):
        if isinstance(key, WhereTuple):
            return self[key.mask]
        if isinstance(key, list) and key and all(isinstance(k, slice) for k in key):
            raise IndexError('list of slices')
        if isinstance(key, (list, SList)):
            from . import npmodel
            key = npmodel.array(key)
        key = self._norm_key(key)
        if any(isinstance(k, (SArr, list, SList)) for k in key):
            return self._adv(key)
        axes, m, newk = [], {}, 0                 # m: view atom -> ('i', newatom, off) ...
        ax = 0
        old = 0
        if self.guard is not None:
            return self._guard_index(key)
        for k in key:
            if k is None:
                axes.append(())
                continue
            if ax >= self.ndim:
                raise IndexError('too many indices for array')
            a = self.axes[ax]
            if isinstance(k, slice):
                try:
                    a2, ms = self._slice(a, k)
                except MergedSlice:
                    return self.flat_axis(ax)[tuple(key)]
                for j, mm in enumerate(ms):
                    m[old + j] = (mm[0], newk + mm[1], mm[2]) if mm[0] in 'ir' else mm
                newk += len(a2)
                axes.append(a2)
            else:
                parts = index_parts(a, k)
                for j, p in enumerate(parts):
                    m[old + j] = ('f', p)
            old += len(a)
            ax += 1
        src = compose(self.src, m)
        r = SArr(self.buf, axes, src, None, self.maybe_copy)
        if not axes:
            return snum(r.fn()(()), r.kind)
        return r

    def flat_axis(self, ax):
        """the same array with the factors of an axis replaced by one"""
        a = self.axes[ax]
        lo = sum(len(x) for x in self.axes[:ax])
        f = self.fn()
        axes = self.axes[:ax] + [(prod(a),)] + self.axes[ax + 1:]
        r = SArr.new(axes, memo_elem(lambda idx: f(tuple(idx[:lo]) + recombine((idx[lo],), (prod(a),), a) + tuple(idx[lo + 1:]))), self.kind)
        r.maybe_copy = True
        return r

    def _slice(self, a, k):
        st, sp, step = k.start, k.stop, k.step
        if step is not None and not (isinstance(step, int) and step in (1, -1)):
            if st is None and sp is None and isinstance(step, SNum):
                raise Unsupported('symbolic slice step')
            raise Unsupported('slice step')
        if step == -1:
            if st is not None or sp is not None:
                raise Unsupported('reversed slice with bounds')
            return a, [('r', j, T.sub(e, T.const(1))) for j, e in enumerate(a)]
        if st is None and sp is None:
            return a, [('i', j, None) for j in range(len(a))]
        n = prod(a)
        lo = slice_bound(st, n, T.const(0))
        hi = slice_bound(sp, n, n)
        if T.is_const(lo) and T.cval(lo) == 0 and hi is n:
            return a, [('i', j, None) for j in range(len(a))]
        ext = T.sub(hi, lo)
        if len(a) == 0:
            if T.is_const(ext) and T.cval(ext) == 1:
                return (), []
            if T.is_const(ext) and T.cval(ext) <= 0:
                return (T.const(0),), []
            raise Unsupported('slice of a unit axis')
        if len(a) > 1:
            raise MergedSlice('slice of a merged axis')
        if T.is_const(ext) and T.cval(ext) == 1:
            return (), [('f', lo)]
        return (ext,), [('i', 0, None if T.is_const(lo) and T.cval(lo) == 0 else lo)]

    def _guard_index(self, key):
        key = [k for k in key if not (isinstance(k, slice) and k == slice(None))]
        if not key:
            return self
        if len(key) == 1 and self.ndim == 1 and isinstance(key[0], SNum) and isinstance(key[0].parts, GParts) \
                and len(key[0].parts) == len(self.exts) and same_guard(self, key[0].parts.guard, self.exts):
            return snum(self.fn()(tuple(key[0].parts)), self.kind)
        raise Unsupported('indexing a compressed array by position')

    def _adv(self, key):
        # boolean mask over all axes
        if len(key) == 1 and isinstance(key[0], SArr) and key[0].kind == 'bool' and key[0].ndim == self.ndim:
            return self.compress(key[0])
        if isinstance(key[0], SArr) and key[0].kind == 'bool' and key[0].ndim == 1 and self.ndim >= 1 and all(
                k == slice(None) for k in key[1:] if isinstance(k, slice)) and len(key) == self.ndim and self.ndim > 1:
            raise Unsupported('mask over a leading axis')
        # one integer index array (1-d or n-d), everything else slices / integers
        from . import npmodel
        key = [npmodel.array(k) if isinstance(k, (list, SList)) else k for k in key]
        arrs = [j for j, k in enumerate(key) if isinstance(k, SArr)]
        if any(key[j].kind == 'bool' for j in arrs):
            raise Unsupported('partial boolean mask')
        if len(arrs) > 1:
            return self._adv_multi(key, arrs)
        j = arrs[0]
        ia = key[j]
        pre = self
        front = False
        ints = [q for q, k in enumerate(key) if not isinstance(k, (slice, SArr)) and k is not None]
        if ints and not (ints == list(range(j + 1, j + 1 + len(ints))) or ints == list(range(j - len(ints), j))):
            front = True
        if any(k is None for k in key):
            raise Unsupported('newaxis with an index array')
        # apply the other keys first
        key2 = [slice(None) if isinstance(k, SArr) else k for k in key]
        pre = self[tuple(key2)]
        ax = sum(1 for k in key2[:j] if isinstance(k, slice))
        a = pre.axes[ax]
        f, g = pre.fn(), ia.fn()
        if pre.guard is not None:
            raise Unsupported('gather from a compressed array')
        p0 = sum(len(x) for x in pre.axes[:ax])
        ni = len(ia.exts)
        parts_fn = getattr(ia, 'parts_fn', None)

        def elem(idx):
            if front:                                   # numpy puts the axes of separated index arrays first
                mid, head, tail = idx[:ni], idx[ni:ni + p0], idx[ni + p0:]
            else:
                head, mid, tail = idx[:p0], idx[p0:p0 + ni], idx[p0 + ni:]
            if parts_fn is not None:
                pt = parts_fn(mid)
                if len(pt) != len(a):
                    raise Unsupported('index array of another axis')
            else:
                v = g(mid)[0]
                if len(a) == 1:
                    pt = (wrap_neg(v, a[0]),)
                elif len(a) == 0:
                    pt = ()
                else:
                    pt = divmod_parts(v, a)
            return f(tuple(head) + tuple(pt) + tuple(tail))
        axes = list(ia.axes) + pre.axes[:ax] + pre.axes[ax + 1:] if front else pre.axes[:ax] + list(ia.axes) + pre.axes[ax + 1:]
        if ia.guard is not None and len(axes) != 1:
            raise Unsupported('gather with a compressed index')
        if not axes:
            return snum(elem(()), pre.kind)
        return SArr.new(axes, elem, pre.kind, ia.guard)

    def _adv_multi(self, key, arrs):
        from . import npmodel
        if arrs != list(range(self.ndim)) or len(key) != self.ndim:
            raise Unsupported('several index arrays')
        ks = npmodel.broadcast_arrays(*[key[j] for j in arrs])
        fs = [k.fn() for k in ks]
        f = self.fn()
        axes = self.axes

        def elem(idx):
            out = []
            for a, g in zip(axes, fs):
                v = g(idx)[0]
                out += list((wrap_neg(v, a[0]),) if len(a) == 1 else () if not a else divmod_parts(v, a))
            return f(tuple(out))
        return SArr.new(ks[0].axes, elem, self.kind)

    def compress(self, mask):
        a, m = align(self, mask)
        f, g = a.fn(), m.fn()
        ax = tuple(a.exts)
        g0 = a.guard

        def guard(idx):
            t = tobool(g(idx))
            return T.and_(g0(idx), t) if g0 is not None else t
        return SArr.new([ax], f, self.kind, guard)

    def __setitem__(self, key, value):
        if isinstance(key, WhereTuple):
            key = key.mask
        if isinstance(key, SArr) and key.kind == 'bool':
            return self._set_mask(key, value)
        if isinstance(key, (list, SList)):
            from . import npmodel
            key = npmodel.array(key)
        nk = self._norm_key(key)
        if self.guard is not None:
            raise Unsupported('write into a compressed array by position')
        if any(isinstance(k, SArr) for k in nk):
            raise Unsupported('write through an index array')
        axes, m, newk, ax, old = [], {}, 0, 0, 0
        for k in nk:
            if ax >= self.ndim:
                raise IndexError('too many indices for array')
            a = self.axes[ax]
            if isinstance(k, slice):
                a2, ms = self._slice(a, k)
                for j, mm in enumerate(ms):
                    m[old + j] = (mm[0], newk + mm[1], mm[2]) if mm[0] in 'ir' else mm
                newk += len(a2)
                axes.append(a2)
            else:
                for j, p in enumerate(index_parts(a, k)):
                    m[old + j] = ('f', p)
            old += len(a)
            ax += 1
        view = SArr(self.buf, axes, compose(self.src, m), None, self.maybe_copy)
        view.write_all(value)

    def _set_mask(self, mask, value):
        a, m = align(self, mask)
        g = m.fn()
        old = self.fn()
        if isinstance(value, (list, SList)):
            from . import npmodel
            value = npmodel.array(value)
        if is_scalar(value):
            v, n, k = lift(value)
            vf = lambda idx: (v, n)
        elif isinstance(value, SArr) and value.ndim == 0:
            vf0 = value.fn()
            vf = lambda idx: vf0(())
            k = value.kind
        elif isinstance(value, SArr) and value.guard is not None:
            if not same_guard(value, lambda idx: tobool(g(idx)), a.exts):
                raise Unsupported('masked write of values selected by another mask')
            vf = value.fn()
            k = value.kind
        else:
            raise Unsupported('masked write of an unrelated array')
        k0 = self.kind
        new = SArr.new(self.axes, lambda idx: e_ite(tobool(g(idx)), cast(vf(idx), k, k0) if k0 != 'bool' else vf(idx), old(idx)), k0)
        new_guard = self.guard
        SArr(new.buf, self.axes, new.src, new_guard)
        self._store(new.fn())

    def write_all(self, value):
        if isinstance(value, (list, tuple, SList)):
            from . import npmodel
            value = npmodel.array(value)
        if is_scalar(value):
            v, n, k = lift(value)
            f = lambda idx: (v, n)
        else:
            a = broadcast_to(value, self.axes)
            if value.guard is not None and self.guard is None:
                raise Unsupported('write of a compressed array')
            f, k = a.fn(), value.kind
        k0 = self.kind
        self._store(lambda idx: cast(f(idx), k, k0))

    def _store(self, f):
        """assign f(view index) to every element of this view"""
        b, src, exts = self.buf, self.src, self.exts
        old = b.elem
        note_write(self)
        full = all(s[0] == 'i' and s[2] is None for s in src) and sorted(s[1] for s in src) == list(range(len(exts)))
        if not full:
            for s in src:
                if s[0] == 'i' and s[2] is None and b.exts[src.index(s)] is not exts[s[1]]:
                    full = False

        def elem(bi):
            idx = [None] * len(exts)
            cond = []
            for j, s in enumerate(src):
                if s[0] == 'f':
                    cond.append(c_eq(bi[j], s[1]))
                elif s[0] == 'i':
                    p = bi[j] if s[2] is None else T.sub(bi[j], s[2])
                    if s[2] is not None:
                        cond.append(c_le(T.const(0), p))
                    if b.exts[j] is not exts[s[1]]:
                        cond.append(c_lt(p, exts[s[1]]))
                    idx[s[1]] = p
                else:
                    idx[s[1]] = T.sub(s[2], bi[j])
            c = T.and_(*cond)
            if c is FALSE:
                return old(bi)
            return e_ite(c, f(tuple(idx)), old(bi))
        b.elem = elem

    def sort(self, axis=-1, **k):
        from . import npmodel
        r = npmodel.sort(self, axis)
        self.write_all(r)

    def fill(self, v):
        self.write_all(v)

    def flush(self):
        pass

    def setflags(self, **k):
        pass

    def round(self, decimals=0):
        from . import npmodel
        return npmodel.NP['round'](self, decimals)

    def any(self, axis=None, **k):
        from . import npmodel
        return npmodel.any_(self, axis, **k)

    def all(self, axis=None, **k):
        from . import npmodel
        return npmodel.all_(self, axis, **k)

    def __getattr__(self, name):
        from . import npmodel
        if name in ('sum', 'mean', 'min', 'max', 'var', 'std', 'prod', 'argsort', 'clip', 'round', 'cumsum', 'repeat', 'take',
                    'nonzero', 'dot', 'argmax', 'argmin', 'searchsorted', 'ptp', 'diagonal'):
            f = npmodel.NP.get(name)
            if f is None:
                raise Unsupported('ndarray.' + name)
            return lambda *a, **k: f(self, *a, **k)
        if name == '__array__' or name.startswith('__'):
            raise AttributeError(name)
        if name in _ND_ATTRS:
            raise Unsupported('ndarray.' + name)
        raise AttributeError("'numpy.ndarray' object has no attribute '%s'" % name)


_ND_ATTRS = {'base', 'ctypes', 'imag', 'real', 'itemsize', 'byteswap', 'choose', 'compress', 'conj', 'dump', 'partition', 'put', 'tobytes',
             'trace', 'view', 'resize', 'argpartition', 'cumprod', 'tostring', 'newbyteorder'}


class WhereTuple(tuple):
    def __new__(cls, mask, arrs):
        t = tuple.__new__(cls, arrs)
        t.mask = mask
        return t


def _unsup(m):
    raise Unsupported(m)


def note_write(a):
    c = CUR
    if a.buf.owner is not None:
        c.events.append(('write', a.buf.owner, a.buf.name, a.maybe_copy))
    for l in c.loops:
        if not any(l is b for b in a.buf.born):
            l.on_write(a.buf)


def prod(exts):
    return T.mul(*exts) if exts else T.const(1)


class GParts(tuple):
    """index terms of an element known to be selected by a guard"""
    guard = None


def counted(n, exts, guard):
    if isinstance(n, SNum):
        n.count = (tuple(exts), guard)
    return n


def selected_range(n):
    """range(number of selected elements): one position per selected element, in order"""
    exts, guard = n.count

    def item(idx):
        p = GParts(idx)
        p.guard = guard
        return SNum(T.uf('position', (n.v,) + tuple(idx), 'I'), FALSE, 'int', parts=p)
    return SList(exts, item, guard=lambda idx: guard(tuple(idx)))


def ext_int(ax):
    v = prod(ax)
    return mkint(v, ext=tuple(ax))


def compose(src, m):
    out = []
    for s in src:
        if s[0] == 'f':
            out.append(s)
            continue
        mm = m[s[1]]
        if s[0] == 'i':
            if mm[0] == 'i':
                off = s[2] if mm[2] is None else mm[2] if s[2] is None else T.add(s[2], mm[2])
                out.append(('i', mm[1], off))
            elif mm[0] == 'r':
                out.append(('r', mm[1], mm[2] if s[2] is None else T.add(mm[2], s[2])))
            else:
                out.append(('f', mm[1] if s[2] is None else T.add(mm[1], s[2])))
        else:
            if mm[0] == 'i':
                out.append(('r', mm[1], s[2] if mm[2] is None else T.sub(s[2], mm[2])))
            elif mm[0] == 'r':
                out.append(('i', mm[1], T.sub(s[2], mm[2])))
            else:
                out.append(('f', T.sub(s[2], mm[1])))
    return tuple(out)


def slice_bound(x, n, default):
    if x is None:
        return default
    v, _, k = lift(x)
    if k == 'float':
        raise TypeError('slice indices must be integers or None or have an __index__ method')
    if T.is_const(v):
        c = int(T.cval(v))
        if c >= 0:
            if T.is_const(n):
                return T.const(min(c, int(T.cval(n))))
            if c == 0:
                return T.const(0)
            l = lowb(n)
            if l is not None and c <= l:
                return v
            if branch(T.le(v, n)):
                return v
            return n
        if T.is_const(n):
            return T.const(max(0, int(T.cval(n)) + c))
        l = lowb(n)
        if l is not None and -c <= l:
            return T.add(n, v)
        if branch(T.le(T.neg(v), n)):
            return T.add(n, v)
        return T.const(0)
    if branch(T.le(T.const(0), v)):
        if branch(T.le(v, n)):
            return v
        return n
    if branch(T.le(T.neg(v), n)):
        return T.add(n, v)
    return T.const(0)


def wrap_neg(v, ext):
    if T.is_const(v):
        return v if T.cval(v) >= 0 else T.add(ext, v)
    l = lowb(v)
    if l is not None and l >= 0:
        return v
    return v if SOLVER.decide(T.le(T.const(0), v), hyps()) else T.ite(T.le(T.const(0), v), v, T.add(ext, v))


def divmod_parts(v, a):
    out = []
    rest = v
    for k in range(len(a) - 1):
        d = prod(a[k + 1:])
        q = T.uf('idiv', (rest, d), 'I')
        out.append(q)
        rest = T.sub(rest, T.mul(q, d))
    out.append(rest)
    return tuple(out)


def index_parts(a, k):
    """index k of an axis with atoms a -> atom indices"""
    if isinstance(k, SArr) and k.ndim == 0:
        k = k.scalar()
    v, nan, kind = lift(k)
    if kind == 'float':
        raise IndexError('only integers, slices, ellipsis, newaxis and integer or boolean arrays are valid indices')
    if kind == 'bool':
        raise Unsupported('boolean scalar index')
    if isinstance(k, SNum) and k.parts is not None and len(k.parts) == len(a):
        return k.parts
    n = prod(a)
    if T.is_const(v):
        c = int(T.cval(v))
        if T.is_const(n):
            N = int(T.cval(n))
            if not -N <= c < N:
                raise IndexError('index %d is out of bounds for axis with size %d' % (c, N))
            v = T.const(c % N)
        else:
            need = T.const(c + 1 if c >= 0 else -c)
            l = lowb(T.sub(n, need))
            if not (l is not None and l >= 0) and not branch(T.le(need, n)):
                raise IndexError('index %d is out of bounds' % c)
            if c < 0:
                if len(a) == 1:
                    return (T.add(a[0], v),)
                if c == -1:
                    return tuple(T.sub(e, T.const(1)) for e in a)
                raise Unsupported('negative index into a merged axis')
            if c == 0:
                return tuple(T.const(0) for _ in a)
        if len(a) == 1:
            return (v,)
        if len(a) == 0:
            return ()
        if T.is_const(n):
            c = int(T.cval(v))
            out = []
            for e in reversed(a):
                out.append(T.const(c % int(T.cval(e))))
                c //= int(T.cval(e))
            return tuple(reversed(out))
        raise Unsupported('index into a merged axis')
    if len(a) == 1:
        l = lowb(v)
        if l is None or l < 0:
            if not branch(T.le(T.const(0), v)):
                v = T.add(v, n)
        u = lowb(T.sub(T.sub(n, v), T.const(1)))
        if (u is None or u < 0) and not (isinstance(k, SNum) and k.parts is not None):
            if not branch(T.lt(v, n)):
                raise IndexError('index out of bounds')
        return (v,)
    if len(a) == 0:
        if not branch(T.eq(v, T.const(0))):
            raise IndexError('index out of bounds')
        return ()
    return divmod_parts(v, a)


def split_exts(exts, shape):
    """distribute atoms over the target shape (row-major), both from the left and from the right"""
    def val(s):
        v, _, k = lift(s)
        return v
    tgt = []
    for s in shape:
        if isinstance(s, int) and s == -1:
            tgt.append(None)
        else:
            tgt.append(val(s))
    if sum(t is None for t in tgt) > 1:
        raise ValueError('can only specify one unknown dimension')
    left, right, res = list(exts), [], [None] * len(tgt)
    one = T.const(1)

    def take(lst, t, fromleft):
        acc, p = [], one
        if T.is_const(t) and T.cval(t) == 1:
            return ()
        while True:
            if not lst:
                return None
            e = lst.pop(0) if fromleft else lst.pop()
            acc = acc + [e] if fromleft else [e] + acc
            p = T.mul(p, e)
            if p is t:
                return tuple(acc)
            if T.is_const(p) and T.is_const(t) and T.cval(p) > T.cval(t):
                # split a constant atom
                raise Unsupported('reshape splitting a constant axis')
    hole = tgt.index(None) if None in tgt else len(tgt)
    for k in range(hole):
        save = list(left)
        r = take(left, tgt[k], True)
        if r is None:
            left = save
            r = _split_const(left, tgt[k:], k, res, tgt)
            if r is None:
                _reshape_fail(exts, tgt)
            return r
        res[k] = r
    for k in range(len(tgt) - 1, hole, -1):
        r = take(left, tgt[k], False)
        if r is None:
            _reshape_fail(exts, tgt)
        res[k] = r
    if hole < len(tgt):
        res[hole] = tuple(left)
    elif left:
        if all(T.is_const(e) and T.cval(e) == 1 for e in left):
            pass
        else:
            _reshape_fail(exts, tgt)
    return [tuple(r) for r in res]


def _split_const(left, tg, k, res, tgt):
    return None


def _reshape_fail(exts, tgt):
    if None not in tgt:
        a, b = prod(exts), T.mul(*tgt) if tgt else T.const(1)
        d = SOLVER.decide(T.eq(a, b), hyps())
        if d is False:
            raise ValueError('cannot reshape array')
    raise Unsupported('reshape %s to %s' % ([repr(e) for e in exts], [repr(t) for t in tgt]))


def as_arr(x):
    if isinstance(x, SArr):
        return x
    if is_scalar(x):
        v, n, k = lift(x)
        return SArr.new([], lambda idx: (v, n), k)
    from . import npmodel
    return npmodel.array(x)


def axis_eq(a, b):
    """are two axes equally long (with the same atoms)?"""
    if a == b:
        return True
    if prod(a) is prod(b):
        if len(a) == len(b) or True:
            return None                           # equal length, different factors
    return False


def merge_axes(a, b, la, lb):
    """broadcast two axes: returns (axis, map_a, map_b) where map takes atom indices of the result"""
    if a == b:
        return a, (lambda p: p), (lambda p: p)
    if a == ():
        return b, (lambda p: ()), (lambda p: p)
    if b == ():
        return a, (lambda p: p), (lambda p: ())
    pa, pb = prod(a), prod(b)
    one = T.const(1)
    for x, y, sw in ((a, b, False), (b, a, True)):
        px = prod(x)
        if T.is_const(px) and T.cval(px) == 1:
            z = tuple(T.const(0) for _ in x)
            return (y, (lambda p: z), (lambda p: p)) if not sw else (y, (lambda p: p), (lambda p: z))
    if pa is pb or SOLVER.decide(T.eq(pa, pb), hyps()):
        if len(a) == 1 and len(b) == 1:
            return a, (lambda p: p), (lambda p: p)
        if len(a) >= len(b):
            return a, (lambda p: p), (lambda p: recombine(p, a, b))
        return b, (lambda p: recombine(p, b, a)), (lambda p: p)
    # undecided extents: numpy broadcasting depends on whether they are equal or one of them is 1
    if branch(T.eq(pa, pb)):
        if len(a) == len(b) == 1:
            return a, (lambda p: p), (lambda p: p)
        if len(a) >= len(b):
            return a, (lambda p: p), (lambda p: recombine(p, a, b))
        return b, (lambda p: recombine(p, b, a)), (lambda p: p)
    if branch(T.eq(pa, one)):
        return b, (lambda p: tuple(T.const(0) for _ in a)), (lambda p: p)
    if branch(T.eq(pb, one)):
        return a, (lambda p: p), (lambda p: tuple(T.const(0) for _ in b))
    raise ValueError('operands could not be broadcast together')


def recombine(p, frm, to):
    if len(to) == 1:
        v = T.const(0)
        for x, e in zip(p, frm):
            v = T.add(T.mul(v, e), x)
        return (v,)
    p, frm, to = tuple(p), tuple(frm), tuple(to)
    if not to or not frm:
        return tuple(T.const(0) for _ in to)
    if frm[-1] is to[-1]:
        return recombine(p[:-1], frm[:-1], to[:-1]) + (p[-1],)
    if frm[0] is to[0]:
        return (p[0],) + recombine(p[1:], frm[1:], to[1:])
    v = recombine(p, frm, (None,))[0]
    out = []
    for e in to[:0:-1]:
        q = T.uf('idiv', (v, e), 'I')
        out.append(T.sub(v, T.mul(q, e)))
        v = q
    return (v,) + tuple(reversed(out))


def align(*arrs):
    """broadcast to a common shape; returns arrays with identical axes"""
    arrs = [as_arr(a) for a in arrs]
    if all(a.axes == arrs[0].axes for a in arrs):
        g = [a.guard for a in arrs if a.guard is not None]
        if len(g) and len(g) != len(arrs):
            raise Unsupported('compressed array combined with a full one')
        for a in arrs[1:]:
            if a.guard is not None and a.guard is not arrs[0].guard and not same_guard(a, arrs[0].guard, arrs[0].exts):
                raise Unsupported('arrays selected by different masks')
        return arrs
    n = max(a.ndim for a in arrs)
    if any(a.guard is not None for a in arrs):
        full = [a for a in arrs if a.exts or a.ndim]
        if any(a.guard is None for a in full):
            raise Unsupported('compressed array combined with a full one')
        ax = full[0].axes
        out = []
        for a in arrs:
            if a.exts or a.ndim:
                if a.axes != ax or not same_guard(a, full[0].guard, full[0].exts):
                    raise Unsupported('arrays selected by different masks')
                out.append(a)
            else:
                f = a.fn()
                out.append(SArr.new(ax, (lambda idx, f=f: f(())), a.kind, full[0].guard))
        return out
    axes = [()] * n
    maps = [[None] * n for _ in arrs]
    for k in range(n):
        cur_ax, fs = None, []
        for j, a in enumerate(arrs):
            kk = k - (n - a.ndim)
            ax = a.axes[kk] if kk >= 0 else ()
            if cur_ax is None:
                cur_ax = ax
                maps[j][k] = (lambda p: p)
                fs.append(j)
            else:
                new, ma, mb = merge_axes(cur_ax, ax, None, None)
                if new != cur_ax:
                    for q in fs:
                        maps[q][k] = comp1(maps[q][k], ma)
                else:
                    for q in fs:
                        maps[q][k] = comp1(maps[q][k], ma)
                cur_ax = new
                maps[j][k] = mb
                fs.append(j)
        axes[k] = cur_ax
    sizes = [len(a) for a in axes]
    out = []
    for j, a in enumerate(arrs):
        f = a.fn()

        def elem(idx, f=f, j=j, a=a):
            p = 0
            res = []
            for k in range(n):
                part = tuple(idx[p:p + sizes[k]])
                p += sizes[k]
                if k - (n - a.ndim) >= 0:
                    res += list(maps[j][k](part))
            return f(tuple(res))
        out.append(SArr.new(axes, elem, a.kind))
    return out


def comp1(f, g):
    return lambda p: f(g(p))


def broadcast_to(v, axes):
    v = as_arr(v)
    if v.axes == list(axes):
        return v
    if v.ndim > len(axes):
        # numpy allows leading unit axes in assignments
        while v.ndim > len(axes) and v.axes[0] == ():
            v = SArr(v.buf, v.axes[1:], v.src, v.guard)
        if v.ndim > len(axes):
            raise ValueError('could not broadcast input array')
    tgt = SArr.new(axes, lambda idx: (T.const(0), FALSE), 'int')
    a, b = align(v, tgt)
    if [prod(x) for x in a.axes] != [prod(x) for x in axes]:
        raise ValueError('could not broadcast input array')
    if a.axes != list(axes):
        raise Unsupported('broadcast with other factors')
    return a


def same_guard(a, g, exts):
    if a.exts != list(exts):
        return False
    vs = tuple(T.fresh('i') for _ in exts)
    x, y = a.guard(vs), g(vs)
    if x is y:
        return True
    H = hyps() + [T.and_(T.le(T.const(0), v), T.lt(v, e)) for v, e in zip(vs, exts)]
    return SOLVER.decide(T.iff(x, y), H) is True


def elementwise(f, kf, *xs):
    arrs = align(*xs) if len(xs) > 1 else [as_arr(xs[0])]
    fs = [a.fn() for a in arrs]
    k = kf(*[a.kind for a in arrs])
    g = next((a.guard for a in arrs if a.guard is not None), None)
    r = SArr.new(arrs[0].axes, memo_elem(lambda idx: f(*[h(idx) for h in fs])), k, g)
    if r.ndim == 0:
        return snum(r.fn()(()), k, pypy=False)
    return r


def memo_elem(f):
    memo = {}

    def g(idx):
        r = memo.get(idx)
        if r is None:
            r = f(idx)
            memo[idx] = r
        return r
    return g


# ---------------------------------------------------------------- lists with a symbolic number of items
class SList:
    """list whose items are item(idx) for idx over the product of exts; unordered: in an unknown order"""

    def __init__(self, exts, item, unordered=False, guard=None):
        self.exts, self._item, self.unordered, self.guard = tuple(exts), item, unordered, guard
        self.born = tuple(CUR.loops)
        self.init = None

    @staticmethod
    def of_array(a):
        ax = a.axes[0]
        if a.guard is not None and a.ndim == 1:
            return SList(ax, lambda idx: snum(a.fn()(tuple(idx)), a.kind), guard=a.guard)
        return SList(ax, lambda idx: a[SNum(T.const(0), FALSE, 'int', parts=tuple(idx))] if ax else a[0], guard=a.guard)

    def item(self, idx):
        return self._item(tuple(idx))

    def length(self):
        if self.guard is not None:
            vs = [T.fresh('i') for _ in self.exts]
            return mkint(T.sum_(list(zip(vs, self.exts)), T.ind(self.guard(tuple(vs)))))
        return ext_int(self.exts)

    text = None

    def __str__(self):
        if self.text is None:
            raise Unsupported('text of a symbolic list')
        return arr_token(self.text)

    def __format__(self, spec):
        return str(self)

    def __len__(self):
        n = self.length()
        if isinstance(n, int):
            return n
        raise Unsupported('len() of a symbolic list')

    def __bool__(self):
        n = self.length()
        return bool(n != 0) if not isinstance(n, int) else n != 0

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k == slice(None):
                return SList(self.exts, self._item, self.unordered, self.guard)
            if k == slice(None, None, -1) and len(self.exts) == 1 and not self.unordered and self.guard is None:
                n, item = self.exts[0], self._item
                return SList(self.exts, lambda idx: item((T.sub(T.sub(n, T.const(1)), idx[0]),)))
            raise Unsupported('slice of a symbolic list')
        if self.unordered and self.guard is None:
            return in_order(self)[k]
        if self.guard is not None:
            raise Unsupported('position in an unordered or filtered list')
        parts = index_parts(self.exts, k)
        return self.item(parts)

    def __setitem__(self, k, v):
        if self.unordered or self.guard is not None:
            raise Unsupported('write into an unordered list')
        parts = index_parts(self.exts, k)
        old = self._item
        for l in CUR.loops:
            if not any(l is b for b in self.born):
                l.on_list(self)

        def item(idx):
            c = T.and_(*[c_eq(a, b) for a, b in zip(idx, parts)])
            if c is TRUE:
                return v
            if c is FALSE:
                return old(idx)
            return merge([(c, v), (TRUE, old(idx))])
        self._item = item
        self.lastwrite = (parts, v)

    def append(self, v):
        raise Unsupported('append to a list of symbolic length')

    def sort(self, *a, **k):
        raise Unsupported('sort of a symbolic list')

    def __iter__(self):
        n = self.length()
        if isinstance(n, int) and not self.unordered and self.guard is None:
            return iter([self[k] for k in range(n)])
        raise Unsupported('native iteration over a symbolic list')

    def __mul__(self, o):
        raise Unsupported('repeat of a symbolic list')

    def __add__(self, o):
        raise Unsupported('concatenation of symbolic lists')

    __radd__ = __add__


class SRange(SList):
    def __init__(self, n):
        self.n = n
        ext = n.ext if n.ext is not None else (n.v,)
        super().__init__(ext, lambda idx: SNum(recombine(idx, ext, (prod(ext),))[0] if len(ext) != 1 else idx[0], FALSE, 'int', parts=tuple(idx)))


class Distinct(SList):
    """the distinct values of an array (or their positions), each once"""

    def __init__(self, u, positions):
        self.u, self.positions = u, positions
        super().__init__((), self._no)

    def _no(self, idx):
        raise Unsupported('list of distinct values')

    def length(self):
        raise Unsupported('number of distinct values')

    def value(self, v):
        k = self.u.src.kind
        if self.positions:
            return SNum(T.uf('position', (v,), 'I'), FALSE, 'int', parts=(v,), pypy=('uniq', self.u))
        return SNum(v, FALSE, k, pypy=False)


def list_repeat(l, n):
    if len(l) != 1:
        raise Unsupported('repeat of a longer list')
    ext = n.ext if n.ext is not None else (n.v,)
    x = l[0]
    return SList(ext, lambda idx: x)


def in_order(x):
    """an unordered list, seen in the order its items happen to arrive: an arbitrary one (to be proved for) of which
    a late first item is one that can occur (to look for counter-models with)"""
    if not x.unordered:
        return x
    if x.guard is not None or len(x.exts) != 1:
        raise Unsupported('order of a filtered list')
    if getattr(x, 'arrival', None) is None:
        n, nm = x.exts[0], CUR.name('urandorder')

        def perm(i):
            return T.ite(T.var('first item arrives last', 'B'), T.ite(T.lt(T.add(i, T.const(1)), n), T.add(i, T.const(1)), T.const(0)), T.uf(nm, (i,), 'I'))
        x.arrival = SList(x.exts, lambda idx: x.item((perm(idx[0]),)))
    return x.arrival


def to_iter(x):
    """symbolic view of an iterable (SList), or a concrete python iterable"""
    if isinstance(x, Distinct):
        return x
    if isinstance(x, SList):
        n = x.length()
        if isinstance(n, int) and not x.unordered and x.guard is None and n <= 64:
            return [x[k] for k in range(n)]
        return x
    if hasattr(type(x), 'as_distinct'):
        return x.as_distinct()
    if isinstance(x, SArr):
        if x.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        n = x.axis_len(0)
        if isinstance(n, int):
            return list(x)
        return SList.of_array(x)
    return x


def merge(cases):
    """[(condition, value)] (last condition is the default) -> one value"""
    vals = [v for _, v in cases]
    first = vals[0]
    if all(v is first for v in vals):
        return first
    if all(is_scalar(v) for v in vals):
        ks = [lift(v)[2] for v in vals]
        k = ks[0]
        for q in ks[1:]:
            k = resk(k, q) if q != k else k
        r = None
        for c, v in reversed(cases):
            x, n, kk = lift(v)
            e = cast((x, n), kk, k) if kk != k else (x, n)
            r = e if r is None else e_ite(c, e, r)
        return snum(r, k)
    if all(isinstance(v, (list, tuple)) for v in vals) and len({len(v) for v in vals}) == 1:
        t = type(first)
        return t(merge([(c, v[j]) for c, v in cases]) for j in range(len(first)))
    if all(isinstance(v, SArr) for v in vals) and all(v.axes == first.axes and v.guard is None for v in vals):
        fs = [v.fn() for v in vals]
        cs = [c for c, _ in cases]
        k = vals[0].kind
        for v in vals[1:]:
            k = resk(k, v.kind) if v.kind != k else k

        def elem(idx):
            r = None
            for c, f, v in reversed(list(zip(cs, fs, vals))):
                e = cast(f(idx), v.kind, k) if v.kind != k else f(idx)
                r = e if r is None else e_ite(c, e, r)
            return r
        return SArr.new(first.axes, elem, k)
    if all(isinstance(v, str) for v in vals):
        if all(v == first for v in vals):
            return first
        return strtoken(('ite', tuple(cases)))
    if any(v is None for v in vals):
        return Maybe(cases)
    raise Unsupported('values of different shape on different branches')


class Maybe:
    """a value known only per condition"""

    def __init__(self, cases):
        self.cases = cases

    def __getattr__(self, n):
        raise Unsupported('use of a conditional value')


# ---------------------------------------------------------------- loops over symbolic iterables
class Loop:
    """one symbolic loop: generic index variables, local decisions, effects of one body execution"""

    def __init__(self, exts, vars_, guard=None):
        self.exts, self.vars, self.guardt = exts, vars_, guard
        self.dec, self.pos, self.taken, self.forks, self.conds = [], 0, [], [], []
        self.saved = {}                           # buffer -> element function at loop start
        self.lists = {}
        self.appends = {}

    def facts(self):
        f = [T.and_(T.le(T.const(0), v), T.lt(v, e)) for v, e in zip(self.vars, self.exts)]
        if self.guardt is not None:
            f.append(self.guardt)
        return f + self.conds

    def local_branch(self, t):
        if self.pos < len(self.dec):
            b = self.dec[self.pos]
        else:
            b = True
            self.forks.append(self.taken + [False])
        self.pos += 1
        self.taken.append(b)
        self.conds.append(t if b else T.not_(t))
        if self.pos > 60:
            raise Unsupported('too many decisions in a loop body')
        return b

    def on_write(self, buf):
        if buf not in self.saved:
            self.saved[buf] = buf.elem

    def on_list(self, l):
        if id(l) not in self.lists:
            self.lists[id(l)] = (l, l._item)


def generic(exts):
    return tuple(T.fresh('i') for _ in exts)


def index_num(exts, vs):
    v = vs[0] if len(vs) == 1 else recombine(vs, exts, (prod(exts),))[0] if vs else T.const(0)
    return SNum(v, FALSE, 'int', parts=tuple(vs))


def explore_local(exts, vs, fn, guard=None):
    """run fn() at the generic index vs; returns [(condition, result, loop)] over the local paths"""
    pend, out = [[]], []
    while pend:
        l = Loop(exts, vs, guard)
        l.dec = pend.pop()
        CUR.loops.append(l)
        try:
            try:
                r = fn()
            finally:
                CUR.loops.pop()
        except Unsupported:
            raise
        except Exception as e:
            if getattr(e, 'pyvc_fault', False):
                raise
            if any(True for c in l.conds):
                raise Unsupported('a loop body raises %s for some index only' % type(e).__name__)
            if l.forks:
                raise Unsupported('a loop body raises for some index only')
            raise
        if l.saved or l.lists:
            l.effects = [(b, old, b.elem) for b, old in l.saved.items()]
            for b, old in l.saved.items():
                b.elem = old
            l.leffects = [(li, old, li._item, getattr(li, 'lastwrite', None)) for li, old in l.lists.values()]
            for li, old in l.lists.values():
                li._item = old
        else:
            l.effects, l.leffects = [], []
        out.append((T.and_(*l.conds), r, l))
        pend += l.forks
        if len(out) > 40:
            raise Unsupported('too many paths in a loop body')
    return out


def settled(run):
    """the paths of one item of a comprehension; attributes the body sets are unreadable from then on
    (unless the object was made by the body itself)"""
    from .loader import Poison
    res = run()
    if any(getattr(l, 'attrs', None) for _, _, l in res):
        for again in (True, False):
            for _, _, l in res:
                for key, (o, old) in getattr(l, 'attrs', {}).items():
                    setattr(o, key[1], Poison('attribute set in a comprehension'))
            if again:
                res = run()
    if any(l.appends for _, _, l in res):
        raise Unsupported('list changed inside a comprehension')
    return res


def map_list(fn, it):
    """[fn(x) for x in it] for a symbolic iterable without other effects"""
    if isinstance(it, Distinct):
        raise Unsupported('list over distinct values')
    vs = generic(it.exts)
    x = it.item(vs)
    g = it.guard(vs) if it.guard is not None else None
    res = settled(lambda: explore_local(it.exts, vs, lambda: fn(x), g))
    fold_effects(it, vs, [(c, l) for c, _, l in res])
    val = res[0][1] if len(res) == 1 else merge([(c, r) for c, r, _ in res])
    return SList(it.exts, subst_closure(val, vs), it.unordered, it.guard)


def filter_map(fn, cond, it):
    vs = generic(it.exts)
    x = it.item(vs)
    g = it.guard(vs) if it.guard is not None else None

    def both():
        return bool(cond(x))
    res = explore_local(it.exts, vs, both, g)
    if any(l.effects or l.leffects for _, _, l in res):
        raise Unsupported('effects in a filter')
    keep = T.or_(*[c for c, r, _ in res if r])
    g2 = T.and_(g, keep) if g is not None else keep
    res = settled(lambda: explore_local(it.exts, vs, lambda: fn(x), g2))
    fold_effects(it, vs, [(c, l) for c, _, l in res])
    val = res[0][1] if len(res) == 1 else merge([(c, r) for c, r, _ in res])
    gc = lambda idx: T.subst(g2, dict(zip(vs, idx)))
    return SList(it.exts, subst_closure(val, vs), it.unordered, gc)


def subst_closure(val, vs):
    """val computed at the generic index vs -> function of the index"""
    return lambda idx: subst_val(val, dict(zip(vs, idx)))


def subst_val(val, m):
    m = {k: v for k, v in m.items() if k is not v}
    if not m:
        return val
    if isinstance(val, SNum):
        return SNum(T.subst(val.v, m), T.subst(val.nan, m), val.kind,
                    tuple(T.subst(e, m) for e in val.ext) if val.ext is not None else None,
                    subst_parts(val.parts, m) if val.parts is not None else None, val.pypy)
    if isinstance(val, SArr):
        f = val.fn()
        ms = list(m)

        def elem(idx):
            fr = {}
            # index terms may mention the variables being replaced: protect them
            tmp = tuple(T.fresh('i') for _ in idx)
            e = f(tmp)
            m2 = dict(m)
            m2.update(zip(tmp, idx))
            return simsub(e[0], m2), simsub(e[1], m2)
        axes = [tuple(T.subst(e, m) for e in a) for a in val.axes]
        g = None
        if val.guard is not None:
            g0 = val.guard

            def g(idx):
                tmp = tuple(T.fresh('i') for _ in idx)
                m2 = dict(m)
                m2.update(zip(tmp, idx))
                return simsub(g0(tmp), m2)
        r = SArr.new(axes, memo_elem(elem), val.kind, g)
        pf = getattr(val, 'parts_fn', None)
        if pf is not None:
            def parts(idx):
                tmp = tuple(T.fresh('i') for _ in idx)
                m2 = dict(m)
                m2.update(zip(tmp, idx))
                return tuple(simsub(p, m2) for p in pf(tmp))
            r.parts_fn = parts
        return r
    if isinstance(val, SList):
        return SList([T.subst(e, m) for e in val.exts],
                     lambda idx: subst_list_item(val, idx, m), val.unordered,
                     (lambda idx: T.subst(val.guard(idx), m)) if val.guard is not None else None)
    if isinstance(val, str):
        return text_subst(val, m)
    if isinstance(val, tuple) and type(val) is tuple:
        return tuple(subst_val(x, m) for x in val)
    if isinstance(val, list):
        return [subst_val(x, m) for x in val]
    if isinstance(val, dict):
        return {k: subst_val(x, m) for k, x in val.items()}
    if isinstance(val, (int, float, str, bool, type(None), Fraction)):
        return val
    if hasattr(val, 'pyvc_subst'):
        return val.pyvc_subst(m)
    if isinstance(val, Maybe):
        return Maybe([(T.subst(c, m), subst_val(v, m)) for c, v in val.cases])
    if callable(val) or val is Ellipsis:
        return val
    raise Unsupported('loop-dependent value of type %s' % type(val).__name__)


def subst_parts(p, m):
    r = tuple(T.subst(e, m) for e in p)
    if isinstance(p, GParts):
        g = p.guard
        r = GParts(r)
        r.guard = lambda idx: T.subst(g(idx), m)
    return r


def simsub(t, m):
    return T.subst(t, m)


def subst_list_item(val, idx, m):
    tmp = tuple(T.fresh('i') for _ in idx)
    x = val.item(tmp)
    m2 = dict(m)
    m2.update(zip(tmp, idx))
    return subst_val(x, m2)


def fold_effects(it, vs, res):
    """summarise buffer and list writes of one generic iteration into the effect of the whole loop"""
    bufs, lists = {}, {}
    for c, l in res:
        for b, old, new in l.effects:
            bufs.setdefault(b, old)
        for li, old, new, lw in l.leffects:
            lists.setdefault(id(li), (li, old))
    for b, old in bufs.items():
        news = []
        for c, l in res:
            n = [x for x in l.effects if x[0] is b]
            news.append((c, n[0][2] if n else old))
        note_write(SArr(b, [(e,) for e in b.exts], [('i', k, None) for k in range(len(b.exts))]))
        b.elem = fold_buffer(b, old, news, it, vs)
    for li, old in lists.values():
        news = []
        for c, l in res:
            n = [x for x in l.leffects if x[0] is li]
            news.append((c, n[0][3] if n else None))
        if len(news) != 1 or news[0][1] is None or it.guard is not None:
            raise Unsupported('conditional indexed write into a list')
        parts, v = news[0][1]
        for l in CUR.loops:
            l.on_list(li)
        inv = invert_index(parts, vs, li.exts, it.exts)
        if inv is None:
            raise Unsupported('write index is not the loop index')
        if set(map(repr, it.exts)) != set(map(repr, li.exts)):
            raise Unsupported('loop does not fill the list')
        li._item = lambda idx, v=v, inv=inv: subst_val(v, dict(zip(vs, inv(idx))))


def invert_index(parts, vs, texts, iexts):
    """parts are exactly the loop variables (possibly permuted) -> function from target index to loop index"""
    if len(parts) != len(vs):
        return None
    pos = {}
    for k, p in enumerate(parts):
        if p not in vs or p in pos:
            return None
        pos[p] = k
    if set(pos) != set(vs):
        return None
    return lambda idx: tuple(idx[pos[v]] for v in vs)


def fold_distinct(it, v, run):
    """effect of a loop over the distinct values of an array.  The body is run once for an arbitrary value v with the arrays it
    writes replaced by unknowns.  Accepted when iteration v touches only cells whose key is v and reads the written arrays only at
    the cell it writes: then each cell is changed by exactly one iteration (the one of its own key) and from its original content."""
    u = it.u
    pred = u.pred(v) if u.pred else None
    mark = len(CUR.draws)
    res = explore_local((), (v,), run, pred)
    bufs = []
    for _, _, l in res:
        if l.leffects or l.appends or getattr(l, 'attrs', None):
            raise Unsupported('effects in a loop over distinct values')
        for b, old, new in l.effects:
            if b not in bufs:
                bufs.append(b)
    olds = {b: b.elem for b in bufs}
    del CUR.draws[mark:]                              # made again below
    name = {b: CUR.name('prior') for b in bufs}
    try:
        for b in bufs:
            srt = {'bool': 'B', 'int': 'I'}.get(b.kind, 'R')

            def prior(idx, nm=name[b], srt=srt, k=b.kind):
                return T.uf(nm, tuple(idx), srt), FALSE if k != 'float' else T.uf(nm + '?', tuple(idx), 'B')
            b.elem = prior
        priors = {b: b.elem for b in bufs}
        res2 = explore_local((), (v,), run, pred)
    finally:
        for b in bufs:
            b.elem = olds[b]
    if any(x[0] not in bufs for _, _, l in res2 for x in l.effects):
        raise Unsupported('effects in a loop over distinct values')
    byname = {}
    for b in bufs:
        byname[name[b]] = (b, 0)
        byname[name[b] + '?'] = (b, 1)

    def original(t):
        """the written arrays are read at the cell about to be written only (checked below), so they hold their first content"""
        rep = {x: olds[byname[x.attr][0]](x.args)[byname[x.attr][1]] for x in T.subterms(t) if x.op == 'uf' and x.attr in byname}
        return T.replace(t, rep) if rep else t
    for d in CUR.draws[mark:]:
        for k in ('low', 'high'):
            if d.get(k) is not None:
                d[k] = original(d[k])
    kf = u.src.fn()
    names = set(name.values()) | {n + '?' for n in name.values()}
    for b in bufs:
        tmp = tuple(T.fresh('i') for _ in b.exts)
        val = None
        for c, _, l in reversed(res2):
            n = [x for x in l.effects if x[0] is b]
            e = n[0][2](tmp) if n else priors[b](tmp)
            val = e if val is None else e_ite(c, e, val)
        pr = priors[b](tmp)
        cond, new = split_write(val, pr)
        fixed = {}
        while cond is not None and cond is not FALSE:
            fixed = fixed_vars(cond, tmp)
            c2, n2 = split_write(new, tuple(T.subst(x, fixed) for x in pr))
            if c2 is None or c2 is FALSE or c2 is TRUE:
                break
            cond, new = T.and_(cond, c2), n2
        if cond is None:
            raise Unsupported('loop over distinct values: write not understood')
        H = hyps() + [T.and_(T.le(T.const(0), x), T.lt(x, e)) for x, e in zip(tmp, b.exts)] + ([pred] if pred is not None else [])
        # which of the written array's axes are the axes of the keys
        for pos in itertools.combinations(range(len(b.exts)), len(u.src.exts)):
            if tuple(b.exts[k] for k in pos) != tuple(u.src.exts):
                continue
            key = kf(tuple(tmp[k] for k in pos))
            if SOLVER.decide(T.implies(cond, T.and_(T.eq(tonum(key[0]), v), T.not_(key[1]))), H) is True:
                break
        else:
            raise Unsupported('an iteration over distinct values writes cells of other values')
        cell = tuple(T.subst(x, fixed) for x in tmp)
        for t in (cond,) + tuple(new):
            for x in T.subterms(t, into_binders=True):
                if x.op == 'uf' and x.attr in names and tuple(x.args) != tmp and tuple(x.args) != cell:
                    raise Unsupported('an iteration over distinct values reads other cells')
        old = olds[b]
        if len(bufs) > 1:
            raise Unsupported('several arrays written in a loop over distinct values')

        def elem(idx, old=old, cond=cond, new=new, tmp=tmp, nm=name[b], pr=pr, pos=pos, cell=cell):
            o = old(idx)
            m = dict(zip(tmp, idx))
            rep = {T.subst(pr[0], m): o[0]}
            if pr[1] is not FALSE:
                rep[T.subst(pr[1], m)] = o[1]
            mc = dict(zip(tmp, (T.subst(x, m) for x in cell)))
            rep[T.subst(pr[0], mc)] = o[0]
            if pr[1] is not FALSE:
                rep[T.subst(pr[1], mc)] = o[1]
            m[v] = tonum(kf(tuple(idx[k] for k in pos))[0])

            def f(t):
                # the content before the loop, at this cell
                return T.replace(T.subst(t, m), rep)
            c = f(cond)
            if u.pred:
                c = T.and_(u.pred(m[v]), c)
            return e_ite(c, (f(new[0]), f(new[1])), o)
        note_write(SArr(b, [(e,) for e in b.exts], [('i', k, None) for k in range(len(b.exts))]))
        b.elem = memo_elem(elem)
    return res2


def fold_buffer(b, old, news, it, vs):
    """new element function after all iterations.
    accepted: (a) accumulation  x += term(i) ; (b) write selected by the loop index: cell written by exactly the
    iteration whose index equals (part of) the cell index ; (c) write selected by an equation  key(cell) = value(i)"""
    tmp = tuple(T.fresh('i') for _ in b.exts)
    acc = T.fresh('acc', 'R')
    o = old(tmp)
    outs = []
    for c, f in news:
        outs.append((c, f(tmp)))
    val = outs[0][1]
    if len(outs) > 1:
        r = None
        for c, e in reversed(outs):
            r = e if r is None else e_ite(c, e, r)
        val = r
    if it.unordered is False or True:
        pass
    # (b) the written element under  cell index == loop index
    cond, new = split_write(val, o)
    if cond is not None:
        sel = solve_index(cond, vs, tmp)
        if sel is not None:
            m, rest = sel
            nv = (T.subst(new[0], m), T.subst(new[1], m))
            ok = T.and_(T.subst(rest, m), *[T.and_(T.le(T.const(0), T.subst(m[v], m)), T.lt(m[v], e)) for v, e in zip(vs, it.exts) if v in m])
            if it.guard is not None:
                ok = T.and_(ok, it.guard(tuple(m[v] for v in vs)))
            free = set(vs)
            if not (nv[0].fv & free) and not (nv[1].fv & free) and not (ok.fv & free):
                def elem(idx):
                    mm = dict(zip(tmp, idx))
                    c = range_simplify(T.subst(ok, mm), b.exts, idx)
                    ob = old(idx)
                    return e_ite(c, (T.subst(nv[0], mm), T.subst(nv[1], mm)), ob)
                return memo_elem(elem)
    # (a) accumulation
    if it.guard is None and not it.unordered or True:
        d = T.sub(tonum(val[0]), tonum(o[0]))
        if not depends_on(d, o, tmp):
            def elem2(idx):
                mm = dict(zip(tmp, idx))
                ob = old(idx)
                body = T.subst(d, mm)
                if it.guard is not None:
                    body = T.mul(body, T.ind(it.guard(vs)))
                ex = T.subst(val[1], mm)
                g = it.guard(vs) if it.guard is not None else TRUE
                return T.add(tonum(ob[0]), T.sum_(list(zip(vs, it.exts)), body)), \
                    T.or_(ob[1], T.bind('exists', list(zip(vs, it.exts)), [T.and_(g, ex)]))
            return memo_elem(elem2)
    raise Unsupported('loop writes an array in a way that is not understood')


def depends_on(d, o, tmp):
    """does the increment still mention the old value?"""
    if T.is_const(tonum(o[0])):
        return False
    return tonum(o[0]) in T.subterms(d)


def fixed_vars(cond, vs):
    """variables determined by an equation in the condition: {variable: term}"""
    m = {}
    for l in (cond.args if cond.op == 'and' else (cond,)):
        if l.op != 'eq0':
            continue
        p = T.as_poly(l.args[0])
        for x in vs:
            c = p.get(((x, 1),))
            if x in m or c is None or abs(c) != 1:
                continue
            rest = T.sub(l.args[0], T.scale(x, c))
            if any(y in vs for y in T.subterms(rest, into_binders=True)):
                continue
            m[x] = T.scale(rest, -1 / c)
            break
    return m


def split_write(val, old):
    """val == ite(cond, new, old): find cond and new"""
    v, n = val
    if v is old[0] and n is old[1]:
        return FALSE, old
    if v.op == 'ite' and v.args[2] is old[0]:
        nn = FALSE
        if n is not FALSE:
            nn = simp_under(n, v.args[0])
        return v.args[0], (v.args[1], nn)
    if v.op == 'ite' and v.args[1] is old[0]:
        c = T.not_(v.args[0])
        return c, (v.args[2], simp_under(n, c) if n is not FALSE else FALSE)
    # constants are folded into indicators: v = old + ind(c)*(new-old)
    if v.sort != 'B':
        d = T.sub(v, old[0])
        inds = {a for m, c in T.as_poly(d).items() for a, e in m if a.op == 'ind'}
        for a in inds:
            if all(any(x is a for x, e in m) for m in T.as_poly(d)):
                nw = T.const(0)
                for m, c in T.as_poly(d).items():
                    p = T.const(1)
                    for x, e in m:
                        if x is not a:
                            p = T.mul(p, T.powi_atom(x, e))
                    nw = T.add(nw, T.scale(p, c))
                return a.args[0], (T.add(old[0], nw), simp_under(n, a.args[0]) if n is not FALSE else FALSE)
        # indicators multiplied together have been merged: factor out the conditions every monomial has
        lits = lambda c: set(c.args) if c.op == 'and' else {c}
        common = None
        for m, c in T.as_poly(d).items():
            l = set()
            for a, e in m:
                if a.op == 'ind':
                    l |= lits(a.args[0])
            common = l if common is None else common & l
        if common:
            nw = T.const(0)
            for m, c in T.as_poly(d).items():
                p = T.const(1)
                for x, e in m:
                    if x.op == 'ind':
                        p = T.mul(p, T.ind(T.and_(*[y for y in lits(x.args[0]) if y not in common])))
                    else:
                        p = T.mul(p, T.powi_atom(x, e))
                nw = T.add(nw, T.scale(p, c))
            cc = T.and_(*common)
            return cc, (T.add(old[0], nw), simp_under(n, cc) if n is not FALSE else FALSE)
    return None, None


def simp_under(t, c):
    """t simplified assuming c (syntactic)"""
    known = set(c.args) if c.op == 'and' else {c}

    def rec(x):
        if x in known:
            return TRUE
        if T.not_(x) in known:
            return FALSE
        if x is c:
            return TRUE
        if x.op in ('and', 'or', 'not'):
            return T.rebuild(x, [rec(a) for a in x.args])
        if x.op == 'ite':
            cc = rec(x.args[0])
            return T.ite(cc, x.args[1], x.args[2])
        return x
    return rec(t)


def solve_index(cond, vs, tmp):
    """cond (a conjunction) determines every loop variable as a function of the cell: {var: term}, rest"""
    lits = list(cond.args) if cond.op == 'and' else [cond]
    m, rest = {}, []
    vset = set(vs)
    for l in lits:
        done = False
        if l.op == 'eq0':
            p = T.as_poly(l.args[0])
            for mono, c in p.items():
                if len(mono) == 1 and mono[0][1] == 1 and mono[0][0] in vset and mono[0][0] not in m:
                    v = mono[0][0]
                    other = T.scale(T.sub(l.args[0], T.scale(v, c)), Fraction(-1) / c)
                    if not (other.fv & vset):
                        m[v] = other
                        done = True
                        break
        if not done:
            rest.append(l)
    if any(v not in m for v in vs):
        return None
    return m, T.and_(*rest)


def range_simplify(c, exts, idx):
    lits = list(c.args) if c.op == 'and' else [c]
    out = []
    for l in lits:
        if l is TRUE:
            continue
        if l.op == 'le0':
            lb = lowb(l.args[0])
            if lb is not None and lb >= 0:
                continue
        drop = False
        for e, i in zip(exts, idx):
            if l is T.lt(i, e) or l is T.le(T.const(0), i):
                drop = True
        if not drop:
            out.append(l)
    return T.and_(*out)


_install()
