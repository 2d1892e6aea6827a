"""Assumed contracts of the other libraries (scipy, os, pickle, tqdm, ray, sklearn, pandas, properscoring) and a ghost file system."""
import re
import functools
from . import terms as T
from . import core as C
from . import npmodel as M
from . import smt
from .core import SArr, SNum, SList, Unsupported, TRUE, FALSE, lift, is_scalar, as_arr, elementwise, snum, tonum, memo_elem
from .npmodel import Ns, sc, shape_axes, loopvars


def dec(t):
    return C.SOLVER.decide(t, C.hyps())


def pos_flag(v):
    """flag that is true where v <= 0"""
    if dec(T.lt(T.const(0), v)) is True:
        return FALSE
    return T.le(v, T.const(0))


def ew(f, *xs, kind='float'):
    xs = [M._arrlike(x) for x in xs]
    if all(is_scalar(x) for x in xs):
        ls = [lift(x) for x in xs]
        return snum(f(*[(tonum(v), n) for v, n, k in ls]), kind, pypy=False)
    return elementwise(lambda *es: f(*[(tonum(v), n) for v, n in es]), lambda *k: kind, *xs)


def Phi(z):
    i = T.infsign(z)
    if i is not None:
        return T.const(1 if i > 0 else 0)
    if T.is_const(z):
        if T.cval(z) == 0:
            return T.const('1/2')
    return T.uf('Phi', (z,))


def GammaCDF(s, z):
    if T.infsign(z) is not None:
        return T.const(1 if T.infsign(z) > 0 else 0)
    if T.is_const(z):
        if T.cval(z) <= 0:
            return T.const(0)
    return T.ite(T.lt(T.const(0), z), T.uf('GammaCDF', (s, z)), T.const(0))


def std_z(x, loc, scale):
    return T.div(T.sub(x[0], loc[0]), scale[0]), T.or_(x[1], loc[1], scale[1], pos_flag(scale[0]))


# ---------------------------------------------------------------- distributions
class Dist:
    """shapes: names of the shape parameters; elem functions on (value, nan) pairs"""

    def __init__(self, name, shapes, cdf, pdf=None, discrete=False):
        self.name, self.shapes, self._c, self._p = name, shapes, cdf, pdf

    def parse(self, args, kw, first=None):
        names = ([first] if first else []) + self.shapes + ['loc', 'scale']
        d = {}
        if len(args) > len(names):
            raise TypeError('too many arguments')
        for n, a in zip(names, args):
            d[n] = a
        for k, v in kw.items():
            if k not in names:
                raise TypeError('unexpected argument ' + k)
            if k in d:
                raise TypeError('multiple values for ' + k)
            d[k] = v
        d.setdefault('loc', 0)
        d.setdefault('scale', 1)
        for s in ([first] if first else []) + self.shapes:
            if s not in d:
                raise TypeError('missing argument ' + s)
        return [d[n] for n in names]

    def cdf(self, *a, **k):
        return ew(self._c, *self.parse(a, k, 'x'))

    def sf(self, *a, **k):
        return 1 - self.cdf(*a, **k)

    def pdf(self, *a, **k):
        if self._p is None:
            raise Unsupported(self.name + '.pdf')
        return ew(self._p, *self.parse(a, k, 'x'))

    def logsf(self, *a, **k):
        return _log_of(self, 'sf')(*a, **k)

    def logcdf(self, *a, **k):
        return _log_of(self, 'cdf')(*a, **k)

    def logpdf(self, *a, **k):
        return _log_of(self, 'pdf')(*a, **k)

    def __call__(self, *a, **k):
        return Frozen(self, self.parse(a, k))

    def rvs(self, *a, size=None, random_state=None, **k):
        return Frozen(self, self.parse(a, k)).rvs(size)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('stats.%s.%s' % (self.name, n))


def _log_of(d, name):
    if not isinstance(d, Frozen) and d.name != 'norm' or isinstance(d, Frozen) and d.d.name != 'norm':
        raise Unsupported('logarithm of a probability that may be zero')
    return lambda *a, **k: M.NP['log'](getattr(d, name)(*a, **k))


class Frozen:
    def __init__(self, d, p):
        self.d, self.p = d, p

    def logsf(self, x):
        return _log_of(self, 'sf')(x)

    def logcdf(self, x):
        return _log_of(self, 'cdf')(x)

    def logpdf(self, x):
        return _log_of(self, 'pdf')(x)

    def cdf(self, x):
        return ew(self.d._c, x, *self.p)

    def sf(self, x):
        return 1 - self.cdf(x)

    def pdf(self, x):
        if self.d._p is None:
            raise Unsupported(self.d.name + '.pdf')
        return ew(self.d._p, x, *self.p)

    def rvs(self, size=None, random_state=None):
        return draw_dist(self.d.name, self.p, size)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('frozen %s.%s' % (self.d.name, n))


def draw_dist(name, params, size, transform=None):
    params = [as_arr(M._arrlike(p)) for p in params]
    lv = loopvars()
    if size is None:
        al = C.align(*params) if len(params) > 1 else params
        axes = al[0].axes
        guard = next((a.guard for a in al if a.guard is not None), None)
    else:
        axes = shape_axes(size)
        guard = None
        sg = M.size_guard(size)
        if sg is not None:
            axes, guard = sg
            if any(p.ndim for p in params):
                f0 = SArr.new(axes, lambda idx: (T.const(0), FALSE), 'float', guard)
                al = C.align(*(params + [f0]))[:-1]
                axes = al[0].axes
            else:
                al = [C.broadcast_to(p, axes) for p in params]
        else:
            al = [C.broadcast_to(p, axes) for p in params]
    nm = M.new_draw('u', kind=name, axes=axes, lv=tuple(lv), guard=guard, exts=())
    fs = [a.fn() for a in al]

    def elem(idx):
        es = [f(idx) for f in fs]
        u = T.uf(nm, tuple(lv) + tuple(idx), 'R')
        if name == 'uniform':
            # location-scale family: loc + scale * U, U in [0, 1]
            lo, sc = tonum(es[0][0]), tonum(es[1][0])
            return T.add(lo, T.mul(sc, T.uf('unif', (u,), 'R'))), T.or_(*[e[1] for e in es])
        # every draw is the quantile function of the distribution at a uniform variable of its own
        U, nan = T.uf('unif', (u,), 'R'), T.or_(*[e[1] for e in es])
        ps = [tonum(e[0]) for e in es]
        lo, sc = ps[-2:]
        if name == 'norm':
            return T.add(lo, T.mul(sc, T.uf('Phiinv', (U,)))), nan
        if name == 'truncnorm':
            a, b = Phi(ps[0]), Phi(ps[1])
            return T.add(lo, T.mul(sc, T.uf('Phiinv', (T.add(a, T.mul(U, T.sub(b, a))),)))), nan
        if name == 'gamma':
            return T.add(lo, T.mul(sc, T.uf('gammaincinv', (ps[0], U)))), nan
        return T.uf('sample_' + name, (U,) + tuple(ps), 'R'), nan
    r = SArr.new(axes, memo_elem(elem), 'float', guard)
    if not axes:
        return snum(r.fn()(()), 'float', pypy=False)
    return r


def c_norm(x, loc, scale):
    z, n = std_z(x, loc, scale)
    return Phi(z), n


def p_norm(x, loc, scale):
    z, n = std_z(x, loc, scale)
    return T.div(T.uf('phi', (z,)), scale[0]), n


def c_gamma(x, a, loc, scale):
    z, n = std_z(x, loc, scale)
    return GammaCDF(a[0], z), T.or_(n, a[1], pos_flag(a[0]))


def c_truncnorm(x, a, b, loc, scale):
    z, n = std_z(x, loc, scale)
    n = T.or_(n, a[1], b[1])
    v = T.div(T.sub(Phi(z), Phi(a[0])), T.sub(Phi(b[0]), Phi(a[0])))
    n = T.or_(n, T.le(b[0], a[0]))
    return T.ite(T.le(z, a[0]), T.const(0), T.ite(T.le(b[0], z), T.const(1), v)), n


def c_uniform(x, loc, scale):
    z, n = std_z(x, loc, scale)
    return T.ite(T.le(z, T.const(0)), T.const(0), T.ite(T.le(T.const(1), z), T.const(1), z)), n


def c_t(x, df, loc, scale):
    z, n = std_z(x, loc, scale)
    return T.uf('TCDF', (df[0], z)), T.or_(n, df[1])


norm = Dist('norm', [], c_norm, p_norm)
gamma = Dist('gamma', ['a'], c_gamma)
truncnorm = Dist('truncnorm', ['a', 'b'], c_truncnorm)
uniform = Dist('uniform', [], c_uniform)
tdist = Dist('t', ['df'], c_t)


KEEP = []


def rankdata(x, method='average', axis=None, **kw):
    if kw:
        raise Unsupported('rankdata options')
    x = as_arr(M._arrlike(x))
    if method not in ('min', 'max', 'average'):
        raise Unsupported('rankdata method')
    if axis is None:
        x = x.ravel()
        axis = 0
    ax = M._nax(x, axis)
    f = x.fn()
    p = sum(len(a) for a in x.axes[:ax])
    ext = x.axes[ax]
    n = len(ext)

    def elem(idx):
        bs = [(T.fresh('i'), e) for e in ext]
        me = f(tuple(idx))
        ot = f(tuple(idx[:p]) + tuple(v for v, _ in bs) + tuple(idx[p + n:]))
        lo = T.sum_(bs, T.ind(T.lt(ot[0], me[0])))
        le = T.sum_(bs, T.ind(T.le(ot[0], me[0])))
        nan = M.ex(bs, ot[1])
        if method == 'min':
            v = T.add(lo, T.const(1))
        elif method == 'max':
            v = le
        else:
            v = T.scale(T.add(lo, le, T.const(1)), '1/2')
        if not T.is_const(v):
            cell = f(tuple(idx[:p]) + tuple(T.var('@rank%d' % k, 'I') for k in range(n)) + tuple(idx[p + n:]))
            col = (cell, tuple(ext))                # the column, as the terms of its elements
            old = T.RANKOF.get(v)
            T.RANKOF[v] = (col, me[0]) if old is None or old == (col, me[0]) else ()
            KEEP.append(x)
        return v, nan
    return SArr.new(x.axes, memo_elem(elem), 'float')


class rv_continuous:
    """scipy's generic distribution: standardisation, argument check and support handling around _cdf and _rvs"""

    def __init__(self, *a, **k):
        pass

    def _split(self, args, kw, x=None):
        import inspect
        names = None
        for m in ('_pdf', '_cdf'):
            f = getattr(type(self), m, None)
            if f is not None:
                names = list(inspect.signature(f).parameters)[2:]
                break
        if names is None:
            raise Unsupported('distribution without _pdf or _cdf')
        d = Dist(type(self).__name__, names, None)
        return d, d.parse(args, kw, 'x' if x else None)

    def cdf(self, *args, **kw):
        d, p = self._split(args, kw, True)
        p = [as_arr(M._arrlike(q)) for q in p]
        p = C.align(*p)
        x, sh, loc, scale = p[0], p[1:-2], p[-2], p[-1]
        z = (x - loc) / scale
        z = as_arr(z)
        ok = as_arr(self._argcheck(*sh))
        lo, hi = self._get_support(*sh)
        val = as_arr(self._cdf(z, *sh))
        lo, hi = as_arr(lo), as_arr(hi)
        fs = [a.fn() for a in C.align(z, ok, lo, hi, val, scale)]

        def elem(idx):
            ez, eo, el, eh, ev, es = [f(idx) for f in fs]
            okt = T.and_(C.tobool(eo), T.not_(pos_flag(es[0])))
            inside = T.and_(T.lt(el[0], ez[0]), T.lt(ez[0], eh[0]))
            v = C.e_ite(inside, (tonum(ev[0]), ev[1]), (T.ind(T.le(eh[0], ez[0])), FALSE))
            return v[0], T.or_(v[1], ez[1], T.not_(okt))
        r = SArr.new(z.axes, memo_elem(elem), 'float')
        return r if r.ndim else snum(r.fn()(()), 'float', pypy=False)

    def _get_support(self, *a):
        raise Unsupported('default support')

    def __call__(self, *args, **kw):
        d, p = self._split(args, kw)
        return FrozenGen(self, p)

    def rvs(self, *args, size=None, random_state=None, **kw):
        d, p = self._split(args, kw)
        return FrozenGen(self, p).rvs(size)

    def __getattr__(self, n):
        if n.startswith('__') or n in ('a', 'b'):
            raise AttributeError(n)
        raise Unsupported('rv_continuous.' + n)


class FrozenGen:
    def __init__(self, g, p):
        self.g, self.p = g, p

    def cdf(self, x):
        return self.g.cdf(x, *self.p)

    def rvs(self, size=None, random_state=None):
        p = [as_arr(M._arrlike(q)) for q in self.p]
        p = C.align(*p)
        sh, loc, scale = p[:-2], p[-2], p[-1]
        ok = as_arr(self.g._argcheck(*sh)) & (scale >= 0)
        if not bool(M.all_(ok)):
            raise ValueError('Domain error in arguments')
        if size is None:
            size = p[0].shape
        v = self.g._rvs(*sh, size=size, random_state=None)
        return v * scale + loc


def _cond_nan(f, bad=None):
    return f


def gammainc(s, x):
    def f(s, x):
        v = GammaCDF(s[0], x[0])
        neg = FALSE if dec(T.le(T.const(0), x[0])) is True else T.lt(x[0], T.const(0))
        return v, T.or_(s[1], x[1], neg)
    return ew(f, s, x)


def gammaincinv(s, q):
    return ew(lambda s, q: (T.uf('gammaincinv', (s[0], q[0])), T.or_(s[1], q[1])), s, q)


def gammaln(x):
    return ew(lambda x: (T.uf('gammaln', (x[0],)), x[1]), x)


def betaln(a, b):
    return gammaln(a) + gammaln(b) - gammaln(a + b)


def beta(a, b):
    return M.NP["exp"](betaln(a, b))


def xlogy(a, b):
    return ew(lambda a, b: (T.mul(a[0], T.uf('log', (b[0],))), T.or_(a[1], b[1])), a, b)


SPECIAL = Ns('scipy.special', {'gammaln': gammaln, 'loggamma': gammaln, 'betaln': betaln, 'beta': beta, 'gammainc': gammainc, 'gammaincinv': gammaincinv, 'xlogy': xlogy,
                               'ndtr': lambda x: norm.cdf(x)})
STATS = Ns('scipy.stats', {'norm': norm, 'gamma': gamma, 'truncnorm': truncnorm, 'uniform': uniform, 't': tdist, 'rankdata': rankdata,
                           'rv_continuous': rv_continuous})
SCIPY = Ns('scipy', {'stats': STATS, 'special': SPECIAL})


# ---------------------------------------------------------------- properscoring
def crps_ensemble(observations, forecasts, weights=None, issorted=False, axis=-1):
    if weights is not None:
        raise Unsupported('weights')
    o, f = as_arr(M._arrlike(observations)), as_arr(M._arrlike(forecasts))
    if f.ndim == o.ndim:
        raise Unsupported('deterministic crps_ensemble')
    ax = M._nax(f, axis)
    g = M.moveaxis(f, ax, -1)
    if [C.prod(a) for a in g.axes[:-1]] != [C.prod(a) for a in o.axes]:
        for a, b in zip(g.axes[:-1], o.axes):
            if C.prod(a) is not C.prod(b) and not C.branch(T.eq(C.prod(a), C.prod(b))):
                raise ValueError('observations and forecasts must have matching shapes')
        if len(g.axes) - 1 != len(o.axes):
            raise ValueError('observations and forecasts must have matching shapes')
        raise Unsupported('differently factored axes')
    if g.axes[:-1] != o.axes:
        raise Unsupported('differently factored axes')
    fo, ff = o.fn(), g.fn()
    ext = g.axes[-1]
    N = C.prod(ext)

    def elem(idx):
        b1 = [(T.fresh('i'), e) for e in ext]
        b2 = [(T.fresh('i'), e) for e in ext]
        x = ff(tuple(idx) + tuple(v for v, _ in b1))
        y = ff(tuple(idx) + tuple(v for v, _ in b2))
        oo = fo(tuple(idx))
        wx, wy, n, nn = TRUE, TRUE, N, oo[1]
        if x[1] is not FALSE:                     # missing members are left out
            wx, wy = T.not_(x[1]), T.not_(y[1])
            n = T.sum_(b1, T.ind(wx))
            nn = T.or_(nn, T.eq(n, T.const(0)))
        s1 = T.div(T.sum_(b1, T.mul(T.ind(wx), T.abs_(T.sub(x[0], oo[0])))), n)
        s2 = T.div(T.sum_(b1 + b2, T.mul(T.ind(wx), T.ind(wy), T.abs_(T.sub(x[0], y[0])))), T.mul(T.const(2), n, n))
        return T.sub(s1, s2), nn
    r = SArr.new(o.axes, memo_elem(elem), 'float')
    return r if r.ndim else snum(r.fn()(()), 'float', pypy=False)


def crps_gaussian(x, mu, sig, grad=False):
    def f(x, m, s):
        z = T.div(T.sub(x[0], m[0]), s[0])
        v = T.add(T.mul(z, T.sub(T.scale(T.uf('Phi', (z,)), 2), T.const(1))), T.scale(T.uf('phi', (z,)), 2), T.neg(T.div(T.const(1), T.sqrt(T.uf('pi', ())))))
        return T.mul(s[0], v), T.or_(x[1], m[1], s[1])
    return ew(f, x, mu, sig)


PS = Ns('properscoring', {'crps_ensemble': crps_ensemble, 'crps_gaussian': crps_gaussian})


# ---------------------------------------------------------------- opaque results (sklearn, pandas)
class Opaque:
    """result of a library function known only through the arguments it was computed from"""

    def __init__(self, name, args):
        self.name, self.args = name, args

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('use of the result of ' + self.name)


def roc_curve(y_true, y_score, **kw):
    if kw:
        raise Unsupported('roc_curve options')
    a = (as_arr(y_true).copy(), as_arr(y_score).copy())
    C.CUR.calls.append(('roc_curve', a))
    return Opaque('fpr', a), Opaque('tpr', a), Opaque('thresholds', a)


def auc(x, y):
    C.CUR.calls.append(('auc', (x, y)))
    return Opaque('auc', (x, y))


def int_bounds(t):
    """bounds (terms) of an integer made of indicators and counts"""
    lo = hi = T.const(0)
    for m, c in T.as_poly(t).items():
        if not m:
            a, b = T.const(1), T.const(1)
        elif len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'ind':
            a, b = T.const(0), T.const(1)
        elif len(m) == 1 and m[0][1] == 1 and m[0][0] in T.IRANGE:
            a, b = T.IRANGE[m[0][0]]
        elif len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'bind' and m[0][0].attr[0] == 'sum':
            x = m[0][0]
            n = len(x.attr[1])
            if not smt.unit_body(x.args[n]):
                return None
            a, b = T.const(0), T.mul(*x.args[:n])
        else:
            return None
        if c < 0:
            a, b = b, a
        lo, hi = T.add(lo, T.scale(a, c)), T.add(hi, T.scale(b, c))
    return lo, hi


class Series:
    """the distinct values of integers, in order, with their counts"""

    def __init__(self, arr):
        self.arr = arr
        self.name = None

    def to_numpy(self):
        return self.arr
    values = property(to_numpy)

    def __len__(self):
        return len(self.arr)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('value counts')


class VCounts:
    def __init__(self, arr):
        self.arr = arr
        self.name = None

    def sort_index(self):
        x = self.arr.ravel()
        if x.kind == 'float':
            raise Unsupported('counts of real values')
        f = x.fn()
        vs = [T.fresh('i') for _ in x.exts]
        e = f(tuple(vs))
        b = int_bounds(tonum(e[0]))
        if b is None or e[1] is not FALSE:
            raise Unsupported('counts of values without known bounds')
        H = C.hyps() + smt.bounds(vs, x.exts) + ([x.guard(tuple(vs))] if x.guard is not None else [])
        if not C.SOLVER.prove(T.le(T.const(0), tonum(e[0])), H):
            raise Unsupported('counts of negative values')

        def cnt(idx):
            bs = [(T.fresh('i'), q) for q in x.exts]
            ix = tuple(v for v, _ in bs)
            g = x.guard(ix) if x.guard is not None else TRUE
            return T.sum_(bs, T.ind(T.and_(g, C.c_eq(f(ix)[0], idx[0]))))
        return Series(SArr.new([(T.add(b[1], T.const(1)),)], memo_elem(lambda idx: (cnt(idx), FALSE)), 'int',
                               lambda idx: T.ne(cnt(idx), T.const(0))))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('unsorted counts')


def value_counts(x, **kw):
    if kw:
        raise Unsupported('value_counts options')
    return VCounts(as_arr(x).copy())


PD = Ns('pandas', {'value_counts': value_counts})
METRICS = Ns('sklearn.metrics', {'roc_curve': roc_curve, 'auc': auc, 'roc_auc_score': None})


class KernelDensity:
    """scikit-learn's estimator: the log density at a point is some function of the bandwidth, the kernel and the fitted points"""

    def __init__(self, bandwidth=1.0, kernel='gaussian', **k):
        if k:
            raise Unsupported('kernel density options')
        self.bandwidth, self.kernel, self.x = bandwidth, kernel, None

    def fit(self, x, y=None):
        x = as_arr(x)
        if x.ndim != 2:
            raise ValueError('Expected 2D array')
        self.x = x
        return self

    def score_samples(self, q):
        q = as_arr(q)
        if q.ndim != 2 or self.x is None:
            raise ValueError('Expected 2D array')
        if not isinstance(self.kernel, str) or self.x.guard is not None:
            raise Unsupported('kernel')
        bw = tonum(C.lift(self.bandwidth)[0])
        vs = [[T.fresh('k') for _ in a] for a in self.x.axes]
        fx = self.x.fn()
        e = fx(tuple(v for a in vs for v in a))
        bs = [(v, x) for a, ax in zip(vs, self.x.axes) for v, x in zip(a, ax)]
        fit = T.sum_(bs, T.uf('kdefit', tuple(v for v, _ in bs) + (tonum(e[0]), T.ind(e[1])), 'R'))
        f = q.fn()
        n = len(q.axes[0])

        def elem(idx):
            z = f(tuple(idx[:n]) + tuple(T.const(0) for x in q.axes[1]))
            return T.uf('kdelog:' + self.kernel, (bw, fit, tonum(z[0])), 'R'), z[1]
        return SArr.new(q.axes[:1], elem, 'float')


SKLEARN = Ns('sklearn', {'metrics': METRICS, 'neighbors': Ns('sklearn.neighbors', {'KernelDensity': KernelDensity})})


# ---------------------------------------------------------------- operating system (ghost)
class GhostFS:
    """files: path -> content; dirs: set of paths; log of mutations.
    on_step: called after every mutation (and once in the middle of a write); strict: files need their directory"""

    def __init__(self):
        self.files, self.dirs, self.log = {}, set(), []
        self.on_step = None
        self.strict = False

    def step(self, what):
        self.log.append(what)
        if self.on_step is not None:
            self.on_step(what)

    def state(self):
        """what a process that dies now leaves on the disk"""
        return {p: c if c[0] == 'data' else ('data', list(c[1]) + [('torn',)]) for p, c in self.files.items()}, set(self.dirs)


def fs():
    f = C.CUR.fs
    if f is None:
        raise Unsupported('file access without a modelled file system')
    return f


class Environ:
    """os.environ"""

    def __getitem__(self, k):
        C.CUR.__dict__.setdefault('env_reads', []).append(k)
        return C.CUR.env[k]

    def __setitem__(self, k, v):
        if not isinstance(v, str):
            raise TypeError('str expected, not %s' % type(v).__name__)
        if C.CUR.loops:
            raise Unsupported('setting changed inside a symbolic loop')
        C.CUR.env[k] = v
        C.CUR.events.append(('setenv', k))

    def __delitem__(self, k):
        if C.CUR.loops:
            raise Unsupported('setting changed inside a symbolic loop')
        del C.CUR.env[k]

    def __contains__(self, k):
        return k in C.CUR.env

    def get(self, k, d=None):
        C.CUR.__dict__.setdefault('env_reads', []).append(k)
        return C.CUR.env.get(k, d)

    def setdefault(self, k, v):
        if k not in C.CUR.env:
            self[k] = v
        return self[k]

    def pop(self, k, *d):
        if C.CUR.loops:
            raise Unsupported('setting changed inside a symbolic loop')
        return C.CUR.env.pop(k, *d)

    def update(self, *a, **k):
        for q, v in dict(*a, **k).items():
            self[q] = v

    def items(self):
        return list(C.CUR.env.items())

    def keys(self):
        return list(C.CUR.env.keys())

    def copy(self):
        return dict(C.CUR.env)

    def __iter__(self):
        return iter(list(C.CUR.env))


def _join(*a):
    import posixpath
    for x in a:
        if not isinstance(x, str):
            raise TypeError('expected str')
    return posixpath.join(*a)


def _exists(p):
    f = fs()
    if isinstance(p, str) and (p in f.files or (p.rstrip('/') or '/') in f.dirs):
        return True
    d = getattr(f, 'maybe', None)
    if d is not None:
        return d(p)
    return False


def _expanduser(p):
    return C.CUR.__dict__.get('home', '/home/u') + p[1:] if isinstance(p, str) and p.startswith('~') else p


def _makedirs(p, mode=0o777, exist_ok=False):
    f = fs()
    if _exists(p) and not exist_ok:
        raise FileExistsError(p)
    q = p.rstrip('/') or '/'
    while q and q not in f.dirs:
        f.dirs.add(q)
        q = q.rsplit('/', 1)[0]
    f.step(('mkdir', p))


def _remove(p):
    f = fs()
    if p not in f.files:
        raise FileNotFoundError(p)
    del f.files[p]
    f.step(('remove', p))


def _replace(a, b):
    f = fs()
    if a not in f.files:
        raise FileNotFoundError(a)
    f.files[b] = f.files.pop(a)
    f.step(('replace', a, b))


def _copyfile(a, b, **k):
    f = fs()
    if a not in f.files:
        raise FileNotFoundError(a)
    c = list(f.files[a][1])
    f.files[b] = ('open', [])
    f.step(('open-w', b))
    f.files[b] = ('open', c)
    f.step(('write', b))
    f.files[b] = ('data', list(c))
    f.step(('close', b))
    return b


def _rmtree(p, ignore_errors=False, **k):
    f = fs()
    if p.rstrip('/') not in f.dirs:
        if ignore_errors:
            return
        raise FileNotFoundError(p)
    p = p.rstrip('/')
    for q in list(f.files):
        if q.startswith(p + '/'):
            del f.files[q]
            if f.on_step is not None:
                f.step(('remove', q))
    for q in list(f.dirs):
        if q == p or q.startswith(p + '/'):
            f.dirs.discard(q)
    f.step(('rmtree', p))


class GhostFile:
    def __init__(self, path, mode):
        self.path, self.mode, self.closed = path, mode, False
        f = fs()
        if 'r' in mode:
            if path not in f.files:
                raise FileNotFoundError(path)
        elif f.strict and ('w' in mode or 'x' in mode) and path.rsplit('/', 1)[0] not in f.dirs:
            raise FileNotFoundError(path)
        elif 'w' in mode:
            f.files[path] = ('open', [])
            f.step(('open-w', path))
        elif 'x' in mode:
            if path in f.files:
                raise FileExistsError(path)
            f.files[path] = ('open', [])
            f.step(('open-w', path))
        else:
            raise Unsupported('file mode ' + mode)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def close(self):
        if not self.closed and ('w' in self.mode or 'x' in self.mode):
            f = fs()
            c = f.files.get(self.path)
            if c is not None and c[0] == 'open':
                f.files[self.path] = ('data', list(c[1]))
                f.step(('close', self.path))
        self.closed = True

    def flush(self):
        pass

    def fileno(self):
        return 3

    def write(self, s):
        f = fs()
        c = f.files.get(self.path)
        if c is None or c[0] != 'open':
            raise Unsupported('write after close')
        if C.CUR.loops:
            raise Unsupported('file written inside a symbolic loop')
        if f.on_step is not None:
            c[1].append(('torn',))
            f.step(('half write', self.path))
            c[1].pop()
        c[1].append(s)
        f.step(('write', self.path))

    def writelines(self, l):
        if isinstance(l, SList):
            self.write(('lines', l))
        else:
            for x in l:
                self.write(x)


def open_(path, mode='r', *a, **k):
    return GhostFile(path, mode)


class _Pickle:
    HIGHEST_PROTOCOL = 5

    @staticmethod
    def dump(obj, f, *a, **k):
        f.write(('pickle', obj))

    @staticmethod
    def load(f):
        c = fs().files.get(f.path)
        if c is None or c[0] != 'data' or len(c[1]) != 1 or c[1][0][0] != 'pickle':
            raise EOFError('torn pickle')
        return unshare(c[1][0][1])


def unshare(x):
    """a loaded object is a fresh copy"""
    if isinstance(x, SArr):
        return x.copy()
    if isinstance(x, tuple):
        return tuple(unshare(y) for y in x)
    if isinstance(x, list):
        return type(x)(unshare(y) for y in x)
    return x


def os_module():
    return Ns('os', {'environ': Environ(), 'getenv': lambda k, d=None: C.CUR.env.get(k, d), 'makedirs': _makedirs, 'mkdir': _makedirs,
                     'remove': _remove, 'unlink': _remove, 'replace': _replace, 'rename': _replace, 'getpid': lambda: 4242, 'fsync': lambda *a: None,
                     'sep': '/',
                     'path': Ns('os.path', {'join': _join, 'exists': _exists, 'isfile': lambda p: p in fs().files, 'isdir': lambda p: (p.rstrip('/') or '/') in fs().dirs,
                                            'expanduser': _expanduser, 'basename': lambda p: p.rsplit('/', 1)[-1],
                                            'dirname': lambda p: p.rsplit('/', 1)[0] if '/' in p else ''})})


def strtobool(s):
    if not isinstance(s, str):
        raise AttributeError("object has no attribute 'lower'")
    v = s.lower()
    if v in ('y', 'yes', 't', 'true', 'on', '1'):
        return 1
    if v in ('n', 'no', 'f', 'false', 'off', '0'):
        return 0
    raise ValueError('invalid truth value %r' % (s,))


# ---------------------------------------------------------------- progress bars and pools
class PBar:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def update(self, n=1):
        pass

    def close(self):
        pass

    def set_description(self, *a, **k):
        pass


def tqdm(iterable=None, *a, **k):
    if iterable is None:
        return PBar()
    return iterable


def process_map(fn, *its, **kw):
    """ordered map over a process pool: each item is computed once, results in order"""
    if not its:
        raise TypeError('process_map needs an iterable')
    it = its[0] if len(its) == 1 else vzip(*its)
    f = fn if len(its) == 1 else (lambda t: fn(*t))
    x = C.to_iter(it)
    C.CUR.events.append(('pool', kw.get('max_workers'), kw.get('chunksize')))
    if isinstance(x, SList):
        return C.map_list(f, x)
    return [f(y) for y in x]


def vzip(*its):
    xs = [C.to_iter(i) for i in its]
    if not any(isinstance(x, SList) for x in xs):
        return list(zip(*xs))
    if not all(isinstance(x, SList) for x in xs):
        raise Unsupported('zip of symbolic and concrete iterables')
    xs = [C.in_order(x) for x in xs]
    if any(x.guard is not None for x in xs):
        raise Unsupported('zip of filtered lists')
    e0 = xs[0].exts
    for x in xs[1:]:
        if tuple(x.exts) != tuple(e0):
            raise Unsupported('zip of lists of different length')
    return SList(e0, lambda idx: tuple(x.item(idx) for x in xs))


class Ref:
    def __init__(self, v):
        self.v = v

    def pyvc_subst(self, m):
        return Ref(C.subst_val(self.v, m))


class Remote:
    def __init__(self, f):
        self.f = f

    def remote(self, *a, **k):
        a = [x.v if isinstance(x, Ref) else x for x in a]
        k = {q: x.v if isinstance(x, Ref) else x for q, x in k.items()}
        return Ref(self.f(*a, **k))

    def options(self, **k):
        return self


def ray_get(x):
    if isinstance(x, Ref):
        return x.v
    if isinstance(x, SList):
        return C.map_list(lambda r: r.v, x)
    if isinstance(x, (list, tuple)):
        return [ray_get(y) for y in x]
    raise Unsupported('ray.get')


def _ray_remote(f=None, **k):
    if f is None:
        return lambda g: Remote(g)
    return Remote(f)


def ray_iterator(ids):
    """contract of _ray_to_iterator: every submitted result exactly once, in any order"""
    x = C.to_iter(ids)
    if isinstance(x, SList):
        return SList(x.exts, lambda idx: ray_get(x.item(idx)), True, x.guard)
    raise Unsupported('concrete list of ray tasks')


def ray_init(*a, **k):
    C.CUR.events.append(('ray', 'init'))


def ray_put(x):
    return Ref(x)


RAY = Ns('ray', {'init': ray_init, 'shutdown': lambda *a, **k: C.CUR.events.append(('ray', 'shutdown')),
                 'put': ray_put, 'get': ray_get, 'remote': _ray_remote, 'wait': None, 'is_initialized': lambda: False})


class Warnings:
    @staticmethod
    def warn(*a, **k):
        C.CUR.events.append(('warn',))

    @staticmethod
    def simplefilter(*a, **k):
        pass

    @staticmethod
    def filterwarnings(*a, **k):
        pass

    class catch_warnings:
        def __init__(self, **k):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False


def modules():
    util = Ns('distutils.util', {'strtobool': strtobool})
    tq = Ns('tqdm.auto', {'tqdm': tqdm, 'trange': lambda n, **k: n})
    conc = Ns('tqdm.contrib.concurrent', {'process_map': process_map, 'thread_map': process_map})
    return {
        'numpy': M.module(), 'os': os_module(), 'os.path': None, 'shutil': Ns('shutil', {'rmtree': _rmtree, 'copyfile': _copyfile, 'copy': _copyfile, 'copy2': _copyfile, 'move': _replace}), 'pickle': _Pickle,
        'distutils': Ns('distutils', {'util': util}), 'distutils.util': util, 'scipy': SCIPY, 'scipy.stats': STATS, 'scipy.special': SPECIAL,
        'properscoring': PS, 'pandas': PD, 'sklearn': SKLEARN, 'sklearn.metrics': METRICS, 'sklearn.neighbors': SKLEARN.neighbors,
        'tqdm': Ns('tqdm', {'tqdm': tqdm, 'auto': tq, 'contrib': Ns('tqdm.contrib', {'concurrent': conc})}), 'tqdm.auto': tq, 'tqdm.contrib': Ns('tqdm.contrib', {'concurrent': conc}),
        'tqdm.contrib.concurrent': conc, 'ray': RAY, 'functools': functools, 'warnings': Warnings, 're': re, 'glob': Ns('glob', {'glob': None}),
        'math': Ns('math', {'sqrt': M.NP['sqrt'], 'pi': M.module().pi, 'prod': lambda x: M.prod_(list(x)), 'exp': M.NP['exp'], 'nan': float('nan'), 'isnan': M.NP['isnan']}), 'itertools': __import__('itertools'), 'collections': __import__('collections'),
        'xarray': Ns('xarray', {}), 'netCDF4': Ns('netCDF4', {'Dataset': object}), 'sys': Ns('sys', {}), 'typing': __import__('typing'),
        'contextlib': __import__('contextlib'), 'operator': __import__('operator'), 'copy': Ns('copy', {'copy': unshare, 'deepcopy': unshare}), 'tempfile': Ns('tempfile', {}),
    }
