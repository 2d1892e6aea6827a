"""Executable contracts: shared machinery.  Runs under /opt/venv with the real PyAnEn from /repo."""
import ast
import contextlib
import hashlib
import importlib
import io
import itertools
import json
import math
import os
import pickle
import random
import shutil
import sys
import tempfile
import types
import warnings

import numpy as np

REPO = os.environ.get('PYVC_REPO', '/repo')
warnings.simplefilter('ignore')
np.seterr(all='ignore')


class Fail(Exception):
    """the real code broke the executable contract"""


class Known(Exception):
    """a failure listed as a known finding"""


# ---------------------------------------------------------------- stand-in for ray (adversarial completion order)
class _Ref:
    __slots__ = ('thunk', 'done', 'val', 'exc')

    def __init__(self, thunk):
        self.thunk, self.done, self.val, self.exc = thunk, False, None, None

    def run(self):
        if not self.done:
            self.done = True
            try:
                self.val = self.thunk()
            except Exception as e:        # surfaces at ray.get
                self.exc = e
        return self


class RayStub(types.ModuleType):
    def __init__(self):
        super().__init__('ray')
        self.order = random.Random(0)
        self.mode = 'random'
        self.initialized = False

    def init(self, *a, **k):
        if self.initialized and not k.get('ignore_reinit_error'):
            raise RuntimeError('ray.init called twice')
        self.initialized = True

    def is_initialized(self):
        return self.initialized

    def shutdown(self, *a, **k):
        self.initialized = False

    def put(self, x):
        r = _Ref(None)
        y = pickle.loads(pickle.dumps(x))
        _freeze(y)
        r.done, r.val = True, y
        return r

    def remote(self, *a, **k):
        if len(a) == 1 and not k and callable(a[0]):
            return _Remote(self, a[0])
        return lambda f: _Remote(self, f)

    def get(self, x, **k):
        if isinstance(x, (list, tuple)):
            return [self.get(i) for i in x]
        x.run()
        if x.exc is not None:
            raise x.exc
        return x.val

    def wait(self, refs, num_returns=1, timeout=None, **k):
        refs = list(refs)
        idx = list(range(len(refs)))
        if self.mode == 'random':
            self.order.shuffle(idx)
        elif self.mode == 'reverse':
            idx.reverse()
        pick = idx[:num_returns]
        for i in pick:
            refs[i].run()
        return [refs[i] for i in pick], [refs[i] for i in range(len(refs)) if i not in set(pick)]


class _Remote:
    def __init__(self, ray, f):
        self.ray, self.f = ray, f

    def remote(self, *a, **k):
        ray = self.ray
        a = pickle.loads(pickle.dumps([x if not isinstance(x, _Ref) else None for x in a])) if not any(
            isinstance(x, _Ref) for x in a) else list(a)

        def thunk():
            aa = [ray.get(x) if isinstance(x, _Ref) else x for x in a]
            kk = {n: ray.get(x) if isinstance(x, _Ref) else x for n, x in k.items()}
            return self.f(*aa, **kk)
        return _Ref(thunk)

    def options(self, *a, **k):
        return self


def _freeze(x, depth=0):
    if isinstance(x, np.ndarray):
        x.flags.writeable = False
    elif isinstance(x, dict):
        for v in x.values():
            _freeze(v, depth + 1)
    elif hasattr(x, '__dict__') and depth < 3:
        for v in x.__dict__.values():
            _freeze(v, depth + 1)


RAY = RayStub()
sys.modules['ray'] = RAY

# ---------------------------------------------------------------- process_map: in-process by default, real on demand
import tqdm.contrib.concurrent as _tc          # noqa: E402

_REAL_PM = _tc.process_map
PM = {'mode': 'inline', 'calls': 0}


def _process_map(fn, *iterables, **kw):
    PM['calls'] += 1
    if PM['mode'] == 'real':
        return _REAL_PM(fn, *iterables, **kw)
    return [fn(*[pickle.loads(pickle.dumps(x)) for x in xs]) for xs in zip(*iterables)]


_tc.process_map = _process_map

if REPO not in sys.path[:1]:
    sys.path.insert(0, REPO)
for _m in [m for m in sys.modules if m == 'PyAnEn' or m.startswith('PyAnEn.')]:
    del sys.modules[_m]
for _k in [k for k in os.environ if k.startswith('pyanen_')]:
    del os.environ[_k]
import PyAnEn                                   # noqa: E402

assert os.path.dirname(os.path.abspath(PyAnEn.__file__)) == os.path.join(os.path.abspath(REPO), 'PyAnEn'), PyAnEn.__file__
from PyAnEn import utils_verify as UV           # noqa: E402
from PyAnEn import utils_dist as UD             # noqa: E402
from PyAnEn import utils_special_boot as UB     # noqa: E402
from PyAnEn import utils_ss as US               # noqa: E402
from PyAnEn import utils_crps as UC             # noqa: E402
from PyAnEn import utils_approximation as UA    # noqa: E402
from PyAnEn import utils_significance as UG     # noqa: E402

DEFAULT_ENV = {
    'pyanen_ens_to_prob_method': 'moments', 'pyanen_kde_bandwidth': '0.01', 'pyanen_kde_kernel': 'gaussian',
    'pyanen_kde_samples': '1000', 'pyanen_kde_multiply_spread': '5', 'pyanen_boot_confidence': '0.95',
    'pyanen_boot_repeats': '1000', 'pyanen_boot_samples': '300', 'pyanen_tqdm_disable': 'True',
    'pyanen_tqdm_leave': 'False', 'pyanen_tqdm_workers': '1', 'pyanen_tqdm_map_axis': '-1',
    'pyanen_tqdm_chunksize': '1', 'pyanen_use_tensorflow_math': 'False', 'pyanen_skip_nan': 'False',
    'pyanen_split_crps_ensemble_along_0': 'False', 'pyanen_integrate_range_multiplier': '5',
    'pyanen_integrate_with_less_memory': 'False', 'pyanen_integrate_wdir': '',
}


@contextlib.contextmanager
def env(**kw):
    """run with the default settings plus the given ones (short names)"""
    old = {k: v for k, v in os.environ.items() if k.startswith('pyanen_')}
    for k in old:
        del os.environ[k]
    os.environ.update(DEFAULT_ENV)
    for k, v in kw.items():
        os.environ['pyanen_' + k] = str(v)
    try:
        yield
    finally:
        for k in [k for k in os.environ if k.startswith('pyanen_')]:
            del os.environ[k]
        os.environ.update(old)


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='pyvc_rt_')
    old = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- literals of the current source steer the generators
def _literals():
    out = {}
    d = os.path.join(REPO, 'PyAnEn')
    for fn in sorted(os.listdir(d)):
        if fn.endswith('.py'):
            try:
                t = ast.parse(open(os.path.join(d, fn)).read())
            except SyntaxError:
                continue
            for n in ast.walk(t):
                if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                    v = n.value
                    if v == v and abs(v) < 1e9:
                        out.setdefault(fn, []).append(v)
    return out


LITS = _literals()
_base = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'literals.json')
BASE_LITS = json.load(open(_base)) if os.path.exists(_base) else LITS
NEW_LITS = []
for _f, _vs in LITS.items():
    _b = list(BASE_LITS.get(_f, []))
    for _v in _vs:
        if _v in _b:
            _b.remove(_v)
        else:
            NEW_LITS.append(_v)
if os.environ.get('PYVC_NEWLITS'):          # self-test of the generators
    NEW_LITS += json.loads(os.environ['PYVC_NEWLITS'])
NEW_SIZES = sorted({int(v) + d for v in NEW_LITS if float(v).is_integer() and 1 < abs(v) <= 3000 for d in (-1, 0, 1)
                    if int(v) + d > 0})
NEW_VALUES = sorted(set(float(v) for v in NEW_LITS) | set(-float(v) for v in NEW_LITS))


# ---------------------------------------------------------------- cases with named, overridable choices
class Case:
    def __init__(self, prop, seed, over=None):
        self.prop, self.seed, self.over, self.log = prop, seed, over or {}, {}

    def rng(self, name):
        h = hashlib.sha256(('%s|%s|%s' % (self.prop, self.seed, name)).encode()).digest()
        return np.random.default_rng(int.from_bytes(h[:8], 'little'))

    def pick(self, name, options, p=None):
        options = list(options)
        if name in self.over:
            v = self.over[name]
        else:
            v = options[int(self.rng(name).choice(len(options), p=p))]
        self.log[name] = v
        return v

    def coin(self, name, p=0.5):
        return bool(self.pick(name, [True, False], [p, 1 - p]))

    def int(self, name, lo, hi):
        v = self.over[name] if name in self.over else int(self.rng(name).integers(lo, hi + 1))
        self.log[name] = v
        return v

    def seed_np(self, name='np'):
        np.random.seed(int(self.rng(name).integers(0, 2 ** 31 - 1)))

    # ---- shapes
    def dims(self, name='dims', lo=1, hi=4, maxsize=400, minsize=1, big=True):
        if name in self.over:
            d = [int(x) for x in self.over[name]]
            self.log[name] = d
            return tuple(d)
        r = self.rng(name)
        for _ in range(200):
            n = int(r.integers(lo, hi + 1))
            d = [int(x) for x in r.choice([1, 2, 3, 4, 5, 6, 7], size=n, p=[.12, .2, .2, .18, .12, .1, .08])]
            u = r.random()
            if big and u < .06:
                d[int(r.integers(0, n))] = int(r.choice([11, 16, 21, 33, 64, 101, 130, 257]))
            elif big and u < .08:
                d = [1] * n
                d[int(r.integers(0, n))] = int(r.choice([520, 1030, 2050]))
            elif NEW_SIZES and u < .35:
                d[int(r.integers(0, n))] = int(r.choice(NEW_SIZES))
            s = int(np.prod(d))
            lim = maxsize if not (big and u < .08) and not NEW_SIZES else max(maxsize, 4000)
            if minsize <= s <= lim:
                break
        else:
            d = [minsize] + [1] * (lo - 1)
        self.log[name] = d
        return tuple(d)

    def axes(self, name, rank, allow_none=True, form=None):
        """an averaging-axes setting: None, int, list or tuple, possibly negative / unsorted"""
        if name in self.over:
            v = self.over[name]
            self.log[name] = v
            return tuple(v) if isinstance(v, list) else v
        r = self.rng(name)
        if allow_none and r.random() < .15:
            self.log[name] = None
            return None
        k = int(r.integers(1, rank + 1))
        ax = [int(a) for a in r.permutation(rank)[:k]]
        if r.random() < .4:
            ax.sort()
        sgn = r.random()
        ax = [a - rank if (sgn < .25 or (sgn < .5 and r.random() < .5)) else a for a in ax]
        f = form or r.choice(['tuple', 'list', 'int'])
        v = ax[0] if (f == 'int' and k == 1) else (list(ax) if f == 'list' else tuple(ax))
        self.log[name] = v if not isinstance(v, tuple) else list(v)
        return v

    # ---- data
    def data(self, name, shape, kind=None, layout=True, nv=True):
        kinds = ['normal', 'ints', 'positive', 'zeros', 'dups', 'mixedscale', 'negative', 'near']
        k = kind or self.pick(name + '.kind', kinds, [.31, .2, .1, .1, .1, .1, .04, .05])
        r = self.rng(name)
        if k == 'normal':
            a = r.normal(size=shape) * 3 + 1
        elif k == 'ints':
            a = r.integers(-3, 5, size=shape).astype(float)
        elif k == 'positive':
            a = r.gamma(2., 2., size=shape) + .01
        elif k == 'zeros':
            a = np.where(r.random(size=shape) < .4, 0., r.normal(size=shape) * 2)
        elif k == 'dups':
            a = np.round(r.normal(size=shape), 0) * .5
        elif k == 'mixedscale':
            a = r.normal(size=shape) * 10. ** r.integers(-3, 4, size=shape)
        elif k == 'negative':
            a = -r.gamma(2., 2., size=shape) - .01
        elif k == 'near':
            a = r.integers(1, 4, size=shape) * (1 + 1e-7 * r.integers(0, 4, size=shape))
        elif k == 'prob':
            a = r.random(size=shape)
            m = r.random(size=shape)
            a = np.where(m < .08, 0., np.where(m < .16, 1., a))
        elif k == 'members':
            a = np.round(r.normal(size=shape) * 2, 1)
        else:
            raise AssertionError(k)
        a = np.array(a, dtype=float)
        if k in ('positive', 'prob', 'normal') and a.size > 1 and self.coin(name + '.near', .08):      # some values a hair apart
            a = np.where(r.random(size=a.shape) < .5, np.roll(a, 1) * (1 - 1e-7), a)
        if NEW_VALUES and nv and k not in ('prob',) and a.size and self.coin(name + '.newval', .3):
            m = r.random(size=a.shape) < .3
            pool = [x for x in NEW_VALUES if .01 <= x <= 1000] if k == 'positive' else \
                [x for x in NEW_VALUES if -1000 <= x <= -.01] if k == 'negative' else NEW_VALUES
            if pool:
                a = np.where(m, r.choice(pool, size=a.shape), a)
        ov = self.over.get(name + '.values')
        if ov is not None:
            for idx, v in ov:
                idx = tuple(int(i) for i in idx)
                if len(idx) == a.ndim and all(0 <= i < d for i, d in zip(idx, a.shape)):
                    a[idx] = v
        return self.layout(name, a) if layout else a

    def layout(self, name, a):
        l = self.pick(name + '.layout', ['C', 'F', 'strided', 'neg', 'T'], [.55, .15, .1, .1, .1])
        if a.ndim == 0:
            return a
        if l == 'F':
            return np.asfortranarray(a)
        if l == 'strided':
            b = np.zeros((a.shape[0] * 2,) + a.shape[1:], a.dtype)
            b[::2] = a
            return b[::2]
        if l == 'neg':
            return a[::-1].copy()[::-1]
        if l == 'T':
            return np.ascontiguousarray(a.transpose(*range(a.ndim)[::-1])).transpose(*range(a.ndim)[::-1])
        return a

    def nanify(self, name, a, p=None, full=False):
        r = self.rng(name)
        p = self.pick(name + '.pnan', [.05, .2, .5], [.4, .4, .2]) if p is None else p
        a = a.copy(order='K')
        a[r.random(size=a.shape) < p] = np.nan
        return a

    def threshold(self, name, pool):
        """a scalar threshold, often exactly one of the data values"""
        if name in self.over:
            self.log[name] = self.over[name]
            return self.over[name]
        r = self.rng(name)
        u = r.random()
        if NEW_VALUES and r.random() < .3:
            v = float(r.choice(NEW_VALUES))
        elif u < .35 and pool.size:
            v = float(r.choice(pool.ravel()))
            if u < .06 and v == v:
                v = [v * (1 - 1e-7), v * (1 + 1e-7), float(np.nextafter(v, np.inf)), float(np.nextafter(v, -np.inf))][int(u * 1e6) % 4]
        elif u < .5:
            v = float(r.choice([0., 1., -1., 2., .5, 0.1]))
        elif u < .6:
            v = int(r.choice([0, 1, 2, -1, 3]))
        elif u < .7:
            v = float(r.choice([1e6, -1e6, 50., 100.]))
        else:
            v = float(r.normal() * 2 + 1)
        if isinstance(v, float) and v != v:
            v = 0.5
        self.log[name] = v
        return v


# ---------------------------------------------------------------- comparing
def same(a, b, rtol=1e-8, atol=1e-10):
    try:
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
    except (TypeError, ValueError):
        return False
    if a.shape != b.shape:
        return False
    fin = b[np.isfinite(b)]
    sc = float(np.max(np.abs(fin))) if fin.size else 0.
    return bool(np.allclose(a, b, rtol=rtol, atol=max(atol, 1e-12 * sc), equal_nan=True))


def brief(x):
    try:
        a = np.asarray(x, dtype=float)
    except Exception:
        return repr(x)[:200]
    s = np.array2string(a.ravel()[:8], precision=6, separator=',')
    return 'shape %s values %s%s' % (a.shape, s, '...' if a.size > 8 else '')


def expect(what, got, want, **kw):
    if not same(got, want, **kw):
        g, w = np.asarray(got, dtype=object), np.asarray(want)
        where = ''
        try:
            ga, wa = np.asarray(got, float), np.asarray(want, float)
            if ga.shape == wa.shape:
                bad = np.argwhere(~np.isclose(ga, wa, rtol=1e-8, equal_nan=True))
                if len(bad):
                    i = tuple(int(t) for t in bad[0])
                    where = '; first difference at %s: got %r, expected %r' % (i, float(ga[i]), float(wa[i]))
        except Exception:
            pass
        raise Fail('%s: got %s, expected %s%s' % (what, brief(got), brief(want), where))


def must_raise(what, f):
    try:
        r = f()
    except Exception:
        return
    raise Fail('%s was accepted (returned %s)' % (what, brief(r)))


@contextlib.contextmanager
def optional():
    """calls of private helpers: renamed or re-plumbed helpers are not the property's business"""
    try:
        yield
    except (AttributeError, TypeError):
        pass


def norm_axes(ax, rank):
    if ax is None:
        return tuple(range(rank))
    if isinstance(ax, int):
        ax = (ax,)
    return tuple(sorted(a % rank for a in ax))


def cells(rank, shape, ax):
    """[(kept index, full index with slices)] in row-major order of the kept axes, and the kept shape"""
    ax = norm_axes(ax, rank)
    keep = [i for i in range(rank) if i not in ax]
    kshape = tuple(shape[i] for i in keep)
    out = []
    for k in np.ndindex(*kshape):
        idx = [slice(None)] * rank
        for i, v in zip(keep, k):
            idx[i] = v
        out.append((k, tuple(idx)))
    return out, kshape


def mean_over(metric, ax, skip=False):
    cs, ks = cells(metric.ndim, metric.shape, ax)
    out = np.full(ks, np.nan)
    for k, i in cs:
        v = np.asarray(metric[i], float).ravel()
        if skip:
            v = v[~np.isnan(v)]
        out[k] = math.fsum(v) / len(v) if len(v) and not np.isnan(v).any() else np.nan
    return out


# ---------------------------------------------------------------- verifiers
class World:
    """a verifier together with the plain data it was built from"""
    pass


CLASSES = ['Determ', 'Ensemble', 'Gaussian', 'Gamma', 'Hurdle']


def hurdle_range(o):
    return None


def build(c, cls=None, dims=None, avg=None, boot=None, nan=False, members=None, want_trunc=False, okind=None,
          classes=CLASSES, **kw):
    w = World()
    w.cls = cls or c.pick('cls', classes)
    w.dims = dims or c.dims(maxsize=kw.pop('maxsize', 240), minsize=kw.pop('minsize', 1))
    w.rank = len(w.dims)
    w.avg = avg
    w.kw = {}
    if w.cls in ('Gamma', 'Hurdle') and okind is None:
        okind = c.pick('okind', ['positive', 'zeros', 'normal'])
    w.o = c.data('o', w.dims, okind)
    if nan:
        w.o = c.nanify('o.nan', w.o)
    common = dict(avg_axis=avg, boot_samples=boot)
    if w.cls == 'Determ':
        w.f = c.data('f', w.dims)
        if nan and c.coin('fnan'):
            w.f = c.nanify('f.nan', w.f)
        w.F = w.f
    elif w.cls == 'Ensemble':
        w.M = members or c.pick('M', [1, 2, 3, 4, 5, 8, 15] + NEW_SIZES[:6])
        w.first = c.coin('first')
        shp = ((w.M,) + w.dims) if w.first else (w.dims + (w.M,))
        w.f = c.data('f', shp)
        if nan and c.coin('fnan'):
            w.f = c.nanify('f.nan', w.f, .1)
        n = len(shp)
        w.ens_axis = c.pick('ens_axis', [0, -n] if w.first else [-1, n - 1])
        w.mem = np.moveaxis(w.f, 0 if w.first else -1, 0)          # members first
        w.kw['ensemble_axis'] = w.ens_axis
    elif w.cls == 'Gaussian':
        w.f = {'mu': c.data('mu', w.dims), 'sigma': c.data('sigma', w.dims, 'positive')}
        w.trunc = c.coin('trunc', .3) if want_trunc else False
        w.kw['truncated'] = w.trunc
        if w.trunc:
            w.f['mu'] = np.clip(w.f['mu'], -2 * w.f['sigma'], c.pick('sharp', [50, 5e4]) * w.f['sigma'])
    elif w.cls == 'Gamma':
        um = c.data('umu', w.dims, 'positive')
        sh = -c.data('shift', w.dims, 'positive') * c.pick('shiftsc', [1., .1, 0., -.5])
        sg = np.abs(c.data('sigma', w.dims, 'positive'))
        sg = np.clip(sg, um * .2, um * 3) * c.pick('sharp', [1., 1., .1, .004])
        w.f = {'mu': um + sh, 'sigma': sg, 'shift': sh, 'unshifted_mu': um}
        w.trunc = c.coin('trunc', .3) if want_trunc else False
        if w.trunc:
            w.f['shift'] = sh = np.maximum(sh, -um)
            w.f['mu'] = um + sh
        w.kw['truncated'] = w.trunc
    elif w.cls == 'Hurdle':
        mu = c.data('mu', w.dims, 'positive')
        sg = np.clip(c.data('sigma', w.dims, 'positive'), mu * .2, mu * 3)
        w.f = {'pop': c.data('pop', w.dims, 'prob'), 'mu': mu, 'sigma': sg}
        w.trunc = False
        w.kw['n_approx_bins'] = c.pick('nbins', [2, 3, 5, 12, 20])
        r = c.pick('irange', [None, (0., 30.), (-5., 40.)])
        w.kw['integration_range'] = tuple(r) if r is not None else None
        with env():
            g = integ_grid(w, None)
        if ((np.abs(g) < 1e-6 * (1 + np.abs(g).max())) & (g != 0)).any():      # rounding near the point mass at zero
            w.kw['integration_range'] = (-4.9, 33.1)
    w.kw.update(common)
    w.kw.update(kw)
    w.make = lambda **k2: klass(w.cls)(w.f, w.o, **{**w.kw, **k2})
    w.v = w.make()
    return w


def klass(name):
    return getattr(PyAnEn, 'Verify' + {'Determ': 'Determ', 'Ensemble': 'Ensemble', 'Gaussian': 'ProbGaussian',
                                       'Gamma': 'ProbGamma', 'Hurdle': 'ProbGammaHurdle'}[name])


def determ(w):
    """the specification's deterministic forecast"""
    if w.cls == 'Determ':
        return np.array(w.f)
    if w.cls == 'Ensemble':
        return w.mem.mean(axis=0)
    if w.cls in ('Gaussian', 'Gamma'):
        return np.array(w.f['mu'])
    return hurdle_mean(w)


# ---------------------------------------------------------------- distribution specifications
from scipy import special as _sp               # noqa: E402


def cdf_spec(w, x):
    x = np.broadcast_to(np.asarray(x, float), w.dims)
    if w.cls == 'Ensemble':
        return (w.mem <= x[None]).sum(axis=0) / w.M
    if w.cls == 'Gaussian':
        mu, sg = w.f['mu'], w.f['sigma']
        p = _sp.ndtr((x - mu) / sg)
        if w.trunc:
            p0 = _sp.ndtr(-mu / sg)
            p = np.where(x < 0, 0., (p - p0) / (1 - p0))
        return np.clip(p, 0, 1)
    if w.cls == 'Gamma':
        k = (w.f['unshifted_mu'] / w.f['sigma']) ** 2
        th = w.f['sigma'] ** 2 / w.f['unshifted_mu']
        g = lambda y: _sp.gammainc(k, np.maximum(y - w.f['shift'], 0) / th)
        p = g(x)
        if w.trunc:
            p0 = g(np.zeros(w.dims))
            p = np.where(x < 0, 0., (p - p0) / (1 - p0))
        return np.clip(p, 0, 1)
    k = (w.f['mu'] / w.f['sigma']) ** 2
    th = w.f['sigma'] ** 2 / w.f['mu']
    p = 1 - w.f['pop'] + w.f['pop'] * _sp.gammainc(k, np.maximum(x, 0) / th)
    p = np.where(x < 0, 0., p)
    return np.clip(p, 0, 1)


def integ_grid(w, v):
    r, n = w.kw.get('integration_range'), w.kw.get('n_approx_bins', 20)
    if r is None:
        m = int(os.environ['pyanen_integrate_range_multiplier'])
        lo, hi = float(np.min(w.o)), float(np.max(w.o))
        r = (lo - m * (hi - lo), hi + m * (hi - lo))
    if n == 1:
        return np.array([r[0]])
    return np.linspace(r[0], r[1], n)


def hurdle_mean(w):
    xs = integ_grid(w, w.v)
    F = [cdf_spec(w, x) for x in xs]
    out = np.zeros(w.dims)
    for i in range(len(xs) - 1):
        out += .5 * (xs[i] + xs[i + 1]) * (F[i + 1] - F[i])
    return out
