"""The contracts: what every public operation must do, stated on the real code's inputs and results.

Each contract names a configuration family (class, number of axes, averaging axes, settings); within a configuration every
extent, every value, every number of members / bins / replicates is symbolic, so a discharged obligation holds for all of them."""
import itertools
from . import terms as T
from . import core as C
from . import libmodels as L
from .core import SArr, SNum, TRUE, FALSE
from .vc import contract, declare, dims, Run

ASSUMPTIONS = [
    'floating point arithmetic is treated as exact real arithmetic (rounding, overflow and signed zero are not modelled)',
    'the number of axes is enumerated (rank 1 to 3, thorough 1 to 4); extents are symbolic and at least 1',
    'numpy, scipy, pandas, sklearn, properscoring, ray, tqdm, pickle and the file system behave as their assumed contracts in pyvc/npmodel.py and pyvc/libmodels.py state',
    'pyvc itself (rewriting, symbolic execution, loop summaries, equational prover) and z3 are trusted',
]
PROP_ASSUMPTIONS = {
    'C01': ['the hurdle forecast mean is the integral of its distribution as C20 specifies it'],
    'C03': ['numpy.random.randint draws are uniform and independent'],
    'C04': ['scipy.stats CDFs are monotone with values in [0, 1]'],
    'C06': ['scipy.stats norm.cdf and gamma.cdf are the CDFs they are named after'],
    'C07': ['ray and ThreadPool run every submitted task exactly once, in any order'],
    'C08': ['numpy/scipy samplers return the quantile function at independent uniforms', 'forked worker processes are not modelled (known finding)'],
    'C09': ['numpy.random.randint draws are uniform and independent', 'equal ranks iff equal values (rankdata)'],
    'C12': ['probabilities are not NaN'],
    'C13': ['probabilities are not NaN', 'digitize on equally spaced edges is the whole part'],
    'C14': ['argsort breaks ties by position'],
    'C17': ['scikit-learn computes the curve from the pairs it is handed'],
    'C19': ['finiteness in floating point and equality of the closed forms with the CRPS integral are checked at run time only (bounded)'],
    'C21': ['the clean-up calls (exists, remove) do not themselves fail'],
    'C22': ['str and repr of floats are injective', 'pickle round-trips'],
    'C23': ['os.replace is atomic', 'a write interrupted by a crash leaves a prefix of its bytes'],
    'C25': ['the Student t CDF is symmetric, monotone and in [0, 1]'],
    'C26': ['str(float) is injective and contains no separator'],
    'C28': ['xarray combines chunks in the order of their coordinate', 'r + i/n < r + 1 in real arithmetic'],
    'C30': ['xarray datasets keep what is assigned, rename and decode as documented', 'netCDF4 returns what is stored'],
}

NAMES = ('Na', 'Nb', 'Nc', 'Nd', 'Ne')


# ---------------------------------------------------------------- enumeration of configurations
def ranks(tier, lo=1):
    return range(lo, 5 if tier == 'thorough' else 4)


def subsets(r):
    return [s for k in range(1, r + 1) for s in itertools.combinations(range(r), k)]


def axis_forms(r, tier):
    """averaging axes as given by the user -> [(form, axes covered)]"""
    out = [(None, tuple(range(r)))]
    for s in subsets(r):
        out.append((s, s))
    if tier == 'thorough':
        for s in subsets(r):
            out.append((tuple(x - r for x in s), s))
            out.append((list(s), s))
            if len(s) > 1:
                out.append((s[::-1], s))
                out.append((tuple(x - r if k % 2 else x for k, x in enumerate(s)), s))
    else:
        out.append((-1, (r - 1,)))
        out.append((0, (0,)))
        out.append(([0], (0,)))
        if r > 1:
            out.append(((-1, 0), (0, r - 1)))
            out.append(((r - 1, 0), (0, r - 1)))
            out.append(([-2], (r - 2,)))
        if r > 2:
            out.append(((1, -3), (0, 1)))
            out.append(((-1, -2), (1, 2)))
    return out


# ---------------------------------------------------------------- specification terms
def atoms(exts, base='i'):
    return tuple(T.fresh('i') for _ in exts)


def arr(exts, f, kind='float'):
    """specification array over the given extents"""
    return SArr.new([(e,) for e in exts], lambda idx: f(tuple(idx)), kind)


def at(a, idx):
    return a.fn()(tuple(idx))


def cell(r, keep, k, s):
    """full index from kept index k and sampled index s"""
    out = [None] * r
    k, s = list(k), list(s)
    for x in range(r):
        out[x] = k.pop(0) if x in keep else s.pop(0)
    return tuple(out)


def mean_term(bs, e, skip=False):
    """mean of the element e over the binders bs"""
    v, n = e
    v = C.tonum(v)
    if skip:
        ok = T.not_(n)
        cnt = T.sum_(bs, T.ind(ok))
        return T.div(T.sum_(bs, T.mul(T.ind(ok), v)), cnt), T.eq(cnt, T.const(0))
    return T.div(T.sum_(bs, v), T.mul(*[e for _, e in bs]) if bs else T.const(1)), T.bind('exists', bs, [n])


def over_axes(a, covered, red):
    """specification: reduce array a (one atom per axis) over the covered axes with red(binders, element)"""
    exts = a.exts
    r = len(exts)
    keep = [x for x in range(r) if x not in covered]
    samp = [x for x in range(r) if x in covered]
    f = a.fn()

    def g(k):
        vs = [T.fresh('b') for _ in samp]
        bs = [(v, exts[x]) for v, x in zip(vs, samp)]
        return red(bs, f(cell(r, keep, k, vs)))
    return arr([exts[x] for x in keep], g)


def red_mean(skip):
    return lambda bs, e: mean_term(bs, e, skip)


def minmax(bs, e, mx, skip=False):
    kind = 'bmax' if mx else 'bmin'
    v, n = e
    if skip:
        return None
    return T.bind(kind, bs, [TRUE, v]), T.bind('exists', bs, [n])


# ---------------------------------------------------------------- symbolic verifiers
CLS = {'Determ': ('VerifyDeterm', 'VerifyDeterm'), 'Ensemble': ('VerifyEnsemble', 'VerifyEnsemble'),
       'Gaussian': ('VerifyProbGaussian', 'VerifyProbGaussian'), 'Gamma': ('VerifyProbGamma', 'VerifyProbGamma'),
       'Hurdle': ('VerifyProbGammaHurdle', 'VerifyProbGammaHurdle')}


class V:
    """inputs of a verifier of one class, and how to construct it"""

    def __init__(self, run, cls, rank, nan=False, onan=None, first=False, M=None, trunc=False, ex=None, **kw):
        self.run, self.cls, self.rank = run, cls, rank
        if run.w is None:
            run.world(STUB if cls == 'Hurdle' else None)
        ex = self.ex = list(ex) if ex is not None else dims(rank)
        self.kw = dict(kw)
        self.o = run.data('o', ex, nan if onan is None else onan)
        self.trunc = trunc
        if cls == 'Determ':
            self.f = run.data('f', ex, nan)
        elif cls == 'Ensemble':
            self.M = M if M is not None else T.var('Nm', 'I')
            self.first = first
            fe = [self.M] + list(ex) if first else list(ex) + [self.M]
            self.f = run.data('f', fe, nan)
            self.kw.setdefault('ensemble_axis', 0 if first else -1)
        elif cls == 'Gaussian':
            self.f = {'mu': run.data('mu', ex), 'sigma': run.data('sigma', ex, lo=0, lo_open=True)}
            self.kw['truncated'] = trunc
        elif cls == 'Gamma':
            self.f = {'mu': run.data('mu', ex), 'sigma': run.data('sigma', ex, lo=0, lo_open=True),
                      'shift': run.data('shift', ex, hi=0) if trunc else run.data('shift', ex),
                      'unshifted_mu': run.data('umu', ex, lo=0, lo_open=True)}
            self.kw['truncated'] = trunc
        else:
            self.f = {'pop': run.data('pop', ex, lo=0, hi=1), 'mu': run.data('hmu', ex, lo=0, lo_open=True),
                      'sigma': run.data('sigma', ex, lo=0, lo_open=True)}
            self.nb = T.add(T.var('Nq', 'I'), T.const(1))
            self.kw.setdefault('n_approx_bins', SNum(self.nb, FALSE, 'int', ext=(self.nb,)))

    def make(self, **kw):
        mod, c = CLS[self.cls]
        return getattr(self.run.w.load(mod), c)(self.f, self.o, **{**self.kw, **kw})

    # specification values at an index
    def O(self, idx):
        return at(self.o, idx)

    def mem(self, m, idx):
        return at(self.f, (m,) + tuple(idx) if self.first else tuple(idx) + (m,))

    def F(self, idx):
        """deterministic forecast"""
        if self.cls == 'Determ':
            return at(self.f, idx)
        if self.cls == 'Ensemble':
            v = T.fresh('b')
            return mean_term([(v, self.M)], self.mem(v, idx))
        if self.cls in ('Gaussian', 'Gamma'):
            return at(self.f['mu'], idx)
        return T.uf('Imean', tuple(idx), 'R'), FALSE

    def par(self, k, idx):
        return at(self.f[k], idx)[0]

    def below(self, t, idx):
        """probability of not exceeding t (a real term) at the case idx"""
        p = self.par
        if self.cls == 'Ensemble':
            v = T.fresh('b')
            m = self.mem(v, idx)
            return T.div(T.sum_([(v, self.M)], T.ind(T.and_(T.not_(m[1]), T.le(m[0], t)))), self.M)
        if self.cls == 'Gaussian':
            mu, sg = p('mu', idx), p('sigma', idx)
            c = T.uf('Phi', (T.div(T.sub(t, mu), sg),))
            if not self.trunc:
                return c
            c0 = T.uf('Phi', (T.div(T.neg(mu), sg),))
            return T.ite(T.le(t, T.const(0)), T.const(0), T.div(T.sub(c, c0), T.sub(T.const(1), c0)))
        if self.cls == 'Gamma':
            mu, sg, sh = p('unshifted_mu', idx), p('sigma', idx), p('shift', idx)
            return self.gcdf(mu, sg, sh, t)
        pop, mu, sg = p('pop', idx), p('mu', idx), p('sigma', idx)
        return T.ite(T.lt(t, T.const(0)), T.const(0),
                     T.add(T.sub(T.const(1), pop), T.ite(T.lt(T.const(0), t), T.mul(pop, self.gcdf(mu, sg, T.const(0), t)), T.const(0))))

    def gcdf(self, mu, sg, sh, t):
        shape = T.powi(T.div(mu, sg), 2)
        scale = T.div(T.powi(sg, 2), mu)

        def G(x):
            return T.ite(T.lt(T.const(0), x), T.uf('GammaCDF', (shape, x)), T.const(0))
        z = T.div(T.sub(t, sh), scale)
        if not self.trunc:
            return G(z)
        g0 = G(T.div(T.neg(sh), scale))
        return T.ite(T.le(t, T.const(0)), T.const(0), T.div(T.sub(G(z), g0), T.sub(T.const(1), g0)))


def grid(v, k, rng=None):
    """k-th point of the integration grid"""
    lo, hi = rng
    return T.add(lo, T.mul(k, T.div(T.sub(hi, lo), T.sub(v.nb, T.const(1)))))


def default_range(v, mult=T.const(5)):
    ex = v.ex
    vs = [T.fresh('b') for _ in ex]
    bs = list(zip(vs, ex))
    o = v.O(vs)
    lo = T.bind('bmin', bs, [TRUE, o[0]])
    hi = T.bind('bmax', bs, [TRUE, o[0]])
    w = T.mul(mult, T.sub(hi, lo))
    return T.sub(lo, w), T.add(hi, w)


def hurdle_mean(v, idx, rng=None):
    rng = rng or default_range(v)
    k = T.fresh('b')
    k1 = T.add(k, T.const(1))
    x0, x1 = grid(v, k, rng), grid(v, k1, rng)
    half = T.const('1/2')
    body = T.mul(half, T.add(x0, x1), T.sub(v.below(x1, idx), v.below(x0, idx)))
    return T.sum_([(k, T.sub(v.nb, T.const(1)))], body), FALSE


class IntegrationContract:
    """contract of utils_approximation.Integration as its callers see it (its body is verified under C20): mean, variance and CRPS are
    arrays over the cases, functions of the verifier, the range and the number of bins it was built with"""
    made = None

    def __init__(self, verifier, integration_range=None, nbins=20, **kw):
        self.args = (verifier, integration_range, nbins, kw)
        C.CUR.__dict__.setdefault('integrations', []).append(self)

    def _r(self, name):
        exts = self.args[0].o.exts
        return arr(exts, lambda idx: (T.uf(name, tuple(idx), 'R'), FALSE))

    def mean(self):
        return self._r('Imean')

    def variance(self):
        return self._r('Ivar')

    def crps(self):
        return self._r('Icrps')


STUB = {('VerifyProbGammaHurdle', 'Integration'): IntegrationContract, ('utils_approximation', 'Integration'): IntegrationContract}


def hint(**kw):
    return [kw]


ALL = ['Determ', 'Ensemble', 'Gaussian', 'Gamma', 'Hurdle']
PROB = ['Ensemble', 'Gaussian', 'Gamma', 'Hurdle']


def diff_terms(v, idx):
    F, O = v.F(idx), v.O(idx)
    d = T.sub(F[0], O[0])
    n = T.or_(F[1], O[1])
    return {'error': (d, n), 'ab_error': (T.abs_(d), n), 'sq_error': (T.mul(d, d), n)}


def load_all():
    import importlib
    import os
    for f in sorted(os.listdir(os.path.dirname(__file__))):
        if f.startswith('contracts_') and f.endswith('.py'):
            importlib.import_module('pyvc.' + f[:-3])
