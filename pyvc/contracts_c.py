from .contracts import *
from .contracts import T, C, L, SArr, SNum, TRUE, FALSE
from .contracts_a import workers, threshold, distributions, ens_below
from .contracts_b import event, prob_below
from . import smt
from . import loader as LD
import itertools


# ---------------------------------------------------------------- C17
def cfg_c17(tier):
    out = []
    for r in ranks(tier):
        for skip in (False, True):
            for nan in ((False, True) if skip else (False,)):
                out.append(dict(rank=r, skip=skip, cls='pairs', side='over', nan=nan, _hints=hint(skip_nan=skip)))
            for cls, f, tr in distributions():
                for side in ('over', 'below'):
                    out.append(dict(rank=r, skip=skip, cls=cls, first=f, trunc=tr, side=side, _hints=hint(cls=cls, skip_nan=skip)))
    return out


def roc_pairs(run, label, got, ex, pf, ef, skip):
    """got = (fpr, tpr, area) must be the curve of all pairs (probability, event), in any common order of the axes"""
    ok = isinstance(got, (tuple, list)) and len(got) == 3
    run.goal(label + ': a curve and its area', TRUE if ok else FALSE)
    if not ok:
        return
    fpr, tpr, area = got
    calls = [c for c in C.CUR.calls if c[0] == 'roc_curve' and isinstance(fpr, L.Opaque) and c[1] is fpr.args]
    ok = len(calls) == 1 and isinstance(tpr, L.Opaque) and (fpr.name, tpr.name) == ('fpr', 'tpr') and tpr.args is fpr.args \
        and isinstance(area, L.Opaque) and area.name == 'auc' and area.args[0] is fpr and area.args[1] is tpr
    run.goal(label + ': false and true positive rates of one curve, and the area under it', TRUE if ok else FALSE)
    if not ok:
        return
    y, s = calls[0][1]
    r = len(ex)
    order = tuple(range(r))
    for perm in itertools.permutations(range(r)):
        if s.ndim == 1 and tuple(s.axes[0]) == tuple(ex[p] for p in perm):
            order = perm
            break

    def flat(f):
        def g(idx):
            full = [None] * r
            for k, p in enumerate(order):
                full[p] = idx[k]
            return f(tuple(full))
        return g
    guard = None
    if skip and (s.guard is not None or y.guard is not None):
        guard = flat(lambda idx: T.not_(pf(idx)[1]))
    axes = [tuple(ex[p] for p in order)]
    run.same(label + ': probabilities', s, SArr.new(axes, flat(pf), 'float', guard))
    run.same(label + ': events', y, SArr.new(axes, flat(ef), 'bool', guard))
    if skip and guard is None:
        ks = tuple(T.fresh('i') for _ in ex)
        run.goal(label + ': no pair with a missing probability', T.not_(pf(ks)[1]), smt.bounds(ks, ex))


@contract('C17', cfg_c17)
def roc(run):
    g = run.cfg
    workers(run, False)
    run.env(skip_nan=g['skip'])
    r = g['rank']
    UV_of = lambda: run.w.load('utils_verify')
    if g['cls'] == 'pairs':
        run.world()
        ex = dims(r)
        p = run.data('p', ex, nan=g['nan'], lo=0, hi=1)
        e = run.data('e', ex, kind='bool')
        roc_pairs(run, 'calculate_roc', UV_of().calculate_roc(p, e), ex, lambda idx: at(p, idx), lambda idx: at(e, idx), g['skip'])
        run.frame()
        return
    v = V(run, g['cls'], r, nan=g['cls'] == 'Ensemble', trunc=g['trunc'], first=g['first'])
    ver = v.make()
    t = run.num('t')
    over = g['side'] == 'over'
    kw = {g['side']: t}
    pf = C.as_arr(ver.cdf(**kw)).fn()
    ef = lambda idx: (event(v.O(idx), (t.v, FALSE), over), FALSE)
    for nm in ('_roc', 'roc'):
        roc_pairs(run, nm, getattr(ver, nm)(**kw), v.ex, pf, ef, g['skip'])
    run.frame()


# ---------------------------------------------------------------- C25
def cfg_c25(tier):
    out = []
    for r in (1, 2) if tier == 'quick' else (1, 2, 3):
        for crit in ('MSE', 'MAD', 'MAPE', 'poly'):
            for h in ('one', 'any'):
                out.append(dict(rank=r, crit=crit, h=h))
    return out


def nat(name, lo=1):
    """an integer of at least lo"""
    return SNum(T.add(T.var(name, 'I'), T.const(lo - 1)), FALSE, 'int')


@contract('C25', cfg_c25)
def diebold_mariano(run):
    g = run.cfg
    workers(run, False)
    run.world()
    DM = run.w.load('utils_significance').diebold_mariano_test
    r = g['rank']
    ex = dims(r)
    a, p1, p2 = (run.data(x, ex) for x in ('a', 'p1', 'p2'))
    n = T.mul(*ex)
    h = nat('Nh') if g['h'] == 'any' else 1
    hv = C.lift(h)[0]
    w = run.num('w') if g['crit'] == 'poly' and g['h'] == 'any' else 2
    kw = dict(h=h, crit=g['crit'], power=w)
    if not C.branch(T.lt(hv, n)):
        run.rejects('horizon not below the number of cases', lambda: DM(a, p1, p2, **kw))
        return
    one = T.const(1)

    def loss(x, y):
        d = T.sub(x, y)
        if g['crit'] == 'MSE':
            return T.powi(d, 2)
        if g['crit'] == 'MAD':
            return T.abs_(d)
        if g['crit'] == 'MAPE':
            return T.abs_(T.div(d, x))
        return C.lift(C.SNum(d, FALSE, 'float') ** w)[0]

    # the series in row-major order, and its autocovariances
    D = C.as_arr(arr(ex, lambda idx: (T.sub(loss(at(a, idx)[0], at(p1, idx)[0]), loss(at(a, idx)[0], at(p2, idx)[0])), FALSE)).ravel())
    dbar = C.lift(D.mean())[0]
    if r > 1 and g['h'] == 'any':
        D = D.flat_axis(0)
    fd = D.fn()

    def gam(lag):
        i = T.fresh('i')
        m = T.sub(n, lag)
        if len(D.axes[0]) > 1:
            bs = [(T.fresh('i'), e) for e in ex]
            x = fd(tuple(v for v, _ in bs))[0]
            return T.div(T.sum_(bs, T.powi(T.sub(x, dbar), 2)), m)
        return T.div(T.sum_([(i, m)], T.mul(T.sub(fd((T.add(i, lag),))[0], dbar), T.sub(fd((i,))[0], dbar))), m)
    V = gam(T.const(0))
    if g['h'] == 'any':
        k = T.fresh('k')
        V = T.add(V, T.mul(T.const(2), T.sum_([(k, T.sub(hv, one))], gam(T.add(k, one)))))
    adj = T.div(T.add(n, one, T.mul(T.const(-2), hv), T.div(T.mul(hv, T.sub(hv, one)), n)), n)
    want = SNum(T.mul(T.sqrt(adj), T.div(dbar, T.sqrt(T.div(V, n)))), FALSE, 'float')
    stat, p = DM(a, p1, p2, **kw)
    run.same('statistic', stat, want)
    df = T.sub(n, one)
    run.same('p-value', p, SNum(T.mul(T.const(2), T.uf('TCDF', (df, T.neg(T.abs_(C.lift(stat)[0]))))), C.lift(stat)[1], 'float'))
    s2, q2 = DM(a, p2, p1, **kw)
    run.same('exchange negates the statistic', s2, -stat)
    run.same('exchange keeps the p-value', q2, p)
    # the p-value is a probability: lemma over any statistic
    z = T.var('z', 'R')
    pz = T.mul(T.const(2), T.uf('TCDF', (df, T.neg(T.abs_(z)))))
    H = [T.le(one, df)]
    run.goal('lemma: p-value at least 0', T.le(T.const(0), pz), H)
    run.goal('lemma: p-value at most 1', T.le(pz, one), H)
    run.frame()


def cfg_c25r(tier):
    return [dict(case=c) for c in ('first', 'second', 'both', 'h', 'crit', 'case')]


@contract('C25', cfg_c25r)
def rejections(run):
    c = run.cfg['case']
    run.world()
    DM = run.w.load('utils_significance').diebold_mariano_test
    n, m, l = dims(3)
    A = lambda nm, e: run.data(nm, [e])
    if c in ('first', 'second', 'both'):
        n1, n2 = {'first': (m, n), 'second': (n, m), 'both': (m, l)}[c]
        a, p1, p2 = A('a', n), A('p1', n1), A('p2', n2)
        bad = T.or_(T.not_(T.eq(n, n1)), T.not_(T.eq(n, n2)))
        if C.branch(bad):
            run.rejects('unequal lengths', lambda: DM(a, p1, p2))
        return
    a, p1, p2 = A('a', n), A('p1', n), A('p2', n)
    if c == 'h':
        h = run.num('h', 'int')
        if C.branch(T.lt(h.v, T.const(1))):
            run.rejects('horizon below one', lambda: DM(a, p1, p2, h=h))
        return
    for crit in ('mse', 'RMSE', 'Poly', '', None, 'MSEMAD') if c == 'crit' else ('MAE', 'mape', 'mad', 0):
        run.rejects('criterion %r' % (crit,), lambda: DM(a, p1, p2, crit=crit))


# ---------------------------------------------------------------- C20
class StubVerifier:
    """any verifier: its distribution function and Brier score at a threshold are arbitrary functions of threshold and case"""
    working_directory = None

    def __init__(self, o):
        self.o = o
        self.exts = o.exts

    def _at(self, name, t):
        tv = C.lift(t)[0]
        return arr(self.exts, lambda idx: (T.uf(name, (tv,) + tuple(idx), 'R'), FALSE))

    def cdf(self, over=None, below=None):
        if (over is None) == (below is None):
            raise C.Unsupported('stub cdf')
        return self._at('Fdist', below) if over is None else 1 - self._at('Fdist', over)

    _cdf = cdf

    def _brier(self, over=None, below=None):
        if (over is None) == (below is None):
            raise C.Unsupported('stub brier')
        return self._at('Bbelow', below) if over is None else self._at('Bover', over)

    def to_name(self, metric, **kw):
        return 'name'

    def _metric_workflow_1(self, name, func, *a, **k):
        return func(*a, **k)


def cfg_c20(tier):
    out = []
    for r in ranks(tier):
        for par in (False, True):
            for less in (False, True):
                for rg in ('default', 'given'):
                    out.append(dict(rank=r, par=par, less=less, range=rg))
    return out


def quadrature(run, r, par, less, rg, label=''):
    """one Integration object and what its three results must be"""
    kw = dict(integrate_with_less_memory=less)
    kw['tqdm_workers'] = SNum(T.add(T.var('Nw', 'I'), T.const(1)), FALSE, 'int') if par else 1
    if rg == 'default':
        kw['integrate_range_multiplier'] = nat('Nmult')
    run.env(**kw)
    o = run.o if hasattr(run, 'o') else run.data('o', dims(r))
    run.o = o
    A = run.w.load('utils_approximation')
    n = T.add(T.var('Nbins', 'I'), T.const(1))
    nb = SNum(n, FALSE, 'int')
    ver = StubVerifier(o)
    if rg == 'default':
        bs = [(T.fresh('b'), e) for e in o.exts]
        x = at(o, tuple(v for v, _ in bs))[0]
        lo, hi = T.bind('bmin', bs, [TRUE, x]), T.bind('bmax', bs, [TRUE, x])
        w = T.mul(T.var('Nmult', 'I'), T.sub(hi, lo))
        lo, hi = T.sub(lo, w), T.add(hi, w)
        I = A.Integration(ver, nbins=nb)
    else:
        lo, hi = T.var('lo', 'R'), T.var('hi', 'R')
        I = A.Integration(ver, integration_range=(SNum(lo, FALSE, 'float'), SNum(hi, FALSE, 'float')), nbins=nb)
    m = T.sub(n, T.const(1))

    def X(k):
        return T.add(lo, T.mul(k, T.div(T.sub(hi, lo), m)))
    half = T.const('1/2')

    def spec(body):
        def f(idx):
            k = T.fresh('k')
            return T.sum_([(k, m)], T.mul(half, body(X(k), X(T.add(k, T.const(1))), tuple(idx)))), FALSE
        return f
    F = lambda x, idx: T.uf('Fdist', (x,) + idx, 'R')
    B = lambda x, idx: T.uf('Bbelow', (x,) + idx, 'R')
    mean = spec(lambda a, b, i: T.mul(T.add(a, b), T.sub(F(b, i), F(a, i))))
    second = spec(lambda a, b, i: T.mul(T.add(T.powi(a, 2), T.powi(b, 2)), T.sub(F(b, i), F(a, i))))
    crps = spec(lambda a, b, i: T.mul(T.add(B(a, i), B(b, i)), T.sub(b, a)))

    def var(idx):
        return T.sub(second(idx)[0], T.powi(mean(idx)[0], 2)), FALSE
    return I, o, dict(mean=mean, variance=var, crps=crps)


@contract('C20', cfg_c20)
def integration(run):
    g = run.cfg
    run.world()
    if g['less']:
        C.CUR.fs = L.GhostFS()
    I, o, want = quadrature(run, g['rank'], g['par'], g['less'], g['range'])
    for m in ('mean', 'variance', 'crps'):
        run.same(m, getattr(I, m)(), arr(o.exts, want[m]))
    run.frame()


def cfg_c20h(tier):
    out = []
    for r in ranks(tier):
        for par in (False, True):
            for less in (False, True):
                for rg in ('default', 'given'):
                    out.append(dict(rank=r, par=par, less=less, range=rg, _hints=hint(cls='Hurdle')))
    return out


def hurdle_cdf(pop, mu, sigma, below):
    """contract of cdf_gamma_hurdle (its body is verified under C06): at each case a function of its parameters and the threshold"""
    fs = [C.as_arr(x).fn() for x in (pop, mu, sigma)]
    tf = C.as_arr(below).fn() if isinstance(below, SArr) else None
    tv = None if tf else C.lift(below)[0]
    return arr(C.as_arr(mu).exts, lambda idx: (T.uf('Hcdf', tuple(f(idx)[0] for f in fs) + (tf(idx)[0] if tf else tv,), 'R'), FALSE))


@contract('C20', cfg_c20h)
def hurdle(run):
    """the gamma-hurdle class integrates its own distribution function over its own range and number of bins"""
    g = run.cfg
    run.world({('VerifyProbGammaHurdle', 'cdf_gamma_hurdle'): hurdle_cdf})
    if g['less']:
        C.CUR.fs = L.GhostFS()
    workers(run, g['par'])
    run.env(integrate_with_less_memory=g['less'])
    v = V(run, 'Hurdle', g['rank'])
    if g['range'] == 'given':
        lo, hi = T.var('lo', 'R'), T.var('hi', 'R')
        v.kw['integration_range'] = (SNum(lo, FALSE, 'float'), SNum(hi, FALSE, 'float'))
        rng = (lo, hi)
    else:
        rng = default_range(v)
    ver = v.make()
    half, m = T.const('1/2'), T.sub(v.nb, T.const(1))

    def total(body):
        def f(idx):
            k = T.fresh('k')
            a, b = grid(v, k, rng), grid(v, T.add(k, T.const(1)), rng)
            return T.sum_([(k, m)], T.mul(half, body(a, b, tuple(idx)))), FALSE
        return f
    F = lambda x, i: T.uf('Hcdf', (v.par('pop', i), v.par('mu', i), v.par('sigma', i), x), 'R')

    def B(x, i):
        d = T.sub(F(x, i), T.ind(T.lt(v.O(i)[0], x)))
        return T.mul(d, d)
    mean = total(lambda a, b, i: T.mul(T.add(a, b), T.sub(F(b, i), F(a, i))))
    second = total(lambda a, b, i: T.mul(T.add(T.powi(a, 2), T.powi(b, 2)), T.sub(F(b, i), F(a, i))))
    crps = total(lambda a, b, i: T.mul(T.add(B(a, i), B(b, i)), T.sub(b, a)))
    var = lambda i: (T.sub(second(i)[0], T.powi(mean(i)[0], 2)), FALSE)
    run.same('mean', ver.f_determ(), arr(v.ex, mean))
    run.same('variance', ver._variance(), arr(v.ex, var))
    run.same('crps', ver._crps(), arr(v.ex, crps))
    ver2 = v.make(avg_axis=())
    run.same('public crps', ver2.crps(), arr(v.ex, crps))
    run.frame()


# ---------------------------------------------------------------- C07
def cfg_c07(tier):
    out = []
    for r in ranks(tier):
        for cls, f, tr in distributions():
            for kind in ('float', 'array'):
                for ax in (range(-r, 0) if cls != 'Ensemble' else (-1,)):
                    out.append(dict(cls=cls, rank=r, trunc=tr, first=f, thr=kind, axis=ax, _hints=hint(cls=cls, trunc=tr, first=f)))
    return out


@contract('C07', cfg_c07)
def probabilities(run):
    g = run.cfg
    workers(run, False)
    v = V(run, g['cls'], g['rank'], trunc=g['trunc'], first=g['first'], nan=g['cls'] == 'Ensemble')
    t, tf = threshold(run, v, g['thr'])
    serial = v.make().cdf(below=t)
    over = v.make().cdf(over=t)
    workers(run, True, g['axis'], chunk=True)
    run.same('below', v.make().cdf(below=t), serial)
    run.same('over', v.make().cdf(over=t), over)
    run.frame()


def cfg_c07i(tier):
    return [dict(rank=r, less=less, range=rg) for r in ranks(tier) for less in (False, True) for rg in ('default', 'given')]


@contract('C07', cfg_c07i)
def integrals(run):
    g = run.cfg
    run.world()
    if g['less']:
        C.CUR.fs = L.GhostFS()
    I, o, want = quadrature(run, g['rank'], False, g['less'], g['range'])
    J, o, want = quadrature(run, g['rank'], True, g['less'], g['range'])
    for m in ('mean', 'variance', 'crps'):
        run.env(tqdm_workers=1)
        a = getattr(I, m)()
        run.env(tqdm_workers=SNum(T.add(T.var('Nw', 'I'), T.const(1)), FALSE, 'int'))
        b = getattr(J, m)()
        run.same(m, b, a)
    run.frame()


def kde_stub(ens, *a, **k):
    """any estimate computed from the threshold and the members of one case: an arbitrary function of their sequence"""
    x = C.as_arr(ens).ravel()
    vs = [(T.fresh('m'), e) for e in x.exts]
    e = x.fn()(tuple(v for v, _ in vs))
    return SNum(T.sum_(vs, T.uf('kde', tuple(v for v, _ in vs) + (e[0], T.ind(e[1])), 'R')), FALSE, 'float')


def cfg_c07k(tier):
    return [dict(rank=r, first=f, thr=k) for r in ranks(tier) for f in (False, True) for k in ('float', 'array')]


@contract('C07', cfg_c07k)
def density_estimate(run):
    """the kernel density method: serial and parallel runs hand every case's threshold and members to the same estimator"""
    g = run.cfg
    run.world({('utils_verify', 'ens_to_prob_kde'): kde_stub})
    v = V(run, 'Ensemble', g['rank'], first=g['first'])
    t, tf = threshold(run, v, g['thr'])
    run.env(ens_to_prob_method='kde')
    run.env(tqdm_workers=1)
    serial = v.make().cdf(below=t)
    workers(run, True, -1, chunk=True)
    run.env(ens_to_prob_method='kde')
    run.same('below', v.make().cdf(below=t), serial)

    def spec(idx):
        m = T.fresh('m')
        x = v.mem(T.sub(m, T.const(1)), idx)
        first = T.lt(m, T.const(1))
        e = [T.ite(first, p, q) for p, q in zip((tf(idx)[0], T.ind(tf(idx)[1])), (x[0], T.ind(x[1])))]
        return T.sum_([(m, T.add(v.M, T.const(1)))], T.uf('kde', (m, e[0], e[1]), 'R')), FALSE
    run.same('threshold and members of the case', serial, arr(v.ex, spec))
    run.frame()
