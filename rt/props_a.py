"""Executable contracts C01..C13 against the real code."""
from common import *

PROPS = {}


def prop(pid, weight=1):
    def deco(f):
        PROPS[pid] = f
        f.weight = weight
        return f
    return deco


# ---------------------------------------------------------------- C01
@prop('C01')
def c01(c):
    with env():
        w = build(c)
        kind = c.pick('kind', ['plain', 'agg', 'collapse'])
        fn = None
        if w.cls == 'Ensemble' and kind == 'collapse':
            name = c.pick('collapse', ['median', 'max', 'min', 'first', 'custom'])
            fn = {'median': np.median, 'max': np.max, 'min': np.min,
                  'first': lambda a, axis: np.take(a, 0, axis=axis),
                  'custom': lambda a, axis: np.sum(a * a, axis=axis)}[name]
            w.v = w.make(ensemble_collapse_func=fn)
            F = {'median': lambda m: np.median(m, axis=0), 'max': lambda m: m.max(axis=0), 'min': lambda m: m.min(axis=0),
                 'first': lambda m: m[0], 'custom': lambda m: (m * m).sum(axis=0)}[name](w.mem)
        else:
            F = determ(w)
        E = F - w.o
        spec = {'error': E, 'ab_error': np.abs(E), 'sq_error': E * E}
        ax = () if kind != 'agg' else c.axes('avg', w.rank)
        w.v.set_avg_axis(ax)
        order = c.pick('order', list(itertools.permutations(['error', 'ab_error', 'sq_error', 'rmse', 'f_determ'])))
        for m in order:
            if m == 'f_determ':
                expect('%s f_determ()' % w.cls, w.v.f_determ(), F, rtol=1e-7)
            elif m == 'rmse':
                want = np.sqrt(spec['sq_error'] if ax == () else mean_over(spec['sq_error'], ax))
                expect('%s rmse() axes %s' % (w.cls, ax), w.v.rmse(), want, rtol=1e-7)
            else:
                want = spec[m] if ax == () else mean_over(spec[m], ax)
                expect('%s %s() axes %s' % (w.cls, m, ax), getattr(w.v, m)(), want, rtol=1e-7, atol=1e-9)


# ---------------------------------------------------------------- C02
def metric_list(w):
    l = ['error', 'ab_error', 'sq_error']
    if w.cls != 'Determ':
        l += ['crps', 'brier_o', 'brier_b']
    if w.cls == 'Ensemble':
        l += ['spread']
    return l


def call_metric(v, m, thr):
    if m == 'brier_o':
        return v.brier(over=thr)
    if m == 'brier_b':
        return v.brier(below=thr)
    return getattr(v, m)()


@prop('C02')
def c02(c):
    skip = c.coin('skip')
    with env(skip_nan=skip, tqdm_workers=1):
        nan = c.coin('nan', .6)
        w = build(c, nan=nan)
        m = c.pick('metric', metric_list(w))
        thr = c.threshold('thr', w.o)
        ax = c.axes('avg', w.rank)
        w.v.set_avg_axis(())
        if m in ('error', 'ab_error', 'sq_error') and w.cls != 'Hurdle':
            E = determ(w) - w.o
            unagg = {'error': E, 'ab_error': np.abs(E), 'sq_error': E * E}[m]
            expect('%s unaggregated %s' % (w.cls, m), call_metric(w.v, m, thr), unagg)
        else:
            unagg = call_metric(w.v, m, thr)
        if m == 'spread':
            f = np.moveaxis(w.f, w.ens_axis, 0)
            if skip:
                unagg = np.nanmax(f, axis=0) - np.nanmin(f, axis=0)
            else:
                unagg = f.max(axis=0) - f.min(axis=0)
        want = mean_over(unagg, ax, skip)
        order = c.coin('reuse')
        v = w.v if order else w.make()
        v.set_avg_axis(ax)
        got = call_metric(v, m, thr)
        expect('%s %s averaged over %s (skip_nan=%s, dims %s)' % (w.cls, m, ax, skip, w.dims), got, want,
               rtol=1e-7, atol=1e-9)


# ---------------------------------------------------------------- C03
def level_check(what, lo, mid, hi, reps, conf, R, nrep):
    """(lo, mid, hi) against independent replicates `reps` of the specification; 6-sigma tolerances"""
    reps = np.asarray(reps, float)
    reps = reps[~np.isnan(reps)]
    if len(reps) < 20:
        return
    n = len(reps)
    sc = max(1e-12, float(np.max(np.abs(reps))))
    eps = 1e-9 * sc
    for nm, v, q in (('lower', lo, (1 - conf) / 2), ('upper', hi, (1 + conf) / 2)):
        tol = 6 * math.sqrt(q * (1 - q) / n + q * (1 - q) / R) + 3. / n + 2. / R
        a = float(np.mean(reps < v - eps))
        b = float(np.mean(reps <= v + eps))
        if not (a - tol <= q <= b + tol):
            raise Fail('%s: %s bound %r sits at level %.4f..%.4f of the replicate distribution instead of %.4f' % (
                what, nm, float(v), a, b, q))
    sd = float(np.std(reps))
    tol = 7 * sd * math.sqrt(1. / n + 1. / R) + 1e-9 * sc
    if abs(mid - reps.mean()) > tol:
        raise Fail('%s: middle value %r is not the mean %r of the replicates (tolerance %.3g)' % (
            what, float(mid), float(reps.mean()), tol))
    if not (lo <= hi + eps):
        raise Fail('%s: lower %r above upper %r' % (what, float(lo), float(hi)))


def multisets(pop, n):
    return [list(m) for m in itertools.combinations_with_replacement(range(len(pop)), n)]


def support_check(what, t, vals, R, conf):
    """few cases, few draws, few repeats: (lower, mean, upper) must be one of the outcomes the specification allows"""
    vals = np.unique(np.round([v for v in vals if v == v], 12))
    t = np.asarray(t, float)
    if np.isnan(t).any():
        return
    for m in itertools.combinations_with_replacement(vals, R):
        w = [np.quantile(m, (1 - conf) / 2), np.mean(m), np.quantile(m, (1 + conf) / 2)]
        if np.allclose(t, w, rtol=1e-7, atol=1e-9):
            return
    raise Fail('%s: %s is no outcome of %d repeats over the replicate values %s at confidence %s' % (what, t.tolist(), R, vals.tolist(), conf))


def c03_support(c):
    conf = c.pick('conf', [.95, .5, .8, .2])
    R = c.pick('R', [1, 2, 3])
    n = c.pick('n', [1, 2])
    what = c.pick('what', ['mean', 'vec', 'rel', 'ss', 'decomp'])
    skip = c.coin('skip', .3)
    c.seed_np()
    r = c.rng('sup')
    with env(boot_confidence=conf, boot_repeats=R, boot_samples=n, skip_nan=skip):
        if what == 'vec':
            pop = r.integers(0, 50, size=c.pick('N', [1, 2, 3])).astype(float)
            got = UV.boot_vec(pop)
            support_check('boot_vec', got, [pop[m].mean() for m in multisets(pop, n)], R, conf)
        elif what == 'mean':
            dims = tuple(c.pick('sd', [(3,), (2, 2), (3, 2), (2, 3), (1, 2, 2)]))
            ax = c.axes('avg', len(dims))
            cs, ks = cells(len(dims), dims, ax)
            if max(np.size(np.empty(dims)[i]) for _, i in cs) > 3:
                return
            f = r.integers(0, 50, size=dims).astype(float)
            got = klass('Determ')(f, np.zeros(dims), avg_axis=ax, boot_samples=n).error()
            for k, i in cs:
                pop = np.atleast_1d(f[i]).ravel()
                support_check('bias bootstrap, cell %s dims %s axes %s' % (k, dims, ax), got[(slice(None),) + k], [pop[m].mean() for m in multisets(pop, n)], R, conf)
        elif what == 'rel':
            p = np.round(r.random(5), 3)
            e = r.random(5) < .5
            got = UV.reliability_diagram(p, e, 2, None, boot_samples=n)
            b = np.minimum((p * 2).astype(int), 1)
            for q, bi in enumerate([x for x in (0, 1) if (b == x).any()]):
                if (b == bi).sum() <= 3:
                    for nm, arr, pop in (('forecast', got[0], p[b == bi]), ('frequency', got[1], e[b == bi].astype(float))):
                        support_check('reliability bootstrap %s bin %d' % (nm, bi), np.asarray(arr)[q], [pop[m].mean() for m in multisets(pop, n)], R, conf)
        elif what == 'ss':
            va = r.permutation(6) + 1.
            sq = r.integers(0, 50, size=6).astype(float)
            got = US.binned_spread_skill(va, sq, 2, None, boot_samples=n)
            for q, (gv, gs) in enumerate(ss_groups(va, sq, 2)):
                for nm, arr, pop in (('spread', got[0], gv), ('error', got[1], gs)):
                    support_check('binned %s bootstrap group %d' % (nm, q), np.asarray(arr)[q] ** 2, [pop[m].mean() for m in multisets(pop, n)], R, conf)
        else:
            p = np.round(r.random(3), 2)
            e = r.random(3) < .5
            got = UB.brier_decomp(p, e, None, n)
            for q, nm in enumerate(['reliability', 'resolution', 'uncertainty']):
                support_check('%s bootstrap' % nm, got[q], [decomp_spec(p[m], e[m])[q] for m in multisets(p, n)], R, conf)


@prop('C03', weight=4)
def c03(c):
    kind = c.pick('kind', ['mean', 'mean', 'cells', 'corr', 'decomp', 'rel', 'ss', 'vec', 'support', 'support', 'support'])
    if kind == 'support':
        return c03_support(c)
    conf = c.pick('conf', [.95, .5, .8, .2, .99, .68])
    R = c.pick('repeats', [600, 1200])
    n = c.pick('n', [1, 2, 5, 17, 60])
    skip = c.coin('skip', .3)
    c.seed_np()
    r = c.rng('sim')
    with env(boot_confidence=conf, boot_repeats=R, skip_nan=skip):
        if kind == 'vec':
            pop = c.data('pop', (c.pick('N', [1, 2, 3, 6, 30]),), 'positive') ** 2
            given = c.coin('given')
            if given:
                with env(boot_confidence=.123, boot_repeats=3, boot_samples=2, skip_nan=skip):
                    got = UV.boot_vec(pop, n_samples=n, repeats=R, confidence=conf)
            else:
                with env(boot_confidence=conf, boot_repeats=R, boot_samples=n, skip_nan=skip):
                    got = UV.boot_vec(pop)
            reps = pop[r.integers(0, len(pop), size=(3000, n))].mean(axis=1)
            if np.shape(got) != (3,):
                raise Fail('boot_vec returned %s' % brief(got))
            level_check('boot_vec', got[0], got[1], got[2], reps, conf, R, n)
            return
        if kind in ('mean', 'cells'):
            dims = c.dims('dims', maxsize=60, big=False)
            ax = c.axes('avg', len(dims))
            cs, ks = cells(len(dims), dims, ax)
            if len(cs) > 12:
                return
            # every cell gets its own value range, cases inside a cell are skewed
            f = np.zeros(dims)
            for j, (k, i) in enumerate(cs):
                f[i] = 1000. * (j + 1) + r.gamma(.7, 5., size=np.shape(f[i]))
            if kind == 'cells':
                R = 60
            nan = skip and c.coin('nan')
            if nan and np.prod(dims) > len(cs) * 2:
                f[r.random(size=dims) < .3] = np.nan
                for k, i in cs:
                    if np.isnan(np.atleast_1d(f[i])).all():
                        f[i] = 7.
            f = c.layout('f', f)
            o = np.zeros(dims)
            v = klass('Determ')(f, o, avg_axis=ax, boot_samples=n)
            with env(boot_confidence=conf, boot_repeats=R, skip_nan=skip):
                got = v.error()
            if got.shape != (3,) + ks:
                raise Fail('bootstrapped bias over axes %s of %s has shape %s instead of %s' % (ax, dims, got.shape, (3,) + ks))
            for k, i in cs:
                pop = np.atleast_1d(f[i]).ravel()
                t = got[(slice(None),) + k]
                ok = pop[~np.isnan(pop)]
                if np.isnan(t).any():
                    if not np.isnan(pop).any():
                        raise Fail('NaN interval for a cell without missing values')
                    continue
                if not (ok.min() - 1e-9 <= t[0] <= t[2] <= ok.max() + 1e-9) or not (ok.min() - 1e-9 <= t[1] <= ok.max() + 1e-9):
                    raise Fail('cell %s of dims %s axes %s: interval %s outside its own cases [%r, %r]' % (
                        k, dims, ax, t.tolist(), ok.min(), ok.max()))
                if kind == 'mean' and not np.isnan(pop).any():
                    reps = pop[r.integers(0, len(pop), size=(2500, n))].mean(axis=1)
                    level_check('bias bootstrap, cell %s dims %s axes %s n=%d c=%s' % (k, dims, ax, n, conf),
                                t[0], t[1], t[2], reps, conf, R, n)
            return
        R = 250
        os.environ['pyanen_boot_repeats'] = str(R)
        if kind == 'corr':
            dims = tuple(c.pick('cd', [(2, 9), (9, 2), (12,), (2, 5, 3)]))
            ax = c.axes('avg', len(dims))
            cs, ks = cells(len(dims), dims, ax)
            n = c.pick('nc', [12, 20])
            f = c.data('f', dims, 'normal')
            o = f * .5 + c.data('oo', dims, 'normal')
            if min(np.size(f[i]) for _, i in cs) < 4:
                return
            if c.coin('method'):
                got = klass('Determ')(f, o, avg_axis=ax, boot_samples=n).corr()
            else:
                a2 = [ax] if isinstance(ax, int) else ax
                with env(boot_confidence=.1, boot_repeats=3, skip_nan=skip):
                    got = UB.corr(f, o, a2, n, repeats=R, confidence=conf)
            if got.shape != (3,) + ks:
                raise Fail('bootstrapped correlation has shape %s instead of %s' % (got.shape, (3,) + ks))
            for k, i in cs:
                fp, op = f[i].ravel(), o[i].ravel()
                reps = []
                for _ in range(500):
                    j = r.integers(0, len(fp), size=n)
                    reps.append(pearson(fp[j], op[j]))
                t = got[(slice(None),) + k]
                level_check('correlation bootstrap cell %s' % (k,), t[0], t[1], t[2], reps, conf, R, n)
            return
        if kind == 'decomp':
            dims = tuple(c.pick('cd', [(2, 12), (12, 2), (20,)]))
            ax = c.axes('avg', len(dims))
            cs, ks = cells(len(dims), dims, ax)
            n = c.pick('nc', [10, 20])
            p = c.data('p', dims, 'prob')
            e = (c.rng('e').random(size=dims) < .4 + .2 * p)
            a2 = [ax] if isinstance(ax, int) else ax
            got = UB.brier_decomp(p, e, a2, n, repeats=R, confidence=conf)
            for q, nm in enumerate(['reliability', 'resolution', 'uncertainty']):
                g = np.asarray(got[q])
                if g.shape != (3,) + ks:
                    raise Fail('bootstrapped %s has shape %s instead of %s' % (nm, g.shape, (3,) + ks))
            for k, i in cs:
                pp, ee = p[i].ravel(), e[i].ravel()
                sims = []
                for _ in range(400):
                    j = r.integers(0, len(pp), size=n)
                    sims.append(decomp_spec(pp[j], ee[j]))
                for q, nm in enumerate(['reliability', 'resolution', 'uncertainty']):
                    t = np.asarray(got[q])[(slice(None),) + k]
                    level_check('%s bootstrap cell %s' % (nm, k), t[0], t[1], t[2], [s[q] for s in sims], conf, R, n)
            return
        if kind == 'rel':
            N, nb = 40, c.pick('nb', [2, 4])
            p = c.rng('p').random(N)
            e = c.rng('e').random(N) < p
            got = UV.reliability_diagram(p, e, nb, None, boot_samples=n, repeats=R, confidence=conf)
            b = np.minimum((p * nb).astype(int), nb - 1)
            used = [q for q in range(nb) if (b == q).any()]
            for q, bi in enumerate(used):
                pp, ee = p[b == bi], e[b == bi].astype(float)
                for nm, arr, pop in (('forecast', got[0], pp), ('frequency', got[1], ee)):
                    t = np.asarray(arr)[q]
                    reps = pop[r.integers(0, len(pop), size=(800, n))].mean(axis=1)
                    level_check('reliability bootstrap %s bin %d' % (nm, bi), t[0], t[1], t[2], reps, conf, R, n)
            return
        if kind == 'ss':
            dims = tuple(c.pick('cd', [(12,), (10, 2), (2, 10)]))
            ax = None if len(dims) == 1 else (0 if dims[0] == 10 else 1,)
            nb = c.pick('nb', [1, 2, 3])
            va = c.data('v', dims, 'positive', nv=False)
            sq = c.data('s', dims, 'positive')
            got = US.binned_spread_skill(va, sq, nb, ax, boot_samples=n, repeats=R, confidence=conf)
            cs, ks = cells(len(dims), dims, ax)
            for k, i in cs:
                groups = ss_groups(va[i].ravel(), sq[i].ravel(), nb)
                for q, (gv, gs) in enumerate(groups):
                    for nm, arr, pop in (('spread', got[0], gv), ('error', got[1], gs)):
                        t = np.asarray(arr)[k + (q,)]
                        reps = pop[r.integers(0, len(pop), size=(800, n))].mean(axis=1)
                        t2 = np.asarray(t) ** 2
                        level_check('binned %s bootstrap group %d' % (nm, q), t2[0], reps.mean(), t2[2], reps, conf, R, n)
                        sd = reps.std()
                        if abs(t2[1] - reps.mean()) > 7 * sd * math.sqrt(1. / 800 + 1. / R) + 1e-9:
                            raise Fail('binned %s bootstrap: middle %r, mean of replicates %r' % (nm, t2[1], reps.mean()))
            return


def pearson(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    da, db = a - a.mean(), b - b.mean()
    d = math.sqrt((da * da).sum()) * math.sqrt((db * db).sum())
    return (da * db).sum() / d if d > 0 else np.nan


def decomp_spec(p, e):
    n = len(p)
    edges = np.linspace(0, 1, 21)
    ob = e.mean()
    rel = res = 0.
    for b in range(20):
        m = (p >= edges[b]) & ((p < edges[b + 1]) | (b == 19))
        if m.any():
            rel += m.sum() * (p[m].mean() - e[m].mean()) ** 2
            res += m.sum() * (e[m].mean() - ob) ** 2
    return rel / n, res / n, ob * (1 - ob)


def ss_groups(v, s, nb):
    idx = sorted(range(len(v)), key=lambda i: v[i])
    n = len(v)
    out, pos = [], 0
    for g in range(nb):
        k = n // nb + (1 if g < n % nb else 0)
        j = idx[pos:pos + k]
        pos += k
        out.append((v[j], s[j]))
    return out


# ---------------------------------------------------------------- C04
def prob_world(c, **kw):
    w = build(c, want_trunc=True, classes=['Ensemble', 'Gaussian', 'Gamma', 'Hurdle'], **kw)
    return w


def some_threshold(c, w, name='thr', negok=True):
    """scalar or per-case threshold"""
    if c.coin(name + '.array', .35):
        t = c.data(name + '.arr', w.dims, c.pick(name + '.tk', ['normal', 'positive', 'zeros', 'ints']))
        if c.coin(name + '.hit', .3) and w.cls == 'Ensemble':
            t = np.where(c.rng(name + '.hm').random(size=w.dims) < .5, w.mem[0], t)
        return t
    pool = w.mem if w.cls == 'Ensemble' else w.o
    t = c.threshold(name, pool)
    return t


def par_env(c, rank):
    """settings for a serial or parallel run"""
    if not c.coin('parallel', .3):
        return {}
    return dict(tqdm_workers=c.pick('workers', [2, 3, 7]), tqdm_map_axis=c.pick('map_axis', list(range(-rank, 0))),
                tqdm_chunksize=c.pick('chunk', [1, 2, 50]))


@prop('C04')
def c04(c):
    w = None
    with env():
        w = prob_world(c, nan=False)
    with env(**par_env(c, w.rank)):
        kind = c.pick('kind', ['complement', 'reject'], [.8, .2])
        t = some_threshold(c, w)
        if kind == 'complement':
            meth = c.pick('meth', ['cdf', 'sharpness'])
            f = getattr(w.v, meth)
            if c.coin('ordercalls'):
                a, b = f(below=t), f(over=t)
            else:
                b = f(over=t)
                a = f(below=t)
            if np.shape(a) != w.dims or np.shape(b) != w.dims:
                raise Fail('%s %s: probabilities have shape %s/%s, cases %s' % (w.cls, meth, np.shape(a), np.shape(b), w.dims))
            expect('%s %s: over + below' % (w.cls, meth), np.asarray(a) + np.asarray(b), np.ones(w.dims))
            for nm, p in (('below', a), ('over', b)):
                if not ((p >= 0) & (p <= 1)).all():
                    raise Fail('%s %s(%s=%s): probability outside [0,1]: %s' % (w.cls, meth, nm, brief(t), brief(p)))
            if w.cls == 'Ensemble':
                s = np.asarray(UV.ens_to_prob(w.f, w.ens_axis, over=t))
                expect('ens_to_prob over', s, b)
        else:
            tt = .3 if isinstance(t, np.ndarray) else t
            for nm, g in (('cdf', w.v.cdf), ('sharpness', w.v.sharpness), ('brier', w.v.brier)):
                must_raise('%s %s without threshold' % (w.cls, nm), lambda: g())
                must_raise('%s %s with both thresholds' % (w.cls, nm), lambda: g(over=tt, below=tt))
            for nm, g in (('binarize_obs', lambda **k: UV.binarize_obs(w.o, **k)),
                          ('iou_determ', lambda **k: UV.iou_determ(w.o, w.o, **k)),
                          ('iou_prob', lambda **k: UV.iou_prob(np.full(w.dims, .5), w.o > 0, **k)),
                          ('ens_to_prob', lambda **k: UV.ens_to_prob(w.o[None], 0, **k)),
                          ('iou_determ()', lambda **k: w.v.iou_determ(**k)),
                          ('reliability()', lambda **k: w.v.reliability(**k)),
                          ('roc()', lambda **k: w.v.roc(**k)), ('brier_decomp()', lambda **k: w.v.brier_decomp(**k))):
                must_raise('%s without threshold' % nm, lambda: g())
                for x, y in ((.4, .4), (0, 0), (0., 1.), (tt, 0), (0, tt)):
                    must_raise('%s with both thresholds %r, %r' % (nm, x, y), lambda: g(over=x, below=y))
            must_raise('iou_prob() with both', lambda: w.v.iou_prob(over=(.3, .5), below=(.3, .5)))
            must_raise('iou_prob() with none', lambda: w.v.iou_prob(over=(None, None), below=(None, None)))


# ---------------------------------------------------------------- C05
@prop('C05')
def c05(c):
    with env(**par_env(c, 4)):
        w = build(c, cls='Ensemble', members=c.pick('M', [1, 2, 3, 4, 5, 9, 40] + NEW_SIZES[:8]))
        if c.coin('nanmem', .15):
            w.f = c.nanify('f.nan', w.f, .1)
            w.mem = np.moveaxis(w.f, 0 if w.first else -1, 0)
            w.v = w.make()
        t = some_threshold(c, w)
        if c.coin('inf', .05):
            t = c.pick('infv', [float('inf'), float('-inf')])
        want = np.zeros(w.dims)
        tb = np.broadcast_to(np.asarray(t, float), w.dims)
        for i in np.ndindex(*w.dims):
            want[i] = sum(1 for x in w.mem[(slice(None),) + i].tolist() if x <= tb[i]) / w.M
        which = c.pick('which', ['cdf', 'cdf', 'func', 'sharp', 'over'])
        if which == 'cdf':
            got = w.v.cdf(below=t)
        elif which == 'func':
            got = UV.ens_to_prob(w.f, w.ens_axis, below=t)
        elif which == 'sharp':
            got = w.v.sharpness(below=t)
        else:
            got, want = w.v.cdf(over=t), 1 - want
        expect('ensemble probability (%s) dims %s members %d axis %s threshold %s' % (which, w.dims, w.M, w.ens_axis, brief(t)),
               got, want)


# ---------------------------------------------------------------- C06
@prop('C06')
def c06(c):
    with env():
        w = build(c, want_trunc=True, classes=['Gaussian', 'Gamma', 'Hurdle'])
    with env(**par_env(c, w.rank)):
        t = some_threshold(c, w)
        which = c.pick('which', ['cdf', 'func', 'over'])
        if which == 'func':
            if w.cls == 'Gaussian':
                got = UD.cdf_gaussian(w.f['mu'], w.f['sigma'], t, w.trunc)
            elif w.cls == 'Gamma':
                got = UD.cdf_gamma(w.f['unshifted_mu'], w.f['sigma'], w.f['shift'], t, w.trunc)
            else:
                got = UD.cdf_gamma_hurdle(w.f['pop'], w.f['mu'], w.f['sigma'], t)
        elif which == 'over':
            got = 1 - np.asarray(w.v.cdf(over=t))
        else:
            got = w.v.cdf(below=t)
        want = cdf_spec(w, t)
        # far tails of truncated distributions lose digits by cancellation
        tol = 1e-6 if w.trunc else 1e-9
        expect('%s%s cdf(%s) below %s' % ('truncated ' if w.trunc else '', w.cls, which, brief(t)), got, want,
               rtol=1e-6, atol=tol)


# ---------------------------------------------------------------- C07
@prop('C07', weight=2)
def c07(c):
    kind = c.pick('kind', ['cdf', 'cdf', 'rank', 'integ', 'integ'])
    workers = c.pick('workers', [2, 3, 8])
    PM['mode'] = 'real' if c.coin('realpm', .03) else 'inline'
    RAY.mode = c.pick('raymode', ['random', 'reverse', 'fifo'])
    RAY.order.seed(c.seed)
    try:
        if kind == 'cdf':
            with env():
                w = prob_world(c)
                t = some_threshold(c, w)
                a = w.v.cdf(below=t)
                ao = w.v.cdf(over=t)
            pax = c.pick('map_axis', list(range(-w.rank, 0)))
            with env(tqdm_workers=workers, tqdm_map_axis=pax, tqdm_chunksize=c.pick('chunk', [1, 3])):
                expect('%s cdf(below=%s) with %d workers along %d' % (w.cls, brief(t), workers, pax), w.v.cdf(below=t), a)
                expect('%s cdf(over=%s) with %d workers along %d' % (w.cls, brief(t), workers, pax), w.v.cdf(over=t), ao)
        elif kind == 'rank':
            with env():
                dims = c.dims(maxsize=150)
                M = c.pick('M', [1, 2, 5, 9])
                r = c.rng('f')
                f = np.stack([r.permutation(M + 1) for _ in range(int(np.prod(dims)))], axis=1).reshape((M + 1,) + dims)
                o, f = f[0] * 1.5, f[1:] * 1.5
                ax = c.pick('eax', list(range(-len(dims) - 1, len(dims) + 1)))
                f = np.moveaxis(f, 0, ax)
                a = UV.rank_histogram(f, o, ax)
            pax = c.pick('map_axis', list(range(-len(dims), 0)))
            skip = c.coin('skip', .3)
            with env(tqdm_workers=workers, tqdm_map_axis=pax, skip_nan=skip):
                expect('ranks with %d workers along %d' % (workers, pax), UV.rank_histogram(f, o, ax), a)
        else:
            with env(), scratch():
                w = build(c, cls=c.pick('icls', ['Hurdle', 'Hurdle', 'Gaussian', 'Ensemble']), maxsize=40)
                nb = c.pick('inb', [2, 3, 7, 15])
                m = c.pick('im', ['crps', 'mean', 'variance'])
                rg = c.pick('rg', [None, (-4., 12.), (0., 9.)])
                rg = tuple(rg) if rg is not None else None
                lm = c.coin('less')
                a = getattr(UA.Integration(w.v, rg, nb), m)()
                use_env = c.coin('useenv')
                if use_env:
                    with env(tqdm_workers=workers, integrate_with_less_memory=lm, integrate_wdir='.'):
                        b = getattr(UA.Integration(w.v, rg, nb), m)()
                else:
                    b = getattr(UA.Integration(w.v, rg, nb, workers=workers, less_memory=lm), m)()
                expect('integrated %s of %s with %d workers (completion order %s, less_memory=%s)' % (
                    m, w.cls, workers, RAY.mode, lm), b, a)
    finally:
        PM['mode'] = 'inline'
        RAY.shutdown()


# ---------------------------------------------------------------- C08
def ks_bad(x, cdf):
    """Kolmogorov-Smirnov distance far outside chance (p < 1e-9)"""
    x = np.sort(np.asarray(x, float).ravel())
    n = len(x)
    F = cdf(x)
    d = max(np.max(np.arange(1, n + 1) / n - F), np.max(F - np.arange(n) / n))
    return d > 3.3 / math.sqrt(n), d


@prop('C08')
def c08(c):
    c.seed_np()
    with env():
        kind = c.pick('kind', ['place', 'clip', 'dist', 'stats', 'sep', 'trunc'])
        cls = c.pick('cls', ['Gaussian', 'Gamma'])
        dims = c.dims(maxsize=60, big=False)
        rank = len(dims)
        n = c.pick('n', [1, 2, 3, 5, 16])
        mv = c.pick('mv', list(range(-rank - 1, rank + 1)))
        N = int(np.prod(dims))
        ids = (np.arange(N).reshape(dims) + 1) * 100.
        par = par_env(c, rank)
        if kind in ('place', 'clip', 'stats', 'sep'):
            if cls == 'Gaussian':
                f = {'mu': ids, 'sigma': np.full(dims, .5)}
            else:
                sh = c.rng('sh').integers(-20, 5, size=dims).astype(float) if kind != 'trunc' else -np.ones(dims)
                f = {'unshifted_mu': ids, 'shift': sh, 'mu': ids + sh, 'sigma': np.full(dims, .5)}
        else:
            mu = np.round(c.data('mu', dims, 'positive'), 2)
            sg = np.clip(c.data('sg', dims, 'positive'), .3 * mu, 2 * mu)
            if cls == 'Gaussian':
                f = {'mu': mu - (1 if kind == 'trunc' else 0), 'sigma': sg}
            else:
                sg = sg * c.pick('sharp', [1., 1., .02])
                sh = -mu * .3
                f = {'unshifted_mu': mu, 'shift': sh, 'mu': mu + sh, 'sigma': sg}
        centre = f['mu']
        o = np.zeros(dims)
        V = klass(cls)
        with env(**par):
            if kind == 'place':
                v = V(f, o, move_sampled_ens_axis=mv, n_sample_members=n)
                e = v.prob_to_ens()
                wshape = list(dims)
                p = mv if mv >= 0 else mv + rank + 1
                wshape.insert(p, n)
                if tuple(e.shape) != tuple(wshape):
                    raise Fail('%s members on axis %d: shape %s instead of %s' % (cls, mv, e.shape, wshape))
                m = np.moveaxis(e, p, 0)
                if not (np.abs(m - centre[None]) < 10).all():
                    raise Fail('%s: a sampled member does not belong to its case (dims %s, axis %d, %s)' % (cls, dims, mv, par))
            elif kind == 'clip':
                clip = float(c.pick('clip', [150., 100.2, -5., 0., float(np.median(centre))]))
                s = int(c.rng('s').integers(1e9))
                np.random.seed(s)
                a = V(f, o, move_sampled_ens_axis=mv, n_sample_members=n).prob_to_ens()
                np.random.seed(s)
                b = V(f, o, move_sampled_ens_axis=mv, n_sample_members=n, clip_member_to_zero=clip).prob_to_ens()
                expect('%s clipped members' % cls, b, np.where(a < clip, 0., a))
                np.random.seed(s)
                vv = V(f, o, move_sampled_ens_axis=mv, n_sample_members=n)
                vv.set_member_clip(clip)
                expect('%s members after set_member_clip' % cls, vv.prob_to_ens(), np.where(a < clip, 0., a))
            elif kind == 'stats':
                v = V(f, o + ids, move_sampled_ens_axis=mv, n_sample_members=n)
                s = int(c.rng('s').integers(1e9))
                np.random.seed(s)
                e = v.prob_to_ens()
                m = np.moveaxis(e, mv, 0)
                np.random.seed(s)
                v.set_avg_axis(())
                expect('%s spread of sampled members on axis %d' % (cls, mv), v.spread(), m.max(axis=0) - m.min(axis=0))
                np.random.seed(s)
                expect('%s ranks among sampled members on axis %d' % (cls, mv), v.rank_hist(),
                       1 + (m < (o + ids)[None]).sum(axis=0))
            elif kind == 'sep':
                v = V(f, o, move_sampled_ens_axis=mv, n_sample_members=n)
                m = np.moveaxis(v.prob_to_ens(), mv, 0)
                if cls == 'Gaussian':
                    z = np.round((m - centre[None]) / .5, 8)
                    if z.size - len(np.unique(z)) > max(1, .01 * z.size):
                        raise Fail('Gaussian members of different cases are the same draws (%s)' % par)
            elif kind == 'dist':
                v = V(f, o, move_sampled_ens_axis=mv, n_sample_members=2000 if N < 20 else 400)
                m = np.moveaxis(v.prob_to_ens(), mv, 0)
                w = World()
                w.cls, w.dims, w.f, w.trunc = cls, dims, f, False
                _ks(w, m, v)
            else:
                v = V(f, o, move_sampled_ens_axis=mv, n_sample_members=2000 if N < 20 else 400, truncated=True)
                m = np.moveaxis(v.prob_to_ens(), mv, 0)
                if (m < -1e-9).any():
                    raise Fail('truncated %s produced the negative member %r' % (cls, float(m.min())))
                w = World()
                w.cls, w.dims, w.f, w.trunc = cls, dims, f, True
                _ks(w, m, v)


def _ks(w, m, v):
    for i in itertools.islice(np.ndindex(*w.dims), 24):
        def F(x, i=i):
            ww = World()
            ww.cls, ww.trunc = w.cls, w.trunc
            ww.dims = x.shape
            ww.f = {k: np.full(x.shape, a[i]) for k, a in w.f.items()}
            return cdf_spec(ww, x)
        bad, d = ks_bad(m[(slice(None),) + i], F)
        if bad:
            raise Fail('members sampled for %s case %s do not follow the predicted distribution (KS distance %.3f, n=%d)' % (
                w.cls, i, d, m.shape[0]))


# ---------------------------------------------------------------- C09
@prop('C09')
def c09(c):
    c.seed_np()
    kind = c.pick('kind', ['range', 'range', 'range', 'uniform', 'nan', 'index', 'verifier'])
    if kind == 'index':
        n = c.pick('n', [1, 2, 3, 8, 30] + NEW_SIZES[:5])
        r = c.rng('f')
        fr = r.random(n) * c.pick('scale', [1., 7., 100.]) + .01
        if c.coin('norm', .3):
            fr = fr / fr.sum()
        if c.coin('ints', .3):
            fr = r.integers(1, 50, size=n)
        fb = fr.copy()
        want = sum(abs(x / math.fsum(fb) - 1. / n) for x in fb)
        which = c.pick('k', CLASSES)
        expect('reliability_index(%s)' % brief(fr), klass(which).reliability_index(fr), want)
        return
    par = par_env(c, 2)
    with env(skip_nan=(kind == 'nan' or c.coin('skip', .2)), **({k: v for k, v in par.items() if k != 'tqdm_map_axis'})):
        if kind == 'uniform':
            t = c.pick('t', [1, 2, 3, 4])
            below = c.int('below', 0, 2)
            above = c.int('above', 0, 2)
            N = 4000
            vals = [-1.] * below + [2.] * t + [5.] * above
            f = np.tile(np.array(vals)[:, None], (1, N))
            f = c.rng('perm').permuted(f, axis=0)
            o = np.full(N, 2.)
            alltied = c.coin('alltied')
            if not alltied:
                o = o.copy()
                o[::7] = 3.
            ax = c.pick('ax', [0, -1])
            with env():
                rk = UV.rank_histogram(f if ax == 0 else f.T, o, ax)
            x = np.asarray(rk)[o == 2.] - 1 - below
            n = len(x)
            for k in range(t + 1):
                p = np.mean(x == k)
                q = 1. / (t + 1)
                if abs(p - q) > 6.5 * math.sqrt(q * (1 - q) / n):
                    raise Fail('with %d tied members the rank offset %d occurs with frequency %.4f instead of %.4f' % (t, k, p, q))
            if ((x < 0) | (x > t)).any():
                raise Fail('rank offset outside 0..%d' % t)
            if not (np.asarray(rk)[o == 3.] == 1 + below + t).all():
                raise Fail('untied rank wrong next to tied cases')
            return
        dims = c.dims(maxsize=120)
        rank = len(dims)
        M = c.pick('M', [1, 2, 3, 5, 10] + NEW_SIZES[:5])
        fk = c.pick('fk', ['normal', 'ints', 'dups'])
        f = c.data('f', (M,) + dims, fk)
        o = c.data('o', dims, fk)
        if c.coin('copyobs', .3):
            o = np.array(f[c.int('mi', 0, M - 1)])
        if kind == 'nan':
            if c.coin('on'):
                o = c.nanify('on', o, .25)
            f = c.nanify('fn', np.array(f), .06)
        if kind == 'verifier':
            ax = c.pick('vax', [0, -1, -rank - 1, rank])
        else:
            ax = c.pick('ax', list(range(-rank - 1, rank + 1)))
        fa = np.moveaxis(f, 0, ax)
        f0, o0 = fa.copy(), o.copy()
        with env(skip_nan=os.environ['pyanen_skip_nan'], tqdm_workers=os.environ['pyanen_tqdm_workers'],
                 tqdm_map_axis=c.pick('pm', list(range(-rank, 0)))):
            got = klass('Ensemble')(fa, o, ensemble_axis=ax).rank_hist() if kind == 'verifier' else \
                UV.rank_histogram(fa, o, ax)
        got = np.asarray(got, float)
        if got.shape != dims:
            raise Fail('ranks have shape %s, observations %s' % (got.shape, dims))
        miss = np.isnan(o) | np.isnan(f).any(axis=0)
        below = (f < o[None]).sum(axis=0)
        ties = (f == o[None]).sum(axis=0)
        for i in np.ndindex(*dims):
            if miss[i]:
                if not np.isnan(got[i]):
                    raise Fail('case %s with missing values got rank %r' % (i, got[i]))
            elif not (1 + below[i] <= got[i] <= 1 + below[i] + ties[i]) or got[i] != int(got[i]):
                raise Fail('case %s: rank %r, but %d members below and %d equal (dims %s, M=%d, axis %d)' % (
                    i, got[i], below[i], ties[i], dims, M, ax))
        if not (same(fa, f0) and same(o, o0)):
            raise Fail('rank_histogram changed its input')


# ---------------------------------------------------------------- C10
@prop('C10')
def c10(c):
    c.seed_np()
    with env():
        rz = c.coin('randomize', .7)
        w = build(c, want_trunc=True, classes=['Gaussian', 'Gamma', 'Hurdle'], okind=c.pick('ok', ['zeros', 'positive', 'ints']),
                  pit_randomize_zero_ranks=rz)
        kind = c.pick('kind', ['value', 'value', 'value', 'uniform'])
        if kind == 'uniform':
            N = 3000
            w.dims = (N,)
            w.o = np.zeros(N)
            w.f = {k: np.full(N, float(np.ravel(a)[0])) for k, a in w.f.items()}
            w.v = w.make(avg_axis=None)
            p = cdf_spec(w, 0.)
            got = np.asarray(w.v.pit() if c.coin('m') else w.v.rank_hist())
            if not rz:
                expect('PIT at zero without randomisation', got, p, rtol=1e-6, atol=1e-6)
                return
            if p[0] > 1e-3:
                bad, d = ks_bad(got / p[0], lambda x: np.clip(x, 0, 1))
                if bad:
                    raise Fail('randomised zero ranks of %s are not uniform on [0, p] (KS distance %.3f)' % (w.cls, d))
            return
        o0 = w.o.copy()
        f0 = {k: a.copy() for k, a in w.f.items()}
        got = np.asarray(w.v.pit() if c.coin('m') else w.v.rank_hist())
        if got.shape != w.dims:
            raise Fail('PIT shape %s, cases %s' % (got.shape, w.dims))
        p = cdf_spec(w, w.o)
        tol = 1e-6
        z = (w.o == 0) & rz
        expect('%s PIT of non-zero observations' % w.cls, np.where(z, 0, got), np.where(z, 0, p), rtol=1e-6, atol=tol)
        if not ((got >= 0) & (got <= 1)).all():
            raise Fail('PIT outside [0,1]: %s' % brief(got))
        if (z & (got > p + tol)).any():
            raise Fail('randomised rank above the probability at zero')
        if z.sum() > 2 and (p[z] > 1e-6).sum() > 2:
            q = np.round((got[z] / np.where(p[z] > 1e-6, p[z], np.nan)), 9)
            q = q[~np.isnan(q)]
            if len(np.unique(q)) == 1:
                raise Fail('all zero ranks share one draw: %s' % brief(got[z]))
        if not same(o0, w.o) or any(not same(f0[k], w.f[k]) for k in f0):
            raise Fail('PIT changed its input')


# ---------------------------------------------------------------- C11
@prop('C11')
def c11(c):
    with env(**par_env(c, 4)):
        pass
    with env():
        w = prob_world(c)
    with env(**par_env(c, w.rank)):
        t = some_threshold(c, w)
        over = c.coin('over')
        pb = cdf_spec(w, t)
        tb = np.broadcast_to(np.asarray(t, float), w.dims)
        if c.coin('obshit', .3):
            w.o = np.where(c.rng('oh').random(size=w.dims) < .5, tb, w.o)
            w.v = w.make()
        p = 1 - pb if over else pb
        e = (w.o > tb) if over else (w.o < tb)
        want = (p - e) ** 2
        ax = c.pick('axm', [(), None])
        w.v.set_avg_axis(ax)
        got = w.v.brier(over=t) if over else w.v.brier(below=t)
        if ax is None:
            want = mean_over(want, None)
        expect('%s brier(%s=%s)' % (w.cls, 'over' if over else 'below', brief(t)), got, want, rtol=1e-6, atol=1e-7)
        if not ((np.asarray(got) >= 0) & (np.asarray(got) <= 1)).all():
            raise Fail('Brier score outside [0,1]')
        b = UV.binarize_obs(w.o, over=t) if over else UV.binarize_obs(w.o, below=t)
        expect('binarize_obs', np.asarray(b, float), e.astype(float))


# ---------------------------------------------------------------- C12
@prop('C12')
def c12(c):
    skip = c.coin('skip', .2)
    with env(skip_nan=skip):
        kind = c.pick('kind', ['func', 'verifier'])
        if kind == 'func':
            dims = c.dims(maxsize=300)
            pk = c.pick('pk', ['prob', 'grid', 'const', 'low'])
            p = c.data('p', dims, 'prob')
            if pk == 'grid':
                p = np.round(p * 40) / 40
            elif pk == 'const':
                p = np.full(dims, c.pick('cv', [0., 1., .05, .5, .31]))
            elif pk == 'low':
                p = p * .3
            e = c.rng('e').random(size=dims) < c.pick('rate', [0., .2, .5, 1.])
            ax = c.axes('avg', len(dims))
            a2 = [ax] if isinstance(ax, int) else ax
            got = UB.brier_decomp(p, e, a2)
        else:
            w = prob_world(c)
            dims = w.dims
            t = abs(c.threshold('thr', w.o))
            over = c.coin('over')
            ax = c.axes('avg', w.rank)
            w.v.set_avg_axis(ax)
            p = 1 - cdf_spec(w, t) if over else cdf_spec(w, t)
            p = np.asarray(w.v.cdf(over=t) if over else w.v.cdf(below=t))
            e = (w.o > t) if over else (w.o < t)
            got = w.v.brier_decomp(over=t) if over else w.v.brier_decomp(below=t)
        cs, ks = cells(len(dims), dims, ax)
        if len(got) != 3:
            raise Fail('decomposition has %d parts' % len(got))
        want = [np.zeros(ks) for _ in range(3)]
        bs = np.zeros(ks)
        for k, i in cs:
            pp, ee = np.atleast_1d(p[i]).ravel(), np.atleast_1d(e[i]).ravel()
            r = decomp_spec(pp, ee)
            for q in range(3):
                want[q][k] = r[q]
            edges = np.linspace(0, 1, 21)
            b = np.minimum(np.searchsorted(edges, pp, side='right') - 1, 19)
            pm = np.array([pp[b == x].mean() for x in b])
            bs[k] = ((pm - ee) ** 2).mean()
        for q, nm in enumerate(['reliability', 'resolution', 'uncertainty']):
            expect('%s over axes %s of %s' % (nm, ax, dims), got[q], want[q], atol=1e-9)
        expect('reliability - resolution + uncertainty', np.asarray(got[0]) - np.asarray(got[1]) + np.asarray(got[2]), bs, atol=1e-9)
        if (np.asarray(got[1]) > np.asarray(got[2]) + 1e-9).any():
            raise Fail('resolution exceeds uncertainty')


# ---------------------------------------------------------------- C13
@prop('C13')
def c13(c):
    with env(skip_nan=c.coin('skip', .2)):
        kind = c.pick('kind', ['flat', 'flat', 'cells', 'verifier'])
        nb = c.pick('nb', [1, 2, 3, 5, 10, 15, 40] + [x for x in NEW_SIZES[:4] if x < 200])
        if kind == 'verifier':
            w = prob_world(c)
            dims = w.dims
            t = abs(c.threshold('thr', w.o))
            over = c.coin('over')
            p = np.asarray(w.v.cdf(over=t) if over else w.v.cdf(below=t))
            e = (w.o > t) if over else (w.o < t)
            got = w.v.reliability(nbins=nb, over=t) if over else w.v.reliability(nbins=nb, below=t)
            check_rel(got, p.ravel(), e.ravel(), nb)
            return
        if kind == 'flat':
            dims = c.dims(maxsize=300)
            p = c.data('p', dims, 'prob')
            p = np.where(np.abs(p * nb - np.round(p * nb)) < 1e-6, np.round(p), p)
            e = c.rng('e').random(size=dims) < c.pick('rate', [0., .3, .7, 1.])
            e = c.layout('e', e)
            p = c.layout('p2', p)
            ax = c.pick('axform', ['none', 'all'])
            sa = None if ax == 'none' else c.axes('avg', len(dims), form='tuple', allow_none=False)
            if sa is not None and len(sa) != len(dims):
                sa = None
            got = UV.reliability_diagram(p, e, nb, sa)
            if got is None:
                raise Fail('no result')
            check_rel(got, p.ravel(), e.ravel(), nb)
            return
        # cells: the same bins occupied in every cell
        dims = c.dims('dims', lo=2, hi=3, maxsize=120, big=False)
        ax = c.axes('avg', len(dims), allow_none=False, form='tuple')
        cs, ks = cells(len(dims), dims, ax)
        n = int(np.prod(dims)) // len(cs)
        if n < 2 or not ks:
            return
        r = c.rng('p')
        base = np.concatenate([[.01, .99], r.random(n - 2) * .98])
        base = np.where(np.abs(base * nb - np.round(base * nb)) < 1e-3, .013, base)
        p, e = np.zeros(dims), np.zeros(dims, bool)
        for k, i in cs:
            q = r.permutation(n)
            jit = r.random(n) * 4e-4 / nb
            p[i] = (base + jit)[q].reshape(np.shape(p[i]))
            ee = r.random(n) < .5
            ee[0], ee[1] = True, False
            e[i] = r.permutation(ee).reshape(np.shape(p[i]))
        got = UV.reliability_diagram(p, e, nb, ax)
        for k, i in cs:
            check_rel([np.asarray(g)[k] for g in got], p[i].ravel(), e[i].ravel(), nb)


def check_rel(got, p, e, nb):
    if len(got) != 4:
        raise Fail('reliability returned %d parts' % len(got))
    width = (1 + 1e-8) / nb
    b = np.floor(p / width).astype(int)
    near = np.abs(p / width - np.round(p / width)) < 1e-7
    if (near & (p > 1e-9) & (p < 1 - 1e-9)).any():
        # a probability on a bin edge: either neighbour is acceptable, only totals are checked
        if int(np.sum(np.asarray(got[2]))) != len(p):
            raise Fail('bin counts add to %d, cases %d' % (int(np.sum(np.asarray(got[2]))), len(p)))
        return
    b = np.clip(b, 0, nb - 1)
    used = [x for x in range(nb) if (b == x).any()]
    expect('mean forecast per bin', got[0], np.array([p[b == x].mean() for x in used]))
    expect('event frequency per bin', got[1], np.array([e[b == x].mean() for x in used]))
    expect('cases per bin', np.asarray(got[2]), np.array([(b == x).sum() for x in used]))
    if int(np.sum(np.asarray(got[2]))) != len(p):
        raise Fail('bin counts add to %d, cases %d' % (int(np.sum(np.asarray(got[2]))), len(p)))
    tc = [x for x in (int((~e).sum()), int(e.sum())) if x > 0]
    expect('numbers of non-events and events', np.asarray(got[3]), np.array(tc))
    if hasattr(got[3], 'index'):
        ix = [int(x) for x in got[3].index]
        wx = [x for x, y in ((0, (~e).sum()), (1, e.sum())) if y > 0]
        if ix != wx:
            raise Fail('event counts labelled %s instead of %s' % (ix, wx))
    if hasattr(got[2], 'index') and [int(x) for x in got[2].index] != used:
        raise Fail('bins labelled %s instead of %s' % (list(got[2].index), used))
