"""Calls run twice: by pyvc on symbolic arrays (result terms evaluated at concrete data) and for real."""
import itertools

AX = {1: [None, (0,), -1], 2: [None, (0,), (1,), (-1, 0), [1]], 3: [None, (1,), (0, 2), (2, 0), -2]}
CASES = []


def case(name, data, call, env=None):
    CASES.append(dict(name=name, data=data, call=call, env=env or {}))


def verifier(L, cls, d, **kw):
    m = {'Determ': ('VerifyDeterm', 'VerifyDeterm'), 'Ensemble': ('VerifyEnsemble', 'VerifyEnsemble'), 'Gaussian': ('VerifyProbGaussian', 'VerifyProbGaussian'),
         'Gamma': ('VerifyProbGamma', 'VerifyProbGamma')}[cls]
    K = getattr(L(m[0]), m[1])
    if cls in ('Determ', 'Ensemble'):
        if cls == 'Ensemble':
            kw.setdefault('ensemble_axis', -1)
        return K(d['f'], d['o'], **kw)
    f = {k: d[k] for k in (('mu', 'sigma') if cls == 'Gaussian' else ('mu', 'sigma', 'shift', 'unshifted_mu'))}
    return K(f, d['o'], **kw)


def inputs(cls, r, nan):
    o = ('o', r, dict(nan=nan))
    if cls == 'Determ':
        return [('f', r, dict(nan=nan)), o]
    if cls == 'Ensemble':
        return [('f', r + 1, dict(nan=nan)), o]
    x = [('mu', r, {}), ('sigma', r, dict(lo=.3, hi=2.)), o]
    return x if cls == 'Gaussian' else x + [('shift', r, {}), ('unshifted_mu', r, dict(lo=.5, hi=3.))]


METRICS = [('error', {}), ('ab_error', {}), ('sq_error', {}), ('rmse', {}), ('f_determ', {}), ('corr', {}), ('iou_determ', dict(over=1.)), ('iou_determ', dict(below=1.))]
PMETRICS = [('crps', {}), ('spread', {}), ('variance', {}), ('cdf', dict(over=1.)), ('cdf', dict(below=1.)), ('brier', dict(over=.5)), ('brier', dict(below=1.)), ('sharpness', dict(over=.5)),
            ('binned_spread_skill', dict(nbins=2)), ('brier_decomp', dict(over=.5)), ('iou_prob', dict(over=.5, below=(None, .5)))]
for cls in ('Determ', 'Ensemble', 'Gaussian', 'Gamma'):
    for r in (1, 2, 3):
        for nan in ((False, True) if cls in ('Determ', 'Ensemble') else (False,)):
            for m, kw in METRICS + (PMETRICS if cls != 'Determ' else []):
                if nan and m in ('corr', 'crps', 'binned_spread_skill', 'brier_decomp', 'sharpness', 'cdf', 'brier', 'iou_prob'):
                    continue
                if m == 'crps' and cls == 'Gamma':
                    continue
                for ax in AX[r]:
                    if m in ('corr', 'binned_spread_skill', 'brier_decomp', 'iou_determ', 'iou_prob') and not (ax is None or isinstance(ax, tuple)):
                        continue
                    for skip in ('False', 'True'):
                        if skip == 'True' and m in ('corr', 'binned_spread_skill', 'brier_decomp', 'sharpness', 'iou_prob', 'iou_determ'):
                            continue
                        case('%s rank %d %s %s axis %s nan %s skip %s' % (cls, r, m, kw, ax, nan, skip), inputs(cls, r, nan),
                             (lambda cls, m, kw, ax: lambda L, d, np: getattr(verifier(L, cls, d, avg_axis=ax), m)(**kw))(cls, m, kw, ax), {'skip_nan': skip})


# numpy operations, one by one
def op(name, data, f):
    case('numpy ' + name, data, lambda L, d, np: f(np, d))


A2 = [('a', 2, dict(nan=True))]
A3 = [('a', 3, dict(nan=True))]
P2 = [('a', 2, {})]
AB = [('a', 2, dict(nan=True)), ('b', 2, dict(nan=True))]
for fn in ('mean', 'sum', 'nanmean', 'nansum', 'max', 'min', 'nanmax', 'nanmin', 'var', 'std', 'nanvar', 'nanstd', 'median', 'any', 'all', 'count_nonzero'):
    for ax in (None, 0, 1, -1, (0, 2), (-1, 0)):
        op('%s axis %s' % (fn, ax), [('a', 3, dict(nan=fn not in ('median', 'any', 'all', 'count_nonzero')))],
           (lambda fn, ax: lambda np, d: getattr(np, fn)(d['a'] > 0 if fn in ('any', 'all', 'count_nonzero') else d['a'], axis=ax))(fn, ax))
for fn in ('moveaxis', 'swapaxes'):
    for a, b in ((0, 1), (0, -1), (-1, 0), (2, 0), (1, 2)):
        op('%s %d %d' % (fn, a, b), A3, (lambda fn, a, b: lambda np, d: getattr(np, fn)(d['a'], a, b))(fn, a, b))
for t in itertools.permutations(range(3)):
    op('transpose %s' % (t,), A3, (lambda t: lambda np, d: np.transpose(d['a'], t))(t))
op('T', A3, lambda np, d: d['a'].T)
op('flatten', A3, lambda np, d: d['a'].flatten())
op('ravel', A3, lambda np, d: d['a'].ravel())
op('reshape', A3, lambda np, d: d['a'].reshape(d['a'].shape[0], -1))
op('reshape last', A3, lambda np, d: d['a'].reshape(-1, d['a'].shape[2]))
op('transpose then flatten', A3, lambda np, d: np.moveaxis(d['a'], 0, -1).flatten())
op('expand_dims', A2, lambda np, d: np.expand_dims(d['a'], 1))
op('newaxis', A2, lambda np, d: d['a'][:, None] * 2)
op('row', A2, lambda np, d: d['a'][0])
op('last', A2, lambda np, d: d['a'][-1, :])
op('ellipsis', A3, lambda np, d: d['a'][..., 0])
op('broadcast', [('a', 2, {}), ('b', 1, {})], lambda np, d: d['a'] + d['b'][None, :] if d['a'].shape[1] == d['b'].shape[0] else d['a'])
for nm, f in (('where', lambda np, d: np.where(d['a'] > d['b'], d['a'], d['b'])), ('maximum', lambda np, d: np.maximum(d['a'], d['b'])), ('minimum', lambda np, d: np.minimum(d['a'], d['b'])),
              ('and', lambda np, d: (d['a'] > 0) & (d['b'] > 0)), ('or', lambda np, d: np.logical_or(d['a'] > 0, d['b'] >= 1)), ('not', lambda np, d: ~(d['a'] >= d['b'])),
              ('eq', lambda np, d: d['a'] == d['b']), ('ne', lambda np, d: d['a'] != d['b']), ('le', lambda np, d: d['a'] <= d['b']), ('sub', lambda np, d: d['a'] - 2 * d['b']),
              ('pow', lambda np, d: d['a'] ** 2 + d['b'] ** 3), ('abs', lambda np, d: np.abs(d['a'] * d['b'])), ('floordiv', lambda np, d: np.floor(d['a']) if 0 else d['a'] * 2),
              ('stack', lambda np, d: np.stack([d['a'], d['b']], axis=0)), ('stack -1', lambda np, d: np.stack([d['a'], d['b']], axis=-1)),
              ('concatenate', lambda np, d: np.concatenate([d['a'], d['b']], axis=0)), ('array of arrays', lambda np, d: np.array([d['a'], d['b']])),
              ('isnan', lambda np, d: np.isnan(d['a'])), ('sum of mask', lambda np, d: np.sum(d['a'] > d['b'], axis=0)), ('mean of mask', lambda np, d: np.mean(d['a'] > d['b'])),
              ('nan_to_num', lambda np, d: np.where(np.isnan(d['a']), 0., d['a'])), ('exp', lambda np, d: np.exp(d['a'])), ('sqrt', lambda np, d: np.sqrt(np.abs(d['a'])))):
    op(nm, AB, f)
for ax in (0, 1, -1):
    op('argsort %d' % ax, P2, (lambda ax: lambda np, d: np.argsort(d['a'], axis=ax, kind='stable'))(ax))
    op('sort %d' % ax, P2, (lambda ax: lambda np, d: np.sort(d['a'], axis=ax))(ax))
    op('take_along %d' % ax, [('a', 2, {}), ('b', 2, {})], (lambda ax: lambda np, d: np.take_along_axis(d['b'], np.argsort(d['a'], axis=ax, kind='stable'), axis=ax))(ax))
    for q in (0.05, .5, .95):
        op('quantile %s %d' % (q, ax), P2, (lambda q, ax: lambda np, d: np.quantile(d['a'], q, axis=ax))(q, ax))
    op('cumsum %d' % ax, P2, (lambda ax: lambda np, d: np.cumsum(d['a'], axis=ax))(ax))
    op('diff %d' % ax, P2, (lambda ax: lambda np, d: np.diff(d['a'], axis=ax))(ax))
op('sorted flat', P2, lambda np, d: np.sort(d['a'].flatten()))
op('mask select', P2, lambda np, d: d['a'][d['a'] > .5])
op('mask mean', P2, lambda np, d: np.mean(d['a'][d['a'] > -50]))
op('linspace', P2, lambda np, d: np.linspace(np.min(d['a']), np.max(d['a']), 7))
op('digitize', P2, lambda np, d: np.digitize(d['a'], np.linspace(-3, 5, 9)))
op('searchsorted', P2, lambda np, d: np.searchsorted(np.linspace(-3, 5, 9), d['a']))
op('histogram', P2, lambda np, d: np.histogram(d['a'], bins=4, range=(-3, 5))[0])
op('nonzero count', P2, lambda np, d: len(np.where(d['a'] > 0)[0]))
op('clip', P2, lambda np, d: np.clip(d['a'], -1, 1))
op('repeat', P2, lambda np, d: np.repeat(d['a'], 2, axis=0))
op('tile', [('a', 1, {})], lambda np, d: np.tile(d['a'], 3))
op('unique', [('a', 1, {})], lambda np, d: np.unique(d['a']))
op('argmin', P2, lambda np, d: np.argmin(d['a'], axis=0))
op('argmax', P2, lambda np, d: np.argmax(d['a'], axis=1))
op('dot', [('a', 1, {})], lambda np, d: np.dot(d['a'], d['a']))
op('in-place', A2, lambda np, d: inplace(np, d['a'] * 1))
op('set rows', A2, lambda np, d: setrow(np, d['a'] * 1))
op('set mask', P2, lambda np, d: setmask(np, d['a'] * 1))


def inplace(np, a):
    a += 1
    a *= a
    return a


def setrow(np, a):
    a[0] = 7.
    a[:, -1] = 3.
    return a


def setmask(np, a):
    a[a > 1] = 0.
    return a


# utilities
for h in (1, 2):
    for crit in ('MSE', 'MAD', 'poly'):
        case('diebold %d %s' % (h, crit), [('a', 1, {}), ('f', 1, {}), ('g', 1, {})],
             (lambda h, crit: lambda L, d, np: L('utils_significance').diebold_mariano_test(d['a'], d['f'], d['g'], h=h, crit=crit, power=2))(h, crit), dict(_size=(5, 9)))
for ax in (None, (0,), (1,)):
    for kw in (dict(over=.5), dict(below=.5)):
        case('iou_determ %s %s' % (ax, kw), [('f', 2, {}), ('o', 2, {})], (lambda ax, kw: lambda L, d, np: L('utils_verify').iou_determ(d['f'], d['o'], axis=ax, **kw))(ax, kw))
for ax in (0, 1, -1):

    case('ens_to_prob %d' % ax, [('f', 2, {})], (lambda ax: lambda L, d, np: L('utils_verify').ens_to_prob(d['f'], ax, over=.5))(ax))
for sa in ((0,), (1,), (0, 1)):
    for nb in (1, 2, 3):
        case('spread-skill %s %d' % (sa, nb), [('v', 2, dict(lo=0., hi=4., distinct=True)), ('e', 2, dict(lo=0., hi=4.))],
             (lambda sa, nb: lambda L, d, np: L('utils_ss').binned_spread_skill(d['v'], d['e'], None, nbins=nb, sample_axis=sa) if 0 else L('utils_ss')._binned_spread_skill_create_split(d['v'], d['e'], nb, sa))(sa, nb), dict(_size=(3, 5)))
for nb in (2, 5, 10):
    case('reliability %d' % nb, [('p', 2, dict(lo=0., hi=1.)), ('o', 2, {})], (lambda nb: lambda L, d, np: L('utils_verify').reliability_diagram(d['p'], d['o'] > 0, nb, None))(nb))
case('gamma crps', [('m', 1, dict(lo=.5, hi=3.)), ('s', 1, dict(lo=.3, hi=2.)), ('h', 1, dict(lo=-1., hi=0.)), ('o', 1, dict(lo=0., hi=3.))], lambda L, d, np: L('utils_crps').crps_gamma(d['m'], d['s'], d['h'], d['o'], reduce_sum=False))
case('truncated gaussian crps', [('y', 1, dict(lo=0., hi=3.)), ('m', 1, {}), ('s', 1, dict(lo=.3, hi=2.))], lambda L, d, np: L('utils_crps').crps_truncated_gaussian(d['y'], d['m'], d['s']))
for t in (False, True):
    case('cdf gaussian %s' % t, [('m', 2, {}), ('s', 2, dict(lo=.3, hi=2.))], (lambda t: lambda L, d, np: L('utils_dist').cdf_gaussian(d['m'], d['s'], .7, truncated=t))(t))
    case('cdf gamma %s' % t, [('m', 2, dict(lo=.5, hi=3.)), ('s', 2, dict(lo=.3, hi=2.)), ('h', 2, dict(lo=-1., hi=0.))], (lambda t: lambda L, d, np: L('utils_dist').cdf_gamma(d['m'], d['s'], d['h'], .7, truncated=t))(t))
case('cdf hurdle', [('q', 2, dict(lo=0., hi=1.)), ('m', 2, dict(lo=.5, hi=3.)), ('s', 2, dict(lo=.3, hi=2.))], lambda L, d, np: L('utils_dist').cdf_gamma_hurdle(d['q'], d['m'], d['s'], .7))
