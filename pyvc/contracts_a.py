from .contracts import *
from .contracts import T, C, L, SArr, SNum, TRUE, FALSE


# ---------------------------------------------------------------- C01
def cfg_c01(tier):
    out = []
    for r in ranks(tier):
        for cls in ALL:
            for first in ([False, True] if cls == 'Ensemble' else [False]):
                for col in (['mean', 'median', 'max'] if cls == 'Ensemble' else [None]):
                    out.append(dict(cls=cls, rank=r, first=first, collapse=col, _hints=hint(cls=cls, first=first)))
    return out


@contract('C01', cfg_c01)
def errors(run):
    g = run.cfg
    v = V(run, g['cls'], g['rank'], nan=g['cls'] in ('Determ', 'Ensemble'), onan=g['cls'] != 'Hurdle', first=g['first'], avg_axis=())
    if g['collapse']:
        v.kw['ensemble_collapse_func'] = getattr(run.np, g['collapse'])
    ver = v.make()
    if g['collapse'] in ('median', 'max'):
        Fa = getattr(run.np, g['collapse'])(v.f, axis=0 if g['first'] else -1)
        v.F = lambda idx: at(Fa, idx)
    for m in ('error', 'ab_error', 'sq_error'):
        got = getattr(ver, '_' + m)()
        run.same(m, got, arr(v.ex, lambda idx: diff_terms(v, idx)[m]))
        got = getattr(ver, m)()
        run.same('public ' + m, got, arr(v.ex, lambda idx: diff_terms(v, idx)[m]))
    sq = ver.sq_error()
    run.same('rmse', ver.rmse(), arr(v.ex, lambda idx: (T.sqrt(diff_terms(v, idx)['sq_error'][0]), diff_terms(v, idx)['sq_error'][1])))
    run.frame()


# ---------------------------------------------------------------- C02
def cfg_c02(tier):
    out = []
    for r in ranks(tier):
        for cls in ALL:
            forms = axis_forms(r, tier)
            if cls != 'Determ' and tier == 'quick':
                forms = forms[:2] + forms[-2:] if r < 3 else forms[2:4] + forms[-1:]
            for form, cov in forms:
                for skip in (False, True):
                    out.append(dict(cls=cls, rank=r, axis=form, cov=cov, skip=skip,
                                    _hints=hint(cls=cls, avg_axis=form, avg=form, skip_nan=skip)))
    return out


def metrics_of(cls):
    out = [('error', {}), ('ab_error', {}), ('sq_error', {})]
    if cls != 'Determ':
        out += [('crps', {}), ('brier', 'below'), ('brier', 'over')]
        if cls != 'Hurdle':
            out.append(('spread', {}))
    return out


@contract('C02', cfg_c02)
def averaging(run):
    g = run.cfg
    run.env(skip_nan=g['skip'], ens_to_prob_method='moments')
    cls = g['cls']
    v = V(run, cls, g['rank'], nan=cls in ('Determ', 'Ensemble'), onan=cls != 'Hurdle', avg_axis=g['axis'])
    if cls in ('Gaussian', 'Gamma'):
        v.kw['n_sample_members'] = SNum(T.add(T.var('Ns', 'I'), T.const(1)), FALSE, 'int')
    ver = v.make()
    for m, kw in metrics_of(cls):
        thr = run.num('t')
        kw = {kw: thr} if isinstance(kw, str) else kw
        if m in ('spread', 'crps') and cls in ('Gaussian', 'Gamma', 'Ensemble'):
            # the unaggregated metric is whatever the private method returns once: pin it so that the same draws are averaged
            one = getattr(ver, '_' + m)(**kw)
            setattr(ver, '_' + m, lambda one=one, **k: one)
        un = getattr(ver, '_' + m)(**({'over': None, 'below': None, **kw} if m == 'brier' else kw))
        un = C.as_arr(un)
        if not isinstance(un, SArr) or len(un.exts) != g['rank']:
            run.goal('%s: unaggregated metric has one value per case' % m, FALSE)
            continue
        run.same('%s%s' % (m, ''.join(kw)), getattr(ver, m)(**kw), over_axes(un, g['cov'], red_mean(g['skip'])))


# ---------------------------------------------------------------- event probabilities: C04 C05 C06 C07
def workers(run, par, axis=-1, chunk=False):
    """PyAnEn settings of a serial run, or of a run with any number of workers above one"""
    kw = dict(ens_to_prob_method='moments')
    if par:
        n = T.add(T.var('Nw', 'I'), T.const(1))
        kw.update(tqdm_workers=SNum(n, FALSE, 'int'), tqdm_map_axis=axis)
        if chunk:
            kw['tqdm_chunksize'] = SNum(T.add(T.var('Nk', 'I'), T.const(1)), FALSE, 'int')
    run.env(**kw)


def threshold(run, v, kind, nan=False):
    """-> (value to pass, value at a case)"""
    if kind == 'array':
        a = run.data('thr', v.ex, nan)
        return a, lambda idx: at(a, idx)
    t = run.num('t', 'int' if kind == 'int' else 'float')
    tv = t.v
    return t, lambda idx: (tv, FALSE)


def distributions(first=True):
    out = []
    for cls in PROB:
        for f in ([False, True] if cls == 'Ensemble' and first else [False]):
            for tr in ([False, True] if cls in ('Gaussian', 'Gamma') else [False]):
                out.append((cls, f, tr))
    return out


def cfg_c05(tier):
    out = []
    for r in ranks(tier):
        for first in (False, True):
            for kind in ('float', 'int', 'array'):
                for par in (False, True):
                    for nan in ((False, True) if kind != 'int' else (False,)):
                        out.append(dict(rank=r, first=first, thr=kind, par=par, nan=nan, _hints=hint(cls='Ensemble', first=first)))
    return out


def ens_below(v, t, idx):
    m = T.fresh('b')
    x = v.mem(m, idx)
    return T.div(T.sum_([(m, v.M)], T.ind(T.and_(T.not_(x[1]), T.not_(t[1]), T.le(x[0], t[0])))), v.M), FALSE


@contract('C05', cfg_c05)
def counting(run):
    g = run.cfg
    workers(run, g['par'])
    v = V(run, 'Ensemble', g['rank'], nan=g['nan'], first=g['first'])
    t, tf = threshold(run, v, g['thr'], g['nan'])
    ver = v.make()
    run.same('cdf below', ver.cdf(below=t), arr(v.ex, lambda idx: ens_below(v, tf(idx), idx)))
    UV = run.w.load('utils_verify')
    run.same('ens_to_prob below', UV.ens_to_prob(v.f, 0 if g['first'] else -1, below=t), arr(v.ex, lambda idx: ens_below(v, tf(idx), idx)))
    run.same('ens_to_prob over', UV.ens_to_prob(v.f, 0 if g['first'] else g['rank'], over=t),
             arr(v.ex, lambda idx: (T.sub(T.const(1), ens_below(v, tf(idx), idx)[0]), FALSE)))
    run.frame()


def cfg_c06(tier):
    out = []
    for r in ranks(tier):
        for cls, f, tr in distributions():
            if cls != 'Ensemble':
                for kind in ('float', 'int', 'array'):
                    for par in (False, True):
                        out.append(dict(cls=cls, rank=r, trunc=tr, thr=kind, par=par, _hints=hint(cls=cls, trunc=tr)))
    return out


@contract('C06', cfg_c06)
def distribution_function(run):
    g = run.cfg
    workers(run, g['par'])
    v = V(run, g['cls'], g['rank'], trunc=g['trunc'])
    t, tf = threshold(run, v, g['thr'])
    ver = v.make()
    run.same('cdf below', ver.cdf(below=t), arr(v.ex, lambda idx: (v.below(tf(idx)[0], idx), FALSE)))
    run.frame()


def cfg_c04(tier):
    out = []
    for r in ranks(tier):
        for cls, f, tr in distributions():
            for kind in ('float', 'array'):
                for par in (False, True):
                    out.append(dict(cls=cls, rank=r, trunc=tr, first=f, thr=kind, par=par, nan=cls == 'Ensemble', _hints=hint(cls=cls, trunc=tr, first=f)))
    return out


@contract('C04', cfg_c04)
def complement(run):
    g = run.cfg
    workers(run, g['par'])
    v = V(run, g['cls'], g['rank'], nan=g['nan'], trunc=g['trunc'], first=g['first'])
    t, tf = threshold(run, v, g['thr'])
    ver = v.make()
    below = ver.cdf(below=t)
    over = ver.cdf(over=t)
    fb = C.as_arr(below).fn()
    run.same('over is one minus below', over, arr(v.ex, lambda idx: (T.sub(T.const(1), fb(idx)[0]), FALSE)))
    vs = tuple(T.fresh('i') for _ in v.ex)
    from . import smt
    H = smt.bounds(vs, v.ex)
    for nm, a in (('below', below), ('over', over)):
        p, n = at(C.as_arr(a), vs)
        run.goal('%s: not missing' % nm, T.not_(n), H)
        run.goal('%s: at least 0' % nm, T.le(T.const(0), p), H)
        run.goal('%s: at most 1' % nm, T.le(p, T.const(1)), H)
    UV = run.w.load('utils_verify')
    for nm, fn in (('cdf', ver.cdf), ('_cdf', ver._cdf), ('binarize_obs', lambda **k: UV.binarize_obs(v.o, **k)),
                   ('iou_determ', lambda **k: UV.iou_determ(v.o, v.o, **k)), ('iou_prob', lambda **k: UV.iou_prob(fb and below, v.o > 0, **k)),
                   ('verifier iou_determ', ver.iou_determ)):
        run.rejects('%s with neither threshold' % nm, fn)
        run.rejects('%s with both thresholds' % nm, lambda: fn(over=t, below=t))
    if g['cls'] == 'Ensemble':
        run.rejects('ens_to_prob with neither threshold', lambda: UV.ens_to_prob(v.f, 0 if g['first'] else -1))
        run.rejects('ens_to_prob with both thresholds', lambda: UV.ens_to_prob(v.f, 0 if g['first'] else -1, over=t, below=t))
    run.frame()
