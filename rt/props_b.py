"""Executable contracts C14..C29 against the real code."""
import signal
import subprocess
from common import *
from props_a import PROPS, prop, prob_world, some_threshold, pearson, ss_groups, par_env, decomp_spec, ks_bad

import scipy.integrate as _int
from scipy import special as _sp


# ---------------------------------------------------------------- C14
@prop('C14')
def c14(c):
    skip = c.coin('skip', .3)
    with env(skip_nan=skip):
        kind = c.pick('kind', ['func', 'func', 'verifier', 'toomany'])
        if kind == 'verifier':
            w = build(c, classes=['Ensemble', 'Gaussian', 'Gamma'], maxsize=200, members=c.pick('Mv', [3, 5, 9]))
            if w.cls == 'Ensemble':
                w.f = c.data('fe', w.f.shape, 'normal', nv=False)
                w.mem = np.moveaxis(w.f, 0 if w.first else -1, 0)
            else:
                w.f['sigma'] = np.abs(c.data('sg', w.dims, 'normal', nv=False)) + .1
            w.v = w.make()
            ax = c.axes('avg', w.rank)
            w.v.set_avg_axis(ax)
            va = w.mem.var(axis=0) if w.cls == 'Ensemble' else w.f['sigma'] ** 2
            sq = (determ(w) - w.o) ** 2
            dims = w.dims
        else:
            dims = c.dims(maxsize=300)
            va = c.data('v', dims, 'positive', nv=False)
            sq = c.data('s', dims, 'positive')
            ax = c.axes('avg', len(dims))
        cs, ks = cells(len(dims), dims, ax)
        n = int(np.prod(dims)) // max(1, len(cs))
        if len(np.unique(va)) != va.size:
            return
        sa = [ax] if isinstance(ax, int) else ax
        if kind == 'toomany':
            must_raise('%d groups for %d cases' % (n + 1, n), lambda: US.binned_spread_skill(va, sq, n + 1, sa))
            return
        nb = c.int('nb', 1, max(1, min(n, 17)))
        if nb > n:
            nb = n
        if kind == 'verifier':
            got = w.v.binned_spread_skill(nbins=nb)
        else:
            got = US.binned_spread_skill(va, sq, nb, sa, skip_nan=c.pick('sk', [None, True, False]))
        ws, wr = np.zeros(ks + (nb,)), np.zeros(ks + (nb,))
        for k, i in cs:
            for g, (gv, gs) in enumerate(ss_groups(np.atleast_1d(va[i]).ravel(), np.atleast_1d(sq[i]).ravel(), nb)):
                ws[k + (g,)] = math.sqrt(math.fsum(gv) / len(gv))
                wr[k + (g,)] = math.sqrt(math.fsum(gs) / len(gs))
        expect('binned spread (dims %s axes %s groups %d)' % (dims, ax, nb), got[0], ws, rtol=1e-7)
        expect('binned error (dims %s axes %s groups %d)' % (dims, ax, nb), got[1], wr, rtol=1e-7)


# ---------------------------------------------------------------- C15
def iou_spec(a, b, ax):
    cs, ks = cells(a.ndim, a.shape, ax)
    out = np.full(ks, np.nan)
    for k, i in cs:
        x, y = np.atleast_1d(a[i]).ravel(), np.atleast_1d(b[i]).ravel()
        u = int((x | y).sum())
        out[k] = int((x & y).sum()) / u if u else np.nan
    return out


@prop('C15')
def c15(c):
    with env():
        kind = c.pick('kind', ['determ', 'prob', 'vdeterm', 'vprob'])
        over = c.coin('over')
        if kind in ('determ', 'prob'):
            dims = c.dims(maxsize=200)
            ax = c.axes('avg', len(dims))
            if isinstance(ax, list):
                ax = tuple(ax)
        if kind == 'determ':
            f = c.data('f', dims)
            o = c.data('o', dims)
            if c.coin('same', .15):
                o = f.copy()
            if c.coin('intdt', .15):
                f, o = np.round(f).astype(int), np.round(o).astype(int)
            t = c.threshold('thr', f)
            if c.coin('tarr', .2):
                t = c.data('tarr', dims, 'ints')
            a, b = (f > t, o > t) if over else (f < t, o < t)
            k = {'over': t} if over else {'below': t}
            got = UV.iou_determ(f, o, axis=ax, **k)
            swap = UV.iou_determ(o, f, axis=ax, **k)
            want = iou_spec(a, b, ax)
            expect('iou_determ axes %s threshold %s' % (ax, brief(t)), got, want)
            expect('iou_determ with forecast and observation exchanged', swap, want)
        elif kind == 'prob':
            p = c.data('p', dims, 'prob')
            e = c.rng('e').random(size=dims) < .5
            t = c.pick('pt', [0., 1., .5, .25, 0, 1] + [float(x) for x in p.ravel()[:2]])
            k = {'over': t} if over else {'below': t}
            got = UV.iou_prob(p, e, axis=ax, **k)
            expect('iou_prob axes %s threshold %s' % (ax, t), got, iou_spec(p > t if over else p < t, e, ax))
        elif kind == 'vdeterm':
            w = build(c)
            ax = c.axes('avg', w.rank)
            w.v.set_avg_axis(ax)
            F = w.v.f_determ() if w.cls == 'Hurdle' else determ(w)
            t = c.threshold('thr', w.o)
            if w.cls == 'Ensemble' and isinstance(t, float) and (np.abs(F - t) < 1e-9).any():
                return
            k = {'over': t} if over else {'below': t}
            got = w.v.iou_determ(**k)
            expect('%s iou_determ axes %s %s' % (w.cls, ax, k), got,
                   iou_spec(F > t if over else F < t, w.o > t if over else w.o < t, ax))
        else:
            w = prob_world(c)
            ax = c.axes('avg', w.rank)
            w.v.set_avg_axis(ax)
            t = c.threshold('thr', w.o)
            pt = c.pick('pt', [.5, .2, 0., 1., .33])
            p = np.asarray(w.v.cdf(over=t) if over else w.v.cdf(below=t))
            if over:
                got = w.v.iou_prob(over=(t, pt), below=(None, None))
            else:
                got = w.v.iou_prob(over=(None, None), below=(t, pt))
            expect('%s iou_prob axes %s (%s, %s)' % (w.cls, ax, t, pt), got,
                   iou_spec(p > pt if over else p < pt, w.o > t if over else w.o < t, ax))
        g = np.asarray(got)
        g = g[~np.isnan(g)]
        if ((g < 0) | (g > 1)).any():
            raise Fail('IoU outside [0,1]')


# ---------------------------------------------------------------- C16
@prop('C16')
def c16(c):
    skip = c.coin('skip', .4)
    arg = c.coin('arg', .3)
    with env(skip_nan=(not skip) if arg else skip):
        if c.coin('verifier', .5) and not arg:
            w = build(c, nan=skip and c.coin('nan'), maxsize=300)
            ax = c.axes('avg', w.rank)
            if w.cls == 'Hurdle' and np.isnan(w.o).any():
                return
            w.v.set_avg_axis(ax)
            F = w.v.f_determ() if w.cls == 'Hurdle' else determ(w)
            O, dims = w.o, w.dims
            got = w.v.corr()
        else:
            dims = c.dims(maxsize=300)
            F, O = c.data('f', dims, 'normal'), c.data('o', dims)
            if skip and c.coin('nan'):
                F = c.nanify('fn', F, .15)
                O = c.nanify('on', O, .15)
            ax = c.axes('avg', len(dims))
            got = UB.corr(F, O, [ax] if isinstance(ax, int) else ax, skip_nan=skip if arg else None)
        cs, ks = cells(len(dims), dims, ax)
        want = np.full(ks, np.nan)
        for k, i in cs:
            a, b = np.atleast_1d(F[i]).ravel(), np.atleast_1d(O[i]).ravel()
            if skip:
                m = ~(np.isnan(a) | np.isnan(b))
                a, b = a[m], b[m]
            if len(a):
                want[k] = pearson(a, b)
        got = np.asarray(got, float)
        if got.shape != ks:
            raise Fail('correlation over axes %s of %s has shape %s instead of %s' % (ax, dims, got.shape, ks))
        # nearly constant data make the coefficient meaningless
        for k, i in cs:
            a, b = np.atleast_1d(F[i]).ravel(), np.atleast_1d(O[i]).ravel()
            m = ~(np.isnan(a) | np.isnan(b))
            if skip:
                a, b = a[m], b[m]
            if len(a) < 2 or np.std(a) < 1e-6 * (1e-300 + np.max(np.abs(a))) or np.std(b) < 1e-6 * (1e-300 + np.max(np.abs(b))):
                got[k] = want[k] = 0
        expect('correlation over axes %s of %s (skip_nan=%s)' % (ax, dims, skip), got, want, rtol=1e-6, atol=1e-7)


# ---------------------------------------------------------------- C17
@prop('C17')
def c17(c):
    skip = c.coin('skip', .4)
    with env(skip_nan=skip):
        if c.coin('verifier', .4):
            w = prob_world(c)
            t = abs(c.threshold('thr', w.o))
            over = c.coin('over')
            p = np.asarray(w.v.cdf(over=t) if over else w.v.cdf(below=t))
            e = w.o > t if over else w.o < t
            if not e.any() or e.all():
                return
            got = w.v.roc(over=t) if over else w.v.roc(below=t)
        else:
            dims = c.dims(maxsize=300, minsize=2)
            p = c.data('p', dims, 'prob')
            if c.coin('round'):
                p = np.round(p * 8) / 8
            e = c.rng('e').random(size=dims) < .3 + .4 * p
            p, e = c.layout('pl', p), c.layout('el', e)
            if skip and c.coin('nan'):
                p = c.nanify('pn', p, .2)
            m = ~np.isnan(p) if skip else np.ones(p.shape, bool)
            if not e[m].any() or e[m].all():
                return
            got = UV.calculate_roc(p, e)
        pp, ee = p.ravel(), e.ravel()          # logical (row-major) order for both
        if skip:
            m = ~np.isnan(pp)
            pp, ee = pp[m], ee[m]
        if not ee.any() or ee.all():
            return
        pos, neg = pp[ee], pp[~ee]
        auc = ((pos[:, None] > neg[None]).sum() + .5 * (pos[:, None] == neg[None]).sum()) / (len(pos) * len(neg))
        fpr, tpr, a = got
        expect('area under the ROC curve', a, auc)
        ths = [np.inf] + sorted(set(pp.tolist()), reverse=True)
        pts = [((neg >= t).mean(), (pos >= t).mean()) for t in ths]
        for x, y in zip(fpr, tpr):
            if not any(abs(x - u) < 1e-9 and abs(y - v) < 1e-9 for u, v in pts):
                raise Fail('ROC point (%r, %r) is not a point of the true curve' % (float(x), float(y)))
        if abs(fpr[0]) > 1e-12 or abs(tpr[0]) > 1e-12 or abs(fpr[-1] - 1) > 1e-12 or abs(tpr[-1] - 1) > 1e-12:
            raise Fail('ROC curve does not run from (0,0) to (1,1)')


# ---------------------------------------------------------------- C18
def fresh_compare(what, v, u, metrics, thr):
    for m in metrics:
        np.random.seed(5)
        a = met(v, m, thr)
        np.random.seed(5)
        b = met(u, m, thr)
        if isinstance(a, tuple):
            for i, (x, y) in enumerate(zip(a, b)):
                expect('%s: %s part %d' % (what, m, i), x, y)
        else:
            expect('%s: %s' % (what, m), a, b)


def met(v, m, thr):
    if m in ('cdf_o', 'cdf_b'):
        return v.cdf(over=thr) if m == 'cdf_o' else v.cdf(below=thr)
    if m == 'brier':
        return v.brier(below=thr)
    if m == 'brier_o':
        return v.brier(over=thr)
    if m == 'iou':
        return v.iou_determ(over=thr)
    if m == 'ss':
        return v.binned_spread_skill(nbins=1)
    if m == 'decomp':
        return tuple(v.brier_decomp(below=thr))
    return getattr(v, m)()


@prop('C18')
def c18(c):
    skip = c.coin('skip', .3)
    with env(skip_nan=skip):
        kind = c.pick('kind', ['stats', 'hist', 'guess', 'histprob'])
        if kind == 'stats':
            w = build(c, cls='Ensemble')
            if skip and c.coin('nan'):
                w.f = c.nanify('fn', w.f, .15)
                w.mem = np.moveaxis(w.f, 0 if w.first else -1, 0)
                w.v = w.make()
            w.v.set_avg_axis(())
            if not np.isnan(w.mem).any():
                mu = w.mem.sum(axis=0) / w.M
                fn = c.pick('collapse', ['mean', 'median', 'max', 'min'])
                if fn != 'mean':
                    w.v.set_collapse_func(getattr(np, fn))
                srt = np.sort(w.mem, axis=0)
                col = {'mean': mu, 'max': srt[-1], 'min': srt[0], 'median': (srt[(w.M - 1) // 2] + srt[w.M // 2]) / 2}[fn]
                expect('ensemble variance', w.v.variance(), ((w.mem - mu) ** 2).sum(axis=0) / w.M, rtol=1e-6, atol=1e-8)
                expect('ensemble collapsed by the %s' % fn, w.v.f_determ(), col)
            sp = np.zeros(w.dims)
            for i in np.ndindex(*w.dims):
                x = w.mem[(slice(None),) + i]
                x = x[~np.isnan(x)] if skip else x
                sp[i] = (max(x) - min(x)) if len(x) and not np.isnan(x).any() else np.nan
            expect('ensemble spread', w.v.spread(), sp)
        elif kind == 'guess':
            dims = c.dims(maxsize=100, big=False)
            M = c.pick('M', [1, 2, 3, 4, 5])
            first = c.coin('first')
            f = c.data('f', (M,) + dims if first else dims + (M,))
            o = c.data('o', dims)
            bad = c.coin('bad', .25)
            if bad:
                o = c.data('o', tuple(x + 1 for x in dims))
                if f.shape[1:] == o.shape or f.shape[:-1] == o.shape:
                    return
                must_raise('ensemble %s with observations %s' % (f.shape, o.shape), lambda: klass('Ensemble')(f, o))
                return
            v = klass('Ensemble')(f, o)
            last_ok = f.shape[:-1] == dims
            u = klass('Ensemble')(f, o, ensemble_axis=-1 if last_ok else 0)
            ax = (-1 if last_ok else 0)
            expect('deterministic forecast with a guessed member axis', v.f_determ(), f.mean(axis=ax))
            thr = c.threshold('thr', o)
            fresh_compare('guessed member axis', v, u, ['error', 'crps', 'variance', 'spread', 'cdf_b'], thr)
        elif kind == 'hist':
            n = c.pick('n', [2, 3, 4])
            r = c.int('r', 1, 2)
            dims = (n,) * r if c.coin('cube', .7) else c.dims(maxsize=60, big=False)
            cube = all(d == dims[0] for d in dims)
            M = dims[0] if cube and c.coin('cubeM', .8) else 4
            f = c.data('f', (M,) + dims, 'normal')
            o = c.data('o', dims, 'normal')
            can_move = f.shape[:-1] == dims
            rk = len(dims)
            funcs = {'mean': np.mean, 'median': np.median, 'max': np.max}
            st = {'ensemble_axis': 0, 'ensemble_collapse_func': np.mean, 'avg_axis': None, 'boot_samples': None}
            v = klass('Ensemble')(f, o, ensemble_axis=0)
            thr = c.threshold('thr', o)
            ms = ['error', 'sq_error', 'ab_error', 'variance', 'spread', 'crps', 'f_determ', 'cdf_b', 'cdf_o', 'brier', 'rmse', 'iou', 'corr', 'ss']
            rr = c.rng('ops')
            ops = []
            for _ in range(c.int('nops', 1, 6)):
                op = rr.choice(['axis', 'func', 'avg', 'boot', 'noboot', 'call', 'chain'])
                ops.append(str(op))
                if op == 'axis' and can_move:
                    a = int(rr.choice([0, -1, rk, -rk - 1]))
                    v.set_ensemble_axis(a)
                    st['ensemble_axis'] = a
                elif op == 'func':
                    k = str(rr.choice(list(funcs)))
                    v.set_collapse_func(funcs[k])
                    st['ensemble_collapse_func'] = funcs[k]
                elif op == 'avg':
                    a = [None, 0, (rk - 1,), (-1,), tuple(range(rk)), ()][int(rr.integers(6))]
                    if a == () :
                        a = (0,)
                    v.set_avg_axis(a)
                    st['avg_axis'] = a
                elif op == 'boot':
                    v.set_boot_samples(4)
                    st['boot_samples'] = 4
                elif op == 'noboot':
                    v.disable_boot()
                    st['boot_samples'] = None
                elif op == 'chain':
                    v.set_avg_axis(0).set_boot_samples(3).disable_boot()
                    st['avg_axis'], st['boot_samples'] = 0, None
                else:
                    met(v, ['error', 'crps', 'cdf_b'][int(rr.integers(3))], thr)
            os.environ['pyanen_boot_repeats'] = '6'
            u = klass('Ensemble')(f, o, **st)
            fresh_compare('after %s' % ops, v, u, ms, thr)
        else:
            w = build(c, classes=['Gaussian', 'Gamma', 'Hurdle', 'Determ'], maxsize=40)
            v = w.v
            st = dict(w.kw)
            rr = c.rng('ops')
            ops = []
            for _ in range(c.int('nops', 1, 6)):
                op = str(rr.choice(['avg', 'boot', 'noboot', 'call', 'members', 'mv', 'clip', 'trunc', 'bins', 'range']))
                ops.append(op)
                if op == 'avg':
                    a = [None, 0, (w.rank - 1,), (-1,), [0]][int(rr.integers(5))]
                    v.set_avg_axis(a)
                    st['avg_axis'] = a
                elif op == 'boot':
                    v.set_boot_samples(4)
                    st['boot_samples'] = 4
                elif op == 'noboot':
                    v.disable_boot()
                    st['boot_samples'] = None
                elif op == 'call':
                    v.error()
                elif w.cls == 'Determ':
                    continue
                elif op == 'members':
                    k = int(rr.integers(1, 5))
                    v.set_ensemble_members(k)
                    st['n_sample_members'] = k
                elif op == 'mv':
                    k = int(rr.choice([-1, 0]))
                    v.set_move_sampled_ens_axis(k)
                    st['move_sampled_ens_axis'] = k
                elif op == 'clip':
                    k = [None, .5, 1.][int(rr.integers(3))]
                    v.set_member_clip(k)
                    st['clip_member_to_zero'] = k
                elif op == 'trunc' and w.cls == 'Gaussian':
                    k = bool(rr.integers(2))
                    v.set_truncation(k)
                    st['truncated'] = k
                elif op == 'bins' and w.cls == 'Hurdle':
                    k = int(rr.integers(2, 9))
                    v.set_bins(k)
                    st['n_approx_bins'] = k
                elif op == 'range' and w.cls == 'Hurdle':
                    k = [(-2., 9.), (0., 4.)][int(rr.integers(2))]
                    v.set_integration_range(*k)
                    st['integration_range'] = k
            os.environ['pyanen_boot_repeats'] = '6'
            u = klass(w.cls)(w.f, w.o, **st)
            thr = c.threshold('thr', w.o)
            ms = ['error', 'sq_error', 'ab_error', 'f_determ', 'rmse', 'iou', 'corr']
            if w.cls != 'Determ':
                ms += ['variance', 'cdf_b', 'cdf_o', 'brier', 'ss', 'crps', 'rank_hist']
                if st.get('n_sample_members') is not None and w.cls != 'Hurdle':
                    ms += ['spread', 'prob_to_ens']
                if w.cls == 'Hurdle' and st.get('n_sample_members') is not None:
                    ms.remove('rank_hist')
            fresh_compare('%s after %s' % (w.cls, ops), v, u, ms, thr)


# ---------------------------------------------------------------- C19
def crps_gamma_spec(um, sg, sh, y):
    """censored shifted gamma (Scheuerer & Hamill), direct transcription"""
    k = (um / sg) ** 2
    th = sg ** 2 / um
    G = lambda a, x: _sp.gammainc(a, np.maximum(x, 0))
    yb, cb = (y - sh) / th, -sh / th
    lb = _sp.betaln(.5, k + .5)
    t = yb * (2 * G(k, yb) - 1) - cb * G(k, cb) ** 2 + k * (1 + 2 * G(k, cb) * G(k + 1, cb) - G(k, cb) ** 2 - 2 * G(k + 1, yb)) \
        - k / np.pi * np.exp(lb) * (1 - G(2 * k, 2 * cb))
    return th * t


def crps_tnorm_spec(y, mu, sg):
    y, l = (y - mu) / sg, -mu / sg
    z = np.maximum(y, l)
    # with tails in logarithms: 1 - Phi(x) = exp(log_ndtr(-x))
    ll = _sp.log_ndtr(-l)
    return sg * (np.abs(y - z) + z * (1 - 2 * np.exp(_sp.log_ndtr(-z) - ll)) + 2 * np.exp(-z * z / 2 - math.log(2 * math.pi) / 2 - ll)
                 - np.exp(_sp.log_ndtr(-l * math.sqrt(2)) - 2 * ll) / math.sqrt(math.pi))


@prop('C19')
def c19(c):
    with env():
        kind = c.pick('kind', ['gamma', 'gamma', 'sharp', 'tnorm', 'ens', 'ens', 'quad', 'reduce'])
        if kind in ('gamma', 'reduce'):
            w = build(c, cls='Gamma')
            w.o = np.maximum(w.o, 0)
            w.v = w.make()
            want = crps_gamma_spec(w.f['unshifted_mu'], w.f['sigma'], w.f['shift'], w.o)
            if kind == 'reduce':
                expect('mean gamma CRPS', UC.crps_gamma(w.f['unshifted_mu'], w.f['sigma'], w.f['shift'], w.o),
                       want.mean(), rtol=1e-6, atol=1e-8)
                return
            w.v.set_avg_axis(())
            got = w.v.crps() if c.coin('m') else UC.crps_gamma(w.f['unshifted_mu'], w.f['sigma'], w.f['shift'], w.o, reduce_sum=False)
            expect('gamma CRPS', got, want, rtol=1e-6, atol=1e-8)
        elif kind == 'sharp':
            dims = c.dims(maxsize=60)
            r = c.rng('p')
            um = 10. ** r.uniform(-3, 4, size=dims)
            sg = um * 10. ** r.uniform(-5, 1, size=dims)
            sh = -um * r.choice([0., .1, .9, 1.5], size=dims)
            o = np.maximum(0, um + sh + sg * r.normal(size=dims) * 3)
            got = UC.crps_gamma(um, sg, sh, o, reduce_sum=False)
            if not np.isfinite(got).all():
                i = tuple(np.argwhere(~np.isfinite(got))[0])
                raise Fail('gamma CRPS is not finite for mean %r sd %r shift %r obs %r' % (um[i], sg[i], sh[i], o[i]))
            if c.coin('extreme', .3):
                sg = um * 10. ** r.uniform(-7, -5, size=dims)
                z = r.normal(size=dims) * 3
                got = UC.crps_gamma(um, sg, np.zeros(dims), um + sg * z, reduce_sum=False) / sg
                if not (np.isfinite(got).all() and (got > -1).all() and (got < 2 + np.abs(z)).all()):
                    raise Fail('gamma CRPS of extremely sharp forecasts is %s standard deviations' % got.ravel()[:5])
                return
            want = crps_gamma_spec(um, sg, sh, o)
            expect('gamma CRPS of sharp forecasts', got / sg, want / sg, rtol=1e-4, atol=1e-4)
        elif kind == 'tnorm':
            w = build(c, cls='Gaussian', want_trunc=True)
            if c.coin('far', .4):
                # most of the normal density lies below zero
                w.f['mu'] = -w.f['sigma'] * 10. ** c.rng('depth').uniform(0, 2, size=w.f['mu'].shape)
            else:
                w.f['mu'] = np.clip(w.f['mu'], -2 * w.f['sigma'], 50 * w.f['sigma'])
            w.o = np.abs(w.o) if c.coin('pos', .7) else w.o
            w.v = w.make(truncated=True)
            w.v.set_avg_axis(())
            expect('truncated Gaussian CRPS', w.v.crps() / w.f['sigma'], crps_tnorm_spec(w.o, w.f['mu'], w.f['sigma']) / w.f['sigma'], rtol=1e-6, atol=1e-6)
            w.v = w.make(truncated=False)
            w.v.set_avg_axis(())
            z = (w.o - w.f['mu']) / w.f['sigma']
            g = w.f['sigma'] * (z * (2 * _sp.ndtr(z) - 1) + 2 * np.exp(-z * z / 2) / math.sqrt(2 * math.pi) - 1 / math.sqrt(math.pi))
            expect('Gaussian CRPS', w.v.crps(), g, rtol=1e-6, atol=1e-8)
        elif kind == 'quad':
            r = c.rng('q')
            if c.coin('qg'):
                um, sg, y = [float(x) for x in r.uniform(.5, 3, size=3)]
                sh = -float(r.uniform(0, um))
                F = lambda x: _sp.gammainc((um / sg) ** 2, max(x - sh, 0) * um / sg ** 2) if x >= 0 else 0.
                got = UC.crps_gamma(np.array([um]), np.array([sg]), np.array([sh]), np.array([y]), reduce_sum=False)[0]
            else:
                mu, sg, y = float(r.uniform(-1, 3)), float(r.uniform(.3, 2)), float(r.uniform(0, 4))
                p0 = _sp.ndtr(-mu / sg)
                F = lambda x: (_sp.ndtr((x - mu) / sg) - p0) / (1 - p0) if x >= 0 else 0.
                got = UC.crps_truncated_gaussian(np.array([y]), np.array([mu]), np.array([sg]), 0)[0]
            q = _int.quad(lambda x: F(x) ** 2, 0, y, limit=200)[0] + _int.quad(lambda x: (1 - F(x)) ** 2, y, 120, limit=400, points=[y + 1, y + 5])[0]
            expect('closed-form CRPS against the defining integral', got, q, rtol=1e-3, atol=1e-4)
        else:
            w = build(c, cls='Ensemble', maxsize=120)
            w.v.set_avg_axis(())
            want = np.zeros(w.dims)
            for i in np.ndindex(*w.dims):
                x = w.mem[(slice(None),) + i]
                want[i] = np.abs(x - w.o[i]).mean() - .5 * np.abs(x[:, None] - x[None]).mean()
            with env(split_crps_ensemble_along_0=c.coin('split')):
                expect('ensemble CRPS (split=%s, dims %s, axis %s)' % (os.environ['pyanen_split_crps_ensemble_along_0'], w.dims, w.ens_axis),
                       w.v.crps(), want, rtol=1e-6, atol=1e-8)


# ---------------------------------------------------------------- C20
@prop('C20')
def c20(c):
    with env(), scratch() as d:
        w = build(c, cls=c.pick('icls', ['Hurdle', 'Hurdle', 'Gaussian', 'Ensemble', 'Gamma']), maxsize=60, okind='positive')
        nb = c.pick('inb', [2, 3, 7, 20] + [x for x in NEW_SIZES[:5] if 1 < x < 300])
        rg = c.pick('rg', [None, (-4., 12.), (.5, 9.), (0., 3.)])
        rg = tuple(rg) if rg is not None else None
        mult = c.pick('mult', [5, 1, 2, 11])
        lm = c.coin('less')
        workers = c.pick('workers', [1, 1, 3])
        m = c.pick('im', ['crps', 'mean', 'variance'])
        RAY.mode, w_env = 'random', {}
        RAY.order.seed(c.seed)
        viaself = w.cls == 'Hurdle' and c.coin('viaself', .4)
        with env(integrate_range_multiplier=mult, **(dict(tqdm_workers=workers, integrate_with_less_memory=lm) if viaself else {})):
            if rg is None:
                lo, hi = float(w.o.min()), float(w.o.max())
                R = (lo - mult * (hi - lo), hi + mult * (hi - lo))
            else:
                R = rg
            xs = np.linspace(R[0], R[1], nb)
            if w.cls in ('Hurdle',) and ((np.abs(xs) < 1e-9 * (1 + np.abs(xs).max())) & (xs != 0)).any():
                return
            try:
                if viaself:
                    w.v.set_bins(nb)
                    w.v.set_avg_axis(())
                    w.v.integration_range = None
                    if rg is not None:
                        w.v.set_integration_range(*rg)
                    got = {'crps': w.v.crps, 'mean': w.v.f_determ, 'variance': w.v.variance}[m]()
                else:
                    got = getattr(UA.Integration(w.v, rg, nb, workers=workers, less_memory=lm,
                                                 memmap_dir=d if c.coin('md') else None), m)()
            finally:
                RAY.shutdown()
        F = np.array([cdf_spec(w, x) for x in xs])
        want = np.zeros(w.dims)
        sec = np.zeros(w.dims)
        for i in range(nb - 1):
            if m == 'crps':
                b0 = (F[i] - (w.o < xs[i])) ** 2
                b1 = (F[i + 1] - (w.o < xs[i + 1])) ** 2
                want += .5 * (b0 + b1) * (xs[i + 1] - xs[i])
            else:
                want += .5 * (xs[i] + xs[i + 1]) * (F[i + 1] - F[i])
                sec += .5 * (xs[i] ** 2 + xs[i + 1] ** 2) * (F[i + 1] - F[i])
        if m == 'variance':
            want = sec - want ** 2
        sc = max(1., float(np.abs(xs).max()))
        if w.cls == 'Ensemble' or m == 'crps':
            # a member or observation within rounding of a grid point flips a case
            pool = np.concatenate([w.o.ravel(), w.mem.ravel() if w.cls == 'Ensemble' else []])
            if (np.abs(pool[:, None] - xs[None]) < 1e-9 * sc).any():
                return
        expect('integrated %s of %s over %s, %d points (workers=%d, less_memory=%s)' % (m, w.cls, R, nb, workers, lm), got, want,
               rtol=1e-6, atol=1e-7 * sc * (sc if m == 'variance' else 1))


# ---------------------------------------------------------------- C21
class _Boom(Exception):
    pass


class _BoomBase(BaseException):
    pass


@prop('C21')
def c21(c):
    with env(), scratch() as d:
        w = build(c, cls=c.pick('icls', ['Hurdle', 'Gaussian']), maxsize=30, okind='positive')
        lm = c.coin('less', .7)
        workers = c.pick('workers', [1, 3])
        settings = {'tqdm_disable': c.pick('dis', ['True', 'False', 'true', '1', 'no']), 'tqdm_workers': c.pick('wk', [1, 2, '03']),
                    'tqdm_leave': c.pick('lv', ['True', 'False'])}
        where = c.pick('where', ['none', 'cdf', 'memmap', 'brier', 'badshape'])
        nb = c.pick('inb', [2, 4, 6])
        at = c.int('at', 1, nb + 1)
        m = c.pick('im', ['crps', 'mean', 'variance'])
        boom = c.pick('boom', ['exc', 'base'])
        RAY.mode = 'random'
        RAY.order.seed(c.seed)
        cls = type(w.v)
        count = [0]
        orig, origmm, origb = cls._cdf, np.memmap, cls._brier

        def raise_at(k):
            count[0] += 1
            if count[0] == k:
                raise (_Boom('boom') if boom == 'exc' or workers > 1 else _BoomBase('boom'))

        def cdf(self, *a, **k):
            raise_at(at)
            return orig(self, *a, **k)

        def brier(self, *a, **k):
            raise_at(at)
            return origb(self, *a, **k)

        def memmap(*a, **k):
            raise_at(min(at, 3))
            return origmm(*a, **k)
        out = io.StringIO()
        with env(**settings):
            before = {k: v for k, v in os.environ.items() if k.startswith('pyanen_')}
            files = sorted(os.listdir(d))
            try:
                if where == 'cdf':
                    cls._cdf = cdf
                elif where == 'brier':
                    cls._brier = brier
                elif where == 'memmap':
                    np.memmap = memmap
                with contextlib.redirect_stderr(out), contextlib.redirect_stdout(out):
                    try:
                        it = UA.Integration(w.v, None, nb, workers=workers, less_memory=lm,
                                            memmap_dir=(None if c.coin('md') else d))
                        getattr(it, m)()
                        if c.coin('twice', .3):
                            getattr(it, m)()
                    except (_Boom, _BoomBase):
                        pass
            finally:
                cls._cdf, np.memmap, cls._brier = orig, origmm, origb
                RAY.shutdown()
            after = {k: v for k, v in os.environ.items() if k.startswith('pyanen_')}
            if before != after:
                raise Fail('settings changed by an integration (%s fails at call %s): %s' % (
                    where, at, {k: (before.get(k), after.get(k)) for k in set(before) | set(after) if before.get(k) != after.get(k)}))
            if sorted(os.listdir(d)) != files:
                raise Fail('integration (%s fails at call %d) left %s behind' % (where, at, sorted(os.listdir(d))))


# ---------------------------------------------------------------- C22
@prop('C22')
def c22(c):
    skip = c.coin('skip', .2)
    with env(boot_repeats=8, skip_nan=skip), scratch() as d:
        w = build(c, want_trunc=True, maxsize=60, nan=False)
        wd = os.path.join(d, 'work')
        rr = c.rng('ops')
        sfs = c.coin('sfs', .3)
        V = w.make(working_directory=wd, start_from_scratch=False)
        thrs = [c.threshold('thr', w.o), c.threshold('thr2', w.o), .25, .25000001, 1, 1.0, 0, 0.0]
        arrs = []
        if int(np.prod(w.dims)) <= 5:
            a = np.full(w.dims, .123456789123)
            arrs = [a, a + 1e-9]
        big = np.full(w.dims, .7) if int(np.prod(w.dims)) > 5 else None
        state = {'avg_axis': None, 'boot_samples': None}
        log = []
        ms = ['error', 'sq_error', 'ab_error', 'f_determ', 'rmse', 'iou_determ', 'corr']
        if w.cls != 'Determ':
            ms += ['variance', 'cdf', 'brier', 'sharpness', 'binned_spread_skill', 'reliability', 'roc', 'brier_decomp', 'iou_prob', 'crps']
        if w.cls == 'Ensemble':
            ms += ['spread']
        if w.cls == 'Gamma' and w.trunc:
            ms.remove('crps')
        for step in range(c.int('nops', 3, 9)):
            op = rr.choice(['call', 'call', 'call', 'avg', 'boot', 'noboot', 'reopen'])
            if op == 'avg':
                state['avg_axis'] = [None, (0,), (w.rank - 1,), (-1,), tuple(range(w.rank))][int(rr.integers(5))]
                V.set_avg_axis(state['avg_axis'])
                log.append(('avg', state['avg_axis']))
            elif op == 'boot':
                state['boot_samples'] = int(rr.integers(2, 5))
                V.set_boot_samples(state['boot_samples'])
                log.append(('boot', state['boot_samples']))
            elif op == 'noboot':
                state['boot_samples'] = None
                V.disable_boot()
                log.append(('noboot',))
            elif op == 'reopen':
                V = w.make(working_directory=wd, start_from_scratch=False, **state)
                log.append(('reopen',))
            else:
                m = str(rr.choice(ms))
                kw = {}
                if m in ('iou_determ', 'cdf', 'brier', 'sharpness', 'reliability', 'roc', 'brier_decomp'):
                    pool = thrs + arrs
                    if m in ('cdf', 'brier', 'sharpness') and big is not None and rr.random() < .2:
                        t = big + .1 * int(rr.integers(3))
                    else:
                        t = pool[int(rr.integers(len(pool)))]
                        if isinstance(t, np.ndarray) and m not in ('cdf', 'brier', 'sharpness'):
                            t = .25
                    kw['over' if rr.random() < .5 else 'below'] = t
                if m == 'iou_prob':
                    t = (thrs[int(rr.integers(len(thrs)))], float(rr.choice([.3, .5])))
                    kw = {'over': t, 'below': (None, None)} if rr.random() < .5 else {'below': t, 'over': (None, None)}
                if m == 'reliability':
                    if state['avg_axis'] is not None and len(norm_axes(state['avg_axis'], w.rank)) != w.rank:
                        continue
                    if state['boot_samples'] is not None:
                        continue
                    kw['nbins'] = int(rr.choice([3, 15]))
                if m == 'binned_spread_skill':
                    kw['nbins'] = int(rr.choice([1, 2]))
                if m == 'corr' and state['boot_samples'] is not None:
                    continue
                if m == 'roc' and len(np.unique(w.o)) < 2:
                    continue
                U = w.make(**state)
                res = []
                for obj in (V, U):
                    np.random.seed(step)
                    try:
                        res.append(('ok', getattr(obj, m)(**kw)))
                    except AssertionError as e:
                        res.append(('raise', None))
                log.append((m, {k: brief(x) if isinstance(x, np.ndarray) else x for k, x in kw.items()}))
                if res[0][0] != res[1][0]:
                    raise Fail('%s with saving %ss, without saving %ss; history %s' % (m, res[0][0], res[1][0], log))
                if res[0][0] == 'ok':
                    a, b = res[0][1], res[1][1]
                    if isinstance(b, tuple):
                        for x, y in zip(a, b):
                            expect('%s %s with saving, history %s' % (w.cls, m, log), x, y)
                    else:
                        expect('%s %s with saving, history %s' % (w.cls, m, log), a, b)
        for fn in os.listdir(wd):
            if len(fn) > 200:
                raise Fail('array used as file name: %s' % fn[:80])


# ---------------------------------------------------------------- C23
def tree(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for x in ds:
            out[os.path.relpath(os.path.join(r, x), d)] = None
        for x in fs:
            p = os.path.join(r, x)
            out[os.path.relpath(p, d)] = open(p, 'rb').read()
    return out


@prop('C23')
def c23(c):
    kind = c.pick('kind', ['none', 'confined', 'keep', 'crash', 'crash', 'oserr', 'memmap'])
    with env(), scratch() as d:
        for p in ('other', 'work/sub', 'work2'):
            os.makedirs(os.path.join(d, p))
            open(os.path.join(d, p, 'keep.txt'), 'w').write('keep ' + p)
        open(os.path.join(d, 'error.pkl'), 'wb').write(b'not a pickle')
        wd = os.path.join(d, 'work')
        w = build(c, maxsize=60, want_trunc=True)
        thr = c.threshold('thr', w.o)
        before = tree(d)

        def use(v):
            for m in ('error', 'sq_error', 'f_determ'):
                getattr(v, m)()
            if w.cls != 'Determ':
                v.cdf(below=thr)
                v.brier(over=thr)
                v.variance()
        if kind == 'none':
            v = w.make(working_directory=c.pick('wdnone', [None, '']))
            use(v)
            v.set_avg_axis(0)
            v.disable_saving()
            use(v)
            if tree(d) != before:
                raise Fail('files changed with saving disabled')
            v = w.make(working_directory=wd, start_from_scratch=False)
            v.error()
            v.disable_saving()
            b2 = tree(d)
            use(v)
            v.set_avg_axis(0)
            if tree(d) != b2:
                raise Fail('files changed after saving was disabled')
            return
        if kind in ('confined', 'keep', 'memmap'):
            sfs = kind == 'confined'
            how = c.pick('how', ['ctor', 'setter'])
            target = c.pick('target', ['work', 'new', 'new/deep'])
            t = os.path.join(d, target)
            if how == 'ctor':
                v = w.make(working_directory=t, start_from_scratch=sfs)
            else:
                v = w.make().enable_saving(t, start_from_scratch=sfs)
            use(v)
            if kind == 'memmap' and w.cls == 'Hurdle':
                os.environ['pyanen_integrate_with_less_memory'] = 'True'
                v.crps()
            v.set_avg_axis(0)
            use(v)
            after = tree(d)
            for k, b in before.items():
                inside = k == target or k.startswith(target + os.sep)
                if not inside and after.get(k, 'gone') != b:
                    raise Fail('%s outside the working directory was changed or removed' % k)
                if inside and not sfs and after.get(k, 'gone') != b:
                    raise Fail('%s was removed although starting from scratch was not requested' % k)
            for k in after:
                if k not in before and not (k == target or k.startswith(target + os.sep) or target.startswith(k + os.sep)):
                    raise Fail('%s was written outside the working directory' % k)
            if sfs and target == 'work' and 'work/sub/keep.txt' in after:
                raise Fail('start_from_scratch kept old content')
            return
        # crash while saving: the child is killed by the kernel at a byte limit, or ends at a file-system event
        import resource
        sfs = False
        w = build(c, cls=c.pick('ccls', ['Determ', 'Ensemble', 'Gaussian']), dims=(c.pick('cn', [3, 40, 3000]),))
        metric = c.pick('cm', ['error', 'f_determ', 'sq_error'])
        size = 8 * int(np.prod(w.dims)) + 150
        frac = c.rng('frac').random()
        limit = int(size * frac) if c.coin('midway', .7) else c.pick('lim', [0, 1, 10, 100])
        nev = c.int('nev', 1, 8)
        mode = c.pick('mode', ['bytes', 'event']) if kind == 'crash' else 'oserr'
        pid = os.fork()
        if pid == 0:
            try:
                sys.stdout = sys.stderr = open(os.devnull, 'w')
                v = w.make(working_directory=wd, start_from_scratch=False)
                if mode == 'bytes':
                    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
                elif mode == 'oserr':
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
                else:
                    n = [0]

                    def hook(ev, args):
                        if ev in ('open', 'os.rename', 'os.remove', 'os.link', 'os.symlink', 'os.truncate', 'shutil.move',
                                  'shutil.copyfile', 'os.mkdir', 'os.rmdir') or ev.startswith('pickle') or ev.startswith('tempfile'):
                            n[0] += 1
                            if n[0] == nev:
                                os._exit(9)
                    sys.addaudithook(hook)
                getattr(v, metric)()
            except BaseException:
                os._exit(3)
            os._exit(0)
        os.waitpid(pid, 0)
        want = getattr(w.make(), metric)()
        v2 = w.make(working_directory=wd, start_from_scratch=False)
        try:
            got = getattr(v2, metric)()
        except Exception as e:
            raise Fail('after a crash (%s, %s bytes, event %d) while saving %s the next run failed: %r' % (mode, limit, nev, metric, e))
        expect('%s after a crash while saving (%s, %s bytes, event %d)' % (metric, mode, limit, nev), got, want)
        for fn in os.listdir(wd):
            if fn.endswith('.pkl'):
                try:
                    pickle.load(open(os.path.join(wd, fn), 'rb'))
                except Exception as e:
                    raise Fail('torn entry %s after a crash: %r' % (fn, e))


# ---------------------------------------------------------------- C24
def snap(x):
    if isinstance(x, dict):
        return {k: snap(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return (x.copy(), x.shape, x.dtype, x.strides, x.flags.writeable)
    return x


def unchanged(x, s, what):
    if isinstance(x, dict):
        if set(x) != set(s):
            raise Fail('%s: keys of the input dictionary changed' % what)
        for k in x:
            unchanged(x[k], s[k], what + ' ' + k)
    elif isinstance(x, np.ndarray):
        if x.shape != s[1] or x.dtype != s[2] or x.strides != s[3] or x.flags.writeable != s[4] or \
                not np.array_equal(x, s[0], equal_nan=x.dtype.kind == 'f'):
            raise Fail('%s was modified' % what)


@prop('C24')
def c24(c):
    skip = c.coin('skip', .3)
    with env(boot_repeats=4, skip_nan=skip), scratch() as d:
        kind = c.pick('kind', ['verifier', 'utils'])
        if kind == 'verifier':
            nan = skip and c.coin('nan')
            w = build(c, want_trunc=True, maxsize=60, nan=nan)
            if w.cls == 'Hurdle' and nan:
                w.o = np.nan_to_num(w.o)
                w.v = w.make()
            if c.coin('saving', .3):
                w.v = w.make(working_directory=os.path.join(d, 'w'))
            arr = c.data('ta', w.dims, c.pick('tk', ['normal', 'zeros', 'positive']))
            if w.cls != 'Determ' and c.coin('members', .5) and w.cls != 'Ensemble':
                w.v.set_ensemble_members(3)
                if c.coin('clip', .4):
                    w.v.set_member_clip(.5)
            w.v.set_avg_axis(c.axes('avg', w.rank))
            if c.coin('boot', .2):
                w.v.set_boot_samples(3)
            s = [snap(w.f), snap(w.o), snap(arr)]
            t = c.threshold('thr', np.nan_to_num(w.o))
            calls = ['error()', 'ab_error()', 'sq_error()', 'rmse()', 'f_determ()', 'corr()', 'iou_determ(over=t)', 'crps()', 'variance()',
                     'rank_hist()', 'pit()', 'spread()', 'prob_to_ens()', 'cdf(below=arr)', 'cdf(over=arr)', 'brier(over=arr)',
                     'brier(below=arr)', 'cdf(below=t)', 'cdf(over=t)', 'sharpness(below=t)', 'brier(over=t)', 'roc(over=t)', 'reliability(over=t)',
                     'binned_spread_skill(nbins=1)', 'brier_decomp(over=t)', 'iou_prob(over=(t,.5),below=(None,None))', '__repr__()']
            for q in c.rng('order').permutation(len(calls))[:9]:
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        eval('v.' + calls[q], {'v': w.v, 't': t, 'arr': arr, 'None': None})
                except Exception:
                    pass
                for x, y, nm in zip((w.f, w.o, arr), s, ('forecast', 'observation', 'threshold')):
                    unchanged(x, y, '%s.%s: the %s array' % (w.cls, calls[q], nm))
            return
        dims = c.dims(maxsize=80)
        ax = c.axes('avg', len(dims), form='tuple')
        a, b = c.data('a', dims), c.data('b', dims)
        pz = c.data('p', dims, 'prob')
        pos, pos2 = c.data('v', dims, 'positive'), c.data('s', dims, 'positive')
        neg = -c.data('sh', dims, 'positive')
        e = c.rng('e').random(size=dims) < .5
        ens = c.data('ens', (4,) + dims, 'ints')
        fr = np.abs(c.data('fr', (5,), 'normal')) + .1
        env_ = dict(UV=UV, UB=UB, US=US, UC=UC, UD=UD, UG=UG, a=a, b=b, pz=pz, pos=pos, pos2=pos2, neg=neg, e=e, ens=ens, ax=ax, fr=fr,
                    np=np, klass=klass)
        calls = ['UV.boot_arr(a, ax, 3)', 'UV.boot_vec(a.ravel(), 3)', 'UV.reliability_diagram(pz, e, 3, None)',
                 'UV.reliability_diagram(pz, e, 3, None, boot_samples=3)', 'UV.iou_determ(a, b, ax, over=.5)', 'UV.iou_prob(pz, e, ax, over=.5)',
                 'UV.binarize_obs(a, over=b)', 'UV.calculate_roc(pz, e)', 'UV.rank_histogram(ens, a, 0)', 'UV.ens_to_prob(ens, 0, below=a)',
                 'UV.ens_to_prob(ens, 0, over=.5)', 'UB.corr(a, b, ax)', 'UB.corr(a, b, ax, 4)', 'UB.brier_decomp(pz, e, ax)',
                 'UB.brier_decomp(pz, e, ax, 4)', 'US.binned_spread_skill(pos, pos2, 1, ax)', 'US.binned_spread_skill(pos, pos2, 1, ax, boot_samples=3)',
                 'US._binned_spread_skill_create_split(pos, pos2, 1, ax)',
                 'UC.crps_gamma(pos, pos2, neg, b, reduce_sum=False)', 'UC.crps_truncated_gaussian(a, b, pos, 0)',
                 'UD.cdf_gaussian(a, pos, b)', 'UD.cdf_gaussian(a, pos, b, True)', 'UD.cdf_gamma(pos, pos2, neg, b)', 'UD.cdf_gamma(pos, pos2, neg, b, True)',
                 'UD.cdf_gamma_hurdle(pz, pos, pos2, b)', 'UD.sample_dist_gaussian(a, pos, 3)', 'UD.sample_dist_gaussian(a, pos, 3, 0)',
                 'UD.sample_dist_gamma(pos, pos2, neg, 3)', 'UD.sample_dist_gamma(pos, pos2, neg, 3, 0)',
                 'UG.diebold_mariano_test(a, b, pos, crit="MSE")', 'UG.diebold_mariano_test(a, b, pos, crit="MAD")',
                 'klass("Determ").reliability_index(fr)', 'UV.rankdata(ens)', 'UV.ens_to_prob_moments(ens)']
        arrs = {k: v for k, v in env_.items() if isinstance(v, np.ndarray)}
        s = {k: snap(v) for k, v in arrs.items()}
        for q in c.rng('order').permutation(len(calls))[:9]:
            try:
                eval(calls[q], env_)
            except Exception:
                pass
            for k in arrs:
                unchanged(arrs[k], s[k], '%s: the array %s' % (calls[q], k))


# ---------------------------------------------------------------- C25
def dm_spec(a, p1, p2, h, crit, power):
    n = len(a)
    loss = {'MSE': lambda x: (a - x) ** 2, 'MAD': lambda x: np.abs(a - x), 'MAPE': lambda x: np.abs((a - x) / a),
            'poly': lambda x: (a - x) ** power}[crit]
    d = loss(p1) - loss(p2)
    m = d.mean()
    g = []
    for k in range(h):
        s = [(d[i] - m) * (d[i - k] - m) for i in range(k, n)]
        g.append(math.fsum(s) / len(s))
    V = (g[0] + 2 * math.fsum(g[1:])) / n
    if V <= 0:
        return None
    st = m / math.sqrt(V) * math.sqrt((n + 1 - 2 * h + h * (h - 1) / n) / n)
    df = n - 1
    p = _sp.betainc(df / 2., .5, df / (df + st * st))
    return st, p


@prop('C25')
def c25(c):
    with env():
        kind = c.pick('kind', ['value', 'value', 'value', 'reject'])
        dims = c.dims(maxsize=200, minsize=2, hi=2)
        n = int(np.prod(dims))
        a = c.data('a', dims, c.pick('ak', ['normal', 'positive', 'ints']), nv=False)
        p1, p2 = c.data('p1', dims, 'normal'), c.data('p2', dims, 'normal')
        T = UG.diebold_mariano_test if c.coin('imp') else PyAnEn.diebold_mariano_test
        if kind == 'reject':
            must_raise('unequal lengths', lambda: T(a, p1.ravel()[:-1], p2))
            must_raise('unequal lengths', lambda: T(a, p1, p2.ravel()[:-1]))
            must_raise('unequal lengths', lambda: T(a.ravel()[:-1], p1, p2))
            must_raise('unequal lengths (forecasts equally long)', lambda: T(a.ravel(), np.append(p1, 1.), np.append(p2, 1.)))
            for h in (0, -1, n, n + 1):
                must_raise('horizon %d for %d cases' % (h, n), lambda: T(a, p1, p2, h=h))
            for cr in ('mse', 'RMSE', '', None, 'MSE '):
                must_raise('criterion %r' % (cr,), lambda: T(a, p1, p2, crit=cr))
            return
        h = c.int('h', 1, max(1, min(n - 1, 6)))
        crit = c.pick('crit', ['MSE', 'MAD', 'MAPE', 'poly'])
        power = c.pick('power', [2, 3, 4, 1])
        if crit == 'MAPE':
            a = np.where(np.abs(a) < .1, 1., a)
        want = dm_spec(a.ravel(), p1.ravel(), p2.ravel(), h, crit, power)
        if want is None:
            return
        dflt = crit == 'MSE' and h == 1 and c.coin('dflt')
        got = T(a, p1, p2) if dflt else T(a, p1, p2, h=h, crit=crit, power=power)
        back = T(a, p2, p1, h=h, crit=crit, power=power)
        st, p = want
        tol = 1e-6
        expect('DM statistic (n=%d, h=%d, %s)' % (n, h, crit), got[0], st, rtol=tol)
        expect('DM p-value (n=%d, h=%d, %s)' % (n, h, crit), got[1], p, rtol=1e-5, atol=1e-9)
        expect('DM statistic with exchanged forecasts', back[0], -st, rtol=tol)
        expect('DM p-value with exchanged forecasts', back[1], p, rtol=1e-5, atol=1e-9)
        if not 0 <= got[1] <= 1:
            raise Fail('p-value %r' % got[1])


# ---------------------------------------------------------------- C26
@prop('C26')
def c26(c):
    from PyAnEn import Grid
    with env(), scratch() as d:
        p = os.path.join(d, 'm.txt')
        r, k = c.pick('r', [1, 2, 3, 7, 0] + NEW_SIZES[:4]), c.pick('k', [1, 2, 3, 6] + NEW_SIZES[:4])
        dt = c.pick('dt', ['float', 'int', 'float32', 'hard'])
        m = c.data('m', (r, k), 'mixedscale')
        if dt == 'int':
            m = np.round(m * 100).astype(int)
        elif dt == 'float32':
            m = m.astype(np.float32)
        elif dt == 'hard' and m.size:
            m = np.array(m)
            hard = [.1, 1e-300, 1e300, 1 / 3., -0., 5e-324, 123456789.123456789, 2. ** 53 + 2]
            m.flat[0] = hard[c.int('hi', 0, len(hard) - 1)]
        if dt != 'int' and c.coin('nan', .3):
            m = c.nanify('mn', m, .3)
        exists = c.coin('exists', .4)
        ow = c.coin('ow')
        if exists:
            open(p, 'w').write('old content')
        if exists and not ow:
            must_raise('overwriting an existing file', lambda: Grid.write_matrix(p, m))
            if open(p).read() != 'old content':
                raise Fail('an existing file was changed without permission')
            return
        before = m.copy()
        with contextlib.redirect_stderr(io.StringIO()):
            Grid.write_matrix(p, m, overwrite=True) if ow else Grid.write_matrix(p, m)
        s = open(p).read()
        if not np.array_equal(before, m, equal_nan=m.dtype.kind == 'f'):
            raise Fail('matrix changed')
        lines = s.split('\n')
        if lines[0].replace(' ', '') != '[%d,%d]' % m.shape:
            raise Fail('header %r for shape %s' % (lines[0], m.shape))
        body = '\n'.join(lines[1:]).strip()
        if not (body.startswith('(') and body.endswith(')')):
            raise Fail('body not enclosed in parentheses')
        rows = [x.strip() for x in body[1:-1].strip().split('\n') if x.strip()]
        if len(rows) != m.shape[0]:
            raise Fail('%d rows written for %d' % (len(rows), m.shape[0]))
        for i, row in enumerate(rows):
            row = row.rstrip(',')
            if not (row.startswith('(') and row.endswith(')')):
                raise Fail('row %r' % row[:80])
            el = [x.strip() for x in row[1:-1].split(',')] if m.shape[1] else []
            if len(el) != m.shape[1]:
                raise Fail('row %d has %d elements for %d' % (i, len(el), m.shape[1]))
            for j, x in enumerate(el):
                v = m.dtype.type(float(x)) if m.dtype.kind == 'f' else int(x)
                if not (v == m[i, j] or (v != v and m[i, j] != m[i, j])):
                    raise Fail('element (%d,%d) written as %s instead of %r' % (i, j, x, m[i, j]))


# ---------------------------------------------------------------- C27
@prop('C27', weight=1.5)
def c27(c):
    kind = c.pick('kind', ['import', 'import', 'vec', 'arr', 'corr', 'decomp', 'rel', 'ss', 'kde', 'integ', 'late'])
    r = c.rng('r')
    if kind == 'import':
        old = dict(os.environ)
        try:
            for k in [k for k in os.environ if k.startswith('pyanen_')]:
                del os.environ[k]
            pre = {}
            for k in DEFAULT_ENV:
                if r.random() < .4:
                    pre[k] = str(r.choice(['', 'False', 'True', '7', 'odd value', DEFAULT_ENV[k]]))
            extra = {'pyanen_something_else': 'x', 'OTHER_VAR': 'y'}
            os.environ.update(pre)
            os.environ.update(extra)
            b4 = dict(os.environ)
            if r.random() < .02:
                code = 'import sys,os,json; sys.path.insert(0, %r); import PyAnEn; print(json.dumps(dict(os.environ)))' % REPO
                o = subprocess.run([sys.executable, '-c', code], capture_output=True, text=True, timeout=120)
                if o.returncode:
                    raise Fail('import failed: %s' % o.stderr[-300:])
                now = json.loads(o.stdout.strip().split('\n')[-1])
            else:
                importlib.reload(PyAnEn)
                now = dict(os.environ)
            for k, v in DEFAULT_ENV.items():
                want = pre.get(k, v)
                if now.get(k) != want:
                    raise Fail('after import %s is %r instead of %r (%s)' % (k, now.get(k), want, 'user setting' if k in pre else 'default'))
            for k in b4:
                if now.get(k) != b4[k] and k not in ('LC_CTYPE',):
                    raise Fail('import changed %s' % k)
        finally:
            os.environ.clear()
            os.environ.update(old)
        return
    n, R, conf = int(r.integers(1, 9)), int(r.integers(2, 30)), float(r.choice([.5, .9, .95, .2]))
    skip = bool(r.integers(2))
    good = dict(boot_samples=n, boot_repeats=R, boot_confidence=conf, skip_nan=skip)
    bad = dict(boot_samples=n + 3, boot_repeats=R + 5, boot_confidence=.37, skip_nan=not skip)
    dims = c.dims(maxsize=40, minsize=4, big=False)
    a, b = c.data('a', dims, 'normal'), c.data('b', dims, 'normal')
    pz = c.rng('pz').random(size=dims)
    e = c.rng('e').random(size=dims) < .5
    if c.coin('nan', .5) and kind in ('vec', 'corr', 'ss', 'arr'):
        a = c.nanify('an', a, .2)
    seed = int(r.integers(1e9))

    def run(f, **en):
        with env(**en):
            np.random.seed(seed)
            try:
                return f()
            except (ValueError, AssertionError, IndexError, FloatingPointError) as ex:
                return ('raised', type(ex).__name__)

    def check(what, f_args, f_env):
        x = run(f_args, **bad)
        y = run(f_env, **good)
        z = run(f_args, **good)
        if isinstance(y, tuple) and y and isinstance(y[0], str):
            if x != y:
                raise Fail('%s: arguments and settings behave differently' % what)
            return
        ys = y if isinstance(y, tuple) else (y,)
        for nm, q in (('contradicting', x), ('agreeing', z)):
            qs = q if isinstance(q, tuple) else (q,)
            if len(qs) != len(ys):
                raise Fail('%s: explicit arguments under %s settings fail' % (what, nm))
            for u, v in zip(qs, ys):
                expect('%s: explicit arguments under %s settings' % (what, nm), u, v)
    sa = list(range(len(dims)))
    if kind == 'vec':
        check('boot_vec', lambda: UV.boot_vec(a.ravel(), n_samples=n, repeats=R, confidence=conf), lambda: UV.boot_vec(a.ravel()))
    elif kind == 'arr':
        bad['skip_nan'] = skip
        check('boot_arr', lambda: UV.boot_arr(a, (0,), n_samples=n, repeats=R, confidence=conf), lambda: UV.boot_arr(a, (0,)))
    elif kind == 'corr':
        ns = None if r.random() < .5 else n + 3
        check('corr', lambda: UB.corr(a, b, sa, ns, repeats=R, confidence=conf, skip_nan=skip, disable=True, leave=False),
              lambda: UB.corr(a, b, sa, ns))
    elif kind == 'decomp':
        ns = None if r.random() < .3 else n + 3
        check('brier_decomp', lambda: UB.brier_decomp(pz, e, sa, ns, repeats=R, confidence=conf, skip_nan=skip),
              lambda: UB.brier_decomp(pz, e, sa, ns))
    elif kind == 'rel':
        check('reliability bootstrap', lambda: UV.reliability_diagram(pz, e, 2, None, boot_samples=n, repeats=R, confidence=conf, skip_nan=skip)[:2],
              lambda: UV.reliability_diagram(pz, e, 2, None, boot_samples=n)[:2])
        with optional():
            sp = UV._reliability_create_split(pz, e, 2, None)
            check('reliability bootstrap, sample size', lambda: UV._reliability_agg_boot(*sp, n_samples=n, repeats=R, confidence=conf, skip_nan=skip)[:2],
                  lambda: UV._reliability_agg_boot(*sp)[:2])
    elif kind == 'ss':
        va = np.abs(b) + .01
        sq = a * a
        ns = None if r.random() < .4 else n
        check('binned_spread_skill', lambda: US.binned_spread_skill(va, sq, 2, None, boot_samples=ns, repeats=R, confidence=conf, skip_nan=skip),
              lambda: US.binned_spread_skill(va, sq, 2, None, boot_samples=ns))
        with optional():
            sp = US._binned_spread_skill_create_split(va, sq, 2, None)
            check('spread-skill bootstrap, sample size', lambda: US._binned_spread_skill_agg_boot(*sp, n_samples=n, repeats=R, confidence=conf, skip_nan=skip),
                  lambda: US._binned_spread_skill_agg_boot(*sp))
    elif kind == 'kde':
        x = np.concatenate([[.3], c.rng('kx').normal(size=6)])
        bw, kn, sm, ml = float(r.choice([.5, .1])), str(r.choice(['gaussian', 'tophat'])), int(r.integers(5, 40)), int(r.integers(1, 6))
        good = dict(kde_bandwidth=bw, kde_kernel=kn, kde_samples=sm, kde_multiply_spread=ml)
        bad = dict(kde_bandwidth=1.7, kde_kernel='linear', kde_samples=sm + 7, kde_multiply_spread=ml + 2)
        X = run(lambda: UV.ens_to_prob_kde(x, bandwidth=bw, kernel=kn, samples=sm, spread_multiplier=ml), **bad)
        Y = run(lambda: UV.ens_to_prob_kde(x), **good)
        expect('ens_to_prob_kde: explicit arguments under contradicting settings', X, Y)
    elif kind == 'integ':
        with env():
            w = build(c, cls='Gaussian', dims=(3,), okind='positive')
        wk, lm, cs = int(r.integers(1, 5)), bool(r.integers(2)), int(r.integers(1, 9))
        with env(tqdm_workers=wk + 1, integrate_with_less_memory=not lm, tqdm_chunksize=cs + 2, tqdm_disable='False', tqdm_leave='True'):
            it = UA.Integration(w.v, workers=wk, less_memory=lm, chunksize=cs, disable_pbar=True, leave_pbar=False)
            if (it.cores, bool(it.less_memory), it.chunksize) != (wk, lm, cs):
                raise Fail('integration ignored explicit options: %s' % ((it.cores, it.less_memory, it.chunksize),))
        with env(tqdm_workers=wk, integrate_with_less_memory=lm, tqdm_chunksize=cs):
            it = UA.Integration(w.v)
            if (it.cores, bool(it.less_memory), it.chunksize) != (wk, lm, cs):
                raise Fail('integration ignored the settings: %s' % ((it.cores, it.less_memory, it.chunksize),))
    else:
        # settings are read when a metric is called, not when the verifier or module was created
        o = np.zeros((4, 2))
        f = c.data('f', (4, 2), 'normal')
        with env(skip_nan=False):
            v = klass('Determ')(f, o)
            v.error()
        f2 = f.copy()
        f2[0, 0] = np.nan
        with env(skip_nan=True):
            v = klass('Determ')(f2, o)
        with env(skip_nan=False):
            if not np.isnan(v.error()):
                raise Fail('NaN skipping was not read at call time')
        with env(skip_nan=True):
            if np.isnan(v.error()):
                raise Fail('NaN skipping was not read at call time')
        with env(boot_repeats=1, boot_confidence=.5):
            v = klass('Determ')(f, o, boot_samples=2)
        with env(boot_repeats=40, boot_confidence=.9):
            np.random.seed(1)
            x = v.error()
        with env(boot_repeats=40, boot_confidence=.9):
            np.random.seed(1)
            y = UV.boot_arr(f - o, None, n_samples=2, repeats=40, confidence=.9)
        expect('bootstrap settings at call time', x, y)


# ---------------------------------------------------------------- C28
def c28_open(c, IO, xr):
    """chunk files on disk, opened together; xarray's lazy reader needs dask, so an eager reader stands in for it
    (same rejection of concat_dim, real combination by coordinates)"""
    from netCDF4 import Dataset
    r = c.rng('chunks')
    group = c.pick('group', [None, 'Analogs'])
    where = c.pick('where', ['both', 'root']) if group else 'both'
    ranks = sorted({int(x) for x in r.integers(0, c.pick('high', [4, 12, 120, 1200]), c.pick('files', [1, 2, 3, 5]))})
    sizes = {k: int(r.integers(1, 5)) for k in ranks}
    seen = []

    def eager(paths, chunks=None, concat_dim=None, compat='no_conflicts', preprocess=None, engine=None, data_vars='all', coords='different',
              combine='by_coords', parallel=False, join='outer', attrs_file=None, combine_attrs='override', **kw):
        if combine == 'by_coords' and concat_dim is not None:
            raise ValueError("When combine='by_coords', passing a value for `concat_dim` has no effect.")
        dd = []
        for q in paths:
            x = xr.open_dataset(q, **kw).load()
            x.close()
            dd.append(preprocess(x) if preprocess else x)
        seen.append(paths)
        if combine == 'nested':
            return xr.combine_nested(dd, concat_dim=concat_dim, compat=compat, data_vars=data_vars, coords=coords, join=join, combine_attrs=combine_attrs)
        return xr.combine_by_coords(dd, compat=compat, data_vars=data_vars, coords=coords, join=join, combine_attrs=combine_attrs)

    with scratch() as d:
        os.mkdir(os.path.join(d, 'Rank99'))
        names = []
        for k in ranks:
            q = os.path.join(d, 'Rank99', 'AnEn_Rank%d.nc' % k)
            names.append(q)
            f = Dataset(q, 'w')
            g = f.createGroup(group) if group else f
            for h in ([f, g] if group else [f]):
                h.createDimension('num_stations', sizes[k])
                h.createDimension('num_flts', 2)
            f.createVariable('FLTs', 'f8', ('num_flts',))[:] = [0, 3600]
            for h in ([f] if where == 'root' or not group else [f, g]):
                h.createVariable('Xs', 'f8', ('num_stations',))[:] = 1000 * k + np.arange(sizes[k])
                h.createVariable('Ys', 'f8', ('num_stations',))[:] = -1000 * k - np.arange(sizes[k])
            g.createVariable('V', 'f8', ('num_stations', 'num_flts'))[:] = (1000 * k + np.arange(sizes[k]))[:, None] + [0, .5]
            f.close()
        want = np.concatenate([1000 * k + np.arange(sizes[k]) for k in ranks])
        given = [names[i] for i in r.permutation(len(names))]
        paths = c.pick('paths', [given, os.path.join(d, 'Rank99', '*.nc')])
        old = xr.open_mfdataset
        xr.open_mfdataset = eager
        try:
            ds = IO.open_mfdataset(paths, group=group, parallel=False)
        finally:
            xr.open_mfdataset = old
        for v, w in (('V', want[:, None] + [0, .5]), ('Xs', want), ('Ys', -want)):
            x = ds[v]
            if v == 'V':
                x = x.transpose('num_stations', 'num_flts')
            if x.values.shape != w.shape or not np.array_equal(x.values, w):
                raise Fail('%s of chunks %s (stations %s) read as %s' % (v, ranks, sizes, x.values.tolist()))
        if isinstance(paths, list) and paths != given:
            raise Fail('list of paths changed')


@prop('C28')
def c28(c):
    from PyAnEn import IO
    import xarray as xr
    add = getattr(IO, '__add_coords__')
    with env():
        kind = c.pick('kind', ['coords', 'coords', 'coords', 'reject', 'open'])
        if kind == 'open':
            return c28_open(c, IO, xr)
        n = c.pick('n', [1, 2, 3, 7, 64, 999] + NEW_SIZES[:6])
        rank = c.pick('rank', [0, 1, 2, 9, 10, 99, 12345] + [abs(x) for x in NEW_SIZES[:4]])
        name = c.pick('name', ['Rank%d.nc', 'analogs_Rank%d.nc', 'out/Rank%d_x.nc', 'v2/Forecast-Rank%04d.nc', 'Rank7dir/a_Rank%d.nc']) % rank
        ds = xr.Dataset({'Xs': ('num_stations', np.arange(float(n))), 'v': (('num_stations', 'num_flts'), np.ones((n, 2)))})
        ds.encoding['source'] = '/data/' + name
        if kind == 'reject':
            ds.encoding['source'] = '/data/Rank3/' + c.pick('bad', ['file.nc', 'rank3.nc', 'Rank.nc', 'Rankx1.nc'])
            must_raise('file %s without chunk number' % ds.encoding['source'], lambda: add(ds))
            d2 = xr.Dataset({'v': ('num_flts', np.ones(3))})
            d2.encoding['source'] = '/data/Rank3.nc'
            must_raise('file without stations', lambda: add(d2))
            return
        out = add(ds)
        x = np.asarray(out.coords['num_stations'].values, float)
        if len(x) != n:
            raise Fail('%d coordinates for %d stations' % (len(x), n))
        if not (np.diff(x) > 0).all():
            raise Fail('coordinates of %d stations of chunk %d do not increase' % (n, rank))
        if x[0] < rank or x[-1] >= rank + 1:
            raise Fail('coordinates of chunk %d run from %r to %r' % (rank, x[0], x[-1]))
        if not np.array_equal(np.asarray(out['Xs'].values), np.arange(float(n))):
            raise Fail('station order changed')


# ---------------------------------------------------------------- C29
@prop('C29')
def c29(c):
    with env(), scratch() as d:
        cls = c.pick('cls', CLASSES)
        w = build(c, cls=cls, maxsize=60)
        K = klass(cls)
        kw = {k: v for k, v in w.kw.items()}
        kind = c.pick('kind', ['good', 'shape', 'keys', 'settings', 'setter', 'axis'])

        def bad(what, f=None, o=None, **k2):
            k = dict(kw)
            k.update(k2)
            must_raise('%s: %s' % (cls, what), lambda: K(w.f if f is None else f, w.o if o is None else o, **k))
        if kind == 'good':
            K(w.f, w.o, **kw)
            for ax in (None, 0, (0,), [0], tuple(range(w.rank)), -1):
                K(w.f, w.o, **{**kw, 'avg_axis': ax})
            K(w.f, w.o, **{**kw, 'boot_samples': 5})
            return
        if kind == 'shape':
            r = c.rng('sh')
            ax = int(r.integers(w.rank))
            o2s = list(w.dims)
            o2s[ax] += int(r.integers(1, 3))
            variants = [tuple(o2s), w.dims + (2,), (2,) + w.dims]
            if w.rank > 1 and w.dims != w.dims[::-1]:
                variants.append(w.dims[::-1])
            for s in variants:
                bad('observations %s for cases %s' % (s, w.dims), o=np.ones(s))
                if cls in ('Gaussian', 'Gamma', 'Hurdle'):
                    key = sorted(w.f)[int(r.integers(len(w.f)))]
                    f2 = dict(w.f)
                    f2[key] = np.ones(s)
                    bad('%s of shape %s for cases %s' % (key, s, w.dims), f=f2)
            bad('observations as list', o=w.o.tolist())
            if cls in ('Determ', 'Ensemble'):
                bad('forecasts as list', f=w.f.tolist())
            else:
                bad('forecasts as array', f=w.o)
        elif kind == 'keys' and isinstance(w.f, dict):
            for k in w.f:
                f2 = {q: v for q, v in w.f.items() if q != k}
                bad('parameter %s missing' % k, f=f2)
        elif kind == 'settings':
            for v in ('0', 1.5, {0}, np.array([0])):
                bad('averaging axes %r' % (v,), avg_axis=v)
            for v in (1.5, '3', [3]):
                bad('boot samples %r' % (v,), boot_samples=v)
            for v in (1, 0, 'True', None):
                bad('start_from_scratch %r' % (v,), start_from_scratch=v)
            bad('working directory 3', working_directory=3)
            if cls in ('Gaussian', 'Gamma', 'Hurdle'):
                for v in ('0', 1., None):
                    bad('member axis %r' % (v,), move_sampled_ens_axis=v)
                for v in (1, 'yes', None):
                    bad('truncated %r' % (v,), truncated=v)
                    bad('pit_randomize_zero_ranks %r' % (v,), pit_randomize_zero_ranks=v)
                for v in (1.5, '3', [3]):
                    bad('members %r' % (v,), n_sample_members=v)
                for v in ('0', 3):
                    bad('clip %r' % (v,), clip_member_to_zero=v)
            if cls == 'Hurdle':
                bad('bins 2.5', n_approx_bins=2.5)
                bad('range of three', integration_range=(0., 1., 2.))
                bad('truncation', truncated=True)
            if cls == 'Ensemble':
                bad('collapse function 3', ensemble_collapse_func=3)
                bad('ensemble axis "0"', ensemble_axis='0')
                bad('ensemble axis 0.0', ensemble_axis=0.0)
        elif kind == 'axis' and cls == 'Ensemble':
            n = w.rank + 1
            for ax in range(-n - 2, n + 2):
                ok_pos = ax in (0, -n) or ax in (-1, n - 1)
                if ok_pos:
                    rest = list(w.f.shape)
                    rest.pop(ax)
                    if tuple(rest) == w.dims:
                        K(w.f, w.o, ensemble_axis=ax)
                    else:
                        must_raise('ensemble %s, member axis %d, cases %s' % (w.f.shape, ax, w.dims), lambda: K(w.f, w.o, ensemble_axis=ax))
                else:
                    must_raise('member axis %d of a %d-dimensional ensemble' % (ax, n), lambda: K(w.f, w.o, ensemble_axis=ax))
            if n > 2:
                m = np.moveaxis(w.mem, 0, 1)
                must_raise('member axis 1', lambda: K(m, w.o, ensemble_axis=1))
        elif kind == 'setter':
            v = w.v
            must_raise('%s.set_avg_axis("0")' % cls, lambda: v.set_avg_axis('0'))
            v = w.make()
            must_raise('%s.set_boot_samples(1.5)' % cls, lambda: v.set_boot_samples(1.5))
            v = w.make()
            must_raise('%s.enable_saving(3)' % cls, lambda: v.enable_saving(3))
            v = w.make()
            must_raise('%s.enable_saving with start_from_scratch=1' % cls, lambda: v.enable_saving(os.path.join(d, 'x'), 1))
            if cls == 'Ensemble':
                for ax in (0, -1):
                    rest = list(w.f.shape)
                    rest.pop(ax)
                    v = w.make()
                    if tuple(rest) != w.dims:
                        must_raise('set_ensemble_axis(%d) with ensemble %s, cases %s' % (ax, w.f.shape, w.dims), lambda: v.set_ensemble_axis(ax))
                    else:
                        v.set_ensemble_axis(ax)
                v = w.make()
                must_raise('set_ensemble_axis("0")', lambda: v.set_ensemble_axis('0'))
                must_raise('set_collapse_func(3)', lambda: w.make().set_collapse_func(3))
                if w.rank > 1:
                    must_raise('set_ensemble_axis(1)', lambda: w.make().set_ensemble_axis(1))
            elif cls != 'Determ':
                must_raise('set_ensemble_members(1.5)', lambda: w.make().set_ensemble_members(1.5))
                must_raise('set_member_clip(3)', lambda: w.make().set_member_clip(3))
                must_raise('set_truncation(1)', lambda: w.make().set_truncation(1))
                must_raise('set_move_sampled_ens_axis(.5)', lambda: w.make().set_move_sampled_ens_axis(.5))
                w.make().set_ensemble_members(4).set_member_clip(.5).set_move_sampled_ens_axis(0).set_truncation(False)
                if cls == 'Hurdle':
                    must_raise('set_bins(2.5)', lambda: w.make().set_bins(2.5))
                    must_raise('set_truncation(True)', lambda: w.make().set_truncation(True))


# ---------------------------------------------------------------- C30
C30_LABELS = {'num_flts': 'FLTs', 'num_parameters': 'ParameterNames', 'num_test_times': 'test_times', 'num_search_times': 'search_times', 'num_times': 'Times'}
C30_TIMES = ('test_times', 'search_times', 'Times', 'num_test_times', 'num_times')


@prop('C30')
def c30(c):
    """files written and read back: values, names, labels, units, station coordinates"""
    from PyAnEn import IO, Grid
    from netCDF4 import Dataset
    kind = c.pick('kind', ['file', 'file', 'file', 'stations'])
    r = c.rng('file')
    group = c.pick('group', [None, 'Analogs'])
    with env(), scratch() as d:
        q = os.path.join(d, 'AnEn.nc')
        f = Dataset(q, 'w')
        g = f.createGroup(group) if group else f

        def var(h, nm, dims, val, t='f8', attrs=None):
            v = h.createVariable(nm, t, dims)
            v[:] = val
            for k, a in (attrs or {}).items():
                v.setncattr(k, a)
        if kind == 'stations':
            n = c.pick('n', [1, 2, 7, 300])
            m = c.pick('m', [n, n, n + 1, max(n - 1, 1)])
            nx, ny = c.pick('names', [('Xs', 'Ys'), ('lon', 'lat')])
            x, y = r.normal(size=n) * 1e4, r.normal(size=m) * 1e4
            for h in {id(f): f, id(g): g}.values():
                h.createDimension('a', n)
                h.createDimension('b', m)
                off = 0 if h is g else 5
                var(h, nx, ('a',), x + off)
                var(h, ny, ('b',), y + off)
            f.close()
            kw = dict(group=group)
            if nx != 'Xs':
                kw.update(var_x=nx, var_y=ny)
            if n != m:
                must_raise('%d x and %d y coordinates' % (n, m), lambda: Grid.read_station_coordinates(q, **kw))
                return
            out = Grid.read_station_coordinates(q, **kw)
            if len(out) != 2 or not np.array_equal(np.asarray(out[0]), x) or not np.array_equal(np.asarray(out[1]), y):
                raise Fail('station coordinates %s, %s read as %s' % (x.tolist(), y.tolist(), [np.asarray(z).tolist() for z in out]))
            return
        dec = c.pick('decode', [False, False, True])
        size = dict(num_stations=int(r.integers(1, 6)), num_other=2)
        want, labels, attrs = {}, {}, {}

        def put(nm, dims, val, at=None):
            for k in dims:
                if k not in g.dimensions:
                    g.createDimension(k, size[k])
            var(g, nm, dims, val, 'f8', at)
            want[nm] = (dims, np.asarray(val, float))
            attrs[nm] = dict(at or {})
        # fill values and packed values are left as stored unless decoding is asked for
        x = r.normal(size=size['num_stations'])
        x[0] = -999.
        put('Xs', ('num_stations',), x, {} if dec else {'missing_value': -999., 'scale_factor': 10.})
        put('Ys', ('num_stations',), r.normal(size=size['num_stations']), {'long_name': 'y'})
        for dim, nm in C30_LABELS.items():
            if dim == 'num_parameters':
                continue
            how = c.pick(dim, ['no', 'both', 'both', 'axis', 'own', 'all'])
            if how == 'no':
                continue
            size[dim] = int(r.integers(1, 5))
            put('W' + dim, (dim, 'num_stations'), r.normal(size=(size[dim], size['num_stations'])), {'units': 'K'})
            if how in ('own', 'all'):
                put(dim, (dim,), np.sort(r.choice(10 ** 6, size[dim], replace=False)).astype(float))
                labels[dim] = want[dim][1]
            if how in ('both', 'all'):
                put(nm, (dim,), np.sort(r.choice(10 ** 6, size[dim], replace=False)).astype(float))
                labels[dim] = want[nm][1]
        chars = c.pick('chars', [0, 1, 2])
        for nm, dim in (('ParameterNames', 'num_parameters'), ('Places', 'num_places'))[:chars]:
            n, w = int(r.integers(1, 5)), 7
            words = [''.join(r.choice(list('abcXYZ_1 '), int(r.integers(1, w))).tolist()) + 'e' for _ in range(n)]
            if 'num_chars' not in g.dimensions:
                g.createDimension('num_chars', w)
            g.createDimension(dim, n)
            v = g.createVariable(nm, 'S1', (dim, 'num_chars'))
            v[:] = np.array([list(s) + [''] * (w - len(s)) for s in words], 'S1')
            want[nm] = ((dim,), np.array(words))
            if dim in C30_LABELS:
                labels[dim] = want[nm][1]
        f.close()
        kw = dict(group=group) if group else {}
        if dec:
            kw['decode'] = True
        ds = IO.open_dataset(q, **kw)
        try:
            ren = {'num_test_times': 'num_times'} if 'num_test_times' in size and 'num_times' not in size else {}
            rn = lambda k: ren.get(k, k)

            def same(what, got, w, time):
                v = got.values
                if dec and time and v.dtype.kind == 'M':
                    v = (v.astype('datetime64[ns]') - np.datetime64('1970-01-01', 'ns')) / np.timedelta64(1, 's')
                elif dec and time:
                    raise Fail('%s is not decoded' % what)
                if v.dtype.kind == 'M' or np.shape(v) != np.shape(w) or not np.array_equal(v, w):
                    raise Fail('%s: stored %s, read %s (%s)' % (what, np.asarray(w).tolist(), v.tolist(), kw))
            names = {rn(k) for k in want} | {rn(k) for k in labels}
            if set(ds.variables) != names:
                raise Fail('variables %s of a file with %s' % (sorted(ds.variables), sorted(want)))
            for k, (dims, w) in want.items():
                x = ds[rn(k)]
                if list(x.dims) != [rn(q) for q in dims]:
                    raise Fail('%s over %s read over %s' % (k, dims, x.dims))
                # the axis' own variable gives way to the documented labels
                w = labels[k] if k in labels else w
                same(k, x, w, k in C30_TIMES)
                if not dec and w.dtype.kind == 'f':
                    at = dict(attrs[k])
                    if k in C30_TIMES:
                        at['units'] = 'seconds since 1970-01-01'
                    if {a: b for a, b in x.attrs.items() if a != '_FillValue'} != at:
                        raise Fail('%s with attributes %s read with %s' % (k, at, x.attrs))
            if set(ds.coords) != {rn(k) for k in labels}:
                raise Fail('axes labelled: %s, expected %s' % (sorted(ds.coords), sorted(rn(k) for k in labels)))
            for k, w in labels.items():
                if rn(k) in ds.coords:
                    same('labels of %s' % k, ds.coords[rn(k)], w, rn(k) in ('num_times', 'num_test_times'))
                    if not dec and rn(k) in ('num_times', 'num_test_times') and ds.coords[rn(k)].attrs.get('units') != 'seconds since 1970-01-01':
                        raise Fail('units of the times %s' % ds.coords[rn(k)].attrs)
        finally:
            ds.close()
