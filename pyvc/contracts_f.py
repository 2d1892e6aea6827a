"""Contracts: frames (no call changes the caller's arrays)."""
import os
from .contracts import *
from .contracts import T, C, L, SArr, SNum, TRUE, FALSE
from .contracts_c import nat
from . import loader as LD
from .vc import PathEnd


# ---------------------------------------------------------------- C24
CALLS = [('error', {}), ('ab_error', {}), ('sq_error', {}), ('rmse', {}), ('f_determ', {}), ('corr', {}), ('iou_determ', 'over'), ('iou_determ', 'below'),
         ('crps', {}), ('spread', {}), ('variance', {}), ('rank_hist', {}), ('pit', {}), ('cdf', 'below'), ('cdf', 'over'), ('brier', 'over'), ('brier', 'below'),
         ('sharpness', 'below'), ('roc', 'over'), ('iou_prob', 'pair'), ('reliability', 'over'), ('brier_decomp', 'over'), ('binned_spread_skill', 'nb'),
         ('prob_to_ens', {})]
DETERM = {'error', 'ab_error', 'sq_error', 'rmse', 'f_determ', 'corr', 'iou_determ'}
LATER = {'reliability', 'brier_decomp', 'binned_spread_skill', 'roc', 'iou_prob'}


def cfg_c24(tier):
    out = []
    for cls in ALL:
        for i, (m, kw) in enumerate(CALLS):
            if cls == 'Determ' and m not in DETERM:
                continue
            if m in ('prob_to_ens', 'pit') and cls == 'Ensemble':
                continue
            for r in ranks(tier, 2):
                for form in ([(0,), None] if r == 2 else [(0, 2)]):
                    for boot in ((False, True) if m in ('error', 'crps', 'corr', 'brier', 'brier_decomp', 'binned_spread_skill') else (False,)):
                        for trunc in ((False, True) if cls in ('Gaussian', 'Gamma') and m in ('cdf', 'brier', 'crps', 'pit', 'spread', 'rank_hist', 'prob_to_ens') else (False,)):
                            for thr in (('float', 'array') if kw in ('over', 'below') and m in ('cdf', 'brier', 'sharpness') else ('float',)):
                                if m in ('reliability', 'roc') and form is not None and m == 'reliability':
                                    continue
                                if boot and m in ('brier_decomp', 'binned_spread_skill') and r == 3 and tier == 'quick':
                                    continue
                                for first in ((False, True) if cls == 'Ensemble' and r == 2 else (False,)):
                                    out.append(dict(cls=cls, call=i, m=m, rank=r, axis=form, boot=boot, trunc=trunc, thr=thr, first=first,
                                                    skip=(r + len(m)) % 2 == 0, members=cls not in ('Determ', 'Ensemble') and m in ('crps', 'spread', 'rank_hist', 'prob_to_ens')))
    return out


def called(fn, kw):
    """call it; an error of the code itself is not this property's concern"""
    try:
        fn(**kw)
        return True
    except (C.Unsupported, PathEnd):
        raise
    except Exception as e:
        if os.environ.get('PYVC_TB'):
            import traceback
            traceback.print_exc()
        return False


@contract('C24', cfg_c24)
def metrics_frame(run):
    g = run.cfg
    cls, skip = g['cls'], g['skip']
    run.env(skip_nan=skip, ens_to_prob_method='moments')
    nanok = cls in ('Determ', 'Ensemble') and g['m'] not in LATER
    v = V(run, cls, g['rank'], nan=skip and nanok, onan=skip and nanok, first=g['first'], trunc=g['trunc'], avg_axis=g['axis'])
    if g['members']:
        v.kw.update(n_sample_members=nat('Ns', 1))
        if g['rank'] == 2:
            v.kw['clip_member_to_zero'] = run.num('clip')
    if g['boot']:
        v.kw['boot_samples'] = nat('Nsamp', 1)
        run.env(boot_repeats=nat('Nrep', 1), boot_confidence=run.num('c', lo=0, hi=1, lo_open=True, hi_open=True))
    name, kw = CALLS[g['call']]
    t = run.num('t') if g['thr'] == 'float' else run.data('ta', v.ex)
    f = v.f
    keys = dict(f) if isinstance(f, dict) else None
    ver = v.make()
    if kw == 'pair':
        kw = dict(over=(t, run.num('p', lo=0, hi=1)), below=(None, None))
    elif kw == 'nb':
        kw = dict(nbins=nat('Ngroups', 1))
    elif isinstance(kw, str):
        kw = {kw: t}
    if name == 'sharpness':
        kw = {k: x for k, x in kw.items()}
    ended = called(getattr(ver, name), kw)
    run.soft = True
    if name != 'binned_spread_skill' and cls != 'Hurdle' and not (name == 'crps' and g['trunc'] and cls == 'Gamma'):
        run.goal('%s returns' % name, TRUE if ended else FALSE)
    run.soft = False
    run.frame('%s leaves its inputs' % name)
    if keys is not None:
        run.goal('the forecast dictionary has the same entries', TRUE if set(f) == set(keys) and all(f[k] is keys[k] for k in keys) else FALSE)


# functions of the utility modules: name -> (module, call(functions, inputs))
def _i(run, ex, *names, **kinds):
    out = {}
    for n in names:
        if n in ('a', 'b', 'ta'):
            out[n] = run.data(n, ex)
        elif n in ('pos', 'pos2'):
            out[n] = run.data(n, ex, lo=0, lo_open=True)
        elif n == 'neg':
            out[n] = run.data(n, ex, hi=0)
        elif n == 'p':
            out[n] = run.data(n, ex, lo=0, hi=1)
        elif n == 'e':
            out[n] = run.data(n, ex, kind='bool')
        elif n == 'ens':
            out[n] = run.data(n, [T.var('Nm', 'I')] + list(ex))
    return out


IOU_PROB = 5        # needs both arguments as pairs; its use is verified through the verifiers
UTIL = [
    ('utils_verify', 'a', lambda f, a, ax, n, t: f.boot_arr(a, ax, n)),
    ('utils_verify', 'a', lambda f, a, ax, n, t: f.boot_vec(a.reshape((a.size,)), n)),
    ('utils_verify', 'p e', lambda f, p, e, ax, n, t: f.reliability_diagram(p, e, 3, None)),
    ('utils_verify', 'a b', lambda f, a, b, ax, n, t: f.iou_determ(a, b, ax, over=t)),
    ('utils_verify', 'a b', lambda f, a, b, ax, n, t: f.iou_determ(a, b, ax, below=t)),
    ('utils_verify', 'p e', lambda f, p, e, ax, n, t: f.iou_prob(p, e, ax, over=t)),
    ('utils_verify', 'a b', lambda f, a, b, ax, n, t: f.binarize_obs(a, over=b)),
    ('utils_verify', 'a b', lambda f, a, b, ax, n, t: f.binarize_obs(a, below=b)),
    ('utils_verify', 'p e', lambda f, p, e, ax, n, t: f.calculate_roc(p, e)),
    ('utils_verify', 'ens a', lambda f, ens, a, ax, n, t: f.rank_histogram(ens, a, 0)),
    ('utils_verify', 'ens a', lambda f, ens, a, ax, n, t: f.ens_to_prob(ens, 0, below=a)),
    ('utils_verify', 'ens', lambda f, ens, ax, n, t: f.ens_to_prob(ens, 0, over=t)),
    ('utils_special_boot', 'a b', lambda f, a, b, ax, n, t: f.corr(a, b, ax)),
    ('utils_special_boot', 'a b', lambda f, a, b, ax, n, t: f.corr(a, b, ax, n)),
    ('utils_special_boot', 'p e', lambda f, p, e, ax, n, t: f.brier_decomp(p, e, ax)),
    ('utils_special_boot', 'p e', lambda f, p, e, ax, n, t: f.brier_decomp(p, e, ax, n)),
    ('utils_ss', 'pos pos2', lambda f, pos, pos2, ax, n, t: f.binned_spread_skill(pos, pos2, 1, ax)),
    ('utils_ss', 'pos pos2', lambda f, pos, pos2, ax, n, t: f.binned_spread_skill(pos, pos2, 1, ax, boot_samples=n)),
    ('utils_crps', 'pos pos2 neg b', lambda f, pos, pos2, neg, b, ax, n, t: f.crps_gamma(pos, pos2, neg, b, reduce_sum=False)),
    ('utils_crps', 'pos pos2 neg b', lambda f, pos, pos2, neg, b, ax, n, t: f.crps_gamma(pos, pos2, neg, b)),
    ('utils_crps', 'a b pos', lambda f, a, b, pos, ax, n, t: f.crps_truncated_gaussian(a, b, pos, 0)),
    ('utils_dist', 'a pos b', lambda f, a, pos, b, ax, n, t: f.cdf_gaussian(a, pos, b)),
    ('utils_dist', 'a pos b', lambda f, a, pos, b, ax, n, t: f.cdf_gaussian(a, pos, b, True)),
    ('utils_dist', 'pos pos2 neg b', lambda f, pos, pos2, neg, b, ax, n, t: f.cdf_gamma(pos, pos2, neg, b)),
    ('utils_dist', 'pos pos2 neg b', lambda f, pos, pos2, neg, b, ax, n, t: f.cdf_gamma(pos, pos2, neg, b, True)),
    ('utils_dist', 'p pos pos2 b', lambda f, p, pos, pos2, b, ax, n, t: f.cdf_gamma_hurdle(p, pos, pos2, b)),
    ('utils_dist', 'a pos', lambda f, a, pos, ax, n, t: f.sample_dist_gaussian(a, pos, n)),
    ('utils_dist', 'a pos', lambda f, a, pos, ax, n, t: f.sample_dist_gaussian(a, pos, n, 0, True)),
    ('utils_dist', 'pos pos2 neg', lambda f, pos, pos2, neg, ax, n, t: f.sample_dist_gamma(pos, pos2, neg, n)),
    ('utils_dist', 'pos pos2 neg', lambda f, pos, pos2, neg, ax, n, t: f.sample_dist_gamma(pos, pos2, neg, n, 0, True)),
    ('utils_significance', 'a b pos', lambda f, a, b, pos, ax, n, t: f.diebold_mariano_test(a, b, pos, crit='MSE')),
    ('utils_significance', 'a b pos', lambda f, a, b, pos, ax, n, t: f.diebold_mariano_test(a, b, pos, crit='MAD')),
    ('utils_significance', 'pos b a', lambda f, pos, b, a, ax, n, t: f.diebold_mariano_test(pos, b, a, crit='MAPE')),
    ('VerifyDeterm', 'pos', lambda f, pos, ax, n, t: f.VerifyDeterm.reliability_index(pos)),
]


def cfg_c24u(tier):
    out = []
    for i, (mod, names, _) in enumerate(UTIL):
        for r in ((1,) if mod in ('utils_significance', 'VerifyDeterm') else ranks(tier)):
            forms = {1: [None, (0,)], 2: [(0,), (-1,)], 3: [(0, 2)]}.get(r, [(1, 3)])
            for ax in forms if any(x in mod for x in ('verify', 'boot', 'ss')) else [None]:
                for par in ((False, True) if mod == 'utils_dist' and r > 1 else (False,)):
                    if tier == 'quick' and r == 3 and mod in ('utils_special_boot', 'utils_ss'):
                        continue
                    out.append(dict(fn=i, mod=mod, names=names, rank=r, axis=ax, par=par))
    return out


@contract('C24', cfg_c24u)
def utilities_frame(run):
    g = run.cfg
    mod, names, call = UTIL[g['fn']]
    run.env(skip_nan=g['rank'] == 2, ens_to_prob_method='moments', boot_repeats=nat('Nrep', 1),
            boot_confidence=run.num('c', lo=0, hi=1, lo_open=True, hi_open=True))
    if g['par']:
        run.env(tqdm_workers=nat('Nw', 2), tqdm_map_axis=-1)
    run.world()
    ex = dims(g['rank'])
    kw = _i(run, ex, *names.split())
    m = run.w.load(mod)
    ended = called(lambda: call(m, ax=g['axis'], n=nat('Ns', 1), t=run.num('t'), **kw), {})
    run.soft = True
    if mod not in ('utils_significance', 'utils_ss') and g['fn'] != IOU_PROB:
        run.goal('returns', TRUE if ended else FALSE)
    run.soft = False
    run.frame('leaves its inputs')
