from .contracts import *
from .contracts import T, C, L, SArr, SNum, TRUE, FALSE
from .contracts_a import workers, threshold, distributions, ens_below
from . import smt
from . import loader as LD


def prob_below(v, t, idx):
    """(p, nan) for the counting method or the predicted distribution"""
    if v.cls == 'Ensemble':
        return ens_below(v, t, idx)
    return v.below(t[0], idx), FALSE


def event(o, t, over):
    lt = T.lt(t[0], o[0]) if over else T.lt(o[0], t[0])
    return T.and_(T.not_(o[1]), T.not_(t[1]), lt)


# ---------------------------------------------------------------- C11
def cfg_c11(tier):
    out = []
    for r in ranks(tier):
        for cls, f, tr in distributions():
            for kind in ('float', 'int', 'array'):
                for par in (False, True):
                    if kind == 'int' and par:
                        continue
                    out.append(dict(cls=cls, rank=r, trunc=tr, first=f, thr=kind, par=par, _hints=hint(cls=cls, trunc=tr, first=f)))
    return out


@contract('C11', cfg_c11)
def brier(run):
    g = run.cfg
    workers(run, g['par'])
    v = V(run, g['cls'], g['rank'], nan=g['cls'] == 'Ensemble', onan=g['cls'] != 'Hurdle', trunc=g['trunc'], first=g['first'])
    t, tf = threshold(run, v, g['thr'])
    ver = v.make()
    # the score just specified lies in [0,1] whenever the probability does
    p, e = T.var('p', 'R'), T.var('e', 'R')
    for ev in (0, 1):
        b = T.powi(T.sub(p, T.const(ev)), 2)
        hyp = [T.le(T.const(0), p), T.le(p, T.const(1))]
        run.goal('lemma: at least 0', T.le(T.const(0), b), hyp)
        run.goal('lemma: at most 1', T.le(b, T.const(1)), hyp)
    for side in ('below', 'over'):
        # the event probability is the verifier's cdf (its own contract: C04 to C06)
        pf = C.as_arr(ver.cdf(**{side: t})).fn()

        def spec(idx):
            p, n = pf(idx)
            d = T.sub(p, T.ind(event(v.O(idx), tf(idx), side == 'over')))
            return T.mul(d, d), n
        kw = {'over': None, 'below': None, side: t}
        got = C.as_arr(ver._brier(**kw))
        run.same('_brier %s' % side, got, arr(v.ex, spec))
        ver2 = v.make(avg_axis=())
        run.same('brier %s' % side, ver2.brier(**{side: t}), arr(v.ex, spec))
    run.frame()


# ---------------------------------------------------------------- C15
def cfg_c15(tier):
    out = []
    for r in ranks(tier):
        for cls in ALL:
            forms = axis_forms(r, tier)
            if cls != 'Determ' and tier == 'quick':
                forms = forms[:3] + forms[-2:]
            for form, cov in forms:
                for side in ('over', 'below'):
                    out.append(dict(cls=cls, rank=r, axis=form, cov=cov, side=side, _hints=hint(cls=cls, avg_axis=form, avg=form)))
    return out


def iou_spec(v, cov, fe, oe):
    """fe, oe: event terms at an index"""
    b = arr(v.ex, lambda idx: (T.ind(T.and_(fe(idx), oe(idx))), FALSE))
    u = arr(v.ex, lambda idx: (T.ind(T.or_(fe(idx), oe(idx))), FALSE))

    def red(bs, e):
        return T.sum_(bs, e[0]), FALSE
    nb, nu = over_axes(b, cov, red), over_axes(u, cov, red)
    fb, fu = nb.fn(), nu.fn()
    # 0/0 (nothing in the union) stands for a missing value on both sides
    return arr(nb.exts, lambda k: (T.div(fb(k)[0], fu(k)[0]), FALSE)), nb, nu


@contract('C15', cfg_c15)
def iou(run):
    g = run.cfg
    workers(run, False)
    v = V(run, g['cls'], g['rank'], avg_axis=g['axis'])
    ver = v.make()
    over = g['side'] == 'over'
    t = run.num('t')
    tv = (t.v, FALSE)
    Fd = ver.f_determ()
    ff = C.as_arr(Fd).fn()
    if g['cls'] in ('Ensemble', 'Determ'):
        run.same('deterministic forecast', Fd, arr(v.ex, lambda idx: v.F(idx)))
    oe = lambda idx: event(v.O(idx), tv, over)
    spec, ni, nu = iou_spec(v, g['cov'], lambda idx: event(ff(idx), tv, over), oe)
    got = ver._iou_determ(**{g['side']: t})
    run.same('iou_determ', got, spec)
    run.same('public iou_determ', ver.iou_determ(**{g['side']: t}), spec)
    UV = run.w.load('utils_verify')
    run.same('exchange', UV.iou_determ(v.o, Fd, axis=ver.avg_axis, **{g['side']: t}), spec)
    iou_lemma(run, v, g['cov'])
    if g['cls'] != 'Determ':
        q = run.num('q', lo=0, hi=1)
        qv = (q.v, FALSE)

        def fp(idx):
            p, n = prob_below(v, tv, idx)
            if over:
                p = T.sub(T.const(1), p)
            return event((p, n), qv, over)
        spec, ni, nu = iou_spec(v, g['cov'], fp, oe)
        kw = {'over': (None, None), 'below': (None, None), g['side']: (t, q)}
        got = ver._iou_prob(**kw)
        run.same('iou_prob', got, spec)
        run.same('public iou_prob', ver.iou_prob(**kw), spec)
    run.frame()


def iou_lemma(run, v, cov):
    """for any two event sets: the ratio lies in [0,1] when the union is not empty, and is 1 exactly when the sets coincide"""
    def ev(nm):
        return lambda idx: T.uf(nm, tuple(idx), 'B')
    fe, oe = ev('evF'), ev('evO')
    spec, ni, nu = iou_spec(v, cov, fe, oe)
    ks = tuple(T.fresh('i') for _ in ni.exts)
    a, b = at(ni, ks)[0], at(nu, ks)[0]
    val = at(spec, ks)[0]
    H = smt.bounds(ks, ni.exts)
    nz = H + [T.lt(T.const(0), b)]
    run.goal('lemma: at least 0', T.le(T.const(0), val), nz)
    run.goal('lemma: at most 1', T.le(val, T.const(1)), nz)
    js = tuple(T.fresh('i') for _ in cov)
    keep = [x for x in range(v.rank) if x not in cov]
    j = cell(v.rank, keep, ks, js)
    run.goal('lemma: below 1 when a case has only one of the events', T.lt(val, T.const(1)),
             nz + smt.bounds(js, [v.ex[x] for x in sorted(cov)]) + [T.not_(T.iff(fe(j), oe(j)))])
    same, _, _ = iou_spec(v, cov, fe, fe)
    run.goal('lemma: 1 when the event sets coincide', T.eq(at(same, ks)[0], T.const(1)), H + [T.lt(T.const(0), at(iou_spec(v, cov, fe, fe)[2], ks)[0])])


# ---------------------------------------------------------------- C18
def cfg_c18(tier):
    out = []
    for r in ranks(tier):
        for first in (False, True):
            for skip in (False, True):
                for nan in (False, True):
                    for col in ('mean', 'median', 'max'):
                        out.append(dict(rank=r, first=first, skip=skip, nan=nan, collapse=col, _hints=hint(cls='Ensemble', first=first, skip_nan=skip)))
    return out


@contract('C18', cfg_c18)
def ensemble(run):
    g = run.cfg
    workers(run, False)
    run.env(skip_nan=g['skip'])
    v = V(run, 'Ensemble', g['rank'], nan=g['nan'], first=g['first'])
    fn = getattr(run.np, g['collapse'])
    ax = 0 if g['first'] else -1
    v.kw['ensemble_collapse_func'] = fn
    ver = v.make()
    want = fn(v.f, axis=ax)
    if g['collapse'] == 'mean':
        want = arr(v.ex, lambda idx: v.F(idx))
    run.same('f_determ', ver._f_determ(), want)
    run.same('public f_determ', ver.f_determ(), want)
    m1, m2 = T.fresh('b'), T.fresh('b')

    def var(idx):
        mu, n = v.F(idx)
        x = v.mem(m1, idx)
        return mean_term([(m1, v.M)], (T.powi(T.sub(x[0], mu), 2), x[1]))
    run.same('variance', ver._variance(), arr(v.ex, var))

    def spread(idx):
        m = T.fresh('b')
        x, n = v.mem(m, idx)
        bs = [(m, v.M)]
        if g['skip']:
            ok = T.not_(n)
            return (T.sub(T.bind('bmax', bs, [ok, x]), T.bind('bmin', bs, [ok, x])), T.not_(T.bind('exists', bs, [ok])))
        return T.sub(T.bind('bmax', bs, [TRUE, x]), T.bind('bmin', bs, [TRUE, x])), T.bind('exists', bs, [n])
    run.same('spread', ver._spread(), arr(v.ex, spread))
    run.frame()




def same_value(run, label, a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a) != list(b):
            run.goal(label + ': keys', FALSE)
            return
        for k in a:
            same_value(run, '%s[%s]' % (label, k), a[k], b[k])
    elif isinstance(a, SArr) or isinstance(b, SArr):
        if not (isinstance(a, SArr) and isinstance(b, SArr)):
            run.goal(label, FALSE)
        else:
            run.same(label, a, b)
    elif isinstance(a, SNum) or isinstance(b, SNum):
        if not (C.is_scalar(a) and C.is_scalar(b)):
            run.goal(label, FALSE)
        else:
            run.eqnum(label, C.lift(a)[:2], C.lift(b)[:2])
    elif isinstance(a, (tuple, list)) and type(a) is type(b) and len(a) == len(b):
        run.goal(label, TRUE)
        for k, (x, y) in enumerate(zip(a, b)):
            same_value(run, '%s[%d]' % (label, k), x, y)
    else:
        run.goal(label, TRUE if (a is b or type(a) is type(b) and a == b) else FALSE)


def same_state(run, label, a, b):
    """every attribute of the two verifiers agrees; by induction over the calls any sequence of setters then gives a fresh verifier.
    An implementation may keep other private state, so this strengthening is optional (undecided when it fails)"""
    va, vb = vars(a), vars(b)
    run.soft = True
    run.goal(label + ': attributes', TRUE if set(va) == set(vb) else FALSE)
    for k in vb:
        if k in va:
            same_value(run, '%s: %s' % (label, k), va[k], vb[k])
    run.soft = False


def cfg_c18s(tier):
    out = []
    for r in ranks(tier):
        for a0 in (None, 0, -1, r, -(r + 1)):
            for c0 in ('mean', 'max'):
                out.append(dict(rank=r, axis=a0, collapse=c0, _hints=hint(cls='Ensemble')))
    return out


@contract('C18', cfg_c18s)
def setters(run):
    """all extents equal, so that both the first and the last axis can be the member axis"""
    g = run.cfg
    workers(run, False)
    run.world()
    r = g['rank']
    n = T.var('Na', 'I')
    f = run.data('f', [n] * (r + 1))
    o = run.data('o', [n] * r)
    np_ = run.np
    cls = run.w.load('VerifyEnsemble').VerifyEnsemble
    cf = {k: getattr(np_, k) for k in ('mean', 'max', 'median')}
    base = dict(ensemble_axis=g['axis'], ensemble_collapse_func=cf[g['collapse']], avg_axis=(0,), boot_samples=None)

    def effective(kw):
        return cls(f, o, **kw)
    if g['axis'] is None:
        run.goal('undeclared member axis is the last one', TRUE if effective(base).ensemble_axis in (-1, r) else FALSE)
        same_metrics(run, 'undeclared axis', effective(base), effective({**base, 'ensemble_axis': -1}))
    k = SNum(T.var('Nk', 'I'), FALSE, 'int')
    calls = [('set_ensemble_axis', (a,), dict(ensemble_axis=a)) for a in (0, -1, r, -(r + 1))]
    calls += [('set_collapse_func', (cf[c],), dict(ensemble_collapse_func=cf[c])) for c in cf]
    calls += [('set_avg_axis', (a,), dict(avg_axis=a)) for a in (None, 0, -1, [0], tuple(range(r)))]
    calls += [('set_boot_samples', (k,), dict(boot_samples=k)), ('disable_boot', (), dict(boot_samples=None))]
    for warm in (False, True):
        for name, a, upd in calls:
            ver = effective(base)
            if warm:
                for m in ('error', 'f_determ', 'variance', 'spread'):
                    getattr(ver, m)()
            got = getattr(ver, name)(*a)
            run.goal('%s%s returns the verifier' % (name, a if not callable(a and a[0]) else ''), TRUE if got is ver else FALSE)
            lab = '%s(%s)%s' % (name, ','.join(getattr(x, '__name__', str(x)) if not isinstance(x, SNum) else 'k' for x in a), ' after metrics' if warm else '')
            fresh = effective({**base, **upd})
            same_state(run, lab, ver, fresh)
            if upd.get('boot_samples') is None:
                same_metrics(run, lab, ver, fresh)
            # a second call on top
            if warm and g['collapse'] == 'mean':
                for n2, a2, u2 in calls:
                    full = {**base, **upd, **u2}
                    if full.get('boot_samples') is None:
                        v2 = effective(base)
                        getattr(v2, name)(*a)
                        v2.f_determ(), v2.variance()
                        getattr(v2, n2)(*a2)
                        same_metrics(run, '%s then %s(%s)' % (lab, n2, ','.join(getattr(x, '__name__', str(x)) for x in a2 if not isinstance(x, SNum))), v2, effective(full))
    run.frame()


def same_metrics(run, lab, a, b):
    t = run.num('t')
    for m, kw in (('error', {}), ('sq_error', {}), ('ab_error', {}), ('spread', {}), ('variance', {}), ('f_determ', {}), ('cdf', {'below': t}), ('crps', {}), ('brier', {'over': t})):
        run.same('%s: %s' % (lab, m), getattr(a, m)(**kw), getattr(b, m)(**kw))


# ---------------------------------------------------------------- C16
def cfg_c16(tier):
    out = []
    for r in ranks(tier):
        for cls in ALL:
            forms = axis_forms(r, tier)
            if cls != 'Determ' and tier == 'quick':
                forms = forms[:3] + forms[-2:]
            for form, cov in forms:
                for skip in (False, True):
                    for nan in ((False, True) if cls in ('Determ', 'Ensemble') else (False,)):
                        out.append(dict(cls=cls, rank=r, axis=form, cov=cov, skip=skip, nan=nan, _hints=hint(cls=cls, avg_axis=form, avg=form, skip_nan=skip)))
    return out


def pearson(bs, a, b, skip):
    """a, b: elements at the binders"""
    ok = T.and_(T.not_(a[1]), T.not_(b[1])) if skip else TRUE
    g = T.ind(ok)
    n = T.sum_(bs, g)
    ma, mb = T.div(T.sum_(bs, T.mul(g, a[0])), n), T.div(T.sum_(bs, T.mul(g, b[0])), n)
    k = T.sub(n, T.const(1))

    def cov(x, y):
        return T.div(T.sum_(bs, T.mul(g, x, y)), k)
    da, db = T.sub(a[0], ma), T.sub(b[0], mb)
    miss = FALSE if skip else T.bind('exists', bs, [T.or_(a[1], b[1])])
    return T.div(cov(da, db), T.sqrt(T.mul(cov(da, da), cov(db, db)))), miss


@contract('C16', cfg_c16)
def correlation(run):
    g = run.cfg
    run.env(skip_nan=g['skip'])
    v = V(run, g['cls'], g['rank'], nan=g['nan'], avg_axis=g['axis'])
    ver = v.make()
    Fd = ver.f_determ()
    ff = C.as_arr(Fd).fn()
    if g['cls'] != 'Hurdle':
        run.same('deterministic forecast', Fd, arr(v.ex, lambda idx: v.F(idx)))
    r, cov = g['rank'], g['cov']
    keep = [x for x in range(r) if x not in cov]
    samp = [x for x in range(r) if x in cov]

    def spec(k):
        vs = [T.fresh('b') for _ in samp]
        bs = [(b, v.ex[x]) for b, x in zip(vs, samp)]
        idx = cell(r, keep, k, vs)
        return pearson(bs, ff(idx), v.O(idx), g['skip'])
    want = arr([v.ex[x] for x in keep], spec)
    got = ver._corr()
    run.same('_corr', got, want)
    run.same('corr', ver.corr(), want)
    SB = run.w.load('utils_special_boot')
    run.same('utils corr', SB.corr(Fd, v.o, ver.avg_axis), want)
    run.frame()


# ---------------------------------------------------------------- C10
def cfg_c10(tier):
    out = []
    for r in ranks(tier):
        for cls, f, tr in distributions():
            if cls == 'Ensemble':
                continue
            for rz in (True, False):
                for par in (False, True):
                    out.append(dict(cls=cls, rank=r, trunc=tr, rz=rz, par=par, _hints=hint(cls=cls, trunc=tr)))
    return out


def uniforms(t):
    """the draws from U(0,1) a value depends on"""
    return [x for x in T.subterms(t) if x.op == 'uf' and x.attr == 'unif']


def randomised(run, label, v, got, pf, rz):
    """got: ranks; pf: element function of the cumulative probability at the observation"""
    got = C.as_arr(LD.sym(got))
    want = arr(v.ex, lambda idx: pf(idx))
    if not rz:
        run.same(label, got, want)
        return
    if len(got.exts) != len(v.ex):
        run.goal(label + ': one rank per case', FALSE)
        return
    ks = tuple(T.fresh('i') for _ in v.ex)
    val = at(got, ks)[0]
    us = uniforms(val)
    run.goal(label + ': at most one uniform draw', TRUE if len(us) <= 1 else FALSE)
    if not us:
        # no draw: right only when no observation is zero, as the hypotheses of this path must then say
        us = [T.uf('unif', (T.uf('nodraw', ks, 'R'),), 'R')]
    if len(us) == 1:
        # the draw of a case is indexed by that case alone: independent of all other cases
        run.goal(label + ': every case has a draw of its own', TRUE if all(any(a is k for a in us[0].args[0].args) for k in ks) else FALSE)
        U = us[0]

        def spec(idx):
            p, n = pf(idx)
            z = T.and_(T.not_(v.O(idx)[1]), T.eq(v.O(idx)[0], T.const(0)))
            return T.ite(z, T.mul(p, T.subst(U, dict(zip(ks, idx)))), p), n
        run.same(label, got, arr(v.ex, spec))


@contract('C10', cfg_c10)
def pit(run):
    g = run.cfg
    workers(run, g['par'])
    v = V(run, g['cls'], g['rank'], onan=g['cls'] != 'Hurdle', trunc=g['trunc'])
    v.kw['pit_randomize_zero_ranks'] = g['rz']
    ver = v.make(avg_axis=())
    pf = C.as_arr(ver.cdf(below=v.o)).fn()
    randomised(run, '_pit', v, ver._pit(), pf, g['rz'])
    randomised(run, 'pit', v, ver.pit(), pf, g['rz'])
    randomised(run, 'rank_hist', v, ver.rank_hist(), pf, g['rz'])
    # range: between zero and the probability, which is itself in [0,1] (C04 to C06)
    p, u = T.var('p', 'R'), T.uf('unif', (T.var('u', 'R'),), 'R')
    hyp = [T.le(T.const(0), p), T.le(p, T.const(1))]
    run.goal('lemma: the randomised rank is at least 0', T.le(T.const(0), T.mul(p, u)), hyp)
    run.goal('lemma: the randomised rank is at most the probability', T.le(T.mul(p, u), p), hyp)
    run.frame()
