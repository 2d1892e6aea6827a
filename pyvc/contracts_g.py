"""Contracts: sampled members, closed-form and ensemble CRPS."""
from .contracts import *
from .contracts import T, C, L, SArr, SNum, TRUE, FALSE
from .contracts_a import workers
from .contracts_c import nat
from .contracts_d import in_range, rank_terms, draw_uf
from . import loader as LD


# ---------------------------------------------------------------- C08
def cfg_c08(tier):
    out = []
    for cls in ('Gaussian', 'Gamma'):
        for r in ranks(tier):
            axes = [0, -1] + list(range(1, r + 1)) + [-(r + 1)] + ([-2] if r > 1 else [])
            for k, ax in enumerate(axes):
                for trunc in (False, True):
                    for par in (0, -1, -2, -3)[:r + 1]:
                        if tier == 'quick' and par and ax not in (0, -1):
                            continue
                        for clip in (False, True) if not par or tier == 'thorough' else ((k + r) % 2 == 0,):
                            out.append(dict(cls=cls, rank=r, axis=ax, trunc=trunc, par=par, clip=clip, _hints=hint(cls=cls)))
    return out


def quantile_term(v, U, idx):
    """the value below which the case's predicted distribution has probability U"""
    p = v.par
    if v.cls == 'Gaussian':
        mu, sg = p('mu', idx), p('sigma', idx)
        c0 = T.uf('Phi', (T.div(T.neg(mu), sg),)) if v.trunc else T.const(0)
        return T.add(mu, T.mul(sg, T.uf('Phiinv', (T.add(c0, T.mul(U, T.sub(T.const(1), c0))),))))
    mu, sg, sh = p('unshifted_mu', idx), p('sigma', idx), p('shift', idx)
    shape, scale = T.powi(T.div(mu, sg), 2), T.div(T.powi(sg, 2), mu)
    g0 = T.const(0)
    if v.trunc:
        z0 = T.div(T.neg(sh), scale)
        g0 = T.ite(T.lt(T.const(0), z0), T.uf('GammaCDF', (shape, z0)), T.const(0))
    return T.add(sh, T.mul(scale, T.uf('gammaincinv', (shape, T.add(g0, T.mul(U, T.sub(T.const(1), g0)))))))


def uniforms_of(t):
    return {x for x in T.subterms(t, into_binders=True) if x.op == 'uf' and x.attr == 'unif'}


@contract('C08', cfg_c08)
def sampled_members(run):
    g = run.cfg
    r = g['rank']
    workers(run, bool(g['par']), g['par'] or -1)
    n = nat('Ns', 1)
    v = V(run, g['cls'], r, trunc=g['trunc'], n_sample_members=n, move_sampled_ens_axis=g['axis'], onan=True)
    clip = None
    if g['clip']:
        clip = run.num('clip')
        v.kw['clip_member_to_zero'] = clip
    got = C.as_arr(v.make().prob_to_ens())
    k = g['axis'] % (r + 1)
    exts = list(v.ex[:k]) + [C.lift(n)[0]] + list(v.ex[k:])
    run.goal('members on the set axis, the other axes in order', TRUE if tuple(got.axes) == tuple((e,) for e in exts) else FALSE)
    if tuple(got.axes) != tuple((e,) for e in exts):
        return
    f = got.fn()
    idx = C.generic(exts)
    case = idx[:k] + idx[k + 1:]
    val, nan = f(idx)
    us = uniforms_of(val)
    H = in_range(idx, exts)
    run.goal('every member is drawn', TRUE if us else FALSE)
    if not us:
        return
    if len(us) > 1:
        raise C.Unsupported('members made from several random numbers')
    U, = us
    x = quantile_term(v, U, case)
    want = x if clip is None else T.ite(T.lt(x, C.lift(clip)[0]), T.const(0), x)
    run.eqnum("member = quantile of the case's own distribution at its random number" + (', zero below the clip value' if g['clip'] else ''),
              (val, nan), (want, FALSE), H)
    # the random number of a member is used for no other member and no other case
    idx2 = C.generic(exts)
    m = dict(zip(idx, idx2))
    src = draw_uf(U, None)
    if len(src) != 1 or src[0][0].get('guard') is not None:
        raise C.Unsupported('random numbers drawn in another way')
    a1 = src[0][1].args
    same = T.and_(*[T.eq(a, T.subst(a, m)) for a in a1])
    run.goal('different members and cases have different random numbers',
             T.implies(same, T.and_(*[T.eq(a, b) for a, b in zip(idx, idx2)])), H + in_range(idx2, exts))
    run.frame()


def cfg_c08b(tier):
    return [dict(cls=cls, rank=r, axis=ax, skip=skip) for cls in ('Gaussian', 'Gamma') for r in ranks(tier)
            for ax in list(range(-(r + 1), r + 1)) for skip in (False, True)]


@contract('C08', cfg_c08b)
def members_used(run):
    """spread and ranks take the members along the axis they were put on"""
    g = run.cfg
    r, skip = g['rank'], g['skip']
    run.env(skip_nan=skip, ens_to_prob_method='moments')
    n = nat('Ns', 1)
    v = V(run, g['cls'], r, n_sample_members=n, move_sampled_ens_axis=g['axis'])
    k = g['axis'] % (r + 1)
    ne = C.lift(n)[0]
    exts = list(v.ex[:k]) + [ne] + list(v.ex[k:])
    ens = run.data('ens', exts, nan=skip)
    ver = v.make(avg_axis=())
    calls = []

    def members():
        calls.append(1)
        return ens
    ver.prob_to_ens = ver._prob_to_ens = members
    bef = len(calls)
    got = ver.spread()
    if len(calls) == bef:
        raise C.Unsupported('members taken from elsewhere')
    f = ens.fn()

    def spec(idx):
        m = T.fresh('m')
        e = f(tuple(idx[:k]) + (m,) + tuple(idx[k:]))
        bs = [(m, ne)]
        if skip:
            ok = T.not_(e[1])
            return T.sub(T.bind('bmax', bs, [ok, e[0]]), T.bind('bmin', bs, [ok, e[0]])), T.not_(T.bind('exists', bs, [ok]))
        return T.sub(T.bind('bmax', bs, [TRUE, e[0]]), T.bind('bmin', bs, [TRUE, e[0]])), T.bind('exists', bs, [e[1]])
    run.same('spread: largest minus smallest member of the case', got, arr(v.ex, spec))
    bef = len(calls)
    got = C.as_arr(ver.rank_hist())
    if len(calls) == bef:
        raise C.Unsupported('members taken from elsewhere')
    run.goal('ranks: one per case', TRUE if tuple(got.axes) == tuple((e,) for e in v.ex) else FALSE)
    gi = C.generic(v.ex)
    v.M, v.mem = ne, lambda m, idx: f(tuple(idx[:k]) + (m,) + tuple(idx[k:]))
    below, ties, missing = rank_terms(v, gi)
    g0, gn = got.fn()(gi)
    H = in_range(gi, v.ex) + [T.not_(missing), T.le(T.const(1), ne)]
    run.goal('ranks: missing exactly where a value is missing', T.iff(gn, missing), in_range(gi, v.ex))
    run.goal('ranks: one plus the members below', T.eq(g0, T.add(T.const(1), below)), H + [T.eq(ties, T.const(0))])
    run.frame()


# ---------------------------------------------------------------- C19
def gcdf(k, x):
    return T.ite(T.lt(T.const(0), x), T.uf('GammaCDF', (k, x)), T.const(0))


def gamma_crps(mu, sg, sh, y):
    """CRPS of a gamma forecast shifted by sh and censored at zero (Scheuerer and Hamill 2015, eq. 5 of doi:10.1016/j.advwatres.2021.103907)"""
    k, th = T.powi(T.div(mu, sg), 2), T.div(T.powi(sg, 2), mu)
    k1 = T.add(k, T.const(1))
    half, one, two = T.const('1/2'), T.const(1), T.const(2)
    Y, c = T.div(T.sub(y, sh), th), T.div(T.neg(sh), th)
    FY, FC, F1Y, F1C = gcdf(k, Y), gcdf(k, c), gcdf(k1, Y), gcdf(k1, c)
    lg = lambda x: T.uf('gammaln', (x,))
    B = T.uf('exp', (T.sub(T.add(lg(half), lg(T.add(k, half))), lg(k1)),))
    inner = T.sub(T.mul(Y, T.sub(T.mul(two, FY), one)),
                  T.mul(k, T.add(T.mul(two, F1Y), T.neg(one), T.powi(FC, 2), T.mul(T.const(-2), F1C, FC))),)
    inner = T.sub(inner, T.mul(c, T.powi(FC, 2)))
    inner = T.sub(inner, T.mul(T.div(k, T.uf('pi', ())), B, T.sub(one, gcdf(T.mul(two, k), T.mul(two, c)))))
    return T.mul(th, inner)


def tnorm_crps(mu, sg, y):
    """CRPS of a normal forecast truncated to positive values (scoringRules: crps_tnorm, lower = 0, upper = infinity)"""
    Y, l = T.div(T.sub(y, mu), sg), T.div(T.neg(mu), sg)
    z = T.ite(T.lt(Y, l), l, Y)
    P, one, two = (lambda x: T.uf('Phi', (x,))), T.const(1), T.const(2)
    w = T.div(one, T.sub(one, P(l)))
    v = T.add(T.abs_(T.sub(Y, z)), T.mul(w, z, T.sub(T.mul(two, P(z)), T.add(one, P(l)))), T.mul(two, w, T.uf('phi', (z,))),
              T.neg(T.mul(T.powi(w, 2), T.div(T.sub(one, P(T.mul(l, T.sqrt(two)))), T.sqrt(T.uf('pi', ()))))))
    return T.mul(sg, v)


def normal_crps(mu, sg, y):
    z, one, two = T.div(T.sub(y, mu), sg), T.const(1), T.const(2)
    return T.mul(sg, T.add(T.mul(z, T.sub(T.mul(two, T.uf('Phi', (z,))), one)), T.mul(two, T.uf('phi', (z,))), T.neg(T.div(one, T.sqrt(T.uf('pi', ()))))))


def cfg_c19(tier):
    return [dict(cls=cls, rank=r, trunc=t, nan=nan, _hints=hint(kind='gamma') if cls == 'Gamma' else hint(kind='tnorm')) for cls, t in (('Gamma', False), ('Gaussian', True), ('Gaussian', False))
            for r in ranks(tier) for nan in (False, True)]


@contract('C19', cfg_c19)
def closed_forms(run):
    g = run.cfg
    run.env(ens_to_prob_method='moments')
    v = V(run, g['cls'], g['rank'], trunc=g['trunc'], onan=g['nan'], avg_axis=())
    if g['cls'] == 'Gamma':
        v.f['shift'] = run.data('shift0', v.ex, hi=0)

    def spec(idx):
        y, n = v.O(idx)
        p = lambda k: v.par(k, idx)
        if g['cls'] == 'Gamma':
            return gamma_crps(p('unshifted_mu'), p('sigma'), p('shift'), y), n
        return (tnorm_crps if g['trunc'] else normal_crps)(p('mu'), p('sigma'), y), n
    want = arr(v.ex, spec)
    run.same('CRPS of each case = closed form', v.make().crps(), want)
    m = run.w.load('utils_crps')
    if g['cls'] == 'Gamma':
        args = (v.f['unshifted_mu'], v.f['sigma'], v.f['shift'], v.o)
        run.same('function: one value per case', m.crps_gamma(*args, reduce_sum=False), want)
        for skip in (False, True):
            run.env(skip_nan=skip)
            run.same('function: mean over the cases' + (', missing left out' if skip else ''), m.crps_gamma(*args),
                     over_axes(want, range(g['rank']), red_mean(skip)))
    elif g['trunc']:
        run.same('function', m.crps_truncated_gaussian(v.o, mu=v.f['mu'], scale=v.f['sigma'], l=0), want)
    run.frame()


def cfg_c19e(tier):
    return [dict(rank=r, first=f, split=s, nan=n, M=m, _hints=hint(kind='ens', first=f)) for r in ranks(tier) for f in (False, True) for s in (False, True)
            for n in (False, True) for m in ('n', 1)]


@contract('C19', cfg_c19e)
def ensemble_crps(run):
    g = run.cfg
    run.env(split_crps_ensemble_along_0=g['split'])
    v = V(run, 'Ensemble', g['rank'], nan=g['nan'], first=g['first'], M=None if g['M'] == 'n' else T.const(1), avg_axis=())

    def spec(idx):
        o = v.O(idx)
        i, j = T.fresh('i'), T.fresh('j')
        x, y = v.mem(i, idx), v.mem(j, idx)
        n, wx, wy, nn = v.M, TRUE, TRUE, o[1]
        if g['nan']:
            wx, wy = T.not_(x[1]), T.not_(y[1])
            n = T.sum_([(i, v.M)], T.ind(wx))
            nn = T.or_(nn, T.eq(n, T.const(0)))
        a = T.div(T.sum_([(i, v.M)], T.mul(T.ind(wx), T.abs_(T.sub(x[0], o[0])))), n)
        b = T.div(T.sum_([(i, v.M), (j, v.M)], T.mul(T.ind(wx), T.ind(wy), T.abs_(T.sub(x[0], y[0])))), T.mul(T.const(2), n, n))
        return T.sub(a, b), nn
    run.same('CRPS of each case across its members', v.make().crps(), arr(v.ex, spec))
    run.frame()
