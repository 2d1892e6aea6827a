"""Contracts: ranks, samples, bootstrap, reliability, spread-skill."""
from .contracts import *
from .contracts import T, C, L, SArr, SNum, TRUE, FALSE
from .contracts_a import workers, threshold, distributions, ens_below
from .contracts_b import event
from .contracts_c import nat
from fractions import Fraction
from . import loader as LD


def in_range(idx, exts):
    return [x for i, e in zip(idx, exts) for x in (T.le(T.const(0), i), T.lt(i, e))]


# ---------------------------------------------------------------- C09
def rank_terms(v, idx):
    """members below the observation, members equal to it, and whether something is missing"""
    o = v.O(idx)
    m = T.fresh('m')
    e = v.mem(m, idx)
    bs = [(m, v.M)]
    return T.sum_(bs, T.ind(T.lt(e[0], o[0]))), T.sum_(bs, T.ind(T.eq(e[0], o[0]))), T.or_(o[1], T.bind('exists', bs, [e[1]]))


def draw_uf(t, kind='randint'):
    """the draws a term depends on: (call information, index terms)"""
    out = []
    for x in T.subterms(t, into_binders=True):
        if x.op == 'uf':
            for d in C.CUR.draws:
                if x.attr == d['name'] or x.attr.startswith(d['name'] + '.'):
                    out.append((d, x))
    return out


def cfg_c09(tier):
    out = []
    for r in ranks(tier):
        for pos in range(r + 1):
            for neg in (False, True):
                for skip in (False, True):
                    for par in (0, -1):
                        if par and (pos + neg) % 2 and tier == 'quick':
                            continue
                        out.append(dict(rank=r, member_axis=pos - (r + 1) if neg else pos, skip=skip, par=par,
                                        _hints=hint(cls='Ensemble', first=pos == 0)))
    return out


def cfg_c09_par(tier):
    return [dict(rank=r, member_axis=pos, skip=skip, par=-k) for r in ranks(tier) for pos in (0, -1) for skip in (False, True) for k in range(1, r + 1)]


@contract('C09', cfg_c09)
@contract('C07', cfg_c09_par)
def observation_rank(run):
    g = run.cfg
    run.world()
    k = g['member_axis'] % (g['rank'] + 1)
    v = V(run, 'Ensemble', g['rank'], nan=g['skip'], first=k == 0)
    workers(run, bool(g['par']), g['par'] or -1)
    run.env(skip_nan=g['skip'])
    if k in (0, g['rank']):
        got = C.as_arr(v.make(avg_axis=(), ensemble_axis=g['member_axis']).rank_hist())
    else:
        # the verifier takes the first or the last axis; the function it uses takes any
        f = run.np.moveaxis(v.f, -1, k)
        got = C.as_arr(run.w.load('utils_verify').rank_histogram(f, v.o, g['member_axis']))
    gi = C.generic(v.ex)
    below, ties, missing = rank_terms(v, gi)
    g0, gn = got.fn()(gi)
    H = in_range(gi, v.ex) + [T.not_(missing), T.le(T.const(1), v.M)]
    run.goal('shape', T.TRUE if tuple(got.axes) == tuple((e,) for e in v.ex) else T.FALSE)
    run.goal('missing exactly where a value is missing', T.iff(gn, missing), in_range(gi, v.ex))
    run.goal('untied: one plus the members below', T.eq(g0, T.add(T.const(1), below)), H + [T.eq(ties, T.const(0))])
    Ht = H + [T.lt(T.const(0), ties)]
    us = draw_uf(g0)
    run.goal('ties are broken by a draw', T.TRUE if us else T.FALSE)
    U = T.var('u', 'I')
    rep = {}
    for d, x in us:
        if d['kind'] != 'randint' or d.get('low') is None:
            raise C.Unsupported('ties broken by %s' % d['kind'])
        m = dict(zip(d['lv'], x.args))
        lo, hi = T.subst(d['low'], m), T.subst(d['high'], m)
        run.goal('the offset takes as many values as there are ties, plus one', T.eq(T.sub(hi, lo), T.add(ties, T.const(1))), Ht)
        run.goal('every case has its own draw', T.TRUE if all(i in x.args for i in gi) else T.FALSE)
        rep[x] = U
    g1 = T.replace(g0, rep)
    run.goal('tied: one plus the members below plus the offset', T.eq(g1, T.add(T.const(1), below, U)), Ht)
    run.goal('lemma: at most M members are below or equal', T.le(T.add(below, ties), v.M), H)
    b, t = T.var('b', 'I'), T.var('t', 'I')
    hy = [T.le(T.const(0), b), T.le(T.const(0), t), T.le(T.add(b, t), v.M), T.le(T.const(0), U), T.le(U, t)]
    r = T.add(T.const(1), b, U)
    run.goal('lemma: ranks lie in 1..M+1', T.and_(T.le(T.const(1), r), T.le(r, T.add(v.M, T.const(1)))), hy)
    run.frame()


def cfg_ri(tier):
    return [dict(cls=c) for c in ('Determ', 'Ensemble', 'Gaussian', 'Gamma', 'Hurdle')]


@contract('C09', cfg_ri)
def reliability_index(run):
    run.world()
    n = T.var('Nbin', 'I')
    fr = run.data('freq', (n,), lo=0)
    vs = [(T.fresh('i'), n)]
    tot = T.sum_(vs, at(fr, (vs[0][0],))[0])
    i = T.fresh('i')
    want = T.sum_([(i, n)], T.abs_(T.sub(T.div(at(fr, (i,))[0], tot), T.inv(n))))
    mod, c = CLS[run.cfg['cls']]
    got = C.lift(getattr(run.w.load(mod), c).reliability_index(fr))[:2]
    run.eqnum('sum of the distances to the flat histogram', got, (want, FALSE), [T.lt(T.const(0), tot)])
    run.frame()


# ---------------------------------------------------------------- C14
def cfg_c14(tier):
    out = []
    for r in ranks(tier):
        for a, s in axis_forms(r, tier):
            for nb in (1, 3, 'n'):
                for skip in (False, True):
                    out.append(dict(rank=r, axis=a, covered=s, bins=nb, skip=skip))
    return out


def spread_groups(run, va, se, exts, covered, nb, skip):
    """spec: [bin][kept cell] -> ((spread, nan), (rmse, nan)) of the group"""
    r = len(exts)
    keep = [x for x in range(r) if x not in covered]
    samp = [x for x in range(r) if x in covered]
    sx = [exts[x] for x in samp]
    N = T.mul(*sx)
    q = T.uf('idiv', (N, nb), 'I')
    rem = T.sub(N, T.mul(q, nb))
    va, se = va.fn(), se.fn()

    def spec(idx):
        k, g = tuple(idx[:-1]), idx[-1]
        start = T.add(T.mul(g, q), T.min_(g, rem))
        size = T.add(q, T.ind(T.lt(g, rem)))
        vs = tuple(T.fresh('s') for _ in sx)
        e = va(cell(r, keep, k, vs))
        pos = vs[0] if len(vs) == 1 else C.recombine(vs, tuple(sx), (N,))[0]
        j = T.fresh('j')
        o = T.bind('argsort', list(zip(vs, sx)), [e[0], e[1], pos], [T.add(start, j)])      # the case at that place of the order
        c = cell(r, keep, k, (o,) if len(sx) == 1 else C.divmod_parts(o, tuple(sx)))
        return [mean_term([(j, size)], f(c), skip) for f in (va, se)]
    return [exts[x] for x in keep] + [nb], spec


@contract('C14', cfg_c14)
def spread_skill(run):
    g = run.cfg
    run.world()
    run.env(skip_nan=g['skip'])
    ex = dims(g['rank'])
    va = run.data('va', ex, g['skip'], lo=0)
    se = run.data('se', ex, g['skip'], lo=0)
    nb = nat('Ngroups', 1) if g['bins'] == 'n' else g['bins']
    nt = C.lift(nb)[0]
    ss = run.w.load('utils_ss')
    N = T.mul(*[ex[k] for k in g['covered']])
    if isinstance(g['axis'], int):
        run.rejects('a number instead of a list of axes is rejected', lambda: ss.binned_spread_skill(va, se, nb, g['axis']))
        return
    if not C.branch(T.le(nt, N)):
        run.rejects('more groups than cases are rejected', lambda: ss.binned_spread_skill(va, se, nb, g['axis']))
        run.frame()
        return
    got = ss.binned_spread_skill(va, se, nb, g['axis'])
    exts, spec = spread_groups(run, va, se, ex, g['covered'], nt, g['skip'])
    for k, what in ((0, 'spread'), (1, 'rmse')):
        run.same(what, got[k], arr(exts, lambda i, k=k: (T.sqrt(spec(i)[k][0]), spec(i)[k][1])))
    run.frame()


def cfg_c14v(tier):
    out = []
    for r in ranks(tier)[:2]:
        for a, s in axis_forms(r, 'quick'):
            if isinstance(a, int):
                continue
            for cls, f, tr in distributions():
                out.append(dict(cls=cls, rank=r, axis=a, covered=s, trunc=tr, first=f, _hints=hint(cls=cls, trunc=tr, first=f)))
    return out


@contract('C14', cfg_c14v)
def verifier_spread_skill(run):
    """a verifier groups the variance and the squared error of its own cases"""
    g = run.cfg
    v = V(run, g['cls'], g['rank'], trunc=g['trunc'], first=g['first'])
    ver = v.make(avg_axis=g['axis'])
    nb = nat('Ngroups', 1)
    nt = C.lift(nb)[0]
    N = T.mul(*[v.ex[k] for k in g['covered']])
    if not C.branch(T.le(nt, N)):
        run.rejects('more groups than cases are rejected', lambda: ver.binned_spread_skill(nbins=nb))
        run.frame()
        return
    got = ver.binned_spread_skill(nbins=nb)
    plain = v.make(avg_axis=())
    va, se = C.as_arr(plain.variance()), C.as_arr(plain.sq_error())
    exts, spec = spread_groups(run, va, se, v.ex, g['covered'], nt, False)
    for k, what in ((0, 'spread'), (1, 'rmse')):
        run.same(what, got[k], arr(exts, lambda i, k=k: (T.sqrt(spec(i)[k][0]), spec(i)[k][1])))
    run.frame()


# ---------------------------------------------------------------- C13
def in_bin(p, nb, k):
    """p lies in bin k of the nb equal-width bins from 0 to a little above 1"""
    y = T.div(T.mul(p, nb), T.const(1 + Fraction(1, 10 ** 8)))
    return T.and_(T.le(k, y), T.lt(y, T.add(k, T.const(1))))


def diagram(p, e, exts, nb):
    """specification of the four parts for the cases p, e (functions of a case)"""
    def over(w, k):
        vs = [(T.fresh('s'), x) for x in exts]
        ix = tuple(v for v, _ in vs)
        return T.sum_(vs, T.mul(T.ind(in_bin(p(ix), nb, k)), w(ix)))

    def one(ix):
        return T.const(1)

    def ev(ix):
        return T.ind(e(ix))

    def part(n, guard, val):
        return SArr.new([(n,)], lambda idx: (val(idx[0]), FALSE), 'float', lambda idx: guard(idx[0]))

    def some(k):
        return T.ne(over(one, k), T.const(0))

    def events(k):
        vs = [(T.fresh('s'), x) for x in exts]
        return T.sum_(vs, T.ind(T.eq(ev(tuple(v for v, _ in vs)), k)))
    return [part(nb, some, lambda k: T.div(over(p, k), over(one, k))), part(nb, some, lambda k: T.div(over(ev, k), over(one, k))),
            part(nb, some, lambda k: over(one, k)), part(T.const(2), lambda k: T.ne(events(k), T.const(0)), events)]


PARTS = ('mean probability', 'event frequency', 'cases per bin', 'non-events and events')


def counts_array(x):
    return x.to_numpy() if hasattr(x, 'to_numpy') else x


def cfg_c13(tier):
    return [dict(rank=r, axis=a, bins=nb) for r in ranks(tier) for a, s in axis_forms(r, 'quick') if len(s) == r and not isinstance(a, int)
            for nb in (1, 2, 5, 15, 'n')]


@contract('C13', cfg_c13)
def reliability_flat(run):
    g = run.cfg
    run.world()
    ex = dims(g['rank'])
    p = run.data('p', ex, lo=0, hi=1)
    e = run.data('e', ex, kind='bool')
    nb = nat('Nbins', 1) if g['bins'] == 'n' else g['bins']
    nt = C.lift(nb)[0]
    got = run.w.load('utils_verify').reliability_diagram(p, e, nb, g['axis'])
    want = diagram(lambda ix: at(p, ix)[0], lambda ix: at(e, ix)[0], ex, nt)
    run.goal('four parts', TRUE if len(got) == 4 else FALSE)
    for k in range(4):
        run.same(PARTS[k], counts_array(got[k]), want[k])
    run.frame()


class Counts:
    """what the per-slice aggregation hands over for the counts"""

    def __init__(self, a):
        self.a = a
        self.values = a
        self.index = None

    def to_numpy(self, *a, **k):
        return self.a

    __array__ = to_numpy


def slice_stub(run, calls):
    """any aggregation of one slice: sums, over the slice's cases, of arbitrary functions of bin, probability and event;
    as many numbers as every slice has (slices with different numbers of non-empty bins cannot be stacked)"""
    n1, n2 = C.lift(nat('Nfilled', 1))[0], C.lift(nat('Nclasses', 1))[0]

    def stub(binids, y_prob, y_true, bins):
        calls.append(1)
        a = [C.as_arr(x) for x in (binids, y_prob, y_true)]
        if any(x.ndim != 1 or x.guard is not None for x in a):
            raise C.Unsupported('slice of another form')
        fs = [x.fn() for x in a]

        def part(name, n):
            def val(idx):
                vs = [(T.fresh('s'), e) for e in a[0].axes[0]]
                ix = tuple(v for v, _ in vs)
                return T.sum_(vs, T.uf(name, (idx[0],) + tuple(C.tonum(f(ix)[0]) for f in fs), 'R')), FALSE
            return arr([n], val)
        return part('Wp', n1), part('We', n1), Counts(part('Wc', n1)), Counts(part('Wt', n2))
    return stub, n1, n2


def cfg_c13k(tier):
    return [dict(rank=r, axis=a, bins=nb) for r in (ranks(tier) if tier != 'quick' else (2, 3)) for a, s in axis_forms(r, tier)
            if 0 < len(s) < r and a is not None and not isinstance(a, int) for nb in (5, 'n')]


@contract('C13', cfg_c13k)
def reliability_kept(run):
    """the diagram of every kept cell is the aggregation of exactly the cases of that cell"""
    g = run.cfg
    calls = []
    ex = dims(g['rank'])
    run.world()
    stub, n1, n2 = slice_stub(run, calls)
    run.world({('utils_verify', '_reliability_agg_no_boot_slice'): stub})
    p = run.data('p', ex, lo=0, hi=1)
    e = run.data('e', ex, kind='bool')
    nb = nat('Nbins', 1) if g['bins'] == 'n' else g['bins']
    nt = C.lift(nb)[0]
    got = run.w.load('utils_verify').reliability_diagram(p, e, nb, g['axis'])
    if not calls:
        raise C.Unsupported('the aggregation of a slice is not where the contract expects it')
    r = g['rank']
    cov = sorted({x % r for x in g['axis']})
    keep = [x for x in range(r) if x not in cov]
    for k, (name, n) in enumerate((('Wp', n1), ('We', n1), ('Wc', n1), ('Wt', n2))):
        def spec(idx):
            vs = [(T.fresh('s'), ex[x]) for x in cov]
            ix = cell(r, keep, idx[:-1], [v for v, _ in vs])
            pv = at(p, ix)[0]
            y = T.div(T.mul(pv, nt), T.const(1 + Fraction(1, 10 ** 8)))
            return T.sum_(vs, T.uf(name, (idx[-1], T.uf('trunc', (y,), 'I'), pv, T.ind(at(e, ix)[0])), 'R')), FALSE
        run.same(PARTS[k], counts_array(got[k]), arr([ex[x] for x in keep] + [n], spec))
    run.frame()


def cfg_c13v(tier):
    out = []
    for r in ranks(tier):
        for cls, f, tr in distributions():
            for a, s in axis_forms(r, 'quick'):
                if isinstance(a, int) or not s:
                    continue
                out.append(dict(cls=cls, rank=r, trunc=tr, first=f, axis=a, bins=(5 if r == 1 else 'n'), _cov=sorted(s), _hints=hint(cls=cls, trunc=tr, first=f)))
    return out


@contract('C13', cfg_c13v)
def reliability_verifier(run):
    """the reliability of a verifier: the cases are its event probabilities and its observed events"""
    g = run.cfg
    calls = []
    run.world()
    stub, n1, n2 = slice_stub(run, calls)
    run.world({('utils_verify', '_reliability_agg_no_boot_slice'): stub})
    v = V(run, g['cls'], g['rank'], nan=False, onan=g['cls'] != 'Hurdle', trunc=g['trunc'], first=g['first'])
    t, tf = threshold(run, v, 'float')
    nb = nat('Nbins', 1) if g['bins'] == 'n' else g['bins']
    nt = C.lift(nb)[0]
    ver = v.make(avg_axis=g['axis'])
    r, cov = g['rank'], g['_cov']
    keep = [x for x in range(r) if x not in cov]
    for side in ('below', 'over'):
        kw = {side: t}
        pf = C.as_arr(ver.cdf(**kw)).fn()
        del calls[:]
        got = ver.reliability(nbins=nb, **kw)
        if not calls:
            raise C.Unsupported('the aggregation of a slice is not where the contract expects it')
        for k, (name, n) in enumerate((('Wp', n1), ('We', n1), ('Wc', n1), ('Wt', n2))):
            def spec(idx):
                vs = [(T.fresh('s'), v.ex[x]) for x in cov]
                ix = cell(r, keep, idx[:-1], [a for a, _ in vs])
                pv = pf(ix)[0]
                y = T.div(T.mul(pv, nt), T.const(1 + Fraction(1, 10 ** 8)))
                e = event(v.O(ix), tf(ix), side == 'over')
                return T.sum_(vs, T.uf(name, (idx[-1], T.uf('trunc', (y,), 'I'), pv, T.ind(e)), 'R')), FALSE
            run.same('%s %s' % (side, PARTS[k]), counts_array(got[k]), arr([v.ex[x] for x in keep] + [n], spec))
    run.frame()


# ---------------------------------------------------------------- C12
NBRIER = 20


def brier_parts(p, e, exts):
    """reliability, resolution and uncertainty of the cases p, e (functions of a case) with 20 equal probability bins"""
    def over(w):
        vs = [(T.fresh('s'), x) for x in exts]
        return T.sum_(vs, w(tuple(v for v, _ in vs)))
    n = T.mul(*exts)
    ob = T.div(over(lambda ix: T.ind(e(ix))), n)
    k = T.fresh('k')

    def inb(ix):
        y = T.mul(p(ix), T.const(NBRIER))
        return T.ind(T.and_(T.le(k, y), T.or_(T.lt(y, T.add(k, T.const(1))), T.eq(k, T.const(NBRIER - 1)))))
    N = over(inb)
    P, E = over(lambda ix: T.mul(inb(ix), p(ix))), over(lambda ix: T.mul(inb(ix), T.ind(e(ix))))

    def per_bin(x):
        return T.div(T.sum_([(k, T.const(NBRIER))], T.ite(T.eq(N, T.const(0)), T.const(0), T.mul(N, x))), n)
    return per_bin(T.powi(T.sub(T.div(P, N), T.div(E, N)), 2)), per_bin(T.powi(T.sub(T.div(E, N), ob), 2)), T.mul(ob, T.sub(T.const(1), ob))


def cfg_c12(tier):
    return [dict(rank=r, axis=a, skip=s) for r in ranks(tier) for a, c in axis_forms(r, tier) if c and not isinstance(a, int) for s in (False, True)]


@contract('C12', lambda tier: [{}])
def brier_lemmas(run):
    """consequences of the definitions, bin by bin (N cases, P the sum of their probabilities, E their events)"""
    run.world()
    N, P, E, ob = T.var('N', 'R'), T.var('P', 'R'), T.var('E', 'R'), T.var('ob', 'R')
    p, o = T.div(P, N), T.div(E, N)

    def sq(a, b):
        return T.powi(T.sub(a, b), 2)
    rel, res = T.mul(N, sq(p, o)), T.mul(N, sq(o, ob))
    two = T.const(2)
    # the bin's share of the uncertainty: sum of (e - ob)^2 over its cases, and of the recombined score: sum of (p - e)^2
    unc = T.add(T.sub(E, T.mul(two, ob, E)), T.mul(N, ob, ob))
    mse = T.add(T.sub(T.mul(N, p, p), T.mul(two, p, E)), E)
    pos = [T.lt(T.const(0), N)]
    run.goal('reliability - resolution + uncertainty', T.eq(T.add(T.sub(rel, res), unc), mse), pos)
    run.goal('resolution at most uncertainty', T.le(T.const(0), T.mul(N, T.sub(unc, res))), pos + [T.le(T.const(0), E), T.le(E, N)])
    ex = dims(1)
    e = run.data('e', ex, kind='bool')
    s, c = T.fresh('s'), T.fresh('s')
    ev = T.ind(at(e, (s,))[0])
    mean = T.div(T.sum_([(s, ex[0])], ev), ex[0])
    run.goal('the shares of the uncertainty add up', T.eq(T.sum_([(s, ex[0])], sq(ev, mean)), T.mul(ex[0], mean, T.sub(T.const(1), mean))))
    q = T.var('q', 'R')
    run.goal('cases of a bin: squared distances to the bin mean', T.eq(T.sum_([(s, ex[0])], sq(q, ev)), T.add(T.mul(ex[0], q, q), T.mul(T.const(-2), q, T.sum_([(s, ex[0])], ev)), T.sum_([(s, ex[0])], ev))))


@contract('C12', cfg_c12)
def brier_decomposition(run):
    g = run.cfg
    run.env(pyanen_skip_nan=str(g['skip']))
    run.world()
    r, ex = g['rank'], dims(g['rank'])
    p = run.data('p', ex, lo=0, hi=1)
    e = run.data('e', ex, kind='bool')
    got = run.w.load('utils_special_boot').brier_decomp(p, e, g['axis'])
    cov = list(range(r)) if g['axis'] is None else sorted({x % r for x in g['axis']})
    keep = [x for x in range(r) if x not in cov]
    run.goal('three parts', TRUE if len(got) == 3 else FALSE)
    for j, name in enumerate(('reliability', 'resolution', 'uncertainty')):
        def spec(idx):
            def full(s):
                return cell(r, keep, idx, s)
            return brier_parts(lambda s: at(p, full(s))[0], lambda s: at(e, full(s))[0], [ex[x] for x in cov])[j], FALSE
        run.same(name, got[j], arr([ex[x] for x in keep], spec))
    run.frame()


def cfg_c12v(tier):
    out = []
    for r in ranks(tier):
        for cls, f, tr in distributions():
            for a, s in axis_forms(r, 'quick'):
                if isinstance(a, int) or not s:
                    continue
                out.append(dict(cls=cls, rank=r, trunc=tr, first=f, axis=a, _cov=sorted(s), _hints=hint(cls=cls, trunc=tr, first=f)))
    return out


@contract('C12', cfg_c12v)
def brier_verifier(run):
    """the decomposition of a verifier: the cases are its event probabilities and its observed events (the decomposition
    itself is used by its contract above: an arbitrary function of the cases of every kept cell)"""
    g = run.cfg
    calls = []
    r, cov = g['rank'], g['_cov']

    def cells(ex, pf, ef, cov):
        r = len(ex)
        keep = [x for x in range(r) if x not in cov]

        def part(name):
            def val(idx):
                vs = [(T.fresh('s'), ex[x]) for x in cov]
                ix = cell(r, keep, idx, [a for a, _ in vs])
                return T.sum_(vs, T.uf(name, (pf(ix), ef(ix)), 'R')), FALSE
            return arr([ex[x] for x in keep], val)
        return tuple(part('W%d' % j) for j in range(3))

    def stub(f, o, avg_axis=None, n_samples=None, *a, **k):
        f, o = C.as_arr(f), C.as_arr(o)
        if n_samples is not None or a or k or any(len(x) != 1 for x in f.axes):
            raise C.Unsupported('decomposition of another form')
        ax = list(range(f.ndim)) if avg_axis is None else sorted({x % f.ndim for x in avg_axis})
        calls.append(ax)
        ff, of = f.fn(), o.fn()
        return cells(f.exts, lambda ix: C.tonum(ff(ix)[0]), lambda ix: C.tonum(of(ix)[0]), ax)
    run.world({('utils_special_boot', 'brier_decomp'): stub})
    v = V(run, g['cls'], g['rank'], nan=False, onan=g['cls'] != 'Hurdle', trunc=g['trunc'], first=g['first'])
    t, tf = threshold(run, v, 'float')
    ver = v.make(avg_axis=g['axis'])
    r, cov = g['rank'], g['_cov']
    keep = [x for x in range(r) if x not in cov]
    for side in ('below', 'over'):
        kw = {side: t}
        pf = C.as_arr(ver.cdf(**kw)).fn()
        del calls[:]
        got = ver.brier_decomp(**kw)
        if not calls:
            raise C.Unsupported('the decomposition is not where the contract expects it')
        want = cells(v.ex, lambda ix: pf(ix)[0], lambda ix: T.ind(event(v.O(ix), tf(ix), side == 'over')), cov)
        run.goal('%s: three parts' % side, TRUE if len(got) == 3 else FALSE)
        for j, name in enumerate(('reliability', 'resolution', 'uncertainty')):
            run.same('%s %s' % (side, name), got[j], want[j])
    run.frame()
