"""Contracts: bootstrap intervals."""
from fractions import Fraction
from .contracts import *
from .contracts import T, C, L, SArr, SNum, TRUE, FALSE
from .contracts_a import workers, threshold, distributions, metrics_of
from .contracts_c import nat
from .contracts_d import draw_uf, in_range, slice_stub, counts_array
from . import loader as LD


# ---------------------------------------------------------------- C03
def boot_settings(run, skip, explicit=False):
    """number of replicates, sample size and confidence: any; -> (R, n, c) terms and the sample size to pass"""
    R, n = nat('Nrep', 1), nat('Nsamp', 1)
    c = run.num('c', lo=0, hi=1, lo_open=True, hi_open=True)
    run.env(boot_repeats=R, boot_confidence=c, skip_nan=skip, ens_to_prob_method='moments')
    return C.lift(R)[0], C.lift(n)[0], C.lift(c)[0], n


def used_draws(t):
    """the random draws the numbers in t depend on (outside of the data itself)"""
    recs = {}
    for d, x in draw_uf(t):
        recs.setdefault(d['name'], (d, []))[1].append(x)
    return list(recs.values())


def replicate_draw(run, got, exts):
    """the draw call behind the replicates -> record; fails the obligation when nothing is drawn"""
    idx = [T.fresh('i') for _ in got.exts]
    v, nan = got.fn()(tuple([T.const(1)] + idx[1:]))
    recs = [d for d, _ in used_draws(v) + used_draws(nan) if d['kind'] in ('choice', 'randint') and d.get('boot', True)]
    names = {d['name'] for d in recs}
    if not names:
        return None
    if len(names) > 1:
        raise C.Unsupported('several draws in a replicate')
    return recs[0]


def drawn_index(d, where, cov, exts, flat=None):
    """index terms (per sampled axis) of one drawn case; where: extent -> term for the indices the draw may depend on"""
    args = []
    for v, e in list(zip(d['lv'], d['lve'])) + [(None, e) for a in d['axes'] for e in a]:
        if e not in where:
            raise C.Unsupported('a draw under another loop')
        args.append(where[e])
    comp = {e: T.uf('%s.%d' % (d['name'], k), tuple(args), 'I') for k, e in enumerate(d['exts'])}
    out = []
    for x in cov:
        if exts[x] not in comp:
            return None
        out.append(comp[exts[x]])
    return out if len(comp) == len(cov) else None


def interval(run, label, got, pops, ex, cov, R, n, c, skip, stat=None, nanouter=False):
    """got[0..2, kept...] is (lower, mean, upper) of R replicates, each the statistic of n cases drawn with replacement"""
    got = C.as_arr(got)
    r = len(ex)
    keep = [x for x in range(r) if x not in cov]
    if got.ndim != 1 + len(keep) or got.axes[0] != (T.const(3),):
        run.goal(label + ': shape', FALSE)
        return
    d = replicate_draw(run, got, ex)
    if d is None:
        run.goal(label + ': cases are drawn', FALSE)
        return
    run.goal(label + ': drawn with replacement', TRUE if d.get('replace', True) else FALSE)
    if d.get('guard') is not None:
        raise C.Unsupported('draw from a selection')
    rv, bv = T.fresh('r'), T.fresh('b')

    def spec(idx):
        where = {R: rv, n: bv}
        where.update({ex[x]: t for x, t in zip(keep, idx[1:])})
        s = drawn_index(d, where, cov, ex)
        if s is None:
            return T.uf('not all cases of the cell', tuple(idx), 'R'), FALSE
        es = [p(cell(r, keep, idx[1:], s)) for p in pops]
        v, nan = (stat or mean_stat)(es, [(bv, n)], skip)
        ok = T.not_(nan) if nanouter else TRUE
        bs = [(rv, R)]
        if nanouter:
            nn = T.not_(T.bind('exists', bs, [ok]))
            mid = T.div(T.sum_(bs, T.mul(T.ind(ok), v)), T.sum_(bs, T.ind(ok)))
            if T.cval(idx[0]) == 1:
                nn = T.eq(T.sum_(bs, T.ind(ok)), T.const(0))
        else:
            nn = T.bind('exists', bs, [nan])
            mid = T.div(T.sum_(bs, v), R)
        j = T.cval(idx[0])
        if j == 1:
            return mid, nn
        half = T.const('1/2') if False else T.div(T.const(1), T.const(2))
        q = T.mul(half, T.sub(T.const(1), c) if j == 0 else T.add(T.const(1), c))
        return T.bind('quantile', bs, [ok, v], [q]), nn
    run.same(label, got, arr([T.const(3)] + [ex[x] for x in keep], spec))


def mean_stat(es, bs, skip):
    return mean_term(bs, es[0], skip)


def cfg_c03(tier):
    return [dict(rank=r, axis=a, cov=s, skip=k) for r in ranks(tier) for a, s in axis_forms(r, tier) if s and not isinstance(a, int) for k in (False, True)]


@contract('C03', cfg_c03)
def boot_array(run):
    g = run.cfg
    R, n, c, ns = boot_settings(run, g['skip'])
    run.world()
    ex = dims(g['rank'])
    a = run.data('a', ex, nan=True)
    got = run.w.load('utils_verify').boot_arr(a, g['axis'], n_samples=ns)
    interval(run, 'interval', got, [lambda ix: at(a, ix)], ex, sorted(g['cov']), R, n, c, g['skip'])
    run.frame()


def pairs_stat(es, bs, skip):
    from .contracts_b import pearson
    return pearson(bs, es[0], es[1], False)


def cfg_c03s(tier):
    return [dict(rank=r, axis=a, cov=s, skip=k, nan=nn) for r in ranks(tier) for a, s in axis_forms(r, 'quick') if s and not isinstance(a, int)
            for k, nn in ((False, True), (True, True))]


@contract('C03', cfg_c03s)
def boot_corr(run):
    g = run.cfg
    R, n, c, ns = boot_settings(run, g['skip'])
    run.world()
    ex = dims(g['rank'])
    a, b = run.data('f', ex, nan=g['nan']), run.data('o', ex, nan=g['nan'])
    got = run.w.load('utils_special_boot').corr(a, b, g['axis'], ns)
    interval(run, 'correlation', got, [lambda ix: at(a, ix), lambda ix: at(b, ix)], ex, sorted(g['cov']), R, n, c, g['skip'], pairs_stat, g['skip'])
    run.frame()


def brier_stat(j):
    from .contracts_d import brier_parts

    def stat(es, bs, skip):
        (b, n), = bs

        def sub(t):
            return lambda ix: T.subst(t, {b: ix[0]})
        return brier_parts(sub(es[0][0]), sub(T.lt(T.const(0), C.tonum(es[1][0]))), [n])[j], FALSE
    return stat


@contract('C03', lambda tier: [c for c in cfg_c03s(tier) if tier == 'thorough' or c['rank'] < 3 or (not c['skip'] and len(c['cov']) == 2)])
def boot_brier(run):
    g = run.cfg
    R, n, c, ns = boot_settings(run, g['skip'])
    run.world()
    ex = dims(g['rank'])
    p, e = run.data('p', ex, lo=0, hi=1), run.data('e', ex, kind='bool')
    got = run.w.load('utils_special_boot').brier_decomp(p, e, g['axis'], ns)
    run.goal('three parts', TRUE if len(got) == 3 else FALSE)
    for j, name in enumerate(('reliability', 'resolution', 'uncertainty')):
        interval(run, name, got[j], [lambda ix: at(p, ix), lambda ix: at(e, ix)], ex, sorted(g['cov']), R, n, c, g['skip'], brier_stat(j), g['skip'])
    run.frame()


def cfg_c03g(tier):
    return [dict(rank=r, axis=a, cov=s, skip=k, bins=nb) for r in ranks(tier) for a, s in axis_forms(r, 'quick') if s and not isinstance(a, int)
            for k in (False, True) for nb in ('n',)]


@contract('C03', cfg_c03g)
def boot_spread_skill(run):
    g = run.cfg
    R, n, c, ns = boot_settings(run, g['skip'])
    run.world()
    ex = dims(g['rank'])
    cov = sorted(g['cov'])
    keep = [x for x in range(g['rank']) if x not in cov]
    va, se = run.data('va', ex, nan=g['skip'], lo=0), run.data('se', ex, nan=g['skip'], lo=0)
    nb = nat('Ngroups', 1) if g['bins'] == 'n' else g['bins']
    nt = C.lift(nb)[0]
    if not C.branch(T.le(nt, T.mul(*[ex[x] for x in cov]))):
        return
    got = run.w.load('utils_ss').binned_spread_skill(va, se, nb, g['axis'], boot_samples=ns)
    run.goal('two parts', TRUE if len(got) == 2 else FALSE)
    sx = [ex[x] for x in cov]
    N = T.mul(*sx)
    q = T.uf('idiv', (N, nt), 'I')
    rem = T.sub(N, T.mul(q, nt))
    vf = va.fn()
    for k, (name, data) in enumerate((('spread', va), ('rmse', se))):
        a = C.as_arr(got[k])
        if a.ndim != len(keep) + 2:
            run.goal(name + ': number of axes', FALSE)
            continue
        idx = [T.fresh('i') for _ in a.exts]
        recs = [d for d, _ in used_draws(a.fn()(tuple(idx[:-1] + [T.const(1)]))[0])]
        if not recs:
            run.goal(name + ': cases are drawn', FALSE)
            continue
        if len(recs) > 1 or recs[0]['kind'] != 'randint' or recs[0].get('low') is None or recs[0].get('guard') is not None:
            raise C.Unsupported('drawn in another way')
        d = recs[0]
        rv, bv, gv = T.fresh('r'), T.fresh('b'), T.fresh('g')
        kv = [T.fresh('k') for _ in keep]
        where = {R: rv, n: bv, nt: gv}
        where.update({ex[x]: t for x, t in zip(keep, kv)})
        args = []
        for e in d['lve'] + [e for x in d['axes'] for e in x]:
            if e not in where:
                raise C.Unsupported('a draw under another loop')
            args.append(where[e])
        size = T.add(q, T.ind(T.lt(gv, rem)))
        m = dict(zip(d['lv'], args))
        H = in_range([gv] + kv, [nt] + [ex[x] for x in keep])
        run.goal(name + ': cases drawn from the whole group', T.and_(T.eq(T.subst(d['low'], m), T.const(0)), T.eq(T.subst(d['high'], m), size)), H)

        def spec(idx):
            kk, gg, j = tuple(idx[:-2]), idx[-2], int(T.cval(idx[-1]))
            m = dict(zip(kv, kk))
            m[gv] = gg
            D = T.uf(d['name'] + '.0', tuple(T.subst(t, m) for t in args), 'I')
            start = T.add(T.mul(gg, q), T.min_(gg, rem))
            vs = tuple(T.fresh('s') for _ in sx)
            e = vf(cell(g['rank'], keep, kk, vs))
            pos = vs[0] if len(vs) == 1 else C.recombine(vs, tuple(sx), (N,))[0]
            o = T.bind('argsort', list(zip(vs, sx)), [e[0], e[1], pos], [T.add(start, D)])
            case = cell(g['rank'], keep, kk, (o,) if len(sx) == 1 else C.divmod_parts(o, tuple(sx)))
            v, nan = mean_term([(bv, n)], at(data, case), g['skip'])
            bs = [(rv, R)]
            nn = T.bind('exists', bs, [nan])
            if j == 1:
                return T.sqrt(T.div(T.sum_(bs, v), R)), nn
            qq = T.div(T.sub(T.const(1), c) if j == 0 else T.add(T.const(1), c), T.const(2))
            return T.sqrt(T.bind('quantile', bs, [TRUE, v], [qq])), nn
        run.same(name, a, arr([ex[x] for x in keep] + [nt, T.const(3)], spec))
    run.frame()


# ---------------------------------------------------------------- C03: reliability diagrams
def cfg_c03r(tier):
    return [dict(rank=r, axis=a, bins=nb, skip=k) for r in ranks(tier) for a, s in axis_forms(r, 'quick') if len(s) == r and not isinstance(a, int)
            for nb in (1, 2) + ((4,) if tier == 'thorough' else ()) for k in (False, True)]


@contract('C03', cfg_c03r)
def boot_reliability(run):
    """each non-empty bin's interval comes from replicates drawn, with replacement, from the cases of that very bin"""
    from .contracts_d import in_bin, diagram, PARTS
    g = run.cfg
    R, n, c, ns = boot_settings(run, g['skip'])
    run.world()
    ex = dims(g['rank'])
    p = run.data('p', ex, lo=0, hi=1)
    e = run.data('e', ex, kind='bool')
    nt = T.const(g['bins'])
    got = run.w.load('utils_verify').reliability_diagram(p, e, g['bins'], g['axis'], boot_samples=ns)
    run.goal('four parts', TRUE if len(got) == 4 else FALSE)
    vs = [(T.fresh('s'), x) for x in ex]
    at_vs = tuple(v for v, _ in vs)
    y = T.div(T.mul(at(p, at_vs)[0], nt), T.const(1 + Fraction(1, 10 ** 8)))

    def member(k):
        return T.eq(T.uf('trunc', (y,), 'I'), T.const(k))
    H = in_range(at_vs, ex)
    for k in range(g['bins'] + 1):
        run.goal('lemma: the whole part is the bin', T.not_(in_bin(at(p, at_vs)[0], nt, T.const(k))), H + [T.not_(member(k))])
        run.goal('lemma: the bin is the whole part', in_bin(at(p, at_vs)[0], nt, T.const(k)), H + [member(k)])
    run.goal('lemma: nothing beyond the last bin', T.not_(member(g['bins'])), H)
    filled = [k for k in range(g['bins'] + 1) if C.branch(T.lt(T.const(0), T.sum_(vs, T.ind(member(k)))))]
    if not filled or g['bins'] in filled:
        return                                   # excluded by the lemmas (extents are at least 1)
    want = diagram(lambda ix: at(p, ix)[0], lambda ix: at(e, ix)[0], ex, nt)
    for k in (2, 3):
        run.same(PARTS[k], counts_array(got[k]), want[k])
    for k, (name, val) in enumerate((('mean probability', lambda ix: at(p, ix)[0]), ('event frequency', lambda ix: C.tonum(at(e, ix)[0])))):
        a = C.as_arr(got[k])
        ok = a.ndim == 2 and a.guard is None and a.axes[1] == (T.const(3),)
        run.goal(name + ': three numbers per filled bin', T.eq(T.mul(*a.axes[0]), T.const(len(filled))) if ok else FALSE)
        if not ok:
            continue
        for row, b in enumerate(filled):
            f = a.fn()
            ix = (T.const(row),) if len(a.axes[0]) == 1 else ()
            mid = f(ix + (T.const(1),))
            recs = [d for d, _ in used_draws(mid[0])]
            if not recs:
                run.goal('%s, bin %d: cases are drawn' % (name, b), FALSE)
                continue
            if len(recs) > 1:
                raise C.Unsupported('several draws in a replicate')
            d = recs[0]
            run.goal('%s, bin %d: drawn with replacement' % (name, b), TRUE if d['kind'] == 'choice' and d.get('replace', True) else FALSE)
            if tuple(d['exts']) != tuple(ex) or d.get('guard') is None:
                raise C.Unsupported('drawn in another way')
            case = tuple(T.fresh('s') for _ in ex)
            run.goal('%s, bin %d: drawn from the cases of the bin' % (name, b),
                     d['guard'](case), in_range(case, ex) + [T.subst(member(b), dict(zip(at_vs, case)))])
            run.goal('%s, bin %d: drawn from no other cases' % (name, b),
                     T.not_(d['guard'](case)), in_range(case, ex) + [T.not_(T.subst(member(b), dict(zip(at_vs, case))))])
            rv, bv = T.fresh('r'), T.fresh('b')
            s = drawn_index(d, {R: rv, n: bv}, list(range(g['rank'])), ex)
            v = T.div(T.sum_([(bv, n)], val(tuple(s))), n)
            for j in range(3):
                q = T.div(T.sub(T.const(1), c) if j == 0 else T.add(T.const(1), c), T.const(2))
                spec = T.div(T.sum_([(rv, R)], v), R) if j == 1 else T.bind('quantile', [(rv, R)], [TRUE, v], [q])
                run.eqnum('%s, bin %d: %s' % (name, b, ('lower', 'mean', 'upper')[j]), f(ix + (T.const(j),)), (spec, FALSE))
    run.frame()


def cfg_c03k(tier):
    return [dict(rank=r, axis=a, bins=nb) for r in (ranks(tier) if tier != 'quick' else (2, 3)) for a, s in axis_forms(r, tier)
            if 0 < len(s) < r and a is not None and not isinstance(a, int) for nb in (5, 'n')]


@contract('C03', cfg_c03k)
def boot_reliability_kept(run):
    """the intervals of every kept cell are the aggregation of exactly the cases of that cell, with the sample size asked for"""
    from .contracts_d import PARTS
    g = run.cfg
    calls = []
    ex = dims(g['rank'])
    R, n, c, ns = boot_settings(run, False)
    run.world()
    n1, n2 = C.lift(nat('Nfilled', 1))[0], C.lift(nat('Nclasses', 1))[0]

    def stub(binids, y_prob, y_true, bins, n_samples=None, repeats=None, confidence=None, skip_nan=None):
        calls.append(1)
        a = [C.as_arr(x) for x in (binids, y_prob, y_true)]
        if any(x.ndim != 1 or x.guard is not None for x in a):
            raise C.Unsupported('slice of another form')
        fs = [x.fn() for x in a]
        run.goal('sample size handed on', T.eq(C.lift(n_samples)[0], n) if n_samples is not None else FALSE)

        def part(name, shape):
            def val(idx):
                vs = [(T.fresh('s'), e) for e in a[0].axes[0]]
                ix = tuple(v for v, _ in vs)
                return T.sum_(vs, T.uf(name, tuple(idx) + tuple(C.tonum(f(ix)[0]) for f in fs), 'R')), FALSE
            return arr(shape, val)
        from .contracts_d import Counts
        return part('Wp', [n1, T.const(3)]), part('We', [n1, T.const(3)]), Counts(part('Wc', [n1])), Counts(part('Wt', [n2]))
    run.world({('utils_verify', '_reliability_agg_boot_slice'): stub})
    p = run.data('p', ex, lo=0, hi=1)
    e = run.data('e', ex, kind='bool')
    nb = nat('Nbins', 1) if g['bins'] == 'n' else g['bins']
    nt = C.lift(nb)[0]
    got = run.w.load('utils_verify').reliability_diagram(p, e, nb, g['axis'], boot_samples=ns)
    if not calls:
        raise C.Unsupported('the aggregation of a slice is not where the contract expects it')
    r = g['rank']
    cov = sorted({x % r for x in g['axis']})
    keep = [x for x in range(r) if x not in cov]
    for k, (name, shape) in enumerate((('Wp', [n1, T.const(3)]), ('We', [n1, T.const(3)]), ('Wc', [n1]), ('Wt', [n2]))):
        def spec(idx):
            vs = [(T.fresh('s'), ex[x]) for x in cov]
            ix = cell(r, keep, idx[:len(keep)], [v for v, _ in vs])
            pv = at(p, ix)[0]
            y = T.div(T.mul(pv, nt), T.const(1 + Fraction(1, 10 ** 8)))
            return T.sum_(vs, T.uf(name, tuple(idx[len(keep):]) + (T.uf('trunc', (y,), 'I'), pv, T.ind(at(e, ix)[0])), 'R')), FALSE
        run.same(PARTS[k], counts_array(got[k]), arr([ex[x] for x in keep] + shape, spec))
    run.frame()
