"""Contracts: saved intermediates (what is stored under which name, and what is read back)."""
import itertools
import os
from .contracts import *
from .contracts import T, C, L, SArr, SNum, TRUE, FALSE
from .contracts_c import nat
from .contracts_f import CALLS, DETERM
from . import npmodel as M
from .vc import PathEnd

WORK = '/scratch/w'
SETTINGS = [dict(avg_axis=None, boot_samples=None), dict(avg_axis=(0,), boot_samples=None), dict(avg_axis=(-1,), boot_samples='n'), dict(avg_axis=None, boot_samples='n'),
            dict(avg_axis=(1,), boot_samples=None)]


def equal(run, label, a, b):
    """two results are the same value"""
    if not isinstance(a, L.Opaque) and not isinstance(b, L.Opaque) and hasattr(a, 'to_numpy') and hasattr(b, 'to_numpy'):
        a, b = a.to_numpy(), b.to_numpy()
    if isinstance(a, L.Opaque) or isinstance(b, L.Opaque):
        if not (isinstance(a, L.Opaque) and isinstance(b, L.Opaque)) or a.name != b.name:
            run.goal(label, FALSE)
        elif a is not b:
            equal(run, label + ' of', a.args, b.args)
    elif isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        run.goal(label, TRUE if len(a) == len(b) else FALSE)
        for k, (x, y) in enumerate(zip(a, b)):
            equal(run, '%s[%d]' % (label, k), x, y)
    elif isinstance(a, dict) and isinstance(b, dict):
        run.goal(label, TRUE if list(a) == list(b) else FALSE)
        for k in a:
            if k in b:
                equal(run, '%s[%s]' % (label, k), a[k], b[k])
    elif isinstance(a, SArr) or isinstance(b, SArr):
        run.same(label, a, b)
    elif C.is_scalar(a) and C.is_scalar(b):
        run.eqnum(label, C.lift(a)[:2], C.lift(b)[:2])
    else:
        run.goal(label, TRUE if a is b or type(a) is type(b) and a == b else FALSE)


def outcome(fn):
    """('ok', value) or ('raised', kind); equal calls draw equal random numbers"""
    M.reseed()
    try:
        return 'ok', fn()
    except (C.Unsupported, PathEnd):
        raise
    except Exception as e:
        if os.environ.get('PYVC_TB'):
            import traceback
            traceback.print_exc()
        return 'raised', type(e).__name__


def same_outcome(run, label, a, b):
    run.goal('%s: ends the same way (%s, %s)' % (label, a[0] if a[0] == 'ok' else a[1], b[0] if b[0] == 'ok' else b[1]), TRUE if a[0] == b[0] else FALSE)
    if a[0] == b[0] == 'ok':
        equal(run, label, a[1], b[1])


def content(f, p):
    """what a reader gets from the entry"""
    c = f.files[p]
    if c[0] != 'data' or len(c[1]) != 1 or not isinstance(c[1][0], tuple) or c[1][0][0] != 'pickle':
        raise C.Unsupported('entry written in another way')
    return c[1][0][1]


def entries(f):
    return {p: c for p, c in f.files.items() if p.startswith(WORK + '/')}


def arguments(run, kw, m, thr='t'):
    t = run.num(thr)
    if kw == 'pair':
        return dict(over=(t, run.num('p', lo=0, hi=1)), below=(None, None))
    if kw == 'nb':
        return dict(nbins=nat('Ngroups', 1))
    if isinstance(kw, str):
        return {kw: t}
    return dict(kw)


def saving(run):
    C.CUR.fs = L.GhostFS()
    C.CUR.fs.dirs |= {'/', '/scratch', WORK}
    return C.CUR.fs


def set_env(run, skip=False):
    run.env(skip_nan=skip, ens_to_prob_method='moments', boot_repeats=nat('Nrep', 1), boot_confidence=run.num('c', lo=0, hi=1, lo_open=True, hi_open=True))


# ---------------------------------------------------------------- C22
NOBOOT = {'reliability'}


def cfg_c22(tier):
    out = []
    for cls in ALL:
        for i, (m, kw) in enumerate(CALLS):
            if cls == 'Determ' and m not in DETERM or m == 'pit' and cls == 'Ensemble' or m == 'prob_to_ens':
                continue
            for members in ((False, True) if cls not in ('Determ', 'Ensemble') and m in ('crps', 'rank_hist', 'spread') else (False,)):
                if m == 'spread' and cls not in ('Ensemble',) and not members:
                    continue
                pairs = [(1, 0), (0, 2), (2, 1)] if m in ('error', 'crps', 'corr') else [(2, 1)]
                if tier == 'thorough':
                    pairs = list(itertools.permutations(range(len(SETTINGS)), 2)) + [(k, k) for k in range(len(SETTINGS))]
                if m == 'reliability':
                    pairs = [(0, 0)]
                if m == 'binned_spread_skill' and tier == 'quick':
                    pairs = [(1, 0), (4, 1)]
                elif m in ('corr', 'brier_decomp', 'iou_determ', 'iou_prob', 'reliability') and tier == 'quick':
                    pairs = pairs + [(4, 1)]
                for a, b in pairs:
                    out.append(dict(cls=cls, call=i, m=m, members=members, first=SETTINGS[a], then=SETTINGS[b], rank=2, _full=tier == 'thorough',
                                    _hints=hint(cls=cls)))
    return out


@contract('C22', cfg_c22)
def saved_equals_unsaved(run):
    """induction step over call histories: whatever subset of the entries a call with other aggregation settings has left (through the same
    verifier or an earlier one), the call returns what it returns without saving, and stores under a name what is already stored there"""
    g = run.cfg
    set_env(run)
    if g['m'] == 'reliability' and g['first'] != g['then']:
        # caller against the callee's contract (C13): aggregation is a function of the bins, pairs and bounds it is handed
        run.world({**(STUB if g['cls'] == 'Hurdle' else {}),
                   ('Verify', '_reliability_agg_no_boot'): lambda *a, **kw: L.Opaque('bin aggregation', list(a) + [kw[k] for k in sorted(kw)])})
    v = V(run, g['cls'], g['rank'])
    if g['members']:
        v.kw.update(n_sample_members=nat('Ns', 1))
    n = nat('Nsamp', 1)
    name, kw = CALLS[g['call']]
    kw = arguments(run, kw, name)

    def opts(s):
        return {k: n if x == 'n' else x for k, x in s.items()}
    s1, s2 = opts(g['first']), opts(g['then'])
    f = saving(run)
    want = outcome(lambda: getattr(v.make(**s2), name)(**kw))
    run.goal('nothing saved with saving off', FALSE if entries(f) else TRUE)
    ver = v.make(working_directory=WORK, start_from_scratch=False, **s1)
    outcome(lambda: getattr(ver, name)(**kw))
    have = entries(f)
    random = g['members']
    small = not g['_full'] and len(have) > 2
    subsets = [c for k in range(len(have) + 1) for c in itertools.combinations(sorted(have), k)]
    for keep in subsets:
        if random and 0 < len(keep) < len(have) or small and len(keep) not in (0, 1, len(have)):
            continue
        f.files.clear()
        f.files.update({p: have[p] for p in keep})
        w = v.make(working_directory=WORK, start_from_scratch=False, **s2)
        lab = 'with entries %s of other aggregation settings' % ', '.join(p.rsplit('/', 1)[-1].split('\u27e6')[0] for p in keep)
        got = outcome(lambda: getattr(w, name)(**kw))
        same_outcome(run, 'result ' + lab, got, want)
        for p in entries(f):
            if p in have:
                equal(run, 'stored under one name', content(f, p), content_of(have[p]))
    # the same verifier, changed in place
    f.files.clear()
    f.files.update(have)
    ver.set_avg_axis(s2['avg_axis'])
    if s2['boot_samples'] is None:
        ver.disable_boot()
    else:
        ver.set_boot_samples(s2['boot_samples'])
    got = outcome(lambda: getattr(ver, name)(**kw))
    same_outcome(run, 'result after the setters', got, want)
    got = outcome(lambda: getattr(ver, name)(**kw))
    same_outcome(run, 'result when asked again', got, want)
    ver.disable_saving()
    mark = len(f.log)
    got = outcome(lambda: getattr(ver, name)(**kw))
    same_outcome(run, 'result after saving was disabled', got, want)
    run.goal('nothing saved after saving was disabled', TRUE if len(f.log) == mark else FALSE)
    run.frame()


def content_of(c):
    if c[0] != 'data' or len(c[1]) != 1:
        raise C.Unsupported('entry written in another way')
    return c[1][0][1]


# -- file names: different calls, different names
DIGITS = '0123456789'


def number_nfa():
    """automaton of the texts Python prints for floats: states -> {char: states}"""
    d = {c: {2} for c in DIGITS}
    return {0: {**d, '-': {1}, 'i': {8}, 'n': {10}}, 1: {**d, 'i': {8}}, 2: {**d, '.': {3}, 'e': {5}}, 3: {c: {4} for c in DIGITS},
            4: {**{c: {4} for c in DIGITS}, 'e': {5}}, 5: {**{c: {7} for c in DIGITS}, '+': {6}, '-': {6}}, 6: {c: {7} for c in DIGITS},
            7: {c: {7} for c in DIGITS}, 8: {'n': {9}}, 9: {'f': {12}}, 10: {'a': {11}}, 11: {'n': {12}}, 12: {}}, {4, 7, 12}


def array_nfa():
    chars = DIGITS + '+-.einfa,[]_'
    return {0: {'[': {1}}, 1: {**{c: {1} for c in chars}, ']': {1, 2}}, 2: {}}, {2}


def int_nfa():
    return {0: {**{c: {1} for c in DIGITS}, '-': {2}}, 1: {c: {1} for c in DIGITS}, 2: {c: {1} for c in DIGITS}}, {1}


def pieces(s):
    """a name as literal pieces and tokens"""
    out, k = [], 0
    while k < len(s):
        if s[k] == '\u27e6':
            e = s.index('\u27e7', k)
            out.append(s[k:e + 1])
            k = e + 1
        else:
            e = s.find('\u27e6', k)
            e = len(s) if e < 0 else e
            out.append(s[k:e])
            k = e
    return out


def skeleton(s):
    return tuple(kind(p) if p[0] == '\u27e6' else p for p in pieces(s))


def kind(p):
    if p[1] == 'v':
        return ('int',) if C.from_token(p).kind == 'int' else ('float',)
    if p[1] == 'a':
        return ('array',)
    raise C.Unsupported('text in a name')


def compile_nfa(s):
    """-> (transitions state -> {char: {states}}, start set, accepting set)"""
    tr, cur, n = {}, {0}, 1
    tr[0] = {}
    for p in skeleton(s):
        if isinstance(p, str):
            for ch in p:
                for c in cur:
                    tr.setdefault(c, {}).setdefault(ch, set()).add(n)
                tr.setdefault(n, {})
                cur = {n}
                n += 1
        else:
            a, acc = {'int': int_nfa, 'float': number_nfa, 'array': array_nfa}[p[0]]()
            m = {q: n + q for q in a}
            n += len(a)
            for q, d in a.items():
                t = tr.setdefault(m[q], {})
                for ch, rs in d.items():
                    t.setdefault(ch, set()).update(m[r] for r in rs)
            for c in cur:                      # enter: copy the start state's moves
                for ch, rs in a[0].items():
                    tr.setdefault(c, {}).setdefault(ch, set()).update(m[r] for r in rs)
            cur = {m[q] for q in acc}
    return tr, {0}, cur


def can_coincide(a, b):
    """some text belongs to both patterns"""
    (ta, sa, fa), (tb, sb, fb) = compile_nfa(a), compile_nfa(b)
    seen, work = set(), [(x, y) for x in sa for y in sb]
    while work:
        x, y = work.pop()
        if (x, y) in seen:
            continue
        seen.add((x, y))
        if x in fa and y in fb:
            return True
        for ch, xs in ta.get(x, {}).items():
            for y2 in tb.get(y, {}).get(ch, ()):
                work.extend((x2, y2) for x2 in xs)
    return False


def flat_terms(x):
    if isinstance(x, SNum):
        return [x.v]
    if isinstance(x, (list, tuple)):
        return [t for y in x for t in flat_terms(y)]
    if isinstance(x, SArr):
        return flat_terms(x.tolist())
    return []


def cfg_c22n(tier):
    return [dict(cls=cls, shape=s, _hints=hint(cls=cls)) for cls in ALL for s in ((3,), (1, 2)) if tier == 'thorough' or len(s) == 1]


def np_prod(s):
    k = 1
    for x in s:
        k *= x
    return k


@contract('C22', cfg_c22n)
def names_differ(run):
    """calls that differ in metric, threshold or number of bins have different names, whatever the numbers"""
    g = run.cfg
    cls = g['cls']
    set_env(run)
    ex = [T.const(k) for k in g['shape']]
    ex_size = int(np_prod(g['shape']))
    # only the names matter: the decomposition is a function of what it is handed (C12)
    run.world({**(STUB if cls == 'Hurdle' else {}),
               **{(m, 'brier_decomp'): lambda *a, **kw: L.Opaque('decomposition', list(a) + [kw[k] for k in sorted(kw)])
                  for m in ('VerifyDeterm', 'VerifyEnsemble', 'VerifyProb', 'VerifyProbGaussian', 'VerifyProbGamma', 'VerifyProbGammaHurdle')}})
    v = V(run, cls, len(ex), ex=ex)
    f = saving(run)
    floats = {k: run.num(k) for k in ('t', 'u')}
    ints = {k: run.num(k, 'int') for k in ('it', 'iu')}
    arrays = {k: run.np.array([run.num('%s%d' % (k, j)) for j in range(ex_size)]).reshape(g['shape']) for k in ('ta', 'tb')}
    ps = {'p': run.num('p'), 'q': run.num('q')}
    bins = {'n1': nat('Nbin1', 1), 'n2': nat('Nbin2', 1)}
    for x in ps.values():
        C.CUR.assume(T.and_(T.le(T.const(0), x.v), T.le(x.v, T.const(1))))
    for b in bins.values():
        C.CUR.assume(T.le(C.lift(b)[0], T.const(np_prod(g['shape']))))
    forms = []                                   # (two argument lists of one form)
    for m, kw in CALLS:
        if cls == 'Determ' and m not in DETERM or m == 'pit' and cls == 'Ensemble' or m == 'prob_to_ens':
            continue
        if kw == 'pair':
            for side, other in (('over', 'below'), ('below', 'over')):
                forms.append((m, side, [{side: (floats[t], ps[p]), other: (None, None)} for t, p in (('t', 'p'), ('u', 'q'))]))
        elif kw == 'nb':
            forms.append((m, 'nbins', [{'nbins': bins[k]} for k in ('n1', 'n2')]))
        elif isinstance(kw, str):
            for nm, pool in (('float', floats),) + ((('int', ints),) if m in ('cdf', 'brier', 'iou_determ') else ()) + ((('array', arrays),) if m in ('cdf', 'brier', 'sharpness') else ()):
                if m == 'reliability' and nm == 'float':
                    forms.append((m, kw + ' nbins', [{kw: x, 'nbins': b} for x, b in zip(pool.values(), bins.values())]))
                elif m != 'reliability':
                    forms.append((m, kw + ' ' + nm, [{kw: x} for x in pool.values()]))
        else:
            forms.append((m, '', [dict(kw)]))
    forms = list({(m, n): (m, n, a) for m, n, a in forms}.values())
    made = []                                    # (metric, form, number, arguments, own names)
    for m, n, args in forms:
        for k, kw in enumerate(args):
            for cur in (dict(avg_axis=None), dict(avg_axis=(0,), boot_samples=nat('Nsamp', 1))):
                if m not in ('corr', 'brier_decomp', 'error', 'crps', 'iou_determ') and cur['avg_axis'] is not None:
                    continue
                f.files.clear()
                w = v.make(working_directory=WORK, start_from_scratch=False, **cur)
                M.reseed()
                try:
                    getattr(w, m)(**kw)
                except (C.Unsupported, PathEnd):
                    raise
                except Exception:
                    if os.environ.get('PYVC_TB'):
                        import traceback
                        traceback.print_exc()
                    continue
                for p in entries(f):
                    made.append((m, n, k, kw, p, content_of(f.files[p])))
    run.goal('some entries are stored', TRUE if made else FALSE)
    first, compared = {}, set()
    for m, n, k, kw, p, c in made:
        if p not in first:
            first[p] = (m, n, c, k, kw)
        elif (m, n, p) not in compared and (m, n, k) != first[p][:2] + first[p][3:4]:
            compared.add((m, n, p))
            equal(run, 'entry shared by %s %s and %s %s' % (first[p][:2] + (m, n)), c, first[p][2])
    for (p1, (m1, n1, c1, _, w1)), (p2, (m2, n2, c2, _, w2)) in itertools.combinations(first.items(), 2):
        lab = '%s %s and %s %s' % (m1, n1, m2, n2)
        if skeleton(p1) == skeleton(p2):
            ta = [C.lift(C.from_token(p))[0] if kind(p) != ('array',) else None for p in pieces(p1) if p[0] == '\u27e6']
            tb = [C.lift(C.from_token(p))[0] if kind(p) != ('array',) else None for p in pieces(p2) if p[0] == '\u27e6']
            if None in ta + tb:
                raise C.Unsupported('array as text in a name')
            H = list(zip(ta, tb))
            cells_equal(run, 'one name, one content: ' + lab, c1, c2, H, m1 == m2 and (w1, w2))
        else:
            run.goal('different names: ' + lab, FALSE if can_coincide(p1, p2) else TRUE)
    run.soft = False


def mapped(x, m):
    """the value with numbers replaced"""
    if isinstance(x, SArr):
        f, gd = x.fn(), x.guard

        def sub(e):
            return T.subst(e[0], m), T.subst(e[1], m)
        return SArr.new([tuple(T.subst(e, m) for e in a) for a in x.axes], lambda idx: sub(f(idx)), x.kind, (lambda idx: T.subst(gd(idx), m)) if gd is not None else None)
    if isinstance(x, SNum):
        return SNum(T.subst(x.v, m), T.subst(x.nan, m), x.kind)
    if isinstance(x, dict):
        return {k: mapped(y, m) for k, y in x.items()}
    if isinstance(x, (tuple, list)):
        return [mapped(y, m) for y in x]
    if isinstance(x, L.Opaque):
        return L.Opaque(x.name, mapped(x.args, m))
    if hasattr(x, 'to_numpy'):
        return mapped(x.to_numpy(), m)
    return x


def cells_equal(run, label, a, b, H, calls=None):
    """the contents agree when the hypotheses (equal numbers in the names) hold"""
    m = {}
    for x, y in H:
        x, y = T.subst(x, m), T.subst(y, m)
        if T.eq(x, y) is FALSE:
            run.goal(label, TRUE)
            return
        if x is y:
            continue
        if y.op not in ('var', 'uf'):
            x, y = y, x
        if y.op not in ('var', 'uf'):
            raise C.Unsupported('a computed number in a name')
        m[y] = x
    if calls and all(set(x) == set(calls[1]) for x in calls):
        x, y = ([flat_terms(mapped(w[k], m)) for k in sorted(w)] for w in calls)
        if x == y:
            run.goal(label + ' (the same call)', TRUE)
            return
    equal(run, label, mapped(a, m), mapped(b, m))


def cfg_c22l(tier):
    return [dict(cls=cls, m=m, side=side, _hints=hint(cls=cls)) for cls in ALL if cls != 'Determ' for m in ('cdf', 'brier', 'sharpness') for side in ('over', 'below')]


@contract('C22', cfg_c22l)
def long_arrays(run):
    """thresholds of more than five elements are never part of a name: another array in the same directory gives its own result"""
    g = run.cfg
    set_env(run)
    v = V(run, g['cls'], 1, ex=[T.add(T.var('Na', 'I'), T.const(5))])
    f = saving(run)
    a, b = run.data('ta', v.ex), run.data('tb', v.ex)
    want = outcome(lambda: getattr(v.make(avg_axis=()), g['m'])(**{g['side']: b}))
    w = v.make(working_directory=WORK, start_from_scratch=False, avg_axis=())
    outcome(lambda: getattr(w, g['m'])(**{g['side']: a}))
    got = outcome(lambda: getattr(w, g['m'])(**{g['side']: b}))
    same_outcome(run, 'second array', got, want)
    run.goal('no entry for an array', FALSE if entries(f) else TRUE)
    run.frame()
