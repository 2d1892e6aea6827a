"""Contracts: text export, settings, station coordinates, validation."""
import itertools
import os
import re
from .contracts import *
from .contracts import T, C, L, SArr, SNum, TRUE, FALSE
from .contracts_c import nat, StubVerifier
from .contracts_f import CALLS, DETERM
from .contracts_i import outcome, same_outcome, equal, arguments, set_env
from .contracts_j import methods
from . import loader as LD
from . import smt
from . import npmodel as M
from .vc import PathEnd


# ---------------------------------------------------------------- C26
def stream(parts):
    """written pieces -> ('lit', text) | ('num', value) | ('rep', extents, variables, pieces, separator)"""
    out = []

    def lit(s):
        if s:
            if out and out[-1][0] == 'lit':
                out[-1] = ('lit', out[-1][1] + s)
            else:
                out.append(('lit', s))
    for p in parts:
        if isinstance(p, tuple) and p and p[0] == 'lines':
            l = p[1]
            if l.guard is not None or l.unordered:
                raise C.Unsupported('filtered lines')
            vs = tuple(T.fresh('i') for _ in l.exts)
            out.append(('rep', l.exts, vs, stream([l.item(vs)]), ''))
            continue
        if not isinstance(p, str):
            raise C.Unsupported('written object')
        k = 0
        for m in C._TOKRE.finditer(p):
            lit(p[k:m.start()])
            k = m.end()
            t = m.group(1)
            if t in C._TOK:
                out.append(('num', C._TOK[t]))
            elif t in C._SOBJ and C._SOBJ[t][0] == 'join':
                _, sep, exts, vs, s = C._SOBJ[t]
                out.append(('rep', exts, vs, stream([s]), sep))
            elif t in C._SOBJ:
                out.append(('num', choose(C._SOBJ[t][1])))
            else:
                raise C.Unsupported('text of an array')
        lit(p[k:])
    return out


def choose(cases):
    """number a conditional text stands for"""
    r = None
    for c, s in reversed(cases):
        x = stream([s])
        if len(x) != 1:
            raise C.Unsupported('conditional text')
        if x[0][0] == 'num':
            e = C.lift(x[0][1])
        elif x[0][1] == 'nan':
            e = (T.const(0), TRUE, 'float')
        else:
            raise C.Unsupported('conditional text')
        r = e if r is None else (*C.e_ite(c, e[:2], r[:2]), e[2])
    return C.snum(r[:2], 'float')


def cfg_c26(tier):
    return [dict(kind=k, there=t, over=o, given=gv) for k in ('float', 'int', 'nan') for t in (False, True) for o in (False, True) for gv in (True, False) if gv or not o]


@contract('C26', cfg_c26)
def matrix_text(run):
    g = run.cfg
    run.world()
    f = C.CUR.fs = L.GhostFS()
    f.dirs |= {'/', '/scratch'}
    path = '/scratch/m.txt'
    f.files['/scratch/other.txt'] = ('data', ['x'])
    if g['there']:
        f.files[path] = ('data', ['old content'])
    before = dict(f.files)
    ex = dims(2)
    m = run.data('m', ex, nan=g['kind'] == 'nan', kind='int' if g['kind'] == 'int' else 'float')
    write = run.w.load('Grid').write_matrix
    kw = {'overwrite': g['over']} if g['given'] else {}
    if g['there'] and not g['over']:
        run.rejects('an existing file', lambda: write(path, m, **kw))
        run.goal('an existing file is left as it was', TRUE if f.files == before and not f.log else FALSE)
        return
    write(path, m, **kw)
    run.goal('the file is written', TRUE if f.files.get(path, ('', 0))[0] == 'data' else FALSE)
    run.goal('no other file is touched', TRUE if {k: v for k, v in f.files.items() if k != path} == {k: v for k, v in before.items() if k != path} else FALSE)
    if path not in f.files or f.files[path][0] != 'data':
        return
    s = stream(f.files[path][1])
    shape = [x[0] for x in s]
    if shape != ['lit', 'num', 'lit', 'num', 'lit', 'rep', 'lit'] or [x[0] for x in s[5][3]] != ['lit', 'rep', 'lit'] or [x[0] for x in s[5][3][1][3]] != ['num']:
        raise C.Unsupported('text put together in another way')
    row = s[5]
    el = row[3][1]

    def text(label, got, want):
        run.goal('%s (%r)' % (label, got), TRUE if got.replace(' ', '') == want.replace(' ', '') else FALSE)
    text('header opens', s[0][1], '[')
    run.eqnum('header: number of rows', C.lift(s[1][1])[:2], (ex[0], FALSE))
    text('header separates', s[2][1], ', ')
    run.eqnum('header: number of columns', C.lift(s[3][1])[:2], (ex[1], FALSE))
    text('header and matrix open', s[4][1], ']\n(\n')
    text('matrix closes', s[6][1], ')')
    text('row opens', row[3][0][1], '(')
    text('row closes', row[3][2][1], '),\n')
    text('rows separate', row[4], '')
    text('elements separate', el[4], ', ')
    if len(row[1]) != 1 or len(el[1]) != 1:
        raise C.Unsupported('text put together in another way')
    run.goal('every row is written', T.eq(row[1][0], ex[0]))
    i, j = row[2][0], el[2][0]
    H = smt.bounds([i, j], ex)
    run.goal('every element of a row is written', T.eq(el[1][0], ex[1]), H[:2])
    run.eqnum('element', C.lift(el[3][0][1])[:2], at(m, (i, j)), H)
    run.goal('kind of number', TRUE if C.lift(el[3][0][1])[2] == m.kind else FALSE)
    run.frame()


def cfg_c26r(tier):
    return [dict(rank=r, over=o) for r in (1, 3) for o in (False, True)]


@contract('C26', cfg_c26r)
def only_matrices(run):
    """anything that is not a matrix is rejected before a file is touched"""
    g = run.cfg
    run.world()
    f = C.CUR.fs = L.GhostFS()
    f.files['/scratch/m.txt'] = ('data', ['old content'])
    m = run.data('m', dims(g['rank']))
    run.rejects('not a matrix', lambda: run.w.load('Grid').write_matrix('/scratch/m.txt', m, overwrite=g['over']))
    run.goal('the file is left as it was', TRUE if f.files == {'/scratch/m.txt': ('data', ['old content'])} and not f.log else FALSE)


# ---------------------------------------------------------------- C27
DEFAULTS = dict(LD.DEFAULT_ENV)
USER = ('user\u00b7value', '', 'False', '0', 'None')


def cfg_c27(tier):
    out = [dict(present='none'), dict(present='all'), dict(present='even'), dict(present='odd')]
    for k in DEFAULTS:
        out += [dict(present='only', key=k), dict(present='without', key=k)]
    return out


@contract('C27', cfg_c27)
def importing(run):
    g = run.cfg
    run.world()
    ks = list(DEFAULTS)
    have = {'none': [], 'all': ks, 'even': ks[::2], 'odd': ks[1::2], 'only': [g.get('key')], 'without': [k for k in ks if k != g.get('key')]}[g['present']]
    for user in USER:
        C.CUR.env.clear()
        C.CUR.env.update({k: user for k in have})
        C.CUR.env.update({'pyanen_unrelated': 'u', 'HOME': '/home/u'})
        w = LD.World(run.w.repo, {})
        w.load('__init__')
        now = C.CUR.env
        for k in ks:
            want = user if k in have else DEFAULTS[k]
            run.goal('%s after import (%r)' % (k, user if k in have else 'absent'), TRUE if now.get(k) == want else FALSE)
        run.goal('nothing else is set or removed', TRUE if {k: v for k, v in now.items() if k not in ks} == {'pyanen_unrelated': 'u', 'HOME': '/home/u'} else FALSE)


def settings_pair(run):
    """two different values of each setting: (a, b)"""
    def real(n):
        return run.num(n, lo=0, hi=1, lo_open=True, hi_open=True)
    return {'boot_samples': (nat('Nsa', 1), nat('Nsb', 1)), 'boot_repeats': (nat('Nra', 1), nat('Nrb', 1)),
            'boot_confidence': (real('ca'), real('cb')), 'skip_nan': (True, False),
            'kde_bandwidth': (run.num('ha', lo=0, lo_open=True), run.num('hb', lo=0, lo_open=True)), 'kde_kernel': ('gaussian', 'tophat'),
            'kde_samples': (nat('Nka', 2), nat('Nkb', 2)), 'kde_multiply_spread': (nat('Nma', 1), nat('Nmb', 1)),
            'tqdm_workers': (nat('Nwa', 2), nat('Nwb', 2)), 'tqdm_chunksize': (nat('Nca', 1), nat('Ncb', 1)),
            'integrate_with_less_memory': (True, False)}


BOOT = {'n_samples': 'boot_samples', 'repeats': 'boot_repeats', 'confidence': 'boot_confidence'}
ARGS = [
    ('utils_verify', 'boot_vec', BOOT, lambda f, d, kw: f(d['v'], **kw)),
    ('utils_verify', 'boot_arr', BOOT, lambda f, d, kw: f(d['a'], (0,), **kw)),
    ('utils_verify', 'boot_arr', BOOT, lambda f, d, kw: f(d['a'], None, **kw)),
    ('utils_special_boot', 'corr', {'repeats': 'boot_repeats', 'confidence': 'boot_confidence', 'skip_nan': 'skip_nan'}, lambda f, d, kw: f(d['a'], d['b'], (0,), d['n'], **kw)),
    ('utils_special_boot', 'corr', {'skip_nan': 'skip_nan'}, lambda f, d, kw: f(d['an'], d['bn'], (0,), **kw)),
    ('utils_special_boot', 'brier_decomp', {'repeats': 'boot_repeats', 'confidence': 'boot_confidence', 'skip_nan': 'skip_nan'}, lambda f, d, kw: f(d['p'], d['e'], None, d['n'], **kw)),
    ('utils_verify', 'ens_to_prob_kde', {'bandwidth': 'kde_bandwidth', 'kernel': 'kde_kernel', 'samples': 'kde_samples', 'spread_multiplier': 'kde_multiply_spread'},
     lambda f, d, kw: f(d['v1'], **kw)),
    ('utils_verify', '_reliability_agg_boot_slice', {**BOOT, 'skip_nan': 'skip_nan'}, lambda f, d, kw: f(*d['split'], **kw)),
    ('utils_ss', '_binned_spread_skill_agg_no_boot', {'skip_nan': 'skip_nan'}, lambda f, d, kw: f(*d['ss'], **kw)),
    ('utils_ss', '_binned_spread_skill_agg_boot', {**BOOT, 'skip_nan': 'skip_nan'}, lambda f, d, kw: f(*d['ss'], **kw)),
    ('utils_approximation', 'Integration', {'workers': 'tqdm_workers', 'chunksize': 'tqdm_chunksize', 'less_memory': 'integrate_with_less_memory'},
     lambda f, d, kw: f(StubVerifier(d['a']), integration_range=d['range'], nbins=d['nb'], **kw).crps()),
]


def cfg_c27a(tier):
    out = []
    for i, (mod, fn, keys, _) in enumerate(ARGS):
        for given in [(k,) for k in keys] + ([tuple(keys)] if len(keys) > 1 else []):
            for flip in ((False, True) if 'skip_nan' in given or 'less_memory' in given else (False,)):
                out.append(dict(fn=i, name=fn, given=given, flip=flip))
    return out


@contract('C27', cfg_c27a)
def arguments_win(run):
    """f(x=v) under settings that contradict v is f() under the setting v, read when the function is called"""
    g = run.cfg
    mod, fn, keys, call = ARGS[g['fn']]
    run.world()
    C.CUR.fs = L.GhostFS()
    ex = dims(2)
    vals = settings_pair(run)
    a, b = (1, 0) if g['flip'] else (0, 1)
    d = dict(a=run.data('a', ex), b=run.data('b', ex), n=nat('Nn', 1), v=run.data('v', ex[:1]), v1=run.data('w', [T.add(ex[0], T.const(1))]), nb=nat('Nbins', 2),
             p=run.data('p', ex, lo=0, hi=1), e=run.data('e', ex, kind='bool'), range=(run.num('lo'), run.num('hi')))
    d['an'], d['bn'] = run.data('an', ex, nan=True), run.data('bn', ex, nan=True)
    m = run.w.load(mod)
    run.env(skip_nan=False)
    if 'split' in call.__code__.co_consts:
        d['split'] = m._reliability_create_split(run.data('rp', ex[:1], lo=0, hi=1), run.data('re', ex[:1], kind='bool'), 3)
    if 'ss' in call.__code__.co_consts:
        d['ss'] = m._binned_spread_skill_create_split(run.data('sv', ex[:1], lo=0), run.data('se', ex[:1], lo=0), 1, None)
    f = getattr(m, fn)
    base = {k: vals[k][b] for k in keys.values()}

    def go(kw, env):
        run.env(**env)
        del C.CUR.events[:]
        r = outcome(lambda: call(f, d, kw))
        return r, [e for e in C.CUR.events if e[0] == 'pool']
    kw = {k: vals[keys[k]][a] for k in g['given']}
    want, wp = go({}, {**base, **{keys[k]: v for k, v in kw.items()}})
    got, gp = go(kw, base)
    same_outcome(run, 'given %s, other settings' % ', '.join(kw), got, want)
    run.goal('workers: as many pools', TRUE if len(gp) == len(wp) else FALSE)
    for x, y in zip(gp, wp):
        equal(run, 'workers and chunks', x[1:], y[1:])
    run.soft = True
    run.goal('the call returns', TRUE if want[0] == 'ok' else FALSE)
    run.soft = False
    run.frame()


def cfg_c27t(tier):
    out = []
    for cls in ALL:
        for m, kw in methods(cls):
            if m in ('binned_spread_skill', 'reliability'):
                continue
            for boot in ((False, True) if m in ('error', 'crps', 'corr') else (False,)):
                out.append(dict(cls=cls, m=m, arg=kw if isinstance(kw, str) else '', boot=boot, _hints=hint(cls=cls)))
    return out


@contract('C27', cfg_c27t)
def read_when_called(run):
    """settings changed after construction are the ones a metric uses"""
    g = run.cfg
    v = V(run, g['cls'], 2, nan=g['cls'] in ('Determ', 'Ensemble') and g['m'] in ('error', 'spread', 'variance', 'f_determ', 'corr'))
    if g['m'] in ('prob_to_ens', 'spread') and g['cls'] != 'Ensemble':
        v.kw.update(n_sample_members=nat('Ns', 1))
    s = dict(avg_axis=(0,), boot_samples=nat('Nn', 1) if g['boot'] else None)
    vals = settings_pair(run)
    A = {k: vals[k][0] for k in ('boot_repeats', 'boot_confidence', 'skip_nan')}
    B = {k: vals[k][1] for k in ('boot_repeats', 'boot_confidence', 'skip_nan')}
    if g['cls'] == 'Ensemble':
        A['split_crps_ensemble_along_0'], B['split_crps_ensemble_along_0'] = True, False
    kw = arguments(run, g['arg'] or {}, g['m'])
    for x, y, lab in ((A, B, 'second'), (B, A, 'first')):
        run.env(**x)
        ver = v.make(**s)
        outcome(lambda: getattr(ver, g['m'])(**kw))
        run.env(**y)
        got = outcome(lambda: getattr(ver, g['m'])(**kw))
        want = outcome(lambda: getattr(v.make(**s), g['m'])(**kw))
        same_outcome(run, 'with the %s settings' % lab, got, want)
