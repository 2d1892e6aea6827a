"""Contracts: station coordinates (C28), validation (C29)."""
import re as _re
from .contracts import *
from .contracts import T, C, L, SArr, SNum, TRUE, FALSE
from .contracts_c import nat
from .contracts_i import outcome
from . import loader as LD
from . import smt
from . import npmodel as M
from .vc import PathEnd


# ---------------------------------------------------------------- C28
class Digits:
    """regular expressions over a text that holds one non-negative integer as digits: the number of digits is
    a case distinction (1 .. 6, more), and parts of the digits are quotients and remainders of powers of ten"""
    MOST = 6

    def __init__(self):
        self.__dict__.update({k: getattr(_re, k) for k in ('I', 'IGNORECASE', 'escape', 'error')})

    def expand(self, s):
        toks = list(C._TOKRE.finditer(s))
        if not toks:
            return [(s, lambda x: x)]
        if len(toks) != 1 or toks[0].group(1) not in C._TOK:
            raise C.Unsupported('regular expression over several symbolic numbers')
        tok = toks[0]
        x = C._TOK[tok.group(1)]
        if x.kind != 'int' or x.nan is not FALSE:
            raise C.Unsupported('regular expression over a symbolic text')
        k = None
        for j in range(1, self.MOST + 1):
            if C.branch(T.lt(x.v, T.const(10 ** j))):
                k = j
                break
        out = []
        for j in ([k] if k else [self.MOST + 1, self.MOST + 5]):
            for d in ('7205183649175', '9999999999999', '1000000000000' if j > 1 else '0'):
                d = d[:j]
                lo = tok.start()
                out.append((s[:lo] + d + s[tok.end():], (lo, lo + len(d), tok.group(0), x, k)))
        return out

    def cut(self, lo, hi, info):
        """the text between two positions"""
        a, b, tok, x, k = info
        if hi <= a or lo >= b or lo == hi:
            return None
        l, h = max(lo, a), min(hi, b)
        if (l, h) == (a, b):
            return tok
        if k is None:
            raise C.Unsupported('a part of the digits')
        # digits l-a .. h-a of k digits
        q = x if h == b else x // 10 ** (b - h)
        if l > a:
            m = 10 ** (h - l)
            q = q - m * (q // m)
        return C.token(q) if isinstance(q, SNum) else str(q)

    def text(self, s, lo, hi, info):
        if lo < 0:
            return None
        if not isinstance(info, tuple):
            return s[lo:hi]
        t = self.cut(lo, hi, info)
        if t is None:
            return s[lo:hi]
        return s[lo:max(lo, info[0])] + t + s[min(hi, info[1]):hi]

    def uniform(self, f, s):
        r = [f(*y) for y in self.expand(s)]
        if any(x != r[0] for x in r):
            raise C.Unsupported('the pattern depends on the digits')
        return r[0]

    def findall(self, p, s, flags=0):
        def one(u, info):
            out = []
            for m in _re.finditer(p, u, flags):
                g = [self.text(u, *m.span(k + 1), info) or '' for k in range(m.re.groups)]
                out.append(self.text(u, *m.span(), info) if not g else g[0] if len(g) == 1 else tuple(g))
            return out
        return self.uniform(one, s)

    def _one(self, how, p, s, flags):
        def one(u, info):
            m = how(p, u, flags)
            return None if m is None else tuple([self.text(u, *m.span(k), info) for k in range(m.re.groups + 1)] + [m.groupdict() and None])
        r = self.uniform(one, s)
        return None if r is None else Found(r[:-1])

    def search(self, p, s, flags=0):
        return self._one(_re.search, p, s, flags)

    def match(self, p, s, flags=0):
        return self._one(_re.match, p, s, flags)

    def fullmatch(self, p, s, flags=0):
        return self._one(_re.fullmatch, p, s, flags)

    def finditer(self, p, s, flags=0):
        def one(u, info):
            return [tuple(self.text(u, *m.span(k), info) for k in range(m.re.groups + 1)) for m in _re.finditer(p, u, flags)]
        return [Found(x) for x in self.uniform(one, s)]

    def compile(self, p, flags=0):
        d = self

        class Pat:
            pattern = p

            def __getattr__(self, nm):
                return lambda s: getattr(d, nm)(p, s, flags)
        return Pat()

    def __getattr__(self, nm):
        raise C.Unsupported('re.' + nm)


class Found:
    def __init__(self, g):
        self.g = g

    def group(self, *k):
        k = k or (0,)
        return self.g[k[0]] if len(k) == 1 else tuple(self.g[i] for i in k)

    def __getitem__(self, k):
        return self.g[k]

    def groups(self):
        return tuple(self.g[1:])


class Coords(dict):
    def __init__(self, ds):
        self.ds = ds

    def __setitem__(self, k, v):
        self.ds.changed.append(k)
        dict.__setitem__(self, k, v)

    def update(self, kw):
        for k, v in kw.items():
            self[k] = v


class Variable:
    def __init__(self, dims, values):
        self.dims, self.values, self.data = dims, values, values

    def assign_attrs(self, **k):
        return self

    def __len__(self):
        raise C.Unsupported('length')


class Chunk:
    """stand-in for an xarray dataset: dimensions with their sizes, variables, coordinates, source"""

    def __init__(self, source, sizes, variables=()):
        self.encoding = {'source': source}
        self.sizes = dict(sizes)
        self.dims = self.sizes
        self.vars = dict(variables)
        self.changed = []
        self.coords = Coords(self)
        self.attrs = {}

    def keep(self, k):
        self.changed.append(k)

    def __contains__(self, k):
        return k in self.vars or k in self.coords

    @property
    def variables(self):
        return self.vars

    data_vars = variables

    def __getitem__(self, k):
        if k in self.coords:
            return self.coords[k]
        if k in self.vars:
            return self.vars[k]
        if k in self.sizes:
            return M.NP['arange'](self.sizes[k])
        raise KeyError(k)

    def __setitem__(self, k, v):
        self.keep(k)
        (self.coords if k in self.sizes else self.vars)[k] = v

    def copy(self, *a, **k):
        o = Chunk(self.encoding['source'], self.sizes, self.vars)
        dict.update(o.coords, self.coords)
        o.changed = list(self.changed)
        return o

    def assign_coords(self, coords=None, **kw):
        o = self.copy()
        for k, v in {**(coords or {}), **kw}.items():
            o.coords[k] = v
        return o

    def assign(self, **kw):
        o = self.copy()
        for k, v in kw.items():
            o[k] = v
        return o

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def __getattr__(self, nm):
        raise C.Unsupported('dataset.' + nm)


NAMES = ['Rank%s.nc', 'AnEn_Rank%s.nc', '/data/AnEn-Rank%s_2019.nc', '/data/Rank12/x.Rank%s.nc', 'Rank%s', '/a3/b4_Rank%s-v2.5.nc']


def chunk_number(x):
    """a coordinate list as (length, value at index)"""
    if isinstance(x, tuple) and len(x) == 2 and x[0] == 'num_stations':
        x = x[1]
    if isinstance(x, Variable):
        x = x.values
    return C.as_arr(x) if not isinstance(x, SArr) else x


def coordinates(run, what, out, n, r):
    if 'num_stations' not in out.coords:
        run.goal('%s: stations have coordinates' % what, FALSE)
        return
    x = chunk_number(out.coords['num_stations'])
    run.goal('%s: one-dimensional' % what, TRUE if x.ndim == 1 else FALSE)
    run.goal('%s: one coordinate per station' % what, T.eq(C.prod(x.axes[0]), n))
    i, j = T.fresh('i'), T.fresh('j')
    H = smt.bounds([i], (n,))
    H2 = H + smt.bounds([j], (n,)) + [T.lt(i, j)]
    v = x.fn()
    (vi, ni), (vj, nj) = v((i,)), v((j,))
    run.goal('%s: not missing' % what, T.not_(ni), H)
    run.goal('%s: at least the chunk number' % what, T.le(r, vi), H)
    run.goal('%s: below the next chunk number' % what, T.lt(vi, T.add(r, T.const(1))), H)
    run.goal('%s: strictly increasing' % what, T.lt(vi, vj), H2)


def cfg_c28(tier):
    out = [dict(name=nm, rank='any', _hints=[hint(name=h) for h in ('Rank%d.nc', 'analogs_Rank%d.nc')]) for nm in NAMES]
    out += [dict(name=nm, rank=r) for nm in NAMES for r in ('0', '7', '0007', '12', '120', '004096')]
    return out


@contract('C28', cfg_c28)
def chunk_coordinates(run):
    g = run.cfg
    run.world()
    run.w.libs['re'] = Digits()
    N = T.var('Nst', 'I')
    if g['rank'] == 'any':
        r = T.var('chunk', 'I')
        C.CUR.assume(T.le(T.const(0), r))
        txt = C.token(SNum(r, FALSE, 'int'))
    else:
        r, txt = T.const(int(g['rank'])), g['rank']
    add = getattr(run.w.load('IO'), '__add_coords__')
    ds = Chunk(g['name'] % txt, {'num_stations': SNum(N, FALSE, 'int', ext=(N,)), 'num_flts': 2}, {'Xs': 'X', 'V': 'V'})
    out = add(ds)
    run.goal('a dataset is returned', TRUE if isinstance(out, Chunk) else FALSE)
    if not isinstance(out, Chunk):
        return
    coordinates(run, 'station coordinates', out, N, r)
    run.goal('nothing else is changed', TRUE if set(out.changed) == {'num_stations'} and out.vars == {'Xs': 'X', 'V': 'V'} and out.sizes == ds.sizes else FALSE)
    run.frame()


def cfg_c28r(tier):
    return [dict(name=nm, dim=True) for nm in ('file.nc', '/data/Rank3/file.nc', 'Rank.nc', '/Rank7/Rankx1.nc', '/x/rank3.nc')] + [dict(name=nm, dim=False) for nm in ('Rank3.nc', '/data/AnEn_Rank12.nc')]


@contract('C28', cfg_c28r)
def no_chunk_rejected(run):
    """a file without chunk number, or without stations, is rejected"""
    g = run.cfg
    run.world()
    run.w.libs['re'] = Digits()
    N = T.var('Nst', 'I')
    sizes = {'num_flts': 2}
    if g['dim']:
        sizes['num_stations'] = SNum(N, FALSE, 'int', ext=(N,))
    add = getattr(run.w.load('IO'), '__add_coords__')
    run.rejects('file without %s' % ('a chunk number' if g['dim'] else 'stations'), lambda: add(Chunk(g['name'], sizes)))


def cfg_c28o(tier):
    return [dict(group=gr, root=ro, given=gi, files=k) for gr in (None, 'Analogs') for ro in ((False, True) if gr else (False,)) for gi in ('list', 'pattern') for k in (1, 3)]


@contract('C28', cfg_c28o)
def opened_together(run):
    """every reading of the chunk files prepares each chunk with its coordinates and joins by coordinate
    (xarray's combination by coordinate is trusted to order by it)"""
    g = run.cfg
    run.world()
    run.w.libs['re'] = Digits()
    ranks = [10, 2, 1][:g['files']]
    names = ['/data/AnEn_Rank%d.nc' % k for k in ranks]
    ns = {p: T.var('Nst%d' % k, 'I') for p, k in zip(names, ranks)}
    readings = []

    def chunk(p, has):
        v = {'V': Variable(('num_stations',), 'V')}
        if has:
            v.update(Xs=Variable(('num_stations',), 'Xs'), Ys=Variable(('num_stations',), 'Ys'))
        return Chunk(p, {'num_stations': SNum(ns[p], FALSE, 'int', ext=(ns[p],))}, v)

    def open_mfdataset(paths, chunks=None, concat_dim=None, compat='no_conflicts', preprocess=None, engine=None, data_vars='all', coords='different', combine='by_coords', parallel=False, join='outer', group=None, **kw):
        if combine == 'by_coords' and concat_dim is not None:
            raise ValueError("concat_dim has no effect")
        if combine != 'by_coords':
            raise C.Unsupported('nested combination')
        if isinstance(paths, str):
            raise C.Unsupported('pattern passed on')
        what = 'reading %d (group %s)' % (len(readings) + 1, group)
        has = not (g['root'] and group)
        readings.append((group, has))
        run.goal('%s: every file, once' % what, TRUE if sorted(paths) == sorted(names) else FALSE)
        run.goal('%s: chunks are prepared' % what, TRUE if callable(preprocess) else FALSE)
        if callable(preprocess):
            for p in names:
                out = preprocess(chunk(p, has))
                if isinstance(out, Chunk):
                    coordinates(run, '%s: chunk %s' % (what, p), out, ns[p], T.const(ranks[names.index(p)]))
                else:
                    run.goal('%s: a dataset is prepared' % what, FALSE)
        all_ = T.var('Nall', 'I')
        v = {'V': Variable(('num_stations',), ('V', group))}
        if has:
            v.update({k: Variable(('num_stations',), (k, group)) for k in ('Xs', 'Ys')})
        return Chunk('', {'num_stations': SNum(all_, FALSE, 'int', ext=(all_,))}, v)

    class Dataset:
        def __init__(self, p, *a, **k):
            self.variables = {}

        def close(self):
            pass

        __enter__ = Chunk.__enter__
        __exit__ = Chunk.__exit__
    run.w.libs['xarray'] = L.Ns('xarray', {'open_mfdataset': open_mfdataset, 'decode_cf': lambda d, **k: d})
    run.w.libs['netCDF4'] = L.Ns('netCDF4', {'Dataset': Dataset})
    run.w.libs['glob'] = L.Ns('glob', {'glob': lambda p, **k: list(names) if p == '/data/*.nc' else []})
    f = run.w.load('IO').open_mfdataset
    given = list(names)
    ds = f(given if g['given'] == 'list' else '/data/*.nc', group=g['group'])
    run.goal('the list of paths is left as given', TRUE if given == names else FALSE)
    run.goal('the chunks are read', TRUE if readings and readings[0][0] == g['group'] else FALSE)
    if not isinstance(ds, Chunk):
        run.goal('a dataset is returned', FALSE)
        return

    def src(v):
        v = v[1] if isinstance(v, tuple) and v[0] in (('num_stations',), 'num_stations') else v
        return v.values if isinstance(v, Variable) else v
    run.goal('values come from the group asked for', TRUE if src(ds.vars.get('V')) == ('V', g['group']) else FALSE)
    for k in ('Xs', 'Ys'):
        run.goal('%s comes with the dataset, from the root where the group has none' % k, TRUE if src(ds.vars.get(k)) == (k, None if g['root'] else g['group']) else FALSE)


# ---------------------------------------------------------------- C29
KEYS = {'Gaussian': ('mu', 'sigma'), 'Gamma': ('mu', 'sigma', 'shift', 'unshifted_mu'), 'Hurdle': ('pop', 'mu', 'sigma')}


def klass(run, cls):
    mod, c = CLS[cls]
    return getattr(run.w.load(mod), c)


def sizes(tag, n):
    """independent extents"""
    return [T.var('N%s%d' % (tag, k), 'I') for k in range(n)]


def parameters(run, cls, ex, off=None, ex2=None, m=None):
    """forecasts of a class whose arrays have the extents ex, except the array `off`, which has ex2"""
    if cls == 'Determ':
        return run.data('f', ex2 if off else ex)
    if cls == 'Ensemble':
        return run.data('f', ex2 if off else list(ex) + [m])
    return {k: run.data('p' + k, ex2 if off == k else ex) for k in KEYS[cls]}


def same_shape(a, b):
    return T.and_(*[T.eq(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else FALSE


def judged(run, what, res, cond):
    """accepted exactly when the condition holds"""
    if res[0] == 'ok':
        run.goal('%s: accepted only if consistent' % what, cond)
    else:
        run.goal('%s: rejected only if inconsistent (%s)' % (what, res[1]), T.not_(cond))


def cfg_c29s(tier):
    out = []
    for cls in ALL:
        if cls == 'Ensemble':
            continue
        for off in (('f',) if cls == 'Determ' else KEYS[cls]):
            for r in (1, 2, 3):
                for r2 in (1, 2, 3):
                    if r == 3 and r2 == 3 and tier == 'quick' and cls != 'Determ' and off != 'sigma':
                        continue
                    out.append(dict(cls=cls, off=off, rank=r, rank2=r2, _hints=[hint(cls=cls, kind='shape')]))
    return out


@contract('C29', cfg_c29s)
def shapes_agree(run):
    g = run.cfg
    cls = g['cls']
    run.world()
    ex, ex2 = sizes('o', g['rank']), sizes('p', g['rank2'])
    o = run.data('o', ex)
    f = parameters(run, cls, ex, g['off'], ex2)
    K = klass(run, cls)
    judged(run, '%s with %s of another shape' % (cls, g['off']), outcome(lambda: K(f, o)), same_shape(ex, ex2))
    run.frame()


def cfg_c29e(tier):
    out = []
    for r in (1, 2, 3):
        for rf in (r, r + 1, r + 2):
            for ax in [None] + list(range(-rf - 1, rf + 1)):
                out.append(dict(rank=r, rankf=rf, axis=ax, how='constructor', _hints=[hint(cls='Ensemble', kind='axis')]))
                if ax is not None and rf == r + 1:
                    out.append(dict(rank=r, rankf=rf, axis=ax, how='setter', _hints=[hint(cls='Ensemble', kind='setter')]))
    return out


@contract('C29', cfg_c29e)
def member_axis(run):
    """the member axis is the first or the last one and the other axes agree"""
    g = run.cfg
    run.world()
    r, n, ax = g['rank'], g['rankf'], g['axis']
    ex = sizes('o', r)
    K = klass(run, 'Ensemble')
    if g['how'] == 'setter':
        # two axes of the members may be equally long: the ensemble fits with the last axis, then the axis is moved
        fe = ex + [T.var('Nm', 'I')]
        o, f = run.data('o', ex), run.data('f', fe)
        v = K(f, o, ensemble_axis=-1)
        res = outcome(lambda: v.set_ensemble_axis(ax))
    else:
        fe = sizes('p', n)
        o, f = run.data('o', ex), run.data('f', fe)
        res = outcome(lambda: K(f, o, ensemble_axis=ax) if ax is not None else K(f, o))
    first, last = same_shape(fe[1:], ex), same_shape(fe[:-1], ex)
    if ax is None:
        cond = T.or_(first, last)
    elif ax in (0, -n):
        cond = first
    elif ax in (-1, n - 1):
        cond = last
    else:
        cond = FALSE
    judged(run, 'member axis %s' % ax, res, cond)
    run.frame()


def cfg_c29k(tier):
    out = []
    for cls in KEYS:
        ks = KEYS[cls]
        for m in range(2 ** len(ks)):
            out.append(dict(cls=cls, keys=tuple(k for i, k in enumerate(ks) if m >> i & 1), extra=False, _hints=[hint(cls=cls, kind='keys')]))
        out.append(dict(cls=cls, keys=ks, extra=True))
    return out


@contract('C29', cfg_c29k)
def parameters_present(run):
    g = run.cfg
    run.world()
    ex = sizes('o', 2)
    o = run.data('o', ex)
    f = {k: run.data('p' + k, ex) for k in g['keys']}
    if g['extra']:
        f['other'] = run.data('pother', ex)
    K = klass(run, g['cls'])
    judged(run, 'parameters %s' % (sorted(f),), outcome(lambda: K(f, o)), TRUE if set(g['keys']) == set(KEYS[g['cls']]) else FALSE)


def values(run):
    """settings of every type, numbers symbolic"""
    i, x = run.num('si', 'int'), run.num('sx')
    j, y = run.num('sj', 'int'), run.num('sy')
    return {'none': None, 'int': i, 'zero': 0, 'minus one': -1, 'float': x, 'text': '0', 'word': 'yes', 'true': True, 'false': False,
            'tuple': (0, 1), 'list': [0], 'empty tuple': (), 'three': (x, y, 1.), 'pair': (x, y), 'dict': {'axis': 0}, 'set': {0},
            'array': run.data('sa', [T.const(2)], kind='int'), 'function': lambda a, axis=None: a, 'path': '/scratch/w', 'object': object()}


# setting -> (classes, values that are consistent); values in neither this list nor LOOSE are inconsistent
SETTINGS = {
    'avg_axis': (ALL, {'none', 'int', 'zero', 'minus one', 'tuple', 'list', 'empty tuple'}),
    'boot_samples': (ALL, {'none', 'int'}),
    'start_from_scratch': (ALL, {'true', 'false'}),
    'working_directory': (ALL, {'none', 'path'}),
    'move_sampled_ens_axis': (list(KEYS), {'zero', 'minus one'}),
    'truncated': (['Gaussian', 'Gamma'], {'true', 'false'}),
    'pit_randomize_zero_ranks': (list(KEYS), {'true', 'false'}),
    'n_sample_members': (list(KEYS), {'none', 'int'}),
    'clip_member_to_zero': (list(KEYS), {'none', 'float'}),
    'n_approx_bins': (['Hurdle'], {'int'}),
    'integration_range': (['Hurdle'], {'none', 'pair'}),
    'ensemble_collapse_func': (['Ensemble'], {'function'}),
    'ensemble_axis': (['Ensemble'], {'none', 'minus one'}),
}
# values not judged: Python counts them as the right type (a bool is an int), or the tool may take or refuse them
LOOSE = {
    'avg_axis': {'true', 'false', 'three', 'pair'}, 'boot_samples': {'zero', 'minus one', 'true', 'false'}, 'start_from_scratch': set(),
    'working_directory': {'text', 'word', 'zero', 'false', 'empty tuple', 'float', 'int'},
    'move_sampled_ens_axis': {'int', 'true', 'false'}, 'truncated': set(), 'pit_randomize_zero_ranks': set(),
    'n_sample_members': {'zero', 'minus one', 'true', 'false'}, 'clip_member_to_zero': {'int', 'zero', 'minus one', 'true', 'false'},
    'n_approx_bins': {'zero', 'minus one', 'true', 'false'}, 'integration_range': {'tuple', 'array', 'list', 'set', 'text', 'word', 'path', 'dict'},
    'ensemble_collapse_func': set(), 'ensemble_axis': {'int', 'zero', 'true', 'false'},
}
SETTERS = {'avg_axis': 'set_avg_axis', 'boot_samples': 'set_boot_samples', 'move_sampled_ens_axis': 'set_move_sampled_ens_axis', 'truncated': 'set_truncation',
           'n_sample_members': 'set_ensemble_members', 'clip_member_to_zero': 'set_member_clip', 'n_approx_bins': 'set_bins', 'ensemble_collapse_func': 'set_collapse_func',
           'ensemble_axis': 'set_ensemble_axis', 'working_directory': 'enable_saving', 'start_from_scratch': 'enable_saving'}


def cfg_c29t(tier):
    return [dict(cls=cls, setting=s, how=h, _hints=[hint(cls=cls, kind='settings' if h == 'constructor' else 'setter')])
            for s, (cc, _) in SETTINGS.items() for cls in cc for h in ('constructor', 'setter') if h == 'constructor' or s in SETTERS]


@contract('C29', cfg_c29t)
def settings_checked(run):
    g = run.cfg
    cls, s = g['cls'], g['setting']
    run.world()
    good = SETTINGS[s][1]
    if s == 'truncated' and cls == 'Hurdle':
        good = {'false'}
    ex = sizes('o', 2)
    o = run.data('o', ex)
    f = parameters(run, cls, ex, m=T.var('Nm', 'I'))
    K = klass(run, cls)
    base = {'ensemble_axis': -1} if cls == 'Ensemble' else {}
    for name, x in values(run).items():
        if name in LOOSE[s]:
            continue
        fs = C.CUR.fs = L.GhostFS()
        fs.dirs |= {'/', '/scratch'}
        if g['how'] == 'constructor':
            res = outcome(lambda: K(f, o, **{**base, s: x}))
        else:
            v = K(f, o, **base)
            if s == 'start_from_scratch':
                res = outcome(lambda: v.enable_saving('/scratch/w', x))
            else:
                res = outcome(lambda: getattr(v, SETTERS[s])(x))
        judged(run, '%s %s' % (s, name), res, TRUE if name in good else FALSE)
    run.frame()


def cfg_c29h(tier):
    return [dict(what=w) for w in ('truncation', 'set_truncation', 'range', 'set_range')]


@contract('C29', cfg_c29h)
def hurdle_settings(run):
    g = run.cfg
    run.world()
    ex = sizes('o', 2)
    o, f, K = run.data('o', ex), parameters(run, 'Hurdle', ex), klass(run, 'Hurdle')
    x, y = run.num('sx'), run.num('sy')
    if g['what'] == 'truncation':
        judged(run, 'truncated hurdle', outcome(lambda: K(f, o, truncated=True)), FALSE)
        judged(run, 'untruncated hurdle', outcome(lambda: K(f, o, truncated=False)), TRUE)
    elif g['what'] == 'set_truncation':
        judged(run, 'truncated hurdle', outcome(lambda: K(f, o).set_truncation(True)), FALSE)
        judged(run, 'untruncated hurdle', outcome(lambda: K(f, o).set_truncation(False)), TRUE)
        judged(run, 'word', outcome(lambda: K(f, o).set_truncation('no')), FALSE)
    elif g['what'] == 'range':
        for k in range(4):
            judged(run, 'range of %d numbers' % k, outcome(lambda: K(f, o, integration_range=(x, y, x)[:k])), TRUE if k == 2 else FALSE)
    else:
        judged(run, 'range of two numbers', outcome(lambda: K(f, o).set_integration_range(x, y)), TRUE)


def cfg_c29d(tier):
    return [dict(cls=cls, what=w, _hints=[hint(cls=cls, kind='shape')]) for cls in ALL for w in ('observations', 'forecasts', 'swapped')]


@contract('C29', cfg_c29d)
def data_types(run):
    """observations are arrays; forecasts are an array or, for the distributions, a dictionary of arrays"""
    g = run.cfg
    cls = g['cls']
    run.world()
    ex = sizes('o', 1)
    o, K = run.data('o', ex), klass(run, cls)
    f = parameters(run, cls, ex, m=T.var('Nm', 'I'))
    wrong = [None, 3, 'text', [1., 2.], (1., 2.)]
    if g['what'] == 'observations':
        for x in wrong + [{'mu': o}]:
            judged(run, 'observations %s' % type(x).__name__, outcome(lambda: K(f, x)), FALSE)
    elif g['what'] == 'forecasts':
        for x in wrong:
            judged(run, 'forecasts %s' % type(x).__name__, outcome(lambda: K(x, o)), FALSE)
    else:
        x = {'mu': o, 'sigma': o} if cls in ('Determ', 'Ensemble') else o
        judged(run, 'forecasts %s' % ('dictionary' if isinstance(x, dict) else 'array'), outcome(lambda: K(x, o)), FALSE)
    judged(run, 'consistent data', outcome(lambda: K(f, o)), TRUE)
    run.frame()
