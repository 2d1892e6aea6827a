"""Contracts: reading a file (C30).

The dataset is a stand-in for xarray's: named dimensions, variables (dimensions, data, attributes), coordinates;
whatever else a caller asks of it is undecided.  Its data are symbolic arrays with symbolic lengths; matrices of
characters have an enumerated number of names and characters, which are opaque symbols."""
import itertools
from .contracts import *
from .contracts import T, C, L, SArr, SNum, TRUE, FALSE
from . import loader as LD
from . import npmodel as M

UNITS = 'seconds since 1970-01-01'
TIMES = ('test_times', 'search_times', 'Times', 'num_test_times', 'num_times')
LABELS = {'num_flts': 'FLTs', 'num_parameters': 'ParameterNames', 'num_test_times': 'test_times', 'num_search_times': 'search_times', 'num_times': 'Times'}


class Chars:
    """matrix of characters as netCDF stores it (bytes) or, after astype(str), as text"""

    def __init__(self, rows, text=False):
        self.rows, self.text = rows, text
        self.shape = (len(rows), len(rows[0]))
        self.ndim = 2

    def astype(self, t, *a, **k):
        if t in (str, 'str', 'U', 'U1', '<U1', 'unicode'):
            return Chars(self.rows, True)
        raise C.Unsupported('characters as %s' % (t,))

    def _text(self):
        if not self.text:
            raise C.Unsupported('bytes')
        return self.rows

    def __iter__(self):
        return iter([list(r) for r in self._text()])

    def __len__(self):
        return len(self.rows)

    def __getitem__(self, k):
        if isinstance(k, int):
            return list(self._text()[k])
        if isinstance(k, tuple) and all(isinstance(x, int) for x in k):
            return self._text()[k[0]][k[1]]
        raise C.Unsupported('index of characters')

    def tolist(self):
        return [list(r) for r in self._text()]


class Var:
    def __init__(self, dims, data, attrs=None, name=None):
        self.dims, self.data, self.attrs, self.name = tuple(dims), data, dict(attrs or {}), name

    @property
    def values(self):
        return self.data

    def to_numpy(self):
        return self.data

    @property
    def ndim(self):
        return len(self.dims)

    def assign_attrs(self, *a, **k):
        at = dict(self.attrs)
        for x in a:
            at.update(x)
        at.update(k)
        return Var(self.dims, self.data, at, self.name)

    def copy(self, *a, **k):
        return Var(self.dims, self.data, self.attrs, self.name)

    def __getattr__(self, nm):
        raise C.Unsupported('variable.' + nm)


class Axes:
    """the dimensions in use"""

    def __init__(self, ds):
        self.ds = ds

    def _all(self):
        out = []
        for v in list(self.ds.vars.values()) + list(self.ds.labels.values()):
            out += [d for d in v.dims if d not in out]
        return out

    def __contains__(self, k):
        return k in self._all()

    def __iter__(self):
        return iter(self._all())

    def keys(self):
        return self._all()

    def __len__(self):
        return len(self._all())

    def __getitem__(self, k):
        if k not in self._all():
            raise KeyError(k)
        return self.ds.lengths[k]

    def get(self, k, d=None):
        return self[k] if k in self else d

    def __getattr__(self, nm):
        raise C.Unsupported('dims.' + nm)


class Labels(dict):
    def __init__(self, ds, of):
        self.ds = ds
        dict.__init__(self, of)

    def __setitem__(self, k, v):
        self.ds.put(k, v, True)

    def update(self, kw):
        for k, v in kw.items():
            self[k] = v

    def __delitem__(self, k):
        raise C.Unsupported('removing a coordinate')


class Names(dict):
    def __setitem__(self, k, v):
        raise C.Unsupported('writing to the table of variables')

    __delitem__ = pop = update = __setitem__


class Book:
    """dataset"""

    def __init__(self, lengths, vars, labels=None, attrs=None, decoded=0):
        self.lengths = dict(lengths)
        self.vars = dict(vars)
        self.labels = dict(labels or {})
        self.attrs = dict(attrs or {})
        self.decoded = decoded
        self.encoding = {}

    def known(self):
        return {**self.vars, **self.labels}

    dims = sizes = property(lambda self: Axes(self))
    coords = property(lambda self: Labels(self, self.labels))
    variables = property(lambda self: Names(self.known()))
    data_vars = property(lambda self: Names(self.vars))

    def put(self, k, v, label=False):
        if isinstance(v, Var):
            dims, data, attrs = v.dims, v.data, v.attrs
        elif isinstance(v, tuple) and len(v) in (2, 3):
            dims = (v[0],) if isinstance(v[0], str) else tuple(v[0])
            data, attrs = v[1], (v[2] if len(v) == 3 else {})
            if isinstance(data, Var):
                data = data.data
        elif k in self.dims and label:
            dims, data, attrs = (k,), v, {}
        else:
            raise C.Unsupported('assigning this to a dataset')
        if k in self.dims and dims != (k,):
            raise ValueError('%s has more than one dimension or another one' % k)
        if isinstance(data, (list, Chars)) and len(dims) == 1:
            n = self.lengths.get(dims[0])
            if isinstance(n, int) and n != len(data):
                raise ValueError('conflicting sizes')
        x = Var(dims, data, attrs, k)
        if label or k in self.labels or dims == (k,):
            self.vars.pop(k, None)
            self.labels[k] = x
        else:
            self.vars[k] = x

    def __contains__(self, k):
        return k in self.vars or k in self.labels

    def __iter__(self):
        return iter(list(self.vars))

    def keys(self):
        return list(self.vars)

    def __getitem__(self, k):
        if isinstance(k, list):
            raise C.Unsupported('part of a dataset')
        if k in self:
            return self.known()[k].copy()
        if k in self.dims:
            return Var((k,), M.NP['arange'](self.lengths[k]), {}, k)
        raise KeyError(k)

    get = lambda self, k, d=None: self[k] if k in self else d

    def __setitem__(self, k, v):
        self.put(k, v)

    def copy(self, *a, **k):
        return Book(self.lengths, self.vars, self.labels, self.attrs, self.decoded)

    def assign(self, *a, **kw):
        o = self.copy()
        for k, v in {**(a[0] if a else {}), **kw}.items():
            o.put(k, v(o) if callable(v) else v)
        return o

    def assign_coords(self, *a, **kw):
        o = self.copy()
        for k, v in {**(a[0] if a else {}), **kw}.items():
            o.put(k, v, True)
        return o

    def set_coords(self, ks):
        o = self.copy()
        for k in ([ks] if isinstance(ks, str) else ks):
            o.labels[k] = o.vars.pop(k)
        return o

    def rename(self, *a, **kw):
        m = {**(a[0] if a and a[0] else {}), **kw}
        for k, v in m.items():
            if k not in self and k not in self.dims:
                raise ValueError('cannot rename %r' % k)
            if v in self or v in self.dims:
                raise ValueError('the new name %r conflicts' % v)
        r = lambda k: m.get(k, k)
        ren = lambda d: {r(k): Var([r(x) for x in v.dims], v.data, v.attrs, r(k)) for k, v in d.items()}
        return Book({r(k): n for k, n in self.lengths.items()}, ren(self.vars), ren(self.labels), self.attrs, self.decoded)

    def load(self, *a, **k):
        return self

    compute = load

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __getattr__(self, nm):
        raise C.Unsupported('dataset.' + nm)


def decode(ds, *a, **k):
    if a or k:
        raise C.Unsupported('decoding in part')
    o = ds.copy()
    o.decoded += 1
    return o


def spelled(n, w, base):
    """n names of w opaque characters, the later ones padded"""
    rows = [[chr(base + 40 * i + j) if j < w - i % 2 or w == 1 else '' for j in range(w)] for i in range(n)]
    if w > 1:
        rows[0][0] = rows[0][w - 1] = ' '
    return rows


def write_book(run, g, tag=''):
    """a dataset as a file of configuration g holds it"""
    N = {k: T.var('L%s%s' % (tag, k), 'I') for k in ('num_stations', 'num_flts', 'num_test_times', 'num_search_times', 'num_times', 'num_other')}
    lengths = {k: SNum(n, FALSE, 'int', ext=(n,)) for k, n in N.items()}

    def arr(name, dims):
        return run.data('%s%s' % (name, tag), [N[d] for d in dims])
    v = {}
    lab = {}

    def add(name, dims, attrs=None):
        x = Var(dims, arr(name, dims), attrs, name)
        (lab if dims == (name,) else v)[name] = x
    add('Xs', ('num_stations',), {'long_name': 'x'})
    add('Ys', ('num_stations',))
    if g.get('flts') in ('both', 'axis', 'own', 'all'):
        add('V', ('num_flts', 'num_stations'), {'units': 'K'})
    if g.get('flts') in ('own', 'all'):
        add('num_flts', ('num_flts',), {'note': 'own'})
    if g.get('flts') in ('both', 'all'):
        add('FLTs', ('num_flts',), {'units': 's'})
    for d, nm in (('num_test_times', 'test_times'), ('num_search_times', 'search_times'), ('num_times', 'Times')):
        how = g.get(d)
        if how in ('both', 'axis', 'own', 'all'):
            add('W' + d, (d, 'num_stations'))
        if how in ('both', 'all'):
            add(nm, (d,), {'note': nm})
        if how in ('own', 'all'):
            add(d, (d,), {'note': d})
        if how == 'else':
            add(nm, ('num_other',))
    if g.get('chars'):
        n, w, more = g['chars']
        lengths['num_parameters'] = n
        lengths['num_chars'] = w
        v['ParameterNames'] = Var(('num_parameters', 'num_chars'), Chars(spelled(n, w, 0xE000)), {'a': 1}, 'ParameterNames')
        if more:
            lengths['num_places'] = 2
            v['Places'] = Var(('num_places', 'num_chars'), Chars(spelled(2, w, 0xE400)), {}, 'Places')
    return Book(lengths, v, lab, {'title': 't'})


def names_of(x):
    if isinstance(x, Chars):
        return [''.join(r) for r in x.rows]
    return None


def equal(run, label, got, want):
    if isinstance(got, Var):
        got = got.data
    if isinstance(want, Chars):
        w = names_of(want)
        if not isinstance(got, (list, tuple)):
            if type(got).__name__ in ('SArr', 'Opaque', 'SList'):
                raise C.Unsupported('names in another form')
            got = list(got) if hasattr(got, '__iter__') and not isinstance(got, str) else got
        run.goal(label, TRUE if isinstance(got, (list, tuple)) and list(got) == w else FALSE)
        return
    if got is want:
        run.goal(label, TRUE)
        return
    run.same(label, got, want)


def judge(run, ds, src, asked, labels=LABELS, extra=None):
    """the dataset handed back, against the one read"""
    if not isinstance(ds, Book):
        run.goal('a dataset is returned', FALSE)
        return
    had = src.dims._all()
    ren = {'num_test_times': 'num_times'} if 'num_times' not in had and 'num_test_times' in had else {}
    r = lambda k: ren.get(k, k)
    got = ds.known()
    want = {r(k): (v, [r(d) for d in v.dims if d != 'num_chars']) for k, v in src.known().items()}
    at = {}
    for d in had:
        k = labels.get(d)
        if k in src.known():
            v = src.known()[k]
            if [x for x in v.dims if x != 'num_chars'] == [d]:
                at[r(d)] = v
    for d, v in (extra or {}).items():
        if d not in src.labels:
            at[r(d)] = v
    for d, v in src.labels.items():
        at.setdefault(r(d), v)
    run.goal('variables: all of the file and the labels of its axes, and no others', TRUE if set(got) == set(want) | set(at) else FALSE)
    for k, (v, dims) in want.items():
        if k not in got:
            continue
        x = got[k]
        if k in at and tuple(dims) == (k,):
            v = at[k]
        run.goal('%s: axes' % k, TRUE if list(x.dims) == dims else FALSE)
        equal(run, '%s: values' % k, x, v.data)
        if not isinstance(v.data, Chars):
            wa = dict(v.attrs)
            if k in TIMES or any(k == r(q) for q in TIMES):
                wa['units'] = UNITS
            run.goal('%s: attributes' % k, TRUE if x.attrs == wa else FALSE)
    for d, v in at.items():
        run.goal('%s: labelled' % d, TRUE if d in ds.labels else FALSE)
        if d in ds.labels:
            run.goal('%s: labels along the axis' % d, TRUE if ds.labels[d].dims == (d,) else FALSE)
            equal(run, '%s: labels' % d, ds.labels[d], v.data)
            if d in ('num_times', 'num_test_times'):
                run.goal('%s: units of the labels' % d, TRUE if ds.labels[d].attrs.get('units') == UNITS else FALSE)
    run.goal('no other labels', TRUE if set(ds.labels) == set(at) | {r(k) for k in src.labels} else FALSE)
    run.goal('decoded only on request', TRUE if bool(ds.decoded) == bool(asked) else FALSE)
    run.goal('attributes of the file', TRUE if ds.attrs == src.attrs else FALSE)


def cfg_open(tier):
    out = []
    for k, (fl, tt, st, ti) in enumerate(itertools.product((None, 'axis', 'both', 'own', 'all'), (None, 'axis', 'both', 'else', 'own', 'all'), (None, 'both'), (None, 'both', 'own', 'else'))):
        for ch in ((None, (2, 3, False), (1, 4, True), (3, 2, True), (2, 1, False)) if tier == 'thorough' else (((None, (2, 3, True), (3, 2, False))[k % 3]),)):
            for dec in (False, True):
                out.append(dict(flts=fl, num_test_times=tt, num_search_times=st, num_times=ti, chars=ch, decode=dec, group=(None, 'Analogs')[(k + dec) % 2],
                                _hints=[hint(kind='file')] if k % 12 == 0 else []))
    return out


def engine(run, reader):
    def mf(*a, **k):
        raise C.Unsupported('opening several')
    run.world()
    run.w.libs['xarray'] = L.Ns('xarray', {'open_dataset': reader, 'open_mfdataset': mf, 'decode_cf': decode})
    run.w.libs['netCDF4'] = L.Ns('netCDF4', {'Dataset': mf})
    return run.w.load('IO')


@contract('C30', cfg_open)
def file_read(run):
    g = run.cfg
    calls = []
    made = []

    def reader(file, *a, group=None, decode_cf=True, **k):
        if a or k:
            raise C.Unsupported('reader options')
        calls.append((file, group))
        if not made:
            made.append(write_book(run, g))
        b = made[0].copy()
        return decode(b) if decode_cf else b
    io = engine(run, reader)
    kw = {}
    if g['group']:
        kw['group'] = g['group']
    if g['decode']:
        kw['decode'] = True
    ds = io.open_dataset('/data/a.nc', **kw)
    run.goal('the file and the group asked for', TRUE if calls and all(c == ('/data/a.nc', g['group']) for c in calls) else FALSE)
    if not made:
        run.goal('the file is read', FALSE)
        return
    judge(run, ds, made[0], g['decode'])
    run.frame()


def cfg_xy(tier):
    return [dict(names=n, group=gr, equal=e) for n in (None, ('lon', 'lat')) for gr in (None, 'Analogs') for e in (True, False)]


@contract('C30', cfg_xy)
def station_places(run):
    """the coordinates of the stations are the variables named, as stored, for any number of stations"""
    g = run.cfg
    n, m = T.var('Nx', 'I'), T.var('Ny', 'I')
    x, y = run.data('x', [n]), run.data('y', [n if g['equal'] else m])
    nx, ny = g['names'] or ('Xs', 'Ys')
    if not g['equal']:
        C.CUR.assume(T.not_(T.eq(n, m)))
    calls = []

    def reader(file, *a, group=None, decode_cf=True, **k):
        if a or k:
            raise C.Unsupported('reader options')
        calls.append((file, group))
        size = lambda q: SNum(q, FALSE, 'int', ext=(q,))
        return Book({'a': size(n), 'b': size(m)}, {nx: Var(('a',), x), ny: Var(('a' if g['equal'] else 'b',), y)})
    engine(run, reader)
    kw = {}
    if g['group']:
        kw['group'] = g['group']
    if g['names']:
        kw.update(var_x='lon', var_y='lat')
    f = run.w.load('Grid').read_station_coordinates
    if not g['equal']:
        run.rejects('different numbers of x and y', lambda: f('/data/a.nc', **kw))
        return
    out = f('/data/a.nc', **kw)
    run.goal('the file and the group asked for', TRUE if calls and all(c == ('/data/a.nc', g['group']) for c in calls) else FALSE)
    run.goal('two arrays', TRUE if isinstance(out, (tuple, list)) and len(out) == 2 else FALSE)
    run.same('x', out[0], x)
    run.same('y', out[1], y)
    run.frame()


def cfg_many(tier):
    out = []
    for k, (fl, tt, ti, ro) in enumerate(itertools.product(('axis', 'both', None, 'own'), (None, 'axis', 'both', 'own'), (None, 'own', 'both'), (False, True))):
        for dec in (False, True):
            out.append(dict(flts=fl, num_test_times=tt, num_times=ti, root=ro, decode=dec))
    return out


@contract('C30', cfg_many)
def files_read(run):
    """several files: axes without labels get those of the root group, stations their places from the root group;
    joining the files is xarray's"""
    g = run.cfg
    names = ['/data/Rank2.nc', '/data/Rank1.nc']
    root = {k: run.data('root' + k, [T.var('Lr' + k, 'I')]) for k in ('FLTs', 'test_times')}
    xy = {k: run.data('root' + k, [T.var('Lrst', 'I')]) for k in ('Xs', 'Ys')}
    made = []
    seen = []

    def mf(paths, group=None, decode_cf=True, **k):
        seen.append((sorted(paths), group))
        if group is None and g['root'] and made:
            n = T.var('Lrst', 'I')
            return Book({'num_stations': SNum(n, FALSE, 'int', ext=(n,))}, {q: Var(('num_stations',), a, {}, q) for q, a in xy.items()})
        if not made:
            b = write_book(run, g)
            if g['root']:
                del b.vars['Xs'], b.vars['Ys']
                if not b.vars and not b.labels:
                    b.vars['Z'] = Var(('num_stations',), run.data('Z', [T.var('Lnum_stations', 'I')]), {}, 'Z')
            # what xarray makes of the labels in the file
            made.append(b)
        return decode(made[0]) if decode_cf else made[0].copy()

    class Masked:
        def __init__(self, a):
            self.a = a

        def __getitem__(self, k):
            if k == slice(None) or k is Ellipsis:
                return Var(('?',), self.a)
            raise C.Unsupported('part of a variable')

        def __getattr__(self, nm):
            raise C.Unsupported('netCDF variable.' + nm)

    class Root:
        def __init__(self, p, *a, **k):
            if p not in names:
                raise OSError(p)
            self.variables = {k: Masked(a) for k, a in root.items()}

        def close(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def __getitem__(self, k):
            return self.variables[k]
    run.world()
    run.w.libs['xarray'] = L.Ns('xarray', {'open_mfdataset': mf, 'decode_cf': decode})
    run.w.libs['netCDF4'] = L.Ns('netCDF4', {'Dataset': Root})
    kw = {'decode': True} if g['decode'] else {}
    ds = run.w.load('IO').open_mfdataset(list(names), group='Analogs', parallel=False, **kw)
    run.goal('the files and the group asked for', TRUE if seen and seen[0] == (sorted(names), 'Analogs') and all(s[0] == sorted(names) for s in seen) else FALSE)
    src = made[0]
    if g['root']:
        src = src.copy()
        n = T.var('Lrst', 'I')
        for q, a in xy.items():
            src.vars[q] = Var(('num_stations',), a, {}, q)
    extra = {d: Var((d,), root[q]) for d, q in (('num_flts', 'FLTs'), ('num_test_times', 'test_times')) if d in src.dims}
    judge(run, ds, src, g['decode'], labels={}, extra=extra)
    run.frame()


# ---------------------------------------------------------------- C20: results of parallel tasks
def cfg_ray(tier):
    return [dict(tasks=n) for n in range(0, 7 if tier == 'thorough' else 6)]


@contract('C20', cfg_ray)
def task_results(run):
    """every task's result is handed on exactly once, for every order of completion (number of tasks enumerated;
    the integration contracts assume this for any number of tasks)"""
    n = run.cfg['tasks']

    class Task:
        def __init__(self, k):
            self.k = k

    class Result:
        def __init__(self, k):
            self.k = k
    tasks = [Task(k) for k in range(n)]
    finished = []

    def wait(ids, num_returns=1, timeout=None, fetch_local=True):
        ids = list(ids)
        if timeout is not None or not isinstance(num_returns, int):
            raise C.Unsupported('waiting with a time limit')
        if not ids or num_returns > len(ids) or num_returns < 1 or len(set(map(id, ids))) != len(ids) or not all(isinstance(t, Task) for t in ids):
            raise ValueError('ray.wait')
        ready = [t for t in finished if t in ids]
        while len(ready) < num_returns:
            rest = [t for t in ids if t not in ready]
            for t in rest:
                if t is rest[-1] or C.branch(T.eq(T.fresh('next', 'I'), T.const(t.k))):
                    break
            ready.append(t)
            finished.append(t)
        return ready[:num_returns], [t for t in ids if t not in ready[:num_returns]]

    def get(x, timeout=None):
        if isinstance(x, list):
            return [get(y) for y in x]
        if not isinstance(x, Task):
            raise ValueError('ray.get')
        if x not in finished:
            finished.append(x)
        return Result(x.k)
    run.world()
    w = LD.World(LD.REPO if hasattr(LD, 'REPO') else run_repo(), {})
    w.libs['ray'] = L.Ns('ray', {'wait': wait, 'get': get, 'init': L.ray_init, 'shutdown': lambda *a, **k: None, 'put': L.ray_put, 'remote': lambda f: f, 'is_initialized': lambda: False})
    f = getattr(w.load('utils_approximation'), '_ray_to_iterator', None)
    if f is None:
        raise C.Unsupported('no such function')
    out = [x for x in f(list(tasks))]
    run.goal('only results', TRUE if all(isinstance(x, Result) for x in out) else FALSE)
    run.goal('every result, once', TRUE if sorted(getattr(x, 'k', -1) for x in out) == list(range(n)) else FALSE)


def run_repo():
    from . import vc
    return vc.REPO
