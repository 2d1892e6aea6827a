#!/usr/bin/env python3
"""Conformance of the verifier's model with the real interpreter and libraries.

  enginetest.py [substring]      (needs python3-vt and /opt/venv)

Every case of enginecases.py is executed by pyvc on symbolic arrays; the resulting element terms are evaluated at
concrete data and compared with the real run of the same call.  Covers rewriting, loop summaries and library contracts."""
import json
import math
import os
import random
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = int(os.environ.get('ENGINE_SEEDS', '6'))
EXT = 'Na', 'Nb', 'Nc', 'Nd'
sys.path.insert(0, os.path.join(HERE, 'tools'))


def concrete(case, seed):
    """extents and data of a case: the same in both interpreters"""
    r = random.Random('%s %d' % (case['name'], seed))
    lo, hi = case['env'].get('_size', (1, 4))
    n = {e: r.randint(lo, hi) for e in EXT}
    data = {}
    for name, rank, o in case['data']:
        def build(k):
            if k == rank:
                if o.get('nan') and r.random() < .25:
                    return None
                if 'lo' in o:
                    return round(r.uniform(o['lo'], o['hi']), 3)
                return r.choice([-1., 0., .5, 1., 1.5, 2.]) if r.random() < .5 else round(r.uniform(-3, 5), 3)
            return [build(k + 1) for _ in range(n[EXT[k]])]
        data[name] = build(0)
        if o.get('distinct'):        # numpy.argsort leaves the order of equal elements open; the model takes their position
            seen = set()
            for row in data[name]:
                for k in range(len(row)):
                    while row[k] in seen:
                        row[k] = round(row[k] + .001, 3)
                    seen.add(row[k])
    return n, data


def plain(x):
    import numpy as np
    if isinstance(x, (tuple, list)):
        return [plain(y) for y in x]
    if x is None:
        return 'none'
    if isinstance(x, np.ma.MaskedArray):
        x = x.filled(np.nan)
    a = np.asarray(x)
    if a.dtype == object:
        return [plain(y) for y in x]
    a = a.astype(float)
    return json.loads(json.dumps(a.tolist()).replace('NaN', 'null'))


def real(cases):
    import warnings
    import importlib
    warnings.simplefilter('ignore')
    import numpy as np
    sys.path.insert(0, os.environ.get('PYVC_REPO', '/repo'))
    import PyAnEn
    np.seterr(all='ignore')
    out = {}
    base = {k: v for k, v in os.environ.items() if k.startswith('pyanen_')}
    for c in cases:
        for s in range(SEEDS):
            for k in [k for k in os.environ if k.startswith('pyanen_')]:
                del os.environ[k]
            os.environ.update(base)
            os.environ.update({'pyanen_' + k: v for k, v in c['env'].items() if k[0] != '_'})
            os.environ.update({'pyanen_tqdm_workers': '1', 'pyanen_tqdm_disable': 'True'})
            n, d = concrete(c, s)
            dd = {k: np.array(json.loads(json.dumps(v)), dtype=float) for k, v in d.items()}
            try:
                out['%s|%d' % (c['name'], s)] = ['ok', plain(c['call'](lambda m: importlib.import_module('PyAnEn.' + m), dd, np))]
            except Exception as e:
                out['%s|%d' % (c['name'], s)] = ['raised', type(e).__name__, str(e)[:80]]
    print(json.dumps(out))


# ---------------------------------------------------------------- symbolic side
def close(a, b):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if a in (None, 'none') or b in (None, 'none'):
        return a == b
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= 1e-7 * (1 + abs(a) + abs(b))


def symbolic(case):
    """-> paths: (path condition, result) or an Unsupported text"""
    from pyvc import vc, core as C, terms as T

    class Con:
        prop = name = 'engine'

        @staticmethod
        def fn(run):
            run.env(**{k: v for k, v in case['env'].items() if k[0] != '_'})
            run.env(tqdm_workers='1')
            run.world()
            ds = [T.var(e, 'I') for e in EXT]
            d = {}
            for name, rank, o in case['data']:
                d[name] = run.data('x' + name, ds[:rank], nan=bool(o.get('nan')))
            run.result = case['call'](run.w.load, d, run.np)
    out = []
    for r in vc.explore(Con, {}):
        if r.unsup is not None:
            return 'unsupported: ' + r.unsup
        out.append((list(r.ctx.pc), r))
    return out


def evaluate(case, paths, seed):
    from pyvc import smt, core as C, terms as T, loader as LD, npmodel as M
    n, data = concrete(case, seed)

    class I(smt.Interp):
        def table(self, name, sort):
            nm = name[1:].rstrip('?')
            if name[:1] == 'x' and nm in data:
                def f(*idx):
                    v = data[nm]
                    for i in idx:
                        v = v[int(i)]
                    if name.endswith('?'):
                        return v is None
                    return 0.0 if v is None else v
                return f

            def g(*a):
                raise T.EvalError('no interpretation of ' + name)
            return g

    def ev(t, extra=None):
        it = I(0)
        vv = dict(n)
        if extra:
            vv.update(extra)
        return smt.eval_terms([t], it, vv)[0]

    def num(vn):
        v, na = vn[:2]
        if na is not C.FALSE and ev(na):
            return None
        x = ev(v)
        x = float(x)
        return None if x != x else x

    def arr(a):
        sizes = [[int(ev(e)) for e in ax] for ax in a.axes]
        f = a.fn()

        def idx(ax):
            import itertools
            return [tuple(T.const(q) for q in p) for p in itertools.product(*[range(m) for m in ax])]

        def build(k, pre):
            if k == len(sizes):
                return num(f(pre))
            return [y for y in (build(k + 1, pre + p) for p in idx(sizes[k]) if k + 1 < len(sizes) or a.guard is None or ev(a.guard(pre + p)))]
        return build(0, ())

    def val(x):
        x = LD.sym(x)
        if x is None:
            return 'none'
        if isinstance(x, C.SList):
            sizes = [int(ev(e)) for e in x.exts]
            import itertools
            out = []
            for p in itertools.product(*[range(m) for m in sizes]):
                q = tuple(T.const(k) for k in p)
                if x.guard is not None and not ev(x.guard(q)):
                    continue
                out.append(val(x.item(q)))
            return out
        if isinstance(x, (tuple, list)):
            return [val(y) for y in x]
        if isinstance(x, C.SArr):
            return arr(x)
        if isinstance(x, M.UniqueVals):
            raise C.Unsupported('set of values')
        if C.is_scalar(x):
            return num(C.lift(x))
        raise C.Unsupported(type(x).__name__)
    for pc, r in paths:
        if all(ev(t) for t in pc):
            if r.raised is not None:
                return ['raised', type(r.raised).__name__, str(r.raised)[:80]]
            from pyvc import vc
            C.set_ctx(r.ctx)
            return ['ok', val(r.result)]
    return ['raised', 'no path', '']


def job(k):
    from pyvc import core as C
    import enginecases
    sys.setrecursionlimit(20000)
    case = enginecases.CASES[k]
    try:
        ps = symbolic(case)
    except C.Unsupported as e:
        ps = 'unsupported: %s' % e
    except Exception as e:
        ps = 'engine: %s %s' % (type(e).__name__, e)
    if isinstance(ps, str):
        return k, ps
    out = []
    for s in range(SEEDS):
        try:
            out.append(evaluate(case, ps, s))
        except C.Unsupported as e:
            out.append(['unsupported', str(e)])
        except Exception as e:
            out.append(['unsupported', '%s: %s' % (type(e).__name__, str(e)[:100])])
    return k, out


def main():
    import enginecases
    cases = enginecases.CASES
    sub = sys.argv[1] if len(sys.argv) > 1 else ''
    if sub == '--real':
        return real(cases)
    sys.path.insert(0, HERE)
    env = dict(os.environ, OMP_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1')
    rp = subprocess.Popen(['/opt/venv/bin/python', os.path.abspath(__file__), '--real'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
    import multiprocessing as mp
    ks = [k for k, c in enumerate(cases) if sub in c['name']]
    with mp.get_context('fork').Pool(int(os.environ.get('PROCS', '6'))) as pool:
        import threading
        buf = []
        th = threading.Thread(target=lambda: buf.append(rp.communicate()))
        th.start()
        res = pool.map(job, ks, 4)
        th.join()
    want = json.loads(buf[0][0])
    n = dict(agree=0, differ=0, unsupported=0, both_raise=0)
    for k, out in res:
        name = cases[k]['name']
        if isinstance(out, str):
            n['unsupported'] += SEEDS
            if os.environ.get('V'):
                print('   %s: %s' % (name, out[:150]))
            continue
        for s, got in enumerate(out):
            w = want['%s|%d' % (name, s)]
            if got[0] == 'unsupported':
                n['unsupported'] += 1
                if os.environ.get('V'):
                    print('   %s %d: %s' % (name, s, got[1][:150]))
            elif got[0] == 'raised' and w[0] == 'raised':
                n['both_raise'] += 1
            elif got[0] == w[0] and close(got[1], w[1]):
                n['agree'] += 1
            else:
                n['differ'] += 1
                print('DIFFER %s, data %d: model %s real %s' % (name, s, str(got)[:160], str(w)[:160]))
    print('%d cases, %d evaluations: %s' % (len(ks), len(ks) * SEEDS, n))
    return 1 if n['differ'] else 0


if __name__ == '__main__':
    sys.exit(main())
