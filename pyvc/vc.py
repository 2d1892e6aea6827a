"""Verifier driver: generate and discharge the obligations of one property's contracts from /repo's current source.

    python3-vt -m pyvc.main PROP [quick|thorough] [only=substring]        -> JSON on stdout
"""
import itertools
import ast
import hashlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback
from . import terms as T
from . import core as C
from . import smt
from . import npmodel as M
from . import libmodels as L
from . import loader as LD
from .core import SArr, SNum, SList, Unsupported, PathEnd, TRUE, FALSE, lift, is_scalar

REPO = os.environ.get('PYVC_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
RANGES = {'first item arrives last': lambda rng: True, 'unif': lambda rng: round(rng.uniform(.01, .99), 3)}
CONTRACTS = {}


class Contract:
    def __init__(self, prop, fn, configs, name):
        self.prop, self.fn, self.configs, self.name = prop, fn, configs, name


def contract(prop, configs, name=None):
    """configs(tier) -> list of dicts; fn(run) executes the code under one configuration on the current path"""
    def d(fn):
        CONTRACTS.setdefault(prop, []).append(Contract(prop, fn, configs, name or fn.__name__))
        return fn
    return d


# ---------------------------------------------------------------- data
def declare(name, lo=None, hi=None, lo_open=False, hi_open=False):
    """real-valued input data with a range"""
    import z3
    ax = []
    if lo is not None:
        ax.append((lambda tr, t, x: x > z3.RealVal(str(lo))) if lo_open else (lambda tr, t, x: x >= z3.RealVal(str(lo))))
    if hi is not None:
        ax.append((lambda tr, t, x: x < z3.RealVal(str(hi))) if hi_open else (lambda tr, t, x: x <= z3.RealVal(str(hi))))
    if ax:
        smt.UFAX[name] = ax
        SIGNS[name] = (lo, lo_open)
        if lo is not None and (lo > 0 or lo == 0 and lo_open):
            T.POS.add(name)

        def gen(rng):
            if lo is not None and hi is not None:
                ends = ([] if lo_open else [float(lo)]) + ([] if hi_open else [float(hi)])
                if ends and rng.random() < .15:
                    return rng.choice(ends)
                return round(lo + (hi - lo) * rng.uniform(.02, .98), 3)
            if lo is not None:
                if not lo_open and rng.random() < .2:
                    return float(lo)
                return lo + rng.choice((.25, .5, 1., 1.5, 2.)) if rng.random() < .4 else round(lo + rng.uniform(.05, 4), 3)
            return hi - round(rng.uniform(.05, 4), 3)
        RANGES[name] = gen


SIGNS = {}


def dims(n, names=('Na', 'Nb', 'Nc', 'Nd', 'Ne')):
    return [T.var(x, 'I') for x in names[:n]]


class Run:
    """one path of one configuration"""

    def __init__(self, cfg, con):
        self.cfg, self.con = cfg, con
        self.goals = []
        self.raised = None
        self.unsup = None
        self.w = None
        self.hints = []
        self.inputs = []
        self.notes = []

    # ---- set-up
    def env(self, **kw):
        for k, v in kw.items():
            C.CUR.env['pyanen_' + k] = C.token(v) if isinstance(v, SNum) else str(v)

    def world(self, overrides=None):
        ov = {('utils_approximation', '_ray_to_iterator'): L.ray_iterator}
        ov.update(overrides or {})
        self.w = LD.World(REPO, ov)
        self.np = self.w.libs['numpy']
        return self.w

    def data(self, name, exts, nan=False, kind='float', **rng):
        exts = list(exts)
        if rng:
            declare(name, **rng)

        def elem(idx):
            if kind == 'bool':
                return T.uf(name, tuple(idx), 'B'), FALSE
            v = T.uf(name, tuple(idx), 'I' if kind == 'int' else 'R')
            return v, (T.uf(name + '?', tuple(idx), 'B') if nan else FALSE)
        a = SArr.new([(e,) for e in exts], elem, kind, owner=name, name=name)
        self.inputs.append((name, a, elem))
        return a

    def num(self, name, kind='float', **rng):
        if rng:
            declare(name, **rng)
            return SNum(T.uf(name, (), 'I' if kind == 'int' else 'R'), FALSE, kind)
        return SNum(T.var(name, 'I' if kind == 'int' else 'R'), FALSE, kind)

    # ---- goals
    soft = False         # goals of an optional strengthening: failing them is reported as undecided, never as a violation

    def goal(self, label, g, H=()):
        self.goals.append(dict(label=label, hyps=list(H), goal=g, soft=self.soft, pairs=[(T.and_(*H) if H else TRUE, g, TRUE)], pc=list(C.CUR.pc)))

    def eqnum(self, label, got, want, H=()):
        """equality of two element pairs (value, nan)"""
        (gv, gn), (wv, wn) = got, want
        self.goals.append(dict(label=label, hyps=list(H), eq=(gv, gn, wv, wn), soft=self.soft, pc=list(C.CUR.pc)))

    def same(self, label, got, want):
        """got equals want: same structure, same shape, same elements"""
        got, want = LD.sym(got), LD.sym(want)
        if isinstance(want, (tuple, list)) and not isinstance(want, SList):
            if not isinstance(got, (tuple, list)) or len(got) != len(want):
                self.goal(label + ': is a sequence of %d' % len(want), FALSE)
                return
            for k, (g, w) in enumerate(zip(got, want)):
                self.same('%s[%d]' % (label, k), g, w)
            return
        if want is None or isinstance(want, (str, bool)) and not is_num(got):
            self.goal(label, TRUE if got is want or got == want else FALSE)
            return
        if isinstance(got, (SList, list, tuple)):
            got = M.array(got)
        a, b = C.as_arr(got), C.as_arr(want)
        if a.ndim != b.ndim:
            self.goal(label + ': number of axes', FALSE)
            return
        if a.ndim == 1 and a.guard is not None and b.guard is not None and len(a.exts) == len(b.exts) == 1 and a.exts != b.exts:
            # selections from ranges of different length: the selected positions agree
            i = T.fresh('i')
            H = [T.le(T.const(0), i), T.lt(i, a.exts[0]), T.lt(i, b.exts[0])]
            gb = b.guard((i,))
            self.goal(label + ': selected elements', T.iff(a.guard((i,)), gb), H)
            self.eqnum(label, a.fn()((i,)), b.fn()((i,)), H + [gb])
            d = T.sub(a.exts[0], b.exts[0])          # positions only one of the two has are not selected
            if not T.is_const(d):
                for x, y in ((a, b), (b, a)):
                    self.goal(label + ': selected elements', T.not_(x.guard((i,))), [T.le(y.exts[0], i), T.lt(i, x.exts[0])])
            else:
                x, y, d = (a, b, T.cval(d)) if T.cval(d) > 0 else (b, a, -T.cval(d))
                for j in range(int(d)):
                    self.goal(label + ': selected elements', T.not_(x.guard((T.add(y.exts[0], T.const(j)),))))
            return
        for k in range(a.ndim):
            if a.guard is None and b.guard is None:
                pa, pb = C.prod(a.axes[k]), C.prod(b.axes[k])
                if pa is not pb:
                    self.goal(label + ': length of axis %d' % k, T.eq(pa, pb))
                    if smt.SOLVER.decide(T.eq(pa, pb), C.CUR.pc) is not True:
                        return
        if (a.guard is None) != (b.guard is None):
            self.goal(label + ': selection of elements', FALSE)
            return
        ia, ib, H, vall, eall = [], [], [], [], []
        for k in range(a.ndim):
            x, y = a.axes[k], b.axes[k]
            fine, coarse = (x, y) if len(x) >= len(y) else (y, x)
            vs = tuple(T.fresh('i') for _ in fine)
            H += smt.bounds(vs, fine)
            vall += vs
            eall += fine
            rc = vs if fine == coarse or len(fine) == len(coarse) == 1 else C.recombine(vs, fine, coarse)
            ia += list(vs if fine is x else rc)
            ib += list(vs if fine is y else rc)
        small = [(v, int(T.cval(e))) for v, e in zip(vall, eall) if T.is_const(e)]
        combos = 1
        for v, e in small:
            combos *= e
        if a.guard is not None or combos > 16:
            small = []
        for vals in itertools.product(*[range(e) for v, e in small]):
            m = {v: T.const(k) for (v, e), k in zip(small, vals)}
            ja, jb, J = ([T.subst(x, m) for x in l] for l in (ia, ib, H))
            lab = label + (' at ' + ','.join(map(str, vals)) if combos > 1 and vals else '')
            if a.guard is not None:
                ga, gb = a.guard(tuple(ja)), b.guard(tuple(jb))
                self.goal(lab + ': selected elements', T.iff(ga, gb), J)
                J = J + [gb]
            self.eqnum(lab, a.fn()(tuple(ja)), b.fn()(tuple(jb)), J)

    def rejects(self, label, fn, types=Exception):
        """the call raises"""
        try:
            fn()
        except (Unsupported, PathEnd):
            raise
        except types:
            self.goal(label, TRUE)
            return
        self.goal(label, FALSE)

    def frame(self, label='inputs unchanged'):
        """no write reached an input buffer, or every element is what it was"""
        for name, a, elem in self.inputs:
            if not any(e[0] == 'write' and e[1] == name for e in C.CUR.events):
                self.goal('%s: %s' % (label, name), TRUE)
                continue
            vs = tuple(T.fresh('i') for _ in a.exts)
            self.eqnum('%s: %s' % (label, name), a.buf.elem(vs), elem(vs), smt.bounds(vs, a.exts))


def is_num(x):
    return is_scalar(x) or isinstance(x, (SArr, SList))


# ---------------------------------------------------------------- exploration
def explore(con, cfg, maxpaths=200):
    pend, n = [[]], 0
    while pend:
        c = C.Ctx(pend.pop())
        C.set_ctx(c)
        c.env = dict(LD.DEFAULT_ENV)
        r = Run(cfg, con)
        try:
            con.fn(r)
        except PathEnd:
            r = None
        except Unsupported as e:
            r.unsup = str(e) or 'unsupported'
            r.tb = traceback.extract_tb(e.__traceback__)
        except RecursionError:
            r.unsup = 'recursion'
        except Exception as e:
            r.raised = e
            r.tb = traceback.extract_tb(e.__traceback__)
        pend += c.forks
        n += 1
        if r is not None:
            r.ctx = c
            r.entered = set(r.w.vc.entered) if r.w is not None else set()
            yield r
        if n >= maxpaths:
            if pend:
                r = Run(cfg, con)
                r.unsup = 'more than %d paths' % maxpaths
                r.ctx, r.entered = c, set()
                yield r
            return


def cfgname(cfg):
    return ','.join('%s=%s' % (k, v if not callable(v) else getattr(v, '__name__', 'fn')) for k, v in cfg.items() if not k.startswith('_'))


def pairs_of(g):
    if 'eq' not in g:
        return g['pairs']
    gv, gn, wv, wn = g['eq']
    H = T.and_(*g['hyps']) if g['hyps'] else TRUE
    ok = T.and_(H, T.not_(gn), T.not_(wn))
    if gv.sort == 'B' or wv.sort == 'B':
        gv, wv = C.tonum(gv), C.tonum(wv)
    return [(H, gn, wn), (ok, gv, wv)]


def prove_goal(g):
    H = g['pc'] + g['hyps']
    S = smt.SOLVER
    if 'eq' in g:
        gv, gn, wv, wn = g['eq']
        if gn is not wn and not S.prove(T.iff(gn, wn), H):
            return False
        if gn is TRUE:
            return True
        if gv is wv:
            smt.STAT['nf'] += 1
            return True
        H2 = H + [T.not_(wn)] if wn is not FALSE else H
        gv, wv = C.tonum(gv), C.tonum(wv)
        if gv is wv:
            return True
        return S.prove(T.eq(gv, wv), H2)
    return S.prove(g['goal'], H)


def tbtext(r):
    fr = [f for f in r.tb if '/PyAnEn/' in f.filename]
    return '%s:%d' % (os.path.basename(fr[-1].filename), fr[-1].lineno) if fr else ''


def run_config(con, cfg, tier):
    """-> obligations, functions, paths; once more with long loops summarised when unrolling them makes too many paths"""
    C.SYMLOOPS = False
    first = run_once(con, cfg, tier)
    if any(o['status'] == 'unknown' and 'too many paths in a l' in o['reason'] for o in first[0]):
        C.SYMLOOPS = True
        try:
            second = run_once(con, cfg, tier)
        finally:
            C.SYMLOOPS = False
        if not any(o['status'] == 'unknown' for o in second[0]):
            return second
    return first


def run_once(con, cfg, tier):
    """-> list of obligation dicts"""
    out, funcs, npaths = [], set(), 0
    base = '%s.%s[%s]' % (con.prop, con.name, cfgname(cfg))
    agg = {}

    def add(label, status, reason='', detail='', hints=()):
        k = '%s %s' % (base, label)
        o = agg.get(k)
        rank = {'proved': 0, 'unknown': 1, 'refuted': 2}
        if o is None or rank[status] > rank[o['status']]:
            agg[k] = dict(name=k, status=status, reason=reason, detail=detail, hints=list(hints))
    sat = 0
    tl = 6.0 if tier == 'quick' else 20.0
    for r in explore(con, cfg):
        npaths += 1
        funcs |= r.entered
        hints = r.hints or hints_of(cfg)
        if r.unsup is not None:
            add('execution', 'unknown', 'outside the modelled fragment: %s %s' % (r.unsup, tbtext(r) if hasattr(r, 'tb') else ''))
        elif r.raised is not None:
            e = r.raised
            inner = r.tb[-1].filename if r.tb else ''
            own = not inner.startswith(os.path.join(REPO, LD.PKG)) and not (inner.startswith(HERE) and type(e) in (ValueError, IndexError, M.AxisError, FileNotFoundError, FileExistsError, OSError))
            txt = '%s: %s at %s' % (type(e).__name__, str(e)[:120], tbtext(r))
            if own and os.environ.get('PYVC_TB'):
                traceback.print_exception(e)
            if own:
                add('execution', 'unknown', 'model: ' + txt)
            else:
                m = smt.refute([(TRUE, FALSE, TRUE)], r.ctx.pc, RANGES, 300, None, tl)
                add('no exception', 'refuted' if m is not None else 'unknown', txt, detail='path %s' % [T.show(t, 80) for t in r.ctx.pc][:6], hints=hints)
        if r.raised is None and r.unsup is None and r.goals:
            sat += 1
        if r.raised is not None or r.unsup is not None:
            goals = r.goals
        else:
            goals = r.goals
        for g in goals:
            if os.environ.get('PYVC_TRACE'):
                t0 = time.time()
                if os.environ.get('PYVC_SHOWALL', '\0') in g['label']:
                    for x in g.get('eq', (g.get('goal'),)):
                        print('   ', T.show(x, 6000), file=sys.stderr)
            try:
                if any(T.INF in x.fv for x in g.get('eq', (g.get('goal'),))):
                    raise Unsupported('infinity in the result')
                ok = prove_goal(g)
            except Unsupported as e:
                add(g['label'], 'unknown', str(e))
                continue
            if os.environ.get('PYVC_TRACE'):
                print('%6.2f %s %s %s' % (time.time() - t0, ok, base, g['label']), file=sys.stderr)
            if ok:
                add(g['label'], 'proved')
                continue
            if g.get('soft'):
                add(g['label'], 'unknown', 'optional strengthening not proved')
                continue
            try:
                m = smt.refute(pairs_of(g), g['pc'] + g['hyps'], RANGES, 500, None, tl)
            except RecursionError:
                m = None
            if os.environ.get('PYVC_SHOW'):
                for x in g.get('eq', (g.get('goal'),)):
                    print('   ', T.show(x, 1500), file=sys.stderr)
                print('   pc', [T.show(t, 300) for t in g['pc'] + g['hyps']], file=sys.stderr)
            if m is not None:
                v = {k: x for k, x in m['vars'].items() if not k.startswith(('%', 'b!'))}
                add(g['label'], 'refuted', 'counter-model', 'code gives %s, contract requires %s with %s' % (m['impl'], m['spec'], v), hints=hints)
            else:
                add(g['label'], 'unknown', 'not proved and no counter-model found')
    if not agg:
        add('execution', 'unknown', 'no path')
    return list(agg.values()), sorted(funcs), npaths, sat


def hints_of(cfg):
    return cfg.get('_hints', [])


DEADLINE = None


class TimeLimit(BaseException):
    pass


def out_of_time(*a):
    raise TimeLimit()


def job(a):
    sys.setrecursionlimit(20000)
    con, cfg, tier = CONTRACTS[a[0]][a[1]], None, a[3]
    cfg = con.configs(tier)[a[2]]
    t0 = time.time()
    for k in smt.STAT:
        smt.STAT[k] = 0 if isinstance(smt.STAT[k], int) else 0.0
    lim = 45 if tier == 'quick' else 240
    if DEADLINE is not None:
        lim = min(lim, int(DEADLINE - time.time()))
    try:
        if lim < 1:
            raise TimeLimit()
        signal.signal(signal.SIGALRM, out_of_time)
        signal.alarm(lim)
        try:
            obs, funcs, np_, sat = run_config(con, cfg, tier)
        finally:
            signal.alarm(0)
    except TimeLimit:
        smt.SOLVER.cache.clear()
        obs, funcs, np_, sat = [dict(name='%s.%s[%s] execution' % (con.prop, con.name, cfgname(cfg)), status='unknown',
                                     reason='time limit of the verifier', detail='', hints=[])], [], 0, 0
    except Exception as e:                        # a defect of the verifier itself is never a verdict
        if os.environ.get('PYVC_TB'):
            traceback.print_exc()
        obs, funcs, np_, sat = [dict(name='%s.%s[%s] execution' % (con.prop, con.name, cfgname(cfg)), status='unknown',
                                     reason='verifier error %s: %s' % (type(e).__name__, e), detail='', hints=[])], [], 0, 0
    return obs, funcs, np_, sat, dict(smt.STAT), sorted(M.USED), time.time() - t0


def all_functions():
    out = {}
    d = os.path.join(REPO, LD.PKG)
    for fn in sorted(os.listdir(d)):
        if fn.endswith('.py'):
            t = ast.parse(open(os.path.join(d, fn)).read())

            def walk(n, q):
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                        if isinstance(c, ast.FunctionDef):
                            out['.'.join([fn[:-3]] + q + [c.name])] = hashlib.sha256(ast.dump(c).encode()).hexdigest()[:12]
                        walk(c, q + [c.name])
            walk(t, [])
    return out


def main():
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else 'quick'
    only = [a[5:] for a in sys.argv[3:] if a.startswith('only=')]
    from . import contracts
    contracts.load_all()
    t0 = time.time()
    if os.environ.get('PYVC_SECS'):
        globals()['DEADLINE'] = t0 + float(os.environ['PYVC_SECS'])
    jobs = []
    for ci, con in enumerate(CONTRACTS.get(prop, [])):
        for k, cfg in enumerate(con.configs(tier)):
            nm = '%s[%s]' % (con.name, cfgname(cfg))
            if not only or all(o in nm for o in only):
                jobs.append((prop, ci, k, tier))
    procs = int(os.environ.get('PYVC_PROCS', '4'))
    if procs > 1 and len(jobs) > 1:
        with multiprocessing.get_context('fork').Pool(procs, maxtasksperchild=20) as p:
            res = p.map(job, jobs, chunksize=1)
    else:
        res = [job(j) for j in jobs]
    obs, funcs, paths, sat, used, stat = [], set(), 0, 0, set(), {}
    for o, f, n, s, st, u, dt in res:
        obs += o
        funcs |= set(f)
        paths += n
        sat += s
        used |= set(u)
        for k, v in st.items():
            stat[k] = stat.get(k, 0) + v
        if os.environ.get('PYVC_TRACE'):
            print('%6.2fs %s' % (dt, o[0]['name'] if o else ''), file=sys.stderr)
    allf = all_functions()
    out = dict(obligations=obs, functions=sorted(funcs & set(allf)), unbound_functions=[], paths=paths, contexts=len(jobs), nonvacuous=sat,
               backends={'normal form': stat.get('nf', 0) + stat.get('eq', 0), 'z3 %s' % smt.z3.get_version_string(): stat.get('z3', 0), 'cvc5 cross-check': stat.get('cvc5', 0),
                         'cvc5 disagreements': stat.get('cvc5_disagree', 0)},
               solver_seconds=round(stat.get('z3_time', 0) + stat.get('cvc5_time', 0), 2), seconds=round(time.time() - t0, 2),
               trusted=['library contract: ' + u for u in sorted(used)], assumptions=contracts.ASSUMPTIONS + contracts.PROP_ASSUMPTIONS.get(prop, []),
               obligation_names=[o['name'] for o in obs][:400])
    if os.environ.get('PYVC_HUMAN'):
        for o in obs:
            if o['status'] != 'proved':
                print(o['status'].upper(), o['name'], '|', o['reason'], '|', o['detail'][:400])
        print(len(obs), 'obligations', sum(o['status'] == 'proved' for o in obs), 'proved', 'paths', paths, 'sat', sat, out['backends'], 'solver', out['solver_seconds'], 's total', out['seconds'])
        return
    json.dump(out, sys.stdout, default=str)

