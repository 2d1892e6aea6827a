"""Contracts: what is left behind when a call ends, normally or by an exception raised at any point."""
import os
import sys
from .contracts import *
from .contracts import T, C, L, SArr, SNum, TRUE, FALSE
from .contracts_c import nat, StubVerifier, hurdle_cdf
from . import loader as LD
from .vc import PathEnd, REPO

HERE = os.path.dirname(os.path.abspath(__file__))
FAILING = {os.path.join(HERE, f) for f in ('npmodel.py', 'libmodels.py')} | {os.path.join(HERE, 'contracts_c.py'), os.path.join(HERE, 'contracts_h.py')}
# operations of the clean-up itself (and queries) are taken not to fail
SAFE = {'_exists', '_isdir', '_isfile', '_remove', '_rmtree', '_join', '_expanduser', '_basename', '_dirname', '__getitem__', '__setitem__', '__contains__',
        '__delitem__', 'pop', 'get', 'items', 'keys', 'update', '__iter__', '__getattr__', '__init__', 'strtobool', '<lambda>', 'close', 'set_description',
        'to_name', 'pyvc_subst', 'basename', 'dirname', 'copy', 'fs', 'step', 'partial', 'tqdm', 'shutdown', 'elem'}


class Fault(Exception):
    pyvc_fault = True


class Stop(BaseException):
    pyvc_fault = True


class Injector:
    """raises at the k-th point where an operation called by the code under test begins (or, for operations that change the disk, ends)"""

    def __init__(self, root, at=None, exc=Fault):
        self.root, self.at, self.exc = root, at, exc
        self.n, self.where, self.fired = 0, [], False

    def hit(self, frame, what):
        if frame.f_back is None:
            return
        self.n += 1
        label = '%s of %s called at %s:%s' % (what, frame.f_code.co_name, os.path.basename(frame.f_back.f_code.co_filename), frame.f_back.f_lineno)
        self.where.append(label)
        if self.at is not None and self.n == self.at and not self.fired:
            self.fired = True
            sys.settrace(None)
            raise self.exc('injected at the ' + label)

    def trace(self, frame, event, arg):
        if event != 'call' or self.fired:
            return None
        c = frame.f_code
        if c.co_filename not in FAILING or c.co_name in SAFE:
            return None
        b = frame.f_back
        if b is None or not b.f_code.co_filename.startswith(self.root):
            return None
        self.hit(frame, 'start')
        if c.co_name in ('memmap', '_makedirs', '_replace'):
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == 'return':
            self.hit(frame, 'end')
        return self.local

    def run(self, fn):
        old = sys.gettrace()
        sys.settrace(self.trace)
        try:
            fn()
            return 'returned'
        except (C.Unsupported, PathEnd):
            raise
        except (Fault, Stop) as e:
            return 'raised'
        except Exception as e:
            return 'raised ' + type(e).__name__
        finally:
            sys.settrace(old)


def settings():
    return {k: v for k, v in C.CUR.env.items() if k.startswith('pyanen_')}


def same_settings(run, label, before):
    now = settings()
    bad = sorted(k for k in set(before) | set(now) if (k in before) != (k in now) or before.get(k) != now.get(k))
    run.goal('%s: settings as before' % label + (' (%s: %s -> %s)' % (bad[0], before.get(bad[0]), now.get(bad[0])) if bad else ''), FALSE if bad else TRUE)


def same_files(run, label, before, dirs):
    f = C.CUR.fs
    bad = sorted(set(before) ^ set(f.files)) + sorted(set(dirs) ^ set(f.dirs))
    run.goal('%s: no file left or lost' % label + (' (%s)' % bad[0] if bad else ''), FALSE if bad else TRUE)


def restore(env, files, dirs):
    C.CUR.env.clear()
    C.CUR.env.update(env)
    C.CUR.fs.files.clear()
    C.CUR.fs.files.update(files)
    C.CUR.fs.dirs.clear()
    C.CUR.fs.dirs.update(dirs)


def everywhere(run, name, make, root):
    """the call made by make() restores settings and disk: when it returns, and when any operation it calls raises"""
    env, files, dirs = dict(C.CUR.env), dict(C.CUR.fs.files), set(C.CUR.fs.dirs)
    call = make()
    env1 = settings()
    j = Injector(root)
    end = j.run(call)
    same_settings(run, '%s, %s' % (name, end), env1)
    same_files(run, '%s, %s' % (name, end), files, dirs)
    run.soft = True
    run.goal('%s returns' % name, TRUE if end == 'returned' else FALSE)
    run.goal('%s has operations that can fail' % name, TRUE if j.n >= 2 else FALSE)
    run.soft = False
    seen = set()
    for k in range(1, j.n + 1):
        if j.where[k - 1] in seen:
            continue
        seen.add(j.where[k - 1])
        for exc in (Fault, Stop):
            restore(env, files, dirs)
            call = make()
            e1 = settings()
            q = Injector(root, k, exc)
            q.run(call)
            lab = '%s, %s at the %s' % (name, exc.__name__, j.where[k - 1])
            same_settings(run, lab, e1)
            same_files(run, lab, files, dirs)
    restore(env, files, dirs)


def cfg_c21(tier):
    out = []
    for r in (ranks(tier) if tier == 'thorough' else (1, 2)):
        for m in ('crps', 'mean', 'variance'):
            for par in (False, True):
                for less in (False, True):
                    for wdir in (('', '/scratch/w') if less else ('',)):
                        out.append(dict(rank=r, metric=m, par=par, less=less, wdir=wdir, _hints=hint(metric=m)))
    return out


@contract('C21', cfg_c21)
def integration_ends(run):
    g = run.cfg
    run.world()
    C.CUR.fs = L.GhostFS()
    C.CUR.fs.files['/scratch/w/other.dat'] = ('data', [b'x'])
    C.CUR.fs.dirs.add('/scratch/w')
    run.env(tqdm_workers=nat('Nw', 2) if g['par'] else 1, integrate_with_less_memory=g['less'], integrate_wdir=g['wdir'], tqdm_disable='yes')
    o = run.data('o', dims(g['rank']))
    A = run.w.load('utils_approximation')
    nb = nat('Nbins', 2)
    lo, hi = run.num('lo'), run.num('hi')
    root = os.path.join(REPO, 'PyAnEn')

    def make():
        I = A.Integration(StubVerifier(o), integration_range=(lo, hi), nbins=nb)
        return getattr(I, g['metric'])
    everywhere(run, g['metric'], make, root)
    run.frame()


def cfg_c21h(tier):
    return [dict(metric=m, par=par, less=less, _hints=hint(cls='Hurdle')) for m in ('f_determ', 'variance', 'crps', 'error')
            for par in (False, True) for less in (False, True)]


@contract('C21', cfg_c21h)
def hurdle_ends(run):
    """the same through the metrics of the gamma-hurdle verifier"""
    g = run.cfg
    run.world({('VerifyProbGammaHurdle', 'cdf_gamma_hurdle'): hurdle_cdf})
    C.CUR.fs = L.GhostFS()
    run.env(tqdm_workers=nat('Nw', 2) if g['par'] else 1, integrate_with_less_memory=g['less'])
    v = V(run, 'Hurdle', 2, avg_axis=())
    root = os.path.join(REPO, 'PyAnEn')

    def make():
        ver = v.make()
        f = getattr(ver, g['metric'])
        return f
    everywhere(run, g['metric'], make, root)
    run.frame()
