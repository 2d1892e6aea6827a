"""Contracts: the disk (what saving touches, and what a crash leaves)."""
import os
from .contracts import *
from .contracts import T, C, L, SArr, SNum, TRUE, FALSE
from .contracts_c import nat
from .contracts_f import CALLS, DETERM
from .contracts_i import set_env, arguments, outcome, same_outcome, equal, WORK, content_of
from . import npmodel as M
from .vc import PathEnd

FOREIGN = {'/scratch/other/keep.txt': ('data', [('text', 'other')]), '/scratch/w2/keep.txt': ('data', [('text', 'w2')]),
           '/scratch/error.pkl': ('data', [('text', 'not a pickle')]), '/home/u/keep.txt': ('data', [('text', 'home')])}
INSIDE = {WORK + '/old.txt': ('data', [('text', 'old')]), WORK + '/sub/deep.txt': ('data', [('text', 'deep')])}


def disk(run, inside=True):
    f = C.CUR.fs = L.GhostFS()
    f.strict = True
    f.dirs |= {'/', '/home', '/home/u', '/scratch', '/scratch/other', '/scratch/w2'}
    f.files.update(FOREIGN)
    if inside:
        f.files.update(INSIDE)
        f.dirs |= {WORK, WORK + '/sub'}
    return f


def methods(cls):
    for m, kw in CALLS:
        if cls == 'Determ' and m not in DETERM or cls == 'Ensemble' and m in ('pit', 'prob_to_ens'):
            continue
        yield m, kw


# ---------------------------------------------------------------- C23
def cfg_c23(tier):
    out = []
    for cls in ALL:
        for mode in ('never', 'empty', 'disabled', 'scratch', 'keep', 'new', 'nested', 'home', 'slash', 'setter scratch', 'setter keep', 'setter new'):
            out.append(dict(cls=cls, mode=mode, members=cls in ('Gaussian', 'Hurdle') and mode in ('scratch', 'never'), _hints=hint(cls=cls)))
    return out


@contract('C23', cfg_c23)
def what_saving_touches(run):
    """every metric called under every saving mode: only the working directory changes, old content goes only when starting from scratch"""
    g = run.cfg
    mode = g['mode']
    set_env(run)
    v = V(run, g['cls'], 2)
    if g['members']:
        v.kw.update(n_sample_members=nat('Ns', 1))
    target = {'new': '/scratch/n', 'nested': '/scratch/n/a/b', 'home': '~/cache', 'slash': WORK + '/', 'setter new': '/scratch/n'}.get(mode, WORK)
    real = '/home/u/cache' if mode == 'home' else target.rstrip('/')
    scratch = 'scratch' in mode or mode == 'slash'
    f = disk(run)
    before, dirs = dict(f.files), set(f.dirs)
    off = mode in ('never', 'empty', 'disabled')
    if mode == 'never':
        ver = v.make()
    elif mode == 'empty':
        ver = v.make(working_directory='')
    elif mode.startswith('setter'):
        ver = v.make()
        run.goal('nothing before saving is enabled', FALSE if f.log else TRUE)
        ver.enable_saving(target, start_from_scratch=scratch)
    else:
        ver = v.make(working_directory=target, start_from_scratch=scratch)
        if mode == 'disabled':
            ver.disable_saving()
    if scratch:
        run.goal('starting from scratch removes the old content', FALSE if any(p in f.files for p in INSIDE) else TRUE)
    f.log.clear()
    for m, kw in methods(g['cls']):
        outcome(lambda: getattr(ver, m)(**arguments(run, kw, m)))
    if not scratch:
        outcome(lambda: ver.set_avg_axis((0,)))
        outcome(lambda: ver.error())
    if off:
        run.goal('with saving off nothing is written or removed', FALSE if f.log else TRUE)
    else:
        run.goal('the directory is there', TRUE if real in f.dirs else FALSE)
        run.soft = True
        run.goal('something is saved', TRUE if any(p.startswith(real + '/') for p in set(f.files) - set(before)) else FALSE)
        run.soft = False

    def inside(p):
        return p == real or p.startswith(real + '/')
    lost = sorted(p for p, c in before.items() if not inside(p) and f.files.get(p) != c)
    run.goal('files elsewhere are as before' + (' (%s)' % lost[0] if lost else ''), FALSE if lost else TRUE)
    new = sorted(p for p in set(f.files) - set(before) if off or not inside(p))
    run.goal('no file elsewhere is written' + (' (%s)' % new[0].split('\u27e6')[0] if new else ''), FALSE if new else TRUE)
    odd = sorted(p for p in set(f.dirs) ^ set(dirs) if not inside(p) and not (real.startswith(p + '/') and p in f.dirs) or off)
    run.goal('no directory elsewhere is made or removed' + (' (%s)' % odd[0] if odd else ''), FALSE if odd else TRUE)
    if not scratch:
        gone = sorted(p for p, c in before.items() if inside(p) and f.files.get(p) != c)
        run.goal('old content is kept' + (' (%s)' % gone[0] if gone else ''), FALSE if gone else TRUE)
    run.frame()


class Death(BaseException):
    pyvc_fault = True


CRASH = [('error', {}), ('crps', {}), ('cdf', 'below'), ('brier', 'over'), ('binned_spread_skill', 'nb'), ('corr', {}), ('variance', {}), ('f_determ', {}),
         ('rank_hist', {}), ('prob_to_ens', {})]


def cfg_c23c(tier):
    out = []
    for cls in ALL:
        for i, (m, kw) in enumerate(CRASH):
            if cls == 'Determ' and m not in DETERM or m == 'prob_to_ens' and cls == 'Ensemble':
                continue
            for boot in ((False, True) if m in ('error', 'crps') else (False,)):
                out.append(dict(cls=cls, call=i, m=m, boot=boot, _hints=hint(cls=cls)))
    return out


@contract('C23', cfg_c23c)
def crash(run):
    """the process dies after, or in the middle of, any change to the disk (without clean-up, or with: an exception): a later run works as
    if the entry had never been saved or had been saved completely; other entries are untouched"""
    g = run.cfg
    set_env(run)
    v = V(run, g['cls'], 1)
    m, kw = CRASH[g['call']]
    kw = arguments(run, kw, m)
    if m == 'prob_to_ens':
        v.kw.update(n_sample_members=nat('Ns', 1))
    s = dict(avg_axis=None, boot_samples=nat('Nsamp', 1) if g['boot'] else None)
    f = disk(run, inside=False)
    want = outcome(lambda: getattr(v.make(**s), m)(**kw))
    if want[0] != 'ok':
        run.goal('raises without saving', TRUE)
        return
    f.files[WORK + '/sq_error_of_another.pkl'] = ('data', [('pickle', 7)])
    f.dirs.add(WORK)
    first = (dict(f.files), set(f.dirs))

    def use():
        w = v.make(working_directory=WORK, start_from_scratch=False, **s)
        return getattr(w, m)(**kw)

    def put(state):
        f.files.clear()
        f.files.update(state[0])
        f.dirs.clear()
        f.dirs.update(state[1])

    def crashes(state):
        """states left by a death at every change to the disk made by a run from this state"""
        out = []
        put(state)
        f.on_step = lambda what: out.append((what, f.state()))
        outcome(use)
        f.on_step = None
        n = len(out)
        for k in range(n):                        # the same with the clean-up code of the program
            put(state)
            count = [0]

            def die(what):
                count[0] += 1
                if count[0] == k + 1:
                    f.on_step = None
                    raise Death(str(what))
            f.on_step = die
            M.reseed()
            try:
                use()
            except Death:
                pass
            finally:
                f.on_step = None
            out.append((out[k][0] + ('raised',), f.state()))
        return out

    def later(label, state):
        put(state)
        got = outcome(use)
        same_outcome(run, label, got, want)
        run.goal(label + ': other entries untouched', TRUE if f.files.get(WORK + '/sq_error_of_another.pkl') == first[0][WORK + '/sq_error_of_another.pkl'] else FALSE)
        bad = sorted(p for p, c in FOREIGN.items() if f.files.get(p) != c)
        run.goal(label + ': files elsewhere untouched', FALSE if bad else TRUE)

    def say(what):
        return ' '.join(str(x).rsplit('/', 1)[-1].split('\u27e6')[0] for x in what)
    one = crashes(first)
    run.soft = True
    run.goal('there are changes to crash at', TRUE if one else FALSE)
    run.soft = False
    for what, st in one:
        later('after a death at %s' % say(what), st)
    if m in ('error', 'cdf', 'prob_to_ens'):
        for what, st in one:                      # and a second death in the run after
            for what2, st2 in crashes(st):
                later('after deaths at %s and %s' % (say(what), say(what2)), st2)
    run.frame()
