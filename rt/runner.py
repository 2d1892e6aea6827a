"""Run the executable contracts of one property on the real code.
usage: runner.py PROP BASE COUNT SECONDS [HINTS.json]   -> one JSON object on stdout
HINTS: list of {"over": {...}, "tries": n} tried first (counter-models of refuted obligations)."""
import json
import os
import re
import signal
import sys
import time
import traceback

os.environ['OMP_NUM_THREADS'] = os.environ['OPENBLAS_NUM_THREADS'] = '1'
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
out = os.dup(1)
os.dup2(2, 1)                                    # anything the code under test prints goes to stderr


class Slow(BaseException):
    pass


def on_alarm(*a):
    raise Slow()


def attempt(common, fn, prop, seed, over):
    c = common.Case(prop, seed, over)
    signal.setitimer(signal.ITIMER_REAL, 12)
    try:
        fn(c)
        return 'ok', '', c
    except Slow:
        return 'slow', '', c
    except common.Known as e:
        return 'known', str(e), c
    except common.Fail as e:
        return 'fail', str(e), c
    except MemoryError:
        return 'slow', 'memory', c
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        in_repo = any(f.filename.startswith(common.REPO) for f in tb)
        if isinstance(e, (AttributeError, TypeError)) and not in_repo and (
                "module 'PyAnEn" in str(e) or re.search(r'\b_[a-z]\w*\(\)', str(e))):
            return 'unbound', str(e), c
        if over and not in_repo:
            return 'ok', '', c                   # a hint the generator cannot express
        where = [f for f in tb if f.filename.startswith(common.REPO)][-1:] or tb[-1:]
        return 'fail', 'the code raised %s: %s (at %s:%s) on a valid input' % (
            type(e).__name__, str(e)[:200], os.path.basename(where[0].filename), where[0].name), c
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def main():
    prop, base, count, secs = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), float(sys.argv[4])
    hints = json.load(open(sys.argv[5])) if len(sys.argv) > 5 else []
    t0 = time.time()
    signal.signal(signal.SIGALRM, on_alarm)
    res = dict(prop=prop, evaluations=0, nontrivial=0, slow=0, unbound=0, known={}, fails=[], samples=[], import_error=None)
    try:
        import common
        from props_a import PROPS
        import props_b                            # noqa: F401
    except BaseException as e:                    # the tree does not import
        res['import_error'] = '%s: %s' % (type(e).__name__, str(e)[:300])
        res['import_tb'] = traceback.format_exc()[-1500:]
        os.write(out, json.dumps(res).encode())
        return
    fn = PROPS[prop]
    seen = set()
    res['new_literals'] = [float(x) for x in common.NEW_LITS][:20]

    def one(seed, over):
        k, msg, c = attempt(common, fn, prop, seed, over)
        res['evaluations'] += 1
        sig = json.dumps(c.log, sort_keys=True, default=str)
        if sig not in seen:
            seen.add(sig)
            if c.log:
                res['nontrivial'] += 1
        if k == 'ok' and len(res['samples']) < 3 and c.log:
            res['samples'].append(dict(seed=seed, choices=json.loads(sig)))
        if k in ('slow', 'unbound'):
            res[k] += 1
        if k == 'known':
            res['known'][msg] = res['known'].get(msg, 0) + 1
        if k == 'fail':
            res['fails'].append(dict(seed=seed, over=over, message=msg[:1500], choices=json.loads(sig)))
        return k

    for h in hints:
        for j in range(h.get('tries', 20)):
            if time.time() - t0 > secs or len(res['fails']) >= 3:
                break
            one(base + j, h['over'])
    for s in range(base, base + count):
        if time.time() - t0 > secs or len(res['fails']) >= 3:
            break
        one(s, None)
    res['seconds'] = time.time() - t0
    os.write(out, json.dumps(res, default=str).encode())


main()
