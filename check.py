#!/usr/bin/env python3
"""Decide one property of PyAnEn on /repo's current working tree.

  check.py PROP            quick or thorough, by VERIF_TIER
  check.py --replay FILE   run a recorded failing case against the real code again

1. The deductive verifier (pyvc, under python3-vt) generates and discharges the obligations of the property's
   contracts from the current source.
2. The same contracts are executed on the real code (rt, under /opt/venv): counter-models of failed obligations
   first, then generated cases.  This is the replay, and the bounded stand-in where the verifier cannot follow.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/venv/bin/python'
VT = 'python3-vt'
REPO = os.environ.get('PYVC_REPO', '/repo')


def sh(cmd, timeout, env=None):
    e = dict(os.environ)
    for k in [k for k in e if k.startswith('pyanen_')]:
        del e[k]
    e.update({'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
              'PYTHONWARNINGS': 'ignore'})
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=HERE)
        return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as x:
        return 'timeout', '', (x.stderr or b'').decode('utf8', 'replace')


def runtime(prop, base, count, secs, hints=None):
    cmd = [VENV, os.path.join(HERE, 'rt', 'runner.py'), prop, str(base), str(count), str(secs)]
    tmp = None
    if hints:
        fd, tmp = tempfile.mkstemp(suffix='.json', prefix='pyvc_h_')
        with os.fdopen(fd, 'w') as f:
            json.dump(hints, f)
        cmd.append(tmp)
    try:
        rc, out, err = sh(cmd, secs + 60)
    finally:
        if tmp:
            os.unlink(tmp)
    try:
        return json.loads(out)
    except ValueError:
        return dict(prop=prop, evaluations=0, nontrivial=0, slow=0, unbound=0, known={}, fails=[], samples=[],
                    import_error='runner ended with %s: %s' % (rc, err[-800:]))


def deductive(prop, tier, secs):
    if not os.path.exists(os.path.join(HERE, 'pyvc', 'main.py')):
        return None
    rc, out, err = sh([VT, '-m', 'pyvc.main', prop, tier], secs, dict(PYVC_SECS=str(secs - 25)))
    try:
        return json.loads(out)
    except ValueError:
        return dict(error='verifier ended with %s' % rc, stderr=err[-1500:], obligations=[], functions=[], trusted=[], assumptions=[])


def findings():
    p = os.path.join(HERE, 'findings', 'known-findings.txt')
    out = []
    for l in open(p):
        l = l.strip()
        if l.startswith('finding:'):
            d = dict(x.split('=', 1) for x in l[len('finding:'):].strip().split(' ', 1)[:1])
            out.append((d['property'], l[len('finding:'):].strip().split(' ', 1)[1]))
    return out


def main():
    if sys.argv[1] == '--replay':
        r = json.load(open(sys.argv[2]))
        if 'case' not in r:
            print('no failing input recorded; failed obligation:', r.get('obligation'))
            return 0
        h = [dict(over=r['case']['over'], tries=1)] if r['case'].get('over') else None
        res = runtime(r['property'], r['case']['seed'], 0 if h else 1, 60, h)
        print(json.dumps(res['fails'], indent=1))
        return 1 if res['fails'] else 0
    prop = sys.argv[1]
    tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' or '--thorough' in sys.argv else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    thorough = tier == 'thorough'
    workers = 7
    secs = 120. if thorough else 9.
    vsecs = 800 if thorough else 240
    base = seed * 10_000_000 % 1_000_000_000
    rts, ded = [], None
    with cf.ThreadPoolExecutor(workers + 1) as ex:
        fd = ex.submit(deductive, prop, tier, vsecs)
        fr = [ex.submit(runtime, prop, base + w * 1_000_000, 10 ** 6, secs) for w in range(workers)]
        ded = fd.result()
        rts = [f.result() for f in fr]
    fails = [f for r in rts for f in r['fails']]
    obs = (ded or {}).get('obligations', [])
    refuted = [o for o in obs if o['status'] == 'refuted']
    if refuted and not fails:
        hints = []
        for o in refuted:
            for h in o.get('hints', []):
                if h not in [x['over'] for x in hints]:
                    hints.append(dict(over=h, tries=60))
        with cf.ThreadPoolExecutor(workers) as ex:
            fr = [ex.submit(runtime, prop, base + 20_000_000 + w * 1_000_000, 10 ** 6, 60. if thorough else 35., hints[w::workers] or None)
                  for w in range(workers)]
            more = [f.result() for f in fr]
        rts += more
        fails = [f for r in more for f in r['fails']]

    imp = [r['import_error'] for r in rts if r.get('import_error')]
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', wall_s=0.0, violations=0, assumptions=[], coverage={})
    cov = ev['coverage']
    cov['obligations'] = len(obs)
    cov['discharged'] = sum(o['status'] == 'proved' for o in obs)
    cov['undecided'] = [dict(name=o['name'], reason=o.get('reason', '')[:300]) for o in obs if o['status'] == 'unknown'][:20]
    cov['undecided_count'] = sum(o['status'] == 'unknown' for o in obs)
    cov['refuted'] = [o['name'] for o in refuted][:20]
    cov['checker_cmd'] = 'python3-vt -m pyvc.main %s %s' % (prop, tier)
    for k in ('functions', 'unbound_functions', 'backends', 'solver_seconds', 'paths', 'contexts', 'nonvacuous', 'error', 'obligation_names'):
        if ded and k in ded:
            cov[{'functions': 'functions_under_contract'}.get(k, k)] = ded[k]
    cov['trusted_base'] = (ded or {}).get('trusted', []) or ['none']
    ev['assumptions'] = (ded or {}).get('assumptions', [])
    cov['evaluations'] = sum(r['evaluations'] for r in rts)
    cov['distinct_nontrivial'] = sum(r['nontrivial'] for r in rts)
    cov['rule'] = ('bounded stand-in and replay: executable form of the contract run on the real code with generated inputs '
                   '(sizes, axes, memory layouts, NaNs, thresholds equal to data values, settings, worker orders); distinct choice vectors with at least one choice count')
    cov['samples'] = [s for r in rts for s in r['samples']][:3]
    cov['slow_cases_skipped'] = sum(r['slow'] for r in rts)
    cov['unbound_cases_skipped'] = sum(r['unbound'] for r in rts)
    rc = 0
    lines = []
    edir = os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(edir, 'replay'), exist_ok=True)
    rp = os.path.join(edir, 'replay', prop + '.json')
    if fails:
        f = fails[0]
        rec = dict(property=prop, case=dict(seed=f['seed'], over=f['over']), message=f['message'], choices=f['choices'],
                   failed_obligations=[dict(name=o['name'], detail=o.get('detail', '')) for o in refuted][:5],
                   replay_cmd='python3 check.py --replay %s' % rp)
        json.dump(rec, open(rp, 'w'), indent=1, default=str)
        lines.append('%s: %s' % (prop, f['message'][:600]))
        for o in refuted[:3]:
            lines.append('failed obligation: %s' % o['name'])
        lines.append('VIOLATION property=%s replay=%s' % (prop, rp))
        rc = 1
        ev['violations'] = 1
    elif imp and len(imp) == len(rts):
        lines.append('undecided: %s' % imp[0])
        rc = 2
    elif refuted:
        o = refuted[0]
        rec = dict(property=prop, obligation=o['name'], detail=o.get('detail', ''), verifier_output=refuted[:5],
                   note='the obligation fails in the verifier; no input of the real code was found that shows it')
        json.dump(rec, open(rp, 'w'), indent=1, default=str)
        lines.append('failed obligation: %s' % o['name'])
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
        rc = 1
        ev['violations'] = 1
    for p, txt in findings():
        if p == prop:
            lines.append('KNOWN-FINDING: property=%s %s' % (p, txt))
    ev['wall_s'] = round(time.time() - t0, 2)
    if rc == 2:
        ev['coverage']['error'] = imp[0]
    json.dump(ev, open(os.path.join(edir, prop + '.json'), 'w'), indent=1, default=str)
    print('%s %s: %d/%d obligations discharged, %d refuted, %d undecided; %d executions of the real code, %d failing; %.1f s' % (
        prop, tier, cov['discharged'], len(obs), len(refuted), cov['undecided_count'], cov['evaluations'], len(fails), ev['wall_s']))
    for l in lines:
        print(l)
    return rc


sys.exit(main())
