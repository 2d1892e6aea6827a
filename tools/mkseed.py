"""mkseed.py ID PROP FILE -- reads from stdin a python dict: old,new,needs,breaks,demo ; writes seeded/ID"""
import difflib, json, os, subprocess, sys, tempfile, shutil
def mk(id, prop, edits, needs, breaks, demo):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    subprocess.run(['git', 'clone', '-q', '/repo', t + '/r'], check=True)
    for fn, old, new in edits:
        p = t + '/r/PyAnEn/' + fn
        s = open(p).read()
        assert s.count(old) == 1, (id, fn, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', t + '/r', 'diff'], capture_output=True, text=True).stdout
    assert diff
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(demo)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd /repo\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(t)
PRE = '''import os, sys, tempfile, shutil
sys.path.insert(0, os.getcwd())
import numpy as np
import PyAnEn
'''
