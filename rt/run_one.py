import sys, time, traceback
sys.path.insert(0, '/verif/rt')
import common
from props_a import PROPS
try:
    import props_b
except ImportError:
    pass
pids = sys.argv[2].split(',') if len(sys.argv) > 2 and sys.argv[2] != 'all' else sorted(PROPS)
n = int(sys.argv[1])
base = int(sys.argv[3]) if len(sys.argv) > 3 else 0
for pid in pids:
    t = time.time(); bad = {}; known = 0
    for s in range(base, base + n):
        c = common.Case(pid, s)
        try:
            PROPS[pid](c)
        except common.Known as e:
            known += 1
        except common.Fail as e:
            bad.setdefault('FAIL ' + str(e)[:60], []).append((s, str(e)[:300], c.log))
        except Exception as e:
            bad.setdefault('EXC ' + repr(e)[:60], []).append((s, traceback.format_exc()[-600:], c.log))
    print(pid, 'n', n, 'bad', sum(map(len, bad.values())), 'known', known, '%.1fs' % (time.time() - t))
    for k, l in list(bad.items())[:3]:
        print('   ', len(l), k); print('      ', str(l[0])[:700])
