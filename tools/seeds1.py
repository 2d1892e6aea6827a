import sys; sys.path.insert(0, '/verif/tools')
from mkseed import mk, PRE
mk('s02-nanmean-den', 'C02', [('Verify.py', "                return np.nanmean(metric, axis=self.avg_axis)\n",
   "                weight = np.isfinite(metric)\n                return np.nansum(metric, axis=self.avg_axis) / np.maximum(weight.sum(axis=self.avg_axis), 2)\n")],
   'NaN skipping on, and a cell with exactly one case that is not missing',
   'the mean of a cell with a single valid case is halved',
   PRE + '''
os.environ['pyanen_skip_nan'] = 'True'
o = np.zeros((3, 2)); f = np.ones((3, 2)) * 4
f[1:, 0] = np.nan
v = PyAnEn.VerifyDeterm(f, o, avg_axis=0)
sys.exit(0 if np.allclose(v.error(), [4., 4.]) else 1)
''')
mk('s03-name-digits', 'C22', [('Verify.py', "            strs[k] = str(v).replace(' ', '_')\n",
   "            if isinstance(v, float): v = '{:.8g}'.format(v)\n            strs[k] = str(v).replace(' ', '_')\n")],
   'saving enabled and two thresholds that agree in the first eight digits',
   'two different thresholds share one saved entry, so the second call returns the first result',
   PRE + '''
d = tempfile.mkdtemp()
try:
    r = np.random.default_rng(0)
    f = r.normal(size=(50, 9)) + 1000000.; o = r.normal(size=50) + 1000000.
    v = PyAnEn.VerifyEnsemble(f, o, ensemble_axis=-1, working_directory=d + '/w')
    a = v.cdf(below=1000000.001); b = v.cdf(below=1000000.004)
    c = (f <= 1000000.004).mean(axis=1)
    f2 = f.copy(); f2[0, 0] = 1000000.002
    v = PyAnEn.VerifyEnsemble(f2, o, ensemble_axis=-1, working_directory=d + '/w')
    a = v.cdf(below=1000000.001); b = v.cdf(below=1000000.004)
    ok = np.allclose(b, (f2 <= 1000000.004).mean(axis=1))
finally:
    shutil.rmtree(d)
sys.exit(0 if ok else 1)
''')
mk('s04-tie-range', 'C09', [('utils_verify.py', "np.random.randint(index[j], index[j] + unique_tie[i] + 1, unique_tie[i])[0]",
   "np.random.randint(index[j], index[j] + max(unique_tie[i], 2) + (unique_tie[i] < 3), unique_tie[i])[0]")],
   'an observation tied with three or more members',
   'with three or more tied members the highest offset is never drawn',
   PRE + '''
from PyAnEn.utils_verify import rank_histogram
np.random.seed(1)
f = np.zeros((4000, 4)); f[:, 3] = 5.
o = np.zeros(4000)
r = rank_histogram(f, o, -1)
h = np.bincount(np.asarray(r, int), minlength=6)
ok = all(800 < h[k] < 1200 for k in (1, 2, 3, 4)) and h[5] == 0 and h[0] == 0
sys.exit(0 if ok else 1)
''')
mk('s05-restore-workers', 'C21', [('utils_approximation.py', "        for k, v in self.tqdm_backup.items():\n            os.environ[k] = str(v)\n",
   "        for k, v in self.tqdm_backup.items():\n            if os.environ[k] != 'True': os.environ[k] = str(v)\n")],
   'progress bars enabled by the user (pyanen_tqdm_disable not True) when an integration runs',
   'the progress-bar setting stays disabled after an integration',
   PRE + '''
os.environ['pyanen_tqdm_disable'] = 'False'
r = np.random.default_rng(0)
f = {'pop': r.random((3, 2)), 'mu': r.random((3, 2)) + 1, 'sigma': r.random((3, 2)) + .5}
v = PyAnEn.VerifyProbGammaHurdle(f, r.random((3, 2)))
v.crps()
sys.exit(0 if os.environ['pyanen_tqdm_disable'] == 'False' else 1)
''')
mk('s06-dm-df', 'C25', [('utils_significance.py', "df = lst_size - 1)", "df = max(lst_size - h, 1))")],
   'a horizon above one',
   'the p-value uses n-h instead of n-1 degrees of freedom',
   PRE + '''
from PyAnEn.utils_significance import diebold_mariano_test as dm
from scipy.stats import t
r = np.random.default_rng(3)
a, p, q = r.normal(size=12), r.normal(size=12), r.normal(size=12)
s, pv = dm(a, p, q, h=3)
if not np.isfinite(s):
    a, p, q = r.normal(size=12), r.normal(size=12) * 3, r.normal(size=12)
    s, pv = dm(a, p, q, h=2)
sys.exit(0 if np.isclose(pv, 2 * t.cdf(-abs(s), 11)) else 1)
''')
mk('s07-ss-split', 'C14', [('utils_ss.py', "    arr_split = np.array_split(np.stack([variance, sq_error], axis=1), nbins, 0)\n",
   "    n_cases = sq_error.shape[0]\n    arr_split = np.split(np.stack([variance, sq_error], axis=1), [k * n_cases // nbins for k in range(1, nbins)], 0)\n")],
   'a number of cases that is not a multiple of the number of groups',
   'the larger groups are no longer the first ones, so cases fall into other groups',
   PRE + '''
from PyAnEn.utils_ss import binned_spread_skill
v = np.array([1., 2., 3., 4., 5.]); s = v ** 2
a, b = binned_spread_skill(v, s, 2, (0,))
sys.exit(0 if np.allclose(b ** 2, [14 / 3., 20.5]) else 1)
''')
