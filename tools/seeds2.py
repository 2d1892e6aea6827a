import sys; sys.path.insert(0, '/verif/tools')
from mkseed import mk, PRE
mk('s03-name-digits', 'C22', [('Verify.py', "            strs[k] = str(v).replace(' ', '_')\n",
   "            strs[k] = ('{:.8g}'.format(v) if isinstance(v, float) else str(v)).replace(' ', '_')\n")],
   'saving enabled and two thresholds that agree in the first eight digits',
   'two different thresholds share one saved entry, so the second call returns the first result',
   PRE + '''
d = tempfile.mkdtemp()
try:
    r = np.random.default_rng(0)
    f = r.normal(size=(50, 9)) + 1000000.; o = r.normal(size=50) + 1000000.
    f[0, 0] = 1000000.002
    v = PyAnEn.VerifyEnsemble(f, o, ensemble_axis=-1, working_directory=d + '/w')
    a = v.cdf(below=1000000.001); b = v.cdf(below=1000000.004)
    ok = np.allclose(b, (f <= 1000000.004).mean(axis=1))
finally:
    shutil.rmtree(d)
sys.exit(0 if ok else 1)
''')
mk('s08-ci-order-stat', 'C03', [('utils_verify.py', "    ci = np.quantile(boot_samples_mean, [delta, 1-delta])\n",
   "    ordered = np.sort(boot_samples_mean)\n    ci = ordered[[int(delta * len(ordered)), len(ordered) - 1 - int(delta * len(ordered))]]\n")],
   'a number of bootstrap repeats for which the wanted quantile is not an order statistic',
   'the interval of boot_vec ends at the nearest order statistics and not at the interpolated quantiles',
   PRE + '''
from PyAnEn.utils_verify import boot_vec
# a seed-free demonstration: one value taken with certainty, and a two-valued population
lo = []
for s in range(300):
    np.random.seed(s)
    t = np.ravel(np.asarray(boot_vec(np.array([0., 1.]), n_samples=1, repeats=2, confidence=0.5, skip_nan=False), float))
    lo.append((round(float(t.min()), 6), round(float(t.max()), 6)))
# two repeats with one drawn case each: equal draws give (v, v), different ones quantiles 0.25 and 0.75
sys.exit(0 if set(lo) <= {(0., 0.), (1., 1.), (.25, .75)} else 1)
''')
mk('s09-one-uniform', 'C10', [('VerifyProb.py', "            ranks[mask] = stats.uniform(loc=0, scale=ranks[mask]).rvs()",
   "            ranks[mask] = np.random.uniform() * ranks[mask]")],
   'several observations at zero under a hurdle or censored forecast',
   'all observations at zero get the same random fraction, so their ranks are not independent draws',
   PRE + '''
r = np.random.default_rng(0)
f = {'pop': r.uniform(.2, .8, size=40), 'mu': r.uniform(1, 3, size=40), 'sigma': r.uniform(.5, 1, size=40)}
o = np.where(np.arange(40) % 2 == 0, 0., r.uniform(.5, 3, size=40))
v = PyAnEn.VerifyProbGammaHurdle(f, o)
ranks = np.asarray(v.pit(), float)
z = o == 0
frac = ranks[z] / (1 - f['pop'][z])
ok = frac.std() > 1e-3 and (frac >= 0).all() and (frac <= 1).all()
sys.exit(0 if ok else 1)
''')
mk('s10-bin-edge', 'C12', [('utils_special_boot.py', "    belongs = np.digitize(f_slice, bins)\n",
   "    belongs = np.searchsorted(bins, f_slice)\n")],
   'a forecast probability that is exactly on an edge between two groups',
   'cases on an edge fall into the lower group, so reliability and resolution change',
   PRE + '''
from PyAnEn.utils_special_boot import brier_decomp
f = np.array([.225, .25, .275, .5, .525, .9]); o = np.array([0., 1., 0., 1., 1., 1.])
groups = [[0], [1, 2], [3, 4], [5]]
ob = o.mean()
rel = sum(len(g) * (f[g].mean() - o[g].mean()) ** 2 for g in groups) / 6
res = sum(len(g) * (o[g].mean() - ob) ** 2 for g in groups) / 6
got = [float(np.ravel(x)[0]) for x in brier_decomp(f, o, (0,))]
sys.exit(0 if np.allclose(got, [rel, res, ob * (1 - ob)]) else 1)
''')
mk('s11-variance-mean', 'C18', [('VerifyEnsemble.py', "        return self.f.var(self.ensemble_axis)\n",
   "        return np.mean(self.f ** 2, axis=self.ensemble_axis) - self.f_collapsed ** 2\n")],
   'a collapse function other than the mean',
   'the ensemble variance is taken around the collapsed value and not around the ensemble mean',
   PRE + '''
r = np.random.default_rng(0)
f = r.normal(size=(4, 3, 5)); o = r.normal(size=(4, 3))
v = PyAnEn.VerifyEnsemble(f, o, ensemble_axis=2).set_collapse_func(np.median)
sys.exit(0 if np.allclose(v.variance(), f.var(axis=2)) else 1)
''')
mk('s12-matrix-digits', 'C26', [('Grid.py', "'nan' if np.isnan(e) else str(e) for e in mat[i_row]", "'nan' if np.isnan(e) else '{:.12g}'.format(e) for e in mat[i_row]")],
   'an element that needs more than twelve significant digits',
   'elements are rounded to twelve digits in the file',
   PRE + '''
from PyAnEn.Grid import write_matrix as w
d = tempfile.mkdtemp()
try:
    m = np.array([[1 / 3., 2.], [123456789.123456, -1e-7 / 3]])
    w(d + '/m.txt', m)
    rows = open(d + '/m.txt').read().replace('np.float64', '')
    import re
    got = [float(x) for x in re.findall(r'-?[0-9][0-9.]*(?:e[-+]?[0-9]+)?', rows.split('(', 1)[1])]
    ok = got == list(m.ravel())
finally:
    shutil.rmtree(d)
sys.exit(0 if ok else 1)
''')
mk('s13-shape-perm', 'C29', [('VerifyProbGaussian.py', "            assert f_shape == o_shape,", "            assert sorted(f_shape) == sorted(o_shape),")],
   'a parameter whose axes are a permutation of those of the observations',
   'a parameter with swapped axes is accepted at construction',
   PRE + '''
r = np.random.default_rng(0)
try:
    PyAnEn.VerifyProbGaussian({'mu': r.random((3, 2)), 'sigma': r.random((3, 2)) + 1}, r.random((2, 3)))
except Exception:
    sys.exit(0)
sys.exit(1)
''')
mk('s14-coord-meet', 'C28', [('IO.py', "    station_coords = [start + index / current_total for index in range(current_total)]",
   "    station_coords = list(np.linspace(start, start + 1, current_total))")],
   'two consecutive chunks with at least two stations each',
   'the last station of a chunk gets the coordinate of the first station of the next chunk',
   PRE + '''
import xarray as xr
import PyAnEn.IO as io
def coords(k, n):
    ds = xr.Dataset({'x': (('num_stations',), np.arange(float(n)))})
    ds.encoding['source'] = '/data/Rank%d.nc' % k
    return list(io.__dict__['__add_coords__'](ds).coords['num_stations'].values)
a, b = coords(1, 3), coords(2, 3)
sys.exit(0 if a == sorted(a) and max(a) < min(b) else 1)
''')
mk('s15-swapaxes', 'C05', [('utils_verify.py', "    f = np.moveaxis(f, ensemble_aixs, 0)\n    \n    cores", "    f = np.swapaxes(f, ensemble_aixs, 0)\n    \n    cores")],
   'an ensemble axis that is neither the first nor the second axis, with lengths that still match',
   'the case axes are permuted before counting',
   PRE + '''
r = np.random.default_rng(0)
f = r.normal(size=(3, 3, 5)); o = r.normal(size=(3, 3))
v = PyAnEn.VerifyEnsemble(f, o, ensemble_axis=2)
sys.exit(0 if np.allclose(v.cdf(below=.1), (f <= .1).mean(axis=2)) else 1)
''')
