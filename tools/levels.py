NA = {}
LEVEL = {}
_T = 'contract-based deductive verification: pyvc executes the real source of /repo symbolically on every run and discharges each contract obligation (equational prover + z3); failing obligations are replayed on the real code; '
TECH = {'*': _T + 'executable contract on generated inputs as the bounded stand-in'}
_C = ' Reals for floats, number of axes enumerated (1-3 quick, 1-4 thorough), library contracts assumed (checked by tools/enginetest.py). '
NOTE = {
    '*': 'All extents and values symbolic.' + _C,
    'C01': 'Every element of error, absolute and squared error of the five classes, for every extent and value.' + _C + 'The hurdle mean is the integral contract of C20.',
    'C02': 'Mean over exactly the requested axes in every spelling, with and without NaN skipping.' + _C,
    'C03': 'Replicate indices, replicate statistics, mean and quantiles of each cell.' + _C + 'Draws are uniform and independent by assumption on numpy.random.',
    'C04': 'Complement, bounds and rejection for the five classes.' + _C + 'scipy CDFs assumed monotone into [0, 1].',
    'C05': 'Counting probability equals the fraction of members, ties included.' + _C,
    'C06': 'Arguments of the CDFs equal the stated distribution; scipy CDFs themselves assumed.' + _C,
    'C07': 'Serial and parallel results agree element by element for symbolic worker count, chunk size and any completion order.' + _C + 'ray and ThreadPool are assumed to run every task once.',
    'C08': 'Members are the case\'s quantile function at its own independent uniforms.' + _C + 'Known finding: forked workers share the random state (printed on every run).',
    'C09': 'Rank = 1 + members below + uniform draw among the ties; histogram and reliability index.' + _C,
    'C10': 'PIT element by element.' + _C,
    'C11': 'Brier score element by element, thresholds scalar or per case.' + _C,
    'C12': 'The three terms by definition and their recombination as a lemma.' + _C + 'NaN-free probabilities.',
    'C13': 'Bin membership is a partition; bin means and counts.' + _C + 'NaN-free probabilities.',
    'C14': 'Sorting, splitting, pairing and bin means; argsort assumed to break ties by position.' + _C,
    'C15': 'Intersection and union counts per cell.' + _C,
    'C16': 'Pearson formula of each cell\'s own pairs.' + _C,
    'C17': 'The pairs handed to scikit-learn in every mode; the curve itself is scikit-learn\'s.' + _C,
    'C18': 'Ensemble statistics, and setter-then-metric equals construct-then-metric for every metric.' + _C,
    'C19': 'Code equals the published closed form, symbol by symbol.' + _C + 'Finiteness is a floating point statement and only checked at run time (bounded), as is closed form = CRPS integral.',
    'C20': 'The quadrature sum over the grid in all four modes.' + _C,
    'C21': 'An exception at every event of an integration; settings and ghost disk as before.' + _C + 'Clean-up calls themselves assumed not to fail.',
    'C22': 'Induction step over call histories on a ghost disk; name injectivity over token automata.' + _C + 'repr of floats assumed injective.',
    'C23': 'Frame over a ghost disk; a death at every disk change and inside every write.' + _C + 'os.replace assumed atomic.',
    'C24': 'No write of any metric or utility reaches a buffer of the caller.' + _C,
    'C25': 'Formula, antisymmetry, range of the p-value, rejections.' + _C + 'Student-t CDF assumed symmetric and monotone.',
    'C26': 'The written token stream for any number of rows and columns; overwriting.' + _C + 'str(float) assumed injective.',
    'C27': 'Settings present before import survive; explicit arguments win; settings read at call time.' + _C,
    'C28': 'Coordinates of any chunk number (symbolic digits) and any station count; rejections; opening.' + _C + 'Real arithmetic: in doubles r + i/n < r + 1 fails beyond r about 2^52/n. xarray assumed to order by coordinate.',
    'C29': 'Accepted exactly when consistent, for independent symbolic shapes, constructor and setters.' + _C,
    'C30': 'Values, axes, labels, units, names and decoding of every combination of axes; symbolic values and lengths, names of enumerated sizes.' + _C + 'The dataset is a stand-in for xarray\'s with its documented behaviour; joining files and netCDF reading are trusted (single files are read for real at run time, bounded).',
}
