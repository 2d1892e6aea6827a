import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None))
    if state: d['anchors']['state']=state
    assert len(title)<=80,(id,len(title)); assert statement.count('. ')<=2,(id,statement.count('. '))
    P.append(d)
V='PyAnEn/Verify.py'; VD='PyAnEn/VerifyDeterm.py'; VE='PyAnEn/VerifyEnsemble.py'; VP='PyAnEn/VerifyProb.py'
VG='PyAnEn/VerifyProbGaussian.py'; VA='PyAnEn/VerifyProbGamma.py'; VH='PyAnEn/VerifyProbGammaHurdle.py'
UV='PyAnEn/utils_verify.py'; UD='PyAnEn/utils_dist.py'; UA='PyAnEn/utils_approximation.py'; US='PyAnEn/utils_ss.py'; UB='PyAnEn/utils_special_boot.py'; UC='PyAnEn/utils_crps.py'; UT='PyAnEn/utils_significance.py'
p('C01','Error metrics equal their definitions on every forecast-observation pair',
 'For every verifier type, the unaggregated bias, absolute error and squared error of each pair are F-O, |F-O| and (F-O)^2, where F is the verifier\'s deterministic forecast (the forecast itself, the ensemble collapsed along its member axis by the configured function, or the mean of the predicted distribution) and O the observation at the same position. RMSE is the square root of the aggregated squared error.',
 ['inputs','configurations'],'all forecasts and observations of any size, every verifier class, ensemble axis first or last, any collapse function',
 'tests compare sq_error and ab_error of one deterministic data set; bias is never asserted, nor are the ensemble and distribution classes',
 [VD,VE,VP,VG,VA,VH,V],[('_error/_sq_error/_ab_error',VD),('_error/_sq_error/_ab_error on the collapsed ensemble',VE),('_error/_sq_error/_ab_error on f_determ',VP),('rmse',V)],['error()','ab_error()','sq_error()','rmse()','f_determ()'])
p('C02','Averaging covers exactly the requested axes and keeps the others in order',
 'Without bootstrapping, an aggregated metric (bias, absolute error, squared error, CRPS, spread, Brier) is the arithmetic mean of the unaggregated metric over exactly the requested averaging axes (all axes when none are named; an int, list or tuple and negative numbering are equivalent), and the result is indexed by the remaining axes in their original order. Cases whose metric value is NaN are left out of the mean exactly when NaN skipping is on.',
 ['inputs','configurations'],'all arrays, all sets of averaging axes, NaN skipping on or off',
 'tests check one shape with non-negative axes only and no NaN',
 [V],[('boot_or_avg',V),('_validate_avg_axis',V),('_metric_workflow_2',V)],['error()','sq_error()','crps()','brier()','spread()'])
p('C03','Bootstrap intervals describe each cell\'s own cases at the set confidence',
 'With bootstrapping, every remaining cell gets a triple (lower, mean, upper) made from the means of replicates, each drawn with replacement and with the requested sample size from all cases of that cell along the averaging axes and from nothing else; lower and upper are the (1-c)/2 and (1+c)/2 quantiles of the replicates for confidence c, and the middle value is their mean. The same central interval convention holds for bootstrapped correlation, Brier decomposition, reliability and spread-skill. The cells keep the axis order of the unbootstrapped result, whichever way (negative, unsorted, mixed) the averaging axes are numbered.',
 ['inputs','configurations'],'all arrays, axis sets, sample sizes, repeats, confidences and random draws',
 'tests check shapes and that the interval brackets the plain mean for one confidence; a cell drawing from a neighbour or a wrong quantile passes',
 [V,UV,UB,US],[('boot_arr, boot_vec',UV),('_reliability_agg_boot_slice',UV),('_func_corr, _func_brier_decomp',UB),('_binned_spread_skill_agg_boot',US)],['any metric with boot_samples set'])
p('C04','Event probabilities are complementary, bounded and need one threshold',
 'For every verifier that gives event probabilities, the probability of exceeding a threshold is one minus the probability of not exceeding that same threshold, and every probability lies in [0,1] (with the counting method for ensembles). Giving both thresholds, or neither, is rejected for probabilities, event observations and IoU alike.',
 ['inputs','configurations'],'all forecasts, scalar or per-case thresholds, all distribution classes, serial or parallel',
 'one test checks complementarity loosely on one ensemble; rejection and range are untested',
 [VE,VG,VA,VH,UV,UD],[('_cdf',VE),('_cdf',VG),('_cdf',VA),('_cdf',VH),('binarize_obs, iou_determ, iou_prob, ens_to_prob',UV)],['cdf(over=..)','cdf(below=..)','sharpness()'])
p('C05','Ensemble probability is the fraction of members at or below the threshold',
 'With the counting method, the non-exceedance probability of an ensemble case is exactly the number of its members that are at most the threshold divided by the number of members, for a scalar threshold or a per-case threshold array, and for the member axis in first or last position. The value of a case depends only on that case\'s members and threshold.',
 ['inputs','configurations'],'all ensembles, member counts, axis positions and thresholds, including ties with the threshold',
 'tests only compare serial with parallel runs and shapes',
 [UV,VE],[('ens_to_prob, ens_to_prob_moments',UV),('_cdf, _sharpness',VE)],['VerifyEnsemble.cdf','ens_to_prob'])
p('C06','Distribution probabilities are the CDF of the stated mean, spread and shift',
 'The non-exceedance probability of a Gaussian, shifted-gamma or gamma-hurdle forecast is the cumulative distribution function, at the threshold, of the normal with the given mean and standard deviation, of the gamma with the given unshifted mean and standard deviation moved by the shift, or of a mixture with probability 1-pop at zero and pop for the gamma of the given mean and standard deviation. Truncated forecasts use the same distribution conditioned on being non-negative.',
 ['inputs','configurations'],'all parameters in the distributions\' domains, scalar and per-case thresholds',
 'tests evaluate one Gaussian value at its mean and a few hurdle values against each other',
 [UD,VG,VA,VH,'PyAnEn/dist_truncgamma.py'],[('cdf_gaussian, cdf_gamma, cdf_gamma_hurdle, wrapper_*_cdf',UD),('truncgamma_gen._cdf',"PyAnEn/dist_truncgamma.py")],['cdf(below=..)'])
p('C07','Parallel and serial runs give the same results',
 'For every number of workers, every admissible parallel axis and every order in which workers finish, event probabilities (ensemble and distributions, truncated or not), untied ranks and numerically integrated mean, variance and CRPS equal those of a serial run, case by case.',
 ['schedules','configurations','inputs'],'all worker counts, parallel axes, completion orders, inputs',
 'tests compare two worker counts on single data sets; the truncated gamma path and most axes are never run in parallel',
 [UD,UV,UA],[('_parallel_process, wrapper_*',UD),('rank_histogram, ens_to_prob',UV),('Integration._crps/_mean/_variance, _ray_to_iterator',UA)],['cdf','rank_hist','crps','f_determ','variance'])
p('C08','Sampled members follow the predicted distribution and sit on the set axis',
 'Converting a distribution forecast to an ensemble yields the requested number of members, each drawn from that case\'s own predicted distribution (truncated at zero when truncation is on), placed on the requested axis with all other axes in order, and with members below the clip value, if one is set, replaced by zero and the others untouched. Spread and ranks of such an ensemble are taken across its members for each case, wherever the member axis is placed. Draws for different cases are separate draws.',
 ['inputs','configurations'],'all parameters, member counts, axis placements, clip values, serial or parallel',
 'tests check only the shape of the sampled array for one placement',
 [UD,VP,VG,VA],[('sample_dist_gaussian, sample_dist_gamma, wrapper_*_rvs',UD),('_prob_to_ens',VG),('_prob_to_ens',VA),('_spread, _rank_hist',VP)],['prob_to_ens()','spread()','rank_hist()'])
p('C09','Observation ranks count the members below and break ties at random',
 'The rank of an observation in an ensemble of M members lies in 1..M+1 and is one plus the number of members below it when no member equals it; if t members equal it, the rank is that number plus an offset drawn uniformly from 0..t. This holds for the member axis in any position, and cases with a missing value get a missing rank when NaN skipping is on. The reliability index of a rank histogram is the sum of absolute differences between its normalised frequencies and the flat histogram.',
 ['inputs','configurations'],'all ensembles, observations, tie patterns, axis positions',
 'the test data contain no ties and no NaN',
 [UV,VE,V],[('rankdata, rank_histogram',UV),('_rank_hist',VE),('reliability_index',V)],['rank_hist()','reliability_index()'])
p('C10','The probability integral transform is the forecast CDF at the observation',
 'Without member sampling, the rank of each observation under a distribution forecast is that forecast\'s cumulative probability at the observation, except that for observations equal to zero (when zero ranks are randomised) it is drawn uniformly between zero and that probability. Ranks stay in [0,1], and the observation and forecast data are unchanged.',
 ['inputs','configurations'],'all distribution forecasts and observations, randomisation on or off',
 'one statistical test of flatness on one gamma sample without zeros',
 [VP],[('_pit, _rank_hist',VP)],['pit()','rank_hist()'])
p('C11','The Brier score is the squared gap between event probability and event',
 'For every probabilistic verifier and threshold, the unaggregated Brier score of a case is (p - e)^2, where p is the forecast probability of the chosen event and e is 1 if the observation strictly exceeds the threshold (for over) or is strictly below it (for below) and 0 otherwise. It lies in [0,1] whenever p does.',
 ['inputs','configurations'],'all forecasts, observations and thresholds, scalar or per-case',
 'tests only look for saved file names',
 [VE,VP,UV],[('_brier',VE),('_brier',VP),('binarize_obs',UV)],['brier()'])
p('C12','Brier decomposition terms follow their definitions and recombine',
 'For each cell, uncertainty is ob(1-ob) for the event frequency ob, and with the forecasts sorted into 20 equal-width probability bins, reliability and resolution are the case-weighted mean squared differences between bin-mean forecast and bin event frequency, and between bin event frequency and ob. Hence reliability - resolution + uncertainty equals the mean squared difference between the bin-mean forecast and the event, and resolution never exceeds uncertainty.',
 ['inputs','configurations'],'all probabilities in [0,1], all event sequences, all axis choices',
 'tests check the recombination within 0.01 on two data sets',
 [UB,VE,VP],[('_func_brier_decomp, brier_decomp, _workflow',UB)],['brier_decomp()'])
p('C13','Every case counts in exactly one reliability bin, with bin means',
 'A reliability diagram over n equal-width probability bins puts each case into exactly the bin containing its probability (probability 1 in the last bin), and reports for the non-empty bins, in order, the mean forecast probability, the event frequency and the number of cases, plus the numbers of events and non-events; bin counts add up to the number of cases. Forecast and event of a case stay paired for any choice of averaging axes.',
 ['inputs','configurations'],'all probabilities in [0,1], events, bin numbers and sample axes',
 'tests compare the code with itself on slices',
 [UV,V],[('_reliability_create_split, _reliability_agg_no_boot(_slice)',UV),('post_reliability',V)],['reliability()','reliability_diagram()'])
p('C14','Binned spread-skill groups cases by variance and keeps pairs together',
 'For each cell, the cases are ordered by forecast variance and split in that order into the requested number of groups whose sizes differ by at most one, larger groups first; for each group the result is the square root of the mean variance and the square root of the mean squared error of the same cases. Asking for more groups than cases is rejected.',
 ['inputs','configurations'],'all variances, squared errors, group numbers and sample axes',
 'tests compare the code with itself on slices; a lost pairing between variance and error passes',
 [US,VE,VP],[('_binned_spread_skill_create_split, _binned_spread_skill_agg_no_boot',US),('_binned_spread_skill',VE)],['binned_spread_skill()'])
p('C15','IoU is intersection over union of forecast and observed events per cell',
 'For every cell, IoU is the number of cases where forecast and observation both have the event divided by the number where at least one has it, with the same strict comparison on both sides (values for the deterministic score; the forecast probability against the probability threshold for the probabilistic one). It lies in [0,1] when the union is not empty, equals 1 exactly when the two event sets coincide, and the deterministic score does not change if forecast and observation are exchanged.',
 ['inputs','configurations'],'all arrays, axis sets and thresholds',
 'tests check three hand-made arrays for over only',
 [UV,VD,VE,VP],[('_iou, iou_determ, iou_prob',UV),('_iou_determ',VD),('_iou_prob',VE)],['iou_determ()','iou_prob()'])
p('C16','Correlation is Pearson\'s coefficient of each cell\'s own pairs',
 'Without bootstrapping, correlation returns for every remaining cell, in original axis order and for any numbering of the averaging axes, Pearson\'s coefficient between the deterministic forecasts and observations of exactly that cell\'s cases; with NaN skipping on, pairs with a missing value on either side are left out.',
 ['inputs','configurations'],'all arrays of any rank, axis sets, NaN patterns',
 'tests only check that the bootstrap interval brackets the value',
 [UB,VD,VE,VG,VA,VH],[('corr, _workflow, _func_corr',UB),('_corr',VD)],['corr()'])
p('C17','ROC curves are built from every pair, each probability with its own event',
 'The ROC curve and its area are computed from all forecast-probability and event pairs of the data, flattened in the same order so that each probability meets its own case\'s event; with NaN skipping on, pairs with a missing probability are dropped on both sides together.',
 ['inputs','configurations'],'all probability and event arrays, thresholds, NaN patterns',
 'ROC is not tested at all',
 [UV,VE,VP],[('calculate_roc',UV),('_roc',VE),('_roc',VP)],['roc()'])
p('C18','Ensemble statistics and setters behave as if freshly constructed',
 'For an ensemble verifier the deterministic forecast is the configured collapse function applied along the member axis, the variance is the population variance of the members and the spread is their maximum minus minimum (missing members left out of the spread when NaN skipping is on), per case. After any sequence of setter calls, every metric equals that of a verifier newly constructed with the resulting settings; an undeclared member axis is taken as the last axis if removing it gives the observation shape, else the first, else construction fails.',
 ['histories','inputs','configurations'],'all ensembles, collapse functions and setter sequences',
 'tests never change a setting of an existing ensemble verifier and look again',
 [VE,V],[('_collapse_ensembles, set_ensemble_axis, set_collapse_func, _guess_ensemble_axis, _variance, _spread',VE),('set_avg_axis, set_boot_samples, disable_boot',V)],['f_determ()','variance()','spread()','error() after setters'])
p('C19','Closed-form CRPS values follow the published formulas and stay finite',
 'The CRPS of a shifted gamma forecast censored at zero and of a zero-truncated Gaussian forecast equal the published closed forms for the given mean, spread and shift at each observation, and stay finite for every valid parameter (however sharp the forecast). The ensemble CRPS is computed across the member axis for each case and is the same whether or not it is evaluated slice by slice along the first axis.',
 ['inputs','configurations'],'all valid parameters and observations; all ensembles and axis positions',
 'tests compare one average with a numerical integral and never reach sharp forecasts, truncation or the slice-wise option',
 [UC,VA,VG,VE],[('crps_gamma, _lbeta, crps_truncated_gaussian',UC),('_crps',VE),('_crps',VG)],['crps()'])
p('C20','Numerical integration applies the stated quadrature in every mode',
 'On the evenly spaced grid over the given range (by default the observed range widened on both sides by the configured multiple of its length), the integrated CRPS is the trapezoidal sum of Brier scores, the mean is the sum of cell midpoints weighted by the CDF increments, and the variance is the corresponding second moment, with squares averaged per cell, minus the squared mean, for every case. The memory-saving mode gives the same values.',
 ['inputs','configurations'],'all verifiers, ranges, bin numbers, modes and data',
 'tests compare a few integrals with analytic values within tolerance',
 [UA,VH],[('Integration._crps/_mean/_variance/_define_integration_range/_memmap_sum_mul',UA),('_crps/_variance/_f_determ',VH)],['Integration(...).crps()/mean()/variance()'])
p('C21','Integration leaves settings and disk as it found them, even when it fails',
 'After a numerical integration ends, normally or by an exception at any point, every PyAnEn setting in the environment has the value it had before and the scratch file of the memory-saving mode no longer exists.',
 ['fault_sequences','configurations'],'a failure at any evaluation point; all settings and modes',
 'tests never make an evaluation fail and never look at the settings afterwards',
 [UA],[('_workflow, _suppress_sublevel_tqdm, _resume_sublevel_tqdm, _initialize_memmap, _finalize_memmap',UA)],['os.environ','scratch file'])
p('C22','Saved intermediates never change a result when aggregation settings change',
 'For a fixed forecast, observation and forecast settings, a metric called with saving enabled returns the same as without saving, for every sequence of metric calls and changes of averaging axes or bootstrap setting, including when a directory of an earlier verifier of the same data is reused. Calls that differ in metric, threshold or bin number never share a saved entry, and long arrays are never used as file names.',
 ['histories','configurations'],'all call sequences, reused directories, thresholds and names (the LITERAL_ prefix aside)',
 'tests look for file names after single calls and never change settings between calls',
 [V,VE,VP],[('_metric_workflow_1/2/3, to_name, _save, _load',V)],['every public metric with working_directory'],
 [dict(name='saved entries',meaning='file name -> pickled unaggregated metric',where='working_directory')])
p('C23','Saving touches only its directory and a crash never leaves a torn entry',
 'With saving disabled nothing is written or removed; with saving enabled only the working directory is affected, and existing content is removed only when starting from scratch is requested. If the process dies at any point while an entry is being saved, a later run finds either no entry, the previous one or the complete new one, never a partial one.',
 ['crash_points','histories','configurations'],'all crash points inside a save, all saving modes',
 'tests never interrupt a save nor reuse a directory',
 [V],[('_save, _load, _validate_saving, enable_saving, disable_saving',V)],['working directory content'])
p('C24','Verification never alters the caller\'s arrays',
 'No metric call and no utility function modifies the forecast, observation, threshold, variance, error or probability arrays it is given: after the call they hold the same values as before.',
 ['inputs','configurations','histories'],'all public metrics and utilities, memory layouts, axis choices',
 'tests use fresh random arrays and never compare inputs before and after',
 [US,UV,UD,UB,UA,VP,VE,UC,UT],[('_binned_spread_skill_create_split',US),('rank_histogram, ens_to_prob',UV),('cdf_*, wrapper_gamma_hurdle_cdf',UD),('_pit',VP)],['arguments after the call'])
p('C25','The Diebold-Mariano test is antisymmetric with a proper p-value',
 'Exchanging the two forecasts negates the statistic and keeps the p-value, which lies in [0,1]; the statistic is the mean loss difference over the square root of its lag-corrected variance over n, times the Harvey factor, with the loss chosen by the criterion, and the p-value is the two-sided Student probability with n-1 degrees of freedom. Unequal lengths, a horizon below one or not below n, and unknown criteria are rejected.',
 ['inputs'],'all actual and forecast vectors, horizons and criteria',
 'the function is not tested at all',
 [UT],[('diebold_mariano_test, autocovariance',UT)],['diebold_mariano_test()'])
p('C26','Matrix export writes every element exactly and never overwrites unasked',
 'Writing a matrix produces a header with its numbers of rows and columns followed by every row in order with every element in order, such that parsing the text gives back exactly the same numbers (NaN included). An existing file is left untouched and an error raised unless overwriting was requested.',
 ['inputs'],'all two-dimensional matrices and existing files',
 'the module is not tested at all',
 ['PyAnEn/Grid.py'],[('write_matrix','PyAnEn/Grid.py')],['output file'])
p('C27','User settings always win over defaults and are read at call time',
 'Importing the package sets each documented setting that is absent from the environment to its default and leaves every setting already present unchanged. Functions that accept repeats, confidence, sample size, NaN skipping or kernel options as arguments use a given argument and fall back to the current environment value only when it is omitted.',
 ['configurations','histories'],'all environments before import and at call time, all explicit arguments',
 'tests set two variables before import and never check precedence',
 ['PyAnEn/__init__.py',UV,US,UB,UA],[('Defaults loop','PyAnEn/__init__.py'),('argument defaults',UV)],['os.environ','bootstrap results'])
p('C28','Station chunks get ordered, collision-free coordinates',
 'When files of station chunks are opened together, the stations of the chunk numbered r get strictly increasing coordinates in [r, r+1), so that joining chunks keeps chunk order and station order and never merges two stations. A file without a chunk number, or without the station dimension, is rejected.',
 ['inputs'],'all chunk numbers and station counts',
 'the module is not tested at all',
 ['PyAnEn/IO.py'],[('__add_coords__','PyAnEn/IO.py')],['num_stations coordinate'])
p('C29','Mismatched data are rejected at construction and by every setter',
 'Constructing a verifier raises when forecasts (every distribution parameter) and observations differ in shape apart from the member axis, when the member axis is neither first nor last, when a distribution parameter is missing, or when a setting has the wrong type. A setter call that would create such a state raises as well. Consistent data and settings are always accepted.',
 ['inputs','configurations'],'all shape combinations and settings',
 'tests never construct a verifier with inconsistent data',
 [V,VD,VE,VP,VG,VA,VH],[('_validate*',V),('_validate',VE),('_validate',VG)],['constructors','set_*'])
p('C30','Reading a file keeps its values and labels its axes',
 'Opening one file returns every variable of the group asked for with its values, axes, order and attributes as stored, except that two-dimensional character matrices become one name per row, each axis that has its documented variable (FLTs, ParameterNames, test_times, search_times, Times) is labelled with that variable, time variables carry the unit seconds since 1970-01-01, the test-time axis is called num_times when no axis has that name, and values are decoded exactly when asked. Opening several files takes missing lead-time and test-time labels and station coordinates from the root group, and reading station coordinates returns the two named variables as stored and rejects different lengths.',
 ['inputs','configurations'],'all values, lengths and combinations of axes, groups and options',
 'the module is not tested at all',
 ['PyAnEn/IO.py','PyAnEn/Grid.py'],[('open_dataset','PyAnEn/IO.py'),('open_mfdataset','PyAnEn/IO.py'),('_decode_name_matrix','PyAnEn/IO.py'),('read_station_coordinates','PyAnEn/Grid.py')],['returned dataset','station coordinates'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
