"""Behaviour-preserving rewrites of /repo, to see that the checks stay quiet on them: python3 tools/refactors.py SET DIR
applies one set to the copy of the repository in DIR."""
import sys

SETS = {}


def s(name, file, old, new, count=1):
    SETS.setdefault(name, []).append((file, old, new, count))


# ---------------------------------------------------------------- A: helpers extracted
V = 'utils_verify.py'
s('A', V, '''def rankdata(x):
''', '''def _break_tie(low, n_ties):
    return np.random.randint(low, low + n_ties + 1, n_ties)[0]


def rankdata(x):
''')
s('A', V, '''        obs_ranks[ties == unique_tie[i]] = [np.random.randint(index[j], index[j] + unique_tie[i] + 1, unique_tie[i])[0] 
                                            for j in range(len(index))]
''', '''        obs_ranks[ties == unique_tie[i]] = [_break_tie(index[j], unique_tie[i]) for j in range(len(index))]
''')
s('A', V, '''def boot_vec(pop,''', '''def _defaults(n_samples, repeats, confidence):
    if n_samples is None: n_samples = int(os.environ['pyanen_boot_samples'])
    if repeats is None: repeats = int(os.environ['pyanen_boot_repeats'])
    if confidence is None: confidence = float(os.environ['pyanen_boot_confidence'])
    return n_samples, repeats, confidence


def _interval(samples, confidence):
    delta = (1 - confidence) / 2
    low, high = np.quantile(samples, [delta, 1 - delta])
    return np.array([low, np.mean(samples), high])


def boot_vec(pop,''')
s('A', V, '''    if n_samples is None: n_samples = int(os.environ['pyanen_boot_samples'])
    if repeats is None: repeats = int(os.environ['pyanen_boot_repeats'])
    if confidence is None: confidence = float(os.environ['pyanen_boot_confidence'])
    
    if skip_nan:
        boot_samples_mean =''', '''    n_samples, repeats, confidence = _defaults(n_samples, repeats, confidence)
    
    if skip_nan:
        boot_samples_mean =''')
s('A', V, '''    boot_samples_mean = np.array(boot_samples_mean)
    
    sample_mean = boot_samples_mean.mean()
    delta = (1-confidence) / 2
    ci = np.quantile(boot_samples_mean, [delta, 1-delta])
''', '''    boot_samples_mean = np.array(boot_samples_mean)
''')
s('A', V, '''    return np.array([ci[0], sample_mean, ci[1]])


def boot_arr''', '''    return _interval(boot_samples_mean, confidence)


def boot_arr''')
s('A', V, '''    # Move sample axis to the beginning
    to_axis = 0

    for from_axis in np.sort([x + metric.ndim if x < 0 else x for x in sample_axis]):
        if from_axis != to_axis:
            metric = np.moveaxis(metric, from_axis, to_axis)
        to_axis += 1

    shape_to_keep = metric.shape[to_axis:]
''', '''    metric, shape_to_keep = _to_front(metric, sample_axis)
''')
s('A', V, '''def boot_arr(metric''', '''def _to_front(arr, axes):
    front = sorted(x % arr.ndim for x in axes)
    arr = np.moveaxis(arr, front, range(len(front)))
    return arr, arr.shape[len(front):]


def boot_arr(metric''')
s('A', V, '''    # Move sample axis to the beginning
    to_axis = 0

    for from_axis in np.sort([x + f_prob.ndim if x < 0 else x for x in sample_axis]):
        if from_axis != to_axis:
            f_prob = np.moveaxis(f_prob, from_axis, to_axis)
            o_binary = np.moveaxis(o_binary, from_axis, to_axis)
        to_axis += 1

    shape_to_keep = f_prob.shape[to_axis:]
''', '''    f_prob, shape_to_keep = _to_front(f_prob, sample_axis)
    o_binary, _ = _to_front(o_binary, sample_axis)
''')
s('A', V, '''            ci = np.quantile(sample_probs, [(1-confidence) / 2, (1+confidence) / 2])
            probs_pred.append([ci[0], np.mean(sample_probs), ci[1]])

            ci = np.quantile(sample_trues, [(1-confidence) / 2, (1+confidence) / 2])
            probs_true.append([ci[0], np.mean(sample_trues), ci[1]])
''', '''            probs_pred.append(_interval(sample_probs, confidence))
            probs_true.append(_interval(sample_trues, confidence))
''')
s('A', 'VerifyEnsemble.py', '''    def _reliability(self, nbins=15, over=None, below=None):
        
        # Calculate forecasted probability and binarized observations
        f_prob = self.cdf(over=over, below=below)
        o_binary = binarize_obs(self.o, over=over, below=below)
''', '''    def _prob_and_event(self, over, below):
        return self.cdf(over=over, below=below), binarize_obs(self.o, over=over, below=below)
    
    def _reliability(self, nbins=15, over=None, below=None):
        f_prob, o_binary = self._prob_and_event(over, below)
''')
s('A', 'VerifyEnsemble.py', '''        f_prob = self.cdf(over=over, below=below)
        o_binary = binarize_obs(self.o, over=over, below=below)
        
        return calculate_roc''', '''        f_prob, o_binary = self._prob_and_event(over, below)
        
        return calculate_roc''')
s('A', 'Verify.py', '''    def _save(self, name, arr):
        if self.working_directory and isinstance(name, str):
            path = os.path.join(self.working_directory, name + '.pkl')
            part''', '''    def _entry(self, name):
        if self.working_directory and isinstance(name, str):
            return os.path.join(self.working_directory, name + '.pkl')
        return None
    
    def _save(self, name, arr):
        path = self._entry(name)
        if path is not None:
            part''')
s('A', 'Verify.py', '''        if self.working_directory and isinstance(name, str):
            path = os.path.join(self.working_directory, name + '.pkl')
            
            if os.path.exists(path):
                with open(path, 'rb') as f:
                    return pickle.load(f)
            
        return None
''', '''        path = self._entry(name)
        if path is None or not os.path.exists(path):
            return None
        
        with open(path, 'rb') as f:
            return pickle.load(f)
''')
D = 'utils_dist.py'
s('A', D, '''def cdf_gaussian(mu''', '''def _as_threshold(below, shape):
    if isinstance(below, np.ndarray):
        assert below.shape == shape
        return below
    if isinstance(below, (float, int)):
        return np.full(shape, below)
    raise RuntimeError('below should be either a scalar or an Numpy array. Got {}'.format(type(below)))


def _split(axis, *arrs):
    return zip(*[np.split(a, a.shape[axis], axis) for a in arrs])


def cdf_gaussian(mu''')
s('A', D, '''    if isinstance(below, np.ndarray):
        assert below.shape == mu.shape
    elif isinstance(below, float) or isinstance(below, int):
        below = np.full(mu.shape, below)
    else:
        raise RuntimeError('below should be either a scalar or an Numpy array. Got {}'.format(type(below)))
''', '''    below = _as_threshold(below, mu.shape)
''')
s('A', D, '''    if isinstance(below, np.ndarray):
        assert below.shape == shape.shape
    elif isinstance(below, float) or isinstance(below, int):
        below = np.full(shape.shape, below)
    else:
        raise RuntimeError('below should be either a scalar or an Numpy array. Got {}'.format(type(below)))
''', '''    below = _as_threshold(below, shape.shape)
''', 2)
s('A', D, '''        iterable = zip(
            np.split(mu, mu.shape[parallelize_axis], parallelize_axis),
            np.split(sigma, sigma.shape[parallelize_axis], parallelize_axis),
            np.split(below, below.shape[parallelize_axis], parallelize_axis),
        )
''', '''        iterable = _split(parallelize_axis, mu, sigma, below)
''')
s('A', D, '''    probs[probs < 0] = 0
    probs[probs > 1] = 1
    
    return probs
''', '''    return np.clip(probs, 0, 1)
''', 3)
P = 'utils_approximation.py'
s('A', P, '''    def _mean(self):
''', '''    def _in_order(self, pairs):
        out = [None] * len(pairs)
        for i, e in pairs: out[i] = e
        return out
        
    def _mean(self):
''')
s('A', P, '''                cdf_ordered = [None] * len(cdf)
                for i, e in cdf: cdf_ordered[i] = e
                del cdf
                cdf = cdf_ordered
''', '''                cdf = self._in_order(cdf)
''', 2)
s('A', 'utils_special_boot.py', '''def _func_brier_decomp(f_slice''', '''def _average(x, skip_nan):
    return np.nanmean(x) if skip_nan else np.mean(x)


def _func_brier_decomp(f_slice''')
s('A', 'utils_special_boot.py', '''                if skip_nan:
                    reliability += N_i * (np.nanmean(f_slice[mask]) - np.nanmean(o_slice[mask])) ** 2
                    resolution += N_i * (np.nanmean(o_slice[mask]) - o_bar) ** 2
                else:
                    reliability += N_i * (np.mean(f_slice[mask]) - np.mean(o_slice[mask])) ** 2
                    resolution += N_i * (np.mean(o_slice[mask]) - o_bar) ** 2
''', '''                o_mean = _average(o_slice[mask], skip_nan)
                reliability += N_i * (_average(f_slice[mask], skip_nan) - o_mean) ** 2
                resolution += N_i * (o_mean - o_bar) ** 2
''')
s('A', 'utils_ss.py', '''        if skip_nan:
            variances.append([np.nanmean(arr[:, 0, i]) for i in range(arr.shape[2])])
            mses.append([np.nanmean(arr[:, 1, i]) for i in range(arr.shape[2])])
        else:
            variances.append([arr[:, 0, i].mean() for i in range(arr.shape[2])])
            mses.append([arr[:, 1, i].mean() for i in range(arr.shape[2])])
''', '''        mean = np.nanmean if skip_nan else np.mean
        variances.append([mean(arr[:, 0, i]) for i in range(arr.shape[2])])
        mses.append([mean(arr[:, 1, i]) for i in range(arr.shape[2])])
''')

# ---------------------------------------------------------------- B: loops and statements rewritten
s('B', V, '''    for i in range(len(unique_tie)):
        
        index = obs_ranks[ties == unique_tie[i]]
        obs_ranks[ties == unique_tie[i]] = [np.random.randint(index[j], index[j] + unique_tie[i] + 1, unique_tie[i])[0] 
                                            for j in range(len(index))]
''', '''    for n_ties in unique_tie:
        
        where = ties == n_ties
        index = obs_ranks[where]
        new_ranks = []
        for rank in index:
            new_ranks.append(np.random.randint(rank, rank + n_ties + 1, n_ties)[0])
        obs_ranks[where] = new_ranks
''')
s('B', V, '''    return np.count_nonzero(ens[1:] <= ens[0], axis=0) / (ens.shape[0] - 1)
''', '''    threshold, members = ens[0], ens[1:]
    return np.sum(members <= threshold, axis=0) / members.shape[0]
''')
s('B', V, '''    if skip_nan:
        boot_samples_mean = [np.nanmean(np.random.choice(pop, size=n_samples, replace=True)) for _ in range(repeats)]
    else:
        boot_samples_mean = [np.random.choice(pop, size=n_samples, replace=True).mean() for _ in range(repeats)]
        
    boot_samples_mean = np.array(boot_samples_mean)
''', '''    average = np.nanmean if skip_nan else np.mean
    boot_samples_mean = np.empty(repeats)
    for k in range(repeats):
        boot_samples_mean[k] = average(np.random.choice(pop, size=n_samples, replace=True))
''')
s('B', V, '''    bin_sums = np.bincount(binids, weights=y_prob, minlength=len(bins))
    bin_true = np.bincount(binids, weights=y_true, minlength=len(bins))
    bin_total = np.bincount(binids, minlength=len(bins))
    
    nonzero = bin_total != 0
    
    prob_pred = bin_sums[nonzero] / bin_total[nonzero]
    prob_true = bin_true[nonzero] / bin_total[nonzero]
''', '''    n = len(bins)
    bin_total = np.bincount(binids, minlength=n)
    nonzero = bin_total > 0
    counts = bin_total[nonzero]
    
    prob_true = np.bincount(binids, weights=y_true, minlength=n)[nonzero] / counts
    prob_pred = np.bincount(binids, weights=y_prob, minlength=n)[nonzero] / counts
''')
s('B', V, '''    return o < below if over is None else o > over
''', '''    if over is None:
        return o < below
    return o > over
''')
s('B', V, '''    f_prob = f_prob.flatten()
    o_binary = o_binary.flatten()
    
    if util.strtobool(os.environ['pyanen_skip_nan']):
        mask = np.isnan(f_prob) | np.isnan(o_binary)
        f_prob = f_prob[~mask]
        o_binary = o_binary[~mask]
''', '''    f_prob, o_binary = f_prob.ravel(), o_binary.ravel()
    
    if util.strtobool(os.environ['pyanen_skip_nan']):
        keep = ~np.isnan(f_prob) & ~np.isnan(o_binary)
        f_prob, o_binary = f_prob[keep], o_binary[keep]
''')
s('B', V, '''    iou = np.count_nonzero(intersect, axis=axis) / np.count_nonzero(union, axis=axis)
    return iou
''', '''    return np.sum(intersect, axis=axis) / np.sum(union, axis=axis)
''')
s('B', V, '''    intersect = f_binary & o_binary
    union = f_binary | o_binary
''', '''    union = np.logical_or(f_binary, o_binary)
    intersect = np.logical_and(o_binary, f_binary)
''')
s('B', 'utils_special_boot.py', '''    ret = []
    
    for i in tqdm(range(f.shape[0]), disable=disable, leave=leave, desc=desc):
        f_slice = f[i].ravel()
        o_slice = o[i].ravel()
        ret.append(func(f_slice, o_slice, n_samples, repeats, confidence, skip_nan))
''', '''    ret = [func(f_slice, o_slice, n_samples, repeats, confidence, skip_nan)
           for f_slice, o_slice in tqdm(zip(f, o), disable=disable, leave=leave, desc=desc, total=f.shape[0])]
''')
s('B', 'utils_special_boot.py', '''        for bin_i in range(belongs.max() + 1):
            mask = belongs == bin_i
            N_i = np.count_nonzero(mask)

            if N_i != 0:
''', '''        for bin_i in range(n_bins + 1):
            mask = belongs == bin_i
            N_i = mask.sum()

            if N_i > 0:
''')
s('B', 'utils_special_boot.py', '''            indices = np.random.choice(list(range(len(f_slice))), size=n_samples, replace=True)
            corr.append(''', '''            indices = np.random.randint(0, len(f_slice), size=n_samples)
            corr.append(''')
s('B', 'utils_ss.py', '''    for i in range(variance.shape[1]):
        index_sort = np.argsort(variance[:, i])
        variance[:, i] = variance[index_sort, i]
        sq_error[:, i] = sq_error[index_sort, i]
''', '''    for i in range(variance.shape[1]):
        order = variance[:, i].argsort()
        sq_error[:, i] = sq_error[order, i]
        variance[:, i] = variance[order, i]
''')
s('B', 'utils_ss.py', '''            variances.append([np.nanmean(arr[:, 0, i]) for i in range(arr.shape[2])])
            mses.append([np.nanmean(arr[:, 1, i]) for i in range(arr.shape[2])])
        else:
            variances.append([arr[:, 0, i].mean() for i in range(arr.shape[2])])
            mses.append([arr[:, 1, i].mean() for i in range(arr.shape[2])])
''', '''            variances.append(np.nanmean(arr[:, 0, :], axis=0))
            mses.append(np.nanmean(arr[:, 1, :], axis=0))
        else:
            variances.append(arr[:, 0].mean(axis=0))
            mses.append(arr[:, 1].mean(axis=0))
''')
s('B', 'utils_ss.py', '''                idx = np.random.randint(pop_size, size=n_samples)
                
                if skip_nan:
                    variances.append(np.nanmean(arr[idx, 0, dim_i]))
                    mses.append(np.nanmean(arr[idx, 1, dim_i]))
                else:
                    variances.append(arr[idx, 0, dim_i].mean())
                    mses.append(arr[idx, 1, dim_i].mean())
''', '''                sample = arr[np.random.randint(0, pop_size, size=n_samples), :, dim_i]
                average = np.nanmean if skip_nan else np.mean
                variances.append(average(sample[:, 0]))
                mses.append(average(sample[:, 1]))
''')
s('B', 'Verify.py', '''            if hasattr(v, '__len__'):
                if isinstance(v, np.ndarray) and len(v.ravel()) > 5: return None
                elif len(v) > 5: return None
''', '''            if hasattr(v, '__len__'):
                size = v.size if isinstance(v, np.ndarray) else len(v)
                if size > 5: return None
                if len(v) > 5: return None
''')
s('B', 'Verify.py', '''        return '_'.join([save_name] + ['{}_{}'.format(k, v) for k, v in strs.items()])
''', '''        name = save_name
        for k, v in strs.items():
            name += f'_{k}_{v}'
        return name
''')
s('B', 'Verify.py', '''            if util.strtobool(os.environ['pyanen_skip_nan']):
                return np.nanmean(metric, axis=self.avg_axis)
            else:
                return metric.mean(axis=self.avg_axis)
''', '''            average = np.nanmean if util.strtobool(os.environ['pyanen_skip_nan']) else np.mean
            return average(metric, axis=self.avg_axis)
''')
s('B', 'Verify.py', '''        if freqs_sum != 1:
            freqs = freqs / freqs_sum
            
        return np.sum(np.abs(freqs - 1 / len(freqs)))
''', '''        n = len(freqs)
        return np.abs(freqs / freqs_sum - 1 / n).sum()
''')
s('B', 'Verify.py', '''            if os.path.exists(self.working_directory):
                if self.start_from_scratch:
                    shutil.rmtree(self.working_directory)
                    os.makedirs(self.working_directory)
            else:
                os.makedirs(self.working_directory)
''', '''            if self.start_from_scratch and os.path.exists(self.working_directory):
                shutil.rmtree(self.working_directory)
            
            if not os.path.exists(self.working_directory):
                os.makedirs(self.working_directory)
''')
s('B', D, '''    prob = 1. - x[0]
    mask = x[3] > 0.
    prob[mask] += x[0][mask] * stats.gamma.cdf(x=x[3][mask], a=x[1][mask], scale=x[2][mask])
    prob[x[3] < 0.] = 0.
    return prob
''', '''    pop, shape, scale, below = x
    prob = np.where(below > 0., 1. - pop + pop * stats.gamma.cdf(x=below, a=shape, scale=scale), 1. - pop)
    prob[below < 0.] = 0.
    return prob
''')
s('B', D, '''    # Move the ensemble axis somewhere else if the first position is not desired
    if move_axis != 0:
        ens = np.moveaxis(ens, 0, move_axis)
    
    return ens
''', '''    return np.moveaxis(ens, 0, move_axis)
''', 2)
s('B', P, '''        for i in tqdm(range(arr.shape[0]), desc='Aggregating memmap', **self.pbar_kws, total=arr.shape[0]):
            out += arr[i] * mul[i]
            
        return out''', '''        for a, m in tqdm(zip(arr, mul), desc='Aggregating memmap', **self.pbar_kws, total=arr.shape[0]):
            out = out + a * m
            
        return out''')
s('B', P, '''            brier = [wrapper(_x) for _x in tqdm(enumerate(self.seq_x), **self.pbar_kws, desc=desc, total=self.nbins)]
            if not self.less_memory: brier = np.array([i[1] for i in brier])
''', '''            brier = []
            for item in tqdm(enumerate(self.seq_x), **self.pbar_kws, desc=desc, total=self.nbins):
                brier.append(wrapper(item))
            if not self.less_memory: brier = np.stack([b for _, b in brier], axis=0)
''')
s('B', P, '''                brier_ordered = [None] * len(brier)
                for i, e in brier: brier_ordered[i] = e
                del brier
                brier = brier_ordered
''', '''                brier = [b for _, b in sorted(brier, key=lambda pair: pair[0])]
''')
s('B', P, '''        for k, v in self.tqdm_backup.items():
            os.environ[k] = str(v)
''', '''        os.environ.update(self.tqdm_backup)
''')
s('B', 'VerifyEnsemble.py', '''        if util.strtobool(os.environ['pyanen_skip_nan']):
            return np.nanmax(self.f, axis=self.ensemble_axis) - np.nanmin(self.f, axis=self.ensemble_axis)
        else:
            return np.max(self.f, axis=self.ensemble_axis) - np.min(self.f, axis=self.ensemble_axis)
''', '''        skip = util.strtobool(os.environ['pyanen_skip_nan'])
        top, bottom = (np.nanmax, np.nanmin) if skip else (np.max, np.min)
        high = top(self.f, axis=self.ensemble_axis)
        low = bottom(self.f, axis=self.ensemble_axis)
        return high - low
''')
s('B', 'VerifyEnsemble.py', '''        for guess in my_guesses:
            f_shape = list(self.f.shape)
            f_shape.pop(guess)
            
            if f_shape == o_shape:
                self.ensemble_axis = guess
                return
''', '''        for guess in my_guesses:
            if list(np.delete(self.f.shape, guess)) == o_shape:
                self.ensemble_axis = guess
                return
''')
s('B', 'VerifyEnsemble.py', '''        return (self.f_collapsed - self.o) ** 2
''', '''        return np.square(self._error())
''')
s('B', 'VerifyProb.py', '''        return (self.f_determ() - self.o) ** 2
''', '''        diff = self.f_determ() - self.o
        return diff * diff
''')
s('B', 'IO.py', '''    station_coords = [start + index / current_total for index in range(current_total)]
''', '''    station_coords = []
    for index in range(current_total):
        station_coords.append(start + index / current_total)
''')
# ---------------------------------------------------------------- C: early returns, dispatch, vectorised forms, f-strings
s('C', V, '''    if n_samples is None: n_samples = int(os.environ['pyanen_boot_samples'])
    if repeats is None: repeats = int(os.environ['pyanen_boot_repeats'])
    if confidence is None: confidence = float(os.environ['pyanen_boot_confidence'])
    
    if skip_nan:
        boot_samples_mean = [np.nanmean(np.random.choice(pop, size=n_samples, replace=True)) for _ in range(repeats)]
    else:
        boot_samples_mean = [np.random.choice(pop, size=n_samples, replace=True).mean() for _ in range(repeats)]
        
    boot_samples_mean = np.array(boot_samples_mean)
''', '''    n_samples = int(os.environ['pyanen_boot_samples']) if n_samples is None else n_samples
    repeats = int(os.environ['pyanen_boot_repeats']) if repeats is None else repeats
    confidence = float(os.environ['pyanen_boot_confidence']) if confidence is None else confidence
    
    statistic = np.nanmean if skip_nan else np.mean
    boot_samples_mean = np.empty(repeats)
    for k in range(repeats):
        boot_samples_mean[k] = statistic(np.random.choice(pop, size=n_samples))
''')
s('C', V, '''    delta = (1-confidence) / 2
    ci = np.quantile(boot_samples_mean, [delta, 1-delta])
''', '''    delta = 0.5 * (1 - confidence)
    low, high = (np.quantile(boot_samples_mean, q) for q in (delta, 1 - delta))
''')
s('C', V, "    return np.array([ci[0], sample_mean, ci[1]])\n\n\ndef boot_arr", "    return np.array([low, sample_mean, high])\n\n\ndef boot_arr")
s('C', V, '''    for from_axis in np.sort([x + metric.ndim if x < 0 else x for x in sample_axis]):
        if from_axis != to_axis:
            metric = np.moveaxis(metric, from_axis, to_axis)
        to_axis += 1

    shape_to_keep = metric.shape[to_axis:]
''', '''    axes = sorted(x % metric.ndim for x in sample_axis)
    metric = np.moveaxis(metric, axes, list(range(len(axes))))
    shape_to_keep = metric.shape[len(axes):]
''')
s('C', V, '''    if pbar is not None: pbar.update(1)
    return np.count_nonzero(ens[1:] <= ens[0], axis=0) / (ens.shape[0] - 1)
''', '''    threshold, members = ens[0], ens[1:]
    if pbar is not None:
        pbar.update(1)
    return (members <= threshold).mean(axis=0)
''')
s('C', V, '''    assert (over is None) ^ (below is None), 'Must specify over or below'
    return o < below if over is None else o > over
''', '''    if (over is None) == (below is None):
        raise AssertionError('Must specify over or below')
    if over is not None:
        return np.greater(o, over)
    return np.less(o, below)
''')
s('C', V, '''        mask = np.isnan(f_prob) | np.isnan(o_binary)
        f_prob = f_prob[~mask]
        o_binary = o_binary[~mask]
''', '''        keep = ~np.isnan(f_prob) & ~np.isnan(o_binary)
        f_prob, o_binary = f_prob[keep], o_binary[keep]
''')
s('C', V, '''    bin_total = np.bincount(binids, minlength=len(bins))
    
    nonzero = bin_total != 0
    
    prob_pred = bin_sums[nonzero] / bin_total[nonzero]
    prob_true = bin_true[nonzero] / bin_total[nonzero]
''', '''    bin_total = np.bincount(binids, minlength=len(bins))
    
    filled = np.flatnonzero(bin_total)
    
    prob_pred = np.divide(bin_sums[filled], bin_total[filled])
    prob_true = np.divide(bin_true[filled], bin_total[filled])
''')
D = 'utils_dist.py'
s('C', D, '''def wrapper_norm_rvs(x, n_sample_members):
    return stats.norm(loc=x[0], scale=x[1]).rvs([n_sample_members] + list(x[0].shape))
''', '''def wrapper_norm_rvs(x, n_sample_members):
    mu, sigma = x
    return stats.norm.rvs(loc=mu, scale=sigma, size=(n_sample_members, *mu.shape))
''')
s('C', D, '''    prob = 1. - x[0]
    mask = x[3] > 0.
    prob[mask] += x[0][mask] * stats.gamma.cdf(x=x[3][mask], a=x[1][mask], scale=x[2][mask])
    prob[x[3] < 0.] = 0.
    return prob
''', '''    pop, shape, scale, below = x
    wet = pop * stats.gamma.cdf(x=below, a=shape, scale=scale)
    prob = np.where(below > 0., (1. - pop) + wet, 1. - pop)
    return np.where(below < 0., 0., prob)
''')
s('C', D, '''    if cores == 1:
        if truncated:
            # Truncate at zero
            # a is set to the clip value effectively at zero
            # b is set to a large number to mimic infinite 
            #
            ens = stats.truncnorm(a=-mu/sigma, b=_LARGE_NUMBER_, loc=mu, scale=sigma).rvs([n_sample_members] + arr_shape)
        else:
            ens = stats.norm(loc=mu, scale=sigma).rvs([n_sample_members] + arr_shape)
            
    else:
''', '''    if cores == 1:
        sampler = wrapper_truncnorm_rvs if truncated else wrapper_norm_rvs
        ens = sampler((mu, sigma), n_sample_members)
    else:
''')
s('C', D, '''    if move_axis != 0:
        ens = np.moveaxis(ens, 0, move_axis)
    
    return ens
''', '''    return ens if move_axis == 0 else np.moveaxis(ens, 0, move_axis)
''', 2)
s('C', 'Verify.py', '''        metric = self._load(save_name)
        
        if metric is None:
            metric = func(**kwargs)
            self._save(save_name, metric)
            
        return metric
''', '''        saved = self._load(save_name)
        if saved is not None:
            return saved
        
        computed = func(**kwargs)
        self._save(save_name, computed)
        return computed
''')
s('C', 'Verify.py', '''        if self.working_directory and isinstance(name, str):
            path = os.path.join(self.working_directory, name + '.pkl')
            
            if os.path.exists(path):
                with open(path, 'rb') as f:
                    return pickle.load(f)
            
        return None
''', '''        if not self.working_directory or not isinstance(name, str):
            return None
        
        path = os.path.join(self.working_directory, f'{name}.pkl')
        try:
            with open(path, 'rb') as f:
                return pickle.load(f)
        except FileNotFoundError:
            return None
''')
s('C', 'Verify.py', '''        return '_'.join([save_name] + ['{}_{}'.format(k, v) for k, v in strs.items()])
''', '''        name = save_name
        for k, v in strs.items():
            name += f'_{k}_{v}'
        return name
''')
s('C', 'Verify.py', '''        freqs_sum = np.sum(freqs)
        
        if freqs_sum != 1:
            freqs = freqs / freqs_sum
            
        return np.sum(np.abs(freqs - 1 / len(freqs)))
''', '''        freqs = np.asarray(freqs) / np.sum(freqs)
        return np.abs(freqs - 1 / freqs.size).sum()
''')
s('C', 'Verify.py', '''        if self.avg_axis is not None:
            if isinstance(self.avg_axis, int):
                self.avg_axis = (self.avg_axis, )
            if isinstance(self.avg_axis, list):
                self.avg_axis = tuple(self.avg_axis)
            assert isinstance(self.avg_axis, tuple)
''', '''        axis = self.avg_axis
        if axis is None:
            return
        if isinstance(axis, int):
            axis = (axis, )
        elif isinstance(axis, list):
            axis = tuple(axis)
        assert isinstance(axis, tuple)
        self.avg_axis = axis
''')
s('C', 'VerifyProbGaussian.py', '''        o_shape = list(self.o.shape)
        
        for k in self.f.keys():
            f_shape = list(self.f[k].shape)
            assert f_shape == o_shape, 'Shape mismatch: f[{}] ({}) and o ({})'.format(k, f_shape, o_shape)
            
        assert 'mu' in self.f.keys()
        assert 'sigma' in self.f.keys()
''', '''        for name, values in self.f.items():
            if values.shape != self.o.shape:
                raise AssertionError(f'Shape mismatch: f[{name}] ({values.shape}) and o ({self.o.shape})')
            
        assert {'mu', 'sigma'} <= set(self.f.keys())
''')
s('C', 'VerifyProbGaussian.py', '''            ens[ens < self.clip_member_to_zero] = 0
            
        return ens
''', '''            ens = np.where(ens < self.clip_member_to_zero, 0, ens)
            
        return ens
''')
s('C', 'VerifyProbGaussian.py', '''        return np.copy(self.f['mu'])
''', '''        return self.f['mu'].copy()
''')
s('C', 'VerifyProb.py', '''        brier = self.cdf(over=over, below=below) - binarize_obs(self.o, over=over, below=below)
        return brier ** 2
''', '''        probability = self.cdf(over=over, below=below)
        event = binarize_obs(self.o, over=over, below=below).astype(float)
        return np.square(probability - event)
''')
s('C', 'VerifyProb.py', '''            mask = self.o == 0
            ranks[mask] = stats.uniform(loc=0, scale=ranks[mask]).rvs()
''', '''            mask = np.equal(self.o, 0)
            if mask.any():
                ranks[mask] = np.random.uniform(size=np.count_nonzero(mask)) * ranks[mask]
''')
s('C', 'VerifyEnsemble.py', '''        return (self.f_collapsed - self.o) ** 2
''', '''        return np.square(self._error())
''')
s('C', 'VerifyEnsemble.py', '''        return np.abs(self.f_collapsed - self.o)
''', '''        return abs(self._error())
''')
s('C', 'VerifyEnsemble.py', '''        if util.strtobool(os.environ['pyanen_skip_nan']):
            return np.nanmax(self.f, axis=self.ensemble_axis) - np.nanmin(self.f, axis=self.ensemble_axis)
        else:
            return np.max(self.f, axis=self.ensemble_axis) - np.min(self.f, axis=self.ensemble_axis)
''', '''        skip = util.strtobool(os.environ['pyanen_skip_nan'])
        largest, smallest = (np.nanmax, np.nanmin) if skip else (np.max, np.min)
        return largest(self.f, axis=self.ensemble_axis) - smallest(self.f, axis=self.ensemble_axis)
''')
s('C', 'utils_ss.py', '''    for i in range(variance.shape[1]):
        index_sort = np.argsort(variance[:, i])
        variance[:, i] = variance[index_sort, i]
        sq_error[:, i] = sq_error[index_sort, i]
''', '''    order = np.argsort(variance, axis=0)
    variance = np.take_along_axis(variance, order, axis=0)
    sq_error = np.take_along_axis(sq_error, order, axis=0)
''')
s('C', 'utils_ss.py', '''        if skip_nan:
            variances.append([np.nanmean(arr[:, 0, i]) for i in range(arr.shape[2])])
            mses.append([np.nanmean(arr[:, 1, i]) for i in range(arr.shape[2])])
        else:
            variances.append([arr[:, 0, i].mean() for i in range(arr.shape[2])])
            mses.append([arr[:, 1, i].mean() for i in range(arr.shape[2])])
''', '''        mean = np.nanmean if skip_nan else np.mean
        variances.append(mean(arr[:, 0], axis=0))
        mses.append(mean(arr[:, 1], axis=0))
''')
s('C', 'utils_special_boot.py', '''        if skip_nan:
            mask = (~np.isnan(f_slice)) & (~np.isnan(o_slice))
            return np.corrcoef(f_slice[mask], o_slice[mask])[0, 1]
        else:
            return np.corrcoef(f_slice, o_slice)[0, 1]
''', '''        if skip_nan:
            keep = ~(np.isnan(f_slice) | np.isnan(o_slice))
            f_slice, o_slice = f_slice[keep], o_slice[keep]
        return np.corrcoef(f_slice, o_slice)[1, 0]
''')
s('C', 'utils_special_boot.py', '''        for bin_i in range(belongs.max() + 1):
            mask = belongs == bin_i
            N_i = np.count_nonzero(mask)

            if N_i != 0:
                if skip_nan:
                    reliability += N_i * (np.nanmean(f_slice[mask]) - np.nanmean(o_slice[mask])) ** 2
                    resolution += N_i * (np.nanmean(o_slice[mask]) - o_bar) ** 2
                else:
                    reliability += N_i * (np.mean(f_slice[mask]) - np.mean(o_slice[mask])) ** 2
                    resolution += N_i * (np.mean(o_slice[mask]) - o_bar) ** 2
''', '''        mean = np.nanmean if skip_nan else np.mean
        for bin_i in range(n_bins + 1):
            mask = belongs == bin_i
            N_i = mask.sum()
            if N_i == 0:
                continue

            f_mean, o_mean = mean(f_slice[mask]), mean(o_slice[mask])
            reliability += N_i * (f_mean - o_mean) ** 2
            resolution += N_i * (o_mean - o_bar) ** 2
''')
s('C', 'utils_special_boot.py', '''    o = o.transpose(out_shape + avg_axis)
    f = f.transpose(out_shape + avg_axis)
''', '''    order = out_shape + avg_axis
    f, o = np.transpose(f, order), np.transpose(o, order)
''')
s('C', 'utils_crps.py', '''    if reduce_sum:
        if util.strtobool(os.environ['pyanen_skip_nan']):
            return np.nanmean(CRPS)
        else:
            return np.mean(CRPS)
    else:
        return CRPS
''', '''    if not reduce_sum:
        return CRPS
    
    return np.nanmean(CRPS) if util.strtobool(os.environ['pyanen_skip_nan']) else np.mean(CRPS)
''')
s('C', 'utils_significance.py', '''    return np.mean((d[k:] - d.mean()) * (d[:(len(d) - k)] - d.mean()))
''', '''    centred = d - d.mean()
    return np.mean(centred[k:] * centred[:len(d) - k])
''')
s('C', '__init__.py', '''    if k not in os.environ:
        os.environ[k] = str(v)
''', '''    os.environ.setdefault(k, str(v))
''')
s('C', 'Grid.py', '''        out_file.writelines(['({}),\\n'.format(', '.join(
            ['nan' if np.isnan(e) else str(e) for e in mat[i_row]])) for i_row in range(mat.shape[0])])
''', '''        for row in mat:
            text = ', '.join('nan' if np.isnan(e) else str(e) for e in row)
            out_file.write(f'({text}),\\n')
''')
s('C', 'IO.py', '''    return [''.join(row) for row in mat]
''', '''    names = []
    for row in mat:
        names.append(''.join(row))
    return names
''')
s('C', 'IO.py', '''    if 'num_times' not in ds.dims and 'num_test_times' in ds.dims:
        ds = ds.rename(num_test_times='num_times')
''', '''    if 'num_test_times' in ds.dims and 'num_times' not in ds.dims:
        ds = ds.rename({'num_test_times': 'num_times'})
''', 2)
s('C', 'IO.py', '''    for key, value in coords_dict.items():
        if key in ds.dims and value in ds:
            ds.coords[key] = ds[value]
''', '''    labels = {key: ds[value] for key, value in coords_dict.items() if key in ds.dims and value in ds}
    ds = ds.assign_coords(labels)
''')
if __name__ == '__main__':
    for f, old, new, count in SETS[sys.argv[1]]:
        p = sys.argv[2] + '/PyAnEn/' + f
        t = open(p).read()
        assert t.count(old) >= count, (f, old, t.count(old))
        open(p, 'w').write(t.replace(old, new))
