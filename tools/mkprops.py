"""Writes properties.jsonl and MANIFEST.json (run by hand after editing; checks never run it)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPL = 'proadv/filtration/replacement/replacements.py'
DET = 'proadv/filtration/detection/'
ST = 'proadv/statistics/'

P = []


def prop(pid, title, statement, over, text, why, files, mech, observe, note, technique='runtime monitor: online oracle on real calls'):
    P.append((dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)),
              technique, note))


prop('C01', 'No call ever modifies its arguments, and no result aliases them',
     'Every public function leaves every array, list and option the caller passed exactly as it was, byte for byte, whether the call '
     'returns or raises and whatever the memory layout (strided, reversed, read-only). Arrays it returns share no memory with its '
     'arguments, so overwriting a result never changes the caller\'s data.',
     ['inputs', 'histories'], 'all public functions, all arguments (valid or invalid), all layouts, all exits (return or exception)',
     'tests look at return values of one contiguous array each; none inspects the arguments afterwards, none passes views or makes a call fail part-way',
     [REPL, DET + 'phasespace.py', DET + 'trivariatekernel.py', DET + 'spherical.py', DET + 'correlation.py', DET + 'acceleration.py',
      DET + 'pollution.py', ST + 'series.py', ST + 'descriptive.py', ST + 'spread.py', ST + 'moment.py', ST + 'distributions/normal.py',
      ST + 'signal/butter.py', ST + 'signal/synthetic.py', ST + 'signal/fluid.py', ST + 'signal/spectrum.py', ST + 'optimize/optimize.py',
      'proadv/kernel/bivariate.py'],
     [('copy before write', 'velocities.copy() in every replacement; np.copy in premodification and synthetic noise')],
     ['argument buffers before and after each call', 'np.shares_memory of results and arguments'],
     'guarded buffers around every array argument; bytes compared after return, after exceptions and after overwriting results',
     'runtime monitor: guarded argument buffers and alias checks')

prop('C02', 'A result depends only on the arguments, never on history, threads or globals',
     'Calling any public function with the same argument values gives the same outcome in a fresh process, after any sequence of other '
     'calls, in a buffer that held other values before, and from several threads at once; results handed out earlier never change. '
     'No call changes process-wide state (random state, numeric error handling, warning filters, environment, files); only the noise '
     'generator draws random numbers, from the seedable global generator.',
     ['histories', 'schedules', 'inputs'], 'all call sequences, thread interleavings and argument values',
     'each test makes single calls in one thread; caching, shared scratch state and leaked globals only show over histories and schedules',
     [REPL, DET + 'phasespace.py', DET + 'trivariatekernel.py', DET + 'spherical.py', DET + 'correlation.py', DET + 'acceleration.py',
      ST + 'series.py', ST + 'descriptive.py', ST + 'moment.py', ST + 'distributions/normal.py', ST + 'signal/butter.py',
      ST + 'signal/synthetic.py', ST + 'optimize/optimize.py', 'proadv/kernel/bivariate.py'],
     [('no module state', 'functions keep no module-level mutable state'), ('seeded noise', 'np.random in proadv/statistics/signal/synthetic.py')],
     ['outcomes of repeated, reordered, concurrent and fresh-process calls', 'snapshots of process state around each call'],
     'histories of 2-6 calls replayed in a pristine forked process, in other orders, in reused buffers and in threads with forced switches',
     'runtime monitor: offline comparison of recorded histories; forced thread switches')

prop('C03', 'Replacement only touches the spikes',
     'Replacing a set of spike indices in a record by any of the methods returns a finite record of the same length in which every sample '
     'that is not a spike keeps its value (rounded to the requested decimals for the methods that round). This holds for every record '
     'length, spike pattern (none, isolated, runs, at either end, nearly all) and method parameter.',
     ['inputs', 'configurations'], 'all finite records, sorted distinct index sets, methods and parameters',
     'tests run each method on one short record with one or two spikes', [REPL],
     [('copy and indexed assignment', 'all functions of replacements.py')], ['returned record versus input'],
     'sample-by-sample comparison on seeded records, spike patterns, parameters and layouts')

prop('C04', 'Last-valid, mean and median fills use exactly those values',
     'Last-valid replacement gives every spike the value of the closest earlier sample that is not a spike, also inside long runs, and never '
     'carries a value over from the other end of the record. Mean and median replacement give every spike the mean or median of the whole record as given.',
     ['inputs'], 'all finite records and sorted spike sets', 'tests have one or two isolated spikes', [REPL],
     [('sequential fill', 'last_valid_data'), ('statistic of the original', 'mean_value, median_value')], ['replaced samples'],
     'reference fill computed independently; spikes before the first valid sample are a known finding (wrap-around)')

prop('C05', 'Linear interpolation joins the valid neighbours of every gap',
     'Every run of spikes strictly inside the record is replaced by the straight line between the valid sample before it and the valid sample after it. '
     'A run reaching the end of the record becomes the mean of the record as given and a run starting at the first sample becomes the next valid sample; '
     'the whole record is rounded to the requested number of decimals (four by default).',
     ['inputs', 'configurations'], 'all finite records, spike patterns and decimals', 'tests cover one run length and one position', [REPL],
     [('run grouping', 'linear_interpolation')], ['replaced samples'], 'independent interpolation of every run, rounding ties left open')

prop('C06', 'Twelve-point cubic fill uses the real neighbours',
     'A spike well inside the record takes the value, at its position, of the cubic spline through the twelve samples before it (already cleaned) and the '
     'next twelve valid samples after it, counted as equally spaced with one gap. Within thirty samples of either end, or with fewer than twelve valid samples '
     'ahead, it takes the average of the sample before it and the next valid sample; the record is rounded to the requested decimals.',
     ['inputs', 'configurations'], 'all finite records, spike patterns and decimals', 'tests use one record with one spike position', [REPL],
     [('neighbour selection and interp1d', 'cubic_12points_polynomial')], ['replaced samples'],
     'independent spline reference; rounding ties propagated into the tolerance')

prop('C07', 'Smoother-based fills take the smoothed series at the spike',
     'Moving-average, exponential, weighted, singular-spectrum and Kalman replacement give each spike the entry at the spike\'s own position of the series obtained by '
     'applying that smoother, with the given parameters, to the original record. This holds for every spike position and parameter.',
     ['inputs', 'configurations'], 'all finite records, spike sets and smoother parameters', 'tests use one parameter set and one or two spikes', [REPL, ST + 'series.py'],
     [('index the smoothed series', 'simple_moving_average, exponential_moving_average, weighted_moving_average, ssa, kalman_filter')],
     ['replaced samples'], 'independent smoothers; weighted average at the record tail is a known finding')

prop('C08', 'Polynomial fill extrapolates the preceding samples',
     'A spike beyond the eleventh sample takes the value, at its position, of the least-squares polynomial of the requested degree through the preceding window of '
     'already cleaned samples (all preceding samples while there are fewer than the window). Spikes among samples two to eleven are linearly interpolated, a spike at the first '
     'sample becomes the mean, and the record is rounded to the requested decimals.',
     ['inputs', 'configurations'], 'all finite records, spike sets, windows, degrees and decimals', 'tests use one record and the default parameters', [REPL],
     [('regression on the preceding window', 'polynomial_replacement, _create_model')], ['replaced samples'],
     'independent orthogonal-polynomial fits; error propagation through chains of fits is measured and tolerated')

prop('C09', 'Acceleration thresholding flags exactly the samples past both limits',
     'In the downward or upward phase a sample is flagged if and only if its velocity difference to the previous sample times the sampling frequency exceeds the gravity multiple '
     '(with the phase\'s sign) and the velocity itself lies beyond the mean by more than the given multiple of the standard deviation on the same side. '
     'Indices come sorted, distinct and in range; the first sample has no acceleration.',
     ['inputs', 'configurations'], 'all finite records, frequencies, phases and thresholds', 'tests check one record per phase', [DET + 'acceleration.py'],
     [('double criterion', 'acceleration_thresholding')], ['returned indices'], 'per-sample classification by an independent model; borderline samples left open')

prop('C10', 'Phase-space thresholding flags exactly the samples outside an ellipse',
     'For a zero-mean record the flagged samples are those outside at least one of the three universal-threshold ellipses in the planes of the velocity and its first and second '
     'central differences (zero at the ends, rounded to four decimals), the third ellipse rotated by the regression angle of second difference on velocity. '
     'A record that does not vary has none; indices come sorted, distinct and in range.',
     ['inputs'], 'all finite zero-mean records', 'the repository\'s tests compare one stored record', [DET + 'phasespace.py', DET + 'poincare.py'],
     [('three ellipses', 'phasespace_thresholding'), ('ellipse axes', 'poincare.calculate_ab'), ('normalised distance', 'poincare.calculate_rho')],
     ['returned indices'], 'per-sample classification by an independent model; borderline samples left open')

prop('C11', 'Velocity-correlation filtering flags exactly the samples outside an ellipse',
     'For three simultaneous components the flagged samples are those whose fluctuations lie outside at least one of the three universal-threshold ellipses of the component '
     'pairs, each rotated by the regression angle of the second on the first component. Adding a constant to a component changes nothing, and a component that does not vary takes no part; indices come sorted, distinct and in range.',
     ['inputs'], 'all finite component triples, dead components included', 'tests compare one stored record', [DET + 'correlation.py', DET + 'poincare.py'],
     [('pairwise ellipses', 'velocity_correlation')], ['returned indices'], 'per-sample classification by an independent model; borderline samples left open')

prop('C12', 'Three-dimensional phase-space thresholding flags exactly the outliers',
     'A sample is flagged if and only if the point formed by its fluctuation and first and second gradients, rotated to the principal axis, lies further from the origin than the '
     'universal-threshold ellipsoid in its direction (with the method\'s four-decimal roundings). The outcome does not depend on the iteration number or mean passed along, a record that does not vary has no outlier, and indices come sorted, distinct and in range.',
     ['inputs'], 'all finite records', 'tests compare one stored record', [DET + 'spherical.py'],
     [('ellipsoid test', '_spike_indices'), ('rotation', '_rotation')], ['returned indices'],
     'per-sample classification; samples whose verdict depends on rounding noise are left open')

prop('C13', 'Kernel-density detection follows the estimated density',
     'The pairwise detector returns the Gaussian kernel density (Scott bandwidth, full covariance) of the rotated data on a regular grid spanning the data, and flags exactly the samples outside the ellipse '
     'through the cut-off velocities found on either side of the density peak. The three-dimensional detector flags exactly the union over the three pairs of velocity, first and second central difference.',
     ['inputs', 'configurations'], 'all finite non-degenerate records and grid sizes', 'tests compare one stored record with one grid', [DET + 'trivariatekernel.py'],
     [('density', '_density, _estimation'), ('cut-offs', '_cutoff'), ('ellipse', 'kernel')], ['returned indices', 'returned density'],
     'independent density estimate and cut-off search; ties and borderline samples left open')

prop('C14', 'Premodification replaces exactly the removable outliers',
     'Exactly the samples whose magnitude exceeds the removal factor times the median absolute deviation times the universal threshold, on either side of zero, are replaced by the last sample before them that is kept; '
     'all others keep their value and nothing is carried over from the other end of the record. The reported unremovable samples are exactly those whose magnitude is within the protection factor times the median absolute deviation.',
     ['inputs', 'configurations'], 'all finite records and factors', 'not tested at all', [DET + 'phasespace.py'],
     [('thresholds', 'phasespace_thresholding_premodification')], ['returned record and indices'], 'independent thresholds and fill; leading outliers are a known finding')

prop('C15', 'The pollution rate is the percentage of samples off the filtered series',
     'The pollution rate is one hundred times the fraction of samples that differ from the filtered series, in either direction, by more than the given multiple of the standard deviation of the record. '
     'It lies between zero and one hundred.',
     ['inputs'], 'all finite records, filtered series and multiples', 'not tested at all', [DET + 'pollution.py'], [('two-sided count', 'pollution_rate')],
     ['returned rate'], 'independent count with an interval for borderline samples')

prop('C16', 'Descriptive statistics are exact for every array',
     'Minimum and maximum return an element of the data, mean the arithmetic mean of the numeric entries (numeric strings included), median the middle value, mode the most frequent value with the smallest winning ties, '
     'and variance and standard deviation the population moments. This holds for every size, shape and layout the function accepts, including negative, repeated, infinite and widely scaled values.',
     ['inputs'], 'all accepted arrays and lists', 'tests sample a handful of short lists', [ST + 'descriptive.py', ST + 'spread.py'],
     [('min, max, mean, median, mode', ST + 'descriptive.py'), ('variance, std', ST + 'spread.py')], ['returned statistics'],
     'long-double reference values')

prop('C17', 'Invalid arguments are rejected with the documented errors',
     'Every documented kind of invalid argument (empty, missing, non-numeric or multi-dimensional data, window, period, smoothing factor, phase, order, band, pairing, bracket or bounds out of range, improper transfer functions, '
     'too short samples, unknown options) raises the documented error type whatever the other arguments are, and the nearest valid arguments are accepted. Nothing invalid is silently turned into a result.',
     ['inputs', 'configurations'], 'all invalid and borderline-valid arguments', 'tests try one instance of some of the errors',
     [ST + 'descriptive.py', ST + 'spread.py', ST + 'series.py', ST + 'distributions/normal.py', ST + 'optimize/optimize.py', ST + 'signal/butter.py', DET + 'acceleration.py', REPL],
     [('argument validation', 'raise ValueError/TypeError at the head of each function')], ['exception types'], 'seeded invalid and boundary arguments in every position')

prop('C18', 'Skewness, kurtosis and their normality tests are the standard statistics',
     'Skewness and kurtosis are the standardised third and fourth population moments (kurtosis not reduced by three, over all elements). The skewness and kurtosis tests return the standard D\'Agostino and Anscombe-Glynn z-scores '
     'and the p-value of the chosen alternative for every sample they accept.',
     ['inputs', 'configurations'], 'all non-constant samples and alternatives', 'tests compare two samples', [ST + 'moment.py', ST + 'distributions/normal.py'],
     [('moments', ST + 'moment.py'), ('tests', 'skewtest, kurtotest')], ['returned statistics'], 'SciPy and long-double references')

prop('C19', 'The normal distribution functions are accurate everywhere',
     'Cumulative distribution, density, survival function and their logarithms agree with the normal distribution to floating-point accuracy for every finite argument, scalar, list or array of any shape (integers included), '
     'with the given mean and deviation for the densities. The log-density stays finite far from the mean and shapes are kept.',
     ['inputs'], 'all finite arguments (survival logarithms up to where the survival function is resolved)', 'tests evaluate a few points near zero', [ST + 'distributions/normal.py'],
     [('erf and exp formulas', ST + 'distributions/normal.py')], ['returned values'], 'math-library reference values over the full range')

prop('C20', 'Moving averages are the documented windowed means',
     'The simple moving average has the record\'s length and each entry is the mean of the last window of samples (of all samples so far at the start); the exponential average starts at the first sample and follows its recursion; '
     'the weighted average has one entry per full window except the last, with weights rising linearly to the newest sample. This holds for every length, window, factor and layout.',
     ['inputs', 'configurations'], 'all finite records and parameters', 'tests use one short record', [ST + 'series.py'],
     [('moving_average, exponential_moving_average, weighted_moving_average', ST + 'series.py')], ['returned series'], 'independent averages')

prop('C21', 'The Kalman filter follows the scalar Kalman recursion',
     'For every record, prior and noise level the filter returns one estimate per measurement, equal to the constant-state Kalman recursion (predict with process noise, update with gain). '
     'Each estimate lies within the range of the prior and the measurements.',
     ['inputs', 'configurations', 'histories'], 'all finite records and non-negative noise levels', 'tests compare a short record', [ST + 'series.py'],
     [('predict/update loop', 'kalman_filter')], ['returned estimates'], 'independent recursion')

prop('C22', 'Singular spectrum analysis reconstructs the slow components',
     'The result is the diagonal average of the record\'s trajectory matrix projected on those eigenvectors whose mobility does not exceed that of a sinusoid at the cut-off frequency, rounded to four decimals, with window length the sampling frequency '
     'over the cut-off rounded up. It has the record\'s length for every window length up to the record\'s.',
     ['inputs', 'configurations'], 'all finite records with a well separated spectrum, window lengths of at least two', 'tests compare one record and one window', [ST + 'series.py'],
     [('eigenvector selection', 'ssa, _mobility'), ('diagonal averaging', '_diagonal_average')], ['returned series'], 'independent reconstruction; degenerate spectra skipped')

prop('C23', 'Turbulence statistics are central second moments',
     'Turbulent kinetic energy is half the sum of the population variances of the three components, and the Reynolds stresses are the six population covariances in the documented order. Both ignore the mean flow.',
     ['inputs'], 'all finite component triples', 'tests compare one record', [ST + 'signal/fluid.py'],
     [('fluctuation products', 'kinetic_turbulent_energy, reynolds_stresses')], ['returned moments'], 'long-double reference values')

prop('C24', 'The power spectrum is Welch\'s estimate with the requested blocks',
     'The spectrum is Welch\'s averaged periodogram over symmetric Hann-windowed, mean-removed blocks of the requested length with the requested percentage of overlap, as a one- or two-sided density at the matching frequencies. '
     'It is non-negative for every record at least one block long.',
     ['inputs', 'configurations'], 'all finite records, block lengths, overlaps and sampling frequencies', 'not tested beyond one call', [ST + 'signal/spectrum.py'],
     [('scipy.signal.welch call', 'power_spectra')], ['returned spectrum'], 'independent segment-by-segment periodograms')

prop('C25', 'Synthetic noise hits the requested share of distinct samples',
     'Polluting a record with p percent noise changes exactly the truncated p percent of distinct samples, alternately up and down in index order, each by p plus the magnitude of a normal deviate of 0.05 times the record\'s mean, and leaves the rest untouched. '
     'Positions are uniform, the same seed gives the same record, and successive calls differ.',
     ['inputs', 'histories'], 'all finite records, percentages 0-100 and seeds', 'random output is not asserted by tests', [ST + 'signal/synthetic.py'],
     [('index sampling', '_random_index'), ('alternating perturbation', 'synthetic_noise')], ['polluted records'],
     'per-record decomposition plus pooled distribution tests over the run (eight standard errors)')

prop('C26', 'The root finder converges inside the bracket and accounts honestly',
     'For every continuous function with a sign change the bracketing root finder evaluates only inside the bracket, returns a root within the absolute plus relative tolerance (an end point that is a root at once), and stops within the iteration limit. '
     'The detailed report states exactly the evaluations made, at most the allowed iterations, and convergence truthfully; without it, non-convergence raises an error.',
     ['inputs', 'configurations', 'histories'], 'all sign-changing functions, brackets, tolerances and limits', 'tests solve two polynomials', [ST + 'optimize/optimize.py'],
     [('Brent iteration', 'brentq')], ['every function evaluation', 'returned report'], 'the objective records every evaluation; functions with exactly known roots')

prop('C27', 'The bounded minimiser returns the best point it evaluated',
     'For every function and finite interval the minimiser evaluates only inside the interval, passes extra parameters on, never exceeds the evaluation limit, and returns the point with the smallest value it saw together with that value, the true number of evaluations, and a flag that tells whether the limit was hit. '
     'On unimodal functions, unless the limit was hit, the point is within the tolerance of the minimum.',
     ['inputs', 'configurations', 'histories'], 'all functions, intervals, tolerances and limits (at least two evaluations)', 'tests minimise two parabolas', [ST + 'optimize/optimize.py'],
     [('golden section and parabola steps', '_optimize_within_bounds, fminbound')], ['every function evaluation', 'returned report'], 'the objective records every evaluation')

prop('C28', 'Butterworth designs have the Butterworth response in every form',
     'For every order, band type, analog or digital domain, sampling rate and output form (coefficients, zeros-poles-gain, second-order sections) the design has the maximally flat Butterworth magnitude with half power at the critical frequencies '
     '(bilinear pre-warped when digital), the right number of poles and zeros, real coefficients and only stable poles. The three output forms describe the same system.',
     ['inputs', 'configurations'], 'orders 0-20, all bands, domains, forms and frequencies', 'tests compare a few low orders', [ST + 'signal/butter.py'],
     [('prototype, transformation, bilinear, conversion', 'butterworth')], ['returned designs evaluated at many frequencies'], 'the analytic response and SciPy designs')

prop('C29', 'Filter transformations and conversions preserve the transfer function',
     'Each frequency transformation (low-pass to low-pass, high-pass, band-pass, band-stop, bilinear) returns zeros, poles and gain whose transfer function is the original one with the textbook substitution of variable, for every proper system. '
     'Conversions to polynomials and to second-order sections describe the same system, with real coefficients, the expected number of sections, critical poles last and the documented pairing.',
     ['inputs', 'configurations'], 'all proper systems closed under conjugation, transformation parameters and pairings', 'tests compare a few stored systems', [ST + 'signal/butter.py'],
     [('transformations', 'low_to_low, low_to_high, low_to_band, low_to_stop, bilinear'), ('conversions', 'xyz_to_ptf, xyz_to_sop')],
     ['transfer functions at random points'], 'evaluation at random complex points; SciPy pairing for the sections')

prop('C30', 'The gridded bivariate density is the diffused histogram of the data',
     'The bivariate density estimate is non-negative, sums to one over the grid cells, and equals the heat-kernel (cosine-transform) smoothing of the two-dimensional histogram of the data with the two given bandwidths in units of the data range. '
     'Rows follow the second variable and columns the first, on a regular grid from the minimum to the maximum of each, for even and odd grid sizes.',
     ['inputs', 'configurations'], 'all finite non-constant pairs, bandwidths and grid sizes', 'the bivariate kernel has no test of its values', ['proadv/kernel/bivariate.py'],
     [('cosine transform pair', '_discrete_cosine_2d, _inverse_discrete_cosine_2d'), ('binning', '_histogram')], ['returned density and grids'],
     'independent SciPy cosine-transform smoothing; data on bin edges checked for mass and range only')

prop('C31', 'Detect-and-replace pipelines clean records without collateral damage',
     'Iterating any detector with any replacement, on one record or jointly on three components, keeps length and finiteness in every round, and a sample that no round flagged still has its original value at the end (up to the requested rounding). '
     'Detected indices are always sorted, distinct and in range, and isolated spikes far above the noise (for the correlation method: in the first component) are found in the first round by the phase-space and correlation detectors and gone after replacement.',
     ['histories', 'inputs', 'configurations'], 'all multi-round histories of the detectors and replacements', 'tests call one function once; no test composes them',
     [DET + 'acceleration.py', DET + 'phasespace.py', DET + 'spherical.py', DET + 'correlation.py', DET + 'trivariatekernel.py', DET + 'poincare.py', REPL],
     [('index contract between detectors and replacements', 'np.nonzero / np.unique in each detector')], ['every round\'s indices and records'],
     'multi-round histories checked round by round', 'runtime monitor: trace checker over multi-step histories')

prop('C32', 'The bivariate-kernel workflow steps compute what the method defines',
     'The one-sided derivative is, at every interior sample, the smaller in magnitude of backward and forward difference (zero at the ends), the rotation angle is that of the regression of the derivative on the velocity, and the cut-off search returns the grid velocity nearest the peak on each '
     'side where the density ratio and its slope are within the two limits, or the outer fallback. The bandwidth root search stays inside its interval and returns the root.',
     ['inputs', 'configurations'], 'all finite records, profiles, peaks and limits', 'only shown in an example script', [DET + 'bivariatekernel.py', 'proadv/kernel/bivariate.py'],
     [('example workflow', 'examples/filtration/bivariate-kernel.py')], ['returned values'], 'independent recomputation of each step')

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p, _, _ in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
man = {
    'version': 1,
    'setup_cmd': '/opt/venv/bin/python -c "import numpy, scipy, sklearn"',
    'checks': [{'property': p['id'], 'quick_cmd': f'./check.sh {p["id"]}',
                'thorough_cmd': f'VERIF_TIER=thorough ./check.sh {p["id"]}', 'evidence_file': f'evidence/{p["id"]}.json',
                'technique': t, 'level': 'exploration',
                'level_note': f'Exploration on real executions: {n}. Trusts NumPy/SciPy primitives and the reference model; nothing is claimed beyond the observed cases.'}
               for p, t, n in P],
    'not_applicable': [],
    'notes': 'No hooks in /repo: the code is pure Python and is observed from outside (sys.monitoring, guarded buffers, recording objectives). '
             'Replay a violation with ./check.sh <id> --replay evidence/replay_<id>.json.',
}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
