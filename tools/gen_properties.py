"""Writes properties.jsonl (kept as a script to keep the wording editable)."""
import json
import os

W, M = 'pymultifracs/wavelet.py', 'pymultifracs/mfa.py'
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(),
         observe=()):
    P.append({
        'id': id, 'title': title, 'statement': ' '.join(statement.split()),
        'quantifier': {'over': over, 'text': ' '.join(text.split())},
        'why_tests_cant': ' '.join(why.split()),
        'anchors': {
            'files': files,
            'state': [{'name': n, 'meaning': m, 'where': w}
                      for n, m, w in state],
            'mechanism': [{'name': n, 'where': w} for n, w in mech],
            'observe_at': list(observe), 'hook_needed': None}})


prop('C01', 'Wavelet coefficients are the L^p-normalised pyramid transform',
     '''For every signal, wavelet, normalisation and fractional integration,
     the wavelet coefficients at scale j are the detail outputs of the
     orthogonal pyramid transform of that signal (direct convolution with the
     wavelet's decomposition filters, then every second sample) times
     2^(j(1/2 - 1/normalization + gamint)). They are linear in the signal, do
     not depend on p_exp, j1, j2 or weighted, and do not depend on how the
     samples are stored (memory layout, integer or float32 type, 1-D or
     2-D).''',
     ['inputs', 'configurations'],
     'all finite signals and all combinations of wavelet, normalization, '
     'gamint, p_exp, j1, j2, weighted',
     '''Tests only check that the call returns for one wavelet (db3), one
     normalisation and lengths of 2^16; no coefficient is ever compared with
     anything.''',
     [W, 'pymultifracs/multiresquantity.py'],
     [('filtering', W + ':filtering'),
      ('normalisation and gamint', W + ':wavelet_analysis'),
      ('coef-only path', W + ':_wavelet_coef_analysis')],
     [('wt_coefs.values', 'scale -> (n_j, n_rep) coefficients', W)],
     ['wavelet_analysis(...).wt_coefs'])

prop('C02', 'Polynomial trends below the vanishing moments are invisible',
     '''Adding to a signal any polynomial of degree lower than the number of
     vanishing moments of the analysing wavelet changes no wavelet coefficient,
     leader, p-leader or scaling exponent (zeta, log-cumulants, spectrum, hmin)
     that the analysis reports. A polynomial of degree equal to the number of
     vanishing moments does change the coefficients.''',
     ['inputs', 'configurations'],
     'all signals, all polynomials with degree < N, all wavelets with N '
     'vanishing moments, all formalisms',
     '''No test adds a trend; a border or filter error leaks trends only for
     some degrees, lengths and wavelets.''',
     [W], [('border removal', W + ':filtering'),
           ('filters', W + ':wavelet_analysis')], (),
     ['wavelet_analysis', 'mf_analysis_full'])

prop('C03', 'Border and missing samples contaminate no retained value',
     '''A coefficient is reported as missing (NaN) exactly when its centred
     filter support meets a missing value or its index lies within
     (filter length - 1) samples of an end of the approximation it is computed
     from, at that scale or recursively at a finer one; all other coefficients
     have the values they would have without the missing samples. Missing
     values never enter a leader, a count or an estimate: the reported numbers
     of coefficients are the numbers of non-missing values at each scale and
     realisation, for coefficients and for leaders.''',
     ['inputs', 'configurations'],
     'all signals with any set of missing samples, all wavelets, all scales '
     'and formalisms',
     '''No test has a missing sample, and none looks at the border
     coefficients or at the counts.''',
     [W, 'pymultifracs/multiresquantity.py', 'pymultifracs/utils.py'],
     [('border NaN', W + ':filtering'),
      ('nj', 'pymultifracs/multiresquantity.py:add_values'),
      ('NaN-aware max and sum', 'pymultifracs/utils.py:fixednansum')],
     [('nj', 'non-missing values for each scale and realisation',
       'pymultifracs/multiresquantity.py')],
     ['wt_coefs.values', 'wt_coefs.nj', 'wt_leaders.nj'])

prop('C04', 'Wavelet leaders are suprema over 3-lambda neighbourhoods',
     '''With p_exp = inf, the leader at scale j and position k is the largest
     absolute (normalised, fractionally integrated) wavelet coefficient over
     all scales j' <= j and all dyadic intervals included in the interval of
     (j,k) or its two neighbours, missing coefficients ignored; there are two
     leaders fewer than coefficients at each scale. Leaders are never smaller
     than a coefficient they cover.''',
     ['inputs', 'configurations'],
     'all signals, wavelets, normalisations, gamint and scales',
     '''Tests look only at log-cumulants averaged over 50 realisations of
     2^16 samples within 0.01: a leader that misses a child interval or is
     shifted by one stays within that.''',
     [W], [('_find_sans_voisin', W), ('_compute_leaders', W)], (),
     ['wavelet_analysis(p_exp=inf).wt_leaders'])

prop('C05', 'p-leaders: l^p sums with the finite-resolution correction',
     '''With finite p_exp = p > 0 the p-leader at (j,k) is
     (sum 2^(j'-j) |d(j',k')|^p)^(1/p) over all scales j' <= j and intervals in
     the 3-interval neighbourhood, multiplied at each scale by
     ((1 - 2^(-j eta)) / (1 - 2^(-eta)))^(-1/p), where eta is the returned
     eta_p: the scaling exponent of order p of the uncorrected coefficients of
     that realisation over [j1, j2_eff]. A realisation with eta_p <= 0 is left
     uncorrected and a warning is given; p may be any positive number, integer
     or not.''',
     ['inputs', 'configurations'],
     'all signals, all p > 0, all scale ranges, weighted or not, any number '
     'of realisations',
     '''Tests use p = 2 only, and never a signal whose eta_p is negative; at
     the base commit both any other p and a negative eta_p raised an
     exception.''',
     [W, 'pymultifracs/utils.py', 'pymultifracs/structurefunction.py'],
     [('_correct_leaders', W), ('_estimate_eta_p', W),
      ('_compute_leaders', W)],
     [('eta_p', 'scaling exponent of order p, per realisation', W)],
     ['wavelet_analysis(p_exp=p).wt_leaders', 'eta_p', 'warnings'])

prop('C06', 'The effective scale range is usable and never exceeded',
     '''Coefficients (and leaders) are given for contiguous scales from 1 to a
     deepest scale where every realisation still has at least 3 non-missing
     values, not above decomposition_level; j2_eff is that deepest scale or j2
     (rounded down) if j2 is smaller, so every scale of [1, j2_eff] has values.
     A warning is given exactly when j2 exceeds the level that the signal
     length allows, and decomposition_level agrees with
     floor(log2(n / (filter length + 1))).''',
     ['inputs', 'configurations'],
     'all signal lengths, wavelets, j2 (integer, float or None), formalisms, '
     'missing samples',
     '''Tests use lengths 2^15 or 2^16 only, where the limits are far from
     each other.''',
     [W], [('_decomposition_level', W), ('decomposition_level', W),
           ('early stop', W + ':wavelet_analysis')],
     [('j2_eff', 'largest scale used in the fits', W)],
     ['wavelet_analysis(...).j2_eff', 'decomposition_level', 'warnings'])

prop('C07', 'Structure functions, zeta(q) and H follow their definitions',
     '''For every multi-resolution quantity, S(j,q) is the mean of |T(j,k)|^q
     over the non-missing values at scale j (1 for q = 0), logvalues its log2,
     zeta(q) and intercept the fit of log2 S(j,q) against j over [j1, j2], and
     H = zeta(2)/2 - gamint, or None when 2 is not among the exponents. This
     holds separately for each exponent (positive, negative, zero, integer or
     not, in any order) and each realisation.''',
     ['inputs', 'configurations'],
     'all value arrays with missing entries, all q lists, all fit ranges',
     '''Tests only check the mean of H over 50 realisations within 0.1.''',
     ['pymultifracs/structurefunction.py', 'pymultifracs/utils.py'],
     [('StructureFunction._compute', 'pymultifracs/structurefunction.py'),
      ('fast_power', 'pymultifracs/utils.py')], (),
     ['StructureFunction.values', 'logvalues', 'zeta', 'H', 'intercept'])

prop('C08', 'Cumulants and log-cumulants follow their definitions',
     '''For every multi-resolution quantity, C_m(j) is the m-th cumulant of
     ln|T(j,k)| over the non-missing values (mean, variance with divisor n,
     third central moment, and so on for every requested order), and the
     log-cumulant c_m is log2(e) times the slope of C_m(j) against j over
     [j1, j2]. The attributes c1..c9, C1..C9 and M = -c2 give those
     values.''',
     ['inputs', 'configurations'],
     'all value arrays with missing entries, all orders, all fit ranges, all '
     'numbers of realisations',
     '''Tests check the mean of c2 over 50 realisations within 0.01 to
     0.025; higher orders, C_m(j) and attribute access are never looked at.''',
     ['pymultifracs/cumulants.py'],
     [('Cumulants._compute', 'pymultifracs/cumulants.py'),
      ('__getattr__', 'pymultifracs/cumulants.py')], (),
     ['Cumulants.values', 'log_cumulants', 'c1', 'M'])

prop('C09', 'The multifractal spectrum is the Legendre transform of zeta(q)',
     '''For every exponent q, U(j,q) and V(j,q) are log2 n_j + sum R log2 R and
     sum R log2|T| with R = |T|^q / sum |T|^q over the non-missing values,
     D(q) - 1 and h(q) their slopes over [j1, j2], and so U = qV - log2 S and
     D(q) = 1 + q h(q) - zeta(q) exactly, with zeta from the structure function
     of the same quantity. In particular D(0) = 1, zeta(0) = 0 and
     h(0) = c1.''',
     ['inputs', 'configurations'],
     'all value arrays with missing entries, all q, all fit ranges',
     '''No test looks at the spectrum at all.''',
     ['pymultifracs/mfspectrum.py', 'pymultifracs/structurefunction.py',
      'pymultifracs/cumulants.py'],
     [('MultifractalSpectrum._compute', 'pymultifracs/mfspectrum.py')], (),
     ['MultifractalSpectrum.Dq', 'hq', 'U', 'V'])

prop('C10', 'Scaling fits are the weighted least squares over [j1, j2] only',
     '''Every slope and intercept reported by an estimator minimises
     sum_j n_j (y_j - a j - b)^2 over exactly the scales j1..j2, with n_j the
     number of non-missing values at scale j of that realisation when weighted
     and 1 otherwise; scales outside [j1, j2] have no influence. Exact lines are
     recovered exactly whatever the weights, and scaling all weights changes
     nothing.''',
     ['inputs', 'configurations'],
     'all series, weights, scale ranges, realisations',
     '''Tests fit one range with weights on; an off-by-one range or a swapped
     weight moves averaged estimates by less than their tolerance.''',
     ['pymultifracs/utils.py', 'pymultifracs/structurefunction.py',
      'pymultifracs/cumulants.py', 'pymultifracs/mfspectrum.py',
      'pymultifracs/estimation.py'],
     [('linear_regression', 'pymultifracs/utils.py'),
      ('get_nj_interv', 'pymultifracs/multiresquantity.py')], (),
     ['linear_regression', 'zeta', 'log_cumulants', 'Dq', 'hq', 'hmin'])

prop('C11', 'hmin and the Hurst exponent follow their definitions',
     '''estimate_hmin is, for each realisation, the slope (and intercept) over
     [j1, j2_eff] of log2 of the largest non-missing |T(j,k)| at scale j;
     compute_hurst returns half the order-2 scaling exponent of the
     coefficients, with the structure function it comes from and log2 S(j,2). A
     warning is given when hmin is negative, unless warnings are turned
     off.''',
     ['inputs', 'configurations'],
     'all value arrays with missing entries, all fit ranges, weighted or not',
     '''Tests use hmin only to choose gamint, and call compute_hurst
     nowhere (it raised AttributeError at the base commit).''',
     ['pymultifracs/estimation.py'],
     [('estimate_hmin', 'pymultifracs/estimation.py'),
      ('compute_hurst', 'pymultifracs/estimation.py')], (),
     ['estimate_hmin', 'compute_hurst', 'warnings'])

prop('C12', 'Estimates transform exactly under amplitude, gamint and norm',
     '''Multiplying a signal by a nonzero constant a leaves every scaling
     exponent (zeta, H, c_m, D, h, hmin, eta_p) unchanged and only shifts
     log2 S(j,q) by q log2|a| and C_1(j) by ln|a|, in every formalism. For the
     wavelet-coefficient formalism, increasing gamint by g (or changing the
     normalisation) multiplies the coefficients at scale j by the same power of
     2^j and so shifts zeta(q) by qg, h, c_1 and hmin by g, leaves c_m (m > 1)
     and D unchanged, and leaves H unchanged because H compensates
     gamint.''',
     ['inputs', 'configurations'],
     'all signals, all a != 0, all gamint and normalization, all estimators',
     '''Tests never analyse the same signal twice with related
     parameters.''',
     [W, M, 'pymultifracs/structurefunction.py'],
     [('gamint scaling', W), ('H', 'structurefunction.py:_get_H')], (),
     ['mf_analysis_full'])

prop('C13', 'Realisations analysed together do not influence each other',
     '''For complete signals, analysing R realisations as the columns of one
     array gives for each realisation exactly what analysing it alone gives:
     coefficients, leaders, p-leaders with their correction, eta_p, counts,
     structure functions, cumulants, spectrum and hmin, whatever the other
     realisations, their order and their number. A 1-D signal is the same as
     one column.''',
     ['inputs', 'configurations'],
     'all sets and orders of realisations, all formalisms and estimators',
     '''Tests always analyse 50 realisations together and look only at the
     mean over them.''',
     [W, M, 'pymultifracs/structurefunction.py', 'pymultifracs/cumulants.py',
      'pymultifracs/mfspectrum.py', 'pymultifracs/estimation.py'],
     [('column-wise arrays', W), ('_correct_leaders', W)], (),
     ['wavelet_analysis', 'mf_analysis_full'])

prop('C14', 'The one-call analysis equals its documented stages',
     '''mf_analysis_full returns exactly what wavelet_analysis followed by
     mf_analysis returns, and mf_analysis what the individual estimators return
     on the same quantity: dwt from the wavelet coefficients, lwt from the
     leaders, over [j1, j2_eff], with q = 2 when no q is given. lwt is None
     exactly when p_exp is None; the minimal analysis returns only the
     structure function of the coefficients and the cumulants of the leaders,
     equal to those of the full one.''',
     ['inputs', 'configurations'],
     'all combinations of p_exp, q (None, list, array), n_cumul, weighted, '
     'j1, j2, gamint, normalization, wavelet, minimal',
     '''Tests call one configuration, never minimal (which raised at the base
     commit), and compare no stage with another.''',
     [M], [('mf_analysis', M), ('minimal_mf_analysis', M),
           ('mf_analysis_full', M)], (), ['MFractalData.dwt', 'lwt'])

prop('C15', 'Analyses are pure: no history changes a result or an input',
     '''Whatever sequence of analyses was run before, in any order and on
     shared signals, transforms and parameter objects, each analysis returns
     what it returns when run alone, whatever the caller has since done with
     the results it was given. It modifies neither its arguments nor
     results returned earlier, and leaves the random generator, the warning
     filters and the floating-point error state of the process as they
     were.''',
     ['histories', 'inputs'],
     'all sequences of library calls on shared objects',
     '''Tests run each analysis once on its own data.''',
     [W, M, 'pymultifracs/estimation.py', 'pymultifracs/psd.py',
      'pymultifracs/bivariate/bimfa.py'],
     [('fresh result objects', W), ('no module state', 'pymultifracs')], (),
     ['digests of arguments and results before and after each call'])

prop('C16', 'Concurrent analyses in threads do not interfere',
     '''Two threads analysing signals at the same time, including the same
     signal or the same wavelet transform, get the same results as one after
     the other, for every interleaving. Afterwards the process-wide state
     (warning filters, floating-point error handling) is what it was
     before.''',
     ['schedules'],
     'all interleavings of two analyses',
     '''No test runs a thread; at the base commit one interleaving of two
     leader computations silenced every warning of the process for good.''',
     [W, M, 'pymultifracs/utils.py'],
     [('no shared mutable state', 'pymultifracs/utils.py:fixednanmax')], (),
     ['results in each thread', 'warnings.filters', 'numpy.geterr()'])

prop('C17', 'Signal serves cached results only for the same parameters',
     '''After any sequence of calls on a Signal, each analysis method returns
     what the corresponding function returns on the data with the parameters of
     that call (for hurst, hmin and mf_analysis: on the most recent wavelet
     transform), whether or not it reused an intermediate result, saved or did
     not save it, and whatever the caller later did to its own parameter
     arrays. No call changes the data or the results of another kind of
     analysis.''',
     ['histories', 'inputs'],
     'all sequences of Signal method calls and parameters',
     '''No test uses Signal (at the base commit mf_analysis always raised and
     a PSD estimate broke hurst and hmin).''',
     ['pymultifracs/signal.py'],
     [('parameter comparison', 'pymultifracs/signal.py:same_params'),
      ('invalidation', 'pymultifracs/signal.py:_wavelet_analysis')],
     [('wt_param, wt_transform', 'last wavelet transform',
       'pymultifracs/signal.py'),
      ('mf_param, multi_fractal', 'last saved analysis',
       'pymultifracs/signal.py'),
      ('wt_psd_param, wt_psd; welch_param, welch_psd', 'last PSDs',
       'pymultifracs/signal.py')],
     ['return values of every Signal method'])

prop('C18', 'Signal refuses to answer without a transform; PSD differences',
     '''mf_analysis, hurst and hmin of a Signal raise AttributeError as long as
     no wavelet transform was computed, whatever else was computed before, and
     answer afterwards. psd_difference gives, for any two signals with a
     wavelet PSD, the pointwise difference (or, with a pair of log functions,
     the back-transformed difference of logs shifted to a minimum of 0.1) at
     exactly the frequencies both PSDs have, and changes neither signal.''',
     ['histories', 'inputs'],
     'all call sequences without a transform; all pairs of PSD supports',
     'No test uses Signal.',
     ['pymultifracs/signal.py'],
     [('_check_wt_transform', 'pymultifracs/signal.py'),
      ('psd_difference', 'pymultifracs/signal.py')], (),
     ['exceptions', 'psd_difference(...).wt_psd'])

prop('C19', 'Bivariate structure functions and coherence',
     '''For two signals, logvalues(q1,q2,j) is log2 of the mean, over the
     positions at which both exist, of |X(j,k)|^q1 |Y(j,k)|^q2, zeta(q1,q2) and intercept its fit over
     [j1, j2] with j2 the smaller of the two effective maxima, and the
     coherence at scale j the mean of X Y (signed) over the square root of the
     product of the mean squares; it lies in [-1, 1], and is None unless
     0, 1 and 2 are among the exponents of both.''',
     ['inputs', 'configurations'],
     'all pairs of signals, q1 and q2 (lists or arrays of any length and '
     'order, or the default), formalisms, fit ranges',
     'Tests look at no bivariate structure function.',
     ['pymultifracs/bivariate/bivariate_structurefunction.py',
      'pymultifracs/bivariate/bimfa.py'],
     [('BiStructureFunction._compute',
       'pymultifracs/bivariate/bivariate_structurefunction.py')], (),
     ['structure.logvalues', 'zeta', 'coherence'])

prop('C20', 'Bivariate cumulants, log-cumulants and rho',
     '''For two signals, C_m0(j), C_0m(j) are the cumulants of order m of the
     log-moduli of each (at the positions at which both exist), C_11(j) their covariance, the log-cumulants log2(e)
     times their slopes over [j1, j2], and attributes such as c20 or C11 give
     those values. For leaders, RHO_MF(j) = C_11/sqrt(C_20 C_02) is their
     correlation, in [-1, 1], and rho_mf = -c_11/|sqrt(c_20 c_02)|; for
     coefficients, or with a single cumulant, both are None.''',
     ['inputs', 'configurations'],
     'all pairs of signals, orders, formalisms, fit ranges',
     '''Tests check three numbers of four recorded pairs within 0.02 to
     0.1.''',
     ['pymultifracs/bivariate/bivariate_cumulants.py'],
     [('BiCumulants._compute',
       'pymultifracs/bivariate/bivariate_cumulants.py'),
      ('_compute_rho', 'pymultifracs/bivariate/bivariate_cumulants.py')], (),
     ['cumulants.values', 'log_cumulants', 'c20', 'RHO_MF', 'rho_mf'])

prop('C21', 'Bivariate analysis is symmetric and extends the univariate one',
     '''Exchanging the two signals (and q1 with q2) transposes every bivariate
     result and leaves coherence and rho unchanged; the marginal rows and
     columns (q1 = 0 or q2 = 0, m1 = 0 or m2 = 0) are the univariate structure
     functions and cumulants of each signal (both missing at the same
     positions); a signal paired with itself has
     zeta(q1,q2) = zeta(q1+q2), c_11 = c_20 = c_02 and coherence 1. lwt is None
     exactly when there are no leaders, and bivariate_analysis_full equals the
     two transforms followed by bivariate_analysis.''',
     ['inputs', 'configurations'],
     'all pairs of signals, formalisms and parameters',
     '''Tests compare no bivariate result with a univariate one or with the
     exchanged pair.''',
     ['pymultifracs/bivariate/bimfa.py',
      'pymultifracs/bivariate/bivariate_cumulants.py',
      'pymultifracs/bivariate/bivariate_structurefunction.py'],
     [('bivariate_analysis', 'pymultifracs/bivariate/bimfa.py')], (),
     ['bivariate_analysis_full', 'mf_analysis_full'])

prop('C22', 'The bivariate Legendre surface is the transform of the quadratic',
     '''compute_legendre returns the requested grid of exponents and, at every
     grid point (h1,h2), the value 1 + (1/2)(h - c)' K^(-1) (h - c) with
     c = (c10, c01) and K the matrix of c20, c11, c02, which is the minimum over
     (q1,q2) of 1 + q.h - zeta for the log-normal zeta with those log-cumulants
     (K negative definite): its maximum is 1, at h = c.''',
     ['inputs', 'configurations'],
     'all log-cumulants with invertible K, all supports and resolutions',
     'No test computes the surface.',
     ['pymultifracs/bivariate/bivariate_cumulants.py'],
     [('compute_legendre',
       'pymultifracs/bivariate/bivariate_cumulants.py')], (),
     ['BiCumulants.compute_legendre'])

prop('C23', 'Wavelet PSD, and frequencies of scales',
     '''wavelet_estimation gives for each scale j the mean square of the
     non-missing coefficients, taken with normalisation 1 and half an order of
     integration (gamint 0.5) with the Daubechies wavelet of the requested
     number of moments, at frequency (3/4) fs 2^-j. scale2freq gives the same
     frequencies, freq2scale is its inverse, and fband2scale gives the smallest
     and largest integer scales whose frequencies lie in the band.''',
     ['inputs', 'configurations'],
     'all signals, sampling frequencies, numbers of moments, scales and bands',
     'No test estimates a PSD or converts a scale.',
     ['pymultifracs/psd.py', 'pymultifracs/utils.py'],
     [('wavelet_estimation', 'pymultifracs/psd.py'),
      ('scale2freq', 'pymultifracs/utils.py'),
      ('fband2scale', 'pymultifracs/utils.py')], (),
     ['PSD.freq', 'PSD.psd', 'scale2freq', 'freq2scale', 'fband2scale'])

prop('C24', 'Welch PSD is the averaged Hamming periodogram',
     '''welch_estimation gives, at the frequencies k fs / n_fft, four times the
     average over half-overlapping segments of the one-sided Hamming-windowed
     periodogram density per unit angular frequency, without detrending,
     zero-padded to n_fft. n_fft is raised to the segment length when smaller,
     the segment length defaults to n_fft and is limited to the signal length,
     and frequencies and values correspond one to one.''',
     ['inputs', 'configurations'],
     'all signals, fs, n_fft and segment lengths, odd or even, shorter or '
     'longer than the signal',
     '''No test estimates a PSD (odd n_fft gave frequencies that did not match
     the values, and short signals an exception, at the base commit).''',
     ['pymultifracs/psd.py'],
     [('welch_estimation', 'pymultifracs/psd.py')], (),
     ['PSD.freq', 'PSD.psd'])

prop('C25', 'The spectral slope is the log-log fit inside the band',
     '''estimate_beta and fractal_analysis return the slope and intercept of
     the least-squares line of log PSD against log frequency over exactly the
     frequencies within the closed band (zero excluded), in the requested
     logarithm, and the log frequencies used. Power laws C f^s inside the band
     give slope s and intercept log C, whatever the values outside the
     band.''',
     ['inputs', 'configurations'],
     'all PSDs, bands, logs; all signals for fractal_analysis',
     'No test estimates a slope.',
     ['pymultifracs/fractal_analysis.py', 'pymultifracs/psd.py'],
     [('estimate_beta', 'pymultifracs/fractal_analysis.py'),
      ('_log_psd', 'pymultifracs/psd.py')], (),
     ['FractalValues'])

prop('C26', 'Synthesised fGn and fBm have the exact Gaussian covariance',
     '''For every length, H in (0, 1), sigma and step dt, fgn is a linear image
     of standard Gaussian noise whose covariance is exactly that of fractional
     Gaussian noise, sigma^2 dt^(2H) (|k+1|^(2H) + |k-1|^(2H) - 2|k|^(2H)) / 2,
     with both synthesis methods, and fbm is its cumulated sum. dt defaults to
     1/N.''',
     ['inputs', 'configurations'],
     'all N, H, sigma, dt, methods, all noise inputs',
     '''Tests check only that fbm returns and has the right shape (the
     Cholesky method had the wrong covariance at the base commit).''',
     ['pymultifracs/simul/fbm.py', 'pymultifracs/simul/pzutils.py'],
     [('fgn', 'pymultifracs/simul/fbm.py'),
      ('gaussian_cme', 'pymultifracs/simul/pzutils.py'),
      ('gaussian_chol', 'pymultifracs/simul/pzutils.py')], (),
     ['fgn(z0=basis noise)', 'fbm'])

prop('C27', 'MRW is the cumulated product of fGn and log-normal volatility',
     '''mrw is the cumulated sum of e exp(w) where e is fgn with the given H and
     sigma and w a Gaussian process with covariance lam^2 max(log(L/(k+1)), 0)
     at lag k, shifted to sample mean -(lam^2/2) log L, each
     realisation on its own. With lam = 0 it is fbm (circulant
     method), and mrw_cumul(c1, c2) is mrw
     with H = c1 + c2 and lam = sqrt(-c2).''',
     ['inputs', 'configurations'],
     'all N, R, H, lam, L <= N, sigma, methods, noise inputs',
     '''Tests check shapes, and averaged log-cumulants within 0.025.''',
     ['pymultifracs/simul/mrw.py', 'pymultifracs/simul/pzutils.py'],
     [('mrw', 'pymultifracs/simul/mrw.py'),
      ('gaussian_w', 'pymultifracs/simul/mrw.py')], (),
     ['mrw(z0=...)', 'mrw_cumul'])

prop('C28', 'Skewed MRW correlates volatility with past noise only',
     '''The skewness convolution of noise e is, at each time of the second
     half, the sum over the N preceding times of K0 / (lag^alpha dt^beta) times
     e, equal to the direct causal sum: later noise has no influence.
     skewed_mrw returns N samples per realisation, its log-volatility without
     skewness has covariance lam^2 max(log(L/((k+1) dt)), 0) at lag k, centred
     to the sample mean -lam^2 log(L/dt), and its mirrored version uses
     the negated noise.''',
     ['inputs', 'configurations'],
     'all noises, N, K0, alpha, beta, dt, R',
     'No test calls it (it always raised at the base commit).',
     ['pymultifracs/simul/mrw.py'],
     [('skewness_convolution', 'pymultifracs/simul/mrw.py'),
      ('skewed_mrw', 'pymultifracs/simul/mrw.py')], (),
     ['skewness_convolution', 'skewness_convolution_dumb', 'skewed_mrw'])

prop('C29', 'Synthesis validates its parameters and is reproducible',
     '''fgn, fbm, mrw and mrw_cumul return (N,) for an integer shape and (N, R)
     for a tuple, raise ValueError for H outside [0, 1], for an integral scale
     longer than the signal and for unknown methods, and otherwise (H strictly
     inside) return finite values. Under the same state of numpy's random generator they
     return the same realisations, different realisations are never copies, and noise given by the caller determines the result
     without drawing any.''',
     ['inputs', 'histories', 'configurations'],
     'all shapes, parameters, methods, generator states',
     '''Tests check two invalid H, one invalid L and six shapes with the
     default method.''',
     ['pymultifracs/simul/fbm.py', 'pymultifracs/simul/mrw.py',
      'pymultifracs/simul/pzutils.py'],
     [('validation', 'pymultifracs/simul/fbm.py:fgn'),
      ('validation', 'pymultifracs/simul/mrw.py:mrw')], (),
     ['shapes', 'exceptions', 'numpy.random state'])

prop('C30', 'Figures show exactly the estimates',
     '''The plots of structure functions, scaling function, cumulants, spectrum,
     hmin, PSDs and bivariate results draw one panel for each quantity (q = 0
     left out on request) with the estimated points of all scales and the
     fitted line over [j1, j2], and label it with the estimated exponent; no
     panel is missing, empty, repeated or attributed to another exponent.
     Plotting does not change the estimates.''',
     ['inputs', 'configurations'],
     'all q lists, numbers of cumulants, panel layouts',
     '''No test draws a figure; at the base commit q = [-2,-1,0,1,2], used by
     the tests themselves, could not be plotted.''',
     ['pymultifracs/structurefunction.py', 'pymultifracs/cumulants.py',
      'pymultifracs/mfspectrum.py', 'pymultifracs/psd.py',
      'pymultifracs/estimation.py', 'pymultifracs/fractal_analysis.py',
      'pymultifracs/bivariate/bivariate_cumulants.py',
      'pymultifracs/bivariate/bivariate_structurefunction.py'],
     [('plot', 'pymultifracs/structurefunction.py'),
      ('log_plot', 'pymultifracs/psd.py')], (),
     ['lines and labels of the matplotlib axes'])

prop('C31', 'Exponent grids and elementwise powers',
     '''build_q_log(q_min, q_max, n) returns the strictly increasing, symmetric
     set of the n log-spaced values from q_min to q_max, their opposites and
     -2, -1, 0, 1, 2, and raises ValueError unless both bounds are positive.
     fast_power(a, q) is a^q elementwise for every exponent, of whatever numeric
     type, with missing values staying missing even for q = 0, and leaves a
     unchanged.''',
     ['inputs'],
     'all bounds and counts; all arrays with missing values, all exponents',
     'No test calls build_q_log or checks a power.',
     ['pymultifracs/utils.py'],
     [('build_q_log', 'pymultifracs/utils.py'),
      ('fast_power', 'pymultifracs/utils.py')], (),
     ['build_q_log', 'fast_power'])

prop('C32', 'Multi-resolution quantities stay consistent as scales are added',
     '''After any sequence of additions and replacements of scales, a
     multi-resolution quantity holds for each scale the last values given and
     their number of non-missing entries per realisation; the lists of counts
     (all scales in order of first addition, or those of [j1, j2]) and nrep
     agree with them, and neither two quantities nor a quantity and its copies
     share state. Only the three
     known formalisms are accepted, and estimators built from a dictionary
     ignore entries they do not know.''',
     ['histories', 'inputs'],
     'all sequences of add_values with any missing pattern, interleaved over '
     'several quantities',
     'Tests never build one or read its counts.',
     ['pymultifracs/multiresquantity.py'],
     [('add_values', 'pymultifracs/multiresquantity.py'),
      ('get_nj_interv', 'pymultifracs/multiresquantity.py'),
      ('from_dict', 'pymultifracs/multiresquantity.py')],
     [('values, nj', 'per scale arrays and counts',
       'pymultifracs/multiresquantity.py')],
     ['values', 'nj', 'get_nj', 'get_nj_interv', 'nrep'])

prop('C33', '2-D MRW is the fractional integral of log-normal noise',
     '''mrw2D returns, for every even size N (odd sizes are rounded up) and
     number of realisations, increments X that are white noise times exp(w),
     with w Gaussian of covariance lam^2 max(log(L/(1+d)), 0) at periodic
     distance d (L up to N/2), and their fractional integral of order H + 1.
     The fractional integral of order alpha divides each spatial frequency k by
     |k|^alpha (the mean by 1), each realisation on its own, leaving its input
     unchanged.''',
     ['inputs', 'configurations'],
     'all sizes, realisations, H, lam, L, and all noises',
     '''No test calls it (the volatility had N times too small a deviation at
     the base commit).''',
     ['pymultifracs/simul/mrw.py'],
     [('mrw2D', 'pymultifracs/simul/mrw.py'),
      ('fract_int_2d', 'pymultifracs/simul/mrw.py')], (),
     ['mrw2D', 'fract_int_2d'])

prop('C34', 'Failed or interrupted analyses leave no trace',
     '''When a computation of the library is ended by an exception at any
     point (Ctrl-C, lack of memory, an error of a callee), its arguments and
     the process (warning filters, floating-point error handling) are as
     before the call, and every later analysis, the same one again or any
     other, gives what it gives without the failure. A Signal in the middle of
     whose call the failure arose keeps its data, and answers afterwards every
     call as it would have before: what depends on a transform answers from
     the last transform completed (or from the one the failed call had just
     made), never from a mixture, or raises the error of a Signal without
     transform.''',
     ['crash points', 'histories'],
     'all points of failure in any analysis, followed by any other',
     '''No test makes an analysis fail in the middle; a cache filled too
     early, a filter not restored, an argument modified in place for the time
     of a computation show only there.''',
     ['pymultifracs/wavelet.py', 'pymultifracs/psd.py',
      'pymultifracs/mfa.py', 'pymultifracs/signal.py',
      'pymultifracs/simul/fbm.py', 'pymultifracs/simul/mrw.py'],
     [('wavelet_analysis', 'pymultifracs/wavelet.py'),
      ('mf_analysis', 'pymultifracs/mfa.py'),
      ('wavelet_estimate_psd', 'pymultifracs/psd.py'),
      ('Signal', 'pymultifracs/signal.py')],
     [('arguments, process state, module state', 'everything that outlives a '
       'call', 'pymultifracs/*'),
      ('Signal attributes', 'the last transform and the options it was made '
       'with', 'pymultifracs/signal.py')],
     ['warnings.filters', 'numpy.geterr', 'wt_coefs', 'wt_leaders'])

prop('C35', 'Gaps of one realisation only limit the common scales',
     '''Analysing together realisations of which some have missing samples
     gives exactly the scales that every one of them has alone. At those
     scales each realisation has the coefficients, the leaders, the numbers of
     coefficients and leaders and eta_p that it has alone, and the estimates
     (structure functions, cumulants, spectrum, hmin) over those scales are
     the ones of the realisation alone over the same scales.''',
     ['inputs', 'configurations'],
     'all batches of realisations with any missing samples, any formalism',
     '''No test has missing samples in a batch: a mask, a count or a length
     taken from one realisation and used for the others is invisible.''',
     ['pymultifracs/wavelet.py', 'pymultifracs/multiresquantity.py',
      'pymultifracs/structurefunction.py', 'pymultifracs/cumulants.py',
      'pymultifracs/mfspectrum.py', 'pymultifracs/estimation.py'],
     [('wavelet_analysis', 'pymultifracs/wavelet.py'),
      ('_decomposition_level', 'pymultifracs/wavelet.py'),
      ('_compute_leaders', 'pymultifracs/wavelet.py'),
      ('estimate_eta_p', 'pymultifracs/estimation.py')],
     [('values, nj', 'per scale arrays and counts per realisation',
       'pymultifracs/multiresquantity.py')],
     ['values', 'nj', 'eta_p', 'j2_eff'])

prop('C36', 'Copies and pickles answer like the original and share nothing',
     '''A deep copy, a pickled and re-read copy and a shallow copy of any
     result (multi-resolution quantities, structure functions, cumulants,
     spectra, hmin, bivariate results, Signal) answer every query exactly like
     the original, now and after queries to either. What is done to a deep or
     re-read copy (new scales, values written in its arrays, a new transform
     on a Signal) never changes what the original or another copy answers.''',
     ['histories', 'inputs'],
     'all results, ways of copying and orders of queries and modifications',
     '''No test copies a result; joblib and multiprocessing do it to each
     result that leaves a worker.''',
     ['pymultifracs/multiresquantity.py', 'pymultifracs/structurefunction.py',
      'pymultifracs/cumulants.py', 'pymultifracs/mfspectrum.py',
      'pymultifracs/signal.py', 'pymultifracs/bivariate'],
     [('MultiResolutionQuantityBase', 'pymultifracs/multiresquantity.py'),
      ('StructureFunction', 'pymultifracs/structurefunction.py'),
      ('Cumulants', 'pymultifracs/cumulants.py'),
      ('MultifractalSpectrum', 'pymultifracs/mfspectrum.py'),
      ('Signal', 'pymultifracs/signal.py')],
     (), ['values', 'nj', 'logvalues', 'zeta', 'log_cumulants', 'Dq', 'hq'])

prop('C37', 'Analyses follow a shift of the signal and see only their support',
     '''Removing a multiple of 2^J samples from the start of a signal shifts
     the coefficients, leaders and p-leaders (apart from the common factor that
     corrects for eta_p) of each scale j <= J by that multiple over 2^j and
     changes none of those that did not reach into what
     was removed; removing samples at the end only removes the last ones.
     Changing, or losing, samples changes only the coefficients and leaders
     whose support contains them.''',
     ['inputs', 'configurations'],
     'all signals, cuts, places of a change, wavelets and formalisms',
     '''Tests never compare two analyses of related signals.''',
     ['pymultifracs/wavelet.py'],
     [('_wavelet_coef_analysis', 'pymultifracs/wavelet.py'),
      ('_find_sans_voisin', 'pymultifracs/wavelet.py'),
      ('wavelet_analysis', 'pymultifracs/wavelet.py')],
     [('values', 'per scale arrays', 'pymultifracs/multiresquantity.py')],
     ['values', 'nj'])

if __name__ == '__main__':
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    schema = '/root/.vp/PROPERTIES.schema.json'
    if os.path.exists(schema):
        try:
            import jsonschema
            s = json.load(open(schema))
            for p in P:
                jsonschema.validate(p, s)
        except ImportError:
            pass
    print(len(P), 'properties')
