"""Writes the per-property sections of DESIGN.md (tools/design.md holds the
rest, with a line @@PROPERTIES@@ and a line @@SEEDS@@)."""
import glob
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

# property: (oracle, why the existing tests cannot settle it)
MORE = {
 'C01': ('`ref.pyramid`: direct convolution sums with the taps of pywt, then one sample in two; no FFT, no numpy.convolve; compared coefficient by coefficient and scale by scale',
         'tests analyse a few long random walks with one or two wavelets and compare estimates with tolerances of 0.1; a wrong tap, an off-by-one, a constant 2^gamint on one path stay inside it'),
 'C02': ('the same analysis without the polynomial; the tolerance follows the size of the polynomial', 'no test adds a trend'),
 'C03': ('`support()`: the filter supports alone say which indices miss (no arithmetic), scale by scale; values by the reference transform; counts by counting', 'no test has missing samples; the borders are only seen through estimates'),
 'C04': ('`ref.leaders`: the supremum over all finer dyadic intervals written as nested loops over positions', 'tests only see log-cumulants of leaders'),
 'C05': ('`ref.pleaders`: the weighted sum over all finer intervals, the correction from an independently fitted eta_p', 'tests use p = 1, 2 and inf on one or two realisations with eta_p > 0'),
 'C06': ('`ref.max_level` (closed form) and the counting of the non-missing reference coefficients and leaders', 'tests use three lengths; the interesting cases are lengths around powers of two and gaps at the coarse scales'),
 'C07': ('direct means with Python sums; fit by `ref.fit`', 'the value alphabet with missing values is enumerated completely, tests use transforms without holes'),
 'C08': ('cumulants through moments centred on the mean (shift invariance), so that the recursion of the code is not repeated on the same numbers', 'tests check c1 and c2 of simulated walks within 0.1'),
 'C09': ('direct sums; the identities with StructureFunction and Cumulants of the same quantity', 'no test compares D(q), h(q) with zeta(q)'),
 'C10': ('weighted least squares by the normal equations in exact integers', 'weights barely matter on the simulated walks of the tests'),
 'C11': ('direct maxima, `ref.fit`, the sign of the reference hmin for the warning', 'tests look at hmin of one walk'),
 'C12': ('the exact transformation law between two analyses by the real code (metamorphic, no reference needed)', 'one amplitude, one gamint in tests'),
 'C13': ('each realisation analysed alone by the real code', 'tests never mix realisations of different kinds'),
 'C14': ('the staged calls and the estimators, called with the parameters spelled out', 'tests use the default parameters'),
 'C15': ('the first answer in a newly made world; content hashes of every argument and earlier result; random, warning and floating-point state', 'a history bug needs a particular pair of calls'),
 'C16': ('sequential results, process-wide state', 'no test uses threads'),
 'C17': ('the plain functions on the data with the parameters of that call', 'each cache bug needs a particular sequence of two or three calls; tests make one'),
 'C18': ('the list of calls that have made a transform; an intersection of frequencies in a dictionary', 'as C17'),
 'C19': ('direct means of products with Python sums', 'tests of the bivariate module compare only some exponents with prescribed models'),
 'C20': ('centred moments and covariances, `ref.fit`', 'as C19'),
 'C21': ('the exchanged, marginal, univariate analyses by the real code', 'as C19'),
 'C22': ('the quadratic form, and the value 1 + q.h - zeta(q) at the stationary q and at 24 steps around it', 'no test'),
 'C23': ('direct mean squares of the reference pyramid; exact comparison of integers with the band', 'no test of bands'),
 'C24': ('explicit cosine sums', 'no test'),
 'C25': ('least squares in closed form over a filtered list', 'a band end on a frequency, the zero frequency'),
 'C26': ('the covariance formula; the covariance of the code is A A\' with A its response to unit noise: exact, no Monte Carlo', 'tests estimate H from random walks: a wrong factor or correlation of a few percent is invisible'),
 'C27': ('as C26, with the log-volatility recovered from the increments', 'as C26'),
 'C28': ('the direct causal sum; for the volatility as C27', 'no test (the function raised)'),
 'C29': ('documented shapes and errors; a recording random generator', 'tests use valid parameters only'),
 'C30': ('values read from the drawn artists (points, lines, labels) against the estimates', 'tests only call plot() without looking at the figure'),
 'C31': ('direct Python powers; set arithmetic', 'tests call build_q_log with one triple'),
 'C32': ('a dictionary of arrays', 'each bug needs a replacement or a copy at the right moment'),
 'C33': ('the Fourier multiplier, and plane waves in closed form; covariance from the response to unit draws', 'tests only look at the shape'),
 'C34': ('the same calls in an undisturbed process, started anew; every failure in a process of its own, after every line the trace function of Python reports', 'no test makes anything fail in the middle'),
 'C35': ('each realisation analysed alone by the real code, over the scales common to all', 'no test has missing samples in a batch'),
 'C36': ('the answers of the original before anything was copied', 'no test copies a result'),
 'C37': ('the analysis of the signal before the cut or the change, by the real code (metamorphic), with supports from filter lengths alone', 'tests never compare two analyses of related signals'),
}


def main():
    props = [json.loads(x) for x in open(os.path.join(
        ROOT, 'properties.jsonl'))]
    out = []
    for p in props:
        i = p['id']
        mod = importlib.import_module(f'mc.checks.{i.lower()}')
        o, w = MORE[i]
        out += [f"### {i}. {p['title']}", '',
                f"*Enumerated (quick):* {mod.BOUNDS['quick']}.",
                f"*Thorough:* {mod.BOUNDS['thorough']}.",
                f'*Counted:* {mod.RULE}.',
                f'*Oracle:* {o}.',
                f'*Beyond tests:* {w}.', '']
    seeds = ['| change | breaks | needs | caught by |', '|---|---|---|---|']
    caught = json.load(open(os.path.join(ROOT, 'tools', 'caught.json')))
    for f in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
        m = json.load(open(f))
        n = os.path.basename(os.path.dirname(f))
        seeds.append(f"| {n} | {m['property']} | {m['needs']} | "
                     f"{caught.get(n, 'not run')} |")
    t = open(os.path.join(ROOT, 'tools', 'design.md')).read()
    t = t.replace('@@PROPERTIES@@', '\n'.join(out).rstrip())
    t = t.replace('@@SEEDS@@', '\n'.join(seeds))
    with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
        f.write(t)


main()
