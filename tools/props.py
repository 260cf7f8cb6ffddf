"""source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = 'python/getdist/'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe),
                               hook_needed=None)))


prop('C01', 'Weighted statistics equal their definitions',
     'For any set of weighted samples, the reported means, variances, standard deviations, covariances, correlations, weighted sums '
     'and normalisation are exactly the weighted moments (weights as counts, normalised by the sum of weights) of the samples used, '
     'for parameters given by index, name or value vector, lists of them, and any row filter.',
     ['inputs'], 'all sample arrays, weights, parameter selections and row filters',
     'the tests check a few moments of one generated chain to loose tolerance; filters, lists and zero weights are never exercised',
     [G + 'chains.py'], [('WeightedSamples.mean/var/cov/...', G + 'chains.py'), ('covToCorr', G + 'chains.py')])
prop('C02', 'Samples, weights and likelihoods stay aligned row by row',
     'Every operation that selects, drops or reorders sample rows or parameters (filtering, zero-weight and minimum-weight removal, '
     'burn-in removal, fixed-parameter deletion, adding a derived parameter) keeps each surviving row\'s parameter values, weight and '
     'likelihood together, in order, and keeps exactly the rows it should.',
     ['inputs', 'histories'], 'all sample sets and sequences of selection operations',
     'tests only call filter once on one chain and never compare rows', [G + 'chains.py', G + 'mcsamples.py'],
     [('WeightedSamples.setSamples/filter/removeBurn/...', G + 'chains.py')])
prop('C03', 'Derived statistics are never stale',
     'After any change of samples or weights made through the API (filter, reweight, cool, thin, burn removal, added or deleted parameters, '
     'combining chains), every statistic, density and parameter lookup reports the value for the current samples, as if computed afresh.',
     ['histories', 'inputs'], 'all sequences of queries and updates', 'tests never query, modify and query again',
     [G + 'chains.py', G + 'mcsamples.py'], [('cache reset on weight change', G + 'chains.py'), ('needs_update / density caches', G + 'mcsamples.py')])
prop('C04', 'Thinning keeps exactly every k-th unit of weight',
     'Thinning integer-weight samples by a factor k returns non-decreasing row indices: each complete block of k units of weight contributes the row '
     'in which it completes (after the first row as a leading sample when no weight exceeds k); weighted thinning gives the same rows as counts, thinned '
     'samples written to file are those rows in order, and non-integer weights are rejected.',
     ['inputs'], 'all integer weight vectors and factors', 'tests thin one chain and only look at means',
     [G + 'chains.py'], [('thin_indices_single_samples', G + 'chains.py'), ('thin_indices_and_weights', G + 'chains.py')])
prop('C05', 'Reweighting applies exactly the stated likelihood change',
     'Adding log-likelihoods multiplies each weight by exp(-(added)) up to one common positive factor and adds to the stored likelihood; cooling '
     'by T raises each weight by exp(-(T-1) loglike) up to one common factor and scales the stored likelihoods by T; rows never move, weights stay finite, and no array of the caller or of another sample set changes.',
     ['inputs'], 'all weights, likelihoods and cool factors', 'tests never reweight', [G + 'chains.py', G + 'mcsamples.py'],
     [('reweightAddingLogLikes', G + 'chains.py'), ('cool', G + 'chains.py')])
prop('C06', 'Combining and separating chains conserves samples',
     'Loading several chains and combining them gives the concatenation in order of the chains with each chain\'s own burn-in removed once, and '
     'separating again returns the same chains; chain file discovery selects exactly the files of that root, index range and exclusions.',
     ['inputs', 'configurations'], 'all numbers and lengths of chains, burn-in settings, file sets', 'tests load one layout',
     [G + 'chains.py', G + 'mcsamples.py'], [('loadChains, makeSingle, getSeparateChains', G + 'chains.py'), ('chainFiles', G + 'chains.py')])
prop('C07', 'Sample quantiles bracket exactly the requested tail weight',
     'The confidence limit for tail fraction f is a sample value such that the weight at or below it is at least f of the total and the weight '
     'strictly below it is at most f (upper limits with 1-f), for any weights, row range and repeated values; two-tail limits combine the two.',
     ['inputs'], 'all samples, weights and fractions', 'tests only compare one Gaussian to tolerance', [G + 'chains.py'],
     [('confidence', G + 'chains.py'), ('initParamConfidenceData', G + 'chains.py')])
prop('C08', 'Densities are normalised and limits enclose the requested probability',
     'Normalising a gridded density by integral or maximum makes that integral or maximum one; credible limits and 2D contour levels derived from '
     'it enclose the requested fraction of its probability, with one-sided limits exactly when the density has not fallen off at that end.',
     ['inputs'], 'all gridded densities and enclosed fractions', 'tests look at a few smooth densities', [G + 'densities.py'],
     [('Density1D.getLimits', G + 'densities.py'), ('getContourLevels', G + 'densities.py'), ('GridDensity.normalize', G + 'densities.py')])
prop('C09', 'Density estimation conserves weight and respects hard priors',
     'Binning samples for a 1D or 2D density assigns every sample\'s whole weight to its nearest grid point, on a grid of the requested size covering the samples '
     'and the plotted range. A hard prior bound close to the samples is exactly an end of that grid, beyond which the density is zero, and the plotted range never '
     'passes a hard bound. For a given bandwidth the density is the kernel estimate of the binned weights with the selected boundary and bias corrections, '
     'scaled to maximum one, and does not depend on the units of the parameters or of the weights.',
     ['inputs', 'configurations'], 'all samples, ranges and settings', 'tests plot a few fixed cases', [G + 'mcsamples.py'],
     [('_binSamples, get1DDensityGridData, get2DDensityGridData', G + 'mcsamples.py')])
prop('C10', 'Convolutions equal direct sums',
     'FFT based 1D and 2D convolutions and autocorrelations return, in each size mode, exactly the corresponding slice of the direct convolution '
     'sum for any input lengths, and cached transforms never change a result.',
     ['inputs', 'histories'], 'all lengths, modes and call sequences', 'tests only run them inside one KDE', [G + 'convolve.py'],
     [('convolve1D, convolve2D, autoConvolve', G + 'convolve.py')])
prop('C11', 'Convergence diagnostics follow their definitions',
     'Gelman-Rubin values are the eigenvalues of the variance of chain means in the basis where the mean chain covariance is the identity; '
     'autocorrelations, correlation lengths and effective sample numbers equal their defining weighted sums.',
     ['inputs'], 'all chains and weights', 'tests check one number to one digit', [G + 'chains.py', G + 'mcsamples.py'],
     [('getGelmanRubinEigenvalues', G + 'chains.py'), ('getAutocorrelation, getCorrelationLength', G + 'chains.py')])
prop('C12', 'Parameter names resolve uniquely and round-trip through files',
     'Every parameter is found by its name and by every alias and by nothing else, index, label and derived flag stay attached to it under '
     'additions, deletions and filtering, and writing and reading a parameter-name file preserves names, labels, derived flags and order.',
     ['inputs', 'histories'], 'all names, labels, aliases and edit sequences', 'tests use a handful of simple names', [G + 'paramnames.py'],
     [('ParamList.parWithName, ParamNames.loadFromFile', G + 'paramnames.py')])
prop('C13', 'Parameter ranges mean what was set and round-trip through files',
     'A parameter\'s lower and upper limits are exactly those set or read, absent limits (N) are unbounded, fixed values are reported as fixed, '
     'and writing then reading a ranges file preserves all of it to the precision written.',
     ['inputs', 'histories'], 'all names and limits', 'tests use one ranges file', [G + 'parampriors.py'],
     [('ParamBounds', G + 'parampriors.py')])
prop('C14', 'INI files read back exactly the settings written',
     'Reading an ini file gives each key its own value: a key set twice by a file and the files it INCLUDEs is rejected, DEFAULT files only fill keys '
     'not set otherwise, and relative names are taken from the file that names them. Typed accessors parse or reject the value, and saving and re-reading '
     'preserves every key, value and order.',
     ['inputs', 'configurations'], 'all keys, values, include/default trees', 'tests read the stock files only', [G + 'inifile.py'],
     [('IniFile', G + 'inifile.py')])
prop('C15', 'Covariance matrices keep names and entries together',
     'Saving, loading, re-scaling and merging a named covariance matrix keep the entry for every pair of names, the correlation matrix is that covariance '
     'scaled to unit diagonal, and the covariance of a sample set is that of its non-derived parameters.',
     ['inputs'], 'all matrices and name lists', 'no test touches it', [G + 'covmat.py'], [('CovMat', G + 'covmat.py')])
prop('C16', 'Tables print numbers that round the limits correctly',
     'Every number in result tables is its value rounded to the significant figures the error demands, with one-sided, two-sided and two-tail '
     'limits shown as such, and marginalised-limit and best-fit files read back to the values written.',
     ['inputs'], 'all values and errors', 'tests check that table code runs and one string', [G + 'types.py'],
     [('NumberFormatter, MargeStats, ResultTable', G + 'types.py')])
prop('C17', 'Grid items have unique, order-independent names and paths',
     'A grid of models and data sets yields one item per combination not excluded, with a name determined only by its parameters and data set '
     '(so distinct combinations have distinct names and paths), normalised names independent of tag order, and filters keep exactly the items that '
     'satisfy them, in grid order.',
     ['inputs', 'configurations'], 'all grids, orders and filters', 'no test touches the grid code', ['python/paramgrid/batchjob.py'],
     [('jobItem, batchJob.makeItems, normalizeDataTag', 'python/paramgrid/batchjob.py')])
prop('C18', 'The job index never loses or duplicates a submitted job',
     'After any sequence of submissions, deletions and completions the job index maps every live job to exactly its own names and back, '
     'and an interrupted save leaves either the old or the new index on disk.',
     ['histories', 'crash_points'], 'all operation sequences and interruption points', 'no test touches it', ['python/paramgrid/jobqueue.py'],
     [('jobIndex, saveJobIndex', 'python/paramgrid/jobqueue.py')])
prop('C19', 'CMB likelihood matches its definition',
     'Spectrum indices, bin windows and vectorised matrices follow the declared field order in both directions, and the computed chi-squared is '
     'the defined quadratic form (or exact/HL form), zero at the data and non-negative.',
     ['inputs'], 'all field lists, spectra and covariances', 'no test touches it', ['python/CMBlikes.py'], [('DatasetLikelihood', 'python/CMBlikes.py')])
prop('C20', 'Gaussian mixtures are consistent probability models',
     'Means, covariances, marginals, conditionals and densities of a Gaussian mixture are those of the declared weighted components, '
     'log-pdf is the logarithm of pdf, and limits are honoured.',
     ['inputs'], 'all component weights, means and covariances', 'tests use one mixture', [G + 'gaussian_mixtures.py'],
     [('MixtureND', G + 'gaussian_mixtures.py')])
prop('C21', 'Cobaya models are translated without loss or side effects',
     'Parameter names, labels, ranges, derived flags and sampler type extracted from a Cobaya description are those it declares, and the description '
     'passed in is left unchanged.',
     ['inputs'], 'all parameter descriptions', 'no test touches it', [G + 'cobaya_interface.py'], [('get_info_params, get_range', G + 'cobaya_interface.py')])
prop('C22', 'Loading through the cache gives the same samples as loading afresh',
     'Loading chains by root returns the same samples, weights, names, ranges and settings-dependent results whether or not a cache from an earlier '
     'load exists, for any sequence of chain-file and settings changes between loads.',
     ['histories', 'configurations'], 'all load/change sequences', 'tests load a root once or twice unchanged', [G + 'mcsamples.py'],
     [('loadMCSamples', G + 'mcsamples.py')])
prop('C23', 'Saved chains read back as the same chains',
     'Saving samples as text or pickle and loading them returns the same weights, likelihoods, values (to the written precision), names, labels, ranges '
     'and derived flags, per chain and for the whole set.',
     ['inputs', 'configurations'], 'all samples, names and save options', 'tests write one chain', [G + 'chains.py', G + 'mcsamples.py'],
     [('saveAsText, saveTextMetadata, loadChains', G + 'chains.py')])

prop('C24', 'The analysis program reports what the samples say',
     'Running GetDist on a chain root writes, under the output root only, files that hold the numbers of the chosen chains: burn-in removed once (command line '
     'over settings, none if already removed), chains excluded, samples cooled and thinned as set; and from those samples the covariance, correlations, limits, '
     'likelihood summary, principal components (power laws and their scatter) and the most correlated pairs in order.',
     ['inputs', 'configurations'], 'all chains, command lines and settings', 'tests do not run the program', [G + 'command_line.py', G + 'mcsamples.py'],
     [('runScript, main', G + 'command_line.py'), ('PCA, GetUsedColsCount, getCorrelatedVariable2DPlots', G + 'mcsamples.py')])
prop('C25', 'Plots show the densities, contours and samples asked for',
     'A plot draws, for each root in the order given, the marginalised density of the parameter (unit maximum, or unit area where asked, whatever was plotted '
     'before), 2D contours at the levels of that density, and samples coloured by the third parameter or weighted by opacity; each panel of a triangle, rectangle or '
     'list shows the parameters of its place; axis limits enclose what is drawn within hard bounds; a legend gives each root its own colour. A root name stands '
     'for the chains of the first folder that has them, with the settings of that folder, until removed. Samples, settings and arguments given are left as they were.',
     ['inputs', 'histories', 'configurations'], 'all samples, panels, settings and sequences of plots', 'tests draw a few plots and look at no values',
     [G + 'plots.py'], [('add_1d, add_2d_contours, add_3d_scatter, triangle_plot, plots_1d, MCSampleAnalysis', G + 'plots.py')])

TECH = 'contracts on the real functions, symbolic verification conditions (pyvc) discharged by ring normaliser, z3 and cvc5'
NOTE = {}
LEVEL = {}


def main():
    claimed = sorted({f.split('_')[0].upper() for f in os.listdir(V + '/contracts') if f[0] == 'c' and f[1].isdigit()})
    with open(V + '/properties.jsonl', 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    from notes import NOTES, NA
    checks, na = [], []
    for p in P:
        if p['id'] in claimed:
            lv, note = NOTES.get(p['id'], ('proof', 'see DESIGN.md'))
            checks.append(dict(property=p['id'], quick_cmd='/opt/venv/bin/python check.py ' + p['id'],
                               thorough_cmd='VERIF_TIER=thorough /opt/venv/bin/python check.py ' + p['id'],
                               technique=TECH, level=lv, level_note=note))
        else:
            na.append(dict(property=p['id'], reason=NA.get(p['id'], 'check not built yet')))
    json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python tools/selftest.py', checks=checks, not_applicable=na,
                   notes='engine: pyvc (own), see DESIGN.md'), open(V + '/MANIFEST.json', 'w'), indent=1)


if __name__ == '__main__':
    main()
