"""Single source of properties.jsonl and MANIFEST.json (python3 lib/mkmeta.py)."""
TECH = 'bounded exhaustive exploration of the real code against a reference model'
NOTE = ('Deciding step: complete enumeration of the stated finite space of executions of the real code, each compared '
        'with an independent reference model; nothing is sampled. Beyond the bounds it relies on the small-scope '
        'argument in DESIGN.md.')
PROPS = [
    dict(id='P01', title='Reported level crossings are exactly the crossings of the record',
         statement='For every finite record and every level, the reported crossings are exactly the samples after '
         'which the record has moved from one strict side of the level to the other (samples on the level belong to '
         'the side left last; a record that starts on the level crosses when it first leaves it), in time order. '
         'Selecting down-crossings, up-crossings or one of the four wave definitions keeps exactly the crossings '
         'that selection documents, and interpolated crossing instants lie where the straight line between the two '
         'samples meets the level. The compiled and the pure Python back ends agree, and neither changes its input.',
         over=['inputs', 'configurations'],
         forall='all records (values, lengths, storage forms), all levels, all selection kinds, both back ends',
         why='The tests look at a handful of smooth sampled sines; ties with the level, plateaus, records starting on '
         'the level, buffer-size boundaries and the second back end are combinations they never reach.',
         files=['src/wafo/misc.py', 'src/wafo/_misc_numba.py', 'source/c_library/c_functions.c'],
         mech=[('findcross / xor selection of wave definitions', 'src/wafo/misc.py findcross'),
               ('level crossing scan', 'source/c_library/c_functions.c findcross; src/wafo/_misc_numba.py findcross'),
               ('interpolated crossings', 'src/wafo/misc.py ecross')],
         oracle='direct transcription of the definition: the last strict side of the level, scanned in Python.',
         note='All sign words to length 10, all 5-valued records to length 5 with 11 levels, all input forms, scales '
         'and de Bruijn records across buffer sizes.'),
    dict(id='P02', title='Turning points are exactly the local extremes of the record',
         statement='The turning points of a record are exactly its local extremes (the last sample of a flat '
         'extreme), strictly alternating between minima and maxima, completed with the end points the documentation '
         'promises, for every record with at least two extremes; a peak search returns the highest of the maxima. With a positive threshold only turning points that '
         'belong to a rainflow cycle of at least that height remain, and the wave definitions only trim the ends so '
         'that the sequence starts and ends with a minimum or with a maximum as asked. The turning points taken from '
         'a time series carry exactly the values and times of those samples.',
         over=['inputs', 'configurations'],
         forall='all records with at least two extremes, all thresholds, wave definitions and back ends',
         why='The doctests use two smooth signals; plateaus, ties between ranges and threshold, and sequences the '
         'threshold empties are not reached.',
         files=['src/wafo/misc.py', 'src/wafo/objects.py', 'source/c_library/c_functions.c', 'src/wafo/_misc_numba.py'],
         mech=[('findextrema, findtp', 'src/wafo/misc.py'), ('TimeSeries.turning_points', 'src/wafo/objects.py')],
         oracle='brute-force local extremes of the compressed record; with a threshold, the members of the brute-force rainflow pairs of P03.',
         note='All 3-valued records to length 8 and 4-valued to length 6, all thresholds on and between the ranges, '
         'both back ends, wave definitions, object layer, and de Bruijn records to 2000 samples.'),
    dict(id='P03', title='Rainflow filtering keeps exactly the cycles at or above the threshold',
         statement='For every strictly alternating sequence of turning points and every threshold, the rainflow '
         'filter returns exactly the members of the rainflow cycles (each maximum paired with the higher of the '
         'lowest values reached before the signal exceeds it on the left and returns to it on the right) whose '
         'height reaches the threshold, in order and without duplicates. The compiled and the pure Python '
         'implementations agree for every storage form of the input and do not change it.',
         over=['inputs', 'configurations'],
         forall='all turning point sequences (order patterns with ties), thresholds, methods, storage forms',
         why='The tests run two sampled signals with thresholds away from any cycle height.',
         files=['src/wafo/misc.py', 'src/wafo/_misc_numba.py', 'source/c_library/c_functions.c', 'src/wafo/objects.py'],
         mech=[('findrfc', 'src/wafo/misc.py; source/c_library/c_functions.c; src/wafo/_misc_numba.py'),
               ('TurningPoints.rainflow_filter', 'src/wafo/objects.py')],
         oracle='every maximum paired by two linear scans (definition of the rainflow cycle); back ends compared pairwise.',
         note='All alternating sequences over 3, 4 and 5 levels to length 9/8/7 with every threshold on and between '
         'cycle heights; long growing and shrinking de Bruijn sequences.'),
    dict(id='P04', title='ASTM rainflow counting yields the standard cycle table',
         statement='For every sequence of turning points, rainflow counting yields exactly the full and half cycles '
         'that the ASTM E1049-85 procedure yields, with their amplitude, mean, count and, when times are given, '
         'start and period. In particular every reversal is accounted for: the counts always sum to half the number '
         'of ranges of the sequence, and the largest range of the sequence is always among the counted ones.',
         over=['inputs', 'configurations'],
         forall='all turning point sequences and times, both implementations, all storage forms',
         why='One published example and one random-looking sequence are tested; nesting, ties and half-cycle '
         'bookkeeping depend on the order pattern of the whole sequence.',
         files=['src/wafo/misc.py', 'src/wafo/_misc_numba.py', 'src/wafo/objects.py'],
         mech=[('findrfc_astm', 'src/wafo/misc.py; src/wafo/_misc_numba.py'),
               ('TurningPoints.cycle_astm', 'src/wafo/objects.py')],
         oracle='literal stack procedure of ASTM E1049-85 section 5.4.4, plus the conservation law on the number of ranges.',
         note='All alternating sequences over 3 to 5 levels with and without times; long de Bruijn sequences.'),
    dict(id='P05', title='Wave parameters describe the individual waves of the record',
         statement='Troughs and crests are exactly the lowest and highest samples between consecutive level '
         'crossings of the chosen wave definition, and every wave carries the crest amplitude, trough amplitude, '
         'wave height, crest front and back period, steepness and vertical/horizontal asymmetry factors computed '
         'from those samples and the interpolated crossing instants. Wave periods between crossings equal the '
         'distances between the crossings they are named after, in time order, for every record, wave definition '
         'and interpolation rate.',
         over=['inputs', 'configurations'],
         forall='all records (sign and height patterns), wave definitions, sampling rates and period definitions',
         why='The tests use one measured record whose first crossing, last crossing and plateaus are one fixed '
         'combination.',
         files=['src/wafo/misc.py', 'src/wafo/objects.py'],
         mech=[('findtc', 'src/wafo/misc.py'), ('TimeSeries.wave_parameters, wave_height_steepness, wave_periods, '
               'trough_crest', 'src/wafo/objects.py')],
         oracle='crossings of P01 and a per-wave evaluation of each parameter from the samples.',
         note='All small-alphabet records to length 8, wave definitions and period kinds.'),
    dict(id='P06', title='Cycle pairs, crossing counts, damage and cycle matrices agree',
         statement='Cycle pairs taken from turning points are exactly the consecutive minimum-maximum (or '
         'maximum-minimum) pairs; the level crossing count at any level is the number of cycles spanning it under '
         'the numbered counting rule, damage is the sum of amplitude powers, and amplitudes are half the ranges. '
         'Cycle matrices place each cycle in the class its minimum and maximum fall in and converting a cycle matrix '
         'to a counting distribution and back loses nothing; none of these conversions changes its input.',
         over=['inputs', 'configurations'],
         forall='all turning point sequences, cycle sets, counting rules, exponents, class grids, frequency matrices',
         why='Tests fix one sea record and one matrix; ties at class boundaries, empty classes and order of pairs '
         'are not reached.',
         files=['src/wafo/objects.py', 'src/wafo/misc.py', 'src/wafo/markov.py'],
         mech=[('TurningPoints.cycle_pairs, CyclePairs, LevelCrossings', 'src/wafo/objects.py'),
               ('cycle_matrix, cmat2nt, nt2cmat, mctp2tc, mctp2rfc', 'src/wafo/markov.py')],
         oracle='brute-force counting: every cycle against every level / class; cumulative sums evaluated by definition.',
         note='All sequences over small alphabets, all small cycle sets and matrices.'),
    dict(id='P07', title='Cosine and sine transforms follow their definitions and invert exactly',
         statement='Each one- and n-dimensional discrete cosine and sine transform of any type and normalisation '
         'equals its defining sum along the requested axes and shape, and its inverse undoes it, for every array '
         'shape, axis selection (negative axes included), truncation or zero padding, and for real and complex data '
         'without changing the input. Shifting dimensions and shifting back restores the array.',
         over=['inputs', 'configurations'],
         forall='all shapes, types, norms, axes and shape arguments; basis of the input space (the maps are linear)',
         why='The tests compare a few fixed arrays with default axes.',
         files=['src/wafo/dctpack.py'],
         mech=[('dct, idct, dst, idst, dctn, idctn, dstn, idstn, shiftdim', 'src/wafo/dctpack.py')],
         oracle='the defining O(N^2) sums, and round trips; complete bases of the input space.',
         note='All shapes to 3-D with sizes to 4 (1-D to 8), complete bases of the input space.'),
    dict(id='P08', title='Elementwise selection, bit, index and geometry helpers act as documented',
         statement='Piecewise and conditional evaluation assigns to every element the value of the function whose '
         'condition selects it (last match for piecewise, first match for select), evaluates each function on '
         'exactly those elements, and broadcasts like numpy. Index/subscript and bit conversions are mutually '
         'inverse, rotations and polar conversions preserve lengths and invert, and grid, argument and discretising '
         'helpers return exactly what they document for every shape and value.',
         over=['inputs', 'configurations'],
         forall='all boolean condition patterns, shapes, integers, index tuples and orderings within the bounds',
         why='The doctests show one call each.',
         files=['src/wafo/misc.py', 'src/wafo/bitwise.py'],
         mech=[('piecewise, lazywhere, lazyselect, argsreduce, index2sub, sub2index, rotate, polar, discretize',
                'src/wafo/misc.py'), ('getbit, setbit, getbits, setbits', 'src/wafo/bitwise.py')],
         oracle='element-by-element evaluation in plain Python.',
         note='All condition words on shapes up to 4 elements, all 10-bit integers, all small index spaces.'),
    dict(id='P09', title='Transformations between data and Gaussian scale are consistent and invertible',
         statement='For every transformation model (linear, Hermite, Ochi) and every tabulated transformation, mapping '
         'data to the Gaussian scale and back restores the data wherever the transformation is monotone, both '
         'directions increase, and the model meets its defining equations for every admissible mean, standard '
         'deviation, skewness and kurtosis, also after its parameters have been changed; a Hermite model whose cubic '
         'has turning points warns and refuses intervals that contain one. Transforming a process '
         'together with its first to fourth derivatives obeys the chain rule, tabulated transformations agree with '
         'straight-line interpolation of the table within its range, and inputs are not changed.',
         over=['inputs', 'configurations', 'histories'],
         forall='all admissible moments, parameter update histories, table grids, and number of derivatives',
         why='The tests evaluate one parameter set per model at a few abscissae.',
         files=['src/wafo/transform/core.py', 'src/wafo/transform/models.py'],
         mech=[('TrCommon.dat2gauss/gauss2dat, TrLinear, TrHermite, TrOchi', 'src/wafo/transform/models.py'),
               ('TrData, tranproc, trangood', 'src/wafo/transform/core.py; src/wafo/misc.py')],
         oracle='closed-form Hermite/Ochi equations, bisection for inverses, chain rule by polynomial composition.',
         note='All parameter grids and update histories to length 3, all small tables, derivatives by exact chain rule.'),
    dict(id='P10', title='Dispersion relation and linear wave kinematics obey linear wave theory',
         statement='The wave number returned for a frequency solves the dispersion relation at every water depth and '
         'gravity (odd in frequency, along the given direction, deep-water limit included) and converting back '
         'restores frequency and direction, for every combination of broadcastable shapes. The transfer function of '
         'every sensor type (elevation, slopes, velocities, accelerations, pressure and the rest) for every position, '
         'direction convention and depth is the one linear theory gives, sensor types may be given by name or by '
         'number, and inputs are left unchanged.',
         over=['inputs', 'configurations'],
         forall='all frequencies (zero and negative included), depths to infinity, gravities, directions, sensors',
         why='The tests sample a few frequencies at one or two depths and few of the sensors.',
         files=['src/wafo/wave_theory/dispersion_relation.py', 'src/wafo/wave_theory/core.py'],
         mech=[('w2k, k2w', 'src/wafo/wave_theory/dispersion_relation.py'),
               ('TransferFunction, hyperbolic_ratio, wave_pressure', 'src/wafo/wave_theory/core.py')],
         oracle='bisection on the dispersion relation; closed-form linear theory per sensor.',
         note='Complete product of frequencies, depths, gravities, directions, sensors, conventions and shapes.'),
    dict(id='P11', title='Second-order wave interactions follow the quadratic transfer functions',
         statement='The quadratic transfer functions for sum and difference frequencies equal the second-order theory '
         'of unidirectional waves (deep water and, for the Langley form, every depth), are symmetric in the two '
         'frequencies, and their diagonal is the limit of equal frequencies. The sum- and difference-frequency '
         'response assembled from component amplitudes equals the double sum over all pairs of components within the '
         'requested frequency limits, identically in the compiled and the Python implementation.',
         over=['inputs', 'configurations'],
         forall='all frequency sets, depths, component index limits, numbers of replicates, both back ends',
         why='The tests compare stored numbers of one deep-water case; most loop bounds and pairs are not reached.',
         files=['src/wafo/spectrum/core.py', 'source/c_library/c_functions.c', 'src/wafo/_misc_numba.py'],
         mech=[('qtf', 'src/wafo/spectrum/core.py'),
               ('disufq, disufq2', 'source/c_library/c_functions.c; src/wafo/_misc_numba.py')],
         oracle='textbook kernels and the double sum over component pairs.',
         note='All pairs of component indices and limits for small transforms; complete basis of component pairs.'),
    dict(id='P12', title='Spectra, covariances and spectral moments are consistent with each other',
         statement='The covariance function computed from a spectrum (and its derivatives) is the cosine transform of '
         'that spectrum, transforming back restores the spectrum, and spectral moments, bandwidth factors, '
         'characteristic sea-state parameters, second-order statistics and directional moments are the integrals '
         'that define them. All of these are independent of whether the spectrum is stored per hertz or per '
         'radian per second, changing that unit back and forth restores the spectrum, normalising yields unit '
         'zeroth and second moment, resampling keeps known values and non-negativity. Rotating a directional or wave '
         'number spectrum turns its directions by that angle and keeps its frequencies. None of the computations '
         'changes the object or the arrays it was built from.',
         over=['inputs', 'configurations', 'histories'],
         forall='all spectra on all grids, units, orders, rates, lag counts, factor selections and unit-change histories',
         why='The tests look at one or two Jonswap spectra in one unit.',
         files=['src/wafo/spectrum/core.py', 'src/wafo/covariance/core.py'],
         mech=[('SpecData1D.tocovdata, tocov_matrix, moment, bandwidth, characteristic, normalize, resample, '
                'stats_nl, freqtype; SpecData2D.moment', 'src/wafo/spectrum/core.py'),
               ('CovData1D.tospecdata', 'src/wafo/covariance/core.py')],
         oracle='trapezoidal/cosine sums evaluated directly from the definitions; object state snapshots before and after.',
         note='All small-alphabet spectra and covariances to length 5, all rates, units, selections and unit histories.'),
    dict(id='P13', title='Simulated processes have the prescribed covariance; estimates follow definition',
         statement='A process simulated from a covariance function or spectrum has exactly the prescribed mean, '
         'covariance and time step, independent replicates, and, when asked for, derivatives with the matching '
         'covariance and cross-covariance; the second-order simulation adds the documented second-order interaction of '
         'all frequency pairs within the documented limits to the linear simulation, and a given seed or generator state always reproduces the same realisation. '
         'Simulation conditional on known values has the conditional Gaussian mean and covariance for every pattern '
         'of missing values. Covariance and spectrum estimates from a record equal their defining sums for every '
         'lag (by default two beyond the last significant covariance), window, overlap, bias choice and pattern of missing values, with the documented band width and chi-square '
         'confidence limits (lower first), and nothing passed in is changed.',
         over=['inputs', 'configurations', 'histories'],
         forall='all covariance functions/spectra, lengths, replicate counts, noise inputs, missing-value patterns, '
         'lags, and histories of earlier draws',
         why='Tests check a fixed seed or a loose sample statistic; the exact second-order structure cannot be sampled.',
         files=['src/wafo/covariance/core.py', 'src/wafo/covariance/estimation.py', 'src/wafo/spectrum/core.py',
                'src/wafo/objects.py'],
         mech=[('CovData1D.sim, simcond', 'src/wafo/covariance/core.py'),
               ('SpecData1D.sim, sim_nl', 'src/wafo/spectrum/core.py'),
               ('CovarianceEstimator.tocovdata', 'src/wafo/covariance/estimation.py'),
               ('TimeSeries.tocovdata, tospecdata', 'src/wafo/objects.py')],
         oracle='exact second-order structure obtained from the response to every unit noise vector; conditional Gaussian formula by linear solve; estimates by their defining sums.',
         note='The simulations are affine in their noise: every unit noise vector is driven, which determines mean and '
         'covariance exactly.'),
    dict(id='P14', title='Parametric wave spectra and spreading functions obey their definitions',
         statement='Every spectral model (Bretschneider, Jonswap, TMA, Torsethaugen, Ochi-Hubble, Wallop, McCormick) '
         'evaluates its documented formula for every admissible parameter and frequency array: non-negative, zero at '
         'and below zero frequency, energy equal to Hm0**2/16 over the frequency range its normalisation refers to, '
         'a peak at 2*pi/Tp, and identically zero for a calm sea; parameters left out take their documented defaults; impossible sea states '
         'are rejected. Every '
         'directional spreading function is a density on the circle with the documented mean direction (fixed, per '
         'frequency, or a function) and a first Fourier coefficient given by the spreading parameter, whose '
         'dependence on frequency follows the chosen method, and a directional spectrum integrates over direction to '
         'the spectrum it was built from.',
         over=['inputs', 'configurations'],
         forall='all sea states, shape parameters, normalisation methods, depths, spreading types, methods, directions '
         'and frequency/angle grids on the parameter lattice',
         why='The doctests evaluate each model for one sea state at four frequencies; half of the spreading methods '
         'were never called.',
         files=['src/wafo/spectrum/models.py'],
         mech=[('Bretschneider, Jonswap, Tmaspec, Torsethaugen, McCormick, OchiHubble, Wallop, phi1, jonswap_peakfact, '
                'jonswap_seastate', 'src/wafo/spectrum/models.py'),
               ('Spreading.*, Spreading.tospecdata2d', 'src/wafo/spectrum/models.py')],
         oracle='the documented formulas rewritten independently, Gauss-Legendre normalisation, bisection for the '
         'spreading parameters, theta-series for the wrapped normal.',
         note='Complete product of 4x4 (thorough 9x9) sea states with shape, normalisation, depth and gravity lattices; '
         'all spreading types x methods x parameter sets x main directions x angle grids.'),
    dict(id='P15', title='Kernel density estimates, regression and binning equal their defining sums',
         statement='For every dataset, kernel, smoothing parameter and evaluation set, KDE and TKDE return the '
         'kernel sum that defines them (weighted, adaptive and transformed variants included), the binned fast '
         'evaluation equals the same sum over linearly binned data, gridcount and accum preserve total mass and '
         'place every observation on its neighbouring nodes, KRegression and BKRegression return the local '
         'polynomial fit, the bandwidth selectors return their published formulas, and the contour levels of a '
         'density enclose the stated percentages of it. Evaluation neither changes '
         'the caller\'s arrays nor depends on which evaluations or smoothing parameters were used before.',
         over=['inputs', 'configurations', 'histories'],
         forall='all small datasets over a value lattice, all kernels, weights, adaptivity and transformation '
         'parameters, grids, and all sequences of evaluations and smoothing changes up to the depth bound',
         why='The tests evaluate a few fixed samples with one kernel each; estimates depend on the data through '
         'binning, transformations and cached state that only particular inputs or histories exercise.',
         files=['src/wafo/kdetools/kdetools.py', 'src/wafo/kdetools/gridding.py', 'src/wafo/kdetools/kernels.py'],
         mech=[('TKDE, KDE, KRegression, BKRegression', 'src/wafo/kdetools/kdetools.py'),
               ('gridcount, accum, accumsum, bitget', 'src/wafo/kdetools/gridding.py'),
               ('Kernel, hns, hos, hste, hstt, hscv, hldpi, hisj', 'src/wafo/kdetools/kernels.py')],
         oracle='direct double sums over data and evaluation points, multilinear binning by definition, local '
         'polynomial weights, published selector formulas.',
         note='Complete products of small datasets with all kernels and options; operation histories of depth '
         '<= 4 over {change h, points, grid, fast grid} compared with a fresh object.'),
    dict(id='P16', title='Polynomial representations denote the same function through every operation',
         statement='For all coefficients, in every accepted form (list, integer or float array, poly1d, matrix of '
         'columns): differentiation, integration, relocation, scaling, interval shifting, trimming and printing of '
         'power-form polynomials; fitting and evaluation of orthogonal polynomials; evaluation, fitting, conversion, '
         'differentiation, integration and arithmetic of Chebyshev series in one or more dimensions; and Pade '
         'approximation act on the denoted function exactly as their definitions say, inverse operations undo one '
         'another, and arguments are left unchanged.',
         over=['inputs', 'configurations'],
         forall='all coefficient vectors over a small lattice up to degree 4 (thorough 5), all operations, orders, '
         'intervals, argument forms, and one to four dimensions',
         why='The doctests evaluate one polynomial each and draw pictures of the Chebyshev derivative and integral '
         'without comparing a number.',
         files=['src/wafo/polynomial.py'],
         mech=[('polyint, polyder, polyreloc, polyrescl, polyshift, polyishift, poly2str, poly2hstr, orthofit, '
                'ortho2poly, polydeg, chebfit, chebval, chebder, chebint, cheb2poly, Cheb1d, chebfit_dct, chebfitnd, '
                'padefit, padefitlsq', 'src/wafo/polynomial.py')],
         oracle='exact rational evaluation, three-term recurrences, least squares by normal equations.',
         note='Complete coefficient lattices; every result compared as a function at 7 points.'),
    dict(id='P17', title='Splines, interpolants and polynomial smoothers obey their definitions',
         statement='For all data: PPform evaluates, differentiates and integrates its piecewise polynomial exactly and '
         'is undefined or extrapolates as asked outside its range; SmoothSpline is the unique minimiser of the '
         'penalised least squares criterion it documents (interpolating for p=1, the regression line for p=0), for '
         'unsorted data, several columns and unequal variances; Hermite, Pchip and Stineman interpolants pass through '
         'the data, use the slopes of their documented rule and keep monotone data monotone; Savitzky-Golay '
         'smoothing and differentiation in one and two dimensions equal local least squares fits, up to the edges on '
         'the data continued by their mirror image. Arguments are not '
         'changed and repeated evaluation gives the same answer.',
         over=['inputs', 'configurations', 'histories'],
         forall='all ordinates over a small lattice (or a complete basis where the map is linear) on a set of uniform '
         'and non-uniform grids, all slope rules, degrees, windows, derivative orders and extrapolation modes',
         why='The tests interpolate one smooth function; wrong signs, end conditions and shapes show only for '
         'particular data patterns, orders of the data and degrees.',
         files=['src/wafo/interpolate.py'],
         mech=[('PPform, SmoothSpline, slopes, CubicHermiteSpline, PchipInterpolator, StinemanInterp, stineman_interp, '
                'savitzky_golay, savitzky_golay_piecewise, sgolay2d, interp3', 'src/wafo/interpolate.py')],
         oracle='exact polynomial arithmetic, dense solution of the normal equations, local least squares.',
         note='Complete lattices of ordinates on small grids with every rule and option.'),
    dict(id='P18', title='Quadrature rules are exact for their polynomials and agree with each other',
         statement='For every order and weight function the Gauss rules integrate all polynomials up to degree 2n-1 '
         'exactly with nodes inside the interval and positive weights; gaussq, Gaussq, clencurt, romberg, quadgr, '
         'boole, the Chebyshev routines and the oscillatory integrators return the integral of every polynomial or '
         'oscillatory integrand of the enumerated family within the error they report or promise, for finite, '
         'reversed, empty and infinite intervals, scalar and array limits, tabulated functions, integer-valued '
         'integrands, and independently of the integrals computed before (cached rules).',
         over=['inputs', 'configurations', 'histories'],
         forall='all monomials up to the degree of exactness x orders x weight functions x intervals (also reversed) '
         'x methods; sequences of rules sharing the cache',
         why='The tests integrate a handful of functions over one interval with one order; exactness must hold for a '
         'basis of the polynomial space and for every order.',
         files=['src/wafo/integrate.py', 'src/wafo/integrate_oscillating.py'],
         mech=[('qrule, h_roots, j_roots, la_roots, _Gaussq, gaussq, clencurt, romberg, quadgr, boole, chebychev',
                'src/wafo/integrate.py'),
               ('QuadOsc, EvansWebster, AdaptiveLevin', 'src/wafo/integrate_oscillating.py')],
         oracle='closed form integrals (Beta and Gamma functions) of a polynomial basis and of exp(i w g(x)) families.',
         note='A basis of the polynomial space decides exactness for every polynomial of that degree.'),
    dict(id='P19', title='Multivariate normal probabilities equal the integrals they stand for',
         statement='cdfnorm2d, prbnorm2d, prbnormndpc, prbnormtndpc, prbnormnd and Rind return the probability of the '
         'stated rectangle, product-correlation or conditional event of the stated Gaussian (or Student) vector within '
         'the requested or reported error: for all limits including infinite, equal and reversed ones and all '
         'correlations from -1 to 1; results are probabilities, additive over a partition of the region, monotone in '
         'the limits, invariant under permutation, reflection and scaling of the variables, and unaffected by other '
         'Rind objects created in between. cdflomax is a distribution function.',
         over=['inputs', 'configurations', 'histories'],
         forall='all limits and correlations over lattices in dimension 1 to 6, product correlations up to one in absolute value, all methods and both kinds of error control, one to many degrees of freedom, all interleavings of two '
         'differently configured objects',
         why='The tests evaluate a few fixed probabilities at one correlation; the branches of the algorithms are '
         'selected by correlation, sign, infinity and dimension.',
         files=['src/wafo/gaussian.py', 'source/mvnprd', 'source/rind2007'],
         mech=[('cdfnorm2d, prbnorm2d, prbnormndpc, prbnormtndpc, prbnormnd, Rind, cdflomax', 'src/wafo/gaussian.py'),
               ('mvnprd, mvnprodcorrprb', 'source/mvnprd'), ('rindmod', 'source/rind2007')],
         oracle='one-dimensional Gauss-Legendre quadrature of conditional normal probabilities, closed forms.',
         note='Complete products of limits, correlations and dimensions, plus partitions of the plane.'),
    dict(id='P20', title='Peaks over threshold and empirical distributions are exact counts',
         statement='findpot returns precisely the peaks above the level that are the largest of their cluster and at '
         'least the minimum distance apart; decluster returns their times and values; edf and edfcnd return the '
         'empirical distribution function of every sample; reslife, dispersion_idx, extremal_idx, declustering_time '
         'and interexceedance_times return the mean excess, dispersion, extremal index and spacing of the exceedances '
         'by definition; returnperiod2sf and sf2returnperiod are inverse to each other. No routine changes the '
         'caller\'s data, whatever container they come in.',
         over=['inputs', 'configurations'],
         forall='all records over a small alphabet with ties up to length 8, all thresholds and minimum distances, '
         'sampled times, containers',
         why='Clusters, ties and thresholds equal to data values are order patterns; the tests contain one sea record.',
         files=['src/wafo/stats/core.py'],
         mech=[('findpot, decluster, edf, edfcnd, reslife, dispersion_idx, extremal_idx, declustering_time, '
                'interexceedance_times, returnperiod2sf, sf2returnperiod', 'src/wafo/stats/core.py')],
         oracle='brute force counting over the record.',
         note='Every record over the alphabet up to the length bound with every threshold and distance.'),
    dict(id='P21', title='Fitted distributions, their scores and profiles follow the data',
         statement='The link function of every distribution returns the parameter value for which the linked quantile '
         'or probability is attained; truncrayleigh and pbinom have densities, moments, entropy and random numbers of '
         'one distribution; FitDistribution finds the closed form maximum likelihood estimates where they exist, '
         'reports the log likelihood, spacing score and p-value of the parameters it returns, keeps fixed parameters '
         'fixed, does not depend on the order of the data or on earlier fits, does not change the data, and refuses '
         'impossible requests; profile likelihoods peak at the estimate and their confidence intervals contain it.',
         over=['inputs', 'configurations', 'histories'],
         forall='all linked parameters of all distributions with links over parameter lattices, all small samples, '
         'methods, fixed-parameter patterns and sequences of refits',
         why='The tests fit a few random samples and compare with stored numbers.',
         files=['src/wafo/stats/estimation.py', 'src/wafo/stats/_distn_infrastructure.py',
                'src/wafo/stats/distributions.py'],
         mech=[('FitDistribution, Profile, ProfileQuantile, ProfileProbability', 'src/wafo/stats/estimation.py'),
               ('rv_continuous.fit2, fit1, nlogps', 'src/wafo/stats/_distn_infrastructure.py'),
               ('_link functions, truncrayleigh, pbinom', 'src/wafo/stats/distributions.py')],
         oracle='the distribution functions themselves, closed form estimators, direct sums over the sample.',
         note='Complete products of parameters, linked values and samples; refit histories.'),
    dict(id='P22', title='Smoothing filters solve the problems that define them',
         statement='For every signal, window, degree and boundary mode SavitzkyGolay returns the local least squares '
         'fit or its derivative (smooth_last the same at the end of the record); smoothn and SmoothNd minimise the '
         'penalised least squares criterion in any number of dimensions, with weights, missing values, robust weights '
         'and generalised cross validation; HodrickPrescott solves its penalised problem; Kalman equals the recursion '
         'of linear filtering; HampelFilter replaces exactly the points farther from the window median than the '
         'stated number of deviations, with windows of fixed width or grown until the local scale settles. Filters can be reused and do not change their input.',
         over=['inputs', 'configurations', 'histories'],
         forall='all signals over a small alphabet up to length 9, all windows, degrees, derivatives, modes, '
         'missing-value patterns and call sequences',
         why='The tests filter one noisy curve and compare a few numbers.',
         files=['src/wafo/sg_filter/_core.py'],
         mech=[('SavitzkyGolay, SmoothNd, smoothn, HodrickPrescott, Kalman, HampelFilter', 'src/wafo/sg_filter/_core.py')],
         oracle='dense linear algebra solution of each defining problem.',
         note='Complete signals over the alphabet x every window, degree, mode and missing pattern.'),
    dict(id='P23', title='Data objects are interpolated, integrated, transformed and drawn faithfully',
         statement='For every PlotData object: eval_points is the (multi)linear interpolant and undefined outside the '
         'data, integrate and to_cdf are the exact integrals of that interpolant over any interval (with confidence '
         'limits when asked), every plot flag draws exactly the transformed data with the announced transformation, '
         'axis scales, labels and confidence limits, names and numbers of transformations correspond, numbers and '
         'level texts are written at their positions and replace earlier ones, and normal and quantile-quantile '
         'plots show the sorted sample against the right quantiles. Copies are independent, and neither evaluation '
         'nor drawing changes the data.',
         over=['inputs', 'configurations', 'histories'],
         forall='all curves over a small alphabet on several grids, all intervals between quarter points, all plot '
         'flags, surfaces, and all sequences of operations up to length 4',
         why='The tests draw one sine and look at one interpolated value.',
         files=['src/wafo/containers.py', 'src/wafo/graphutil.py', 'src/wafo/stats/plot.py'],
         mech=[('PlotData, AxisLabels, Plotter_1d, Plotter_2d, transformdata_1d, plotscale, plotflag2transform_id',
                'src/wafo/containers.py'), ('cltext, tallibing, delete_text_object', 'src/wafo/graphutil.py'),
               ('plotnorm, plotqq', 'src/wafo/stats/plot.py')],
         oracle='piecewise linear functions, normal quantiles and least squares evaluated directly; what is drawn is '
         'read back from the artists.',
         note='Complete products of curves, intervals and flags; operation histories of length <= 4 (thorough 5).'),
    dict(id='P24', title='Padua interpolation reproduces all polynomials of its degree',
         statement='For every degree n and rectangle: padua_points returns (n+1)(n+2)/2 distinct points of the '
         'rectangle on one Padua lattice; padua_fit interpolates every function at these points and reproduces every '
         'polynomial of total degree at most n; padua_val evaluates that polynomial anywhere, for points of any shape '
         'or on a mesh; padua_cubature integrates it exactly over the rectangle. Fit and cubature are linear in the '
         'function and leave their arguments unchanged.',
         over=['inputs', 'configurations'],
         forall='all products of Chebyshev polynomials (a basis) up to total degree n+2 for all n up to 12 (thorough '
         '20), several rectangles',
         why='The tests fit one degree to one function on one rectangle.',
         files=['src/wafo/padua.py'],
         mech=[('padua_points, padua_fit, padua_val, padua_cubature', 'src/wafo/padua.py')],
         oracle='Chebyshev recurrences and their integrals.',
         note='A basis of the polynomial space of every degree decides reproduction and cubature for all polynomials.'),
    dict(id='P25', title='Preprocessing of records: trends, outliers, Fourier series and histograms',
         statement='moving_average and detrendma return the trend and the remainder along any axis for any container '
         'and type; findoutliers shares the points out between spurious and good so that every missing value, '
         'constant stretch with its neighbours, jump and curvature beyond the limits is reported and nothing else; '
         'fourier returns the coefficients of the series of the record for any period; good_bins gives bins of round '
         'width covering the data and histogram outlines show the counts; getshipchar, gravity, num2pistr, '
         'check_random_state and the small containers are consistent. No input is changed.',
         over=['inputs', 'configurations'],
         forall='all records over small alphabets with missing values up to length 7, windows, limits, trigonometric '
         'polynomials, ranges and numbers of bins',
         why='The tests preprocess one record each; ties, missing values, runs at the ends and other periods are not '
         'among them.',
         files=['src/wafo/misc.py'],
         mech=[('moving_average, detrendma, findoutliers, fourier, good_bins, _histogram, getshipchar, gravity, '
                'num2pistr, check_random_state', 'src/wafo/misc.py')],
         oracle='direct sums and counting.',
         note='Every record over the alphabets up to the length bound.'),
    dict(id='P26', title='Estimated transformations, extrapolated and simulated crossing spectra',
         statement='The transformation estimated from a level crossing spectrum is the normal quantile of the '
         'normalised area under the spectrum, smoothed by the documented spline and continued linearly where asked, '
         'with the mean and standard deviation given or those of the record; a transformation estimated from a record '
         '(nonlinear, mnonlinear, hermite, ochi, linear) belongs to the crossings, the distribution or the moments of '
         'that record, follows it under scaling and shifting of the data, and is always returned together with the '
         'empirical one. Extrapolating a crossing spectrum keeps it unchanged inside the thresholds, is '
         'non-increasing outward and follows the fitted generalised Pareto or Rayleigh tail beyond, never past the '
         'end point of a bounded tail. A load simulated from a crossing spectrum has the requested length, '
         'irregularity and crossing intensities. No input is changed.',
         over=['inputs', 'configurations'],
         forall='all crossing spectra over small alphabets of counts and several grids of levels, all options, '
         'records built from them, thresholds and tails, lists of seeds',
         why='The tests estimate one transformation from one sea record; other levels, tails, options and units are '
         'not among them.',
         files=['src/wafo/objects.py', 'src/wafo/transform/core.py', 'src/wafo/transform/estimation.py'],
         mech=[('LevelCrossings.trdata, extrapolate, sim; TimeSeries.trdata', 'src/wafo/objects.py'),
               ('TransformEstimator', 'src/wafo/transform/estimation.py')],
         oracle='areas, order statistics and spline equations solved independently; binomial tests of fixed error '
         'probability for simulated loads over fixed seeds.',
         note='Complete products of spectra, grids and options.'),
    dict(id='P27', title='Densities of periods and extremes from a spectrum are those of its process',
         statement='The density of crest and trough periods (lengths for wave number spectra) at any level that '
         'to_t_pdf computes from a spectrum is the density of the excursion time of the Gaussian process with that '
         'spectrum watched on the time grid, within its reported error: troughs below a level are crests above the '
         'opposite level, it does not depend on the unit of frequency, scales with time and energy, respects a '
         'transformation of the process, integrates to one and has the mean given by the crossing rate. The joint '
         'probabilities of a maximum and the following minimum of to_mm_pdf put no minimum above its maximum, have '
         'the Rice distribution of maxima as marginal, are symmetric for a Gaussian process, do not depend on scale '
         'or on the part of the grid asked for, are mapped by a transformation, and on a coarse grid of times agree with '
         'the Rice formula for every order of integration and kind of conditioning. Normalised spectra have unit '
         'moments. The spectrum is not changed.',
         over=['inputs', 'configurations'],
         forall='all combinations of spectra, cut-off frequencies, units, levels, kinds, accuracy settings, '
         'transformations and scales of the menus in the check, up to four steps of the time grid',
         why='The tests do not evaluate these densities beyond one or two numbers; no test compares them with the '
         'process.',
         files=['src/wafo/spectrum/core.py', 'source/rind2007', 'source/mreg'],
         mech=[('SpecData1D.to_t_pdf, to_mm_pdf, normalize, to_specnorm, testgaussian', 'src/wafo/spectrum/core.py'),
               ('RIND', 'source/mreg/mregmodule.f')],
         oracle='conditional Gaussian expectations by nested Gauss-Legendre rules; the Rice density; scaling laws.',
         note='Complete products of menus; numerical comparison within the error the code reports.'),
    dict(id='P28', title='Every distribution can be fitted; the fit is optimal and its plots show it',
         statement='A fit of any of the common distribution families to data of that family succeeds from its default start, '
         'leaves the data as they were and returns parameters at least as good, by its criterion (likelihood or '
         'spacings), as those the data were made from, for any shift, scale and order of the data, and the fitted '
         'distribution evaluates at those parameters. The summary of a fit shows its method, parameters, scores '
         'and p-value; the distribution, density, probability and quantile plots show exactly the empirical and '
         'fitted values (the histogram has unit area and contains every observation); confidence intervals of '
         'quantiles and exceedance probabilities contain the estimate and are those of the profile they name; a profile plot shows the profile, its maximum, its '
         'limit and its interval, and profiles for all parameters agree with single ones. The covariance matrix and '
         'confidence limits of a fit follow from the curvature of its criterion at the estimate.',
         over=['inputs', 'configurations'],
         forall='all families, shapes, shifts, scales, sizes and arrangements of data sets, fixed parameters, '
         'methods, confidence levels and plot kinds of the menus in the check',
         why='The tests fit a handful of families to one random sample each and look at no plot.',
         files=['src/wafo/stats/estimation.py', 'src/wafo/stats/distributions.py',
                'src/wafo/stats/_distn_infrastructure.py'],
         mech=[('FitDistribution, plotfitsummary, ci_profile, ci_sf, ci_quantile', 'src/wafo/stats/estimation.py'),
               ('rv_generic.fit2, nlogps, fitstart of the families', 'src/wafo/stats/_distn_infrastructure.py')],
         oracle='witness parameters the data were constructed from; densities of scipy.stats; plotted artists read '
         'back and compared with order statistics and fitted values.',
         note='Complete products of menus; data sets are exact quantiles, so that a good fit is known to exist.'),
    dict(id='P29', title='Optional arguments mean the same left out, by name and by position',
         statement='For every public function, method and class of the reference table of the check: leaving optional arguments out is '
         'the same as giving them their documented default values, in any combination; an argument given by position '
         'in the documented order means the same as given by name; and the other documented values of an argument '
         'take effect.',
         over=['inputs', 'configurations'],
         forall='every entry of the table (about 270 callables of all parts of the library with about 800 optional arguments), '
         'every subset of its optional arguments (for the largest signatures: one, all, and all but one), every position',
         why='The tests call nearly every function with one choice of arguments; a changed default or exchanged parameters '
         'go unnoticed.',
         files=['src/wafo/misc.py', 'src/wafo/polynomial.py', 'src/wafo/interpolate.py', 'src/wafo/integrate.py',
                'src/wafo/objects.py', 'src/wafo/spectrum/core.py', 'src/wafo/spectrum/models.py', 'src/wafo/covariance',
                'src/wafo/transform', 'src/wafo/kdetools', 'src/wafo/stats', 'src/wafo/wave_theory', 'src/wafo/gaussian.py'],
         mech=[('signatures and option handling of the public functions', 'src/wafo')],
         oracle='the documented signatures, transcribed by hand in the table, and the real function called both ways.',
         note='Complete enumeration of subsets and positions over a fixed table; random generators are seeded alike.'),
    dict(id='P30', title='Requests outside the documented conditions are refused, others answered',
         statement='For every condition on arguments in the reference table of the check (ranges of parameters, shapes that '
         'have to agree, ordered or distinct abscissas, known option names, grids that have to cover the data, '
         'matrices that have to be square, correlation or positive definite): a request that violates the condition '
         'raises an error instead of returning a result, and requests that just satisfy it are answered.',
         over=['inputs', 'configurations'],
         forall='every condition of the table (about 120 over all parts of the library), every menu value inside and outside, '
         'including the boundary and violations by a single element',
         why='The tests hardly call the library with invalid input, so a lost or inverted condition is not noticed: the '
         'answer is then silently wrong.',
         files=['src/wafo/misc.py', 'src/wafo/polynomial.py', 'src/wafo/interpolate.py', 'src/wafo/integrate.py',
                'src/wafo/dctpack.py', 'src/wafo/gaussian.py', 'src/wafo/markov.py', 'src/wafo/objects.py', 'src/wafo/spectrum',
                'src/wafo/transform/models.py', 'src/wafo/covariance/core.py', 'src/wafo/kdetools', 'src/wafo/stats'],
         mech=[('argument checks of the public functions', 'src/wafo')],
         oracle='the documented conditions, transcribed by hand.',
         note='Complete enumeration of a fixed table of boundary values.'),
]
