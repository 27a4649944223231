prop('C01', 'No answer is computed from outdated settings',
     'After any sequence of setting changes, computations and queries on one object, every answer equals the answer a fresh object with the same final settings gives: a previously computed background, integral, signal or covariance is never reused once any setting it depends on has changed. '
     'A computation that needs a setting at a different value for its own duration leaves that setting as the user last wrote it, also when it fails.',
     ['histories'], 'all sequences of public calls (setters, computations, queries, failed calls) on one object of the Python interface',
     'The tests set everything once and compute once; the property is about every later interleaving of changes and computations, of which there are unboundedly many.',
     [PYX, 'src/background.c', 'src/integrals.c', 'src/corrfunc.c', 'src/multipoles.c', 'src/average_multipoles.c', 'src/covariance.c'],
     [('release of cached results in each setter', PYX + ' _free_* methods and property setters'),
      ('what each cached result reads', 'src/*.c coffe_*_init')],
     [('_background, _integral, _corrfunc, _multipoles, …', 'cached results of the C library', PYX + ' cdef class Coffe')],
     ['values returned by compute_* and the query methods'],
     'dataflow dependency sets over LLVM IR + typestate over every abstract path of the Python front end',
     'Decides every (setter, cached result) pair on the current source. Dependency sets are over-approximated by context-sensitive liveness; trusts the parsing of Cython by Cython itself.')

prop('C02', 'Settings and queries accept exactly their documented domain, atomically',
     'Every setting and every point query accepts each value of its documented type and range and rejects everything else with an exception (wrong types, out-of-range, not-a-number, unsorted or ragged sampled functions). '
     'A rejected call leaves the object exactly as it was.',
     ['inputs', 'fault_sequences'], 'all Python values passed to every setter and point query, including partial failures in the middle of a call',
     'The tests pass a handful of valid values and never check that a rejected value is rejected, or that the object is unchanged afterwards.',
     [PYX], [('range checks', PYX + ' _check_parameter'), ('setters', PYX + ' property setters and set_* methods')],
     [], ['exceptions raised by setters and queries; settings read back afterwards'],
     'interval/type-set abstract interpretation of every setter path + effect-order analysis (no effect before the last possible rejection)',
     'Decides the accepted set of each scalar, list, choice and sampled-function argument as an interval or finite set, and that effects follow the last test. The documented ranges are listed in the check.')

prop('C03', 'A setting reads back as it was written and changes nothing else',
     'After a setting was accepted, reading it gives the value written (scalars and flags exactly, lists element for element in the written order, choices by a documented name), sampled biases and power spectra evaluate to the curve that was given, and every other independent setting reads as before. '
     'Computing or querying never changes what any setting reads as.',
     ['inputs', 'histories'], 'all values of every setting, in every state of the object, followed by any query',
     'Tests read back one value of a few settings; element order, lengths, storage sizes and cross-talk between settings hold or fail depending on the value and on the previous state.',
     [PYX, 'python/coffe/coffe.pxd', 'src/common.h'], [('getters and setters', PYX + ' properties'), ('storage', 'src/common.h coffe_parameters_t')],
     [], ['property reads after property writes'],
     'symbolic term composition getter∘setter over every abstract path + mod/ref analysis of the C builders',
     'Term normalisation is syntactic/polynomial: a getter and a setter that invert each other by unmodelled arithmetic would be reported as an analysis failure, not a violation.')

prop('C05', 'The energy budget closes after any sequence of changes',
     'In a fresh object, after reading a settings file and after any sequence of setting changes, total matter equals cold dark matter plus baryons plus massive neutrinos, dark energy equals one minus matter minus photons, and the massive neutrino density equals the neutrino mass over 93.14 h squared. '
     'A change that would make dark energy negative is rejected.',
     ['inputs', 'histories'], 'all sequences of accepted and rejected changes of the cosmological parameters, through the Python interface and the settings file',
     'The tests use one cosmology set once; the budget is an invariant over every order of changes of six coupled parameters.',
     [PYX, 'src/parser.c'],
     [('coupled updates of the densities', PYX + ' omega_* / h / m_ncdm setters'), ('densities of the settings file', 'src/parser.c coffe_parser_init')],
     [('Omega0_*, h, m_ncdm', 'cosmological parameters', 'src/common.h coffe_parameters_t')],
     ['omega_m, omega_cdm, omega_baryon, omega_gamma, omega_de, m_ncdm and h read back'],
     'inductive invariant in polynomial normal form: established by forward dataflow through the C initialisers, preserved by every abstract path of the Python setters',
     'Exact arithmetic over the rationals (rounding ignored). The constant 93.14 is matched as the number in the source.')

prop('C12', 'The signal is the sum over pairs of selected contributions',
     'For every selection of contributions the correlation function, its multipoles and its redshift-averaged multipoles are the sum, over all pairs of selected contributions, of a term that depends on that pair alone; nothing selected is dropped and nothing that was not selected has any influence. '
     'Requesting only cross-correlations removes exactly the pairs of a contribution with itself. '
     'Single-point computations add up the same terms as the bulk ones.',
     ['inputs'], 'all selections of the ten contributions, with every combination of the flat-sky and cross-correlation settings and every kind of output',
     'There are 1024 selections times the flat-sky settings; the tests run the single contributions and one or two pairs.',
     ['src/functions.c', 'src/signal.c', 'src/corrfunc.c', 'src/multipoles.c', 'src/average_multipoles.c', PYX],
     [('the terms of every pair', 'src/functions.c functions_*'), ('selection of the integrals', 'src/signal.c coffe_integrate'),
      ('sum of the kinds of terms', 'src/corrfunc.c, src/multipoles.c, src/average_multipoles.c')],
     [('has_*, only_cross_correlations, has_flatsky_*', 'selection of contributions', PYX)],
     ['compute_corrfunc, compute_multipole and the bulk computations under different selections'],
     'value numbering of the inlined IR into polynomials over 0/1 indicators of the settings; grouping of the terms by the indicators they carry, composed with the driver for every pair and kind of output',
     'Exact for the algebra; numerical integration is taken to be linear in its integrand. In the flat-sky approximation of local-nonlocal terms rsd-lensing and d1-lensing are zero by definition; these are the only omissions allowed.')

prop('C13', 'Exchanging the two populations mirrors the signal',
     'Exchanging all settings of the two populations (galaxy bias, magnification bias, evolution bias) and reversing mu leaves every term of the correlation function unchanged, for every selection of contributions and flat-sky setting. '
     'Even multipoles are therefore unchanged and odd ones change sign; two identical populations have no odd correlations.',
     ['inputs'], 'all biases, separations, angles, redshifts and selections of contributions',
     'The tests use identical populations throughout, for which a wrong population or a wrong point in one half of a term is invisible or absorbed in the benchmark.',
     ['src/functions.c', 'src/background.c', 'src/signal.c'],
     [('the two halves of every cross term', 'src/functions.c functions_*'), ('Doppler factors of the populations', 'src/background.c coffe_background_init')],
     [('galaxy_bias1/2, magnification_bias1/2, evolution_bias1/2', 'populations', PYX)],
     ['compute_corrfunc and compute_multipole with exchanged populations'],
     'polynomial normal form of every pair term (value numbering over inlined IR), compared with its image under the substitution population 1<->2, mu -> -mu and relabelling of the line-of-sight variables',
     'Exact algebra; trusts that the two-dimensional table of renormalisation integrals is symmetric in its arguments.')

prop('C14', 'Multipoles are Legendre projections of the correlation function',
     'Every multipole is (2l+1)/2 times the integral over mu from -1 to 1 of the Legendre polynomial times the correlation function with the same settings at the same redshift and separation, at any order l and for every selection of contributions. '
     'Averaged multipoles are the same average weighted over the part of the redshift window in which both points stay inside it. '
     'Terms integrated along the line of sight cover the whole line of sight from the observer to the source, and each tabulated result is computed at its own redshift, separation, angle and order.',
     ['inputs'], 'all separations, angles, redshifts, orders l, selections of contributions, kinds of output and quadrature settings',
     'The tests compare some multipoles with stored numbers at a few points and orders; the relation between the outputs is never tested.',
     ['src/signal.c', 'src/functions.c', 'src/corrfunc.c', 'src/multipoles.c', 'src/average_multipoles.c', 'src/common.c'],
     [('integrals over angle, redshift and the line of sight', 'src/signal.c coffe_integrate'), ('projections of the flat-sky lensing terms', 'src/functions.c'), ('quadrature wrappers', 'src/common.c coffe_integrate_*')],
     [], ['compute_corrfunc, compute_multipole, the bulk computations and the output files'],
     'value numbering of the inlined IR: each quadrature call is resolved to integrand, limits and parameter block, normalised to a polynomial and compared with the defining integral',
     'Exact algebra on the integrands, orders 0..8 enumerated. The relation between flat-sky lensing multipoles and the flat-sky lensing correlation is by their respective closed forms and only the projection weight is decided.')

prop('C15', 'Background quantities follow from one expansion history',
     'Expansion rate, scale factor, conformal rate and its derivative, comoving distance, growth factor and growth rate all derive from one Friedmann equation in which every component that the budget contains (cold dark matter, baryons, massive neutrinos, photons, dark energy with its equation of state) enters with its own dilution. '
     'At redshift zero the expansion rate is the Hubble constant, the distance is zero and the growth factor is one; the queries of the Python interface and the distance-redshift inversion return these same quantities.',
     ['inputs'], 'all cosmologies and redshifts',
     'The tests compare numbers for one cosmology without massive neutrinos; a component forgotten in one of the formulas is invisible there.',
     ['src/background.c', PYX],
     [('expansion rate, distance, growth and Doppler factors', 'src/background.c coffe_background_init'), ('queries', PYX + ' hubble_rate, comoving_distance, growth_factor …')],
     [], ['hubble_rate, comoving_distance, growth_factor, growth_rate, scale_factor and the conformal rates'],
     'value numbering of the inlined IR: integrands, ODE right-hand side, table columns and splines in normal form, decided by exact rational identities against the Friedmann equation and its derivative',
     'Formulas are decided exactly; the error of ODE solver, quadrature and interpolation is not (C90, C92).')

prop('C16', 'Local terms are the correlations of their published sources',
     'For every pair of the contributions evaluated at the source (density, redshift-space distortion, Doppler, velocity and three potential terms) the full-sky term is the exact two-point function of the two linear sources at the two points, for all redshifts, separations, angles and biases. '
     'With the flat-sky approximation each such term is the distant-observer limit of the same correlation.',
     ['inputs'], 'all redshifts, separations, angles, biases and cosmologies, for every pair of local contributions',
     'Benchmarks were generated with the same formulas and hold each contribution alone; a wrong coefficient in a cross term, or one that is small at the benchmark point, passes.',
     ['src/functions.c'], [('closed forms of the local pairs', 'src/functions.c functions_nonintegrated')],
     [], ['compute_corrfunc and compute_multipole for any selection of local contributions'],
     'value numbering of the inlined IR into polynomials over basis Bessel moments, compared as a rational function with the correlation generated symbolically from one operator definition per source',
     'Exact algebra. The definition of each source (in terms of the potential of the growing mode) is written down once in lib/oracle.py; that the tables hold the Bessel moments is assumed here.')

prop('C17', 'Line-of-sight terms are the correlations of their published sources',
     'For every pair that contains lensing, time delay or integrated Sachs-Wolfe the integrand along the line of sight is the exact two-point function of the two linear sources, with the factor of each along its own line of sight, for all redshifts, separations, angles and biases. '
     'The special forms used on the line of sight and where two points coincide are the values of the same correlation there.',
     ['inputs'], 'all redshifts, separations, angles, biases, cosmologies and positions along the line of sight',
     'The tests run these contributions alone (and one selection of all, where density dominates), at a few points, never at the special positions.',
     ['src/functions.c'], [('integrands of the nonlocal pairs', 'src/functions.c functions_single_integrated, functions_double_integrated')],
     [], ['compute_corrfunc and compute_multipole for any selection with nonlocal contributions'],
     'value numbering of the inlined IR into polynomials over basis Bessel moments, compared as a rational function with the correlation generated symbolically from one operator definition per source; special branches resolved by assumptions on the distances',
     'Exact algebra, full sky. Within 0.1 % of the line of sight the code uses values on it, which are compared there. The regularised moment is taken together with its renormalisation.')

prop('C18', 'The flat-sky lensing terms are limits of the full expressions',
     'With the flat-sky settings for lensing, the density-lensing and lensing-lensing correlation functions are the short-distance (Limber) limits of the full two-point functions, with the same biases, selection effects and redshift factors. '
     'Their multipoles, which the code writes in closed form, are the Legendre projections of those correlation functions for every even multipole up to eight.',
     ['inputs'], 'all redshifts, separations, angles, biases, cosmologies, positions along the line of sight, and the even multipoles up to eight',
     'The tests compare single points with stored values made by the same code; a factor in one branch per multipole and pair is not seen.',
     ['src/functions.c', 'src/signal.c'], [('flat-sky terms', 'src/functions.c functions_flatsky_*'), ('weight of a multipole', 'src/signal.c coffe_integrate')],
     [('has_flatsky_nonlocal, has_flatsky_local_nonlocal', 'flat-sky settings', PYX)], ['compute_corrfunc and compute_multipole with flat-sky lensing'],
     'value numbering of the inlined IR into polynomials over tables of moments; the tables and the oracle are expanded as series in the separation and compared coefficient by coefficient',
     'Exact series to order 14 in the separation. Density-lensing is averaged over the order of the points, as the code does; odd multipoles are documented as not implemented and are not claimed.')

prop('C19', 'Every table of the power spectrum holds the integral it is read as',
     'Each table kept for the separations holds the Fourier-Bessel integral of the power spectrum of its two orders, multiplied by the power of the separation its readers expect: at zero, at small and at large separations, with the renormalisation of the divergent one. '
     'Every table that a requested contribution reads is made for the settings that request it.',
     ['inputs'], 'all power spectra, separations, contributions, flat-sky settings and multipoles',
     'A wrong value at zero or small separations or a table missing for one combination of settings shows only when that branch is reached; the tests use a handful of combinations.',
     ['src/integrals.c', 'src/functions.c', PYX], [('tables', 'src/integrals.c coffe_integrals_init'), ('lookup', 'src/integrals.c coffe_find_integral')],
     [('coffe_integral_array_t', 'tables of the power spectrum', 'src/integrals.h')], ['integral', 'compute_corrfunc, compute_multipole'],
     'value numbering of the inlined IR, per-table instantiation of the table generator, series of the Bessel functions as oracle, and reachability of each lookup under the flags of the settings',
     'Tables of half-integer order are claimed for even multipoles; the transform library (FFTlog) and the quadratures are trusted to compute the integral whose integrand and parameters they are given.')

prop('C20', 'Every covariance element is the Gaussian covariance its coordinates name',
     'Each element of the covariance of the multipoles, and of the redshift-averaged ones, is the sum of the cosmic variance, the mixed and the Poisson terms of the Gaussian covariance of the two multipoles, separations and redshift its coordinates name, each term present exactly when it is switched on. '
     'Every requested combination appears once, whichever integration method computes it and whichever of the four populations are the same; with pixels of finite size the terms are the averages over them.',
     ['inputs'], 'all separations, redshifts, densities, bias models, population choices and switches; multipoles up to 8 (6 with pixels of finite size)',
     'Cross-populations, unequal multipoles and the second integration method each take their own path; the tests compare one population, one method and a handful of elements.',
     ['src/covariance.c', PYX], [('covariance', 'src/covariance.c coffe_covariance_init')],
     [('coffe_covariance_array_t', 'table of the covariance', 'src/covariance.h')], ['compute_covariance_bulk, compute_average_covariance_bulk'],
     'value numbering of the inlined IR with symbolic contents of the heap arrays, one instance per pair of multipoles, method and population pattern, compared with the Gaussian covariance written independently',
     'Relations between separations and pixels that only hold for real separations (a pixel that reaches zero) are outside; the quadratures and the two-dimensional transform are trusted to compute the integral they are given.')

prop('C09', 'Results do not depend on the number of threads',
     'Iterations of every parallel loop are independent: none reads or writes memory that another one writes, and nothing they call uses state common to the process unless one lock protects it.'
     ' So every result is the same for any number of threads and any schedule, up to reproducible libraries.',
     ['schedules', 'inputs'], 'all numbers of threads, schedules, settings and integration methods',
     'A race shows only in some schedules and rarely changes a digit the tests look at; they run on the default number of threads, once.',
     ['src/common.c', 'src/covariance.c', 'src/integrals.c', 'src/corrfunc.c', 'src/multipoles.c', 'src/average_multipoles.c'],
     [('parallel loops', 'src/*.c #pragma omp parallel for'), ('what they call', 'src/common.c coffe_integrate_*, coffe_interp_spline')],
     [], ['every bulk computation and the tables of integrals'],
     'interprocedural points-to and effect analysis of the OpenMP IR: every access of the call tree of each parallel region classified as private, indexed by the iteration, or shared; index disjointness by value numbering',
     'Distinct pointer arguments are taken to be distinct objects; which library routines share state is a table (GSL, FFTW, libc). No claim about the order of floating-point sums inside a library.')

prop('C10', 'Bulk results list every combination once with its own value',
     'The bulk computations return one element for every combination of the requested coordinates, once, in the documented coordinates, and its value is the one the single computation returns there: the sum of the local, the once and the twice integrated part of the same kind of output.'
     ' Each Python element shows every coordinate and the value under their own name.',
     ['inputs', 'histories'], 'all lists of redshifts, separations, angles and multipoles, and every order of computations',
     'Lists of unequal lengths, transposed coordinates or a kind of output left over from an earlier computation show only for particular shapes and sequences; the tests use one list each.',
     ['src/corrfunc.c', 'src/multipoles.c', 'src/average_multipoles.c', 'python/coffe/representation.py', PYX],
     [('tables of results', 'src/corrfunc.c coffe_corrfunc_init, src/multipoles.c coffe_multipoles_init, src/average_multipoles.c coffe_average_multipoles_init'), ('classes of results', 'python/coffe/representation.py'), ('front end', PYX)],
     [('output_type', 'kind of output being computed', 'src/common.h')],
     ['compute_corrfunc_bulk, compute_multipoles_bulk, compute_average_multipoles_bulk, compute_covariance_bulk, compute_average_covariance_bulk, compute_corrfunc, compute_multipole'],
     'value numbering of the inlined IR with symbolic contents of the result arrays (index -> coordinates and value), symbolic execution of every path of the front end, and the name-to-field map of the classes',
     'The value of each part is the subject of other properties. The elements of the covariance themselves are the subject of C20; here only how they are shown.')

prop('C04', 'Settings survive being written to a file and read back',
     'An object read from a settings file that another object has written has every setting and every sampled bias of that object, and the same holds for the dictionary of parameters handed to the constructor or the bulk setter. Each option of a file sets the setting of its name and no other, with the type that setting takes, and the settings that depend on one another (the parts of the matter budget) end up as saved.'
     ' Options of older versions set what replaced them, unless the present option is in the file too.',
     ['inputs', 'histories'], 'all settings, all their values, and all subsets of options in a file',
     'The tests write one object and compare a handful of settings; a setting that is not saved or read with the wrong type or in the wrong order is not among them.',
     [PYX], [('settings files', PYX + ' from_file, to_file'), ('dictionary', PYX + ' parameters, set_parameters'), ('readers of lists', PYX + ' CoffeConfigParser')],
     [('_parameters', 'the settings', PYX)], ['Coffe.from_file', 'Coffe.to_file', 'Coffe.parameters', 'Coffe.set_parameters', 'the properties of the read object'],
     'partial evaluation of the reading and writing code over the syntax tree for given option names and symbolic contents; type matching of readers and setters; composition of the matter-budget setters as polynomials',
     'The text of a number is taken to be read back exactly (Python repr); validation of the values is the subject of C02. A supplied power spectrum is not part of the file.')

prop('C21', 'A supplied power spectrum is the one that is used',
     'A power spectrum supplied by the user is kept, unchanged and in both of its tables, until a setting of the cosmology or of the spectrum itself changes; no query, computation, or other setting replaces or drops it. If it is given at a redshift above zero it is divided by the square of the growth factor there, and the linear spectrum returned at a redshift is the supplied one times the squared growth factor (or the product of two, for two redshifts).',
     ['inputs', 'histories'], 'all sequences of setters, queries and computations, all spectra and redshifts',
     'Losing the spectrum needs a particular sequence of calls; the tests set the spectrum last and never ask for a redshift.',
     [PYX, 'src/parser.c'], [('supply', PYX + ' set_power_spectrum_linear'), ('release', PYX + ' _free_power_spectrum, _free_computed, _free_except_parameters'), ('queries', PYX + ' power_spectrum, cross_spectrum')],
     [('_power_spectrum_flag', 'there is a spectrum', PYX)], ['power_spectrum, cross_spectrum, k_min, k_max, compute_*'],
     'symbolic execution of every path of the front end (typestate of the spectrum against the settings written), polynomial comparison of the stored values and of the values returned, effects of the library functions on the tables',
     'Which settings the spectrum depends on is taken from the code that would compute it with CLASS; interpolation between the supplied points is trusted.')

prop('C22', 'Everything a computation reads has been prepared before',
     'Whatever a query or computation reads - background, power spectrum, tables of its integrals, results - has been computed before it is read, on every path, in the order in which the parts depend on each other, from whatever state the object is in.',
     ['histories'], 'all states of the object (any combination of parts present or released) and all queries and computations',
     'The tests call the computations on fresh objects or in one order.',
     [PYX], [('queries and computations', PYX)], [('_background.flag, _integral.size, _power_spectrum_flag', 'what is present', PYX)],
     ['power_spectrum, cross_spectrum, integral, comoving_distance, hubble_rate, growth_factor, compute_*'],
     'symbolic execution of every path of the front end with a typestate (absent, ready, unknown) per part, and the sets of locations each library function reads, from the IR',
     'A spectrum that cannot be computed because the library was built without CLASS is outside (it ends the process).')

prop('C11', 'Every option of a settings file reaches the parameter it names',
     'On the command line, for every kind of output, each option given in the settings file sets exactly the parameter it documents, with its documented type and interpretation, lists keep their order and length, and no other parameter depends on it. An option that is not given either ends the program or leaves its parameter at the default. The program then runs, on these parameters, the computations this kind of output needs and writes the result of them, with the number of threads asked for.',
     ['inputs'], 'all settings files (any values of the options), all kinds of output, switches on and off, any single option missing',
     'No test reads a settings file through the program.',
     ['src/parser.c', 'src/main.c'], [('settings reader', 'src/parser.c coffe_parser_init'), ('main program', 'src/main.c main')],
     [('coffe_parameters_t', 'what the options become', 'src/common.h')], ['result files, exit status of coffe -s FILE'],
     'abstract interpretation of the reader over terms in the options (one run per kind of output, switch setting and missing option), compared with a table of the documented meaning of every option; typestate of released and unset memory',
     'Built without CLASS, as here: options that only exist with it are not covered. Values are not validated here.')

prop('C23', 'Result files contain every result, in the columns their header names',
     'For every kind of output the command line writes one file with the documented name, listing every element of the result once, one line each, in columns that are named correctly and in order by the header, with the contributions that were selected. The requested background quantities are written under their names in the order asked for, and the settings are copied next to the results.',
     ['inputs'], 'all results (any size), kinds of output, selected contributions and background quantities',
     'No test runs the program or reads its files.',
     ['src/output.c'], [('writer', 'src/output.c coffe_output_init')],
     [('files', 'what is written', 'src/output.c')], ['corrfunc.dat, multipoles.dat, average_multipoles.dat, covariance_*.dat, background.dat, settings.cfg'],
     'abstract interpretation of the writer per kind of output and contribution: evaluated file names, headers and formats, the field behind every written value, bounds and step of the loop over the result',
     'Failures of the file system are outside.')

prop('C90', 'Predictions are numerically accurate',
     'Correlation functions, multipoles and covariances agree with an independent evaluation of the published formulas to the requested precision.',
     ['inputs'], 'all cosmologies, redshifts and separations', 'The tests compare against stored benchmarks at single points.',
     ['src/functions.c', 'src/integrals.c'], [('quadrature', 'src/common.c coffe_integrate_*')],
     na='A statement about truncation and rounding error of adaptive quadrature, FFTlog and splines on runtime data; no static argument in reach bounds it.')
prop('C91', 'Covariance matrices are positive semi-definite',
     'Every covariance matrix returned for a physically valid survey is positive semi-definite.',
     ['inputs'], 'all survey configurations', 'The tests compare a few entries with benchmarks.',
     ['src/covariance.c'], [('covariance integrals', 'src/covariance.c')],
     na='Depends on the numerical values of oscillating integrals at runtime; the algebraic part (symmetry) is a separate property.')
prop('C92', 'The background solution satisfies the Friedmann and growth equations',
     'Distances, expansion rate and growth solve their defining differential equations to the precision of the solver for every cosmology.',
     ['inputs'], 'all cosmologies', 'The tests compare with stored benchmarks for one cosmology.',
     ['src/background.c'], [('ODE integration', 'src/background.c coffe_background_init')],
     na='The error of an adaptive ODE solver depends on runtime values; a static rule can only compare the formulas, which is claimed separately where it is decidable.')
prop('C93', 'Interpolated tables are only evaluated inside their domain',
     'No spline of the library is evaluated outside the range it was built on, for any accepted input.',
     ['inputs'], 'all accepted settings and query points', 'The tests use interior points.',
     ['src/common.c'], [('spline evaluation', 'src/common.c coffe_interp_spline')],
     na='Domains (maximal separation, redshift of the sampled background) are real-valued functions of the cosmology computed at runtime; interval bounds over them are not derivable from the source.')
