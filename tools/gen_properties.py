import json
P=[]
def add(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
D="dcor/_dcor.py"; I="dcor/_dcor_internals.py"; N="dcor/_dcor_internals_numba.py"; A="dcor/_fast_dcov_avl.py"; M="dcor/_fast_dcov_mergesort.py"; U="dcor/_utils.py"; DI="dcor/distances.py"; E="dcor/_energy.py"; PD="dcor/_partial_dcor.py"; R="dcor/_rowwise.py"; H="dcor/_hypothesis.py"; HO="dcor/homogeneity.py"; IN="dcor/independence.py"
add("C01","Distance covariance estimators equal their mathematical definition",
"For every pair of finite samples of equal size, the squared distance covariance and its square root equal the value given by the double-centred distance matrices, and the unbiased squared distance covariance the one given by the U-centred matrices, up to floating point rounding. This holds for every available method, compile mode, admissible exponent, dimension, sample size and memory layout of the arrays, including ties, sorted data and sizes around powers of two.",
["inputs","configurations"],"All samples of equal size (n >= 1 biased, n >= 4 unbiased), dimensions, exponents in (0, 2], methods and compile modes.",
"The tests compare a few fixed or random samples of a handful of sizes; the fast algorithms have power-of-two block structure, tie handling and index bookkeeping whose errors need particular sizes, orders or multiplicities.",
[D,I,N,A,M],[("naive terms",I+":_dcov_terms_naive,_dcov_from_terms"),("AVL terms",A+":_dyad_update,_partial_sum_2d,_distance_covariance_sqr_terms_avl"),("merge sort terms",M+":_compute_weight_sums,_compute_aijbij_term,_compute_row_sums")],
["results of distance_covariance_sqr, distance_covariance, u_distance_covariance_sqr"])
add("C02","All methods and compile modes give the same statistics",
"For random variables, every statistic (covariance, correlation, bundled statistics, biased and bias-corrected, affinely invariant) has the same value, up to rounding, whichever method (automatic, AVL, merge sort, naive) and compile mode is chosen, and whether a variable is passed as a vector or as a single column. The automatic method is always available for valid input and agrees with the explicit ones, also for samples of more than two million instances.",
["inputs","configurations"],"All samples and every combination of method and compile mode that is implemented.",
"Tests compare methods on a few samples; a dispatch or kernel error that shows only for some size, tie pattern, statistic or mode escapes them.",
[D,A,M,N,I],[("method dispatch",D+":DistanceCovarianceMethod,_dcov_terms_auto,_can_use_fast_algorithm"),("implementation tables",A+":impls_dict; "+M+":impls_dict")],
["results of every estimator under every method and compile mode"])
add("C03","Bundled statistics, correlations and roots are mutually consistent",
"Every field of a bundled statistics result equals the result of the corresponding individual function; each variance is the covariance of the sample with itself; each correlation is the covariance divided by the square root of the product of the variances, and zero when a variance is zero; and each non-squared statistic is the square root of the squared one, negative values taken as zero. Bundles unpack in the order covariance, correlation, variance of x, variance of y.",
["inputs","configurations"],"All samples, exponents, methods and compile modes, including constant samples.",
"The tests check these links on isolated samples and mostly with the default method.",
[D,I,U],[("bundled computation",D+":_DcovAlgorithmInternals.stats_sqr"),("square root with clipping",U+":_sqrt"),("variance terms of the fast algorithms",A+", "+M+": return_var_terms")],
["fields of Stats and results of the individual functions"])
add("C04","Range, symmetry, zeros and ones of the dependence measures",
"Distance covariance and variance are non-negative, the biased distance correlation lies in [0, 1], the bias-corrected one in [-1, 1], and |dCov^2| never exceeds the root of the product of the variances. All of them are symmetric in their two arguments; the correlation of a non-constant sample with itself or with a similarity of it is one, and with a constant sample exactly zero.",
["inputs","configurations"],"All samples (rounding excepted), all methods, compile modes and exponents.",
"Universal inequalities and symmetries over all inputs; the tests evaluate a few values.",
[D,I,A,M],[("zero denominator",D+":stats_sqr"),("translation to one of the samples",A+", "+M+": origin")],
["results of the estimators with swapped, repeated, transformed and constant arguments"])
add("C05","Statistics follow translations, rotations, scale and sample order",
"Reordering the instances of all samples jointly changes no statistic; translating, rotating or reflecting a sample changes no distance statistic; scaling a sample by c multiplies its distances by |c| to the exponent, so that covariances scale accordingly and correlations do not change. This holds for distance covariance and correlation, partial ones, the t statistic and the energy statistics.",
["inputs","configurations"],"All samples, permutations of the instances, similarities of the sample space, methods and compile modes.",
"A relation between two executions over all transformations; the tests have a few translations and no reorderings.",
[D,I,A,M,E,PD,DI],[("sorting and index permutation",A+":_distance_covariance_sqr_terms_avl_impl; "+M+":argsort"),("distances",DI)],
["results before and after the transformation"])
add("C06","Affinely invariant distance correlation",
"The affinely invariant distance correlation of two samples equals the distance correlation of the samples standardised by the inverse square root of their covariance matrices, so any invertible affine map of either sample leaves it unchanged; it lies in [0, 1], is one for an affine image of the sample itself and zero for constant variables. For random variables it equals the usual distance correlation, whatever the method and compile mode.",
["inputs","configurations"],"All samples with a well-conditioned covariance matrix, all invertible affine maps, methods and compile modes.",
"The tests check a couple of affine maps of one sample.",
[D,I],[("scaling by the inverse root covariance",I+":_mat_sqrt_inv,_af_inv_scaled"),("wrappers",D+":distance_correlation_af_inv_sqr,distance_correlation_af_inv")],
["results of both affinely invariant functions"])
add("C07","Pairwise distances are the exact Euclidean distances",
"The pairwise distances of x (or of x and y) form a matrix whose entry (i, j) is the Euclidean distance between the i-th point of x and the j-th point of x (or y), raised to the exponent, accurate relative to the magnitude of the coordinates. The matrix of one set is symmetric with zero diagonal, shapes are n x n and n x l also when n differs from l, and close or coincident points lose no accuracy.",
["inputs","configurations"],"All finite point sets, dimensions, exponents, number types and memory layouts.",
"The tests check square matrices of a few points.",
[DI,U],[("SciPy path",DI+":_pdist_scipy,_cdist_scipy"),("generic path",DI+":_cdist_naive"),("choice of path",U+":_can_be_numpy_double")],
["entries of the returned matrix"])
add("C08","Centring, products and projections obey the U-statistics algebra",
"Double centring and U-centring of a symmetric matrix give the entries of their formulas (rows of the result sum to zero, the U-centred diagonal is zero), never modify the input unless it is the output buffer, and fill and return exactly the output buffer given. The mean and U-products are the normalised sums of entrywise products, the projection onto a matrix is the multiple of it with equal inner product, the complementary projection is the remainder and orthogonal to it, and both behave as the zero and identity maps for the null matrix.",
["inputs"],"All symmetric matrices (n >= 3 for U-centring, n >= 4 for U-products), output buffers and aliasing patterns.",
"The tests cover a few fixed matrices, and aliasing only in an example.",
[I],[("centring",I+":double_centered,u_centered,_float_copy_to_out,_symmetric_matrix_sums"),("products and projections",I+":mean_product,u_product,u_projection,u_complementary_projection")],
["entries of the results, identity and contents of the buffers"])
add("C09","Partial distance covariance and correlation",
"Partial distance covariance equals the U-product of the projections of the U-centred distance matrices of x and y on the orthogonal complement of that of z, and partial distance correlation equals its normalised form, in [-1, 1], zero when a denominator vanishes. Both are symmetric in x and y, equal the unbiased distance covariance or correlation for constant z and vanish when x or y is constant; the partial covariance vanishes when z equals x, and the partial correlation of a sample with itself is one.",
["inputs"],"All triples of samples with at least four instances and any dimensions.",
"The tests compare a few fixed triples.",
[PD,I],[("projection form",PD+":partial_distance_covariance"),("correlation form",PD+":partial_distance_correlation"),("U-centred distances",I+":_u_distance_matrix")],
["results of both functions"])
add("C10","Energy distance and its test statistic",
"The energy distance of two samples is twice the average cross distance minus the two average internal distances, over all pairs for the V-statistic and over different instances for the U-statistic, with the user's averaging function and exponent; the two-sample statistic multiplies it by nm/(n+m) and the statistic of several samples is the sum over all pairs of samples. It is symmetric, zero for equal samples, non-negative for V-statistics, and accepts every documented form of the estimator option.",
["inputs","configurations"],"All samples of any (different) sizes and dimensions, exponents, averages and estimator options.",
"The tests check a few small samples, mostly of equal sizes.",
[E,HO],[("distance matrices to energy",E+":_energy_distance_from_distance_matrices,_get_flat_uppertriangular"),("several samples",HO+":_energy_test_statistic_multivariate_from_distance_matrix,energy_test"),("option parsing",E+":EstimationStatistic")],
["energy_distance, energy_test_statistic, energy_test().statistic, arguments passed to the average callback"])
add("C11","Permutation tests report the right statistic and p-value",
"The independence, partial independence and homogeneity tests return the documented statistic of the original samples and the p-value (k + 1)/(R + 1), where R is the number of resamples and k counts the resamples whose statistic, recomputed for the drawn permutation of the instances, exceeds the observed one. The permutation is applied to whole instances and consistently to rows and columns, each resample uses a new complete permutation drawn from the given generator, and without resamples the p-value is one.",
["inputs","histories","configurations"],"All samples, exponents, numbers of resamples, random generators and drawn sequences of permutations.",
"The tests compare p-values with coarse thresholds for fixed seeds; a wrong permutation, off-by-one count or stale statistic leaves them green.",
[H,IN,HO],[("permutation loop",H+":_permutation_test_with_sym_matrix,_permuted_statistic"),("statistics",IN+":distance_covariance_test,partial_distance_covariance_test; "+HO+":energy_test")],
["permutations drawn from an instrumented generator, HypothesisTest fields"])
add("C12","Tests are reproducible: seed, number of jobs, backend, random state",
"With the same seed or an equal random generator state, a test returns the same result whatever the number of jobs and the parallel backend, in the calling thread or not. A generator object passed by the user is the one consumed (the same amount in every configuration, so later draws coincide), an integer seed leaves every global generator untouched, and consecutive tests on one generator use fresh permutations.",
["schedules","configurations","histories"],"All numbers of jobs, joblib backends and schedules of the workers, seeds and generator types.",
"The tests run one seed with one job; the property compares executions under different schedules.",
[H,U,IN,HO],[("parallel map",H+":Parallel"),("random state",U+":_random_state_init")],
["results, generator states before and after"])
add("C13","Distance correlation t-test",
"The t statistic equals the bias-corrected distance correlation r of the samples scaled as sqrt(v - 1) r / sqrt(1 - r^2) with v = n(n - 3)/2, and the p-value of the test is the upper tail probability of Student's t distribution with v - 1 degrees of freedom. Perfect dependence gives a huge statistic and a p-value near zero, a constant sample gives statistic zero and p-value one half, and the p-value always lies in [0, 1].",
["inputs"],"All pairs of samples with at least four instances.",
"The tests check a few samples against tabulated values.",
[IN],[("statistic",IN+":distance_correlation_t_statistic"),("p-value",IN+":distance_correlation_t_test")],
["results of both functions"])
add("C14","Rowwise computation equals the element-by-element computation",
"For every function and every two lists of samples, entry i of the rowwise result equals the function applied to the i-th samples with the same options, in the optimised, parallel and naive modes, for any number of rows, number of threads, shape, number type and mixture of shapes. The result does not depend on the neighbouring rows or on the schedule of the threads, and the optimised mode computes or refuses but never answers differently. Lists of different length are refused, and empty lists give an empty result.",
["inputs","configurations","schedules"],"All lists of samples, rowwise and compile modes, numbers of threads and schedules.",
"The tests compare a few lists of equal vectors of doubles in one thread configuration.",
[R,A],[("fallback decision",R+":rowwise,_generate_rowwise_distance_covariance_sqr"),("parallel kernels",A+":_generate_rowwise_internal"),("correlations from stacked covariances",R+":_generate_rowwise_distance_correlation_sqr")],
["entries of rowwise results under 1, 2 and 8 threads"])
add("C15","Calls are pure: no input change, no aliasing, no hidden state",
"No function modifies its input arrays, their buffers or flags (except an output buffer given for that), keeps a reference to them in its result, or changes the global random state, floating point error handling or warning filters. The result of a call is a function of its arguments only: it is bit-identical when repeated after any history of other calls, failed calls, or reuse of the same memory for other data.",
["histories","inputs"],"All sequences of API calls, including failing ones and in-place changes of the data between calls.",
"The tests call each function in isolation and check only returned values.",
[D,I,U,A,M,R,H,HO,IN,PD,E,DI],[("copies",I+":_float_copy_to_out; "+U+":_sqrt"),("read-only kernel signatures",N),("absence of caches keyed by identity","whole package")],
["argument bytes, flags and memory overlap, global generator and error state, repeated results"])
add("C16","Compiled kernels never touch memory outside their arrays",
"No call with any arguments, valid or not, reads or writes outside the arrays involved or depends on uninitialised memory, whatever the sizes, strides, alignment and values (ties, infinities, NaN, extreme magnitudes). Compiled results equal the interpreted ones, and invalid combinations of sizes end in an exception and never in a crash.",
["inputs","configurations"],"All arrays passed to compiled functions, valid or not.",
"The kernels are compiled without bounds checks; an out-of-bounds access usually returns plausible numbers and no test notices it.",
[A,M,N,R],[("index arithmetic of the dyadic sums",A+":_dyad_update,_partial_sum_2d"),("merge buffers",M+":_compute_weight_sums"),("size checks before kernels",A+", "+M+":_check_same_n_elements; "+R)],
["guard pages around arrays, numba bounds checks, poisoned allocations, Valgrind"])
add("C17","Concurrent calls from several threads behave as if run alone",
"Calls of any functions made at the same time from several threads return the same results as when made one after another, raise nothing, do not block for ever and leave no lasting change in the state of the process. This includes calls on shared input arrays, parallel rowwise computations, tests with generators of their own and calls with different options.",
["schedules","inputs"],"All interleavings of concurrent calls of the public functions.",
"The tests are sequential.",
[D,I,A,M,R,H,U],[("no mutable module state","whole package"),("parallel kernels",A+":_generate_rowwise_internal"),("joblib map",H)],
["results of threads under injected yields and forced switch intervals, against sequential results"])
add("C18","Invalid input is refused, odd exponents warn, NaN is not hidden",
"Samples of different sizes, points of different dimension, arrays of more than two dimensions, too few samples for a method, unknown methods, estimator names and compile modes and unsupported combinations of method, exponent, dimension, compile or rowwise mode raise an exception and never return a value. Exponents outside (0, 2) cause a warning while valid calls cause neither warning nor exception, and NaN in a sample makes the statistics that depend on it NaN and no others.",
["inputs","configurations"],"All invalid and valid combinations of arguments over the public functions.",
"The tests check a few refusals of a few functions.",
[D,I,A,M,E,R,DI,PD,U],[("size check",I+":_check_same_n_elements"),("exponent checks",I+":_check_valid_dcov_exponent; "+E+":_check_valid_energy_exponent"),("shape checks",U+":_transform_to_1d,_transform_to_2d"),("mode checks",A+", "+M+":impls_dict")],
["exceptions, warnings and NaN of every public function"])
add("C19","Arrays of other libraries of the array API standard work alike",
"For arrays of a namespace that implements the array API standard, strictly, every estimator, distance, centring function, projection and test gives the same values as for NumPy arrays with the same contents, without warnings. Results of the estimators and matrix functions are arrays of that same namespace.",
["inputs","configurations"],"All samples and functions, with a strict implementation of the standard.",
"The tests cover a subset of the functions on fixed samples.",
[U,I,D,DI,E,HO,IN,H],[("namespace lookup",U+":array_namespace"),("portable operations",I+", "+DI+", "+H)],
["results and their types for array_api_strict arrays"])
add("C20","Number types never cost accuracy",
"Samples of integers, booleans or floats narrower than double, of any width and byte order and also mixed, give the same statistics as the same values in double precision, without overflow or wrap-around. Wider or exact types are not narrowed: differences below double precision are kept for extended floats, and the default method is exact for fractions and keeps the precision of decimals.",
["inputs","configurations"],"All values representable in each number type, all functions and methods.",
"The tests use one small sample per type, whose values neither wrap nor round.",
[U,DI,D,A,M,R],[("conversion",U+":_can_be_numpy_double,_to_double"),("generic arithmetic",DI+":_cdist_naive; "+A+" (interpreted)"),("square root of objects",U+":_sqrt")],
["results for every number type against an extended-precision and an exact reference"])
add("C21","Fast methods need quasi-linear time and linear memory",
"For random variables with exponent one, the automatic, AVL and merge sort methods of every statistic, and the rowwise computation, use memory proportional to the number of instances and time proportional to n log n. This holds for every order and repetition pattern of the data (sorted, reversed, constant, many ties), for columns as well as vectors and for integer as well as floating point samples.",
["inputs","configurations"],"All sample sizes and data patterns, for the fast methods in compiled and interpreted modes.",
"The tests use tiny samples; a fall-back to the quadratic algorithm gives the same values.",
[D,A,M],[("choice of the fast algorithm",D+":_dcov_terms_auto,_can_use_fast_algorithm"),("dyadic sums",A),("merge sort",M)],
["peak of allocated memory and CPU time at n and 16 n"])
add("C22","Permutation tests keep their level and detect dependence",
"If the null hypothesis is true and statistics have no ties, the p-values of the permutation tests are uniform on {1, ..., R+1}/(R+1), because all permutations of the pooled or paired instances are equally likely, so that a test of level alpha rejects with probability at most alpha. Strong dependence of any form (linear or not) and clearly different distributions are detected, and resampled statistics that all equal the observed one are no evidence against the null hypothesis.",
["inputs","histories"],"All distributions of the data and all streams of the random generator.",
"A statement about the distribution of results over many runs; the tests run one seed.",
[H,IN,HO],[("permutations",H+":_permutation_test_with_sym_matrix"),("statistics",IN+", "+HO)],
["distribution of p-values over batches of tests; permuted blocks seen by the average callback"])
add("C23","Results and options keep their documented form",
"Every estimator and test statistic is a single real number and every p-value a single float; a bundle has four of them and cannot be changed, and bundles, test results and options survive copying and pickling unchanged. An option given by name in any letter case, by member or by a copy of the member, and samples given by position or by keyword, mean the same. The deprecated forms keep their meaning: p_value, unpacking and len of a test result give the p-value, the pair (p-value, statistic) and 2, with a deprecation warning; sequences that are not arrays are refused or give the values of the arrays with a deprecation warning.",
["inputs"],"All calls, samples, spellings of the options and forms of the samples.",
"Holds over the product of the whole API, options and input forms; the tests use the deprecated forms and the spellings in a few calls.",
[D,H,E,U],[("bundles and methods",D+":Stats,DistanceCovarianceMethod,_to_algorithm"),("test results",H+":HypothesisTest"),("estimation statistic",E+":EstimationStatistic"),("sequences",U+":array_namespace")],
["types and copies of the results, warnings and their origin"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(p)+"\n" for p in P))
tech={
"C01":"runtime differential monitor: real estimators against an extended-precision definition oracle on hostile workloads",
"C02":"runtime cross-checking of all methods and compile modes on the same execution",
"C03":"runtime consistency monitor over the results of one workload",
"C04":"runtime invariant assertions (range, symmetry, Cauchy-Schwarz, zeros, ones)",
"C05":"metamorphic runtime monitor (paired executions under transformations)",
"C06":"runtime monitor against an extended-precision oracle, plus paired executions under affine maps",
"C07":"runtime differential monitor, entry by entry, extended-precision oracle",
"C08":"runtime monitor of matrix results, buffer identity and input snapshots",
"C09":"runtime differential monitor against an extended-precision oracle",
"C10":"runtime differential monitor with an instrumented average callback",
"C11":"trace checker: recording random generator, recorded permutations replayed in a reference model",
"C12":"monitor of generator states and results over jobs, backends and repetitions",
"C13":"runtime differential monitor against Student's law",
"C14":"runtime monitor of parallel kernels under 1, 2 and 8 threads against per-pair calls",
"C15":"snapshot monitor of arguments, buffers and global state over call histories",
"C16":"sanitizers: guard pages, numba bounds checking, poisoned malloc, Valgrind (thorough)",
"C17":"concurrency stress with injected yields and switch-interval control, results checked against sequential runs",
"C18":"runtime monitor of exceptions, warnings and NaN propagation over the API",
"C19":"runtime differential monitor over two array namespaces (array_api_strict)",
"C20":"runtime differential monitor over number types, extended-precision and exact rational oracles",
"C21":"resource monitors: allocation peaks (tracemalloc) and CPU-time ratios",
"C22":"statistical runtime monitor of p-value distributions and of permutations seen by callbacks",
"C23":"runtime monitor of result types, copies, warnings and option spellings over the whole API",
}
note={
"default":"Executions only: every case generated is decided by an oracle, but the input space is sampled (systematic grid of structures and sizes plus seeded random cases until the time budget ends).",
"C12":"Schedules are those that the jobs, backends and repetitions produce; not enumerated.",
"C16":"Detects accesses that cross a guard page, fail a bounds check or make results depend on poisoned bytes, in the executed cases; Valgrind only in the thorough tier.",
"C17":"Interleavings are sampled: forced thread switches at lines of dcor and switch intervals of microseconds; the number of distinct interleavings is in the evidence.",
"C21":"Only factors that separate n log n from n**2 at n up to 128000 are seen.",
"C22":"Statistical decision with false-alarm probability below 1e-9 per run; ties are a known finding (see known_findings.json).",
}
m={"version":1,"setup_cmd":"/opt/venv/bin/python -c \"import numpy, scipy, numba, joblib, array_api_strict\"",
"checks":[{"property":p["id"],"quick_cmd":"python3 check.py "+p["id"],"thorough_cmd":"python3 check.py %s --tier thorough"%p["id"],"evidence_file":"evidence/%s.json"%p["id"],"technique":tech[p["id"]],"level":"exploration","level_note":note.get(p["id"],note["default"])} for p in P],
"not_applicable":[]}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write("\n")
F=[("C07","8978dc7","pairwise_distances(x, y) of sets of different sizes was the transposed l x n matrix"),
("C07","e0b12ca","distances of float32/float16/integer NumPy arrays were not computed in double precision as documented"),
("C02","142cb24","integer samples were refused by, or fell back from, the compiled fast methods"),
("C04","8a4ad11","distance covariance and correlation of constant variables were rounding noise (correlation not zero) in the fast methods"),
("C18","1aafbc2","the MERGESORT method accepted samples of different sizes (and read out of bounds, C16)"),
("C02","b996e0c","n_samples overflowed in the compiled distance covariance for n > 2097151"),
("C19","822bd51","energy_distance with U-statistics failed for strict array API arrays (reshape without a tuple)"),
("C14","5421eac","optimised rowwise correlation was NaN, not zero, if a variance is zero"),
("C14","ce8e60e","rowwise failed or answered differently for integers, non-double types and vectors of different shape"),
("C18","f907c42","pairwise_distances broadcast points of different dimension"),
("C20","07c5377","the fast methods lost accuracy for floats narrower than double"),
("C18","8ae5e6e","partial distance covariance, correlation and test accepted samples of different sizes (single-instance broadcast)"),
("C23","5c7820f","the members of DistanceCovarianceMethod could be pickled but not unpickled"),
("C14","dee512f","rowwise truncated or broadcast lists of different length, differently in each mode, and failed for empty lists"),
("C18","5d47a69","the affinely invariant distance correlation of samples with NaN was zero (independence) instead of NaN")]
k=json.load(open('/verif/known_findings.json'))
k["fixed"]=["fixed: property=%s %s %s"%f for f in F]
json.dump(k,open('/verif/known_findings.json','w'),indent=1); open('/verif/known_findings.json','a').write("\n")
