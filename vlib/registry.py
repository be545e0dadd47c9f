"""What each check runs and what its monitors must have observed.

Standard library only: imported by the orchestrator, outside dcor's
environment.
"""

# Seconds of random workload per worker, after the systematic part.
T = {"quick": 20, "thorough": 420}

FLOAT = ("Finite samples; tolerances are relative to the largest distances "
         "and at least two orders of magnitude above the largest error "
         "observed on correct code (see largest_observed).")
DEGENERATE = ("Correlations whose distance variance is positive but below "
              "the rounding error are not judged (counted in "
              "degenerate_correlations_skipped).")

STD = [{"name": "std", "env": {}, "workers": 8}]


def prop(rule, must, assumptions=(FLOAT,), **kw):
    d = {"budget": T, "rule": rule, "must_observe": must, "lanes": STD,
         "assumptions": list(assumptions), "level": "exploration"}
    d.update(kw)
    return d


PROPS = {
    "C01": prop(
        "A case is a pair of samples (24 structures: ties, sorted, extreme "
        "offsets, ...; 10 relations between x and y; sizes around powers of "
        "two; vectors up to dimension 40; exponents 0.01 to 2; memory "
        "layouts), run through every method and compile mode; non-trivial if "
        "neither sample is constant; distinct by the bytes of the samples "
        "and the exponent.", ["compared", "calls"]),
    "C02": prop(
        "A case is a pair of samples on which the results of all methods and "
        "compile modes of all estimators are compared with each other; "
        "non-trivial if neither sample is constant; distinct by the bytes of "
        "the samples.", ["compared"], (FLOAT, DEGENERATE)),
    "C03": prop(
        "A case is a pair of samples on which every estimator is compared "
        "with the bundled statistics and with the formula that links them; "
        "distinct by the bytes of the samples and the way.",
        ["compared", "zero_variance_seen"], (FLOAT, DEGENERATE)),
    "C04": prop(
        "A case is a pair of samples (or a sample and a similarity of it, or "
        "a constant one); each checks range, symmetry, zeros and ones; "
        "distinct by the bytes of the samples and the way.",
        ["range", "constant", "compared"], (FLOAT, DEGENERATE)),
    "C05": prop(
        "A case is a pair of samples together with a transformation (joint "
        "reordering, translation, scaling, rotation, reflection) applied to "
        "them; distinct by the bytes of original and transformed samples.",
        ["compared"], (FLOAT, DEGENERATE)),
    "C06": prop(
        "A case is a pair of samples with an invertible affine map; "
        "non-trivial if the covariance matrix is far from singular; distinct "
        "by the bytes of the samples.", ["compared", "invariance",
                                         "constant"], (FLOAT, DEGENERATE)),
    "C07": prop(
        "A case is one or two sets of points; every entry of the matrix is "
        "compared; distinct by the bytes of the points and the exponent.",
        ["compared", "checks"]),
    "C08": prop(
        "A case is one or two matrices; every entry of the result, its sums "
        "and the identity of the output buffer are checked; distinct by the "
        "bytes of the matrices.",
        ["compared", "aliasing", "sums", "exact", "null_projection"]),
    "C09": prop(
        "A case is three samples; distinct by their bytes; non-trivial if no "
        "variance is degenerate.", ["compared", "range", "constant_z"],
        (FLOAT, DEGENERATE)),
    "C10": prop(
        "A case is two or more samples of different sizes with an estimator "
        "(V, U), average and exponent; distinct by bytes and options.",
        ["compared", "range"]),
    "C11": prop(
        "A case is one run of a permutation test with a recording random "
        "generator; all recorded permutations are replayed in the reference "
        "model; distinct by samples, options and number of resamples.",
        ["permutations_recorded", "permutations_replayed",
         "pvalues_decided_exactly", "exact_ties"],
        (FLOAT, "Permuted statistics closer to the observed one than the "
         "rounding error may count either way, except with exact "
         "arithmetic.")),
    "C12": prop(
        "A case is a test repeated with the same seed under several numbers "
        "of jobs and joblib backends, with the state of all generators "
        "observed; distinct by samples, seed and configuration.",
        ["repeats", "parallel_runs", "stream", "global_rng"]),
    "C13": prop(
        "A case is a pair of samples; statistic and p-value are compared "
        "with Student's law in extended precision; distinct by bytes.",
        ["compared", "pvalues", "constant", "perfect"], (FLOAT, DEGENERATE)),
    "C14": prop(
        "A case is two lists of vectors; every entry of the rowwise result "
        "is compared with the direct call and the parallel result with a "
        "repetition of itself; distinct by bytes and options.",
        ["rows", "parallel_calls", "repeats", "optimized_refused",
         "lengths", "lengths_refused"],
        (FLOAT, DEGENERATE),
        lanes=[{"name": "threads%d" % t,
                "env": {"NUMBA_NUM_THREADS": str(t)}, "workers": w}
               for t, w in ((1, 3), (2, 2), (8, 2))]),
    "C15": prop(
        "A case is a sequence of API calls with snapshots of arguments, "
        "their buffers, global generators and floating point state before "
        "and after each; distinct by the seed of the sequence.",
        ["snapshots", "aliases", "history_repeats", "mutations", "id_reuse",
         "environment", "live_calls", "live_defined", "results_kept"], ()),
    "C16": prop(
        "A case is a call on compiled kernels with arrays that end at an "
        "inaccessible page, in processes with bounds checks or poisoned "
        "fresh memory (in the thorough tier also under Valgrind); distinct "
        "by the bytes and layout of the arrays.",
        ["kernel_runs", "guarded_arrays", "mismatches_refused",
         "lane_bounds", "lane_poisonA", "lane_poisonB", "extreme_runs"],
        ("MALLOC_PERTURB_ poisons what malloc returns below the mmap "
         "threshold; larger blocks are zero pages.",),
        grace=900,
        lanes=[
            {"name": "bounds", "env": {"NUMBA_BOUNDSCHECK": "1"},
             "workers": 3},
            {"name": "poisonA", "env": {"MALLOC_PERTURB_": "165"},
             "workers": 3},
            {"name": "poisonB", "env": {"MALLOC_PERTURB_": "66"},
             "workers": 2},
            {"name": "valgrind", "tiers": ["thorough"], "workers": 1,
             "env": {"NUMBA_CPU_NAME": "generic", "NUMBA_CPU_FEATURES": "",
                     "PYTHONMALLOC": "malloc", "NUMBA_NUM_THREADS": "1"},
             "wrap": ["valgrind", "--tool=memcheck", "--error-limit=no",
                      "--log-file={log}"]}]),
    "C17": prop(
        "A case is a set of threads calling the API at once with yields "
        "injected at lines of dcor; a case is distinct by the observed "
        "interleaving of the lines executed.",
        ["threaded_calls", "switches_inside_dcor", "injected_yields"], (),
        lanes=[
            {"name": "threads2", "env": {"NUMBA_NUM_THREADS": "2"},
             "workers": 4},
            {"name": "threads8", "env": {"NUMBA_NUM_THREADS": "8"},
             "workers": 2}]),
    "C18": prop(
        "A case is a set of invalid (sizes, dimensions, options, exponents) "
        "or NaN-bearing calls over the API, or valid calls that must stay "
        "silent; distinct by the generated call.",
        ["refused", "exponent_warnings_seen", "silent_calls",
         "nan_results"], ()),
    "C19": prop(
        "A case is a set of samples given as arrays of a strict array API "
        "namespace and as NumPy arrays; distinct by bytes.",
        ["compared", "types"], (FLOAT, DEGENERATE,
                                "array_api_strict stands for the standard.")),
    "C20": prop(
        "A case is a set of samples of some number types (all NumPy "
        "integers, booleans and floats, both byte orders, longdouble, "
        "Fraction, Decimal) with values that wrap or round in that type; "
        "distinct by bytes and type.",
        ["compared", "wide_compared", "exact_compared"],
        (FLOAT, DEGENERATE, "Integers up to 2**51 in absolute value.")),
    "C21": prop(
        "A case is one function, method and sample structure with the peak "
        "of allocated memory, or the CPU time at n and 16 n; distinct by "
        "function, method, structure, shape and type.",
        ["memory_peaks", "time_ratios"],
        ("Quadratic growth is told from n log n by a factor of two in "
         "memory per sample and CPU time ratio; smaller deviations are not "
         "seen.",),
        lanes=[{"name": "std", "env": {}, "workers": 5}]),
    "C22": prop(
        "A case is a batch of tests on data for which the null hypothesis "
        "is true, a strong alternative, or the decoding of the permutations "
        "that reached the user's callback; distinct by its random stream.",
        ["null_tests", "levels", "alternatives", "groups_decoded",
         "constant_samples"],
        ("A correct test is called wrong with probability below 1e-9 per "
         "run.",)),
    "C23": prop(
        "A case is a set of calls whose results are inspected (form, copies, "
        "deprecated names), whose options are spelled in several ways, or "
        "whose samples are given as sequences; distinct by the samples.",
        ["scalars", "immutable", "copies", "deprecated",
         "deprecation_warnings", "sequences", "options"], ()),
}
