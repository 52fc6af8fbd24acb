"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe="return values and raised errors of the public API", hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m} for n, m in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "observe_at": [observe], "hook_needed": hook}})

p("C01", "Density estimates always reflect the settings in force",
  "Whatever sequence of calls a data-consistent density problem has been through (set weights, initial, predicted, observed; fit; estimate; expected ratio; plot; in any order and number), the MUD point is a sample maximising initial x weights x observed / predicted, and the expected ratio is the weighted average of observed / predicted, under the settings in force at that moment. Settings never given take their documented defaults, and changing the weights or the initial distribution returns the predicted distribution to its default (a kernel estimate from the samples and current weights). Other problem objects alive in the same process never influence the answer.",
  ["histories", "inputs"],
  "every finite sequence of public calls on one or several problem objects, for every sample set, weights (none, 1-D, stacked 2-D, normalised), distributions and bandwidths",
  "the tests make one set_*/estimate pass on a few identity problems; stale caches only show when a setting changes after an estimate, or when objects are interleaved",
  ["src/mud/base.py"],
  [("lazy fit and its invalidation by the set_* methods", "DensityProblem.set_weights/set_initial/set_predicted/set_observed/fit/mud_point/expected_ratio")],
  [("cached updated density and ratio", "valid only for the settings they were computed from")])

p("C02", "A failed or interrupted density update never mixes settings",
  "If a call on a density problem fails (a distribution raises, a density estimate fails, invalid weights are rejected), each of its settings is afterwards wholly the old or wholly the new value (the predicted distribution may have returned to its default), and all later estimates are those of that combination. If a call fails or is interrupted at any point, repeating it leads to exactly the estimates an undisturbed call would have led to.",
  ["fault_sequences", "crash_points", "histories"],
  "every failure of a user-supplied distribution, kernel density estimate or validation, and an interrupt at every executed line, during every call of every call sequence",
  "no test makes a distribution fail or interrupts a call",
  ["src/mud/base.py"],
  [("order of evaluation and assignment in the set_* methods and fit", "DensityProblem.set_weights/set_initial/set_predicted/set_observed/fit")],
  [("settings and caches of a DensityProblem", "distribution objects and the density values derived from them")])

p("C03", "Bayesian estimates reflect the settings in force, faults included",
  "Whatever sequence of calls a Bayesian problem has been through, the MAP point is a sample maximising prior x likelihood (or log-prior + log-likelihood, if the likelihood was last set in log form) under the prior and likelihood in force; a posterior that vanishes at every sample is reported by an error. A call that fails leaves each setting wholly old or wholly new, and repeating a failed or interrupted call leads to exactly the estimate an undisturbed call would have led to.",
  ["histories", "fault_sequences", "crash_points"],
  "every sequence of set_prior, set_likelihood(log or not), fit, estimate and plots on one or several problems, with failing distributions and interrupts at every executed line",
  "the tests solve one problem once, without a log-likelihood, a second setting or a fault",
  ["src/mud/base.py", "src/mud/funs.py"],
  [("lazy fit, log flag and invalidation", "BayesProblem.set_prior/set_likelihood/fit/map_point"), ("wrapper", "funs.map_problem")],
  [("cached posterior, log flag", "valid only for the prior and likelihood they were computed from")])

p("C04", "Linear Gaussian solutions depend only on the problem as it stands",
  "Whatever has been solved, plotted, changed (alpha, or any of A, b, y, means and covariances) or has failed before on a linear Gaussian problem, solve() returns the MUD, MAP, alternative-MUD and least-squares point and covariance of the problem as it now stands, restricted to the requested number of outputs: the MUD point reproduces the data exactly when the map has full row rank, the MAP point balances data and prior scaled by alpha, and both agree with their closed forms. The wrapper functions, and weighted-mean-error problems built from repeated or distinct measurements, obey the same rule.",
  ["histories", "inputs", "fault_sequences"],
  "every sequence of solves (method, output dimension, alpha, re-assigned attributes), plots and failing linear-algebra calls, for every full-row-rank map, offset, data and covariance",
  "the tests solve random 2x2 problems once per object; remembered solutions and partial dimensions are not sampled",
  ["src/mud/base.py", "src/mud/funs.py", "src/mud/util.py"],
  [("solve and its per-call matrices", "LinearGaussianProblem.solve/updated_cov/compute_functionals"), ("WME transform", "LinearWMEProblem._transform_linear_map, util.transform_linear_map"), ("wrappers", "funs.mud_sol/mud_sol_with_cov/map_sol/map_sol_with_cov/updated_cov")],
  [("mud, map, ls, mud_alt, up_cov, cov_p", "solutions remembered on the object")])

p("C05", "Iterative linear chains resume exactly and use every row as told",
  "Solving an iterative linear problem for several epochs gives the same chain of points however the epochs are split over calls and whatever plots, error queries or failed or interrupted epochs happen in between; each step solves exactly the next row of the given order, starting from the point before it, and a failed epoch leaves no trace in the chain or in the record of epochs. Errors are always those of the whole chain with respect to the reference just given, and the functional interfaces produce the same points.",
  ["histories", "fault_sequences", "inputs"],
  "every split of epochs over calls, every row order (permutations, repeats, subsets), every method, with linear-algebra failures at any step and any sequence of error queries with changing references",
  "the class has no test",
  ["src/mud/base.py", "src/mud/funs.py", "src/mud/examples/linear.py"],
  [("epoch loop and chain", "IterativeLinearProblem.solve/get_errors/plot_chain/plot_chain_error"), ("functional form", "funs.iter_lin_solve/iterate/performEpoch"), ("trials", "examples.linear.rotation_map_trials")],
  [("solution_chains, epochs, errors", "history the next epoch starts from")])

p("C06", "Separate problems can be used from separate threads",
  "Threads that each build, configure, solve and query problem objects of their own (density, Bayesian, linear, iterative, spatio-temporal, and the stateless functions) get exactly the results they would get running alone, under every interleaving of their steps, also when another thread fails midway.",
  ["schedules", "fault_sequences"],
  "every line-level interleaving of two or three client threads working on disjoint objects, with and without a client failing at an arbitrary line; operations that draw from numpy's global random generator or use the current pyplot figure are excluded",
  "the tests are single-threaded; shared scratch state between objects only shows under interleaving",
  ["src/mud/base.py", "src/mud/funs.py", "src/mud/util.py", "src/mud/preprocessing.py", "src/mud/norm.py"],
  [("absence of state shared between objects: defaults, module globals, class attributes", "module level and default arguments of the listed files")],
  [("module globals, default arguments, class attributes", "the only state two problems share")])

p("C07", "Arrays and options passed in are never changed or aliased",
  "No call, successful or failing, changes an array, list, dict or option set that the caller passed in, or a function's own default arguments; and a density, Bayesian, linear Gaussian, weighted-mean-error or iterative problem keeps a snapshot of the samples, data, domain, weights, matrices and row order it was given, so that later changes the caller makes to them do not alter any later answer.",
  ["histories", "fault_sequences", "inputs"],
  "every sequence of constructions, setters, solves and plots with caller-owned inputs of any dtype or container type, mutated by the caller between calls, and with calls that fail halfway",
  "tests never re-use or mutate an input after passing it",
  ["src/mud/base.py", "src/mud/util.py", "src/mud/funs.py", "src/mud/plot.py", "src/mud/preprocessing.py", "src/mud/norm.py"],
  [("copies made by constructors and setters", "__init__ of the problem classes, set_weights, SpatioTemporalProblem setters"), ("option dicts and mutable defaults", "plot_* methods"), ("in-place arithmetic", "util.fit_domain, preprocessing")],
  [("default arguments", "shared by all later calls")])

p("C08", "Plots draw the settings in force, on the given axes, and change nothing",
  "A plot method draws on the axes it is given (or on one new figure if none is given) and touches no other figure; the curves, points and lines drawn are those of the settings in force for the requested parameter or observable index; and no estimate, setting or domain is changed by plotting, also when drawing fails midway.",
  ["histories", "fault_sequences"],
  "every sequence of set_*, estimate and plot calls over several open figures with an arbitrary current figure, every index and option subset, with drawing calls that fail",
  "two tests look at one plot of a freshly fitted problem on a fresh figure",
  ["src/mud/base.py", "src/mud/plot.py"],
  [("plot methods", "DensityProblem, BayesProblem, LinearGaussianProblem, IterativeLinearProblem, SpatioTemporalProblem plot_* / sensor_* methods"), ("helpers", "plot.plot_dist/plot_vert_line/plot_1D_vecs")],
  [("pyplot current figure and axes", "process-wide state shared with the caller")],
  "line, collection and axis contents of the matplotlib figures")

p("C09", "A seed reproduces results exactly, whatever ran before",
  "A function or command given a seed (or, where it takes none or is given none, numpy's global generator seeded) returns, prints and draws exactly the same on every run, whatever random numbers were drawn, problems solved or figures made before in the process and whatever the hash seed; different seeds give different draws.",
  ["histories", "schedules"],
  "every prior history of the process (states of the numpy and stdlib generators, earlier seeded or unseeded calls) before every seeded entry point",
  "tests run each seeded command once in one state",
  ["src/mud/util.py", "src/mud/base.py", "src/mud/examples/poisson.py", "src/mud/examples/linear.py", "src/mud/examples/adcirc.py", "src/mud/examples/examples.py", "src/mud/examples/fenics.py"],
  [("seeding", "util.add_noise, measurements_from_reference, rotation_map, random_linear_problem, run_wme_covariance, run_high_dim_linear, load_poisson_prob, load_adcirc_prob, run_2d_poisson_*, the --seed option")],
  [("numpy and stdlib global generators", "process-wide state every unseeded draw advances")],
  "return values, stdout and figure contents")

p("C10", "A spatio-temporal problem stays consistent through every setter call",
  "A spatio-temporal problem rejects parameters whose dimension differs from the domain's, a domain that does not match or contain the parameters in force, a reference outside the domain, simulated data, measurements and true values whose size is not that of sensors x times, an unknown sample distribution, and inverse problems of an unknown kind or with data or sample weights of the wrong length; a rejected or failed call (an assignment, loading an inconsistent dataset, generating measurements) leaves these attributes as they were. Sub-sampling by sample, time and sensor masks, nearest-sample queries and the inverse problem built from them (weighted mean error, principal-component or singular-vector map of the noise-scaled residuals, with sample and data weights) always correspond to exactly the selected samples, sensors and times of the attributes in force.",
  ["histories", "inputs", "fault_sequences"],
  "every sequence of valid and invalid attribute assignments, measurement generations, mask selections and problem constructions, with decompositions that fail",
  "the tests load two fixed datasets and sub-sample time once",
  ["src/mud/base.py", "src/mud/preprocessing.py", "src/mud/funs.py"],
  [("validating setters", "SpatioTemporalProblem property setters, measurements_from_reference, validate"), ("sub-sampling and QoI maps", "sample_data, get_closest_to_measurements, get_closest_to_true_vals, mud_problem, funs.data_prob, preprocessing.pca/svd")],
  [("domain, lam, data, measurements, true_vals, sensors, times", "must agree in shape at all times")])

p("C11", "Loading a dataset is faithful or fails loudly, under storage faults",
  "Loading a dataset from a file or dictionary sets exactly the requested fields, renamed, overridden or suppressed as asked, to the stored values; a missing, truncated, corrupt or unreadable file raises an error, leaves the problem as it was and leaks no open file; and loading again after the fault gives the same problem as a first clean load. The dataset itself is never changed.",
  ["fault_sequences", "histories", "inputs"],
  "every dataset, field mapping and sequence of loads, with missing files, truncation at any byte, read errors at any call, short reads and permission errors",
  "the tests load two intact files with one mapping each",
  ["src/mud/base.py", "src/mud/examples/poisson.py", "src/mud/examples/adcirc.py"],
  [("file and dict loading, field mapping", "SpatioTemporalProblem.load"), ("dataset loaders", "load_poisson_prob, load_adcirc_prob")],
  [("dataset file", "only durable input of the system")])

p("C12", "An example command that succeeds has saved every requested figure",
  "If an example command reports success, every figure it was asked for (and no other) exists complete and readable under the requested folder, named after its own content so that no requested figure overwrites another; if writing any of them fails (full disk, I/O error, failing open) the command reports failure. Output files already there that were not asked for are untouched, nothing is written outside the folder, and running the command again after the fault produces all requested figures.",
  ["fault_sequences", "configurations", "histories"],
  "every example command with every combination of figure options, with write faults injected at any file operation of any figure, followed by a clean re-run",
  "the tests check exit codes of default runs, not files, and inject no fault",
  ["src/mud/examples/examples.py", "src/mud/examples/comparison.py", "src/mud/examples/linear.py", "src/mud/examples/poisson.py", "src/mud/examples/adcirc.py", "src/mud/plot.py"],
  [("figure selection and saving", "run_comparison_example, run_contours, run_wme_covariance, run_high_dim_linear, run_2d_poisson_sol, run_2d_poisson_trials, adcirc_time_window, adcirc_ts_plot, tri_mesh_plot, plot.save_figure")],
  [("figure files under --save-path", "durable output of a command")],
  "exit status and files of the command")

p("C13", "Paper datasets are fetched once, whole, and survive interruption",
  "The paper command uses, for each dataset, exactly the bytes served for it (or generated for it): after a failed, cut-off or interrupted download nothing is taken for the dataset, a later run fetches it again and succeeds, and a dataset once fetched is never fetched or altered again. Files of the user in the working directory, whatever their names, are neither used nor changed.",
  ["fault_sequences", "crash_points", "histories"],
  "every sequence of runs with download failures, truncation, crashes at any file operation, restarts, and stale files in the working or data directory",
  "the one test needs the real network and cannot pass offline",
  ["src/mud/examples/examples.py", "src/mud/examples/fenics.py"],
  [("download, placement and reuse of datasets", "mud_paper and its download helper; run_fenics when FEniCS is available")],
  [("data folder", "durable cache of datasets across runs")],
  "files and requests of the command")

p("C14", "Importing the library has no side effects beyond plot styling",
  "Importing the library succeeds whether LaTeX is present, absent, broken or hanging in error, and whatever the working directory (read-only, full, containing files of any name); it leaves the caller's open figures, current figure and files untouched, and creates no file. The only process-wide change is the plotting style, with LaTeX text enabled only if a LaTeX rendering actually worked.",
  ["fault_sequences", "configurations", "histories"],
  "every outcome of the LaTeX probe (success, each kind of error at each step), every state of the working directory, and any pyplot state before the import",
  "tests import the library once in one environment",
  ["src/mud/plot.py", "src/mud/examples/fenics.py"],
  [("LaTeX probe", "plot._check_latex at import"), ("optional FEniCS import", "examples.fenics")],
  [("pyplot figures, rcParams, working directory", "process-wide state of the importing program")],
  "pyplot state and file system before and after import")

p("C15", "A generated PDE dataset is saved whole or the run fails loudly",
  "When dataset generation returns, the saved file holds exactly the returned parameters, sensor values, true values, domain and response surface, each sample's data being the forward solution at that sample's parameters and each sensor; if the solver or the disk fails, generation fails loudly, and a repeated seeded run produces the identical dataset. The saved dataset loads back into an equivalent inverse problem.",
  ["fault_sequences", "histories"],
  "every sample/sensor count, dimension and seed, with solver failures at any solve and disk faults at any write, followed by re-runs",
  "the generator is skipped in the tests, as FEniCS is not installed",
  ["src/mud/examples/fenics.py", "src/mud/examples/examples.py"],
  [("dataset generation", "fenics.run_fenics, the poisson-generate command")],
  [("dataset file", "durable output other commands read")],
  "returned dictionary and saved file")

p("C16", "Synthetic measurements carry exactly the requested noise, used consistently",
  "Synthetic measurements are the true values plus independent standard normal draws scaled by the requested standard deviation, one draw per measurement; and the inverse problems built from them (weighted mean error of any measurement subset or split, Bayesian likelihood, weighted-mean-error linear maps) use exactly those measurements and that standard deviation, so that residuals at the true parameter are standard normal for every sequence of draws.",
  ["inputs", "histories", "schedules"],
  "every sequence of values delivered by the random generator, every number of measurements, split, repetition and noise level",
  "tests use unseeded draws with loose tolerances, or exact data without noise",
  ["src/mud/util.py", "src/mud/funs.py", "src/mud/base.py", "src/mud/examples/linear.py", "src/mud/examples/simple.py", "src/mud/examples/exp_decay.py"],
  [("noise synthesis", "util.add_noise, measurements_from_reference, noisy_linear_data, random_linear_wme_problem, simple.polynomial_1D_data"), ("aggregation", "funs.wme, funs.mud_problem, funs.map_problem, LinearWMEProblem, util.transform_linear_setup")],
  [("random generator", "environment whose every draw is delivered by the simulator")])

p("C17", "Objective functionals and inner products match their definitions",
  "The data, regularisation, data-consistent and full functionals are the stated quadratic forms of their arguments.",
  ["inputs"], "every operator, covariance, mean and point",
  "tests check signs and identities on random 2-D points",
  ["src/mud/norm.py"], [("quadratic forms", "norm.inner_product/norm_input/norm_data/norm_predicted/full_functional")])
p("C18", "Null spaces, rank-k updates and meshes are what they claim",
  "The null-space basis is orthonormal, complete and annihilated by the operator; rank-k sums approximate the matrix; meshes cover their domain evenly.",
  ["inputs"], "every matrix, tolerance, domain and size",
  "doctests show a few examples",
  ["src/mud/util.py", "src/mud/plot.py"], [("matrix utilities", "util.null_space/rank_decomposition/make_2d_unit_mesh, plot.build_nd_mesh_grid")])
p("C19", "Equipment tolerance converts to the right standard deviation",
  "The standard deviation derived from a tolerance and probability puts exactly that probability within the tolerance.",
  ["inputs"], "every tolerance and probability",
  "tests check an inequality at two probabilities",
  ["src/mud/util.py"], [("conversion", "util.std_from_equipment")])
p("C20", "Estimates converge to the truth as samples and data grow",
  "For identifiable problems the MUD and MAP points approach the true parameter (as fast as the noise level over the root of the number of measurements, and the distance of the nearest sample, allow) and the expected ratio approaches one as samples and measurements come in, by whichever class, wrapper or map (weighted mean error, splits, PCA, SVD, linear, iterative) they are computed, on new or updated problem objects, and whatever draws or solves failed or were interrupted on the way.",
  ["inputs", "histories", "fault_sequences"],
  "every identifiable problem, every sequence of measurement batches, sample batches, solves, failures and interruptions, in the limit of many samples",
  "tests check one decimal at one sample size",
  ["src/mud/base.py", "src/mud/funs.py", "src/mud/util.py", "src/mud/examples/simple.py", "src/mud/examples/linear.py"],
  [("estimators", "DensityProblem, BayesProblem, LinearGaussianProblem, LinearWMEProblem, IterativeLinearProblem, SpatioTemporalProblem.mud_problem"), ("wrappers", "funs.mud_problem, funs.map_problem, funs.data_prob, funs.wme, util.add_noise")],
  [("random generator", "environment whose draws are delivered by the simulator"), ("measured system", "a known map with a known parameter")],
  "the distance of each estimate from the known parameter, in units of noise")

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as fp:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        fp.write(json.dumps(x) + "\n")
print(len(P))
