"""Source of properties.jsonl and MANIFEST.json:  python3 tools/catalog.py

Each entry: id, title, statement, quantifier over, quantifier text,
why tests cannot, anchors, level note.
"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note, state=(), hook=None,
         na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files.split(),
                  mechanism=mechanism, observe=observe, technique=technique, note=note, state=state, hook=hook, na=na))


ORACLE = "Trusts numpy/scipy/Hypothesis and the harness' reference (vf/refs.py, independent of copt). "

prop("C01", "Penalty values and proximal operators are exact",
     "For the l1, group-lasso, trace-norm and one-dimensional fused-lasso penalties, evaluating the penalty gives its "
     "mathematical value, and its proximal operator returns the unique minimizer of penalty(z) + ||z - x||^2 / (2 step) "
     "for every point, every weight and every positive step. Coordinates outside every group are not penalized, and "
     "matrix penalties act on the flat vector in row-major order.",
     "inputs", "All points (ties, zeros, 1e-8..1e9), weights >= 0, steps > 0, group structures with gaps, matrix shapes.",
     "tests/test_penalties.py checks the three-point inequality on a few Gaussian points with one weight and step; it "
     "never visits ties, thresholds, gaps between groups, 1-row matrices or other scales.",
     "copt/penalty.py copt/tv_prox.py",
     [("L1Norm, GroupL1, FusedLasso, TraceNorm: __call__ and prox", "copt/penalty.py"),
      ("soft thresholding, block thresholding, SVD thresholding", "copt/penalty.py")],
     ["return values of penalty(x) and penalty.prox(x, step)"],
     "property-based testing against closed forms and optimality certificates",
     ORACLE + "Tolerance 1e-12 relative to the magnitudes for separable penalties, 1e-9 for SVD-based ones.")

prop("C02", "Constraint projections are exact Euclidean projections",
     "For the l-infinity, l2, l1 and trace-norm balls and the scaled simplex, the proximal operator returns the nearest "
     "point of the set (whatever the step), which is feasible, leaves feasible points alone and never expands distances. "
     "Evaluating the set objects that offer it gives 0 inside and infinity outside of the set.",
     "inputs", "All points inside, on (exactly or up to rounding) and outside of the set, all radii > 0, all shapes.",
     "Tests project a handful of random points; ties, boundary points, single coordinates, negative or already feasible "
     "points and radii other than 1 are never tried (a numpy-2 crash on feasible simplex points went unnoticed).",
     "copt/constraint.py",
     [("LinfBall, L2Ball, L1Ball, SimplexConstraint, TraceBall: prox and __call__", "copt/constraint.py"),
      ("euclidean_proj_simplex, euclidean_proj_l1ball", "copt/constraint.py")],
     ["return values of constraint.prox(x, step), constraint(x)"],
     "property-based testing against independent projections and variational inequalities",
     ORACLE + "Indicator values are only judged clearly inside or outside, not within rounding of the boundary.")

prop("C03", "Linear minimization oracles return feasible maximizing vertices",
     "For the l1 ball, the simplex and the trace-norm ball, the linear oracle called with direction u and iterate x "
     "returns s - x for a point s of the set that maximizes <u, s>, whatever the direction (ties and the zero vector "
     "included); s is an extreme point unless the direction is zero. The pairwise oracle returns the difference of such a vertex and of a vertex of the current active "
     "set that minimizes <u, .>, with names for both and, as longest step, the weight of the latter.",
     "inputs histories", "All directions and iterates in the set; all active sets reachable by adding and moving weights.",
     "Tests call the oracles on Gaussian directions only; all-negative, tied, zero directions, single rows or columns and "
     "active sets with several vertices are not tried.",
     "copt/constraint.py",
     [("L1Ball.lmo, lmo_pairwise, SimplexConstraint.lmo, TraceBall.lmo", "copt/constraint.py")],
     ["return values of lmo(u, x, active_set) and lmo_pairwise(u, x, active_set)"],
     "property-based testing against support functions; model of the active set",
     ORACLE + "Optimality of the vertex up to 1e-9 relative (trace ball: an iterative SVD).",
     state=[("active_set", "weight of every vertex in the current convex combination", "caller's dictionary")])

prop("C04", "Loss values and gradients match their definitions in every format",
     "The logistic, square and Huber losses (averaged over samples, plus alpha/2 ||x||^2) return their exact value and "
     "gradient at every point, without overflow, for fractional labels (the logistic loss also with an intercept), and for dense (C, Fortran, integer, 8-bit and boolean) and every "
     "sparse data format alike, entries stored more than once included. Value alone, value with gradient, calling the object, and the per-sample derivative "
     "all describe the same function.",
     "inputs configurations", "All data matrices (empty rows/columns, one row or column), labels, margins up to +-1e5, "
     "alpha >= 0, Huber thresholds, storage formats; data omitted (identity).",
     "Tests compare gradients with finite differences at a few Gaussian points in two formats.",
     "copt/loss.py copt/utils.py",
     [("LogLoss, SquareLoss, HuberLoss: f_grad, __call__, partial_deriv, logsig, expit_b", "copt/loss.py"),
      ("safe_sparse_add", "copt/utils.py")],
     ["return values of f_grad, loss(x), partial_deriv(p, y)"],
     "differential testing against long-double definitions",
     ORACLE + "Backward-stable tolerance 1e-12 times the absolute sums involved.")

prop("C05", "Hessians and smoothness constants of the losses are correct",
     "The Hessian-vector operators of the logistic loss apply the true second derivative, ridge term and intercept included, to "
     "every vector. The published smoothness constants equal the largest curvature of the loss over all points (per sample "
     "for the per-sample constant), hence bound how fast gradients can vary.",
     "inputs configurations", "As for values and gradients (8-bit and boolean data and repeated entries included), plus pairs of points and "
     "vectors; zero, one-row, one-column data.",
     "Tests compare Hessian products by finite differences at one point without ridge, and only use the constants as "
     "step sizes; a constant that is too large or only slightly too small passes everything.",
     "copt/loss.py copt/utils.py",
     [("LogLoss.hessian_mv, hessian_trace", "copt/loss.py"), ("lipschitz, max_lipschitz", "copt/loss.py"),
      ("get_max_lipschitz, spectral_norm", "copt/utils.py")],
     ["hessian operators, lipschitz, max_lipschitz"],
     "differential testing against dense linear algebra",
     ORACLE + "Huber's constant is compared with the curvature of the quadratic zone.")

prop("C06", "Block proximal operators of the stochastic solvers match the penalties",
     "The block proximal operator that a penalty builds for the sparse stochastic solvers partitions the features into "
     "blocks and, for any subset of blocks, updates in place exactly those blocks by the exact proximal operator of the "
     "part of the penalty they carry, with step times block weight. Applied to all blocks with unit weights it equals the "
     "full operator; for the fused lasso the two halves together carry every consecutive pair exactly once.",
     "inputs", "All penalties with block operators, dimensions, groups with gaps, block subsets and orders, weights, steps.",
     "Tests only run them inside one solver configuration on full-support data with a loose tolerance.",
     "copt/penalty.py copt/randomized.py",
     [("L1Norm.prox_factory, GroupL1.prox_factory, FusedLasso.prox_1_factory, prox_2_factory", "copt/penalty.py")],
     ["x after the block operator, the block matrix"],
     "property-based testing against closed forms per block",
     ORACLE + "Tolerance 1e-12 relative.")

prop("C07", "Total variation proximal operators are exact (1-D) and convergent (2-D)",
     "The one-dimensional total variation proximal operator returns the unique minimizer for every signal and weight; the "
     "row- and column-wise versions do so for every line of an image. The two-dimensional operator is within its "
     "tolerance of the minimizer of the anisotropic objective, and the linear operator gives all vertical and "
     "horizontal differences, so that its l1 norm is the value of the penalty.",
     "inputs", "Signals of 1..200 points with plateaus and ties, images of any shape (a single pixel included), weights over six decades.",
     "Tests check the three-point inequality on a few random signals of one length; the taut-string algorithm has many "
     "branches (ends, ties, consecutive knots) that they do not reach with a sharp oracle.",
     "copt/tv_prox.py copt/penalty.py",
     [("prox_tv1d, _prox_tv1d (Condat's direct algorithm)", "copt/tv_prox.py"),
      ("prox_tv1d_cols, prox_tv1d_rows, prox_tv2d, tv2d_linear_operator", "copt/tv_prox.py"),
      ("TotalVariation2D", "copt/penalty.py")],
     ["return values"],
     "property-based testing against dual optimality certificates",
     ORACLE + "1-D results are checked through a dual certificate; 2-D ones through the duality gap reached by the "
     "documented tolerance.")

prop("C08", "Sparse kernels and batch sampling are correct",
     "Row-subset products with CSR data equal the dense products for every index list (empty, repeated, reversed) and "
     "CSR array, and sums of sparse and dense operands equal the dense sum with the documented result type. Batches "
     "contain distinct samples in range, and every sample is equally likely in every position.",
     "inputs", "CSR arrays with empty rows and unsorted or repeated columns, index lists, operand formats, batch sizes, seeds.",
     "Tests compare the kernels on one random matrix and never look at sums or batches.",
     "copt/utils.py",
     [("fast_csr_mv, fast_csr_vm, safe_sparse_add, sample_batches", "copt/utils.py")],
     ["return values"],
     "differential and statistical testing",
     ORACLE + "Uniformity is a ten-sigma bound on fixed seeds (false alarms below 1e-20).")

prop("C09", "Proximal gradient, plain and accelerated, reaches the minimizer",
     "Started anywhere (also outside of the domain), with backtracking or valid user steps, proximal gradient and its "
     "accelerated variant return, when they report success, a point whose distance to the minimizer and objective are as "
     "good as the tolerance implies. On strongly convex problems they do reach every tolerance above rounding.",
     "inputs configurations", "Logistic/square/Huber losses with ridge, eleven penalties and constraints, starts, step rules.",
     "Tests run three penalties from x0=0 on one random data set and check a loose certificate.",
     "copt/proximal_gradient.py",
     [("minimize_proximal_gradient", "copt/proximal_gradient.py"), ("init_lipschitz", "copt/utils.py")],
     ["res.x, res.success"],
     "property-based testing against an independent solver",
     ORACLE + "Condition numbers at most 50; tolerances scaled by the smoothness constant.")

prop("C10", "Proximal gradient descends at the theoretical rates",
     "Plain proximal gradient never increases the objective, and after k iterations is within L ||x0 - x*||^2 / (2k) of the "
     "optimum (L being replaced by what backtracking can reach); the accelerated variant is within 2 L ||x0 - x*||^2 / "
     "(k+1)^2, on every problem including the worst cases of the theory. Backtracking works with any factor in (0,1).",
     "inputs histories", "All iterates of runs on random and worst-case (Nesterov) problems, condition numbers up to 1000.",
     "Tests look at the last iterate only; losing acceleration, or a wrong momentum, goes unnoticed.",
     "copt/proximal_gradient.py",
     [("backtracking line search, FISTA momentum", "copt/proximal_gradient.py")],
     ["iterates shown to the callback"],
     "metamorphic/invariant testing over the history of iterates",
     ORACLE + "Envelopes carry a small multiplicative slack for the line search and rounding.")

prop("C11", "Three-operator splitting reaches the minimizer of f + g + h",
     "With one, two or no proximal terms, fixed or searched steps, and with or without a known Lipschitz constant of the "
     "second term, three-operator splitting converges to the minimizer of the sum, and success means that it is there "
     "up to the tolerance. Extra arguments are handed to the proximal operators unchanged.",
     "inputs configurations", "Losses with ridge, all pairs of penalties/constraints with common domain, step options, starts.",
     "Tests use three combinations on one data set with one setting of the line search.",
     "copt/splitting.py",
     [("minimize_three_split", "copt/splitting.py")],
     ["res.x, res.success, arguments of the proximal operators"],
     "property-based testing against an independent solver",
     ORACLE + "References for sums of two nonsmooth terms come from a long run of an independent splitting, with its "
     "residual checked.")

prop("C12", "The primal-dual method reaches the minimizer of f + g + h(L x)",
     "For any linear operator L given as array, sparse matrix or linear operator (or omitted), with line search or "
     "admissible fixed steps, the primal-dual method converges to the minimizer of f + g + h(L x). Success means that the "
     "returned point is the minimizer up to the tolerance.",
     "inputs configurations", "As for three-operator splitting, with identity, scaled, rectangular, difference, integer, "
     "row-selecting L; operators that return views of their argument.",
     "Tests use one total-variation problem and the identity; operators of norm above one made the line search diverge.",
     "copt/splitting.py",
     [("minimize_primal_dual", "copt/splitting.py")],
     ["res.x, res.success"],
     "property-based testing against an independent solver",
     ORACLE + "Iteration limits far above the measured need; only converged runs and divergence are judged.")

prop("C13", "Frank-Wolfe stays feasible, measures the gap, and converges at its rate",
     "Every iterate of Frank-Wolfe lies in the constraint set; the oracle is called with the negative gradient at the "
     "iterate; steps are those of the chosen rule, clipped to [0, 1], and line-search and DR steps never increase the "
     "objective. Its reported certificate is the duality gap at the returned point, it stops when the gap meets the "
     "tolerance, and after k steps the suboptimality is at most 2 L diam^2 / (k+2).",
     "inputs histories configurations", "Losses with and without ridge, four kinds of sets, vertex and interior starts, all step rules.",
     "Tests check the final certificate on one data set per step rule.",
     "copt/frank_wolfe.py",
     [("minimize_frank_wolfe, backtracking_step_size", "copt/frank_wolfe.py")],
     ["arguments of the oracle, iterates shown to the callback, res.certificate, res.x"],
     "invariant testing over recorded histories, against support functions",
     ORACLE + "The library's backtracking accepts increases within single-precision epsilon; the check allows them.")

prop("C14", "Pairwise Frank-Wolfe keeps a valid convex combination of vertices",
     "Throughout pairwise Frank-Wolfe the active set holds nonnegative weights that sum to one, contains no vertex of zero "
     "weight, and reproduces the iterate. Each step moves weight from one active vertex to the oracle's vertex by at most "
     "what is there, and the method converges to the constrained minimizer.",
     "histories inputs", "All histories of runs from any vertex over l1 balls, simplices and hulls, with three step rules.",
     "Tests look at the final point on one problem; the active set is never inspected.",
     "copt/frank_wolfe.py copt/constraint.py",
     [("minimize_frank_wolfe(variant='pairwise'), update_active_set", "copt/frank_wolfe.py"),
      ("L1Ball.lmo_pairwise", "copt/constraint.py")],
     ["active set given to the oracle and shown to the callback, iterates"],
     "model-based testing: the harness replays every move on its own weights",
     ORACLE, state=[("active_set", "weight of every vertex", "copt/frank_wolfe.py")])

prop("C15", "SAGA and SVRG reach the minimizer of the regularized finite sum",
     "For every finite sum with ridge, sparse or dense data and separable or group penalty, SAGA and SVRG with admissible "
     "step converge to the minimizer; the minimizer is a fixed point. Each pass visits as many samples as there are, "
     "drawn from all of them, and steps follow the published updates.",
     "inputs schedules", "Random problems, seeds (sample orders), starts, formats, penalties with gaps between groups.",
     "Tests use one dense and one sparse data set, with a loose certificate computed from the solver's own output.",
     "copt/randomized.py",
     [("minimize_saga, minimize_svrg, _support_matrix", "copt/randomized.py")],
     ["res.x, iterates shown to the callback, calls of the derivative"],
     "property-based testing against an independent solver and a trajectory model",
     ORACLE,
     state=[("memory_gradient, gradient_average", "per-sample derivatives and their average", "copt/randomized.py")])

prop("C16", "VRTOS reaches the minimizer of a finite sum plus two penalties",
     "The variance-reduced three-operator splitting converges to the minimizer of the ridge-regularized finite sum plus "
     "one or two block penalties, on sparse and dense data, by the published update of the samples it visits. The fused "
     "lasso given as its two halves gives the fused-lasso solution.",
     "inputs schedules", "Random problems, seeds, starts, pairs of l1, group, fused halves or none, groups with gaps.",
     "Tests run it on one problem per pair with a loose certificate.",
     "copt/randomized.py",
     [("minimize_vrtos, _factory_sparse_vrtos", "copt/randomized.py")],
     ["res.x, iterates shown to the callback"],
     "property-based testing against an independent solver and a trajectory model",
     ORACLE + "Data without empty columns (see known findings).")

prop("C17", "Stochastic Frank-Wolfe: feasible, faithful to its variants, convergent",
     "Every iterate of stochastic Frank-Wolfe lies in the constraint set, for every variant, batch size and step rule, and "
     "the gradient estimate given to the oracle is the one defined by the chosen published variant (SAG, SAGA, MHK, LF). "
     "With the full batch it coincides with deterministic Frank-Wolfe; it stops at the first step that moves the "
     "iterate by less than the tolerance, and its gap decreases as the theory says.",
     "inputs schedules histories", "Variants x step rules x batch sizes x sets x formats x seeds; starts at vertices and inside.",
     "Tests run 20 passes per variant on one data set and check that nothing crashes or a loose gap.",
     "copt/randomized.py",
     [("minimize_sfw, step_size_sfw, step_size_DR", "copt/randomized.py")],
     ["samples and predictions seen by the derivative, oracle calls, iterates"],
     "trajectory models of four algorithms driven by recorded samples",
     ORACLE + "SAGA corrects a batch with the average over its samples, which makes the estimate unbiased.",
     state=[("dual_var, grad_agg, dual_var_counter", "per-sample derivatives and aggregated gradient", "copt/randomized.py")])

prop("C18", "Callbacks see every iteration, change nothing, and can stop the run",
     "A callback is called once per iteration of every solver with the current iterate (and, when called before the first "
     "step, with the start), and neither it nor verbosity changes anything about the run. Tracing records exactly every freq-th iterate "
     "or objective, as it was at that time; a callback that returns False stops the deterministic solvers at the iterate it "
     "was shown.",
     "histories configurations", "Ten solvers, random problems, tolerances, trace frequencies, iteration to stop at; Python's False and NumPy's.",
     "Tests pass a callback that returns True or traces the last run; they never compare runs or stop in the middle.",
     "copt/utils.py copt/proximal_gradient.py copt/splitting.py copt/frank_wolfe.py copt/randomized.py",
     [("Trace", "copt/utils.py"), ("callback(locals()) in each solver", "copt/*.py")],
     ["callback arguments, res.x, trace_x, trace_fx, trace_time"],
     "metamorphic testing: runs with and without observation",
     ORACLE)

prop("C19", "Results tell the truth: success, iterations, certificates",
     "A solver reports success only when its stopping criterion was met, in which case the solution is as accurate as the "
     "tolerance implies; it never exceeds the iteration limit, and it only gives up without success at that limit, "
     "still at the minimizer however long it goes on. "
     "Reported certificates and traces of certificates are those of the documented quantity at the corresponding "
     "iterates, and solvers stop at the first iteration whose certificate is below the tolerance.",
     "inputs configurations histories", "Ten solvers, random problems, units of the variables, tolerances 1e3..1e-9, limits 1..400, 4000 and 8000.",
     "Tests assert a certificate below a threshold, after runs that all converge.",
     "copt/proximal_gradient.py copt/splitting.py copt/frank_wolfe.py copt/randomized.py",
     [("certificate and success of each minimize_* function", "copt/*.py")],
     ["res.success, res.nit, res.certificate, res.trace_certificate, res.x"],
     "property-based testing against recomputed certificates and minimizers",
     ORACLE + "Distances allowed are multiples of the tolerance ten times above the largest measured.")

prop("C20", "Calls are pure: inputs untouched, no hidden state, reproducible",
     "No solver, loss, penalty or constraint modifies the data, labels, starts or points it is given, and "
     "solvers do not return arrays that share memory with them. The same call with the same random seed gives "
     "bitwise the same result, whatever is computed before it, inside its callback or beside it in other threads. What the "
     "process shares (floating-point, warning and print settings, seed of the global random generator) is not changed.",
     "histories inputs schedules", "Random problems for ten solvers with other runs before, inside and beside; proximal operators that work "
     "in place; random operation sequences on one object, reused with other sizes, whose earlier results are kept or overwritten.",
     "Tests call each thing once on fresh objects and never compare inputs before and after.",
     "copt/loss.py copt/penalty.py copt/constraint.py copt/randomized.py copt/proximal_gradient.py copt/splitting.py copt/frank_wolfe.py",
     [("x0 copies in each solver, out-of-place updates in losses and penalties", "copt/*.py")],
     ["inputs before and after, results of repeated calls"],
     "stateful testing with fresh-object comparison",
     ORACLE + "Singular-value iterations start at random: compared up to tolerance.")

prop("C21", "How the inputs are represented does not matter",
     "The same problem given with its data in any storage format, integer or single-precision type, memory layout or index "
     "width, and its starting point as array, list, tuple, integers, strided, read-only or single-precision array, leads "
     "every solver to the same result as plain double-precision arrays. Losses, penalties, constraints and oracles return "
     "the same values for every layout and type of the same point, whole numbers included.",
     "inputs configurations", "24 storages of the data (8-bit, boolean, repeated entries, read-only), 8 of the labels, 12 of the start "
     "(row and column vectors and matrices where a solver accepts them), 7 of groups of variables; ten solvers; every class.",
     "Tests pass contiguous double-precision arrays from zeros; integer starts used to be truncated silently.",
     "copt/loss.py copt/penalty.py copt/constraint.py copt/randomized.py copt/proximal_gradient.py copt/splitting.py copt/frank_wolfe.py",
     [("conversions of x0, A and b in each solver and loss", "copt/*.py")],
     ["results for each representation against those for the plain one"],
     "metamorphic property-based testing (same numbers, other representation)",
     ORACLE + "Tolerance allows summation in another order.")

prop("C22", "Every way to give the objective and its gradient gives the same run",
     "Returning the gradient with the value (jac=True), giving it as a separate callable, or using the loss object's own "
     "methods, with or without extra arguments, gives the same iterates and result, and extra arguments reach every call "
     "unchanged. When no gradient is given it is estimated by finite differences (with the requested step), and the solvers "
     "still reach the minimizer up to the accuracy of that estimate.",
     "inputs configurations", "Ways to give the gradient, extra arguments, finite-difference steps; random problems; "
     "proximal gradient, Frank-Wolfe, their accelerated and pairwise variants.",
     "Tests use jac=True or one callable and never extra arguments together with every solver.",
     "copt/proximal_gradient.py copt/frank_wolfe.py copt/utils.py",
     [("build_func_grad", "copt/utils.py"), ("args handling in minimize_proximal_gradient, minimize_frank_wolfe",
                                             "copt/proximal_gradient.py copt/frank_wolfe.py")],
     ["calls received by the objective, results"],
     "differential property-based testing between calling conventions",
     ORACLE + "The estimated-gradient runs are judged by distance to the reference minimizer.")

prop("C23", "Requests that make no sense are refused, valid neighbours are not",
     "Labels outside of [0, 1] or not one per sample, starts, penalties or points of the wrong size, batches larger than the "
     "data or empty, overlapping groups, negative radii (or zero ones where no projection exists), unknown strategies or variants, and steps that need a missing constant raise an exception instead of returning a result. Valid requests "
     "close to these are accepted and give a finite result.",
     "inputs configurations", "One invalid argument (or its closest valid neighbour) in a random problem, for every class and solver.",
     "The tests check two invalid requests.",
     "copt/loss.py copt/penalty.py copt/constraint.py copt/randomized.py copt/proximal_gradient.py copt/splitting.py copt/frank_wolfe.py copt/utils.py",
     [("argument validation in constructors and minimize_* functions", "copt/*.py")],
     ["exceptions raised, results"],
     "property-based negative testing with valid neighbours",
     ORACLE + "Any of ValueError, TypeError, AssertionError, NotImplementedError counts as a refusal.")

prop("C24", "Data sets: cached downloads are complete and correct after any fault",
     "A data-set loader returns exactly the samples and labels (as 0/1) of the published files, for the requested subset; "
     "once downloaded, it never needs the network again. Whatever sequence of connection failures, truncated or corrupted "
     "transfers and interruptions came before, a call either raises or returns the correct data, and with a working "
     "network it succeeds. The sample image has the requested numbers of rows and columns.",
     "fault_sequences crash_points inputs", "Random archives; sequences of calls with network faults and interruptions "
     "after any executed line; all loaders; image sizes.",
     "There is no network in the tests and no test of the loaders at all.",
     "copt/datasets.py",
     [("_load_dataset and load_* functions: cache test, download, checksum, extraction", "copt/datasets.py")],
     ["returned matrices and labels, requests, files of the data directory"],
     "property-based fault injection with a simulated network",
     "The network is replaced below urlretrieve; interruptions are asynchronous exceptions at line granularity, not power "
     "failures. Everything happens in a scratch directory.",
     state=[("data directory", "cached files", "COPT_DATA_DIR")])

prop("C25", "Compiled kernels do what the interpreted ones do",
     "With numba installed, the compiled total-variation, sparse, sampling and block proximal kernels and loss derivatives "
     "return the exact values defined for them, on any number of threads and without access outside of their arrays. The "
     "stochastic solvers then reach the same minimizers as without numba.",
     "inputs schedules configurations", "The cases of C06-C08, C15-C17 with numba, three threads and index checks.",
     "Without numba the tests only run the interpreted fallbacks, where types, bounds and parallel loops do not matter.",
     "copt/utils.py copt/tv_prox.py copt/penalty.py copt/loss.py copt/randomized.py",
     [("njit-decorated functions and closures", "copt/*.py")],
     ["return values and arrays updated in place"],
     "property-based testing of a compiled copy of the package",
     ORACLE + "Uses the numba found in /opt/numba-extra; without it, the interpreted kernels are checked again. Thread "
     "schedules are whatever numba produces.")

prop("C26", "Units and symmetries of a problem do not change the iterates",
     "Every operator and solver commutes with a change of units: with the objective multiplied by a constant and the variables divided by "
     "another, and the given steps and constants to match, it visits the same points in the new units. The same holds for "
     "permuted, reversed or sign-flipped features and, for the deterministic solvers with given steps, reordered or repeated "
     "samples, whenever the penalties allow it.",
     "inputs histories", "Random operators and problems for ten solvers, units 2^-14 to 2^14 (2^+-6 for the primal-dual method), symmetries.",
     "Tests use data of unit scale in one order, where absolute thresholds and mixed-up constants cannot be seen.",
     "copt/proximal_gradient.py copt/splitting.py copt/frank_wolfe.py copt/randomized.py",
     [("all ten solvers", "copt/*.py")],
     ["iterates shown to the callback, res.x"],
     "metamorphic property-based testing",
     ORACLE + "Given first steps: the first estimate of the Lipschitz constant and the slack of the line searches of proximal "
     "gradient and Frank-Wolfe are absolute numbers by design. The primal-dual method starts at the origin, "
     "since its dual variable starts at L x0.")

prop("C27", "Runs end and failures are reported, whatever the user's functions do",
     "Whatever the objective, derivative, oracle, proximal operators or callback do (not-a-number, infinite, huge, random or non-convex "
     "values at any call), every run returns or raises within max_iter iterations and a bounded number of evaluations, and "
     "never reports success with a point or certificate that is not finite. An exception raised by one of them reaches the caller unchanged, "
     "with x0 and the data as they were and later calls unaffected.",
     "inputs faults", "Random problems for ten solvers, nine kinds of fault at any call, once or persistent, fourteen exception types.",
     "Tests only pass functions that behave; a breakdown in the middle of a run is never simulated.",
     "copt/proximal_gradient.py copt/splitting.py copt/frank_wolfe.py copt/randomized.py",
     [("all ten solvers", "copt/*.py"), ("line searches", "copt/splitting.py copt/proximal_gradient.py copt/frank_wolfe.py")],
     ["number of calls of the user's functions, res.x, res.success, exceptions, a later call"],
     "property-based testing with fault injection",
     ORACLE + "Bounds on the number of evaluations are generous (thousands per iteration of a line search).")

prop("C28", "The PyTorch adaptor hands solvers the user's function and its gradient",
     "For every PyTorch function of an array with any number of axes, data type and device, make_func_and_grad returns, at a flat "
     "numpy point, its value as a number and its gradient as a flat numpy array in row-major order, without touching the point "
     "and whatever was evaluated before; without return_gradient it returns the value alone. Solvers given the adaptor reach the minimizer.",
     "inputs histories", "Random functions of arrays with one to four axes, random sequences of calls, five solvers.",
     "There is no test of the adaptor, and the examples which use it check no gradient.",
     "copt/utils_pytorch.py", [("make_func_and_grad", "copt/utils_pytorch.py")],
     ["value and gradient, the tensors handed to the user's function"],
     "property-based testing against closed forms",
     ORACLE + "PyTorch is not installed: a numpy stand-in with its documented semantics (vf/faketorch.py) takes its place; "
     "operations it lacks set the case aside.")

prop("C29", "Methods which can solve the same problem agree on its solution",
     "On a strongly convex problem of the example gallery (lasso, group lasso with and without overlaps, fused lasso, total "
     "variation, sparse and low-rank, trace norm, and l1 ball, trace-norm ball, simplex, box), whichever methods apply and report "
     "success end at the same point, up to their tolerance: proximal gradient with and without acceleration, three-operator "
     "splitting in both orders of its terms, primal-dual, SAGA, SVRG, VRTOS, and Frank-Wolfe up to its certified gap.",
     "inputs configurations", "Random dense and sparse data, three losses, conditioning, units, regularization, shapes.",
     "Tests run each solver alone against its own optimality measure, on one problem; no test compares two solvers, a penalty "
     "with its split or sparse form, or a prox with the oracle of the same set.",
     "copt/proximal_gradient.py copt/splitting.py copt/randomized.py copt/frank_wolfe.py copt/penalty.py copt/constraint.py copt/loss.py "
     "copt/tv_prox.py",
     [("minimize_proximal_gradient, minimize_three_split, minimize_primal_dual, minimize_saga, minimize_svrg, minimize_vrtos, "
       "minimize_frank_wolfe", "copt/"),
      ("prox, prox_factory and lmo of the same term", "copt/penalty.py")],
     ["res.x of the runs that report success"],
     "differential property-based testing of the solvers against each other",
     ORACLE + "Distances below 1e-5 (batch) or 1e-3 (stochastic) of the distance to travel are not told apart; runs that do not "
     "converge within the budget are not compared (C11, C12 and C14 to C16 decide convergence).")

prop("C30", "Line searches keep iterates where the objective is defined",
     "When the objective is infinite outside of an open domain (logarithmic barriers, entropies, log-determinants, balls), the "
     "methods with line search, started inside, never leave the domain, whatever trial points they reject, and what they report "
     "as a success is the minimizer (up to the tolerance). Proximal gradient and Frank-Wolfe do reach it.",
     "inputs", "Five kinds of objectives in up to nine variables, l1 penalties, starts close to the border, first guesses of the "
     "Lipschitz constant far too small, simplices and hulls that reach outside of the domain.",
     "Every objective of the tests is finite everywhere, so that no trial point is ever unusable.",
     "copt/proximal_gradient.py copt/splitting.py copt/frank_wolfe.py copt/utils.py",
     [("line searches of minimize_proximal_gradient, minimize_three_split, minimize_primal_dual", "copt/"),
      ("backtracking_step_size", "copt/frank_wolfe.py"), ("init_lipschitz", "copt/utils.py")],
     ["iterates seen by callbacks and oracles, res.x, res.success"],
     "property-based testing against optimality certificates",
     ORACLE + "Only +infinity marks the outside (its gradient there is useless); convergence of the splitting methods within "
     "the budget is not required here.")



def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                            "mechanism": [dict(name=a, where=b) for a, b in p["mechanism"]],
                            "observe_at": p["observe"], "hook_needed": p["hook"]}}) + "\n")
            assert len(p["title"]) <= 80, p["id"]
            n = p["statement"].count(". ") + 1
            assert n <= 3, (p["id"], n)
    checks = []
    for p in P:
        if p["na"]:
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 check.py %s" % p["id"],
            "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
            "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
        assert os.path.exists(os.path.join(ROOT, "vf", "props", p["id"].lower() + ".py")), p["id"]
    manifest = {
        "version": 1,
        "setup_cmd": "python3 check.py self-test",
        "checks": checks,
        "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
        "notes": "Every check is generated-input search with Hypothesis against explicit oracles (see DESIGN.md). No hooks "
                 "in /repo. VERIF_SEED seeds every random choice; replay with: python3 check.py <id> --replay <file>."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        f.write(json.dumps(manifest, indent=1) + "\n")


if __name__ == "__main__":
    main()
