"""Writes /verif/properties.jsonl (the properties are edited here)."""
import json, os
P = []
def prop(id, title, statement, over, q, why, files, mech, observe, state=None):
    a = {"files": ["src/primate/" + f for f in files], "mechanism": [{"name": n, "where": "src/primate/" + w} for n, w in mech],
         "observe_at": [observe], "hook_needed": None}
    if state: a["state"] = [{"name": state, "meaning": "mutable state carried between calls", "where": "src/primate/" + mech[0][1]}]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": q}, "why_tests_cant": why, "anchors": a})

prop("C01", "Running mean and covariance equal the batch statistics under any batching",
 "However a data set is split into batches, the running tracker's count, mean and covariance (for every ddof below the count) equal those computed from all rows at once, up to rounding relative to the spread of the data plus the rounding of the data itself. This includes data with a common offset many orders of magnitude larger than the spread. Before any data the mean is NaN, and while the count does not exceed ddof the covariance is infinite.",
 ["inputs", "histories"], "all real data sets of any dimension, all splits of the rows into non-empty batches (scalars, 1-d, 2-d), all ddof",
 "The tests use ten-row standard normal batches of dimension 1 and 2 only; unequal batches, offsets, single rows and other ddof are unsampled.",
 ["stats.py"], [("parallel mean/covariance update", "stats.py:Covariance.update"), ("mean update", "stats.py:Mean.update")], "Mean() / Covariance() return values after each update")
prop("C02", "The mean estimator reports exactly the samples it was given",
 "After any history of updates the mean estimator's length is the number of samples received, its estimate is their componentwise mean, its last change is the difference between the current and the previous mean (the first measured from zero), and, when recording, its record lists the samples in order of arrival. An estimate, change or record value read earlier is not altered by later updates. Tracking the covariance or recording changes nothing else.",
 ["histories"], "all histories of updates (scalar, vector, matrix batches) and reads, dimension, covariance and record flags",
 "It quantifies over histories and aliasing between reads and later updates; the tests only check a final value.",
 ["estimators.py", "stats.py"], [("update bookkeeping", "estimators.py:MeanEstimator.update"), ("running mean storage", "stats.py:Mean")], "len(), estimate, mean, delta, values, n_samples after each operation")
prop("C03", "Control-variable estimates equal the regression-adjusted mean",
 "After any sequence of batches the control-variable estimate is the sample mean minus the coefficients times the deviation of the control variables' sample means from their expected values, with the given coefficients or, if none are given, the least-squares coefficients of all samples so far (the plain mean while there are fewer than two samples). When the samples are an exact linear function of the control variables the estimate is the exact expectation. Length, recorded values and last change follow the updates as for any estimator, so every stopping rule that reads only those can be applied to it.",
 ["inputs", "histories"], "all sample/control data of 1 to 4 control variables, all splits into batches including single samples, given or estimated coefficients",
 "The single test only counts how often one simulated example improves on the plain mean.",
 ["estimators.py", "stats.py"], [("coefficient estimation and update", "estimators.py:ControlVariableEstimator.update"), ("adjusted estimate", "estimators.py:ControlVariableEstimator.estimate")], "estimate, alpha, len(), delta, values")
prop("C04", "Confidence intervals and the confidence stopping rule are calibrated",
 "The confidence interval of a sample is its mean plus and minus the two-sided Student-t quantile with n-1 degrees of freedom (or the normal quantile, if asked) times the standard error. The confidence stopping rule is satisfied exactly when at least 3 samples were seen and either that half-width (t quantile with n-1 degrees of freedom below 30 samples, normal quantile from 30 on) is at most the absolute tolerance or the standard error relative to the magnitude of the mean is at most the relative tolerance. Its message names the half-width and the confidence level actually used.",
 ["inputs", "histories"], "all samples, confidence levels in (0,1), tolerances on either side of the computed margin, sample counts across the 3 and 30 boundaries",
 "The tests compare one normal and one t interval at n=1500 and check coverage loosely; quantile indices, degrees of freedom and boundaries are invisible to them.",
 ["estimators.py", "stats.py"], [("interval", "stats.py:confidence_interval"), ("margin of error", "estimators.py:ConfidenceCriterion._error"), ("decision", "estimators.py:ConfidenceCriterion.__call__")], "returned interval; boolean decision and message of the rule")
prop("C05", "Count, tolerance and knee stopping rules decide by their stated criterion",
 "The count rule is satisfied exactly when at least the given number of samples was seen. The tolerance rule is satisfied exactly when the norm (of the chosen order) of the last change of the estimate is below the absolute tolerance or below the relative tolerance times the norm of the estimate. The knee rule applies the Kneedle test with the given sensitivity to the cumulative absolute differences of the running sample means, is never satisfied with fewer than three recorded values or with a flat sequence, and does not depend on the scale or sign of the samples.",
 ["inputs", "histories"], "all update histories, dimensions, norm orders 1, 2 and infinity, tolerances, counts and sensitivities",
 "The tests run each rule once on one random stream until it stops; the decision at every other history is unsampled.",
 ["estimators.py"], [("count", "estimators.py:CountCriterion.__call__"), ("tolerance", "estimators.py:ToleranceCriterion.__call__"), ("knee", "estimators.py:KneeCriterion.__call__")], "boolean decision after each update")
prop("C06", "Stopping rules compose as Boolean algebra and are routed by name",
 "For any expression built from stopping rules with and, or and not, the composite's decision on any estimator state equals the Boolean expression of its parts' decisions, evaluating it changes neither the estimator nor the parts, and composites can be nested and reused. Selecting a rule by name (in any letter case) with keyword arguments yields a rule that decides as the directly constructed one with the same arguments; keywords the rule does not know are ignored, an existing rule is returned unchanged, and an unknown name is rejected.",
 ["programs", "inputs"], "all rule expressions of any depth, all estimator states, all names with keyword combinations",
 "The tests try one and, one or, and one not on one stream.",
 ["estimators.py", "typing.py"], [("composition", "estimators.py:ConvergenceCriterion.__and__/__or__/__invert__"), ("factory", "estimators.py:convergence_criterion"), ("keyword routing", "typing.py:restrict_kwargs")], "decisions of the composite and of its parts")
prop("C07", "Isotropic vectors have the promised support, scale, shape and moments",
 "Every column generated as rademacher has entries -1 or +1, every sphere column has norm equal to the square root of its length, and for every distribution the entries are uncorrelated with mean zero and variance one. The result has the requested shape (an integer means one column), the same seed gives the same values whether asked in one call, through the returned sampler, by an alias of the name or into an output array, and drawing columns one at a time equals drawing them together. Unknown distributions are rejected.",
 ["inputs", "histories"], "all sizes, seeds and generators, distributions and aliases, call forms (size, sampler, output array of either order and precision)",
 "The tests use one seed and a 5x1500 sample; entry support, aliasing of call forms and other shapes are unsampled.",
 ["random.py"], [("fillers", "random.py:_rademacher_inplace/_normal_inplace/_sphere_inplace"), ("entry point", "random.py:isotropic")], "returned or filled array")
prop("C08", "Multi-threaded isotropic filling does not depend on the thread schedule",
 "For a given seed, size, distribution and number of threads, the values after each fill are the same under every order and interleaving of the worker tasks, and every column is filled exactly once, even when the threads outnumber the columns or do not divide them. With one thread the values equal those of the plain generator with the same seed. Successive fills draw fresh values, and filling satisfies the distribution's support.",
 ["schedules", "inputs"], "all task orders and interleavings of the worker pool, thread counts, sizes, distributions, seeds and numbers of fills",
 "One timing-based test runs the pool; it controls no schedule.",
 ["random.py"], [("column partition and submission", "random.py:Isotropic.fill"), ("per-thread generators", "random.py:Isotropic.__init__")], "values array after each fill", state="per-thread random generators, shared values array")
prop("C09", "Random symmetric and Haar matrices have the prescribed spectrum",
 "A generated random matrix of size n is real and symmetric (for the Haar variant up to rounding) and its eigenvalues are exactly the prescribed ones up to rounding; without prescribed ones they lie in [-1,1]. A matrix requested positive-definite has no negative eigenvalue, negative prescribed values being clipped to zero. The same seed gives the same matrix, different seeds different ones.",
 ["inputs"], "all sizes, prescribed spectra (repeated, zero, negative, large), entry distributions, seeds and generators",
 "The tests use one spectrum and one seed at n=25.",
 ["random.py"], [("symmetric generator", "random.py:symmetric"), ("Haar generator", "random.py:haar")], "eigenvalues and symmetry of the returned matrix")
prop("C10", "Spectral scalar functions equal their definitions and names map to them",
 "The soft-sign, smoothstep, exponential and step functions equal their mathematical definitions pointwise for every parameter value, whether evaluated directly or through the returned callable, in particular soft-sign is odd, nondecreasing, bounded by 1 and clipped outside [-1,1], and smoothstep rises from 0 at a to 1 at b. Each built-in function name, with its keyword parameters, maps to the function of that name; nothing maps to the identity; a callable is returned unchanged; an unknown name is rejected.",
 ["inputs"], "all arguments (inside, outside and at the boundary of the domain, scalars and arrays), all parameters, all names",
 "The tests check one monotonicity of one norm of soft-sign.",
 ["special.py"], [("definitions", "special.py:softsign/smoothstep/exp/step"), ("name mapping", "special.py:param_callable")], "function values")
prop("C11", "Appending a column to a triangular inverse gives the inverse",
 "Given the inverse of any invertible upper-triangular matrix and a new column with nonzero last entry, the update returns the inverse of the matrix extended by that column, starting from the empty matrix and for any number of successive updates, leaving its inputs unmodified. Inputs of mismatching length, shape or precision are rejected.",
 ["inputs", "histories"], "all well-conditioned upper-triangular matrices and columns, any number of updates from size 0",
 "The tests start at size 1 with positive entries and do one update.",
 ["linalg.py"], [("update", "linalg.py:update_trinv")], "product of returned matrix with the extended matrix")
prop("C12", "Tridiagonal eigensolvers return the true eigen-decomposition",
 "For every real symmetric tridiagonal matrix, whichever method is chosen and whether the subdiagonal is given with or without its leading zero, the returned values are the eigenvalues (with multiplicity) to backward-stable accuracy, and the returned vectors are orthonormal eigenvectors matched to the values. The inputs are not modified and no input, including zero, split, repeated or graded matrices, crashes the interpreter. The in-place QL routine leaves a zero subdiagonal.",
 ["inputs"], "all diagonals and subdiagonals of size 1 and up, including zero, negative, repeated, split and badly scaled entries, all methods",
 "The tests only feed Lanczos coefficients of random positive-definite matrices.",
 ["tridiag.py", "tqli.py"], [("dispatch", "tridiag.py:_eigh_tridiag"), ("implicit QL", "tqli.py:tqli")], "returned eigenvalues/eigenvectors; input arrays; process exit")
prop("C13", "Quadrature rules are Gauss rules of the leading Jacobi matrix",
 "The degree-k rule of a Jacobi matrix has as nodes the eigenvalues of its leading k-by-k block and as weights the squared first components of the normalised eigenvectors, by either method; the weights are nonnegative and sum to one. Hence it integrates every polynomial of degree up to 2k-1 exactly with respect to the matrix's spectral measure. Output arrays receive exactly the returned nodes and weights, degrees beyond the matrix size use the whole matrix, and invalid methods or output lengths are rejected.",
 ["inputs"], "all Jacobi matrices (subdiagonal with or without leading zero), degrees, methods and output arrays; the recurrence method for non-split matrices of moderate size",
 "The tests check one first moment loosely and one full-degree rule of one matrix.",
 ["integrate.py", "fttr.py", "tridiag.py"], [("rule", "integrate.py:quadrature"), ("three-term recurrence weights", "fttr.py:fttr/ortho_poly")], "returned nodes and weights, output arrays")
prop("C14", "Lanczos returns the Jacobi matrix and orthonormal Krylov basis of (A,v)",
 "For any symmetric operator and nonzero start vector, the first column of the basis is the normalised start vector and the basis and coefficients satisfy the three-term recurrence A Q = Q T + residual to rounding, with nonnegative subdiagonal; with reorthogonalisation against w vectors each basis vector is orthogonal to the w before it, and with full reorthogonalisation the basis is orthonormal and Q^T A Q = T. The coefficients do not depend on how the operator is given (dense in either order, sparse, matrix-free), on scaling of the start vector, or on returning the basis, and shifting or scaling the operator shifts or scales them. The sparse output holds the same coefficients, the seed determines a default start vector, workspaces given by the caller hold the same results whatever they held before (those that cannot be used are rejected), and inputs are left unmodified.",
 ["inputs", "configurations"], "all symmetric operators of every supported kind and precision, start vectors, degrees, reorthogonalisation widths, seeds, output forms",
 "The tests fix one random dense matrix and a few degrees in double precision.",
 ["lanczos.py", "_lanczos.cpp", "include/lanczos.h", "include/eigen_operators.h", "include/pylinop.h"], [("recurrence and reorthogonalisation", "include/lanczos.h:lanczos_recurrence/orth_vector"), ("parameters and output", "lanczos.py:lanczos")], "returned coefficients, basis, sparse matrix; input arrays")
prop("C15", "Ritz values respect the spectrum and become exact at full degree",
 "Every Ritz value lies within the range of the operator's spectrum, the i-th smallest Ritz value is at least the i-th smallest eigenvalue and the i-th largest at most the i-th largest, and values of consecutive degrees interlace (all with full reorthogonalisation, up to rounding). When the Krylov space is exhausted the Ritz values are exactly the eigenvalues excited by the start vector and no spurious value is added; a tolerance given ends the expansion at the first coupling below it. Returned Ritz vectors are orthonormal and, mapped through the returned basis, give residuals bounded by the last coupling coefficient.",
 ["inputs"], "all symmetric matrices (including repeated, clustered, zero and rank-deficient spectra) and start vectors, all degrees from 2",
 "The tests compare a few values on one generic random matrix, where early termination never happens.",
 ["lanczos.py", "tridiag.py"], [("Ritz extraction", "lanczos.py:rayleigh_ritz")], "returned Ritz values, vectors and basis")
prop("C16", "Matrix-function products equal f(A)v where theory says they are exact",
 "When the degree reaches the number of distinct eigenvalues excited by v with full reorthogonalisation, or f is a polynomial of degree below the degree of the expansion, the operator's product with v equals f(A)v up to rounding amplified by f, for every supported operator kind, function form (name with parameters or callable) and precision, for vectors, columns and blocks. The product is homogeneous in v, maps zero to zero, does not depend on earlier calls, and leaves inputs unmodified. The operator follows the linear-operator interface (shape, dtype, products, adjoint, sums and scalings) and its degree never exceeds the dimension.",
 ["inputs", "histories"], "all symmetric operators (including repeated and low-rank spectra), vectors in invariant subspaces, functions, degrees, reorthogonalisation widths, call histories",
 "The tests use generic full-degree random matrices, where early termination, stale work arrays and other kinds never show.",
 ["operators.py", "lanczos.py"], [("action", "operators.py:MatrixFunction._matvec"), ("construction", "operators.py:MatrixFunction.__init__"), ("one-shot form", "operators.py:matrix_function")], "result of products", state="reused basis, coefficient, node and weight arrays")
prop("C17", "Quadratic forms equal v'f(A)v where Gauss quadrature is exact",
 "For every column of the input the returned quadratic form equals v'f(A)v up to rounding amplified by f whenever the degree reaches the number of distinct eigenvalues excited by v or f is a polynomial of degree below twice the degree, with any reorthogonalisation width when the expansion is numerically orthogonal. It is quadratic in v, nonnegative for nonnegative f, computed per column independently of the other columns, and does not depend on earlier products or quadratic forms evaluated with the same operator. The input is left unmodified, and vectors of the wrong length are rejected.",
 ["inputs", "histories"], "all symmetric operators, vectors and blocks, functions, degrees and histories of interleaved products and quadratic forms",
 "The tests evaluate the identity function at full degree on fresh objects.",
 ["operators.py", "integrate.py"], [("quadrature of the Jacobi matrix", "operators.py:MatrixFunction.quad")], "returned array", state="reused basis, coefficient, node and weight arrays")
prop("C18", "The Toeplitz operator equals the dense Toeplitz matrix",
 "For every first column and optional first row of any length, products of the matrix-free Toeplitz operator with vectors, columns and blocks equal those of the dense Toeplitz matrix up to rounding, in double and single precision. Results of earlier products are not altered by later ones, and neither inputs nor defining arrays are modified. Vectors of the wrong length are rejected.",
 ["inputs", "histories"], "all first columns and rows (symmetric or not), lengths from 1, vectors, blocks, precisions, sequences of products",
 "The operator has no test.",
 ["operators.py"], [("circulant embedding", "operators.py:Toeplitz.__init__"), ("FFT product", "operators.py:Toeplitz._matvec")], "result of products", state="reused FFT workspace")
prop("C19", "Spectrum normalisation maps the spectrum affinely into [-1,1]",
 "For every symmetric operator with nonzero spectrum, the normalised operator's eigenvalues all lie in [-1,1] up to rounding and the eigenvalue of largest magnitude maps to 1. It is an affine function of the original: it has the same eigenvectors, keeps the relative spacing of eigenvalues, and is unchanged when the original is multiplied by a nonzero constant. The original is unmodified.",
 ["inputs"], "all symmetric dense, sparse and matrix-free operators with nonzero spectrum: positive, negative, indefinite, any scale",
 "The test checks one positive spectrum's top eigenvalue only.",
 ["operators.py"], [("normalisation", "operators.py:normalize_unit")], "eigenvalues of the returned operator")
prop("C20", "Operators are accepted exactly when usable",
 "An object is accepted as an operator exactly when it offers a matrix product, has a shape of at least two dimensions and is square; the validity check also requires single or double precision, inferring it from a product when the object does not declare it, and returns it. The Boolean test answers false, without raising, for any other object (whose shape, if it has one, is a sequence). Estimators and factorisations reject unusable operators and leave usable ones unmodified.",
 ["inputs", "configurations"], "all combinations of attributes, shapes, precisions and products of operator-like objects",
 "The tests never pass an unusable operator.",
 ["operators.py", "trace.py", "diagonal.py"], [("validity", "operators.py:is_valid_operator"), ("Boolean test", "operators.py:is_linear_op")], "acceptance, returned precision, rejection")
prop("C21", "Hutchinson trace estimates are the mean of quadratic forms over the probes",
 "The estimate equals the average of v'Av over exactly the probe vectors drawn, where drawing stops at the first point at which the stopping rule is satisfied, in single-vector mode and in batches of the given size. Over all sign vectors it is the exact trace; for sign or sphere probes it is exact on diagonal or scaled-identity matrices respectively; and it is linear in A for fixed probes. The same seed gives the same estimate, and the returned information describes the final state (estimate, number of samples, estimator, criterion), including at each callback.",
 ["inputs", "histories"], "all square operators, probe distributions or user samplers, stopping rules, batch sizes, seeds, callbacks",
 "The tests check loose closeness on one matrix; which probes count, when sampling stops and what callbacks see is unobserved.",
 ["trace.py", "estimators.py", "random.py"], [("Monte-Carlo loop", "trace.py:hutch")], "returned estimate and information, probes drawn, callbacks")
prop("C22", "Hutch++ estimates equal projection trace plus residual average",
 "For given probes the estimate is the trace of A on the orthonormal sketch of A times the first probe block plus the average quadratic form of the second block projected off the sketch, in both evaluation modes and for plain and quadratic-form operators. It is exact up to rounding whenever the sketch spans the range of A (for continuous probes, whenever the rank of A does not exceed the sketch size), and never uses a sketch larger than A's dimension. Small matrices and small budgets work, and the detailed result agrees with the plain one.",
 ["inputs"], "all square operators (low rank included), budgets, modes, samplers and seeds",
 "The tests check one full-budget run loosely.",
 ["trace.py"], [("deflation and residual", "trace.py:hutchpp")], "returned estimate and information, probes drawn")
prop("C23", "XTrace estimates equal the exchangeable leave-one-out estimator",
 "For the probes drawn, the estimate is the average over probes of the leave-one-out low-rank-plus-residual trace estimates, including the sphere normalisation, whatever the batch size. With as many sphere probes (the default) as the dimension the estimate is the exact trace. Sampling stops at the first batch after which the chosen stopping rule is satisfied or the dimension is reached, and callbacks and the detailed result carry the current estimate and sample count.",
 ["inputs", "histories"], "all square well-conditioned operators, batch sizes, distributions or samplers, stopping rules, seeds",
 "The tests only look at the final full-dimensional estimate of one matrix.",
 ["trace.py", "linalg.py"], [("leave-one-out samples", "trace.py:_xtrace"), ("adaptive loop", "trace.py:xtrace"), ("QR/inverse updating", "linalg.py:update_trinv")], "returned estimate and information, callbacks")
prop("C24", "Stochastic diagonal estimates follow their probes and are exact on diagonals",
 "The estimate equals the average, over the drawing steps, of the ratio of the accumulated products of probe and image to the accumulated squared probes, stopping at the first step at which the stopping rule is satisfied. It is exact for every diagonal matrix and distribution, linear in A for fixed probes, and with single sign probes it averages to the exact diagonal over all sign vectors. The same seed gives the same estimate, and plain, detailed and callback modes agree.",
 ["inputs", "histories"], "all square operators, distributions or samplers, stopping rules, seeds, callbacks",
 "The tests check one loose error bound.",
 ["diagonal.py", "estimators.py"], [("Monte-Carlo loop", "diagonal.py:diag")], "returned estimate and information, probes drawn, callbacks")
prop("C25", "XDiag estimates equal the leave-one-out diagonal estimator within budget",
 "For the probes drawn, the estimate is the average over probes of the leave-one-out low-rank-plus-residual diagonal estimates of the same sketch. A budget of m products uses at most m products (rounded up to even) and never a sketch beyond the dimension. The result has one entry per row, is equivariant under scaling of A, is reproducible from the seed, and A is unmodified.",
 ["inputs"], "all square well-conditioned matrices, symmetric or not, budgets, distributions and seeds",
 "The tests check the length and a decreasing error trend on one matrix.",
 ["diagonal.py"], [("leave-one-out diagonal", "diagonal.py:xdiag")], "returned vector, number of products")
prop("C26", "The native headers are memory-safe and compute what they state",
 "For every valid combination of dimension, degree, reorthogonalisation width and number of stored vectors, the native Lanczos recurrence reads and writes only its arguments, and its coefficients satisfy the recurrence; vector orthogonalisation removes the components along the chosen columns and ignores zero columns. The native dense, sparse, Gram and affine operators compute the products of their matrices, and the parameter clamps always yield a valid combination. A matrix-free operator whose product has the wrong length is rejected rather than read out of bounds.",
 ["inputs", "configurations"], "all dimensions, degrees, widths, stored-vector counts, precisions, matrices; out-of-range parameters for the clamps",
 "The test suite never runs under a memory checker, and most native operators have no binding.",
 ["include/lanczos.h", "include/eigen_operators.h", "include/linear_operator.h", "include/pylinop.h", "_lanczos.cpp"], [("recurrence", "include/lanczos.h:lanczos_recurrence"), ("clamps", "include/lanczos.h:param_deg/param_ncv/param_orth"), ("operators", "include/eigen_operators.h"), ("Python operator", "include/pylinop.h")], "sanitizer reports and outputs of a driver over the headers; the extension's behaviour")
prop("C27", "Failures in user code propagate and leave objects usable",
 "When a user-supplied operator, sampler, function, callback or stopping rule raises at any point of a computation, that same exception reaches the caller, nothing is swallowed, and no further user calls are made. Objects involved (matrix functions, estimators, criteria, generators) give correct results in later calls. A step whose operator or sampler raises is not counted, and an estimator that rejects a sample is unchanged.",
 ["fault_sequences", "histories"], "all positions of a raising call within every estimator and factorisation, followed by retries",
 "No test makes any user-supplied piece fail.",
 ["trace.py", "diagonal.py", "lanczos.py", "operators.py", "include/pylinop.h"], [("operator calls from native code", "include/pylinop.h:matvec"), ("estimator loops", "trace.py, diagonal.py")], "exception at the caller; results of later calls")
prop("C28", "Figures plot the running statistics of the given samples",
 "The convergence figure plots every valid sample against its index and the running mean of the samples, with a line at the true value if given; the error figure plots, per sample count, the absolute or relative error to the true value if given and otherwise the confidence bound of the running mean, with the threshold if given. Estimators and plain sequences with the same values give the same figure data. The cumulative spectral figure plots, for eigenvalues in ascending order, the fraction of them below each value; the Jacobi figure plots the polynomials of degree below the given one (three to ten) over [-1,1]. Inputs are left unmodified.",
 ["inputs"], "all sample sequences, estimators with recorded values, true values, thresholds and modes",
 "The plotting module is only imported by the tests.",
 ["plotting.py"], [("convergence figure", "plotting.py:figure_sequence"), ("error figure", "plotting.py:figure_error"), ("spectral figure", "plotting.py:figure_csm")], "data passed to the plotting library (recorded by a stand-in)")
prop("C29", "Computations are isolated from each other and from global state",
 "For any interleaving of calls on independent objects, each seeded call returns what it returns alone in a fresh process, whatever was called before. No call changes NumPy's global random state, error or print settings, its own array arguments, or default values seen by later calls, and a generator passed as seed is advanced identically by identical calls. Results returned earlier are never altered by later calls.",
 ["histories", "schedules"], "all sequences and interleavings of calls across the public functions, including concurrent threads on independent operators",
 "Tests run each function once or twice on fresh objects and never compare across histories.",
 ["trace.py", "diagonal.py", "random.py", "lanczos.py", "operators.py", "estimators.py"], [("default arguments and class attributes", "estimators.py:Estimator/MeanEstimator"), ("seed handling", "random.py:isotropic")], "results of the same call in different histories")
prop("C30", "Stochastic Lanczos quadrature estimates the trace of f(A)",
 "Passing a matrix function to the trace estimators gives the average of its quadratic forms over the probes, so over all sign vectors it is the exact trace of f(A) whenever the quadrature is exact. For the same probes it agrees with applying the estimator to the explicitly formed f(A), in single and batched mode, for Hutchinson and Hutch++, and the diagonal and XTrace estimators agree through products. Log-determinant, inverse trace, numerical rank and norm identities follow for full-degree expansions.",
 ["inputs"], "all symmetric operators with f defined on the spectrum, functions, degrees at which quadrature is exact, probes",
 "The one test compares the identity function with the plain matrix on one matrix.",
 ["trace.py", "operators.py", "diagonal.py"], [("quadratic-form dispatch", "trace.py:hutch/hutchpp"), ("quadratic form", "operators.py:MatrixFunction.quad")], "returned estimates")
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
