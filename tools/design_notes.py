NOTES = {
"C01": "Oracle: two-pass statistics in long double. Tolerance: rounding of the data (eps*|offset|) plus 1e-12-scale relative to the spread, so a one-pass formula (sum of squares minus square of the sum) fails. The tests feed one data set in one batching; the property is over all batchings and offsets.",
"C02": "Oracle: a Python list of the samples. A model-based history; aliasing is found by keeping every value read and comparing again at the end, and by overwriting the buffers handed in.",
"C03": "Oracle: the regression formula on all samples so far (two-pass), and the exact expectation for exactly linear responses.",
"C04": "Oracle: t and normal quantiles from the inverse incomplete beta and error functions (not scipy.stats, which the code may use), decisions by the written rule; tolerances are placed at factors 1 +- 1e-6.. of the compared quantities so that thresholds, degrees of freedom and the n < 30 / >= 30 switch are decided on both sides.",
"C05": "Oracle: the formulas on the raw samples; knee: an independent Kneedle implementation plus metamorphic relations (powers of two, signs).",
"C06": "Oracle: Python's Boolean evaluation of the tree on the parts' own decisions, state of estimator and parts compared before and after.",
"C07": "Oracle: support and norms by definition, moments by 7 standard errors over >= 20000 columns (probability of a false alarm below 1e-9 per run), bitwise equality between the ways of asking.",
"C08": "Schedules are generated: a stand-in pool runs the worker tasks under a drawn order or line-level interleaving (`sys.settrace` gates every source line), so the outcome is a function of the case. Bounded by line granularity (no interleaving inside a NumPy call).",
"C09": "Oracle: dense symmetric eigensolver, tolerance n*eps*norm.",
"C10": "Oracle: soft-sign as an exact rational polynomial (Fraction), the others by definition; tolerance a few units in the last place amplified by the argument.",
"C11": "Oracle: B*Binv against the identity with the component-wise bound eps*k*|B||Binv|.",
"C12": "Oracle: LAPACK on the same matrix and the residual/orthogonality of the returned vectors, relative to the norm; the case runs in a forked child when it crashes.",
"C13": "Oracle: dense eigen-decomposition, moments e1'T^m e1 by products, recombined by cluster for (near-)equal nodes.",
"C14": "Oracle: the defining relations, evaluated directly; for coefficients, Lanczos in long double with full reorthogonalisation and a tolerance from its own sensitivity to a rounding-size perturbation. C14 `window` uses outliers so that lost orthogonality is visible: a width that is too small by one shows; `scales` repeats the window check for the operator times powers of two, where a threshold with an absolute unit shows.",
"C15": "Oracle: dense eigenvalues; Cauchy interlacing and the residual identity.",
"C16": "Oracle: f applied through the known eigen-decomposition from which the matrix was generated (no second eigensolver error).",
"C17": "As C16; quadrature exactness up to degree 2k-1 is reached with Chebyshev polynomials of exactly that degree.",
"C18": "Oracle: scipy.linalg.toeplitz times the block, tolerance n*eps*norm (FFT).",
"C19": "Oracle: dense eigenvalues of original and normalised operator.",
"C20": "Oracle: the acceptance rule written out in the check.",
"C21": "Oracle: recorded probes, their quadratic forms, the criterion replayed on a fresh estimator. Exactness by enumeration of sign vectors.",
"C22": "Oracle: independent QR of the recorded sketch.",
"C23": "Oracle: one least-squares basis per omitted probe, i.e. the definition, O(m) factorizations instead of the code's downdates.",
"C24": "Oracle: recorded probes, the written formula.",
"C25": "Oracle: direct leave-one-out computation, products counted by a recording operator.",
"C26": "Native code runs under AddressSanitizer/UBSan with exact-size buffers; degree, width and ncv are drawn over every valid combination and arbitrary integers through the clamps.",
"C27": "Fault injection: a clean run counts the user calls, then one drawn call raises. Oracle: identity of the exception object, call log, and equality of later results with fresh objects.",
"C28": "bokeh is not installed; a recording stand-in replaces it, so what is decided is the data handed to the glyphs, not pixels.",
"C29": "Oracle: differential, each program alone in a fresh process. Threads are real threads with a small switch interval, so a race is found only if it happens in that run; the interleaved histories are deterministic.",
"C30": "Oracle: the same estimator on the explicit f(A) with the same recorded probes; identities by enumeration of sign vectors.",
}
