"""The properties, their contract units and their bounded validation harnesses."""

COMMON_ASSUMPTIONS = [
    "double arithmetic is treated as real arithmetic and decimal literals as exact decimals (rounding, overflow and NaN are outside the proofs; the bounded validation runs the real doubles)",
    "signed 64-bit loop counters and pointer differences are mathematical integers (unsigned 32/64-bit arithmetic keeps its wrap-around)",
    "every division in a proved identity has a non-zero divisor",
    "sqrt, exp, log, pow, erf, cosh, sin, cos are uninterpreted functions constrained by listed sign/monotonicity facts",
]
COMMON_TRUSTED = [
    "clang 18 front end (AST of the source in /repo) and the verification condition generator in /verif/vc",
    "z3, cvc5 and the polynomial normaliser in /verif/vc/terms.py",
    "library contracts for std:: containers and algorithms in /verif/vc/lib.py",
]

NOT_APPLICABLE = {}

PROPS = {
    "C01": dict(title="Random streams equal the published recurrences", units=["c01"], oracle="c01.cc",
                note="All generator functions (seeding, block refill, tempering) are proved equal to the published recurrences for all seeds and all stream positions; seed arrays are enumerated for 1, 2 and 4 keys.",
                bounded="seeded streams of all six generators compared word by word with independent reference implementations",
                assumptions=["seed arrays are enumerated for 1, 2 and 4 keys in the proofs; other lengths are only validated"]),
    "C14": dict(title="Line profiles follow their formulas and superpose", units=["c14"], oracle="c14.cc",
                note="Constructors and operators of all profiles and superpositions proved equal to the formulas for all parameters over the reals; rounding is only validated.",
                bounded="random parameter vectors and abscissas against long double references"),
    "C17": dict(title="Air/vacuum conversion and heliocentric correction are correct and inverse", units=["c17"], oracle="c17.cc",
                note="Refractivity equations and derivatives proved over the reals. The Newton solver is proved to return an iterate that meets the accuracy goal and to raise an error otherwise, for any function. The main functions of the three utilities are proved for every argument vector and input: each wavelength is converted by the proved equation (or its inverse, or the Doppler factor), other columns pass through, errors reach the exit code and write nothing.",
                bounded="random data files through the three utilities (compiled from the current sources) and random wavelengths through the equations",
                assumptions=["reading and writing of columns as proved under C18", "a converged Newton step bounds the distance to the root (validated by runs)", "streams behave as documented"]),
    "C02": dict(title="Uniform deviates stay in [0,1]; normal deviates follow the polar method", units=["c02"], oracle="c02.cc",
                note="Word-to-real conversions of all generators proved (range, end points, monotonicity) for all words; the normal deviate generator is proved against a ghost stream of uniform deviates for all streams and call numbers.",
                bounded="extreme and random words through every conversion; normal deviates replayed against an independent polar method for scripted and real uniform streams",
                assumptions=["the rejection loop of the polar method terminates (it ends with probability one)"]),
    "C08": dict(title="Strategy parameters depend on the configuration, not on the order of calls", units=["c08"], oracle="c08.cc",
                note="minimize and maximize are proved to hand the configured settings, weights and seeded deviates to the search. Class invariant (weights and rates are the published functions of dimension and parent number) proved established by the constructor and with_defaults and preserved by every setter; build rejects population size < 2 parents or no parents.",
                bounded="random configuration call sequences against an independent computation of all strategy parameters",
                assumptions=["problem dimension below 2^16 and parent number below 2^30"]),
    "C15": dict(title="Profile functions are symmetric, non-negative and decrease away from the centre", units=["c15"], oracle="c15.cc",
                note="Symmetry, positivity, unit weights, monotonicity (simple pseudo-Voigt) and truncation (Doppler) proved over the reals from the code's own formulas.",
                bounded="random widths and abscissas on the real doubles"),
    "C22": dict(title="Eigendecompositions are correct, sized safely and report failures", units=["c22"], oracle="c22.cc",
                note="The three decomposition strategies are proved against the LAPACK interface contract (argument validity, workspace sizes, copy of the input, error on non-zero info, output order) for every dimension and return code.",
                bounded="random, singular and degenerate symmetric matrices through the real library",
                assumptions=["LAPACK dsyevd/dsyevr/dsyevx/ilaenv/dlamch behave as documented"]),
    "C16": dict(title="Adaptive quadrature covers its interval exactly and reuses values safely", units=["c16"], oracle="c16.cc",
                note="Class invariant of a part (each tabulated value belongs to its abscissa) proved for construction and both halves for all 16 formula pairs and arbitrary integrands; partition refinement, sums, stopping rule and infinite transforms proved; monomial exactness of each formula from the source tables.",
                bounded="adaptive integration of random functions and formula pairs against an independent implementation that reuses nothing; polynomials of the documented degree",
                assumptions=["parts are refined only for pairs of different formulas (with two equal formulas the error is zero and integration stops)", "std::make_heap, push_heap and pop_heap behave as documented", "the integrand is a pure function"]),
    "C09": dict(title="Free parameters map one-to-one onto the parameter vector of the fit", units=["c09"], oracle="c09.cc",
                note="Construction of the initial value, step and bound vectors, evaluation of the model for a vector of components (profile parameters, resolution, continuum order, lines of each section), reporting of values and uncertainties and the tables of sections and lines written by Model::put (every name with its own parameters) are proved for every number of sections, lines and components over models satisfying the class invariant of a parsed model, for the Intergalactic_Doppler and Many_Multiplet profiles.",
                bounded="random model definitions (sections, references, fixed and free parameters) parsed by the real code and compared with an independent reading",
                assumptions=["class invariant of a parsed model (sizes, component numbering by owner) is established by Model::get"]),
    "C20": dict(title="Extraction tools return exactly the tagged block of a result file", units=["c20"], oracle="c20.cc",
                note="The main function of each of the five tools is proved for every input (an arbitrary sequence of lines): the text written equals a recursive definition of the tagged block, all lines are read, the exit code is zero.",
                bounded="random result files with nested, repeated and similar tags against an independent line filter",
                assumptions=["std::getline and stream output behave as documented; standard output accepts all text"]),
    "C21": dict(title="Command line arguments reach the right setting and outcomes the right exit code", units=["c21"], oracle="c21.cc",
                note="Runner::run is proved for every argument vector and every outcome of model and optimiser (by contract): each of the seven arguments reaches its setting, unreadable arguments and wrong counts are rejected, exit codes follow the outcome. Echo of the arguments, their storage and the mapping of errors to exit codes in all four programs are proved.",
                bounded="random command lines with a scripted model against the optimiser set up directly; exit codes of the four programs",
                assumptions=["the text of a number is read as the stream library reads it", "settings are used as proved under C08"]),
    "C25": dict(title="Column readers are all-or-nothing and comments are stripped", units=["c25"], oracle="c25.cc",
                note="All six block readers and the line reader are proved for every input stream (contents, position and state), row count, delimiter and comment mark.",
                bounded="random texts against an independent tokenisation",
                assumptions=["stream extraction and std::getline behave as documented (a function of contents and position)"]),
    "C11": dict(title="The cost of a section is half chi-square over its unmasked data", units=["c11"], oracle="c11.cc",
                note="Cost of a model, stored cost, application of a model, masks and counts proved for every section size and content against the contracts of convolution and continuum (C12, C13).",
                bounded="random sections, masks and line models against an independent chi-square in long double",
                assumptions=["the optical depth is a pure function"]),
    "C12": dict(title="The continuum is the weighted least-squares Legendre polynomial", units=["c12"], oracle="c12.cc",
                note="Legendre recurrence, normal equations over the unmasked points, Cholesky factorisation, both triangular solves, evaluation and the error for non-positive pivots proved for every number of points and polynomials. That A = L L', L y = b, L' c = y give A c = b, and that A c = b with positive definite A minimises the residuals, are textbook lemmas (the first is proved in lemmas/).",
                bounded="random sections and absorptions against a long double QR least squares solution (up to 6 polynomials)",
                assumptions=["at most 2^15 polynomials", "the section has positive width"]),
    "C13": dict(title="Instrumental convolution is the exact integral of the interpolated absorption", units=["c13"], oracle="c13.cc",
                note="Primitives, supersampling and the convolution sum proved for every section, resolution and optical depth function; that the sum is the integral of the piecewise linear interpolation uses the primitives of g(x) and x g(x).",
                bounded="random sections, resolutions and lines against an independent long double evaluation",
                assumptions=["resolution and wavelengths are positive and increasing", "supersampling factor and number of kernel points fit in 30 bits, the number of supersamples in 32 bits", "the optical depth is a pure function"]),
    "C03": dict(title="Search points and results never violate the parameter constraints", units=["c03"], oracle="c03.cc",
                note="Loop invariants of the sampling loops of especia::optimize prove, from an arbitrary state of the search, that every individual of a population satisfies the constraint. For a box with a start inside, the centre stays in the box through every generation (convexity lemma in Lean) up to the result. Bounded_Constraint is proved to be the box test; minimize and maximize are proved to hand the given constraint to the search.",
                bounded="searches with box, costly box and non-convex constraints, every evaluated point inspected; fits with Bounded_Constraint",
                assumptions=["the resampling loop terminates (it may not when the constraint cannot be satisfied)", "recombination weights are positive (proved for the configured weights under C08)"]),
    "C04": dict(title="The optimisation result describes the state the search ended in", units=["c04"], oracle="c04.cc",
                note="Invariant of the generation loop of especia::optimize (any state, any number of generations): one generation counted per population, stop generation respected, underflow leaves the state, early exit only when converged or underflown, final fitness at the final point. minimize/maximize: the result reports exactly the final state and has uncertainties only if optimized.",
                bounded="searches from random states replayed generation by generation; fits through the public interface",
                assumptions=["the objective and the constraint cost are pure functions"]),
    "C05": dict(title="Selection and recombination use exactly the best individuals", units=["c05"], oracle="c05.cc",
                note="Proved for both comparators from an arbitrary state: each individual has the value of its own point, the first ranks are the best individuals in order, and the new centre is their weighted mean.",
                bounded="searches from random states replayed generation by generation (minimum and maximum)",
                assumptions=["std::partial_sort behaves as documented", "the objective and the constraint cost are pure functions"]),
    "C06": dict(title="Sampling and adaptation follow the published evolution strategy", units=["c06"], oracle="c06.cc",
                note="Transition relation of one generation proved from an arbitrary state for every dimension, population and parameter value: sampling, both cumulation paths, covariance update, refresh of axes and local steps with limited condition number, step size rule and convergence test.",
                bounded="searches from random states replayed generation by generation, eigendecompositions recorded",
                assumptions=["the eigendecomposition is an arbitrary function of the matrix handed over (its correctness is C22)"]),
    "C07": dict(title="Parameter uncertainties are rescaled by the measured curvature", units=["c07"], oracle="c07.cc",
                note="especia::postopti is proved for every dimension, bracket history and objective: probes are placed on the principal axes symmetric about the optimum, the uncertainties are the square roots of the covariance diagonal rescaled with the measured curvature, and a flat or negative curvature is reported. minimize and maximize are proved to hand their settings over and to return what the computation reports.",
                bounded="quadratic, quartic and non-smooth objectives with recorded probes replayed against an independent computation",
                assumptions=["the bracket search terminates", "the objective is a pure function", "the global step size is positive"]),
    "C24": dict(title="Parallel fitness evaluation is race-free, deterministic and reports errors", units=["c24"], oracle="c24.cc",
                note="Every access of the worker threads and of the creating thread in especia::optimize and especia::postopti is recorded by symbolic execution for an arbitrary number of workers; each possible conflict is an obligation (own element, ordered by creation and join). The value of each individual equals a sequential evaluation, an error of an evaluation is the one rethrown, only after all workers are joined, and minimize and maximize pass it on.",
                bounded="searches with random delays compared bit by bit with undisturbed ones; random and final evaluations raising errors",
                assumptions=["threads can be created (std::thread does not throw std::system_error)", "the user's objective and constraint are pure functions that may throw and are safe to call concurrently", "the OpenMP variant is not compiled"]),
    "C18": dict(title="Data columns stay aligned through reading, zipping and writing", units=["c18"], oracle="c18.cc",
                note="Reading and writing of two and three columns and the merging tool itself are proved for every number of rows and every input: each output row holds the values of one input row, an optional row is kept exactly when its criterion holds, unreadable and mis-sized input is an error.",
                bounded="random columns merged and written by the real code and re-read independently",
                assumptions=["streams behave as documented (numbers read are an uninterpreted function of text and position)", "a text has less than 2^40 lines", "a line that cannot be read from a good stream is at the end of the text"]),
    "C19": dict(title="Spectral data rows are filtered and defaulted as documented", units=["c19"], oracle="c19.cc",
                note="Section::get is proved for every input text: rows with a wavelength in the closed interval are kept in order with their flux, uncertainty and mask, documented defaults for missing columns, comments skipped, first empty line ends the data, unreadable rows and empty selections are errors. Section::put is proved to write the columns of every row. That written rows read back to the same data is validated by runs only.",
                bounded="random data files (comments, missing columns, unreadable rows) against an independent reading",
                assumptions=["streams behave as documented (numbers read are an uninterpreted function of text and position)", "a text has less than 2^40 lines", "a line that cannot be read from a good stream is at the end of the text", "the arrays of a section have the size of the section"]),
    "C10": dict(title="Parameter references resolve to the referenced parameter or are rejected", units=["c10"], oracle="c10.cc",
                note="Model::parse is proved to return a model only for a definition that was read to its end without failure and to raise an error otherwise, against the contract of the parser (Model::get), whose resolution of references and rejection of invalid definitions is validated by runs only (bounded).",
                bounded="random model definitions with chains and cycles of references, undefined references, duplicate names, unreadable files and syntax errors against an independent reading",
                assumptions=["Model::get leaves the stream failed for an invalid definition (bounded validation only)"]),
}
