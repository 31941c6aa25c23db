#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/main/cxx/"
P = []


def p(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[S + f for f in files], mechanism=[dict(name=n, where=S + w) for n, w in mech])))


p("C01", "Random number streams equal the published generator recurrences",
  "For every seed value and every seed array, each random number generator produces exactly the word stream of its published algorithm (32 and 64 bit Mersenne Twister, 64 bit maximally equidistributed Melg, permuted congruential generator): the k-th word is the published function of the seed and k for all k, across all internal block boundaries.",
  ["inputs", "histories"], "all seeds, seed arrays and stream positions",
  "The tests compare the first few words for one seed; seeds, the rarely used generators and positions beyond the first block are never reached.",
  ["core/random.h"], [("twist and tempering of the state vector", "core/random.h"), ("state initialisation from a seed and from an array", "core/random.h")])
p("C02", "Uniform deviates stay in [0,1]; normal deviates follow the polar method",
  "Every uniform random deviate derived from a generator word is the word's leading bits scaled linearly such that the smallest word gives 0, the largest gives 1 and larger words never give smaller deviates. A normal deviate generator turns each accepted pair of uniform deviates inside the open unit disk (origin excluded) into the two polar-method normal deviates, delivered one after the other, without reusing or dropping either, and never evaluates a logarithm or quotient outside its domain.",
  ["inputs", "histories"], "all generator words, all sequences of uniform deviates and all numbers of calls",
  "Tests inspect integer words for a fixed seed only; neither the range of the reals for extreme words nor the alternation of the pair is observed.",
  ["core/random.h", "core/deviates.h"], [("conversion of words to real numbers", "core/random.h"), ("polar method with alternating status", "core/deviates.h")])
p("C03", "Search points and results never violate the parameter constraints",
  "Every parameter vector that the optimizer submits to the objective function while it samples a population satisfies the prior constraint, whatever the objective, seed, step sizes and population size. The fitted parameter vector that an optimization returns lies within the bounds whenever the constraint is a box and the start vector is inside it.",
  ["inputs", "histories"], "all objectives, constraints, seeds, strategy parameters and generations",
  "The test functions are unconstrained; only four fixed fits use bounds and none looks at evaluated points.",
  ["core/optimize.h", "core/model.h"], [("resampling of violating coordinates", "core/optimize.h"), ("weighted mean of selected points", "core/optimize.h"), ("box test", "core/model.h")])
p("C04", "The optimisation result describes the state the search ended in",
  "The fitness reported by an optimization is the objective value plus constraint cost at the returned parameter vector, also when the search stops early. The reported generation number never exceeds the stop generation and equals the number of populations sampled; a search reported as neither optimized nor underflown has used up all its generations. Uncertainties are only computed for an optimized result and are zero otherwise.",
  ["inputs", "histories"], "all objectives, start points, stop generations and ways to terminate",
  "Tests only run six convergent minimisations and check the parameters against the optimum.",
  ["core/optimize.h", "core/optimizer.h", "core/optimizer.cxx"], [("termination bookkeeping", "core/optimize.h"), ("result assembly", "core/optimizer.h")])
p("C05", "Selection and recombination use exactly the best individuals",
  "In each generation the new centre of the search is the weighted mean of exactly the best individuals of the population (as many as the parent number, best in the sense of the requested direction: smallest objective plus constraint cost when minimising, largest when maximising), the best receiving the first weight and so on in rank order. Every individual contributes the value of its own parameter vector.",
  ["inputs", "histories"], "all populations, objectives, weights and both directions",
  "Convergence to the optimum of a benign function hides ranking errors; maximisation is never tested.",
  ["core/optimize.h"], [("indirect partial sort", "core/optimize.h"), ("recombination", "core/optimize.h")])
p("C06", "Sampling and adaptation follow the published evolution strategy",
  "In each generation each individual is the centre plus the global step size times the rotated and scaled sum of its normal deviates, and the cumulation paths, covariance matrix and global step size are updated by the published rules (Hansen & Ostermeier 2001; Hansen 2014) from the recombined mutation steps. Whenever the eigendecomposition is refreshed (every so many generations as configured), local step sizes are the square roots of the eigenvalues and the condition number of the covariance matrix is limited. The search is declared converged only if each parameter's standard deviation is within the accuracy goal.",
  ["inputs", "histories"], "all states of the strategy, populations and generations",
  "Tests compare only the optimum reached; wrong constants or indices still converge on the six functions.",
  ["core/optimize.h"], [("sampling", "core/optimize.h"), ("path, covariance and step size adaptation", "core/optimize.h"), ("condition limiting", "core/optimize.h")])
p("C07", "Parameter uncertainties are rescaled by the measured curvature",
  "For an optimized result the parameter uncertainties are the square roots of the covariance diagonal times one common factor: the geometric mean over the principal axes of the step at which a parabola through the centre and two opposite points on the axis rises by one half. For an exactly quadratic objective that factor, and hence the uncertainties, do not depend on the global step size at which the search ended.",
  ["inputs"], "all objectives, covariance matrices and final step sizes",
  "No test looks at uncertainties.",
  ["core/optimize.h"], [("curvature along principal axes", "core/optimize.h")])
p("C08", "Strategy parameters depend on the configuration, not on the order of calls",
  "Recombination weights, cumulation rates, adaption rates and damping always are the published functions of the configured problem dimension and parent number, in whatever order and however often the configuration calls are made, and configuring one setting does not alter another (except that the parent number resets the population size to twice the parent number). A population size less than twice the parent number, or a zero parent number, is rejected with an error.",
  ["histories", "configurations"], "all sequences of configuration calls and all values",
  "Tests build one default configuration and never read strategy parameters back.",
  ["core/optimizer.h", "core/optimizer.cxx"], [("recomputation of strategy parameters", "core/optimizer.cxx")])
p("C09", "Free parameters map one-to-one onto the parameter vector of the fit",
  "The parameter vector of a fit has one component per distinct free parameter of the model definition, in order of appearance; its initial value, step size and bounds are the midpoint, half width and limits (in ascending order) from that parameter's line, and every profile or resolution parameter that is free takes the value of its component while fixed ones keep the value stated. The cost of a model is the sum of the costs of its sections, each evaluated with its own resolution, continuum order and lines, and after a fit each parameter and uncertainty is reported from its own component (zero uncertainty when fixed).",
  ["inputs"], "all model definitions and parameter vectors",
  "The four fits in the test suite check the final cost of one data set each.",
  ["core/model.h"], [("index map from unique to dereferenced parameters", "core/model.h")])
p("C10", "Parameter references resolve to the referenced parameter or are rejected",
  "A parameter that refers to the same parameter of another section or line (directly or through a chain, forwards or backwards) always has the value, bounds, free/fixed state and vector component of the parameter at the end of the chain. A model definition with an undefined, self-referential or cyclic reference, a duplicate name, an unreadable data file, a syntax error or no section at all is rejected with an error; parsing always terminates.",
  ["inputs"], "all model definitions",
  "The example models contain only valid short chains.",
  ["core/model.h"], [("dereferencing loops", "core/model.h")])
p("C11", "The cost of a section is half chi-square over its unmasked data",
  "The cost of a spectral section is one half of the sum, over exactly the unmasked data points, of the squared difference of observed and modelled flux over the uncertainty; evaluating it changes nothing in the section, and after applying the same model the stored cost equals it. Masking an interval removes exactly the points whose wavelength lies in the closed interval, cumulatively, and the valid data count is the number of unmasked points.",
  ["inputs", "histories"], "all data sets, masks (including empty and overlapping) and profile functions",
  "No unit test covers sections; four fits check rounded sums.",
  ["core/section.h", "core/section.cxx"], [("residual sums", "core/section.h"), ("mask", "core/section.cxx")])
p("C12", "The continuum is the weighted least-squares Legendre polynomial",
  "The background continuum of a section is the linear combination of the requested number of Legendre polynomials on the section's wavelength interval that minimises the weighted squared residuals over the unmasked points for the given absorption; masked points have no influence, and with zero polynomials it is one. When the normal equations are not positive definite an error is raised instead of a result.",
  ["inputs"], "all data sets, masks, absorption terms and polynomial orders",
  "No unit test; the fits use two or three orders on fixed data.",
  ["core/section.cxx"], [("normal equations and Cholesky decomposition", "core/section.cxx"), ("Bonnet recursion", "core/section.cxx")])
p("C13", "Instrumental convolution is the exact integral of the interpolated absorption",
  "The convoluted absorption term at each data point is the integral of the piecewise linearly interpolated absorption term against the Gaussian line spread function of the section's resolution, truncated at four half widths, with the data ends extended; when the data spacing exceeds the half width the absorption is supersampled first. A spectrum without absorption convolves to the same constant at every point, and absorption and optical depth are those of the profile at the data wavelengths.",
  ["inputs"], "all optical depth functions, resolutions and grid spacings",
  "No unit test covers convolution.",
  ["core/section.h", "core/section.cxx"], [("primitive terms of the line spread function", "core/section.cxx"), ("discrete convolution and supersampling", "core/section.h")])
p("C14", "Line profiles follow their formulas and superpose",
  "For every parameter vector and wavelength, the optical depth of each line profile (many-multiplet, Doppler, and the two Voigt approximations) is the documented function of rest wavelength, oscillator strength, redshift, velocity, broadening, column density (and damping or fine-structure variation), with the Doppler core truncated at four widths. The optical depth of a superposition is the sum of the optical depths of all its lines, each taking its own slice of the parameters.",
  ["inputs"], "all parameter vectors, wavelengths and numbers of lines",
  "Tests check a handful of abscissas for one or two widths.",
  ["core/profiles.h", "core/profiles.cxx", "core/base.h"], [("profile formulas", "core/profiles.cxx"), ("superposition", "core/profiles.h")])
p("C15", "Profile functions are symmetric, non-negative and decrease away from the centre",
  "Each approximation of the Voigt function is symmetric about its centre, positive for all positive widths, and a unit-weight mixture of area-normalised components; the simple pseudo-Voigt never increases with distance from the centre. Doppler profiles are symmetric, non-negative and vanish beyond four Doppler widths.",
  ["inputs"], "all positive widths and all abscissas",
  "Tests sample a few points of fixed widths.",
  ["core/profiles.h", "core/profiles.cxx"], [("component weights", "core/profiles.cxx"), ("truncation", "core/profiles.cxx")])
p("C16", "Adaptive quadrature covers its interval exactly and reuses values safely",
  "The result of an integration is the sum of the quadrature values of a partition that exactly covers the interval, every value used belongs to the abscissa it is used for (also when it was computed for a parent interval), and refinement always splits a part with the largest error and stops when the error goal or the iteration limit is reached. For every formula a polynomial of its documented degree is integrated exactly, and the infinite integrals are the transformed finite ones.",
  ["inputs", "histories"], "all integrands, intervals, formula pairs and refinement sequences",
  "Tests integrate a few smooth functions with the default formulas; the other formulas and deep refinement are never compared.",
  ["core/integrator.h"], [("node tables", "core/integrator.h"), ("part splitting", "core/integrator.h"), ("partition refinement", "core/integrator.h")])
p("C17", "Air/vacuum conversion and heliocentric correction are correct and inverse",
  "Each refractivity equation and its derivative are the published functions, with the two forms of an equation in agreement. Converting vacuum wavelengths to air and back returns the original wavelength within the accuracy goal (or an error is raised), and the velocity correction multiplies wavelengths by the relativistic Doppler factor; other columns pass through unchanged.",
  ["inputs"], "all wavelengths, velocities and data files",
  "No test covers the equations, the solver or the utilities.",
  ["core/equations.h", "core/equations.cxx", "core/base.h", "util/airtovac.cxx", "util/vactoair.cxx", "util/helicorr.cxx"], [("dispersion formulas", "core/equations.h"), ("Newton iteration", "core/base.h")])
p("C18", "Data columns stay aligned through reading, zipping and writing",
  "Reading a data file keeps the i-th wavelength, flux and uncertainty together for every row, skips exactly the requested number of leading lines and fails on rows without two numbers and on empty data; a missing third value never shifts the values of other rows. Merging a flux and an uncertainty file writes, row by row, the wavelength, flux and uncertainty of that row, and fails if the numbers of rows differ.",
  ["inputs"], "all data files and skip counts",
  "No test covers data input or merging.",
  ["core/dataio.cxx", "apps/ezip.cxx"], [("row parser", "core/dataio.cxx"), ("merge", "apps/ezip.cxx")])
p("C19", "Spectral data rows are filtered and defaulted as documented",
  "Reading a section keeps exactly the rows whose wavelength lies in the requested closed interval, in order, with uncertainty one and valid state when those columns are missing, ignoring comment lines and stopping at the first empty line. A malformed row or an empty selection is an error, and a section written out and read again has the same wavelengths, fluxes, uncertainties and mask.",
  ["inputs"], "all data files and intervals",
  "The example data files are well formed and complete.",
  ["core/section.cxx"], [("row parser", "core/section.cxx"), ("row writer", "core/section.cxx")])
p("C20", "Extraction tools return exactly the tagged block of a result file",
  "Each of the extraction tools for command, model, log, message and data copies exactly the lines between its opening and closing tag lines of a result file, unchanged and in order, and nothing else.",
  ["inputs"], "all result files",
  "The feature test uses three of the five tools on generated results and only looks for a cost value.",
  ["apps/ecom.cxx", "apps/edat.cxx", "apps/elog.cxx", "apps/emes.cxx", "apps/emod.cxx"], [("line filter", "apps/edat.cxx")])
p("C21", "Command line arguments reach the right setting and outcomes the right exit code",
  "The seven arguments of a fit program set the random seed, parent number, population size, global step size, accuracy goal, stop generation and trace modulus, in this order, and are echoed as given. The exit code is 0 for a converged fit and for the usage message, 1 for underflow of the mutation variance, 2 for a fit stopped by the generation limit, 8 for invalid arguments and 16 for input or runtime errors.",
  ["inputs", "configurations"], "all argument vectors and outcomes",
  "The test runs are all successful, with fixed arguments, and check a cost value only.",
  ["core/runner.h", "core/runner.cxx", "core/exitcodes.h", "apps/curcuma.cxx"], [("argument parsing", "core/runner.h"), ("outcome to exit code", "core/runner.h")])
p("C22", "Eigendecompositions pass the matrix intact and report failure",
  "Each eigendecomposition strategy leaves the input matrix unmodified, hands a complete copy with correctly sized workspaces to the linear algebra library, and returns the eigenvalues in ascending order with the matching normalised eigenvectors (as accurate and orthogonal as the library delivers them) for every symmetric matrix and dimension. A failure reported by the library always raises an error.",
  ["inputs"], "all symmetric matrices, dimensions and library return codes",
  "Tests use two small matrices per strategy; library failures never occur.",
  ["core/decompose.h", "core/decompose.cxx"], [("workspace sizing and call", "core/decompose.cxx"), ("info handling", "core/decompose.cxx")])
p("C24", "Parallel fitness evaluation is race-free, deterministic and reports errors",
  "Evaluating a population in parallel gives the same result as evaluating it sequentially under every thread schedule: each worker writes only the result of its own individual and reads nothing another worker writes. An error raised while an individual (or a point of the uncertainty estimate) is evaluated reaches the caller as that error after all workers ended.",
  ["schedules", "inputs", "fault_sequences"], "all thread schedules, populations and failing evaluations",
  "Tests run one schedule and no evaluation fails.",
  ["core/optimize.h"], [("worker threads", "core/optimize.h")])
p("C25", "Column readers are all-or-nothing and comments are stripped",
  "Reading a block of rows into parallel vectors either appends (or replaces by) exactly the requested number of complete rows, in order, or leaves every vector unchanged and fails. Reading lines with a comment mark returns exactly the non-blank lines with everything from the first comment mark removed; without a comment mark lines are returned unchanged.",
  ["inputs"], "all input streams, row counts and comment marks",
  "Only exercised through well-formed example models.",
  ["core/readline.h", "core/readline.cxx"], [("temporary vectors", "core/readline.h"), ("comment stripping", "core/readline.cxx")])


def main():
    sys.path.insert(0, os.path.join(V, "vc"))
    import props
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps(x) + "\n")
    checks, na = [], []
    for x in P:
        r = props.PROPS.get(x["id"])
        if r:
            checks.append(dict(property=x["id"], quick_cmd="python3-vt vc/check.py %s quick" % x["id"], thorough_cmd="python3-vt vc/check.py %s thorough" % x["id"],
                               evidence_file="evidence/%s.json" % x["id"],
                               technique="contract-based deductive verification: symbolic execution of the clang AST of /repo, obligations discharged by a polynomial normaliser, z3 and cvc5; witness replay on the real code",
                               level=r.get("level", "proof"), level_note=r["note"]))
        else:
            na.append(dict(property=x["id"], reason=props.NOT_APPLICABLE.get(x["id"], "contract units for this property are not built yet")))
    m = dict(version=1, setup_cmd="python3-vt vc/setup.py", checks=checks, not_applicable=na,
             notes="No hooks in /repo: specifications live in /verif/vc/units and are discharged against the AST generated from /repo's current source on every run.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
