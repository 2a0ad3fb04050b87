"""Writes properties.jsonl and MANIFEST.json (single source of the property texts)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "src/rt1_model/_calc.py"
SC = "src/rt1_model/_scatter.py"
SU = "src/rt1_model/surface.py"
VO = "src/rt1_model/volume.py"
HE = "src/rt1_model/helpers.py"
PL = "src/rt1_model/plot.py"
IN = "src/rt1_model/__init__.py"

PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique, note, state=None,
      observe=None):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                      files=files, mech=mech, technique=technique, note=note,
                      state=state or [], observe=observe or []))


EXPL = ("Exploration: seeded random executions of the real code, each observed value judged; "
        "no exhaustive coverage of the input space. ")

P("C01", "Surface contribution equals the bare-surface signal attenuated twice",
  "For every model, geometry, parameter-set and unit-configuration the returned surface "
  "contribution equals I0 * cos(t_ex) * NormBRDF * BRDF(t_0, t_ex, p_0, p_ex) * "
  "[bsf + (1-bsf) * exp(-tau/cos(t_0) - tau/cos(t_ex))], element by element, where the BRDF is "
  "the documented analytical scattering function with the user's parameters. In sigma0 units "
  "it is multiplied by 4*pi*cos(t_0)/I0, and in dB it is 10*log10 of the linear value.",
  ["inputs", "configurations", "histories"],
  "all scattering functions and (shared, nested) parameters, parameter-definitions, mono- and "
  "bistatic geometries with fixed or per-call angles, array-shapes, units and preceding calls",
  "Tests evaluate a handful of fixed models at fixed angles (mostly monostatic 1D) against "
  "stored numbers; they do not combine bistatic angles, coverage-fractions, generalized "
  "scattering angles and re-configurations.",
  [C, SU], [("surface contribution", f"{C}: RT1._surface"),
            ("unit conversion", f"{C}: RT1._convert_sig0_db"),
            ("surface distributions", f"{SU}: *.phase_function")],
  "runtime monitor with a shadow model: closed-form oracle on every returned value",
  EXPL + "Trusts the independent reference formulas in rtmon/ref.py (numpy) and the monitor's "
  "reconstruction of what the user requested.",
  observe=["RT1.surface", "RT1.calc"])

P("C02", "Volume contribution equals the first-order single-scattering solution",
  "For every model, geometry, parameter-set and unit-configuration the returned volume "
  "contribution equals (1-bsf) * I0 * omega * cos(t_0)/(cos(t_0)+cos(t_ex)) * "
  "(1 - exp(-tau/cos(t_0) - tau/cos(t_ex))) * p(t_0, t_ex, p_0, p_ex), element by element, with p "
  "being the documented volume-scattering distribution evaluated for radiation that is "
  "scattered upwards. Units convert as for the surface contribution.",
  ["inputs", "configurations", "histories"],
  "all scattering functions and parameters, definitions, geometries, array-shapes, units and "
  "preceding calls",
  "Tests compare a few fixed monostatic configurations with stored numbers.",
  [C, VO], [("volume contribution", f"{C}: RT1._volume"),
            ("volume distributions", f"{VO}: *.phase_function")],
  "runtime monitor with a shadow model: closed-form oracle on every returned value",
  EXPL + "Trusts the reference formulas in rtmon/ref.py.",
  observe=["RT1.volume", "RT1.calc"])

P("C03", "Interaction contribution equals the double-bounce scattering integral",
  "For every model and geometry (mono- or bistatic, fixed or variable angles) the returned "
  "interaction contribution equals the sum of the two double-bounce integrals over the "
  "hemisphere (volume->surface and surface->volume) of the product of both truncated "
  "Legendre expansions with the layer's attenuation. This holds at every incidence "
  "angle (including nadir and grazing), for every optical depth and for any number of expansion "
  "coefficients.",
  ["inputs", "configurations"],
  "all pairs of scattering functions and coefficient-counts, geometries, array-shapes, "
  "parameter values, bare-soil fractions and units",
  "Tests compare symbolic coefficients and numbers for a few monostatic functions with stored "
  "solutions; no test evaluates the integral itself, bistatic exits or large optical depths.",
  [C], [("azimuth integration", f"{C}: RT1._integrate_0_2pi_phis, _cosintegral"),
        ("coefficient extraction", f"{C}: RT1._extract_coefficients"),
        ("zenith integration", f"{C}: RT1._S2_mu, _calc_Fint_1, _calc_Fint_2")],
  "runtime monitor: numerical quadrature oracle on every returned value",
  EXPL + "Oracle is a composite Gauss quadrature of the defining integral; expansion orders are "
  "bounded (sum of coefficients <= 12 mono / 8 bistatic) by cost and conditioning.",
  observe=["RT1.interaction", "RT1.calc"])

P("C04", "Totals, row order, interaction switch, units and I0 are always consistent",
  "A full evaluation returns total, surface, volume and (only if the interaction is enabled) "
  "interaction in this order, the total is the linear sum of the returned contributions, and "
  "each row equals the value that the corresponding individual evaluation returns. Switching "
  "units (intensity/sigma0, linear/dB) or changing the incident intensity at any time converts "
  "all results by exactly the documented factor.",
  ["inputs", "configurations", "histories"],
  "all models, geometries, shapes, unit- and interaction-settings and orders of switching them",
  "Tests use a few fixed unit-settings chosen at construction.",
  [C], [("assembly of rows", f"{C}: RT1.calc"),
        ("unit conversion", f"{C}: RT1._convert_sig0_db")],
  "runtime monitor: consistency oracle over all returned rows and unit-switches",
  EXPL + "Self-consistency of observed values plus the shadow model for units.",
  observe=["RT1.calc", "RT1.surface", "RT1.volume", "RT1.interaction"])

P("C05", "Equivalent geometry specifications give identical results",
  "Results depend only on the angles a user requested: fixing angles at setup, providing them "
  "later, or specifying a monostatic setup as the equivalent bistatic one (equal zenith angles, "
  "exit azimuth rotated by 180 deg) gives the same contributions, derivatives and readable "
  "angles.",
  ["inputs", "configurations", "histories"],
  "all models, subsets of fixed angles, orders of specification and mode-switches",
  "Tests specify each geometry in one way only.",
  [C], [("geometry modes", f"{C}: RT1.set_monostatic, set_bistatic, set_geometry"),
        ("fixed angles in the expansion", f"{C}: RT1._fn, _calc_interaction_expansion")],
  "differential runtime monitor: equivalent executions compared",
  EXPL + "Differential oracle between executions of the real code.",
  observe=["RT1.calc", "RT1.jacobian", "RT1.t_0/t_ex/p_0/p_ex"])

P("C06", "Results depend only on the current state, not on the history of calls",
  "After any sequence of parameter updates, partial evaluations, re-definitions of parameters, "
  "geometry- or unit-changes, replaced scattering functions and rejected calls, every "
  "evaluation returns what a newly created "
  "model configured with the same final state returns. Parameters that are not passed keep "
  "their last value, and passed ones take effect in all following evaluations.",
  ["histories"],
  "arbitrary finite histories of public operations on one or several models",
  "Results are cached at several levels; tests exercise a few fixed call orders.",
  [C], [("cache invalidation", f"{C}: RT1._clear_cache, _clear_param_cache, _clear_geom_cache"),
        ("cached properties", f"{C}: lru_cache on RT1 properties")],
  "runtime monitor over random operation histories: fresh-model differential oracle",
  EXPL + "Differential oracle between executions of the real code.",
  state=[("caches", "memoized expansions, functions, angles and parameters", f"{C}: RT1")],
  observe=["all public methods and attributes of RT1"])

P("C07", "Array evaluation equals element-by-element scalar evaluation",
  "For angles, parameters and incident intensities of any mutually broadcastable shapes, "
  "every element of the results and derivatives equals the result of evaluating that single "
  "element with scalars, and the result has the broadcast shape.",
  ["inputs"],
  "all models, combinations of broadcastable shapes (scalars, lists, 1D to 3D arrays, singleton "
  "axes, sizes coinciding with internal dimensions) and values",
  "Tests use scalars or one common 1D shape.",
  [C, SC, HE], [("broadcasting of coefficients", f"{C}: RT1._fnevals, _calc_Fint_1"),
                ("array functions", f"{HE}: _lambdify")],
  "differential runtime monitor: array vs. scalar executions",
  EXPL + "Differential oracle between executions of the real code.",
  observe=["RT1.calc", "RT1.jacobian"])

P("C08", "Both symbolic backends compute the same model",
  "Switching between the sympy and symengine backends never changes any result, shape, "
  "derivative, parameter-value or scattering-distribution beyond floating-point noise, for "
  "models created before or after the switch; only the two documented backends are accepted.",
  ["configurations", "inputs", "histories"],
  "all models, shapes (scalars, lists, read-only arrays) and moments of switching",
  "Tests run a few models with both backends for 1D inputs.",
  [IN, HE, C, SC], [("backend selection", f"{IN}: set_lambda_backend"),
                    ("function compilation", f"{HE}: _lambdify")],
  "differential runtime monitor: the same execution under both backends",
  EXPL + "Differential oracle between executions of the real code.",
  observe=["rt1_model.set_lambda_backend", "RT1.*", "scatter.calc"])

P("C09", "The Jacobian is the exact derivative of the returned results",
  "Each entry returned by the jacobian is the partial derivative of the first-order result "
  "(surface + volume) in the configured units (linear or dB, intensity or sigma0) with respect "
  "to the requested parameter or quantity, in the requested order. This holds for all "
  "parameters that appear anywhere in the model (optical depth, albedo, NormBRDF, bsf, "
  "asymmetry parameters, weights, shared and nested expressions), is zero for parameters "
  "without influence, and has the shape of the results.",
  ["inputs", "configurations", "histories"],
  "all models, definitions, units, geometries, parameter subsets and orders",
  "Tests check a few fixed models; no test differentiates shared or re-defined parameters in "
  "bistatic geometries.",
  [C], [("quantity derivatives", f"{C}: RT1._dvolume_dtau ... _dsurface_dbsf"),
        ("inner derivatives", f"{C}: RT1._dparam_ddummy, _d_volume_ddummy, _d_surface_ddummy"),
        ("assembly", f"{C}: RT1.jacobian")],
  "runtime monitor: complex-step and central-difference oracle on every derivative",
  EXPL + "Complex-step derivatives of the independent reference model and central differences "
  "of the real results.",
  observe=["RT1.jacobian"])

P("C10", "Sparse Jacobian layout matches the optimizer's unknowns in a retrieval",
  "The sparse jacobian-matrix contains, for each observation (row) and unknown (column, in the "
  "order of the requested parameters with one column per static and one per observation for "
  "dynamic parameters), exactly the derivative of that observation with respect to that "
  "unknown. A least-squares retrieval of synthetic observations with it recovers the true "
  "parameters.",
  ["inputs", "configurations"],
  "all orders and subsets of static and dynamic parameters, numbers of observations and "
  "incidence angles",
  "Tests compare one fixed retrieval; layouts with coinciding sizes are not covered.",
  [C], [("sparse assembly", f"{C}: RT1.jacobian (format='scipy_least_squares')")],
  "runtime monitor on the matrices handed to scipy's optimizer: element-wise oracle",
  EXPL + "Reference derivatives as in C09; retrieval success judged on well-posed problems only.",
  observe=["RT1.jacobian", "scipy.optimize.least_squares"])

P("C11", "Scattering functions return the documented distribution values",
  "Evaluating any volume- or surface-scattering function (isotropic, Rayleigh, "
  "Henyey-Greenstein, HG-Rayleigh, cosine lobe, nadir-normalized HG, linear combinations) "
  "returns the published formula for the requested directions and parameter values, for the "
  "default and for generalized scattering angles, independent of the order in which "
  "parameters are given.",
  ["inputs", "configurations"],
  "all classes, numeric and symbolic parameters, scattering-angle weights, directions, shapes "
  "and argument types",
  "Tests check a few functions at a few angles.",
  [SC, SU, VO], [("scattering angle", f"{SC}: _Scatter.calc_scattering_angle"),
                 ("formulas", f"{SU}, {VO}: phase_function"),
                 ("evaluation", f"{SC}: _Scatter.calc, _lambda_func")],
  "runtime monitor: closed-form oracle on every evaluation",
  EXPL + "Trusts the formulas in rtmon/ref.py.",
  observe=["scatter.calc"])

P("C12", "Legendre coefficients are the projections of the distribution they approximate",
  "For every scattering function the n-th Legendre coefficient equals (2n+1)/2 times the "
  "projection of the distribution (as function of the cosine of its scattering angle) on the "
  "n-th Legendre polynomial, and the provided expansion equals the corresponding truncated "
  "series with exactly the requested number of coefficients. With increasing number of "
  "coefficients the expansion converges to the distribution.",
  ["inputs", "configurations"],
  "all classes, numbers of coefficients, parameter values, scattering-angle weights and "
  "directions",
  "Tests compare low orders at a few values; weights of linear combinations and generalized "
  "angles are not covered.",
  [SC, SU, VO], [("coefficients", f"{SU}, {VO}: legendre_coefficients"),
                 ("expansion", f"{SC}: _Scatter.legendre_expansion")],
  "runtime monitor: numerical projection oracle on observed coefficients and expansions",
  EXPL + "Gauss-Legendre projections of the reference formulas; cosine lobes with exponent >= 1.",
  observe=["legendre_coefficients", "legendre_expansion"])

P("C13", "Normalization of distributions and the hemispherical reflectance are correct",
  "Volume-scattering distributions integrate to 1 over the sphere and isotropic and "
  "nadir-normalized surface functions to 1 over the hemisphere (at all, respectively nadir, "
  "incidence), for all parameter values. The hemispherical reflectance computed by the library "
  "equals the integral of BRDF * cosine over the hemisphere at each incidence angle (times "
  "NormBRDF for models), whether it is returned or drawn.",
  ["inputs"],
  "all normalized classes, asymmetry parameters in their valid range (including limits), "
  "directions, weights summing to 1",
  "Tests check a few parameter values.",
  [SU, VO, PL], [("normalization factors", f"{SU}, {VO}: phase_function"),
                 ("hemispherical reflectance", f"{PL}: hemreflect")],
  "runtime monitor: quadrature of observed values against analytic totals",
  EXPL + "Quadrature of values returned by the real code.",
  observe=["scatter.calc", "rt1_model.plot.hemreflect"])

P("C14", "Linear combinations are linear in everything that is derived from them",
  "A model whose scattering functions are linear combinations gives the weighted sum of the "
  "contributions of models with the individual parts (surface and volume exactly, interaction "
  "bilinearly), for numeric, symbolic or expression weights. Permuting, splitting or adding "
  "zero-weighted parts changes nothing.",
  ["inputs", "configurations"],
  "all combinations of parts, weights, scattering angles, geometries and shapes",
  "Tests evaluate single combinations for fixed weights.",
  [SC, SU, VO], [("combination", f"{SC}: _LinComb")],
  "metamorphic runtime monitor: weighted sums of observed executions",
  EXPL + "Metamorphic oracle between executions of the real code.",
  observe=["RT1.surface", "RT1.volume", "RT1.interaction", "scatter.calc"])

P("C15", "Parameter definitions are evaluated as the user wrote them",
  "Optical depth, albedo, NormBRDF and bsf may be defined (and re-defined at any time) as "
  "names, numbers or expressions of arbitrary and shared symbols; the readable quantity and all "
  "contributions always equal the mathematical value of the current definition for the current "
  "symbol values. The order of provided values and unused values never matter.",
  ["inputs", "configurations", "histories"],
  "all definitions, sequences of re-definitions, value orders and shapes",
  "Tests use a few expressions set once.",
  [C, HE], [("parameter functions", f"{C}: RT1._get_param_funcs, _eval_param"),
            ("parsing", f"{HE}: _parse_sympy_param")],
  "runtime monitor: independent evaluation of the definitions on every observation",
  EXPL + "Trusts the evaluation of the expression text by python/numpy.",
  observe=["RT1.tau/omega/NormBRDF/bsf", "RT1.calc"])

P("C16", "Invalid specifications are rejected and leave the model unchanged",
  "Evaluations with missing parameters, contradictory or incomplete geometry specifications, "
  "attempts to change fixed angles, non-scalar fixed angles, unknown jacobian parameters or "
  "formats, unknown backends and invalid distribution definitions always raise an error. A "
  "rejected call leaves geometry and results exactly as before.",
  ["inputs", "histories", "configurations"],
  "all subsets of missing parameters and angles, kinds of invalid calls and preceding histories",
  "Tests trigger a few single errors and do not look at the state afterwards.",
  [C, SC, IN], [("geometry validation", f"{C}: set_monostatic, set_bistatic, set_geometry"),
                ("parameter validation", f"{C}: RT1.calc, _eval_param; {SC}: _Scatter.calc")],
  "runtime monitor: rejection oracle and bit-identical state after hostile calls",
  EXPL + "Kinds of invalid calls are enumerated by the harness.",
  observe=["exceptions of all public calls", "RT1.calc"])

P("C17", "Serialized and copied models are complete, equal and independent",
  "A pickled and restored (also in another process) or deep-copied model gives identical "
  "results, angles, derivatives and settings, can be used like the original "
  "(re-parametrized, re-configured, plotted), and changes of either never affect the other.",
  ["histories", "configurations"],
  "all models, evaluation states before the copy, backends and operations afterwards",
  "Tests dump and load a few evaluated models and compare one result.",
  [C, SC], [("state transfer", f"{C}: RT1.__getstate__ / __setstate__")],
  "differential runtime monitor: original vs. copy (also across processes)",
  EXPL + "Differential oracle between executions of the real code.",
  observe=["cloudpickle.dumps/loads", "copy.deepcopy"])

P("C18", "No operation leaks into inputs, earlier results, other models or global state",
  "Evaluations never modify arrays, dictionaries or lists that the user passed, modifying a "
  "returned array never changes later results, and using one model never changes the results of "
  "another one even if both share scattering functions. No evaluation changes global numerical, "
  "warning or logging settings.",
  ["histories", "inputs"],
  "all models, shapes, read-only and writable inputs and interleavings of operations on "
  "several models",
  "Tests use one model at a time and do not look at inputs afterwards.",
  [C, SC, PL], [("class- and instance-level state", f"{C}: RT1; {SC}: _Scatter")],
  "runtime monitor: snapshots of inputs, outputs and global state around every call",
  EXPL + "Bitwise snapshots.",
  observe=["all public calls", "numpy error state, warnings, rcParams"])

P("C19", "Results stay finite and physical in all limiting cases",
  "For non-negative scattering functions and physically valid parameters (any optical depth "
  "from 0 to very large, albedo 0 to 1, angles from nadir to grazing) all contributions are "
  "finite, single-scattering contributions are non-negative, and without a layer, scatterers, "
  "reflecting surface or vegetation the corresponding contributions vanish exactly. "
  "Contributions scale linearly in albedo, NormBRDF and vegetation-fraction, surface is "
  "attenuated and volume saturates monotonically with optical depth.",
  ["inputs"],
  "all models with arrays mixing limiting and ordinary values",
  "Tests use moderate values only.",
  [C], [("tau=0 handling and large-tau evaluation", f"{C}: RT1._interaction, _S2_mu")],
  "runtime monitor: finiteness, sign, limit and scaling oracles on hostile inputs",
  EXPL + "Physical invariants; standard scattering angles and non-negative weights.",
  observe=["RT1.calc"])

P("C20", "Reciprocity and symmetries of the scattering geometry are respected",
  "Interchanging incident and exit direction changes each contribution only by the ratio of the "
  "direction cosines; results are invariant under full azimuth rotations, mirrored azimuths, "
  "rotation by 180 deg and (for rotationally symmetric scattering angles) any common azimuth "
  "rotation, and independent of the azimuth for nadir directions. This includes the "
  "interaction contribution.",
  ["inputs"],
  "all bistatic models, geometries and transformations",
  "No test evaluates transformed bistatic geometries.",
  [C, SC], [("bistatic expansion", f"{C}: RT1._calc_interaction_expansion, _calc_Fint_1/2"),
            ("scattering angle", f"{SC}: calc_scattering_angle")],
  "metamorphic runtime monitor: transformed executions compared",
  EXPL + "Metamorphic oracle between executions of the real code.",
  observe=["RT1.calc"])

P("C21", "The analyzer widget always displays the results for the current sliders",
  "In the interactive analyzer, every displayed curve, shaded range and label corresponds to the "
  "model evaluated in monostatic geometry with the current slider-values (in the configured "
  "units), after any sequence of slider moves and range-selections. Parameters "
  "without slider keep the values of the model, parameters without slider and value are reported.",
  ["histories", "inputs", "configurations"],
  "all models, slider specifications (ranges, centers, labels) and sequences of interactions",
  "Tests open the widget once without interacting with it.",
  [PL], [("widget updates", f"{PL}: Analyze._update, _get_range_lines"),
         ("parameter handling", f"{PL}: _check_params, Analyze._parse_parameters")],
  "runtime monitor of drawn artists under random widget interactions",
  EXPL + "Displayed data are read from matplotlib artists and compared with fresh models.",
  observe=["matplotlib artists after each interaction"])

P("C22", "The 3D analyzer draws the requested contributions for the current sliders",
  "In the interactive 3D analyzer, each drawn surface represents the linear value of the "
  "requested contribution (total, surface, volume, interaction) in the correct exit direction "
  "for the current incidence angle and slider-values, after any sequence of interactions. "
  "The interaction is part of the total exactly if it is among the drawn contributions, and the "
  "indicated directions are the incident and the specular direction. Parameters without slider and "
  "value are reported.",
  ["histories", "inputs", "configurations"],
  "all models, sets of contributions, resolutions and sequences of interactions",
  "Tests open the widget once without interacting with it.",
  [PL], [("surfaces", f"{PL}: Analyze3D._update, _getvals")],
  "runtime monitor of drawn coordinates under random widget interactions",
  EXPL + "Coordinates are recorded at matplotlib's plot_surface and compared with fresh models.",
  observe=["coordinates passed to matplotlib"])

P("C23", "Polar plots show the distribution and its expansion for all requested cases",
  "Polar plots draw, for every requested incidence angle, scattering function and "
  "parameter-value, one solid curve of the true distribution and one dashed curve of its "
  "truncated Legendre expansion (if requested) at the correct polar positions, with the "
  "requested title, legend and ground, correctly labelled directions and indicated incident "
  "directions, without modifying the plotted objects.",
  ["inputs", "configurations"],
  "all functions, parameter-sets, incidence angles and plot options",
  "Tests only verify that plotting does not fail.",
  [PL], [("curves", f"{PL}: polarplot")],
  "runtime monitor of drawn artists: closed-form oracle on each curve",
  EXPL + "Curves are read from matplotlib artists.",
  observe=["matplotlib artists"])

P("C24", "Logging configuration has exactly the requested effect",
  "After any sequence of log-level and log-format configurations, a message is written if and "
  "only if its level is enabled by the last configuration, exactly once, in the last requested "
  "(preset or custom) format; this includes messages of sub-loggers of the package that have "
  "their own level. The configuration never affects other loggers or handlers of the "
  "application.",
  ["histories", "configurations"],
  "all sequences of levels (names, numbers), formats and additional handlers",
  "No test configures logging.",
  [IN], [("handler management", f"{IN}: set_loglevel, _ensure_handler, _set_logfmt")],
  "trace monitor: emitted log lines against the requested configuration",
  EXPL + "Text written by the handlers is compared with an independent formatting.",
  observe=["stderr stream of the log handler"])

P("C25", "Models used concurrently from several threads do not affect each other",
  "Independent models operated by different threads at the same time (optionally sharing the "
  "same scattering functions) return exactly what they return when operated sequentially.",
  ["schedules"],
  "all interleavings of evaluations, updates and derivatives of separate models",
  "All tests are single-threaded.",
  [C, SC], [("per-instance caches", f"{C}: RT1"), ("shared scattering functions", SC)],
  "runtime monitor under stressed thread schedules: sequential-equivalence oracle",
  EXPL + "Interleavings are sampled (5e-6..1e-5 s switch interval, barrier starts), not "
  "enumerated; observed thread-switches are recorded.",
  observe=["results of all threads", "sequence of monitored call events"])

P("C26", "Re-using interaction coefficients reproduces the model for all parameters",
  "Symbolic or compiled interaction coefficients that were obtained from one model can be "
  "passed to a new model with the same scattering functions and geometry-type, which then "
  "returns identical results for all (also other) parameters, angles and units. The provided "
  "coefficients are used instead of evaluating them again.",
  ["inputs", "configurations", "histories"],
  "all models, geometries, backends and parameters",
  "Tests pass coefficients once and evaluate them at one set of parameters.",
  [C], [("provided coefficients", f"{C}: RT1.__init__, _fn, _fnevals")],
  "differential runtime monitor: original vs. re-used coefficients",
  EXPL + "Differential oracle between executions of the real code.",
  observe=["RT1.calc"])

P("C27", "Optional dependencies can be absent without changing any result",
  "If symengine or matplotlib are not installed, the package imports, falls back to the "
  "remaining backend (respectively no plotting), and all results, derivatives and copies equal "
  "those of a complete installation.",
  ["configurations"],
  "all subsets of missing optional packages and all models",
  "Tests always run with all packages installed.",
  [IN, HE, C, SC], [("fallbacks", f"{IN}: import guards; {C}, {SC}: plot registration")],
  "differential runtime monitor across interpreters with blocked imports (fault injection)",
  EXPL + "Imports are blocked in separate interpreters.",
  observe=["results written by separate interpreters"])


P("C28", "User-defined scattering distributions work exactly like the built-in ones",
  "Any subclass of VolumeScatter / SurfaceScatter that provides a phase function (a sympy "
  "expression of the scattering angle, of the individual angles and of parameters), Legendre "
  "coefficients and a number of coefficients can be evaluated, expanded, combined (LinComb), "
  "used in a model (all contributions, interaction, jacobian), replaced, copied and pickled with "
  "the values that follow from its definition. Defaults of the class (e.g. a class-level "
  "generalization parameter 'a') are respected; incomplete subclasses cannot be instantiated.",
  ["inputs", "configurations", "histories"],
  "all definitions, parameters, combinations with built-in distributions, geometries, backends",
  "Tests only use the built-in distributions.",
  [SC, SU, VO, C], [("base classes", f"{VO}: VolumeScatter; {SU}: SurfaceScatter; "
                     f"{SC}: _Scatter, _LinComb"), ("generic use of expressions", C)],
  "runtime monitor: closed-form / quadrature oracle of the definition on every call",
  EXPL + "The definitions are polynomials, exponentials and functions of the angles.",
  observe=["_Scatter.calc", "RT1.calc", "RT1.interaction", "RT1.jacobian"])

P("C29", "Long-running use neither changes results nor accumulates memory",
  "However often a model is evaluated, updated, re-configured and differentiated, repeated "
  "states give bit-identical results and the memory does not grow with the number of "
  "evaluations, parameter-sets or geometries. In long series of (new, copied or un-pickled) "
  "models each model gives identical results, and models that are no longer used are released "
  "(at most a bounded number is retained by caches).",
  ["histories"],
  "all models, geometries, backends and cyclic or always-new sequences of states",
  "Tests evaluate each model a few times.",
  [C, SC, HE], [("caches", f"{C}: _cached_functions, _clear_cache; {SC}: _lambda_func")],
  "trace monitor over long histories: bit-identity, traced allocations and live objects",
  EXPL + "Allocations are traced for Python and numpy objects (tracemalloc), not inside "
  "compiled symengine functions.",
  observe=["results of repeated states", "tracemalloc", "weak references to models"])


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in PROPS:
            a = dict(files=p["files"],
                     mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                     observe_at=p["observe"], hook_needed=None)
            if p["state"]:
                a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"], anchors=a)) + "\n")
    py = "/opt/venv/bin/python"
    man = dict(
        version=1,
        setup_cmd=f"{py} check.py --self-test",
        checks=[dict(
            property=p["id"],
            quick_cmd=f"{py} check.py {p['id']} --tier quick",
            thorough_cmd=f"{py} check.py {p['id']} --tier thorough",
            evidence_file=f"evidence/{p['id']}.json",
            technique=p["technique"], level="exploration", level_note=p["note"],
        ) for p in PROPS],
        not_applicable=[],
        notes="Pure Python package: compiler sanitizers do not apply; the monitors are attached "
        "to the public API at run time from /verif, so no hooks are needed in /repo.",
    )
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
