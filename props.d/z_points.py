prop("C12", "A point is set by its current input line alone",
     "Initialising a model from an input line sets exactly the parameters documented for the columns of that line, equals initialising it from the parameter vector, reports the counterterms in use, and leaves nothing of any earlier point, line or renormalisation scale behind; changing the scale recomputes the counterterms for that scale alone.",
     ["inputs", "histories"],
     "every value of every input column, with and without a leading index column, on a fresh object and after any other point, line and scale; every model and Yukawa type",
     "Tests initialise each benchmark point once on a fresh object; scans in the executables reuse one object for thousands of lines, with vanishing vacuum expectation values, other types and other scales in between.",
     MODELFILES,
     [("initialisation", "Class_Potential_Origin::initModel, resetScale, set_All, setUseIndexCol, sym2Dim"),
      ("per model", "ReadAndSet, set_gen, set_CT_Pot_Par, SetCurvatureArrays")],
     [run("init", c) for c in ("SM", "SM-idxline", "CxSM", "CxSM-vs0", "CxSM-va0idx", "CxSM-vs0va0", "CxSM-idxline", "R2HDM-1", "R2HDM-2idx", "R2HDM-3",
                               "R2HDM-4idxline", "C2HDM-1idx", "C2HDM-2", "C2HDM-3line", "C2HDM-4", "N2HDM-1", "N2HDM-2idx", "N2HDM-3", "N2HDM-4line",
                               "CPintheDark", "CPintheDark-1idxline")],
     "Parameters of the points as in C01-C03; scales in [100,1000] GeV; history: one other parameter vector (another Yukawa type), a scale change and optionally one other line before the point; numbers are delivered by a model of `istream >> double` (text-to-number conversion is the C++ library's); the one-loop derivatives entering the counterterms are arbitrary values that depend on the point and the scale.",
     outside="Malformed lines (too few columns, text).",
     note="Counterterm formulas themselves are decided by C05, the one-loop derivatives by C11.")
prop("C13", "Vacuum configurations map to field space and back as documented",
     "The components of a vacuum configuration are placed in exactly the field directions the model declares, all other fields are zero; the electroweak vev of any configuration is the norm of its doublet components (zero up to 0.5 GeV); removing it clears exactly the doublet components; a one-loop vacuum is accepted iff every component is within 1 GeV of the tree-level one up to sign; masses of compact and full configurations agree and any other size is refused.",
     ["inputs", "configurations"],
     "every model, every configuration of the fields, every temperature and set of counterterms",
     "Tests use a few configurations found by the minimiser; what lies behind the end of the list of directions, singlet-only configurations or values near the cuts are never sampled.",
     MODELFILES,
     [("mapping", "Class_Potential_Origin::MinimizeOrderVEV, EWSBVEV, SetEWVEVZero, CheckNLOVEV, HiggsMassMatrix, QuarkMassMatrix, LeptonMassMatrix")],
     [run("vevmap", m + k) for m in ("SM", "CxSM", "R2HDM-1", "C2HDM-1", "N2HDM-1", "CPintheDark-1") for k in ("-map", "-nlo", "-dims")],
     "Field components and vacuum components in [-500,500] GeV, temperature [0,300] GeV; for the one-loop acceptance one component at a time has a free sign in both vacua, the others have fixed opposite signs.")
prop("C14", "The effective potential has the requested order, temperature and derivative",
     "The effective potential of a configuration is the tree-level potential plus, when the order is not zero and the model is not restricted to tree level, the counterterm and one-loop potentials, each evaluated at the same full configuration, temperature and derivative; a compact configuration gives the same as its expansion.",
     ["inputs", "configurations"],
     "every configuration, temperature, derivative index and order, compact or full, with and without the tree-level restriction",
     "Tests evaluate the one-loop potential at a few full-size configurations; orders, derivative indices and compact configurations are not combined.",
     MODELFILES,
     [("composition", "Class_Potential_Origin::VEff, SetUseTreeLevel")],
     [run("veff", m) for m in M6],
     "Components in [-500,500] GeV, T in [0,300] GeV, orders 0..2, derivative index -1..number of fields; VTree, CounterTerm and V1Loop are replaced by arbitrary linear functions of configuration, temperature and derivative index (they are decided by C01, C02 and C08).")
MINFILES = ["src/minimizer/Minimizer.cpp", "src/minimizer/MinimizeGSL.cpp", "src/minimizer/MinimizePlane.cpp", "src/minimizer/LibNLOPT/MinimizeNLOPT.cpp", "src/models/ClassPotentialOrigin.cpp"]
prop("C15", "The critical temperature and its status report what the minima show",
     "The bisection for the critical temperature returns exactly one documented status and the temperature, vev and minimum that belong to it: success means that a valid broken minimum was found at the returned temperature, that every higher examined temperature is symmetric and one of them lies within the resolution of 0.01 GeV; the other statuses are returned exactly when the minima at the ends of the interval, the stability of the one-loop vacuum or a minimum beyond 255 GeV call for them.",
     ["inputs", "histories"],
     "every sequence of minima the global minimisation may return at the temperatures visited",
     "Tests run the search on one good benchmark point per model; transitions in the last step, no broken midpoint, unstable points or vacua lost at one loop are not among them.",
     MINFILES,
     [("bisection", "Minimizer.cpp PTFinder_gen_all, Class_Potential_Origin::CheckNLOVEV, EWSBVEV, MinimizeOrderVEV")],
     [run("ptfinder", c) for c in ("SM-zero", "SM", "CxSM", "SM-long", "CxSM-long")],
     "Minimize_gen_all is replaced by an arbitrary minimum (electroweak vev 0 or in (0.5,400] GeV, singlet vevs up to 400 GeV) per call; every start temperature in [0,200] GeV with an interval of 0.02-0.15 GeV (up to 4 halvings, any pattern of symmetric, broken and unstable minima), and the interval 0-300 GeV (15 halvings) with patterns that change between broken and symmetric at most once after the second midpoint.",
     outside="Longer intervals with more changes of the pattern.")
prop("C16", "The global minimisation returns the lowest candidate in every thread schedule",
     "For each selection of minimisers exactly these run, the result is the candidate with the lowest one-loop potential at the requested temperature among them and the origin, with electroweak components removed when symmetric; the repeated local minimisation uses each starting point once, stops with the requested number of solutions, reports every solution with its vev and potential and returns the lowest; a local search returns its converged point or failure; the NLopt box contains every vacuum of interest. All of this holds for every schedule of the worker threads.",
     ["inputs", "schedules", "histories"],
     "every set of candidates and potential values, every outcome of the library minimisers, every modelled interleaving of the worker threads",
     "Tests minimise one benchmark point per model with one schedule; lifetime of shared data, the end of the queue of starting points, ties and failures of a minimiser are timing- and input-dependent.",
     MINFILES,
     [("selection", "Minimizer.cpp Minimize_gen_all, GetMinimizers, CalcWhichMinimizer"), ("repetition", "MinimizeGSL.cpp GSL_Minimize_gen_all, GSL_Minimize_From_S_gen_all, GSL_VEFF_gen_all"), ("NLopt", "MinimizeNLOPT.cpp MinimizeUsingNLOPT, NLOPTVEff")],
     [run("minall", m) for m in M6] + [run("gslmin", c) for c in ("SM-last", "SM-lastthr", "CxSM-lastthr")] + [run("locmin", m) for m in ("SM", "CxSM", "N2HDM-1")] + [run("nloptbox", m) for m in ("SM", "CxSM", "C2HDM-1")],
     "Two worker threads; a thread runs at its creation, when joined or nested at a lock of another thread (up to four such preemptions; finer interleavings between locks are outside); last 3 of 600 starting points explored with every pattern of success; library minimisers (GSL simplex, NLopt) are replaced by arbitrary outcomes; locals that leave scope are poisoned; the potential is a fixed injective linear function of the configuration.",
     outside="libcmaes (not installed here); the quality of the library minimisers.")
prop("C17", "Minimisation in a plane returns the lowest point of that plane",
     "Minimising in the plane through a base point perpendicular to the line between two vacua returns a point of that plane and the potential value there, not higher than any candidate the selected minimisers found; plane coordinates are mapped into the plane unchanged; identical vacua and points of the wrong dimension are refused.",
     ["inputs"],
     "every pair of vacua, base point and plane coordinates, every outcome of the library minimisers",
     "No test covers the minimisation in a plane with vacua that differ only in a later direction, with negative differences or several candidates.",
     MINFILES,
     [("plane", "MinimizePlane.cpp MinimizePlane, TransformCoordinates, GSL_Minimize_Plane_gen_all, GSL_Minimize_Plane_From_S_gen_all, GSL_VEFF_Minimize_Plane"), ("NLopt", "MinimizeNLOPT.cpp MinimizePlaneUsingNLOPT, NLOPTVEffPlane")],
     [run("plane", c) for c in ("CxSM-coord", "N2HDM-1-coord", "CxSM-gsl", "CxSM-both", "CxSM-nlopt", "N2HDM-1-both")] + [run("locmin", "CxSM-plane"), run("locmin", "N2HDM-1-plane"), run("nloptbox", "CxSM-plane"), run("nloptbox", "R2HDM-1-plane"), run("nloptbox", "N2HDM-1-plane")],
     "Vacua and base points with components up to 400 GeV, first differing component at least 1 GeV apart; three of the 50 local minimisations with free results.")
