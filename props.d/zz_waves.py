GWF = ["src/gravitational_waves/gw.cpp"]
BSF = ["src/bounce_solution/bounce_solution.cpp"]
prop("C18", "The gravitational-wave spectrum follows its formulas in any order of calls",
     "From the strength, time scale, wall velocity, degrees of freedom and the chosen transition temperature of a bounce solution, the spectrum at a frequency is the sum of exactly the requested sound-wave and turbulence contributions of the documented formulas (efficiency, bubble separation, source lifetime, peak amplitudes and frequencies), whatever was evaluated before; the signal-to-noise ratio integrates the enabled contributions over the given frequency range and years; a missing transition temperature or beta/H below one is a failure.",
     ["inputs", "histories"],
     "every strength, time scale, wall velocity, temperature, turbulence fraction and frequency; every order of evaluation and choice of contributions",
     "Tests compare a few benchmark numbers with one order of calls; branches of the efficiency (deflagration, hybrid, detonation), short-lived sources and repeated evaluation are barely touched.",
     GWF,
     [("formulas", "gw.cpp Getkappa_sw, GetK_sw, GetHR, GetK_turb, CalcEpsTurb, CalcPeak*, CalcGWAmplitude"), ("set-up and SNR", "GravitationalWave constructor, GetSNR, GetSensitivity")],
     [run("gw", c) for c in ("kappa", "jouguet", "ctor", "eps", "spec", "hist", "snr")],
     "alpha in [1e-4,10], beta/H in [0.01,1e5], v_w in [0.05,0.99], T in [10,300] GeV, g* in [100,130], f/f_peak in [1e-4,1e4]; gsl_integration_qags is replaced by an arbitrary value and its integrand checked at an arbitrary frequency; ties of the source lifetime with the Hubble time are excluded (decided by rounding).",
     outside="Accuracy of the GSL quadrature.")
prop("C19", "Nucleation temperatures lie exactly where rate or action cross their threshold",
     "The exact nucleation temperature is found iff tunnelling rate over the fourth power of the Hubble rate crosses one between the known bounce solutions, the approximate one iff S3/T crosses 140; the temperature returned brackets such a crossing within a relative 1e-10; otherwise the status is not-met and the temperature stays -1, and nothing is computed without a successful bounce solution.",
     ["inputs", "histories"],
     "every pattern of values at the known solutions and at the first visited temperatures between them",
     "Tests check one or two benchmark points; several crossings, crossings in the last interval or none at all depend on the values at all solutions.",
     BSF,
     [("searches", "bounce_solution.cpp CalculateNucleationTemp, CalculateNucleationTempApprox")],
     [run("bsearch", "nucl", weight=3), run("bsearch", "approx", weight=2)],
     "Four solutions at arbitrary increasing temperatures; rate, Hubble rate and action are arbitrary at the solutions and at the first two visited temperatures in between, afterwards all above or all below the threshold.")
prop("C20", "Percolation and completion follow the requested false-vacuum fractions",
     "The search at a false-vacuum fraction returns a temperature between the known solutions at which the computed fraction is the requested one (within 0.1 % of its logarithm), or -1; percolation and completion temperature use the fraction requested by the user, refine the action in the interval of the temperature once, report the temperature of the last search and succeed exactly if it is positive; the transition temperature is the chosen one of the four if that was found and -1 otherwise.",
     ["inputs", "histories"],
     "every fraction and pattern of fractions at the solutions, every outcome of the searches, every choice of transition temperature and status",
     "Tests use the default fractions on good benchmark points; failing refinements, other fractions and selections with missing temperatures do not occur.",
     BSF,
     [("search", "bounce_solution.cpp CalcTempAtFalseVacFraction"), ("temperatures", "CalculatePercolationTemp, CalculateCompletionTemp, CalcTransitionTemp")],
     [run("bsearch", "frac", weight=3)] + [run("bpt", c) for c in ("perc", "compl", "select")],
     "Four or five solutions at arbitrary increasing temperatures; fractions in (0.001,0.999) (search: 0.71 and 0.01); the nested volume integral is arbitrary at the solutions and the first visited temperature, afterwards one of four constants.")
prop("C21", "Strength, wall velocity and time scale belong to the percolation temperature",
     "The strength of a transition is the documented ratio evaluated with both vacua at the percolation temperature reported; it is iterated with the wall velocity that follows from it until it settles, and gives up after a fixed number of steps; a wall velocity requested by the user is used unchanged everywhere; the estimates of the wall velocity (modes -1 and -2) follow the documented formulas; the inverse time scale is the temperature times the derivative of S3/T; none of them exists without a percolation temperature.",
     ["inputs", "histories"],
     "every potential and slope of the vacua, every strength, and every sequence of percolation temperatures (settling after up to two changes, or never)",
     "Tests check benchmark numbers for one wall velocity each; iterations that do not settle or lose percolation are not covered.",
     BSF,
     [("strength", "bounce_solution.cpp CalculatePTStrength, CalculateWallVelocity, CalculateInvTimeScale")],
     [run("bpt", "strength"), run("bpt", "beta"), run("bvwall", "vwall")],
     "alpha in [0.01,1.2], g* in [90,130], T in [20,200] GeV; the false-vacuum search, the bounce action and the GSL derivative return arbitrary values (the derivative's integrand is checked at an arbitrary temperature).")
prop("C22", "Tunnelling rate, Hubble rate and false-vacuum fraction follow their definitions",
     "The tunnelling rate at a temperature between the known solutions is T^4 (S3/(2 pi T))^(3/2) exp(-S3/T) for a positive action and zero outside of them; the Hubble rate is that of radiation with the current degrees of freedom; the false-vacuum fraction is the exponential of minus the volume in bubbles with the integrand, nested integral and integration limits of its definition, for the wall velocity in use.",
     ["inputs"],
     "every temperature, action, number of Higgs fields, wall velocity and value of the nested integral",
     "Tests compare integrals of a benchmark point with stored numbers; outside the known solutions or at other wall velocities nothing is tested.",
     BSF,
     [("rates", "bounce_solution.cpp TunnelingRate, HubbleRate, CalcGstarPureRad, CalcFalseVacFraction, Nintegrate_Inner, Nintegrate_Outer")],
     [run("brate", c) for c in ("rate", "gstar", "fraction")],
     "T in [10,300] GeV, S3 in [1,1e5] GeV, g* in [90,130], v_w in [0.05,1]; GSL quadrature replaced by arbitrary values, integrands checked at arbitrary temperatures.",
     outside="Negative actions (the code returns a huge rate for them by convention); accuracy of the quadrature.")
prop("C23", "Bounce solutions are complete, sorted and belong to their vacua",
     "A bounce action is computed exactly for a new temperature in range at which the true vacuum is the deeper one, from the false to the true vacuum of that temperature (transformed by the discrete symmetry that brings it closest to the false one), along the straight path or the warped path of the nearest solution; exactly the solutions with a positive action are kept, sorted by temperature; the scans visit the whole range unless a small action ends them, and the interpolation uses all solutions and succeeds iff there are at least four.",
     ["inputs", "histories"],
     "every set of known solutions and every sequence of outcomes of the bounce calculation, every group of symmetries and pair of vacua in two dimensions",
     "Tests run full calculations on benchmark points where every step succeeds; failed actions in between, repeated temperatures and unfavourable symmetries do not occur.",
     BSF + ["src/minimum_tracer/minimum_tracer.cpp"],
     [("solutions", "bounce_solution.cpp CalculateActionAt, GWInitialScan, SetBounceSol, CalculateOptimalDiscreteSymmetry, TransformIntoOptimalDiscreteSymmetry")],
     [run("bsol", c) for c in ("at", "scan", "spline", "symmetry")],
     "Up to four known solutions; scans with up to the harness's number of steps and free outcomes; the bounce action integrator and the phases are replaced by arbitrary results.",
     outside="The path deformation algorithm of BounceActionInt.")
prop("C24", "The transition tracer reports for every pair of phases what was found",
     "Phases are traced exactly if the point passes the requested stability and symmetry-restoration checks, pairs evaluated exactly after successful tracing, a bounce solution built exactly for pairs that can tunnel, gravitational waves exactly when requested and their temperature exists; every temperature, vev, strength and wave quantity is stored with the pair it belongs to together with its status, missing ones are not numbers; the transition history follows from the initial phase the transition that completes at the highest temperature, step by step.",
     ["inputs", "histories"],
     "every combination of settings, check results, statuses and temperatures of two pairs; every completion pattern of a network of five pairs of four phases",
     "Tests run a few benchmark points to the end; partially failing chains (no percolation, no completion, several competing transitions) are not covered.",
     ["src/transition_tracer/transition_tracer.cpp"],
     [("report", "transition_tracer.cpp TransitionTracer::TransitionTracer")],
     [run("tracer", c, weight=2 if c == "steps" else 1) for c in ("steps", "history", "report")],
     "One or two pairs in full detail, five pairs for the history; tracing, bounce solutions and gravitational waves are replaced by arbitrary results.")
MTF = ["src/minimum_tracer/minimum_tracer.cpp"]
prop("C25", "Minima and phases are kept in canonical, consistent form",
     "Vacua that are related by a discrete symmetry of the potential are reduced to one and the same representative of their orbit; flat directions are removed keeping the length; a phase lists each temperature once in increasing order with its own minimum and knows its range; the minimum at a temperature is the known one or tracked from the nearest known one and added; a minimum is the global one iff it lies within 1 GeV of the global minimum at its temperature up to symmetries; warped paths join the new vacua; grids are equidistant.",
     ["inputs", "histories"],
     "every vacuum and every group of sign flips in two to four dimensions, every insertion order of five minima, every outcome of the tracker",
     "Tests trace a few models whose groups are small; order of insertion, symmetric vacua in other sectors and failing tracker calls are not enumerated.",
     MTF,
     [("vacua", "minimum_tracer.cpp ReduceVEV, ConvertToNonFlatDirections, IsGlobMin, GetGlobalMinimum, ConvertToVEVDim"), ("phases", "Phase::Get, Phase::Add"), ("paths and grids", "WarpPath, Create1DimGrid, almost_the_same")],
     [run("mt", c) for c in ("reduce", "add", "get", "same", "grid", "warp", "globmin", "flat", "status")],
     "Components up to 300 GeV (at least 1e-3 GeV for the reduction), five minima, three known minima for lookups, grids of up to six steps; phase tracking and global minimisation return arbitrary results.")
prop("C26", "Coexisting phases and gaps of the temperature range are recognised",
     "After tracing, the phases are numbered in the order of falling temperature; every pair of phases that exist at a common temperature is listed once, the one that reaches higher temperatures as the false vacuum, with the range they share; coexistence is reported iff two phases exist at the same temperature; a gap between phases is reported as missing coverage or (except in mode 0) patched by a phase through the global minimum there; every mode traces from the documented starting points, and unbounded potentials or a lack of phases are failures.",
     ["inputs", "configurations"],
     "every order of the ends of up to three phases, every mode, status and outcome of the patching",
     "Tests trace benchmark points with one or two phases and no gaps.",
     MTF,
     [("pairs and coverage", "minimum_tracer.cpp Vacuum::Vacuum, setCoexPhases, setCoexRegion, addPhase, MinimumFoundAlready, CoexPhases::CoexPhases")],
     [run("mtv", c) for c in ("coex", "region", "vacuum2", "vacuum3", "modes")],
     "Up to three phases between 0 and 300 GeV with different ends plus one patch; the tracing modes themselves, Phase::Get, the phase tracker and the global minimisation are replaced by arbitrary results.")
