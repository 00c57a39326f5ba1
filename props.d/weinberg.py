prop("C11", "Derivatives of the Coleman-Weinberg potential are exact at the vacuum",
     "The one-loop derivatives of the potential at the vacuum, from which counterterms and self-couplings are computed, are the derivatives of the Coleman-Weinberg potential: first to fourth derivatives in every field direction, for every spectrum including massless and degenerate states, with couplings that are the field derivatives of the mass matrices in the mass basis.",
     ["inputs", "configurations"],
     "all spectra with any pattern of vanishing and coinciding squared masses, all couplings (real and complex), all combinations of fields up to four derivatives",
     "Tests compare the counterterms and triple couplings of one benchmark per model; degenerate or massless patterns that the benchmark lacks, and the fourth derivatives, are not compared with anything.",
     [SRC + "ClassPotentialOrigin.cpp"],
     [("one-loop derivatives", "Class_Potential_Origin::CalculatePhysicalCouplings, WeinbergFirst/Second/Third/ForthDerivative, fbase, fbaseTri, fbaseFour")],
     [run("fbase", n) for n in "234"] + [run("weinberg", n, weight=2) for n in "1234"] + [run("couplings")],
     "Loop functions: every pattern of zero/equal/different squared masses in [0.01,4e5] GeV^2, scale [100,1000]; derivative formulas: two states per particle sort with arbitrary couplings |c|<=5 and a fixed generic rotation matrix; couplings: 2 scalars, 2 gauge bosons, 2 quarks, 3 leptons with arbitrary tensors and eigenvector matrices.",
     outside="Negative squared masses in the logarithms; more states per sort (the code is uniform in their number); complex eigenvector matrices of the fermions.")
