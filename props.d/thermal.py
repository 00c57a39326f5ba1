prop("C07", "Debye masses follow from the couplings by the group-theory formula",
     "For every parameter point the thermal mass corrections of the scalars and of the gauge bosons are those of the leading-order formula in the quartic, gauge and Yukawa couplings of the model; model-specific shortcuts and the generic calculation agree, and recalculating them does not accumulate.",
     ["inputs", "configurations", "histories"],
     "all couplings, gauge couplings and fermion masses of the six models, all Yukawa types, in any order of repeated and forced calculations",
     "The tests pin Debye masses only through one benchmark potential value; a wrong coefficient in a shortcut or type is within their tolerance or never exercised.",
     MODELFILES, [("Debye masses", "Class_Potential_Origin::CalculateDebye, CalculateDebyeGauge; Class_Potential_*::CalculateDebyeSimplified, CalculateDebyeGaugeSimplified")],
     [run("debye", c) for c in ["SM", "CxSM", "CPintheDark"] + ["%s-%d" % (m, t) for m in ("R2HDM", "C2HDM", "N2HDM") for t in (1, 2, 3, 4)] +
      ["R2HDM-2force", "C2HDM-1force", "N2HDM-3force", "R2HDM-1forcetwice", "R2HDM-2twice"]] +
     [run("debye", "%s-%dforce" % (m, t), tier="thorough") for m in ("R2HDM", "C2HDM", "N2HDM") for t in (1, 2, 3, 4)],
     "Parameters as in C01/C04/C05; the shortcuts of the two-doublet models are compared with light fermion masses (all but t and b) set to zero, which is what they approximate.",
     outside="Light-fermion contributions in the shortcut formulas (documented to be neglected).")
prop("C08", "One-loop effective potential is tree+counterterm+Coleman-Weinberg+thermal",
     "The one-loop effective potential is the tree-level and counterterm potential plus, for every particle with its degrees of freedom and renormalisation constant, the Coleman-Weinberg term and, at finite temperature, the thermal term; reported derivatives with respect to a field and to temperature are the derivatives of that value.",
     ["inputs", "configurations"],
     "all squared masses of either sign including zero, all temperatures including zero, all field derivatives of every mass and all particle multiplicities",
     "Tests compare the potential at a few points of one benchmark per model; derivative branches, negative squared masses and the T=0 branch are not compared with the value they differentiate.",
     MODELFILES + ["include/BSMPT/models/ClassPotentialOrigin.h"], [("one-loop potential", "Class_Potential_Origin::boson, fermion, CWTerm, V1Loop, VEff, getDebug"), ("thermal functions", "ThermalFunctions::JbosonInterpolated, JfermionInterpolated")],
     [run("boson", ""), run("v1loop", "value"), run("v1loop", "field"), run("v1loop", "tempfixed"), run("v1loop", "temp", weight=5)],
     "Squared masses in [1e-3,1e6] GeV^2 of either sign or exactly 0, T in [1,500] GeV or 0, scale [100,1000] GeV; V1Loop with the mass routines replaced by arbitrary squared masses and derivatives (the mass routines themselves: C09), Parwani/Arnold-Espinosa as compiled.",
     outside="Squared masses outside the ranges; the numerical values of the thermal integrals (C10).")
prop("C09", "Squared masses are the eigenvalues of the documented mass matrices",
     "For every field configuration and temperature the squared masses reported for scalars, gauge bosons, quarks and leptons are the eigenvalues of the field-dependent mass matrices (second derivatives of the potential plus thermal masses, gauge and Yukawa couplings), and derivatives of eigenvalues are the derivatives of those eigenvalues.",
     ["inputs", "configurations"],
     "all field configurations, temperatures and Lagrangian parameters of the six models; all symmetric matrices and derivative matrices up to 4x4 including degenerate and vanishing eigenvalues",
     "Tests check masses at the vacuum of one benchmark per model; matrices at a general field point, at finite temperature, or with degenerate eigenvalues are never compared with the potential.",
     MODELFILES, [("mass matrices", "Class_Potential_Origin::HiggsMassesSquared, HiggsMassMatrix, GaugeMassesSquared, QuarkMassesSquared, LeptonMassesSquared, FirstDerivativeOfEigenvalues")],
     [run("masses", "%s-higgs" % m, weight=9) for m in M6] + [run("masses", "%s-%s" % (m, k), weight=2) for m in M6 for k in ("gauge", "quark", "lepton", "higgsT0", "temp")] +
     [run("evderiv", n) for n in "1234"],
     "Fields in [-500,500] GeV, T in [1,500] GeV or 0, parameters as in C01; the matrix handed to the (stubbed) Eigen eigenvalue solver is compared entry by entry, its spectrum being Eigen's business; eigenvalue derivatives for up to 4x4 matrices with arbitrary eigenvectors.",
     outside="Correctness of Eigen's eigenvalue solver; matrices above 4x4 for the derivative formula.")
prop("C10", "Thermal functions and their derivatives are consistent and continuous",
     "The expansions and interpolations of the thermal functions J_B and J_F are differentiated correctly, the interpolation uses the expansion documented for each argument range and joins the pieces continuously, and the integrands are those of the defining integrals for both signs of the squared mass.",
     ["inputs"],
     "all arguments in the documented range of the interpolation, all expansion orders up to 7, both thermal functions, value and derivative",
     "Tests compare a handful of arguments with stored numbers and do not evaluate derivatives or the neighbourhood of the matching points.",
     ["src/ThermalFunctions/ThermalFunctions.cpp", "include/BSMPT/ThermalFunctions/ThermalFunctions.h", "include/BSMPT/ThermalFunctions/NegativeBosonSpline.h"],
     [("thermal functions", "ThermalFunctions::JfermionInterpolated*, JbosonInterpolated*, JInterpolatedHigh, JbosonIntegrand, JfermionIntegrand")],
     [run("thermal", c) for c in ("low", "high", "select", "neg")] + [run("thermal", "negall", weight=5)] + [run("jintegrand", c) for c in ("pos", "neg")],
     "Low expansion: 1e-6<=x<=16, orders 0..7; high expansion 1<=x<=1e4; spline for negative arguments: knots and segments as in the harness (thorough: the whole of [-1100,0)); integrand 0.5<=k<=20, |m^2/T^2| <=400 (positive) or 9 (negative).",
     outside="The GSL quadrature; the numerical accuracy of the expansions against the exact integrals.")
