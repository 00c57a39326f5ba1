prop("C01", "Tree-level potential equals the documented Lagrangian",
     "For every admissible parameter point and every field configuration, the tree-level potential each model evaluates, and its derivative with respect to every scalar field, equals the scalar potential documented for that model. "
     "Where a model offers a simplified expression, it agrees with the full one on every configuration of the fields that may acquire a vacuum expectation value.",
     ["inputs", "configurations"],
     "all couplings, masses, tan(beta), singlet vevs and all 4-9 real scalar fields of SM, CxSM, R2HDM, C2HDM, N2HDM and CPintheDark, including vanishing field components",
     "The tests evaluate the potential at one benchmark point per model; a wrong tensor entry in a direction the benchmark does not populate is invisible to them.",
     MODELFILES, [("coupling tensors and tree-level potential", "Class_Potential_*::SetCurvatureArrays, set_gen; Class_Potential_Origin::VTree, VTreeSimplified")],
     [run("vtree", c) for c in M6 + ["R2HDM-1neg", "CxSM-vs0", "CxSM-va0", "CxSM-vs0va0"]] ,
     "Couplings |lambda|<=10, mass parameters |m^2|<=1e5 GeV^2, 0.1<=|tan beta|<=50, fields in [0.5,500] GeV for the full configuration and [-500,500] GeV including 0 for vev configurations; SM inputs (v, g, g', masses) symbolic in ranges around their physical values.",
     outside="Values outside the ranges (the identities are polynomial, the normal form itself does not use the ranges).")
MECHT = "Class_Potential_*::set_gen, SetCurvatureArrays"
prop("C02", "Counterterm potential equals the documented counterterm Lagrangian",
     "For every set of counterterms, the counterterm potential each model evaluates and its derivative with respect to every scalar field equals the counterterm potential documented for that model "
     "(shifts of the tree-level couplings plus tadpoles). Setting counterterms replaces any set installed earlier, and the simplified form agrees with the full one on configurations of the fields that may acquire a vacuum expectation value.",
     ["inputs", "configurations", "histories"],
     "all counterterm values and field configurations of the six models, with an arbitrary earlier set of counterterms installed before",
     "A wrong or stale counterterm coupling in a direction the benchmark point does not populate changes the potential only off the tested configurations.",
     MODELFILES, [("counterterm tensors and potential", "Class_Potential_*::set_CT_Pot_Par; Class_Potential_Origin::CounterTerm, CounterTermSimplified")],
     [run("ctpot", c) for c in M6],
     "Counterterms |c|<=1e3, couplings |lambda|<=10, |m^2|<=1e5, fields in [0.5,500] GeV (full) and [-500,500] (vev configurations); previous counterterm set fixed and non-zero in every component.",
     outside="More than two successive counterterm sets.")
prop("C03", "The reported tree-level vacuum is a stationary point at the electroweak scale",
     "For every admissible input the vacuum a model reports is a stationary point of the full tree-level potential in every field direction, lies in the directions the model declares, conserves charge, and has the electroweak vacuum expectation value.",
     ["inputs"],
     "all couplings, tan(beta) of either sign, singlet vevs including the vanishing ones, for the six models",
     "The tadpole conditions have to cancel for every input; tests verify them at one benchmark per model.",
     MODELFILES, [("tadpole conditions", MECHT + "; Class_Potential_Origin::MinimizeOrderVEV, VTree")],
     [run("tadpole", c) for c in M6 + ["CxSM-vs0", "CxSM-va0", "CxSM-vs0va0", "R2HDM-1neg"]],
     "Couplings |lambda|<=10, |m^2|<=1e5 GeV^2, 0.1<=tan beta<=50 (R2HDM also -50<=tan beta<=-0.1, which its source supports), 200<=v<=300 GeV, singlet vevs in {0} u [1,3000] GeV; SM and CPintheDark with the documented input relation between the quadratic and the quartic coupling. Agreement to 1e-3 GeV^3.",
     outside="Negative tan(beta) in C2HDM and N2HDM (their convention is beta in the first quadrant); SM / CPintheDark inputs that violate their documented input relation.")
prop("C04", "Gauge couplings are those of SU(2)xU(1), leaving the potential invariant",
     "In every model the scalar-gauge couplings are the ones of the SU(2)xU(1) covariant derivative acting on the scalar doublets, the tree-level potential is invariant under those gauge transformations, and for every charge-conserving vacuum the photon is massless and the W and Z masses follow from the doublet vevs.",
     ["inputs", "configurations"],
     "all couplings g and g', all Lagrangian parameters and all field configurations of the six models",
     "A wrong entry in a gauge coupling tensor, or a potential term that breaks gauge invariance, shows only off the tested benchmark direction.",
     MODELFILES, [("gauge coupling tensors", "Class_Potential_*::SetCurvatureArrays (Curvature_Gauge_G2H2); Class_Potential_Origin::VTree")],
     [run("gauge", c) for c in M6],
     "g in [0.3,1], g' in [0.1,0.9], other parameters as in C01, fields in [-500,500] GeV.", outside="Values outside the ranges.")
prop("C05", "Fermion couplings follow the documented Yukawa Lagrangian of every type",
     "In every model and every Yukawa type the quark and lepton couplings are those of the documented Yukawa Lagrangian: each fermion couples to the doublet its type prescribes, CKM mixing enters the charged couplings, and at the vacuum the fermion mass matrices carry exactly the Standard Model masses.",
     ["inputs", "configurations"],
     "all fermion masses, the electroweak scale and tan(beta), for SM, CxSM, CPintheDark and types I-IV of R2HDM, C2HDM, N2HDM",
     "The tests use type I/II benchmarks; a wrong assignment in another type, or a wrong light-fermion or charged coupling, is not seen by them.",
     MODELFILES, [("Yukawa tensors and mass matrices", "Class_Potential_*::SetCurvatureArrays (Curvature_Quark_F2H1, Curvature_Lepton_F2H1); Class_Potential_Origin::QuarkMassMatrix, LeptonMassMatrix")],
     [run("yukawa", c) for c in ["SM", "CxSM", "CPintheDark"] + ["%s-%d" % (m, t) for m in ("R2HDM", "C2HDM", "N2HDM") for t in (1, 2, 3, 4)]],
     "Fermion masses symbolic in ranges around their physical values, 0.1<=tan beta<=50; CKM matrix at the library's value.",
     outside="Other CKM matrices.")
prop("C06", "Counterterms satisfy the renormalisation conditions",
     "For every one-loop shift of the vacuum gradient and mass matrix that has the form of the documented counterterm potential, the counterterms each model computes cancel that shift exactly: gradient and Hessian of the counterterm potential at the tree-level vacuum are minus the one-loop first and second derivatives.",
     ["inputs", "configurations"],
     "all Lagrangian parameters of the six models (CxSM with every pattern of vanishing singlet vevs) and all admissible one-loop derivative vectors and matrices",
     "The tests compare the counterterms of one benchmark per model with stored numbers, where many one-loop derivatives vanish or coincide.",
     MODELFILES, [("counterterm calculation", "Class_Potential_*::calc_CT, set_CT_Pot_Par; Class_Potential_Origin::NablaVCT, HessianCT")],
     [run("calcct", c) for c in M6 + ["CxSM-vs0", "CxSM-va0", "CxSM-vs0va0", "R2HDM-1neg"]],
     "One-loop derivatives = those of a counterterm potential with symbolic coefficients |c|<=1e5; parameters as in C01.",
     outside="One-loop derivative tensors that no counterterm potential of the model can cancel; the Weinberg derivative formulas themselves (other property).")
