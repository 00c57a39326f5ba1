// Percolation, completion, transition strength, wall velocity and inverse time
// bsym-src: bounce_solution/bounce_solution.cpp minimum_tracer/*.cpp utility/*.cpp
// bsym-stub: ^BSMPT::BounceSolution::CalcTempAtFalseVacFraction\( -> h_frac
// bsym-stub: ^BSMPT::BounceSolution::CalculateActionAt\( -> h_action
// bsym-stub: ^BSMPT::BounceSolution::SetBounceSol\( -> h_set
// bsym-stub: ^BSMPT::BounceSolution::GetBounceSol\( -> h_S3
// bsym-stub: ^BSMPT::Phase::Get\( -> h_get
// bsym-stub: ^BSMPT::Class_Potential_Origin::MinimizeOrderVEV\( -> h_order
// bsym-stub: ^BSMPT::BounceSolution::CalculateWallVelocity\( -> h_vwall
// bsym-stub: ^gsl_deriv_central$ -> h_deriv
#include "bpt.h"
