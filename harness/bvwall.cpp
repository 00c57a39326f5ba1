// Wall velocity from the strength of the transition (modes -1, -2 and user defined).
// bsym-src: bounce_solution/bounce_solution.cpp minimum_tracer/*.cpp utility/*.cpp
// bsym-stub: ^BSMPT::BounceSolution::CalcTempAtFalseVacFraction\( -> h_frac
// bsym-stub: ^BSMPT::BounceSolution::CalculateActionAt\( -> h_action
// bsym-stub: ^BSMPT::BounceSolution::SetBounceSol\( -> h_set
// bsym-stub: ^BSMPT::BounceSolution::GetBounceSol\( -> h_S3
// bsym-stub: ^BSMPT::Phase::Get\( -> h_get
// bsym-stub: ^BSMPT::Class_Potential_Origin::MinimizeOrderVEV\( -> h_order
// bsym-stub: ^gsl_deriv_central$ -> h_deriv
#define WALL
#include "bpt.h"
