// One-loop building blocks boson(), fermion(): Coleman-Weinberg plus thermal
// function, and their derivatives, for every squared mass and temperature.
// bsym-src: @models
// bsym-stub: ^BSMPT::ThermalFunctions::JbosonInterpolated\(double const&, int\)$ -> h_jb
// bsym-stub: ^BSMPT::ThermalFunctions::JfermionInterpolated\(double const&, int\)$ -> h_jf
// bsym-stub: ^BSMPT::ThermalFunctions::JbosonNumericalIntegration\(double const&, int\)$ -> h_jb
// bsym-stub: ^BSMPT::ThermalFunctions::JfermionNumericalIntegration\(double const&, int\)$ -> h_jf
#include "models.h"
static double X; // expected argument
static double JB[2], JF[2];
static int calls;
extern "C"
{
  double h_jb(const double &x, int diff)
  {
    calls++;
    bs_check_eq(x, X, 1e-12, 1e-12, "argument of the thermal function");
    bs_check(diff == 0 || diff == 1, "derivative order of the thermal function");
    return JB[diff == 1];
  }
  double h_jf(const double &x, int diff)
  {
    calls++;
    bs_check_eq(x, X, 1e-12, 1e-12, "argument of the thermal function");
    bs_check(diff == 0 || diff == 1, "derivative order of the thermal function");
    return JF[diff == 1];
  }
}
extern "C" void bs_harness_main()
{
  std::string cs = bs_case();
  ModelSpec s    = specFromCase("SM");
  auto mp        = newModel(s, GetSMConstants());
  CPO &m         = *mp;
  m.scale        = R("scale", 50, 1000);
  double mu      = m.scale;
  double M = 0;
  long sg = bs_choice("sign", 3);
  if (sg == 0) M = R("m2", 2e-4, 1e7);
  if (sg == 1) M = R("m2", -1e7, -2e-4);
  if (sg == 2) M = R("m2", -0.9e-4, 0.9e-4);
  bool zeroT = bs_choice("zeroT", 2);
  double T   = zeroT ? 0 : R("T", 0.5, 1e4);
  double cb  = R("cb", 0.5, 2);
  for (int k = 0; k < 2; k++)
  {
    JB[k] = R("JB" + std::to_string(k), -1e3, 1e3);
    JF[k] = R("JF" + std::to_string(k), -1e3, 1e3);
  }
  X          = zeroT ? 0 : M / (T * T);
  auto cw    = [&](double c)
  { return sg == 2 ? 0 : M * M / (64 * M_PI * M_PI) * (std::log(std::abs(M)) - 2 * std::log(mu) - c); };
  auto dcw   = [&](double c)
  { return sg == 2 ? 0 : M / (32 * M_PI * M_PI) * (std::log(std::abs(M)) - 2 * std::log(mu) - c + 0.5); };
  double T2 = T * T, p2 = 2 * M_PI * M_PI;
  auto b0 = m.boson(M, T, cb, 0), f0 = m.fermion(M, T, 0);
  double S = zeroT ? 0 : 1;
  bs_check_eq(b0, cw(cb) + S * T2 * T2 / p2 * JB[0], 1e-9, 1e-6, "boson contribution");
  bs_check_eq(f0, cw(1.5) + S * T2 * T2 / p2 * JF[0], 1e-9, 1e-6, "fermion contribution");
  auto b1 = m.boson(M, T, cb, 1), f1 = m.fermion(M, T, 1);
  bs_check_eq(b1, dcw(cb) + S * T2 / p2 * JB[1], 1e-9, 1e-6, "mass derivative of the boson contribution");
  bs_check_eq(f1, dcw(1.5) + S * T2 / p2 * JF[1], 1e-9, 1e-6, "mass derivative of the fermion contribution");
  auto bt = m.boson(M, T, cb, -1), ft = m.fermion(M, T, -1);
  bs_check_eq(bt, S * (4 * T2 * T * JB[0] - 2 * T * M * JB[1]) / p2, 1e-9, 1e-6, "temperature derivative of the boson contribution");
  bs_check_eq(ft, S * (4 * T2 * T * JF[0] - 2 * T * M * JF[1]) / p2, 1e-9, 1e-6, "temperature derivative of the fermion contribution");
  bs_check(calls == (zeroT ? 0 : 8), "thermal functions are used exactly at finite temperature");
  bs_reach("end");
}
