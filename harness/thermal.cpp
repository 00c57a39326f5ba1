// Thermal functions: every analytic expansion is differentiated correctly and
// the interpolation picks the documented piece, continuously.
// bsym-src: @models
#include "bs.h"
#include <BSMPT/ThermalFunctions/ThermalFunctions.h>
#include <cmath>
#include <string>
using namespace BSMPT::ThermalFunctions;
static double R(const char *n, double lo, double hi) { return bs_real(n, lo, hi); }
extern "C" void bs_harness_main()
{
  std::string cs = bs_case();
  if (cs == "low")
  {
    // x = y^2: half-integer powers become polynomials
    double y = R("y", 1e-3, 4), x = y * y;
    long n    = bs_choice("order", 8);
    auto chk  = [&](auto f, const char *l)
    {
      double d = bs_diff([&](double z) { return f(z * z, n, 0); }, y);
      bs_check_eq(2 * y * f(x, n, 1), d, 1e-9, 1e-7, l);
    };
    chk([](double z, int k, int d) { return JfermionInterpolatedLow(z, k, d); }, "derivative of the low expansion (fermions)");
    chk([](double z, int k, int d) { return JbosonInterpolatedLow(z, k, d); }, "derivative of the low expansion (bosons)");
  }
  if (cs == "high")
  {
    double y = R("y", 1, 10), x = y * y * y * y;
    long n   = bs_choice("order", 8);
    double d = bs_diff([&](double z) { return JInterpolatedHigh(z * z * z * z, n, 0); }, y);
    bs_check_eq(4 * y * y * y * JInterpolatedHigh(x, n, 1), d, 1e-9, 1e-7, "derivative of the high expansion");
  }
  if (cs == "select")
  {
    long d   = bs_choice("diff", 2);
    long b   = bs_choice("piece", 2);
    double f = R("f", 0, 2.2160791), F = R("F", 2.2160792, 1e4);
    double y = R("b", 0, 9.4692305), Y = R("B", 9.4692306, 1e4);
    double S = d == 0 ? 1 : 0;
    if (b)
    {
      double zf = bs_choice("zero", 2) ? 0 : f;
      bs_check_eq(JfermionInterpolated(zf, d), -JfermionInterpolatedLow(zf, 4, d) + S * 0.01560316619, 1e-9, 1e-9, "fermions below the matching point");
      double zb = zf == f ? y : 0;
      bs_check_eq(JbosonInterpolated(zb, d), JbosonInterpolatedLow(zb, 3, d), 1e-9, 1e-9, "bosons below the matching point");
    }
    else
    {
      bs_check_eq(JfermionInterpolated(F, d), -JInterpolatedHigh(F, 3, d), 1e-9, 1e-9, "fermions above the matching point");
      bs_check_eq(JbosonInterpolated(Y, d), JInterpolatedHigh(Y, 3, d) - S * 0.0063108787, 1e-9, 1e-9, "bosons above the matching point");
    }
    double e = 1e-7;
    bs_check_eq(JfermionInterpolated(C_FermionTheta - e, d), JfermionInterpolated(C_FermionTheta, d), 0, d ? 2e-2 : 1e-5, "continuity at the matching point (fermions)");
    bs_check_eq(JbosonInterpolated(C_BosonTheta - e, d), JbosonInterpolated(C_BosonTheta, d), 0, d ? 2e-2 : 1e-5, "continuity at the matching point (bosons)");
    bs_check_eq(JbosonInterpolated(-1e-9, d), JbosonInterpolated(0, d), 0, d ? 1e-3 : 1e-5, "continuity at zero (bosons)");
    bs_check_eq(JfermionInterpolated(1e-12, d), JfermionInterpolated(0, d), 0, 1e-5, "continuity at zero (fermions)");
    bs_check_eq(JbosonInterpolated(1e-12, d), JbosonInterpolated(0, d), 0, 1e-5, "continuity at zero (bosons)");
  }
  if (cs == "neg")
  {
    static const double at[] = {-0.11, -1.23, -4.56, -9.87, -15.4, -20};
    double c = at[bs_choice("piece", 6)], x = R("x", c - 0.012, c);
    double d = bs_diff([](double z) { return JbosonInterpolated(z, 0); }, x);
    bs_check_eq(JbosonInterpolated(x, 1), d, 1e-9, 1e-7, "derivative for negative squared masses");
  }
  if (cs == "negall")
  {
    double x = R("x", getenv("BS_TIER") ? -1100 : -30, -1e-9);
    double d = bs_diff([](double z) { return JbosonInterpolated(z, 0); }, x);
    bs_check_eq(JbosonInterpolated(x, 1), d, 1e-9, 1e-7, "derivative for negative squared masses");
  }
  bs_reach("end");
}
