// The integrands of the thermal functions, for both signs of the squared mass.
// bsym-src: @models
// bsym-stub: ^csqrt$ -> h_csqrt
// bsym-stub: ^cexp$ -> h_cexp
// bsym-stub: ^clog$ -> h_clog
// bsym-stub: ^__divdc3$ -> h_div
#include "bs.h"
#include <BSMPT/ThermalFunctions/ThermalFunctions.h>
#include <cmath>
#include <complex>
#include <string>
using namespace BSMPT::ThermalFunctions;
typedef std::complex<double> C;
extern "C"
{
  // all arguments that occur are real or purely imaginary
  C h_csqrt(double re, double im)
  {
    bs_check_eq(im, 0, 0, 0, "square root of a real number");
    if (re >= 0) return C(std::sqrt(re), 0);
    return C(0, std::sqrt(-re));
  }
  C h_cexp(double re, double im) { return C(std::exp(re) * std::cos(im), std::exp(re) * std::sin(im)); }
  C h_clog(double re, double im)
  {
    if (!bs_is_sym(im) && im == 0 && re > 0) return C(std::log(re), 0);
    return C(0.5 * std::log(re * re + im * im), 0);
  }
  C h_div(double a, double b, double c, double d)
  {
    double n = c * c + d * d;
    return C((a * c + b * d) / n, (b * c - a * d) / n);
  }
}
extern "C" void bs_harness_main()
{
  bool neg = bs_case() == "neg";
  double k = bs_real("k", 0.5, 20), x;
  // s = sqrt|k^2 + x|
  double s = bs_real("s", 0.1, neg ? 3 : 20);
  x        = neg ? -s * s - k * k : s * s - k * k;
  double ex = std::exp(-s), c = std::cos(s), sn = std::sin(s);
  double B0 = JbosonIntegrand(x, k, 0), F0 = JfermionIntegrand(x, k, 0), B1 = JbosonIntegrand(x, k, 1), F1 = JfermionIntegrand(x, k, 1);
  if (!neg)
  {
    bs_check_eq(B0, k * k * std::log(1 - ex), 1e-9, 1e-9, "bosonic integrand");
    bs_check_eq(F0, k * k * std::log(1 + ex), 1e-9, 1e-9, "fermionic integrand");
    bs_check_eq(B1, k * k * ex / (2 * s * (1 - ex)), 1e-9, 1e-9, "derivative of the bosonic integrand");
    bs_check_eq(F1, -k * k * ex / (2 * s * (1 + ex)), 1e-9, 1e-9, "derivative of the fermionic integrand");
  }
  else
  {
    bs_check_eq(B0, k * k * 0.5 * std::log((1 - c) * (1 - c) + sn * sn), 1e-9, 1e-9, "bosonic integrand");
    bs_check_eq(F0, k * k * 0.5 * std::log((1 + c) * (1 + c) + sn * sn), 1e-9, 1e-9, "fermionic integrand");
  }
  bs_reach("end");
}
