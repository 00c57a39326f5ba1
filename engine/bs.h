// Harness API.  The same source is executed symbolically (instrumented IR) and
// natively (replay of a solver model).
#pragma once
extern "C"
{
  double bs_real(const char *name, double lo, double hi); // symbolic real
  double bs_fresh(const char *prefix, double lo, double hi);
  long bs_int(const char *name, long lo, long hi);
  long bs_freshint(const char *prefix, long lo, long hi);
  long bs_choice(const char *name, long n); // forks over 0..n-1
  void bs_assume(int cond);
  void bs_check(int cond, const char *label);
  void
  bs_check_eq(double a, double b, double rtol, double atol, const char *label);
  void bs_reach(const char *label);
  int bs_decide(int cond);
  int bs_symbolic();
  int bs_is_sym(double v);
  int bs_same(double a, double b); // the same term (decided without the solver)
  void bs_note(const char *s);
  void bs_show(const char *name, double v);
  void bs_istream_push(double v);
  void bs_istream_reset();
  void bs_generic(int on); // assume |x| > cut at tests against tiny cuts (2: keep it from the solver)
  double bs_deriv(double y, double x); // symbolic only: dy/dx, x an input
  void bs_end_path();
  void bs_harness_main();
}
#include <cstdlib>
#include <string>
inline std::string bs_case()
{
  const char *c = getenv("BS_CASE");
  return c ? c : "";
}
// derivative of f at the input x: exact symbolically, Richardson natively
template <class F> inline double bs_diff(F f, double x)
{
  if (bs_symbolic()) return bs_deriv(f(x), x);
  double h = 1e-3 * (x < 0 ? -x : x) + 1e-9;
  auto c   = [&](double k) { return (f(x + k) - f(x - k)) / (2 * k); };
  double a = c(h), b = c(h / 2), d = c(h / 4);
  double ab = (4 * b - a) / 3, bd = (4 * d - b) / 3;
  return (16 * bd - ab) / 15;
}
