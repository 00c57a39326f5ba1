// Loop functions of the one-loop derivatives: confluent divided differences of
// x (log x - 2 log mu) in any order of the squared masses.
// bsym-src: @models
#include "models.h"
static double mu;
static double lg(double x) { return std::log(x) - 2 * std::log(mu); }
// divided difference over the groups of a sorted list (group 0 is massless);
// the logarithm of a vanishing mass is dropped (infrared subtraction)
static double dd(const std::vector<double> &x, const std::vector<int> &g, int i, int j)
{
  if (g[i] != g[j]) return (dd(x, g, i + 1, j) - dd(x, g, i, j - 1)) / (x[j] - x[i]);
  double a = x[i];
  int n    = j - i;
  if (g[i] == 0) return n == 0 ? 0 : n == 1 ? 1 : 0;
  if (n == 0) return a * lg(a);
  if (n == 1) return lg(a) + 1;
  if (n == 2) return 1 / (2 * a);
  return -1 / (6 * a * a);
}
extern "C" void bs_harness_main()
{
  int n   = atoi(bs_case().c_str());
  auto mp = newModel(specFromCase("SM"), GetSMConstants());
  CPO &m  = *mp;
  m.scale = mu = R("scale", 100, 1000);
  // every argument: massless, equal to an earlier one, or a new squared mass
  std::vector<int> g(n);
  int used = 0;
  for (int i = 0; i < n; i++)
  {
    g[i] = bs_choice(("g" + std::to_string(i)).c_str(), used + 2);
    used = std::max(used, g[i]);
  }
  // the new masses in any order of size
  std::vector<double> val(used + 1, 0.0);
  double x = 0;
  std::vector<int> order;
  for (int k = 1; k <= used; k++)
    order.insert(order.begin() + bs_choice(("o" + std::to_string(k)).c_str(), k), k);
  for (int k : order)
    val[k] = x = x + R("x" + std::to_string(k), 0.01, 1e5);
  std::vector<double> a(n);
  int zeros = 0;
  for (int i = 0; i < n; i++)
  {
    a[i] = val[g[i]];
    zeros += g[i] == 0;
  }
  std::vector<double> s;
  std::vector<int> sg;
  for (int k = 0; k <= used; k++)
    for (int i = 0; i < n; i++)
      if (g[i] == k) s.push_back(val[k]), sg.push_back(k);
  double w = dd(s, sg, 0, n - 1);
  bs_generic(2);
  auto f = [&](const std::vector<double> &z)
  { return n == 2 ? m.fbase(z[0], z[1]) : n == 3 ? m.fbaseTri(z[0], z[1], z[2]) : m.fbaseFour(z[0], z[1], z[2], z[3]); };
  double r = f(a);
  bs_generic(0);
  if (n == 4 && zeros == 3)
  {
    double b = 0;
    for (double z : a) b = b + z;
    w = lg(b) / (b * b); // infrared divergent, subtraction of the library
  }
  bs_check_eq(r, w, 1e-7, 1e-12, "loop function is the divided difference");
  bs_reach("end");
}
