// Derivatives of the Coleman-Weinberg potential from the physical couplings:
// n-th directional derivative of sum c_a tr F(M) for arbitrary couplings.
// bsym-src: @models
#include "models.h"
#include <complex>
using C = std::complex<double>;
static CPO *P;
// perturbation series of tr F for M = diag(x) + V1 t + V2 t^2, F = x^2(L - k)
// with the divided differences of F' = 2 f + (1 - 2k) x
static C series(int n, const Vec &x, double k, const std::vector<std::vector<C>> &V, const std::vector<std::vector<C>> &W)
{
  int N = x.size();
  C r(0, 0);
  auto lin = [&](int a) -> double
  { return x[a] == 0 ? 0 : x[a] * (2 * (std::log(x[a]) - 2 * std::log(P->scale)) + 1 - 2 * k); };
  auto two = [&](int a, int b) -> double { return 2 * P->fbase(x[a], x[b]) + 1 - 2 * k; };
  for (int a = 0; a < N; a++)
  {
    if (n == 1) r += lin(a) * V[a][a];
    if (n == 2) r += lin(a) * W[a][a];
    for (int b = 0; b < N; b++)
    {
      if (n == 2) r += 0.5 * two(a, b) * V[a][b] * V[b][a];
      if (n == 3) r += two(a, b) * V[a][b] * W[b][a];
      if (n == 4) r += 0.5 * two(a, b) * W[a][b] * W[b][a];
      for (int c = 0; n > 2 && c < N; c++)
      {
        double t = 2 * P->fbaseTri(x[a], x[b], x[c]);
        if (n == 3) r += t / 3 * V[a][b] * V[b][c] * V[c][a];
        if (n == 4) r += t * V[a][b] * V[b][c] * W[c][a];
        for (int d = 0; n == 4 && d < N; d++)
          r += 0.25 * 2 * P->fbaseFour(x[a], x[b], x[c], x[d]) * V[a][b] * V[b][c] * V[c][d] * V[d][a];
      }
    }
  }
  return r;
}
extern "C" void bs_harness_main()
{
  int n   = atoi(bs_case().c_str());
  auto mp = newModel(specFromCase("SM"), GetSMConstants());
  CPO &m  = *mp;
  P       = mp.get();
  const int N = 2;
  m.NHiggs = m.NGauge = m.NQuarks = m.NLepton = N;
  m.scale             = R("scale", 100, 1000);
  m.CalcCouplingsdone = true;
  long sec            = bs_choice("sector", 4);
  long pat            = bs_choice("pattern", 4);
  int cnt             = 0;
  auto coup           = [&](long s, bool) -> double
  {
    std::string nm = "c" + std::to_string(cnt++);
    if (s == sec) return R(nm, -5, 5);
    return 0.3 + 0.17 * (cnt * 7 % 11) - 0.9;
  };
  auto mass = [&](long s)
  {
    Vec x;
    if (s != sec) return Vec{50.0, 1200.0};
    double a = pat & 1 ? 0 : R("m0", 1, 1e5);
    double b = pat & 2 ? a : a + R("m1", 1, 1e5);
    return Vec{a, b};
  };
  m.MassSquaredHiggs = mass(0), m.MassSquaredGauge = mass(1), m.MassSquaredQuark = mass(2), m.MassSquaredLepton = mass(3);
  auto sz1 = [](auto &t) { t.assign(N, {}); for (auto &a : t) { a.assign(N, {}); for (auto &b : a) b.assign(N, {}); } };
  auto sz2 = [](auto &t) { t.assign(N, {}); for (auto &a : t) { a.assign(N, {}); for (auto &b : a) { b.assign(N, {}); for (auto &c : b) c.assign(N, {}); } } };
  sz1(m.Couplings_Higgs_Triple), sz2(m.Couplings_Higgs_Quartic);
  sz1(m.Couplings_Gauge_Higgs_21), sz2(m.Couplings_Gauge_Higgs_22);
  sz1(m.Couplings_Quark_Higgs_21), sz2(m.Couplings_Quark_Higgs_22);
  sz1(m.Couplings_Lepton_Higgs_21), sz2(m.Couplings_Lepton_Higgs_22);
  { // totally symmetric
    Vec t(4), q(5);
    for (double &z : t) z = coup(0, false);
    for (double &z : q) z = coup(0, false);
    for (int a = 0; a < N; a++)
      for (int b = 0; b < N; b++)
        for (int i = 0; i < N; i++)
        {
          m.Couplings_Higgs_Triple[a][b][i] = t[a + b + i];
          for (int j = 0; j < N; j++)
            m.Couplings_Higgs_Quartic[a][b][i][j] = q[a + b + i + j];
        }
  }
  for (int i = 0; i < N; i++)
    for (int a = 0; a < N; a++)
      for (int b = 0; b <= a; b++)
      {
        m.Couplings_Gauge_Higgs_21[a][b][i] = m.Couplings_Gauge_Higgs_21[b][a][i] = coup(1, false);
        C z(coup(2, false), a == b ? 0 : coup(2, true)), y(coup(3, false), a == b ? 0 : coup(3, true));
        m.Couplings_Quark_Higgs_21[a][b][i] = z, m.Couplings_Quark_Higgs_21[b][a][i] = std::conj(z);
        m.Couplings_Lepton_Higgs_21[a][b][i] = y, m.Couplings_Lepton_Higgs_21[b][a][i] = std::conj(y);
        for (int j = 0; j <= i; j++)
        {
          double g = coup(1, false);
          C w(coup(2, false), a == b ? 0 : coup(2, true)), v(coup(3, false), a == b ? 0 : coup(3, true));
          for (int s = 0; s < 2; s++)
          {
            int p = s ? i : j, q = s ? j : i;
            m.Couplings_Gauge_Higgs_22[a][b][p][q] = m.Couplings_Gauge_Higgs_22[b][a][p][q] = g;
            m.Couplings_Quark_Higgs_22[a][b][p][q] = w, m.Couplings_Quark_Higgs_22[b][a][p][q] = std::conj(w);
            m.Couplings_Lepton_Higgs_22[a][b][p][q] = v, m.Couplings_Lepton_Higgs_22[b][a][p][q] = std::conj(v);
          }
        }
      }
  m.HiggsRotationMatrix = {{0.6, -0.8}, {0.7, 1.1}}; // arbitrary, told apart from its transpose
  bs_generic(2);
  Vec r = n == 1 ? m.WeinbergFirstDerivative() : n == 2 ? m.WeinbergSecondDerivative() : n == 3 ? m.WeinbergThirdDerivative() : m.WeinbergForthDerivative();
  bs_check((int)r.size() == (1 << n), "one value per combination of fields");
  // symmetric, and correct along every direction (x, y)
  double x = n > 2 ? 0.0 : R("x", -1, 1), y = n > 2 ? 0.0 : R("y", -1, 1);
  auto contract = [&](double X, double Y)
  {
    double s = 0;
    for (int k = 0; k < (1 << n); k++)
    {
      double z = r[k];
      for (int b = 0; b < n; b++)
        z *= (k >> b & 1) ? Y : X;
      s += z;
    }
    return s;
  };
  auto oracle = [&](double X, double Y)
  {
    double p[2] = {0.6 * X - 0.8 * Y, 0.7 * X + 1.1 * Y};
    std::vector<std::vector<C>> V, W;
    auto mk = [&](auto &t1, auto &t2)
    {
      V.assign(N, std::vector<C>(N, C(0, 0)));
      W = V;
      for (int a = 0; a < N; a++)
        for (int b = 0; b < N; b++)
          for (int i = 0; i < N; i++)
          {
            V[a][b] += p[i] * t1[a][b][i];
            for (int j = 0; j < N; j++)
              W[a][b] += 0.5 * p[i] * p[j] * t2[a][b][i][j];
          }
    };
    double s = 0;
    mk(m.Couplings_Higgs_Triple, m.Couplings_Higgs_Quartic);
    s += series(n, m.MassSquaredHiggs, 1.5, V, W).real();
    mk(m.Couplings_Gauge_Higgs_21, m.Couplings_Gauge_Higgs_22);
    s += 3 * series(n, m.MassSquaredGauge, 5.0 / 6, V, W).real();
    mk(m.Couplings_Quark_Higgs_21, m.Couplings_Quark_Higgs_22);
    s -= 6 * series(n, m.MassSquaredQuark, 1.5, V, W).real();
    mk(m.Couplings_Lepton_Higgs_21, m.Couplings_Lepton_Higgs_22);
    s -= 2 * series(n, m.MassSquaredLepton, 1.5, V, W).real();
    const double f[] = {1, 1, 2, 6, 24};
    return f[n] * s / (64 * M_PI * M_PI);
  };
  for (int k = 0; k < (1 << n); k++)
  {
    int ones = __builtin_popcount(k);
    bs_check_eq(r[k], r[(1 << ones) - 1], 1e-9, 1e-8, "the derivative tensor is symmetric");
  }
  if (n <= 2)
    bs_check_eq(contract(x, y), oracle(x, y), 1e-9, 1e-6, "derivative of the Coleman-Weinberg potential");
  else // a symmetric tensor is fixed by n + 1 directions
    for (int k = 0; k <= n; k++)
      bs_check_eq(contract(1, k - 1.5), oracle(1, k - 1.5), 1e-9, 1e-6, "derivative of the Coleman-Weinberg potential");
  bs_generic(0);
  bs_reach("end");
}
