// Vacuum configurations: expansion to the full field space, electroweak vev,
// zeroing, comparison with the tree-level vacuum.
// bsym-src: @models
#include "models.h"
extern "C" void bs_harness_main()
{
  std::string cs = bs_case();
  ModelSpec s    = specFromCase(cs);
  auto has       = [&](const char *t) { return cs.find(t) != std::string::npos; };
  auto mp        = newModel(s, GetSMConstants());
  CPO &m         = *mp;
  m.set_gen(symPar(s));
  if (!m.SetCurvatureDone) m.SetCurvatureArrays();
  size_t N = s.N, n = m.nVEV;
  bs_check(m.NHiggs == N && n <= N && m.VevOrder.size() == n, "size of the vev directions");
  for (size_t k = 0; k < n; k++)
    bs_check(m.VevOrder[k] < N && (k == 0 || m.VevOrder[k] > m.VevOrder[k - 1]), "vev directions are ordered fields");
  std::vector<size_t> order = m.VevOrder;
  std::vector<bool> doublet(N, false);
  for (auto &d : s.doublets)
    for (int c : d)
      doublet[c] = true;
  // what lies behind the end of the list of directions must not matter
  m.VevOrder.reserve(n + 4);
  for (size_t k = 0; k < 4; k++)
    m.VevOrder.data()[n + k] = (n ? order[n - 1] : 0) + 1 + k;
  Vec v;
  for (size_t k = 0; k < n; k++)
    v.push_back(R("v" + std::to_string(k), -500, 500));
  if (has("map"))
  {
    Vec f = m.MinimizeOrderVEV(v);
    bs_check(f.size() == N, "expanded configuration has one entry per field");
    Vec want(N, 0.0);
    for (size_t k = 0; k < n; k++)
      want[order[k]] = v[k];
    for (size_t i = 0; i < N && i < f.size(); i++)
      bs_check_eq(f[i], want[i], 0, 0, "every component in its direction, all others zero");
    // electroweak vev of an arbitrary configuration
    Vec g;
    double e2 = 0;
    for (size_t i = 0; i < N; i++)
    {
      g.push_back(R("f" + std::to_string(i), -500, 500));
      if (doublet[i]) e2 += g[i] * g[i];
    }
    double e = m.EWSBVEV(g), w = std::sqrt(e2);
    if (w <= 0.5)
      bs_check(e == 0, "symmetric configuration has no electroweak vev");
    else
      bs_check_eq(e, w, 1e-10, 1e-10, "electroweak vev is the norm of the doublets");
    // removing the electroweak part
    Vec z = v;
    m.SetEWVEVZero(z);
    bs_check(z.size() == n, "size of the configuration");
    for (size_t k = 0; k < n && k < z.size(); k++)
      bs_check_eq(z[k], doublet[order[k]] ? 0 : v[k], 0, 0, "exactly the doublet directions are set to zero");
    bs_check(m.EWSBVEV(m.MinimizeOrderVEV(z)) == 0, "no electroweak vev is left");
  }
  if (has("nlo"))
  {
    long free_ = bs_choice("free", n);
    m.vevTreeMin.clear();
    bool ok = true;
    double worst = 0;
    for (size_t k = 0; k < n; k++)
    {
      std::string nm = "t" + std::to_string(k);
      double t = (long)k == free_ ? R(nm, -500, 500) : k % 2 ? R(nm, -500, -1) : R(nm, 0, 500);
      if ((long)k != free_)
      {
        v[k] = k % 2 ? R("u" + std::to_string(k), 0, 500) : R("u" + std::to_string(k), -500, 0);
      }
      m.vevTreeMin.push_back(t);
      double d = std::fabs(std::fabs(v[k]) - std::fabs(t));
      ok       = ok && d < 1;
      worst    = d > worst ? d : worst;
    }
    bs_check(m.CheckNLOVEV(v) == (worst < 1), "one-loop vacuum survives iff every |component| is within 1 GeV of tree level");
  }
  if (has("dims"))
  {
    // compact and full configurations give the same potential and masses
    m.VevOrder = order;
    Vec ct;
    for (size_t i = 0; i < m.nParCT; i++)
      ct.push_back(R("ct" + std::to_string(i), -100, 100));
    m.set_CT_Pot_Par(ct);
    double T = R("T", 0, 300);
    for (size_t i = 0; i < N; i++)
      for (size_t j = 0; j <= i; j++)
        m.DebyeHiggs[i][j] = m.DebyeHiggs[j][i] = i == j ? R("dh" + std::to_string(i), -1, 2) : 0;
    Vec f(N, 0.0);
    for (size_t k = 0; k < n; k++)
      f[order[k]] = v[k];
    auto mat = [&](const auto &a, const auto &b, const char *l)
    {
      bs_check(a.rows() == b.rows() && a.cols() == b.cols(), l);
      for (long i = 0; i < b.rows(); i++)
        for (long j = 0; j < b.cols(); j++)
        {
          std::complex<double> x = a(i, j), y = b(i, j);
          bs_check_eq(x.real(), y.real(), 1e-10, 1e-8, l), bs_check_eq(x.imag(), y.imag(), 1e-10, 1e-8, l);
        }
    };
    mat(m.HiggsMassMatrix(v, T, 0), m.HiggsMassMatrix(f, T, 0), "scalar mass matrix of the compact configuration");
    mat(m.HiggsMassMatrix(v, T, 1), m.HiggsMassMatrix(f, T, 1), "derivative of the scalar mass matrix of the compact configuration");
    mat(m.QuarkMassMatrix(v), m.QuarkMassMatrix(f), "quark mass matrix of the compact configuration");
    mat(m.LeptonMassMatrix(v), m.LeptonMassMatrix(f), "lepton mass matrix of the compact configuration");
    auto bad = [&](auto g)
    {
      try
      {
        g();
      }
      catch (std::exception &)
      {
        return true;
      }
      return false;
    };
    for (size_t k = 0; k <= N + 1; k++)
    {
      if (k == n || k == N) continue;
      Vec x(k, 1.0);
      bs_check(bad([&] { m.HiggsMassMatrix(x, T, 0); }), "wrong size of a configuration is refused");
      bs_check(bad([&] { m.QuarkMassMatrix(x); }), "wrong size of a configuration is refused");
      bs_check(bad([&] { m.LeptonMassMatrix(x); }), "wrong size of a configuration is refused");
      bs_check(bad([&] { m.VEff(x, T, 0, 1); }), "wrong size of a configuration is refused");
    }
  }
  bs_reach("end");
}
