// The effective potential is tree level plus, beyond tree level, counterterms
// and one-loop part, at the requested order, temperature and derivative.
// bsym-src: @models
// bsym-stub: ^BSMPT::Class_Potential_Origin::VTree\( -> h_tree
// bsym-stub: ^BSMPT::Class_Potential_Origin::CounterTerm\( -> h_ct
// bsym-stub: ^BSMPT::Class_Potential_Origin::V1Loop\( -> h_loop
#include "models.h"
static Vec A, B, C;
static double eval(const CPO *m, const Vec &c, const Vec &v, double T, int diff)
{
  if (v.size() != m->NHiggs)
  {
    Vec f(m->NHiggs, 0.0);
    for (size_t k = 0; k < m->nVEV; k++)
      f[m->VevOrder[k]] = v.at(k);
    return eval(m, c, f, T, diff);
  }
  double r = c[0] + c[1] * diff + c[2] * T;
  for (size_t i = 0; i < v.size(); i++)
    r += c[3 + i] * v[i];
  return r;
}
extern "C"
{
  double h_tree(const CPO *m, const Vec &v, int diff, bool) { return eval(m, A, v, 0, diff); }
  double h_ct(const CPO *m, const Vec &v, int diff, bool) { return eval(m, B, v, 0, diff); }
  double h_loop(const CPO *m, const Vec &v, double T, int diff) { return eval(m, C, v, T, diff); }
}
extern "C" void bs_harness_main()
{
  ModelSpec s = specFromCase(bs_case());
  auto mp     = newModel(s, GetSMConstants());
  CPO &m      = *mp;
  size_t N = s.N, n = m.nVEV;
  for (int k = 0; k < 3; k++)
    for (size_t i = 0; i < N + 3; i++)
      (k == 0 ? A : k == 1 ? B : C).push_back(R(std::string(1, 'a' + k) + std::to_string(i), -100, 100));
  double T = R("T", 0, 300);
  Vec v, f(N, 0.0), g;
  for (size_t k = 0; k < n; k++)
    f[m.VevOrder[k]] = R("v" + std::to_string(k), -500, 500), v.push_back(f[m.VevOrder[k]]);
  for (size_t i = 0; i < N; i++)
    g.push_back(R("f" + std::to_string(i), -500, 500));
  for (int tl = 0; tl < 2; tl++)
  {
    m.SetUseTreeLevel(tl);
    for (int order = 0; order <= 2; order++)
      for (int diff = -1; diff <= (int)N; diff++)
      {
        auto want = [&](const Vec &x, double T_)
        {
          double r = eval(&m, A, x, 0, diff);
          if (order != 0 && !tl) r += eval(&m, B, x, 0, diff) + eval(&m, C, x, T_, diff);
          return r;
        };
        bs_check_eq(m.VEff(g, T, diff, order), want(g, T), 1e-10, 1e-9, "potential at a full configuration");
        bs_check_eq(m.VEff(f, T, diff, order), want(f, T), 1e-10, 1e-9, "potential at a full configuration");
        if (diff <= 0 || n != N) bs_check_eq(m.VEff(v, T, diff, order), want(f, T), 1e-10, 1e-9, "potential at a compact configuration");
      }
    // defaults: zero temperature, the value, at one-loop order
    double w = eval(&m, A, g, 0, 0);
    if (!tl) w += eval(&m, B, g, 0, 0) + eval(&m, C, g, 0, 0);
    bs_check_eq(m.VEff(g), w, 1e-10, 1e-9, "defaults of the potential");
  }
  bs_reach("end");
}
