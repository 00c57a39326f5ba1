// bsym-src: @models
#include "models.h"
extern "C" void bs_harness_main()
{
  ModelSpec s = specFromCase(bs_case());
  auto mp     = newModel(s, symSM());
  CPO &m      = *mp;
  Vec par     = symPar(s);
  m.set_gen(par);
  if (!m.SetCurvatureDone) m.SetCurvatureArrays();
  Vec ct;
  for (size_t i = 0; i < m.nParCT; i++)
    ct.push_back(R("ct" + std::to_string(i), -1e3, 1e3));
  // a previous set of counterterms must not leave anything behind
  Vec old;
  for (size_t i = 0; i < m.nParCT; i++)
    old.push_back(7.5 + i);
  m.set_CT_Pot_Par(old);
  m.set_CT_Pot_Par(ct);
  LagPar q = ctLag(s, ct);
  auto L   = [&](const Vec &x) { return lagrangianV(s, q, x); };
  Vec v    = symFields(s);
  bs_check_eq(
      m.CounterTerm(v, 0, true), L(v), 1e-9, 1e-6, "counterterm potential");
  for (int i = 0; i < s.N; i++)
    bs_check_eq(m.CounterTerm(v, i + 1, true),
                deriv4(L, v, i),
                1e-9,
                1e-6,
                "counterterm potential derivative");
  Vec w(s.N, 0.0);
  for (auto k : m.VevOrder)
    w[k] = R("w" + std::to_string(k), -500, 500);
  double a = m.CounterTerm(w, 0, false), b = m.CounterTerm(w, 0, true);
  bs_check_eq(a, L(w), 1e-9, 1e-6, "counterterm potential at vev config");
  bs_check_eq(
      b, L(w), 1e-9, 1e-6, "explicit counterterm potential at vev config");
  bs_reach("end");
}
