// bsym-src: @models
#include "models.h"
extern "C" void bs_harness_main()
{
  ModelSpec s = specFromCase(bs_case());
  bool neg    = bs_case().find("neg") != std::string::npos;
  bool vs0 = bs_case().find("vs0") != std::string::npos,
       va0 = bs_case().find("va0") != std::string::npos;
  auto mp   = newModel(s, symSM());
  CPO &m    = *mp;
  Vec par   = symPar(s, "", neg, vs0, va0);
  m.set_gen(par);
  if (!m.SetCurvatureDone) m.SetCurvatureArrays();
  LagPar q = treeLag(s, m);
  auto L   = [&](const Vec &x) { return lagrangianV(s, q, x); };
  Vec v    = symFields(s);
  bs_check_eq(m.VTree(v, 0, true), L(v), 1e-9, 1e-6, "tree potential");
  for (int i = 0; i < s.N; i++)
    bs_check_eq(m.VTree(v, i + 1, true),
                deriv4(L, v, i),
                1e-9,
                1e-6,
                "tree potential derivative");
  // configurations in the directions that may condense, zeros included
  Vec w(s.N, 0.0);
  for (auto k : m.VevOrder)
    w[k] = R("w" + std::to_string(k), -500, 500);
  double a = m.VTree(w, 0, false), b = m.VTree(w, 0, true);
  bs_check_eq(a, L(w), 1e-9, 1e-6, "tree potential at vev configuration");
  bs_check_eq(b, L(w), 1e-9, 1e-6, "explicit tree potential at vev config");
  bs_reach("end");
}
