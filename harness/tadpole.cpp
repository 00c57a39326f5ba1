// The tree-level vacuum the model reports is a stationary point with the
// electroweak scale, for every admissible input.
// bsym-src: @models
#include "models.h"
extern "C" void bs_harness_main()
{
  ModelSpec s = specFromCase(bs_case());
  bool neg    = bs_case().find("neg") != std::string::npos;
  bool vs0 = bs_case().find("vs0") != std::string::npos,
       va0 = bs_case().find("va0") != std::string::npos;
  ISMConstants sm = symSM();
  auto mp         = newModel(s, sm);
  CPO &m          = *mp;
  Vec par         = symPar(s, "", neg, vs0, va0);
  double v0       = sm.C_vev0;
  if (s.name == "SM") par[0] = -par[1] * v0 * v0; // documented input relation
  if (s.name == "CPintheDark") par[0] = -par[5] * v0 * v0 / 2;
  m.set_gen(par);
  if (!m.SetCurvatureDone) m.SetCurvatureArrays();
  Vec vac = m.MinimizeOrderVEV(m.vevTreeMin);
  bs_check((int)vac.size() == s.N, "vacuum configuration has one entry per field");
  for (int i = 0; i < s.N; i++)
  {
    bs_check_eq(m.VTree(vac, i + 1, true), 0, 0, 1e-3, "tadpole condition");
    bs_check_eq(m.vevTree.at(i), vac[i], 1e-12, 1e-9, "vevTree is the vacuum");
    if (!isVev(m, i)) bs_check_eq(vac[i], 0, 0, 1e-9, "vacuum direction");
  }
  double n2 = 0;
  for (auto &d : s.doublets)
    for (int c : d)
      n2 += vac[c] * vac[c];
  double want = s.name == "CxSM" ? par[0] : v0;
  bs_check_eq(n2, want * want, 1e-9, 1e-6, "electroweak scale");
  for (auto &d : s.doublets)
    bs_check(vac[d[0]] == 0 && vac[d[1]] == 0, "vacuum conserves charge");
  bs_reach("end");
}
