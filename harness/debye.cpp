// Thermal (Debye) mass coefficients against the group-theory formulas.
// bsym-src: @models
#include "models.h"
static double sq(double x) { return x * x; }
extern "C" void bs_harness_main()
{
  std::string cs  = bs_case();
  ModelSpec s     = specFromCase(cs);
  bool force      = cs.find("force") != std::string::npos;
  bool neg        = cs.find("neg") != std::string::npos;
  ISMConstants sm = symSM();
  bool simp       = (s.name == "R2HDM" || s.name == "C2HDM" || s.name == "N2HDM");
  bool light      = !simp || force; // simplified forms drop the light fermions
  if (!light)
  {
    sm.C_MassUp = sm.C_MassDown = sm.C_MassCharm = sm.C_MassStrange = 0;
    sm.C_MassTau = sm.C_MassMu = sm.C_MassElectron = 0;
  }
  auto mp = newModel(s, sm);
  CPO &m  = *mp;
  Vec par = symPar(s, "", neg);
  m.set_gen(par);
  if (!m.SetCurvatureDone) m.SetCurvatureArrays();
  bs_generic(1);
  if (cs.find("twice") != std::string::npos)
  {
    m.CalculateDebye(!force);
    m.CalculateDebyeGauge();
  }
  m.CalculateDebye(force);
  m.CalculateDebyeGauge();
  bs_generic(0);
  LagPar q = treeLag(s, m);
  double g2 = sq(sm.C_g), gp2 = sq(sm.C_gs);
  Vec vac = m.MinimizeOrderVEV(m.vevTreeMin);
  int nd  = s.doublets.size();
  int u = 0, d = 0, l = 0;
  if (nd == 2 && s.name != "CPintheDark")
  {
    u = 1;
    d = (s.type == 1 || s.type == 3) ? 1 : 0;
    l = (s.type == 1 || s.type == 4) ? 1 : 0;
  }
  auto v2 = [&](int k) { return sq(vac[s.doublets[k][2]]); };
  double mu2 = sq(sm.C_MassUp) + sq(sm.C_MassCharm) + sq(sm.C_MassTop),
         md2 = sq(sm.C_MassDown) + sq(sm.C_MassStrange) + sq(sm.C_MassBottom),
         ml2 = sq(sm.C_MassElectron) + sq(sm.C_MassMu) + sq(sm.C_MassTau);
  double P[2], S[2] = {0, 0};
  for (int k = 0; k < nd; k++)
    P[k] = 3 * g2 / 16 + gp2 / 16;
  // y_f^2 = 2 m_f^2 / v^2, contribution N_c y^2 / 12
  P[u] += 3 * 2 * mu2 / v2(u) / 12;
  P[d] += 3 * 2 * md2 / v2(d) / 12;
  P[l] += 2 * ml2 / v2(l) / 12;
  if (s.name == "SM") P[0] += q.lam / 2;
  if (s.name == "CxSM")
  {
    P[0] += q.lam / 8 + q.d2l / 24;
    S[0] = S[1] = q.d2 / 12 + q.d2l / 12;
  }
  if (nd == 2)
  {
    P[0] += q.l1 / 4 + q.l3 / 6 + q.l4 / 12;
    P[1] += q.l2 / 4 + q.l3 / 6 + q.l4 / 12;
  }
  if (nd == 2 && s.singlets.size())
  {
    P[0] += q.n7 / 24, P[1] += q.n8 / 24;
    S[0] = (s.name == "N2HDM" ? q.n6 / 8 : q.n6 / 4) + (q.n7 + q.n8) / 6;
  }
  std::vector<Vec> W(s.N, Vec(s.N, 0.0));
  for (int k = 0; k < nd; k++)
    for (int c : s.doublets[k])
      W[c][c] = P[k];
  for (size_t k = 0; k < s.singlets.size(); k++)
    W[s.singlets[k]][s.singlets[k]] = S[k];
  for (int i = 0; i < s.N; i++)
    for (int j = 0; j < s.N; j++)
      bs_check_eq(m.DebyeHiggs[i][j], W[i][j], 1e-9, 2e-5, "scalar thermal mass");
  for (int a = 0; a < 4; a++)
    for (int b = 0; b < 4; b++)
    {
      double w = a != b ? 0 : (a < 3 ? g2 : gp2) * (5.0 / 3 + nd / 6.0);
      bs_check_eq(m.DebyeGauge[a][b], w, 1e-9, 2e-5, "gauge thermal mass");
    }
  bs_reach("end");
}
