// bsym-src: @models
#include "models.h"
typedef std::complex<double> C;
// the four generator matrices of D_mu on a doublet (without fields), times i
static void gen(int a, double g, double gs, C M[2][2])
{
  C I(0, 1);
  for (int i = 0; i < 2; i++)
    for (int j = 0; j < 2; j++)
      M[i][j] = 0;
  if (a == 0) M[0][1] = g / 2, M[1][0] = g / 2;
  if (a == 1) M[0][1] = C(0, -g / 2), M[1][0] = C(0, g / 2);
  if (a == 2) M[0][0] = g / 2, M[1][1] = -g / 2;
  if (a == 3) M[0][0] = gs / 2, M[1][1] = gs / 2;
}
// real action (-i T_a phi) as linear map on the real fields
static Vec act(const ModelSpec &s, int a, double g, double gs, const Vec &f)
{
  Vec r(s.N, 0.0);
  C M[2][2];
  gen(a, g, gs, M);
  for (auto &d : s.doublets)
  {
    for (int i = 0; i < 2; i++)
    {
      double re = 0, im = 0; // (M phi)_i
      for (int j = 0; j < 2; j++)
      {
        double x = f[d[2 * j]], y = f[d[2 * j + 1]];
        double mr = M[i][j].real(), mi = M[i][j].imag();
        re += mr * x - mi * y;
        im += mr * y + mi * x;
      }
      r[d[2 * i]]     = im; // times -i
      r[d[2 * i + 1]] = -re;
    }
  }
  return r;
}
extern "C" void bs_harness_main()
{
  ModelSpec s     = specFromCase(bs_case());
  ISMConstants sm = symSM();
  auto mp         = newModel(s, sm);
  CPO &m          = *mp;
  Vec par         = symPar(s);
  m.set_gen(par);
  if (!m.SetCurvatureDone) m.SetCurvatureArrays();
  double g = sm.C_g, gs = sm.C_gs;
  bs_check(m.NGauge == 4 && (int)m.NHiggs == s.N, "field content");
  std::vector<std::vector<Vec>> T(4);
  for (int a = 0; a < 4; a++)
    for (int i = 0; i < s.N; i++)
    {
      Vec e(s.N, 0.0);
      e[i] = 1;
      T[a].push_back(act(s, a, g, gs, e));
    }
  for (int a = 0; a < 4; a++)
    for (int b = 0; b < 4; b++)
      for (int i = 0; i < s.N; i++)
        for (int j = 0; j < s.N; j++)
        {
          // L = |D phi|^2 = 1/2 sum_{ab} A_a A_b (T_a phi).(T_b phi)
          //   = 1/4 G^{abij} A_a A_b phi_i phi_j
          double r = 0;
          for (int k = 0; k < s.N; k++)
            r += T[a][i][k] * T[b][j][k] + T[b][i][k] * T[a][j][k];
          bs_check_eq(m.Curvature_Gauge_G2H2[a][b][i][j],
                      r,
                      1e-9,
                      1e-9,
                      "gauge-scalar coupling");
        }
  // gauge invariance of the tree-level potential
  Vec v = symFields(s);
  for (int a = 0; a < 4; a++)
  {
    Vec t    = act(s, a, g, gs, v);
    double r = 0;
    for (int i = 0; i < s.N; i++)
      r += t[i] * m.VTree(v, i + 1, true);
    bs_check_eq(r, 0, 0, 1e-2, "gauge invariance of the potential");
  }
  // photon: Q = T3 + Y leaves the charge-neutral vacuum invariant
  Vec vac(s.N, 0.0);
  for (auto &d : s.doublets)
    for (int c = 2; c < 4; c++)
      vac[d[c]] = R("n" + std::to_string(d[c]), -500, 500);
  for (int k : s.singlets)
    vac[k] = R("n" + std::to_string(k), -500, 500);
  double M2[4][4];
  for (int a = 0; a < 4; a++)
    for (int b = 0; b < 4; b++)
    {
      M2[a][b] = 0;
      for (int i = 0; i < s.N; i++)
        for (int j = 0; j < s.N; j++)
          M2[a][b] += 0.5 * m.Curvature_Gauge_G2H2[a][b][i][j] * vac[i] * vac[j];
    }
  double v2 = 0;
  for (auto &d : s.doublets)
    v2 += vac[d[2]] * vac[d[2]] + vac[d[3]] * vac[d[3]];
  for (int a = 0; a < 4; a++)
    bs_check_eq(gs * M2[a][2] + g * M2[a][3], 0, 0, 1e-6, "massless photon");
  bs_check_eq(M2[0][0], g * g * v2 / 4, 1e-9, 1e-6, "W mass");
  bs_check_eq(M2[1][1], g * g * v2 / 4, 1e-9, 1e-6, "W mass");
  bs_check_eq(M2[0][1], 0, 0, 1e-6, "W mass");
  bs_check_eq(M2[2][2] + M2[3][3], (g * g + gs * gs) * v2 / 4, 1e-9, 1e-6, "Z mass");
  bs_reach("end");
}
