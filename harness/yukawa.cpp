// Fermion couplings against the documented Yukawa Lagrangian.
// bsym-src: @models
#include "models.h"
typedef std::complex<double> C;
struct RC
{
  double r = 0, i = 0;
};
extern "C" void bs_harness_main()
{
  ModelSpec s     = specFromCase(bs_case());
  bool neg        = bs_case().find("neg") != std::string::npos;
  ISMConstants sm = symSM();
  auto mp         = newModel(s, sm);
  CPO &m          = *mp;
  Vec par         = symPar(s, "", neg);
  m.set_gen(par);
  if (!m.SetCurvatureDone) m.SetCurvatureArrays();
  bs_check(m.NQuarks == 12 && m.NLepton == 9, "fermion content");
  // doublet that couples to up quarks, down quarks, leptons and its vev
  int nd = s.doublets.size();
  int u = 0, d = 0, l = 0;
  if (nd == 2 && s.name != "CPintheDark")
  {
    u = 1;
    d = (s.type == 1 || s.type == 3) ? 1 : 0;
    l = (s.type == 1 || s.type == 4) ? 1 : 0;
  }
  Vec vac = m.MinimizeOrderVEV(m.vevTreeMin);
  // neutral real component of the vacuum in every doublet
  auto vevOf = [&](int k) { return vac[s.doublets[k][2]]; };
  double mu[3] = {sm.C_MassUp, sm.C_MassCharm, sm.C_MassTop},
         md[3] = {sm.C_MassDown, sm.C_MassStrange, sm.C_MassBottom},
         ml[3] = {sm.C_MassElectron, sm.C_MassMu, sm.C_MassTau};
  C V[3][3]    = {{sm.C_Vud, sm.C_Vus, sm.C_Vub},
                  {sm.C_Vcd, sm.C_Vcs, sm.C_Vcb},
                  {sm.C_Vtd, sm.C_Vts, sm.C_Vtb}};
  bool cpid    = s.name == "CPintheDark";
  auto uL      = [&](int i) { return cpid ? 4 * i : 6 + i; };
  auto uR      = [&](int i) { return cpid ? 4 * i + 1 : i; };
  auto dL      = [&](int i) { return cpid ? 4 * i + 2 : 9 + i; };
  auto dR      = [&](int i) { return cpid ? 4 * i + 3 : 3 + i; };
  std::vector<std::vector<std::vector<RC>>> Q(
      12, std::vector<std::vector<RC>>(12, std::vector<RC>(s.N))),
      E(9, std::vector<std::vector<RC>>(9, std::vector<RC>(s.N)));
  auto add = [&](auto &T, int a, int b, int re, int im, double cr, double ci, bool conj)
  {
    // coupling c * (phi_re + i phi_im) or its conjugate; Yukawa y = sqrt2 m / v
    double sg = conj ? -1 : 1;
    T[a][b][re].r += cr, T[a][b][re].i += ci;
    T[a][b][im].r += -sg * ci, T[a][b][im].i += sg * cr;
    T[b][a][re] = T[a][b][re];
    T[b][a][im] = T[a][b][im];
  };
  auto &U = s.doublets[u];
  auto &D = s.doublets[d];
  auto &Lp = s.doublets[l];
  for (int i = 0; i < 3; i++)
  {
    add(Q, uL(i), uR(i), U[2], U[3], mu[i] / vevOf(u), 0, true);
    add(Q, dL(i), dR(i), D[2], D[3], md[i] / vevOf(d), 0, false);
    add(E, 2 * i, 2 * i + 1, Lp[2], Lp[3], ml[i] / vevOf(l), 0, false);
    add(E, 6 + i, 2 * i + 1, Lp[0], Lp[1], ml[i] / vevOf(l), 0, false);
    for (int j = 0; j < 3; j++)
    {
      // Ubar_L V yd D_R Phi_d^+
      add(Q, uL(j), dR(i), D[0], D[1], V[j][i].real() * md[i] / vevOf(d), V[j][i].imag() * md[i] / vevOf(d), false);
      // - Dbar_L V^dagger yu U_R Phi_u^-
      add(Q, dL(j), uR(i), U[0], U[1], -V[i][j].real() * mu[i] / vevOf(u), V[i][j].imag() * mu[i] / vevOf(u), true);
    }
  }
  for (int a = 0; a < 12; a++)
    for (int b = 0; b < 12; b++)
    {
      for (int k = 0; k < s.N; k++)
      {
        C x = m.Curvature_Quark_F2H1[a][b][k];
        bs_check_eq(x.real(), Q[a][b][k].r, 1e-9, 1e-12, "quark Yukawa coupling");
        bs_check_eq(x.imag(), Q[a][b][k].i, 1e-9, 1e-12, "quark Yukawa coupling");
      }
      C y = m.Curvature_Quark_F2[a][b];
      bs_check(y.real() == 0 && y.imag() == 0, "no bare quark mass");
    }
  for (int a = 0; a < 9; a++)
    for (int b = 0; b < 9; b++)
    {
      for (int k = 0; k < s.N; k++)
      {
        C x = m.Curvature_Lepton_F2H1[a][b][k];
        bs_check_eq(x.real(), E[a][b][k].r, 1e-9, 1e-12, "lepton Yukawa coupling");
        bs_check_eq(x.imag(), E[a][b][k].i, 1e-9, 1e-12, "lepton Yukawa coupling");
      }
      C y = m.Curvature_Lepton_F2[a][b];
      bs_check(y.real() == 0 && y.imag() == 0, "no bare lepton mass");
    }
  // mass matrices the library builds from them, at the vacuum
  Eigen::MatrixXcd MQ = m.QuarkMassMatrix(vac), ML = m.LeptonMassMatrix(vac);
  for (int a = 0; a < 12; a++)
    for (int b = 0; b < 12; b++)
    {
      double w = 0;
      for (int i = 0; i < 3; i++)
      {
        if ((a == uL(i) && b == uR(i)) || (b == uL(i) && a == uR(i))) w = mu[i];
        if ((a == dL(i) && b == dR(i)) || (b == dL(i) && a == dR(i))) w = md[i];
      }
      bs_check_eq(MQ(a, b).real(), w, 1e-9, 1e-9, "quark masses at the vacuum");
      bs_check_eq(MQ(a, b).imag(), 0, 0, 1e-9, "quark masses at the vacuum");
    }
  for (int a = 0; a < 9; a++)
    for (int b = 0; b < 9; b++)
    {
      double w = 0;
      for (int i = 0; i < 3; i++)
        if ((a == 2 * i && b == 2 * i + 1) || (b == 2 * i && a == 2 * i + 1)) w = ml[i];
      bs_check_eq(ML(a, b).real(), w, 1e-9, 1e-9, "lepton masses at the vacuum");
      bs_check_eq(ML(a, b).imag(), 0, 0, 1e-9, "lepton masses at the vacuum");
    }
  bs_reach("end");
}
