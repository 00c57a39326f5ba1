// Physical couplings: field derivatives of the squared-mass matrices at the
// vacuum, in the basis of their eigenvectors.
// bsym-src: @models
// bsym-stub: Eigen::SelfAdjointEigenSolver<Eigen::Matrix<double, -1, -1, 0, -1, -1> >::compute<Eigen::Matrix<double, -1, -1, 0, -1, -1> > -> h_cd
// bsym-stub: Eigen::SelfAdjointEigenSolver<Eigen::Matrix<std::complex<double>, -1, -1, 0, -1, -1> >::compute<Eigen::Matrix<std::complex<double>, -1, -1, 0, -1, -1> > -> h_cc
#include "models.h"
using namespace Eigen;
typedef std::complex<double> C;
typedef SelfAdjointEigenSolver<MatrixXd> SD;
typedef SelfAdjointEigenSolver<MatrixXcd> SC;
struct Solved
{
  MatrixXcd M;
  MatrixXd U;
  Vec ev;
  bool cplx;
};
static std::vector<Solved> solved;
static Solved &record(const MatrixXcd &m, bool cplx)
{
  int n = m.rows();
  Solved s;
  s.M    = m;
  s.cplx = cplx;
  s.U.resize(n, n);
  for (int i = 0; i < n; i++)
  {
    for (int j = 0; j < n; j++)
      s.U(i, j) = bs_fresh("u", -1, 1);
    s.ev.push_back(i == 0 ? bs_fresh("ev", -1e-6, 1e-6) : bs_fresh("ev", 1, 1e6));
  }
  solved.push_back(s);
  return solved.back();
}
extern "C"
{
  SD *h_cd(SD *self, const MatrixXd &m, int)
  {
    int n = m.rows();
    MatrixXcd mc(n, n);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
        mc(i, j) = m(i, j);
    Solved &s = record(mc, false);
    self->m_eivalues.resize(n);
    self->m_eivec.resize(n, n);
    for (int i = 0; i < n; i++)
    {
      self->m_eivalues(i) = s.ev[i];
      for (int j = 0; j < n; j++)
        self->m_eivec(i, j) = s.U(i, j);
    }
    self->m_isInitialized  = true;
    self->m_eigenvectorsOk = true;
    self->m_info           = Success;
    return self;
  }
  SC *h_cc(SC *self, const MatrixXcd &m, int)
  {
    int n     = m.rows();
    Solved &s = record(m, true);
    self->m_eivalues.resize(n);
    self->m_eivec.resize(n, n);
    for (int i = 0; i < n; i++)
    {
      self->m_eivalues(i) = s.ev[i];
      for (int j = 0; j < n; j++)
        self->m_eivec(i, j) = s.U(i, j);
    }
    self->m_isInitialized  = true;
    self->m_eigenvectorsOk = true;
    self->m_info           = Success;
    return self;
  }
}
extern "C" void bs_harness_main()
{
  auto mp = newModel(specFromCase("SM"), GetSMConstants());
  CPO &m  = *mp;
  const int H = 2, G = 2, Q = 2, L = 3;
  m.NHiggs = H, m.NGauge = G, m.NQuarks = Q, m.NLepton = L;
  m.SetCurvatureDone = true;
  int cnt = 0;
  auto r  = [&](double b) { return R("c" + std::to_string(cnt++), -b, b); };
  m.Curvature_Higgs_L2.assign(H, Vec(H, 0));
  m.Curvature_Higgs_L3.assign(H, std::vector<Vec>(H, Vec(H, 0)));
  m.LambdaHiggs_3 = m.Curvature_Higgs_L3;
  m.Curvature_Higgs_L4.assign(H, std::vector<std::vector<Vec>>(H, std::vector<Vec>(H, Vec(H, 0))));
  {
    Vec a(3), b(4), c(5);
    for (double &x : a) x = r(1e4);
    for (double &x : b) x = r(1e3);
    for (double &x : c) x = r(10);
    for (int i = 0; i < H; i++)
      for (int j = 0; j < H; j++)
      {
        m.Curvature_Higgs_L2[i][j] = a[i + j];
        for (int k = 0; k < H; k++)
        {
          m.Curvature_Higgs_L3[i][j][k] = b[i + j + k];
          for (int l = 0; l < H; l++)
            m.Curvature_Higgs_L4[i][j][k][l] = c[i + j + k + l];
        }
      }
  }
  m.Curvature_Gauge_G2H2.assign(G, std::vector<std::vector<Vec>>(G, std::vector<Vec>(H, Vec(H, 0))));
  m.LambdaGauge_3.assign(G, std::vector<Vec>(G, Vec(H, 0)));
  for (int a = 0; a < G; a++)
    for (int b = 0; b <= a; b++)
      for (int i = 0; i < H; i++)
        for (int j = 0; j <= i; j++)
          m.Curvature_Gauge_G2H2[a][b][i][j] = m.Curvature_Gauge_G2H2[b][a][i][j] = m.Curvature_Gauge_G2H2[a][b][j][i] =
              m.Curvature_Gauge_G2H2[b][a][j][i] = r(2);
  typedef std::vector<C> VC;
  auto yuk = [&](int n, auto &Y, auto &L3, auto &L4)
  {
    Y.assign(n, std::vector<VC>(n, VC(H)));
    L3 = Y;
    L4.assign(n, std::vector<std::vector<VC>>(n, std::vector<VC>(H, VC(H))));
    for (int a = 0; a < n; a++)
      for (int b = 0; b <= a; b++)
        for (int i = 0; i < H; i++)
        {
          double x           = r(2);
          Y[a][b][i] = Y[b][a][i] = C(x, n == Q ? r(2) : 0.5 * i + a);
        }
  };
  yuk(Q, m.Curvature_Quark_F2H1, m.LambdaQuark_3, m.LambdaQuark_4);
  yuk(L, m.Curvature_Lepton_F2H1, m.LambdaLepton_3, m.LambdaLepton_4);
  m.Curvature_Quark_F2.assign(Q, VC(Q));
  m.Curvature_Lepton_F2.assign(L, VC(L));
  m.HiggsVev = {R("v0", -300, 300), R("v1", -300, 300)};
  bs_generic(2);
  m.CalculatePhysicalCouplings();
  bs_generic(0);
  bs_check(solved.size() == 4, "four eigenvalue problems");
  bs_check(m.CalcCouplingsdone, "couplings are available");
  const Vec &v = m.HiggsVev;
  auto eqc     = [](C a, C b, const char *l)
  {
    bs_check_eq(a.real(), b.real(), 1e-9, 1e-7, l);
    bs_check_eq(a.imag(), b.imag(), 1e-9, 1e-7, l);
  };
  // squared mass matrix of each sector and its first and second derivatives
  auto sector = [&](int idx, int n, bool cplx, auto M0, auto D1, auto D2, const Vec &mass, double cut, auto &C3, auto &C4)
  {
    Solved &s = solved[idx];
    bs_check(s.M.rows() == n && s.cplx == cplx, "order of the sectors");
    for (int a = 0; a < n; a++)
    {
      for (int b = 0; b < n; b++)
        eqc(s.M(a, b), M0(a, b), "squared-mass matrix at the vacuum");
      if (cut > 0) bs_check_eq(mass[a], a ? s.ev[a] : 0, 1e-12, 0, "squared mass of the eigenstate");
      else bs_check_eq(mass[a], s.ev[a], 1e-12, 0, "squared mass of the eigenstate");
    }
    MatrixXd &U = s.U, &UH = solved[0].U;
    for (int a = 0; a < n; a++)
      for (int b = 0; b < n; b++)
        for (int i = 0; i < H; i++)
        {
          C w(0, 0);
          for (int c = 0; c < n; c++)
            for (int d = 0; d < n; d++)
              for (int k = 0; k < H; k++)
                w += U(c, a) * U(d, b) * UH(k, i) * D1(c, d, k);
          eqc(C3[a][b][i], w, "triple coupling is the field derivative");
          for (int j = 0; j < H; j++)
          {
            w = C(0, 0);
            for (int c = 0; c < n; c++)
              for (int d = 0; d < n; d++)
                for (int k = 0; k < H; k++)
                  for (int l = 0; l < H; l++)
                    w += U(c, a) * U(d, b) * UH(k, i) * UH(l, j) * D2(c, d, k, l);
            eqc(C4[a][b][i][j], w, "quartic coupling is the second field derivative");
          }
        }
  };
  auto hd1 = [&](int a, int b, int i) -> C
  { return m.Curvature_Higgs_L3[a][b][i] + m.Curvature_Higgs_L4[a][b][i][0] * v[0] + m.Curvature_Higgs_L4[a][b][i][1] * v[1]; };
  sector(
      0, H, false, [&](int a, int b) -> C
      { double s = m.Curvature_Higgs_L2[a][b];
        for (int k = 0; k < H; k++) { s += m.Curvature_Higgs_L3[a][b][k] * v[k];
          for (int l = 0; l < H; l++) s += 0.5 * m.Curvature_Higgs_L4[a][b][k][l] * v[k] * v[l]; }
        return s; },
      hd1, [&](int a, int b, int i, int j) -> C { return m.Curvature_Higgs_L4[a][b][i][j]; }, m.MassSquaredHiggs, 1, m.Couplings_Higgs_Triple, m.Couplings_Higgs_Quartic);
  auto &g = m.Curvature_Gauge_G2H2;
  sector(
      1, G, false, [&](int a, int b) -> C { return 0.5 * (g[a][b][0][0] * v[0] * v[0] + 2 * g[a][b][0][1] * v[0] * v[1] + g[a][b][1][1] * v[1] * v[1]); },
      [&](int a, int b, int i) -> C { return g[a][b][i][0] * v[0] + g[a][b][i][1] * v[1]; }, [&](int a, int b, int i, int j) -> C { return g[a][b][i][j]; },
      m.MassSquaredGauge, 1, m.Couplings_Gauge_Higgs_21, m.Couplings_Gauge_Higgs_22);
  auto ferm = [&](int idx, int n, auto &Y, const Vec &mass, auto &C3, auto &C4)
  {
    auto M = [&](int a, int b) -> C { return Y[a][b][0] * v[0] + Y[a][b][1] * v[1]; };
    auto y = [&](int a, int b, int i) -> C { return Y[a][b][i]; };
    auto sum = [&](auto f) { C s(0, 0); for (int c = 0; c < n; c++) s += f(c); return s; };
    sector(
        idx, n, true, [&](int a, int b) { return sum([&](int c) { return std::conj(M(a, c)) * M(c, b); }); },
        [&](int a, int b, int i) { return sum([&](int c) { return std::conj(y(a, c, i)) * M(c, b) + std::conj(M(a, c)) * y(c, b, i); }); },
        [&](int a, int b, int i, int j) { return sum([&](int c) { return std::conj(y(a, c, i)) * y(c, b, j) + std::conj(y(a, c, j)) * y(c, b, i); }); }, mass, 0, C3, C4);
  };
  ferm(2, Q, m.Curvature_Quark_F2H1, m.MassSquaredQuark, m.Couplings_Quark_Higgs_21, m.Couplings_Quark_Higgs_22);
  ferm(3, L, m.Curvature_Lepton_F2H1, m.MassSquaredLepton, m.Couplings_Lepton_Higgs_21, m.Couplings_Lepton_Higgs_22);
  bs_reach("end");
}
