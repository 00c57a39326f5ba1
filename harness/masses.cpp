// The matrices whose eigenvalues become the field-dependent masses, and the
// matrices that are handed to the eigenvalue derivatives, for every parameter
// point, field configuration and temperature.
// bsym-src: @models
// bsym-stub: Eigen::SelfAdjointEigenSolver<Eigen::Matrix<double, -1, -1, 0, -1, -1> >::compute<Eigen::Matrix<double, -1, -1, 0, -1, -1> > -> h_cd
// bsym-stub: Eigen::SelfAdjointEigenSolver<Eigen::Matrix<std::complex<double>, -1, -1, 0, -1, -1> >::compute<Eigen::Matrix<std::complex<double>, -1, -1, 0, -1, -1> > -> h_cc
// bsym-stub: ^BSMPT::Class_Potential_Origin::FirstDerivativeOfEigenvalues\( -> h_fd
#include "models.h"
using namespace Eigen;
typedef std::complex<double> C;
static MatrixXcd seen, seenD;
static int nsolve, nderiv;
static Vec evals;
typedef SelfAdjointEigenSolver<MatrixXd> SD;
typedef SelfAdjointEigenSolver<MatrixXcd> SC;
static void fresh(int n)
{
  evals.clear();
  for (int i = 0; i < n; i++)
    evals.push_back(i == 0 ? bs_fresh("ev", -1e-6, 1e-6) : i % 2 ? bs_fresh("ev", 1, 1e6) : bs_fresh("ev", -1e6, -1));
}
extern "C"
{
  SD *h_cd(SD *self, const MatrixXd &m, int)
  {
    nsolve++;
    int n = m.rows();
    fresh(n);
    seen.resize(n, n);
    self->m_eivalues.resize(n);
    for (int i = 0; i < n; i++)
    {
      self->m_eivalues(i) = evals[i];
      for (int j = 0; j < n; j++)
        seen(i, j) = m(i, j);
    }
    self->m_isInitialized  = true;
    self->m_eigenvectorsOk = true;
    self->m_info           = Success;
    return self;
  }
  SC *h_cc(SC *self, const MatrixXcd &m, int)
  {
    nsolve++;
    int n = m.rows();
    fresh(n);
    seen = m;
    self->m_eivalues.resize(n);
    for (int i = 0; i < n; i++)
      self->m_eivalues(i) = i == 0 ? evals[i] * 1e-6 : evals[i];
    self->m_isInitialized  = true;
    self->m_eigenvectorsOk = true;
    self->m_info           = Success;
    return self;
  }
  Vec h_fd(const void *, const Ref<MatrixXcd> M, const Ref<MatrixXcd> D)
  {
    nderiv++;
    seen  = M;
    seenD = D;
    return Vec(2 * M.rows(), 1.5);
  }
}
static double sq(double x) { return x * x; }
extern "C" void bs_harness_main()
{
  std::string cs = bs_case();
  ModelSpec s    = specFromCase(cs);
  auto has       = [&](const char *t) { return cs.find(t) != std::string::npos; };
  ISMConstants sm = symSM();
  auto mp         = newModel(s, sm);
  CPO &m          = *mp;
  Vec par         = symPar(s);
  m.set_gen(par);
  if (!m.SetCurvatureDone) m.SetCurvatureArrays();
  int N = s.N;
  Vec v;
  for (int i = 0; i < N; i++)
    v.push_back(R("f" + std::to_string(i), -500, 500));
  double T = has("T0") ? 0 : R("T", 1, 500);
  // arbitrary thermal coefficients: where they come from is another property
  for (int i = 0; i < N; i++)
    for (int j = 0; j <= i; j++)
      m.DebyeHiggs[i][j] = m.DebyeHiggs[j][i] = (i == j || i == j + 1) ? R("dH" + std::to_string(i) + "_" + std::to_string(j), -2, 2) : 0;
  for (int i = 0; i < 4; i++)
    for (int j = 0; j <= i; j++)
      m.DebyeGauge[i][j] = m.DebyeGauge[j][i] = (i == j || i == j + 1) ? R("dG" + std::to_string(i) + "_" + std::to_string(j), -2, 2) : 0;
  auto cmp = [&](const MatrixXcd &A, auto f, int n, double atol, const char *l)
  {
    bs_check(A.rows() == n && A.cols() == n, "size of the mass matrix");
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
      {
        C w = f(i, j);
        bs_check_eq(A(i, j).real(), w.real(), 1e-9, atol, l);
        bs_check_eq(A(i, j).imag(), w.imag(), 1e-9, atol, l);
      }
  };
  auto evcheck = [&](const Vec &r, int n)
  {
    bs_check((int)r.size() == n, "one squared mass per particle");
    for (int i = 0; i < n; i++)
      bs_check_eq(r[i], i == 0 ? 0 : evals[i], 1e-12, 1e-12, "eigenvalues become the squared masses, numerical zeros become zero");
  };
  auto one = [&](int want) { bs_check(nsolve == (want == 0) && nderiv == (want != 0), "one eigenvalue problem"); nsolve = nderiv = 0; };
  if (has("higgs"))
  {
    LagPar q = treeLag(s, m);
    auto L   = [&](const Vec &x) { return lagrangianV(s, q, x); };
    std::vector<Vec> Hs(N, Vec(N));
    auto H = [&](const Vec &x, int i, int j)
    { return deriv4([&](const Vec &y) { return deriv4(L, y, i); }, x, j); };
    for (int i = 0; i < N; i++)
      for (int j = 0; j <= i; j++)
        Hs[i][j] = Hs[j][i] = H(v, i, j);
    auto want = [&](int i, int j) { return C(Hs[i][j] + T * T * m.DebyeHiggs[i][j], 0); };
    evcheck(m.HiggsMassesSquared(v, T, 0), N);
    one(0);
    cmp(seen, want, N, 1e-5, "Higgs mass matrix");
    cmp(m.HiggsMassMatrix(v, T, 0).cast<C>(), want, N, 1e-5, "Higgs mass matrix");
    for (int k = 0; k < N; k++)
    {
      m.HiggsMassesSquared(v, T, k + 1);
      one(1);
      cmp(seen, want, N, 1e-5, "Higgs mass matrix at the derivative");
      auto dw = [&](int i, int j)
      { return C(deriv4([&](const Vec &y) { return H(y, i, j); }, v, k), 0); };
      cmp(seenD, dw, N, 1e-5, "field derivative of the Higgs mass matrix");
      cmp(m.HiggsMassMatrix(v, T, k + 1).cast<C>(), dw, N, 1e-5, "field derivative of the Higgs mass matrix");
    }
  }
  if (has("temp"))
  {
    LagPar q = treeLag(s, m);
    auto L   = [&](const Vec &x) { return lagrangianV(s, q, x); };
    m.HiggsMassesSquared(v, T, -1);
    one(1);
    cmp(seenD, [&](int i, int j) { return C(2 * T * m.DebyeHiggs[i][j], 0); }, N, 1e-5, "temperature derivative of the Higgs mass matrix");
    cmp(seen, [&](int i, int j) { return C(deriv4([&](const Vec &y) { return deriv4(L, y, i); }, v, j) + T * T * m.DebyeHiggs[i][j], 0); }, N, 1e-5, "Higgs mass matrix at the temperature derivative");
  }
  if (has("gauge"))
  {
    double g = sm.C_g, gs = sm.C_gs;
    // M2_ab = Re (T_a phi)^dagger (T_b phi)
    auto MG = [&](const Vec &x, const Vec &y, int a, int b)
    {
      double r = 0;
      for (auto &d : s.doublets)
      {
        C px[2] = {C(x[d[0]], x[d[1]]), C(x[d[2]], x[d[3]])}, py[2] = {C(y[d[0]], y[d[1]]), C(y[d[2]], y[d[3]])};
        auto act = [&](int t, C *p, C *o)
        {
          auto sc = [](C z, double f) { return C(z.real() * f, z.imag() * f); };
          if (t == 0) o[0] = sc(p[1], g / 2), o[1] = sc(p[0], g / 2);
          if (t == 1) o[0] = C(p[1].imag() * g / 2, -p[1].real() * g / 2), o[1] = C(-p[0].imag() * g / 2, p[0].real() * g / 2);
          if (t == 2) o[0] = sc(p[0], g / 2), o[1] = sc(p[1], -g / 2);
          if (t == 3) o[0] = sc(p[0], gs / 2), o[1] = sc(p[1], gs / 2);
        };
        C ox[2], oy[2];
        act(a, px, ox);
        act(b, py, oy);
        for (int i = 0; i < 2; i++)
          r += ox[i].real() * oy[i].real() + ox[i].imag() * oy[i].imag();
      }
      return r;
    };
    auto want = [&](int a, int b) { return C(MG(v, v, a, b) + T * T * m.DebyeGauge[a][b], 0); };
    evcheck(m.GaugeMassesSquared(v, T, 0), 4);
    one(0);
    cmp(seen, want, 4, 1e-6, "gauge mass matrix");
    for (int k = 0; k < N; k++)
    {
      m.GaugeMassesSquared(v, T, k + 1);
      one(1);
      cmp(seen, want, 4, 1e-6, "gauge mass matrix at the derivative");
      Vec e(N, 0.0);
      e[k] = 1;
      cmp(seenD, [&](int a, int b) { return C(MG(v, e, a, b) + MG(e, v, a, b), 0); }, 4, 1e-6, "field derivative of the gauge mass matrix");
    }
    m.GaugeMassesSquared(v, T, -1);
    one(1);
    cmp(seen, want, 4, 1e-6, "gauge mass matrix at the derivative");
    cmp(seenD, [&](int a, int b) { return C(2 * T * m.DebyeGauge[a][b], 0); }, 4, 1e-6, "temperature derivative of the gauge mass matrix");
  }
  if (has("quark") || has("lepton"))
  {
    bool qk = has("quark");
    int n   = qk ? 12 : 9;
    auto Y  = [&](int a, int b, int k) { return qk ? m.Curvature_Quark_F2H1[a][b][k] : m.Curvature_Lepton_F2H1[a][b][k]; };
    std::vector<std::vector<C>> M(n, std::vector<C>(n));
    auto mad = [](double &re, double &im, C x, C y, bool conjx)
    {
      double xi = conjx ? -x.imag() : x.imag();
      re += x.real() * y.real() - xi * y.imag();
      im += x.real() * y.imag() + xi * y.real();
    };
    for (int a = 0; a < n; a++)
      for (int b = 0; b < n; b++)
      {
        double re = 0, im = 0;
        for (int k = 0; k < N; k++)
          re += Y(a, b, k).real() * v[k], im += Y(a, b, k).imag() * v[k];
        M[a][b] = C(re, im);
      }
    auto want = [&](int i, int j)
    {
      double re = 0, im = 0;
      for (int k = 0; k < n; k++)
        mad(re, im, M[i][k], M[k][j], true);
      return C(re, im);
    };
    evcheck(qk ? m.QuarkMassesSquared(v, 0) : m.LeptonMassesSquared(v, 0), n);
    one(0);
    cmp(seen, want, n, 1e-5, "squared fermion mass matrix");
    evcheck(qk ? m.QuarkMassesSquared(v, -1) : m.LeptonMassesSquared(v, -1), n);
    one(0);
    cmp(seen, want, n, 1e-5, "squared fermion mass matrix");
    for (int k = 0; k < N; k++)
    {
      if (qk)
        m.QuarkMassesSquared(v, k + 1);
      else
        m.LeptonMassesSquared(v, k + 1);
      one(1);
      cmp(seen, want, n, 1e-5, "squared fermion mass matrix at the derivative");
      cmp(seenD, [&](int i, int j)
      {
        double re = 0, im = 0;
        for (int l = 0; l < n; l++)
        {
          mad(re, im, Y(i, l, k), M[l][j], true);
          mad(re, im, M[i][l], Y(l, j, k), true);
        }
        return C(re, im);
      }, n, 1e-5, "field derivative of the squared fermion mass matrix");
    }
  }
  bs_reach("end");
}
