// Derivatives of eigenvalues by (degenerate) first-order perturbation theory.
// bsym-src: @models
// bsym-stub: Eigen::SelfAdjointEigenSolver<Eigen::Matrix<std::complex<double>, -1, -1, 0, -1, -1> >::compute<Eigen::Matrix<std::complex<double>, -1, -1, 0, -1, -1> > -> h_cc
// bsym-stub: Eigen::SelfAdjointEigenSolver<Eigen::Matrix<std::complex<double>, -1, -1, 0, -1, -1> >::compute<Eigen::Ref< -> h_cr
#include "models.h"
using namespace Eigen;
typedef std::complex<double> C;
typedef SelfAdjointEigenSolver<MatrixXcd> SC;
static MatrixXcd U, M0;
static Vec ev;
static int nouter;
struct Inner
{
  MatrixXcd B;
  Vec e;
};
static std::vector<Inner> inner;
static bool first = true;
static SC *solve(SC *self, const MatrixXcd &m)
{
  int n = m.rows();
  self->m_eivalues.resize(n);
  self->m_isInitialized = self->m_eigenvectorsOk = true;
  self->m_info                                   = Success;
  if (first)
  {
    first = false;
    nouter++;
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
        bs_check(m(i, j) == M0(i, j), "the given matrix is diagonalised");
    for (int i = 0; i < n; i++)
      self->m_eivalues(i) = ev[i];
    self->m_eivec = U;
    return self;
  }
  Inner in;
  in.B = m;
  for (int i = 0; i < n; i++)
    in.e.push_back(bs_fresh("dev", 1, 1e4));
  for (int i = 0; i < n; i++)
    self->m_eivalues(i) = in.e[i];
  self->m_eivec = MatrixXcd::Identity(n, n);
  inner.push_back(in);
  return self;
}
extern "C"
{
  SC *h_cc(SC *self, const MatrixXcd &m, int) { return solve(self, m); }
  SC *h_cr(SC *self, const Ref<MatrixXcd> &m, int) { return solve(self, m); }
}
extern "C" void bs_harness_main()
{
  int n = atoi(bs_case().c_str());
  auto mp = newModel(specFromCase("SM"), GetSMConstants());
  CPO &m  = *mp;
  auto cm = [&](const char *p, bool herm)
  {
    MatrixXcd A(n, n);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
      {
        std::string nm = p + std::to_string(i) + std::to_string(j);
        if (herm && j < i)
          A(i, j) = C(A(j, i).real(), -A(j, i).imag());
        else
          A(i, j) = C(R(nm + "r", -10, 10), herm && i == j ? 0.0 : R(nm + "i", -10, 10));
      }
    return A;
  };
  U            = cm("u", false);
  M0           = cm("m", true);
  MatrixXcd D  = cm("d", true);
  // eigenvalues ascending; neighbours either coincide or are well separated
  std::vector<int> grp(n);
  double e = R("e0", -100, 100);
  if (bs_choice("zero", 2)) e = n == 1 ? R("ez", -1e-7, 1e-7) : 0;
  ev.push_back(e);
  for (int i = 1; i < n; i++)
  {
    if (bs_choice(("same" + std::to_string(i)).c_str(), 2))
      grp[i] = grp[i - 1];
    else
    {
      grp[i] = grp[i - 1] + 1;
      e      = e + R("gap" + std::to_string(i), 1, 100);
    }
    ev.push_back(e);
  }
  MatrixXcd Mc = M0, Dc = D;
  if (n > 1) bs_generic(2);
  Vec r = m.FirstDerivativeOfEigenvalues(Mc, Dc);
  bs_generic(0);
  bs_check((int)r.size() == 2 * n && nouter == 1, "eigenvalues followed by their derivatives");
  size_t used = 0;
  for (int p = 0; p < n; p++)
  {
    if (p && grp[p] == grp[p - 1]) continue;
    std::vector<int> g;
    for (int i = p; i < n; i++)
      if (grp[i] == grp[p]) g.push_back(i);
    auto elem = [&](int a, int b)
    {
      double re = 0, im = 0;
      for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
        {
          double ar = U(i, a).real(), ai = -U(i, a).imag(), dr = D(i, j).real(), di = D(i, j).imag(), br = U(j, b).real(), bi = U(j, b).imag();
          double tr = ar * dr - ai * di, ti = ar * di + ai * dr;
          re += tr * br - ti * bi;
          im += tr * bi + ti * br;
        }
      return C(re, im);
    };
    for (size_t k = 0; k < g.size(); k++)
    {
      bs_check_eq(r[g[k]], ev[g[k]], 1e-9, 2e-6, "eigenvalue");
      if (g.size() == 1)
        bs_check_eq(r[n + p], elem(p, p).real(), 1e-9, 2e-6, "derivative of a simple eigenvalue");
      else
      {
        bs_check(used < inner.size() && (size_t)inner[used].B.rows() == g.size(), "degenerate block");
        bs_check_eq(r[n + g[k]], inner[used].e[k], 1e-9, 2e-6, "derivatives of a degenerate eigenvalue");
        for (size_t l = 0; l < g.size(); l++)
        {
          C w = elem(g[k], g[l]);
          bs_check_eq(inner[used].B(k, l).real(), w.real(), 1e-9, 1e-6, "degenerate block");
          bs_check_eq(inner[used].B(k, l).imag(), w.imag(), 1e-9, 1e-6, "degenerate block");
        }
      }
    }
    if (g.size() > 1) used++;
  }
  bs_reach("end");
}
