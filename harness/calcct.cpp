// The counterterms the models compute cancel the one-loop shift of the vacuum
// gradient and of the mass matrix, for every shift that has the form of the
// documented counterterm potential.
// bsym-src: @models
// bsym-stub: ^BSMPT::Class_Potential_Origin::WeinbergFirstDerivative\(\) const$ -> h_w1
// bsym-stub: ^BSMPT::Class_Potential_Origin::WeinbergSecondDerivative\(\) const$ -> h_w2
#include "models.h"
static Vec *W1, *W2;
extern "C"
{
  Vec h_w1(const void *) { return *W1; }
  Vec h_w2(const void *) { return *W2; }
}
extern "C" void bs_harness_main()
{
  std::string cs = bs_case();
  ModelSpec s    = specFromCase(cs);
  auto has       = [&](const char *t) { return cs.find(t) != std::string::npos; };
  auto mp        = newModel(s, symSM());
  CPO &m         = *mp;
  Vec par        = symPar(s, "", has("neg"), has("vs0"), has("va0"));
  m.set_gen(par);
  if (!m.SetCurvatureDone) m.SetCurvatureArrays();
  m.CalcCouplingsdone = true;
  Vec c;
  for (size_t i = 0; i < m.nParCT; i++)
    c.push_back(R("c" + std::to_string(i), -1e5, 1e5));
  LagPar q = ctLag(s, c);
  auto L   = [&](const Vec &x) { return lagrangianV(s, q, x); };
  Vec vac  = m.MinimizeOrderVEV(m.vevTreeMin);
  int N    = s.N;
  W1       = new Vec(N);
  W2       = new Vec(N * N);
  for (int i = 0; i < N; i++)
  {
    (*W1)[i] = -deriv4(L, vac, i);
    for (int j = 0; j < N; j++)
      (*W2)[i * N + j] =
          -deriv4([&](const Vec &x) { return deriv4(L, x, i); }, vac, j);
  }
  bs_generic(1);
  Vec ct = m.calc_CT();
  bs_generic(0);
  bs_check(ct.size() == m.nParCT, "one counterterm per parameter");
  m.set_CT_Pot_Par(ct);
  Eigen::VectorXd G = m.NablaVCT(vac);
  Eigen::MatrixXd H = m.HessianCT(vac);
  LagPar q2         = ctLag(s, ct);
  auto L2           = [&](const Vec &x) { return lagrangianV(s, q2, x); };
  for (int i = 0; i < N; i++)
  {
    bs_check_eq(G(i), -(*W1)[i], 1e-8, 1e-2, "gradient renormalisation condition");
    bs_check_eq(G(i), deriv4(L2, vac, i), 1e-8, 1e-3, "gradient of the counterterm potential");
    for (int j = 0; j < N; j++)
    {
      bs_check_eq(H(i, j), -(*W2)[i * N + j], 1e-8, 1e-2, "mass renormalisation condition");
      if (j <= i)
        bs_check_eq(H(i, j), deriv4([&](const Vec &x) { return deriv4(L2, x, i); }, vac, j), 1e-8, 1e-3, "Hessian of the counterterm potential");
    }
  }
  bs_reach("end");
}
