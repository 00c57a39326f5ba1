// Tunnelling rate, Hubble rate, degrees of freedom, the percolation integrand
// and the false vacuum fraction; critical and lowest temperature.
// bsym-src: bounce_solution/bounce_solution.cpp minimum_tracer/*.cpp utility/*.cpp
// bsym-stub: ^BSMPT::BounceSolution::SetBounceSol\( -> h_set
// bsym-stub: ^BSMPT::BounceSolution::GetBounceSol\( -> h_S3
// bsym-stub: ^gsl_integration_qags$ -> h_qags
// bsym-stub: ^gsl_integration_workspace_alloc$ -> h_walloc
// bsym-stub: ^gsl_integration_workspace_free$ -> h_wfree
#include "bs.h"
#include <BSMPT/bounce_solution/bounce_solution.h>
#include <BSMPT/models/ClassPotentialOrigin.h>
#include <cmath>
#include <cstring>
#include <new>
using namespace BSMPT;
static double R(const std::string &n, double lo, double hi) { return bs_real(n.c_str(), lo, hi); }
static BounceSolution *b;
static double S3 = 0;
static std::vector<double> s3at;
static double MPl;
static double hub(double T) { return M_PI * std::sqrt(b->gstar / 90.) * T * T / MPl; }
static double rate(double T) { return T * T * T * T * std::pow(S3 / (2 * M_PI * T), 1.5) * std::exp(-S3 / T); }
static int nest;
static double outerLo, outerHi, probe, innerVal;
static int outerCalls, innerCalls;
extern "C"
{
  void h_set(BounceSolution *) {}
  double h_S3(const BounceSolution *o, const double &T)
  {
    bs_check(o == b, "same object");
    s3at.push_back(T);
    return S3;
  }
  int h_qags(const gsl_function *F, double lo, double hi, double ea, double er, size_t lim, void *, double *r, double *e)
  {
    bs_check(F->params == b, "integrand of this bounce solution");
    bs_check(ea == 0 && er > 0 && er <= 1e-2 && lim >= 100, "integration accuracy");
    *e = 0;
    if (nest++ == 0)
    {
      // fraction integral: from T to the critical temperature
      outerCalls++;
      bs_check(bs_same(lo, b->store_Temp) && bs_same(hi, b->Tc), "integrated from the temperature to the critical temperature");
      double f = F->function(probe, F->params);
      bs_check(innerCalls == 1, "one nested integral");
      double want = innerVal * innerVal * innerVal / (hub(probe) * probe * probe * probe * probe) * rate(probe);
      bool out = bs_decide(probe < b->SolutionList.front().T) || bs_decide(probe > b->SolutionList.back().T);
      if (out)
        bs_check(f == 0, "no tunnelling outside the known solutions");
      else
        bs_check_eq(f, want, 1e-9, 0, "rate, expansion and volume of the bubbles in the integrand");
      nest--;
      *r = R("integral", 0, 50);
      return 0;
    }
    innerCalls++;
    bs_check(bs_same(lo, b->store_Temp) && bs_same(hi, probe), "nested integral from the temperature to that of the nucleation");
    double x = R("innerT", 10, 300);
    bs_check_eq(F->function(x, F->params), 1 / hub(x), 1e-10, 0, "inverse Hubble rate in the nested integral");
    nest--;
    *r = innerVal;
    return 0;
  }
  void *h_walloc(size_t) { return malloc(8); }
  void h_wfree(void *p) { free(p); }
}
static char modelRaw[sizeof(Class_Potential_Origin)];
static void body()
{
  std::string cs = bs_case();
  auto *m        = reinterpret_cast<Class_Potential_Origin *>(modelRaw);
  ISMConstants sm{};
  MPl = sm.MPl;
  new ((void *)&m->SMConstants) ISMConstants(sm);
  std::shared_ptr<Class_Potential_Origin> model(m, [](Class_Potential_Origin *) {});
  b = new BounceSolution(model);
  b->SetGstar(R("gstar", 90, 130));
  b->SolutionList.resize(3);
  double T = R("T0", 20, 100);
  for (int i = 0; i < 3; i++)
  {
    b->SolutionList[i].T = T;
    T                    = T + R("d" + std::to_string(i), 0.5, 40);
  }
  b->Tc = T;
  S3    = R("S3", 1, 1e5);
  if (cs == "rate")
  {
    double t = R("T", 10, 300);
    int neg  = bs_choice("negative", 2);
    if (neg) S3 = -S3;
    double g = b->TunnelingRate(t);
    bool out = bs_decide(t < b->SolutionList.front().T) || bs_decide(t > b->SolutionList.back().T);
    if (out)
      bs_check(g == 0, "no tunnelling outside the known solutions");
    else if (!neg)
    {
      bs_check_eq(g, rate(t), 1e-9, 0, "T^4 (S3/2 pi T)^1.5 exp(-S3/T)");
      for (double x : s3at)
        bs_check(bs_same(x, t), "action at the temperature");
    }
    bs_check_eq(b->HubbleRate(t), hub(t), 1e-10, 0, "radiation dominated expansion");
  }
  else if (cs == "gstar")
  {
    long n    = bs_choice("NHiggs", 13);
    m->NHiggs = n;
    b->CalcGstarPureRad();
    bs_check_eq(b->GetGstar(), 27 + n + 7. / 8 * 90, 1e-12, 0, "degrees of freedom");
    double x = R("g", 1, 200), y = R("y", 1, 300), z = R("z", 1, 300);
    b->SetGstar(x), b->SetCriticalTemp(y), b->SetStoredTemp(z);
    bs_check(bs_same(b->GetGstar(), x) && bs_same(b->GetCriticalTemp(), y) && bs_same(b->GetStoredTemp(), z), "set and get");
  }
  else // fraction
  {
    probe    = R("probe", 10, 300);
    innerVal = R("inner", 0, 1e3);
    b->vwall = R("vw", 0.05, 1);
    double t = R("T", 20, 200);
    double p = b->CalcFalseVacFraction(t);
    bs_check(bs_same(b->store_Temp, t), "fraction at the temperature");
    double I = R("integral", 0, 50);
    bs_check(outerCalls == 1, "one integral");
    bs_check_eq(p, std::exp(-4. * M_PI / 3 * b->vwall * b->vwall * b->vwall * I), 1e-9, 0, "exponential of the volume in bubbles");
  }
}
extern "C" void bs_harness_main()
{
  body();
  bs_reach("end");
}
