// The global minimisation returns the lowest of all candidates, in every
// schedule of its worker threads.
// bsym-scope: on
// bsym-src: @models minimizer/*.cpp minimizer/LibNLOPT/*.cpp
// bsym-stub: ^BSMPT::Class_Potential_Origin::VEff\( -> h_veff
// bsym-stub: ^BSMPT::Minimizer::GSL_Minimize_gen_all.*\(BSMPT::Class_Potential_Origin const&, double const&, int const&, bool\)$ -> h_gsl
// bsym-stub: ^BSMPT::Minimizer::GSL_Minimize_gen_all.*\(BSMPT::Class_Potential_Origin const&, double const&, int const&, unsigned long const&, bool\)$ -> h_gslmax
// bsym-stub: ^BSMPT::Minimizer::LibNLOPT::MinimizeUsingNLOPT\( -> h_nlopt
// bsym-stub: ^std::thread::_M_start_thread\( -> thr_start
// bsym-stub: ^std::thread::join\(\) -> thr_join
// bsym-stub: ^std::thread::hardware_concurrency\(\) -> thr_hc
#include "models.h"
#include "threads.h"
#include <BSMPT/minimizer/LibNLOPT/MinimizeNLOPT.h>
#include <BSMPT/minimizer/Minimizer.h>
using namespace BSMPT::Minimizer;
static double Tt, origin;
static int calls[3];
static Vec gslSol, nloptSol;
static bool gslOk, nloptOk;
static double val(const Vec &full)
{
  double r = origin;
  for (size_t i = 0; i < full.size(); i++)
    r += (1.0 + i) * full[i];
  return r;
}
extern "C"
{
  double h_veff(const CPO *m, const Vec &v, double T, int diff, int order)
  {
    bs_check(T == Tt, "potential is evaluated at the requested temperature");
    bs_check(diff == 0 && order == 1, "potential value at one-loop order");
    return val(v.size() == m->NHiggs ? v : m->MinimizeOrderVEV(v));
  }
  std::pair<Vec, bool> h_gslmax(const CPO &, const double &T, const int &, const size_t &maxSol, bool)
  {
    calls[0]++;
    bs_check(T == Tt, "minimisation at the requested temperature");
    bs_check(maxSol >= 1 && maxSol <= 600, "requested number of solutions is meaningful");
    return {gslOk ? gslSol : Vec{}, gslOk};
  }
  std::pair<Vec, bool> h_gsl(const CPO &m, const double &T, const int &s, bool t)
  {
    size_t n = 20;
    return h_gslmax(m, T, s, n, t);
  }
  LibNLOPT::NLOPTReturnType h_nlopt(const CPO &m, const double &T)
  {
    calls[1]++;
    bs_check(T == Tt, "minimisation at the requested temperature");
    return LibNLOPT::NLOPTReturnType(nloptOk ? nloptSol : Vec{}, nloptOk ? val(m.MinimizeOrderVEV(nloptSol)) : 0, nloptOk ? nlopt::SUCCESS : nlopt::FAILURE, nloptOk);
  }
}
extern "C" void bs_harness_main()
{
  std::string cs = bs_case();
  ModelSpec s    = specFromCase(cs);
  std::shared_ptr<CPO> m = newModel(s, GetSMConstants());
  Vec par;
  for (auto &n : parNames(s))
    par.push_back(n == "type" ? 1 : n == "vh" ? 246 : n == "vs" || n == "va" ? 100 : 0.5);
  m->set_gen(par);
  if (!m->SetCurvatureDone) m->SetCurvatureArrays();
  size_t n = m->nVEV;
  thrBudget = 4;
  for (int k = 0; k < 16; k++)
  {
    auto u = GetMinimizers(k);
    bs_check(!u.UseCMAES && u.UseGSL == ((k & 2) != 0) && u.UseNLopt == ((k & 4) != 0), "selected minimisers that are available");
    bs_check(GetMinimizers(CalcWhichMinimizer(k & 2, k & 1, k & 4)).UseGSL == ((k & 2) != 0), "selection round trip");
  }
  Tt     = R("T", 0, 300);
  origin = R("V0", -1e3, 1e3);
  for (size_t i = 0; i < n; i++)
  {
    gslSol.push_back(R("g" + std::to_string(i), -400, 400));
    nloptSol.push_back(R("l" + std::to_string(i), -400, 400));
  }
  gslOk   = bs_choice("gslOk", 2);
  nloptOk = bs_choice("nloptOk", 2);
  int which = bs_choice("which", 8);
  bool multi = bs_choice("multi", 2);
  bool useGsl = (which & 2) || n <= 2, useNl = which & 4;
  Vec check, start(n, 0.0);
  Vec sol = Minimize_gen_all(m, Tt, check, start, which, multi);
  bs_check(thrPending.empty(), "all workers have finished");
  bs_check(calls[0] == (useGsl ? 1 : 0) && calls[1] == (useNl ? 1 : 0), "exactly the selected minimisers run");
  bs_check(sol.size() == n, "minimum has one component per direction");
  bs_check(!check.empty() && check.back() == (useGsl && gslOk ? 1 : -1), "success flag of the local minimiser");
  // lowest candidate
  Vec best(n, 0.0);
  double bv = origin;
  auto cand = [&](const Vec &c)
  {
    double v = val(m->MinimizeOrderVEV(c));
    if (v < bv) bv = v, best = c;
  };
  if (useNl && nloptOk) cand(nloptSol);
  if (useGsl && gslOk) cand(gslSol);
  bool broken = m->EWSBVEV(m->MinimizeOrderVEV(best)) > 0.5;
  if (!broken) m->SetEWVEVZero(best);
  for (size_t i = 0; i < n; i++)
    bs_check_eq(sol[i], best[i], 1e-10, 1e-10, "lowest candidate, electroweak part cleared when symmetric");
  bs_reach("end");
}
