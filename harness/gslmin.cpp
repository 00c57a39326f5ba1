// Repeated local minimisation returns the lowest solution found, in every
// schedule of its worker threads.
// bsym-scope: on
// bsym-src: @models minimizer/*.cpp minimizer/LibNLOPT/*.cpp
// bsym-stub: ^BSMPT::Class_Potential_Origin::VEff\( -> h_veff
// bsym-stub: ^BSMPT::Minimizer::GSL_Minimize_From_S_gen_all\( -> h_from
// bsym-stub: ^std::thread::_M_start_thread\( -> thr_start
// bsym-stub: ^std::thread::join\(\) -> thr_join
// bsym-stub: ^std::thread::hardware_concurrency\(\) -> thr_hc
// bsym-stub: ^pthread_mutex_lock$ -> thr_lock
// bsym-stub: ^pthread_mutex_unlock$ -> thr_unlock
#include "models.h"
#include "threads.h"
#include <BSMPT/minimizer/MinimizeGSL.h>
#include <BSMPT/minimizer/Minimizer.h>
#include <gsl/gsl_errno.h>
#include <set>
using namespace BSMPT::Minimizer;
static int calls;
static double Tt;
static std::set<double> used;
static std::vector<Vec> found;
static size_t firstSuccess;
static double val(const Vec &full)
{
  double r = 7;
  for (size_t i = 0; i < full.size(); i++)
    r += (1.0 + i) * full[i];
  return r;
}
extern "C"
{
  double h_veff(const CPO *m, const Vec &v, double T, int diff, int order)
  {
    bs_check(T == Tt && diff == 0 && order == 1, "potential value at the requested temperature");
    return val(v.size() == m->NHiggs ? v : m->MinimizeOrderVEV(v));
  }
  int h_from(GSL_params &p, Vec &sol, const Vec &start)
  {
    size_t n = p.model.nVEV;
    bs_check(p.Temp == Tt, "minimisation at the requested temperature");
    bs_check(start.size() == n && start[0] >= -500 && start[0] <= 500, "starting point is valid");
    bs_check(used.insert(start.at(0)).second, "every starting point is used once");
    calls++;
    thrPreempt = (size_t)calls + 1 >= firstSuccess || calls < 2;
    bool ok = (size_t)calls > firstSuccess && bs_choice("ok", 2);
    sol.clear();
    for (size_t i = 0; i < n; i++)
      sol.push_back(ok ? bs_fresh("s", -400, 400) : 0);
    if (ok) found.push_back(sol);
    return ok ? GSL_SUCCESS : GSL_FAILURE;
  }
}
extern "C" void bs_harness_main()
{
  std::string cs = bs_case();
  auto has       = [&](const char *t) { return cs.find(t) != std::string::npos; };
  ModelSpec s    = specFromCase(cs);
  auto mp        = newModel(s, GetSMConstants());
  CPO &m         = *mp;
  Vec par;
  for (auto &n : parNames(s))
    par.push_back(n == "type" ? 1 : n == "vh" ? 246 : n == "vs" || n == "va" ? 100 : 0.5);
  m.set_gen(par);
  if (!m.SetCurvatureDone) m.SetCurvatureArrays();
  size_t n = m.nVEV;
  Tt       = R("T", 0, 300);
  bool multi = has("thr");
  firstSuccess = has("last") ? 597 : 0;
  thrBudget    = multi ? 4 : 0;
  size_t maxSol = has("last") ? 3 : 2;
  if (!has("last"))
  {
    // the remaining starting points fail quickly: end the exploration after a few
    firstSuccess = 0;
  }
  std::vector<Vec> all;
  auto r = GSL_Minimize_gen_all(m, Tt, 5, all, maxSol, multi);
  bs_check(thrPending.empty() && !thrLocked, "all workers have finished");
  bs_check(r.second == !found.empty(), "success iff a solution was found");
  bs_check(all.size() == found.size(), "every solution is reported");
  bs_check(found.size() >= maxSol || calls == 600, "no starting point is left while solutions are missing");
  bs_check(found.size() <= maxSol + (multi ? 1 : 0), "no more solutions than requested");
  if (r.second)
  {
    bs_check(r.first.size() == n, "size of the solution");
    double v = val(m.MinimizeOrderVEV(r.first));
    bool member = false;
    for (auto &f : found)
    {
      double w = val(m.MinimizeOrderVEV(f));
      bs_check(v <= w + 1e-9, "lowest solution is returned");
      bool eq = true;
      for (size_t i = 0; i < n; i++)
        eq = eq && f[i] == r.first[i];
      member = member || eq;
    }
    bs_check(member, "returned solution is one that was found");
    for (size_t k = 0; k < all.size(); k++)
    {
      bs_check(all[k].size() == n + 2, "columns of the solution table");
      Vec x(all[k].begin(), all[k].begin() + n);
      bs_check_eq(all[k][n], m.EWSBVEV(m.MinimizeOrderVEV(x)), 1e-10, 1e-10, "electroweak vev of the solution");
      bs_check_eq(all[k][n + 1], val(m.MinimizeOrderVEV(x)), 1e-10, 1e-10, "potential value of the solution");
    }
  }
  bs_reach("end");
}
