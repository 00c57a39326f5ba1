// The NLopt minimisers search a box that contains every vacuum of interest and
// minimise the potential at the requested temperature (in the plane).
// bsym-src: @models minimizer/*.cpp minimizer/LibNLOPT/*.cpp
// bsym-stub: ^BSMPT::Class_Potential_Origin::VEff\( -> h_veff
// bsym-stub: ^nlopt_set_lower_bounds$ -> h_lb
// bsym-stub: ^nlopt_set_upper_bounds$ -> h_ub
// bsym-stub: ^nlopt_set_min_objective$ -> h_obj
// bsym-stub: ^nlopt_optimize$ -> h_opt
#include "models.h"
#include <BSMPT/minimizer/LibNLOPT/MinimizeNLOPT.h>
#include <BSMPT/minimizer/MinimizePlane.h>
using namespace BSMPT::Minimizer;
static double Tt;
static Vec lb, ub, evalFull, sol;
static std::vector<Vec> evals;
static nlopt_func fn;
static void *fdata;
static CPO *mod;
static bool plane;
static std::vector<size_t> dirs; // direction of each search coordinate
static int rc;
static double minVal;
static int opts;
static PointerContainerMinPlane pp;
static double val(const Vec &full)
{
  double r = 7;
  for (size_t i = 0; i < full.size(); i++)
    r += (1.0 + i) * full[i];
  return r;
}
static Vec lift(const Vec &x)
{
  if (!plane) return x;
  Vec v(mod->nVEV, 0.0);
  double c = 0;
  for (size_t k = 0; k < x.size(); k++)
    v[dirs[k]] = x[k], c += pp.normalvector[dirs[k]] * (pp.Point[dirs[k]] - x[k]);
  v[pp.Index] = pp.Point[pp.Index] + c / pp.normalvector[pp.Index];
  return v;
}
extern "C"
{
  double h_veff(const CPO *m, const Vec &v, double T, int diff, int order)
  {
    bs_check(m == mod && T == Tt && diff == 0 && order == 1, "potential value at the requested temperature");
    return val(v.size() == m->NHiggs ? v : m->MinimizeOrderVEV(v));
  }
  nlopt_result h_lb(nlopt_opt o, const double *p)
  {
    lb.assign(p, p + nlopt_get_dimension(o));
    return NLOPT_SUCCESS;
  }
  nlopt_result h_ub(nlopt_opt o, const double *p)
  {
    ub.assign(p, p + nlopt_get_dimension(o));
    return NLOPT_SUCCESS;
  }
  nlopt_result h_obj(nlopt_opt, nlopt_func f, void *d)
  {
    fn = f, fdata = d;
    return NLOPT_SUCCESS;
  }
  nlopt_result h_opt(nlopt_opt o, double *x, double *opt_f)
  {
    opts++;
    size_t n = nlopt_get_dimension(o);
    bs_check(n == dirs.size(), "dimension of the search");
    bs_check(lb.size() == n && ub.size() == n && fn != nullptr, "bounds and objective are set");
    for (size_t k = 0; k < n && k < lb.size() && k < ub.size(); k++)
    {
      bs_check(lb[k] <= -300 && ub[k] >= 300, "search box reaches 300 GeV in every direction");
      double t = mod->vevTreeMin[dirs[k]];
      bs_check(lb[k] <= t && t <= ub[k], "tree-level vacuum is inside the search box");
      bs_check(lb[k] <= -t && -t <= ub[k], "mirrored vacuum is inside the search box");
      bs_check(lb[k] <= x[k] && x[k] <= ub[k], "start is inside the search box");
    }
    if (!fn) return NLOPT_FAILURE;
    // any point may be asked for, in any order
    for (int a = 0; a < 2; a++)
    {
      Vec y;
      for (size_t k = 0; k < n; k++)
        y.push_back(R((a ? "b" : "a") + std::to_string(k), -400, 400));
      double f = fn((unsigned)n, y.data(), nullptr, fdata);
      bs_check_eq(f, val(mod->MinimizeOrderVEV(lift(y))), 1e-9, 1e-6, "objective is the potential (in the plane)");
      if (a)
      {
        for (size_t k = 0; k < n; k++)
          x[k] = y[k];
        sol = y, *opt_f = minVal = f;
      }
    }
    return (nlopt_result)rc;
  }
}
extern "C" void bs_harness_main()
{
  std::string cs = bs_case();
  auto has       = [&](const char *t) { return cs.find(t) != std::string::npos; };
  std::shared_ptr<CPO> m = newModel(specFromCase(cs), GetSMConstants());
  Vec par;
  for (auto &n : parNames(specFromCase(cs)))
    par.push_back(n == "type" ? 1 : n == "vh" ? 246 : n == "vs" || n == "va" ? 100 : 0.5);
  m->set_gen(par);
  if (!m->SetCurvatureDone) m->SetCurvatureArrays();
  mod      = m.get();
  size_t n = m->nVEV;
  plane    = has("plane");
  Tt       = R("T", 0, 300);
  // one vacuum component arbitrary, the others of any kind
  size_t fr = bs_choice("free", n);
  for (size_t i = 0; i < n; i++)
    m->vevTreeMin[i] = i == fr ? R("vac", -900, 900) : i % 2 ? -450 : 20;
  const int codes[] = {1, 3, 4, 2, 5, 6, -1, -2, -4, -5};
  rc                = codes[bs_choice("rc", plane ? 6 : 10)];
  LibNLOPT::NLOPTReturnType r;
  if (!plane)
  {
    for (size_t i = 0; i < n; i++)
      dirs.push_back(i);
    r = LibNLOPT::MinimizeUsingNLOPT(*m, Tt);
  }
  else
  {
    pp.Temp = Tt, pp.nVEV = n, pp.modelPointer = m, pp.Index = bs_choice("index", n);
    for (size_t i = 0; i < n; i++)
    {
      std::string k = std::to_string(i);
      pp.Point.push_back(R("p" + k, -400, 400));
      pp.normalvector.push_back(i == pp.Index ? R("n" + k, 1, 400) : R("n" + k, -400, 400));
      pp.VEVSymmetric.push_back(0), pp.VEVBroken.push_back(pp.normalvector.back());
      if (i != pp.Index) dirs.push_back(i);
    }
    r = LibNLOPT::MinimizePlaneUsingNLOPT(pp);
  }
  bs_check(opts == 1, "one minimisation is run");
  bool ok = rc == 1 || rc == 3 || rc == 4;
  bs_check(r.Success == ok, "success iff the minimiser converged");
  if (ok)
  {
    Vec e = lift(sol);
    bs_check(r.Minimum.size() == n, "size of the minimum");
    for (size_t i = 0; i < n; i++)
      bs_check_eq(r.Minimum[i], e[i], 1e-9, 1e-6, "minimum found by the minimiser");
    bs_check(r.PotVal == minVal, "value at the minimum");
  }
  bs_reach("end");
}
