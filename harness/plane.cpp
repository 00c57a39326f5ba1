// Minimisation in the plane perpendicular to the line between two vacua.
// bsym-src: @models minimizer/*.cpp minimizer/LibNLOPT/*.cpp
// bsym-stub: ^BSMPT::Class_Potential_Origin::VEff\( -> h_veff
// bsym-stub: ^BSMPT::Class_Potential_Origin::EWSBVEV\( -> h_ew
// bsym-stub: ^BSMPT::Minimizer::GSL_Minimize_Plane_From_S_gen_all\( -> h_from
// bsym-stub: ^BSMPT::Minimizer::LibNLOPT::MinimizePlaneUsingNLOPT\( -> h_nlopt
#include "models.h"
#include <BSMPT/minimizer/LibNLOPT/MinimizeNLOPT.h>
#include <BSMPT/minimizer/MinimizePlane.h>
#include <gsl/gsl_errno.h>
using namespace BSMPT::Minimizer;
static double Tt;
static CPO *mod;
static std::vector<Vec> cand; // full candidates
static size_t nSym;
static Vec P, VS, VB;
static int froms, nlopts;
static Vec nlSol;
static std::vector<double> vals; // potential value of each candidate
static double val(const Vec &full)
{
  // one of the candidates; their first coordinate in the plane is their number
  size_t dir = 0, k = 0;
  Vec e(mod->nVEV, 0.0);
  e[std::abs(VB[0] - VS[0]) >= 1e-3 ? 1 : 0] = 1;
  e = mod->MinimizeOrderVEV(e);
  while (e[dir] == 0)
    dir++;
  while (k < cand.size() && full[dir] != k + 1.0)
    k++;
  bs_check(k < cand.size(), "potential is evaluated at a candidate");
  if (k >= cand.size()) return 0;
  Vec c = mod->MinimizeOrderVEV(cand[k]);
  for (size_t i = 0; i < c.size(); i++)
    bs_check(c[i] == full[i], "potential is evaluated at a candidate");
  return vals[k];
}
static void add(const Vec &c)
{
  cand.push_back(c);
  vals.push_back(vals.size() < nSym || nlopts ? R("V" + std::to_string(vals.size()), -1e3, 1e3) : 2000.0 + vals.size());
}
static void checkParams(const PointerContainerMinPlane &p)
{
  bs_check(p.modelPointer.get() == mod && p.Temp == Tt && p.nVEV == mod->nVEV, "minimisation of the given model at the given temperature");
  for (size_t i = 0; i < mod->nVEV; i++)
    bs_check(p.Point[i] == P[i] && p.normalvector[i] == VB[i] - VS[i], "plane through the base point, normal to the line between the vacua");
  bs_check(std::abs(p.normalvector[p.Index]) >= 1e-3, "the eliminated component is not parallel to the plane");
}
extern "C"
{
  double h_veff(const CPO *m, const Vec &v, double T, int diff, int order)
  {
    bs_check(m == mod && T == Tt && diff == 0 && order == 1, "potential value at the requested temperature");
    return val(v.size() == m->NHiggs ? v : m->MinimizeOrderVEV(v));
  }
  double h_ew(const CPO *, const Vec &) { return 1; }
  int h_from(const PointerContainerMinPlane &p, Vec &sol, const Vec &start)
  {
    checkParams(p);
    bs_check(start.size() + 1 == mod->nVEV, "start has one component per direction of the plane");
    bs_check(sol.empty(), "solution buffer is empty");
    froms++;
    bool s = (size_t)froms <= nSym;
    for (size_t i = 0; i + 1 < mod->nVEV; i++)
      sol.push_back(i == 0 ? froms : s ? R("f" + std::to_string(froms) + "_" + std::to_string(i), -400, 400) : 10.0 * froms);
    add(TransformCoordinates(sol, p));
    return GSL_SUCCESS;
  }
  LibNLOPT::NLOPTReturnType h_nlopt(const PointerContainerMinPlane &p)
  {
    checkParams(p);
    nlopts++;
    Vec t;
    for (size_t i = 0; i + 1 < mod->nVEV; i++)
      t.push_back(i == 0 ? cand.size() + 1.0 : R("l" + std::to_string(i), -400, 400));
    nlSol = TransformCoordinates(t, p);
    add(nlSol);
    return LibNLOPT::NLOPTReturnType(nlSol, vals.back(), nlopt::SUCCESS, true);
  }
}
extern "C" void bs_harness_main()
{
  std::string cs = bs_case();
  auto has       = [&](const char *t) { return cs.find(t) != std::string::npos; };
  std::shared_ptr<CPO> m = newModel(specFromCase(cs), GetSMConstants());
  Vec par;
  for (auto &n : parNames(specFromCase(cs)))
    par.push_back(n == "type" ? 1 : n == "vh" ? 246 : n == "vs" || n == "va" ? 100 : 0.5);
  m->set_gen(par);
  if (!m->SetCurvatureDone) m->SetCurvatureArrays();
  mod      = m.get();
  size_t n = m->nVEV;
  Tt       = R("T", 0, 300);
  bool dist = true;
  size_t first = bs_choice("first", n + 1); // first direction in which the vacua differ
  for (size_t i = 0; i < n; i++)
  {
    std::string k = std::to_string(i);
    P.push_back(R("p" + k, -400, 400));
    double s = R("s" + k, -400, 400), d;
    if (i < first)
      d = 0;
    else if (i == first)
      d = (bs_choice("sign", 2) ? -1 : 1) * R("d" + k, 1, 400);
    else
      d = R("d" + k, -400, 400);
    VS.push_back(s), VB.push_back(s + d);
  }
  dist = first < n;
  if (has("coord"))
  {
    if (!dist) return;
    PointerContainerMinPlane p;
    p.modelPointer = m, p.Temp = Tt, p.nVEV = n, p.Index = first, p.Point = P;
    for (size_t i = 0; i < n; i++)
      p.normalvector.push_back(VB[i] - VS[i]);
    int bad = bs_choice("size", 3) - 1;
    Vec t;
    for (size_t i = 0; i + 1 < n + bad; i++)
      t.push_back(R("t" + std::to_string(i), -400, 400));
    bool thrown = false;
    Vec r;
    try
    {
      r = TransformCoordinates(t, p);
    }
    catch (std::runtime_error &)
    {
      thrown = true;
    }
    bs_check(thrown == (bad != 0), "points of a wrong dimension are refused");
    if (!thrown)
    {
      bs_check(r.size() == n, "size of the point");
      double dot = 0;
      for (size_t i = 0, k = 0; i < n; i++)
      {
        dot += p.normalvector[i] * (r[i] - P[i]);
        if (i != first) bs_check(r[i] == t[k++], "coordinates of the plane are kept");
      }
      bs_check_eq(dot, 0, 0, 1e-4, "point lies in the plane");
    }
    bs_reach("end");
    return;
  }
  nSym      = 3;
  int which = has("both") ? 6 : has("gsl") ? 2 : 4;
  bool thrown = false;
  MinimizePlaneReturn r;
  try
  {
    r = MinimizePlane(P, VS, VB, m, Tt, which);
  }
  catch (std::runtime_error &)
  {
    thrown = true;
  }
  bs_check(thrown == !dist, "identical vacua are refused");
  if (thrown) return;
  bs_check((froms > 0) == ((which & 2) != 0) && nlopts == ((which & 4) != 0), "the selected minimisers are used");
  if (which & 2) bs_check(froms == 50, "number of local minimisations");
  bs_check(r.Minimum.size() == n, "size of the minimum");
  bool member = false;
  bs_check_eq(r.PotVal, val(m->MinimizeOrderVEV(r.Minimum)), 1e-9, 1e-6, "value at the minimum");
  double dot = 0;
  for (size_t i = 0; i < n; i++)
    dot += (VB[i] - VS[i]) * (r.Minimum[i] - P[i]);
  bs_check_eq(dot, 0, 0, 1e-3, "minimum lies in the plane");
  for (auto &v : vals)
    bs_check(r.PotVal <= v, "lowest candidate is returned");
  bs_reach("end");
}
