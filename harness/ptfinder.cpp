// The bisection for the critical temperature reports what the minima at the
// temperatures it visited show.
// bsym-src: @models minimizer/*.cpp minimizer/LibNLOPT/*.cpp
// bsym-stub: ^BSMPT::Minimizer::Minimize_gen_all\(std::shared_ptr -> h_min
#include "models.h"
#include <BSMPT/minimizer/Minimizer.h>
using namespace BSMPT::Minimizer;
struct Rec
{
  double T, v;
  Vec sol;
};
static std::vector<Rec> recs;
static double Ts, Te;
static int flips;
static CPO *mod;
static bool lim;
static bool lastBroken;
extern "C" Vec h_min(const std::shared_ptr<CPO> &m, const double &T, Vec &check, const Vec &, const int &which, bool multi)
{
  bs_check(m.get() == mod && which == 5 && !multi, "the requested minimisation is used");
  bs_check(T >= Ts && T <= Te, "minimisation within the temperature interval");
  check.push_back(1);
  Vec sol;
  bool canBreak = true, canSym = true;
  if (lim && recs.size() >= 2 && flips == 0) (lastBroken ? canSym : canBreak) = false;
  std::string tag = std::to_string(recs.size());
  double v        = R("v" + tag, 0, 400);
  bs_assume(v == 0 || v > 0.5); // guaranteed by the minimisation
  if (!canBreak) bs_assume(v == 0);
  if (!canSym) bs_assume(v > 0.5);
  bool broken = v > 0.5;
  if (lim && recs.size() >= 3 && broken != lastBroken) flips--;
  lastBroken = broken;
  for (size_t i = 0; i < m->nVEV; i++)
    sol.push_back(0);
  // the first doublet direction carries the electroweak vev, singlets are free
  bool set = false;
  for (size_t i = 0; i < m->nVEV; i++)
  {
    bool doublet = m->EWSBVEV(m->MinimizeOrderVEV([&] { Vec e(m->nVEV, 0.0); e[i] = 100; return e; }())) > 1;
    if (doublet && !set)
      sol[i] = -v, set = true;
    else if (!doublet)
      sol[i] = lim && recs.size() == 1 ? 50 : R("s" + tag + "_" + std::to_string(i), 1, 400);
  }
  recs.push_back({T, v, sol});
  return sol;
}
extern "C" void bs_harness_main()
{
  std::string cs = bs_case();
  auto has       = [&](const char *t) { return cs.find(t) != std::string::npos; };
  std::shared_ptr<CPO> m = newModel(specFromCase(cs), GetSMConstants());
  Vec par;
  for (auto &n : parNames(specFromCase(cs)))
    par.push_back(n == "type" ? 1 : n == "vh" ? 246 : n == "vs" || n == "va" ? 100 : 0.5);
  m->set_gen(par);
  if (!m->SetCurvatureDone) m->SetCurvatureArrays();
  mod = m.get();
  size_t n = m->nVEV;
  lim   = has("long");
  flips = 1;
  double W;
  if (has("zero"))
    Ts = 0, Te = W = R("Te", 0.02, 0.15);
  else if (lim)
    Ts = 0, Te = W = 300;
  else
  {
    Ts = R("Ts", 0, 200);
    W  = R("W", 0.02, 0.15);
    Te = Ts + W;
  }
  for (size_t i = 0; i < n; i++)
    m->vevTreeMin[i] = i == 0 ? 246 : lim ? 50 : R("vt" + std::to_string(i), -400, 400);
  auto r = PTFinder_gen_all(m, Ts, Te, 5, false);
  bs_check(!recs.empty(), "minima were computed");
  auto at = [&](double T) -> const Rec *
  {
    for (auto &q : recs)
      if (q.T == T) return &q;
    return nullptr;
  };
  auto same = [&](const Vec &a, const Vec &b, const char *l)
  {
    bs_check(a.size() == b.size(), "size of the reported minimum");
    for (size_t i = 0; i < a.size() && i < b.size(); i++)
      bs_check(a[i] == b[i], l);
  };
  const Rec *e = at(Te), *s = at(Ts);
  bs_check(e != nullptr, "the final temperature is examined");
  if (!e) return;
  Vec zero(n, 0.0);
  switch (r.StatusFlag)
  {
  case MinimizerStatus::NOTVANISHINGATFINALTEMP:
    bs_check(e->v > C_threshold && r.Tc == Te && r.vc == e->v, "not vanishing at the final temperature");
    same(r.EWMinimum, e->sol, "minimum at the final temperature");
    break;
  case MinimizerStatus::NLOVEVZEROORINF:
    bs_check(e->v <= C_threshold && s && (s->v <= C_threshold || s->v >= 255) && r.Tc == Te && r.vc == 0, "no valid vacuum at the initial temperature");
    same(r.EWMinimum, zero, "no minimum is reported");
    break;
  case MinimizerStatus::NOTNLOSTABLE:
    bs_check(e->v <= C_threshold && s && Ts == 0 && !m->CheckNLOVEV(s->sol) && r.Tc == Te && r.vc == s->v, "one-loop vacuum differs from the tree-level one");
    same(r.EWMinimum, s->sol, "minimum at the initial temperature");
    break;
  case MinimizerStatus::NUMERICALLYUNSTABLE:
  {
    const Rec *q = at(r.Tc);
    bs_check(q && q->v >= 255 && r.vc == q->v && r.Tc > Ts && r.Tc < Te, "unstable at a visited temperature");
    if (q) same(r.EWMinimum, q->sol, "minimum at the unstable temperature");
    break;
  }
  case MinimizerStatus::BELOWTHRESHOLD:
  {
    const Rec *q = at(r.Tc);
    bs_check(q && q->v != 0 && q->v < C_PT * q->T && r.vc == q->v, "transition below the threshold");
    break;
  }
  case MinimizerStatus::SUCCESS:
  {
    const Rec *q = at(r.Tc);
    bs_check(e->v <= C_threshold, "symmetric at the final temperature");
    bs_check(s && s->v > C_threshold && s->v < 255, "broken at the initial temperature");
    if (s) bs_check(Ts > 0 || m->CheckNLOVEV(s->sol), "one-loop vacuum agrees with the tree-level one");
    bs_check(q != nullptr, "the critical temperature was examined");
    if (!q) break;
    bs_check(q->v >= 1e-2 && q->v < 255 && r.vc == q->v, "broken minimum at the critical temperature");
    same(r.EWMinimum, q->sol, "minimum at the critical temperature");
    bool close = false;
    for (auto &p : recs)
    {
      bs_check(p.v < 255, "no unstable temperature");
      if (p.T > r.Tc) bs_check(p.v < 1e-2, "symmetric above the critical temperature");
      if (p.T < r.Tc) bs_check(p.v >= 1e-2, "broken below the critical temperature");
      close = close || (p.T > r.Tc && p.T <= r.Tc + 1e-2);
    }
    bs_check(close, "symmetric within the resolution above the critical temperature");
    bs_reach("success");
    break;
  }
  default: bs_check(0, "known status");
  }
  // stop early conditions may not be overridden
  if (e->v > C_threshold) bs_check(r.StatusFlag == MinimizerStatus::NOTVANISHINGATFINALTEMP, "status of a non-vanishing vev");
  bs_reach("end");
}
