#include "bs.h"
#include <BSMPT/bounce_solution/bounce_solution.h>
#include <BSMPT/models/ClassPotentialOrigin.h>
#include <cmath>
#include <cstring>
#include <new>
using namespace BSMPT;
static double R(const std::string &n, double lo, double hi) { return bs_real(n.c_str(), lo, hi); }
static BounceSolution *b;
static const int NS = 5;
static std::vector<double> fracs, actions, vws, found; // recorded calls
static std::vector<double> answers;                    // what the fraction search returns
static std::vector<double> alphaAt, vwAt;
static int sets, setsAtLast;
static int acts0;
struct Pt
{
  double T, V[2], dV[2], al, c;
};
static std::vector<Pt> pts;
static Pt &at(double T)
{
  for (auto &p : pts)
    if (bs_same(p.T, T)) return p;
  std::string k = std::to_string(pts.size());
  Pt p;
  p.T     = T;
  // any strength and candidate wall velocity, written such that they come out as polynomials
  double rho = b->gstar * std::pow(M_PI, 2) / 30 * std::pow(T, 4);
  p.al       = R("alpha" + k, 0.01, 1.2);
  p.c        = R("c" + k, 0.05, 1.2);
  p.V[1]     = R("Vt" + k, -2e7, 2e7);
  p.V[0]     = p.V[1] + rho * p.al * p.c * p.c;
  p.dV[0]    = R("dVf" + k, -5e6, -1e6);
  p.dV[1]    = p.dV[0] - 4 * rho * p.al * (p.c * p.c - 1) / T;
  pts.push_back(p);
  return pts.back();
}
extern "C"
{
  double h_frac(BounceSolution *o, const double &f)
  {
    bs_check(o == b, "same object");
    fracs.push_back(f);
    vws.push_back(o->vwall);
    size_t k   = fracs.size() - 1;
    setsAtLast = sets;
    double t   = k < answers.size() ? answers[k] : answers.back();
    found.push_back(t);
    return t;
  }
  void h_action(BounceSolution *o, double T, bool)
  {
    bs_check(o == b, "same object");
    actions.push_back(T);
  }
  void h_set(BounceSolution *o)
  {
    bs_check(o == b, "same object");
    sets++;
  }
#ifndef WALL
  void h_vwall(BounceSolution *o, const Minimum &f, const Minimum &t)
  {
    bs_check(o == b, "same object");
    Pt &p = at(o->Tperc);
    bs_check(f.point.size() == 2 && f.point[0] == 0 && t.point[0] == 1, "false and true minimum");
    bs_check(bs_same(f.potential, p.V[0]) && bs_same(t.potential, p.V[1]), "minima at the percolation temperature");
    alphaAt.push_back(o->alpha);
    if (o->UserDefined_vwall == -1)
      o->vwall = R("vw" + std::to_string(alphaAt.size()), 0.05, 1);
    else
      o->vwall = o->UserDefined_vwall;
    vwAt.push_back(o->vwall);
  }
#endif
  double h_S3(const BounceSolution *, const double &T) { return 7 * T * T + 3; }
  Minimum h_get(Phase *p, double T)
  {
    int w = p == &b->phase_pair.false_phase ? 0 : p == &b->phase_pair.true_phase ? 1 : -1;
    bs_check(w >= 0, "phase of the pair");
    Minimum m;
    m.point     = {double(w), 5};
    m.temp      = T;
    m.potential = at(T).V[w];
    return m;
  }
  std::vector<double> h_order(const Class_Potential_Origin *, const std::vector<double> &v)
  {
    bs_check(v.size() == 2 && v[1] == 5, "point of a phase");
    return {v[0] + 10, 6, 7, 8};
  }
  double h_veff(const Class_Potential_Origin *, const std::vector<double> &v, double T, int diff, int)
  {
    bs_check(v.size() == 4 && v[1] == 6, "expanded point of a phase");
    bs_check(diff == -1, "temperature derivative of the potential");
    int w = v[0] == 10 ? 0 : v[0] == 11 ? 1 : -1;
    bs_check(w >= 0, "point of the phase pair");
    return at(T).dV[w];
  }
  int h_deriv(const gsl_function *F, double x, double h, double *r, double *e)
  {
    bs_check(bs_same(x, b->Tperc), "derivative at the percolation temperature");
    bs_check(h > 0 && h < 1, "step of the derivative");
    double y = R("probe", 10, 300);
    bs_check_eq(F->function(y, F->params), (7 * y * y + 3) / y, 1e-12, 0, "S3(T)/T is derived");
    *r = R("slope", -100, 100);
    *e = 0;
    return 0;
  }
}
static char modelRaw[sizeof(Class_Potential_Origin)];
static void *vtab[64];
static void fakeVtable() // VEff is virtual
{
  auto pm = static_cast<double (Class_Potential_Origin::*)(const std::vector<double> &, double, int, int) const>(&Class_Potential_Origin::VEff);
  long slot;
  std::memcpy(&slot, &pm, sizeof slot);
  vtab[(slot - 1) / 8]   = reinterpret_cast<void *>(&h_veff);
  *(void ***)modelRaw    = vtab;
}
static double vJ(double al) { return (std::sqrt(al * al + 2. / 3 * al) + std::sqrt(1. / 3)) / (1 + al); }
static void body()
{
  std::string cs = bs_case();
  auto *m        = reinterpret_cast<Class_Potential_Origin *>(modelRaw);
  fakeVtable();
  ISMConstants sm{};
  new ((void *)&m->SMConstants) ISMConstants(sm);
  std::shared_ptr<Class_Potential_Origin> model(m, [](Class_Potential_Origin *) {});
  b = new BounceSolution(model);
  b->SetGstar(R("gstar", 90, 130));
  b->SolutionList.resize(NS);
  double T = R("T0", 20, 150);
  for (int i = 0; i < NS; i++)
  {
    b->SolutionList[i].T = T;
    T                    = T + R("d" + std::to_string(i), 0.5, 40);
  }
  b->status_bounce_sol = StatusGW::Success;
  auto inside          = [&](const std::string &n) // a temperature strictly inside interval 2
  {
    double u = R(n, 0.001, 0.999);
    return b->SolutionList[2].T + u * (b->SolutionList[3].T - b->SolutionList[2].T);
  };
  if (cs == "perc" || cs == "compl")
  {
    bool perc = cs == "perc";
    int st    = bs_choice("bounce", 3);
    b->status_bounce_sol = st == 0 ? StatusGW::Success : st == 1 ? StatusGW::Failure : StatusGW::NotSet;
    // found / not found, for the first and the refined search
    int how  = bs_choice("found", 4);
    double f = R("fraction", 0.001, 0.999);
    answers  = {how & 1 ? inside("u0") : -1, how & 2 ? inside("u1") : -1};
    if (perc)
      b->CalculatePercolationTemp(f);
    else
      b->CalculateCompletionTemp(f);
    auto status  = perc ? b->status_perc : b->status_compl;
    auto other   = perc ? b->status_compl : b->status_perc;
    double res   = perc ? b->GetPercolationTemp() : b->GetCompletionTemp();
    double resO  = perc ? b->GetCompletionTemp() : b->GetPercolationTemp();
    bs_check(other == StatusTemperature::NotSet && resO == -1, "the other temperature is untouched");
    if (st != 0)
    {
      bs_check(status == StatusTemperature::NotSet && res == -1 && fracs.empty(), "nothing without a bounce solution");
      return;
    }
    for (double x : fracs)
      bs_check(bs_same(x, f), "the requested false vacuum fraction is used");
    bs_check(!fracs.empty() && (bs_same(res, found.back())), "the temperature of the last search is reported");
    bs_check((status == StatusTemperature::Success) == bs_decide(res > 0), "success exactly if there is a temperature");
    bs_check(status == StatusTemperature::Success || status == StatusTemperature::NotMet, "documented status");
    if (how & 1)
    {
      double mid = (b->SolutionList[2].T + b->SolutionList[3].T) / 2;
      bs_check(actions.size() == 1, "one additional action");
      for (double x : actions)
        bs_check_eq(x, mid, 1e-12, 0, "the action is refined in the interval of the temperature");
      if (perc) bs_check(setsAtLast == 1, "the interpolation is renewed before the refined search");
    }
    else
      bs_check(actions.empty() && fracs.size() == 1, "no refinement without a temperature");
    bool set = perc ? b->percolation_temp_set : b->completion_temp_set;
    bs_check(set == bs_decide(res > 0), "the temperature counts as set exactly if there is one");
    // a second call with a temperature set does not refine again
    if (set)
    {
      size_t na = actions.size();
      double g  = R("fraction2", 0.001, 0.999);
      answers   = {answers[0], answers[1], R("T2", 30, 200)};
      if (perc)
        b->CalculatePercolationTemp(g);
      else
        b->CalculateCompletionTemp(g);
      bs_check(actions.size() == na, "refined once only");
      bs_check(bs_same(fracs.back(), g), "the requested false vacuum fraction is used");
      bs_check(bs_same(perc ? b->Tperc : b->Tcompl, found.back()), "the temperature of the last search is reported");
    }
  }
  else if (cs == "strength")
  {
    // the fraction search settles after up to two changes, or never
    int n   = bs_choice("settles", 4);
    bool fp = bs_choice("noperc", 2);
    int w   = bs_choice("vwall", 2);
    double f = R("fraction", 0.001, 0.999);
    bool refuse = n == 3 && fp; // percolation before, no percolation now
    if (fp && !refuse) bs_end_path();
    double user = w == 0 ? R("vuser", 0.05, 1) : -1;
    b->UserDefined_vwall = user;
    bool threw           = false;
    if (n == 0 && w == 0)
    {
      try
      {
        b->CalculatePTStrength();
      }
      catch (std::runtime_error &)
      {
        threw = true;
      }
      bs_check(threw && b->GetPTStrength() == -1, "no strength without a percolation temperature");
    }
    answers = {90, 91};
    b->CalculatePercolationTemp(f);
    bs_check(b->percolation_temp_set, "set");
    size_t n0 = fracs.size();
    if (refuse)
      answers.push_back(-1);
    else
    {
      for (int i = 0; n < 3 && i <= n; i++)
        answers.push_back(R("Tp" + std::to_string(i), 40, 160));
      if (n == 3)
        for (int i = 0; i < 100; i++)
          answers.push_back(100 + 10 * (i % 2)); // never settles
    }
    if (n == 3 && !refuse) bs_assume(std::abs(at(100).al - at(110).al) > 1e-3);
    b->CalculatePTStrength();
    for (size_t i = n0; i < fracs.size(); i++)
      bs_check(bs_same(fracs[i], f), "the false vacuum fraction of the percolation temperature is kept");
    if (w == 0)
      for (size_t i = n0; i < vws.size(); i++)
        bs_check(bs_same(vws[i], user), "the requested wall velocity enters the percolation temperature");
    bs_check(fracs.size() <= n0 + 41, "gives up after a fixed number of steps");
    if (refuse)
    {
      bs_check(b->status_perc == StatusTemperature::NotMet, "no percolation at the new wall velocity");
      return;
    }
    Pt &p = at(b->Tperc);
    bs_check(bs_same(b->Tperc, found.back()), "last percolation temperature");
    bs_check_eq(b->GetPTStrength(), p.al, 1e-9, 0, "strength at the percolation temperature");
    if (w == 0)
      bs_check(bs_same(b->GetWallVelocity(), user), "requested wall velocity");
    else if (n == 3)
      bs_check(b->GetWallVelocity() == 0.95, "default wall velocity if there is no solution");
    else
      bs_check(bs_same(b->GetWallVelocity(), vwAt.back()), "wall velocity of the strength");
    bs_check(bs_same(alphaAt.back(), b->GetPTStrength()), "wall velocity from the strength reported");
    // every percolation temperature follows from the last wall velocity
    if (w == 1 && n < 3)
      for (size_t i = n0 + 1; i < vws.size(); i++)
        bs_check(bs_same(vws[i], vwAt[i - n0 - 1]), "the percolation temperature follows the wall velocity");
  }
  else if (cs == "vwall")
  {
    int w = bs_choice("mode", 3);
    Minimum fm, tm;
    b->Tperc = R("Tp", 40, 160);
    Pt &p = at(b->Tperc);
    fm.point = {0, 5}, tm.point = {1, 5};
    fm.potential = p.V[0], tm.potential = p.V[1];
    double user = w == 0 ? R("vuser", 0, 1) : w == 1 ? -1 : -2;
    b->UserDefined_vwall = user;
    bool threw           = false;
    try
    {
      b->CalculateWallVelocity(fm, tm);
    }
    catch (std::runtime_error &)
    {
      threw = true;
    }
    bs_check(threw, "no wall velocity without a percolation temperature");
    b->percolation_temp_set = true;
    double al = w == 2 ? R("al", 0.4, 1.2) : p.al;
    if (w == 2) p.dV[0] = -2097152, p.dV[1] = R("psi", 0.3, 0.95) * p.dV[0]; // only the ratio enters
    b->alpha = al;
    b->CalculateWallVelocity(fm, tm);
    if (w == 0)
      bs_check(bs_same(b->vwall, user), "requested wall velocity");
    else if (w == 1)
    {
      double c  = p.c; // sqrt((Vf-Vt)/(alpha rho))
      bs_assume(std::abs(c - vJ(al)) > 1e-7);
      bool fast = bs_decide(c > vJ(al));
      if (fast)
        bs_check(b->vwall == 1, "detonation above the Chapman-Jouguet velocity");
      else
        bs_check_eq(b->vwall, c, 1e-9, 0, "wall velocity from pressure and strength");
    }
    else
    {
      // arXiv:2305.02357
      double psi = R("psi", 0.3, 0.95), A = 0.2233, B = 1.704, P = -3.433;
      double x = std::abs((3 * al + psi - 1) / (2 * (2 - 3 * psi + std::pow(psi, 3))));
      double y = std::abs(vJ(al) * (1 - A * std::pow(1 - psi, B) / al));
      bs_check_eq(b->vwall, std::pow(std::pow(x, P / 2) + std::pow(y, P / 2), 1 / P), 1e-9, 0, "wall velocity from the upper bound");
    }
  }
  else if (cs == "beta")
  {
    bool threw = false;
    try
    {
      b->CalculateInvTimeScale();
    }
    catch (std::runtime_error &)
    {
      threw = true;
    }
    bs_check(threw && b->betaH == -1, "no time scale without a percolation temperature");
    b->Tperc                = R("Tp", 40, 160);
    b->percolation_temp_set = true;
    double r                = b->GetInvTimeScale();
    bs_check_eq(r, b->Tperc * R("slope", -100, 100), 1e-12, 0, "inverse time scale is T d(S3/T)/dT");
    bs_check(bs_same(b->GetInvTimeScale(), r), "kept");
  }
  else // select
  {
    StatusTemperature all[5] = {StatusTemperature::NotSet, StatusTemperature::Success, StatusTemperature::NotMet, StatusTemperature::NaN, StatusTemperature::NotSet};
    b->Tnucl_approx = R("Ta", 10, 200), b->Tnucl = R("Tn", 10, 200), b->Tperc = R("Tp", 10, 200), b->Tcompl = R("Tc", 10, 200);
    int w = bs_choice("which", 6), s[4];
    for (int i = 0; i < 4; i++)
      s[i] = bs_choice(("s" + std::to_string(i)).c_str(), i == w - 1 ? 4 : 2);
    b->status_nucl_approx = all[s[0]], b->status_nucl = all[s[1]], b->status_perc = all[s[2]], b->status_compl = all[s[3]];
    double want = w >= 1 && w <= 4 && s[w - 1] == 1 ? (w == 1 ? b->Tnucl_approx : w == 2 ? b->Tnucl : w == 3 ? b->Tperc : b->Tcompl) : -1;
    bs_check(bs_same(b->CalcTransitionTemp(w), want), "the chosen temperature if it was found, else -1");
  }
}
extern "C" void bs_harness_main()
{
  body();
  bs_reach("end");
}
