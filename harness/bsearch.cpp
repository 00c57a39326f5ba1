// Nucleation temperatures and temperatures at a false vacuum fraction: found
// exactly where the rate, the action or the fraction crosses its threshold.
// bsym-src: bounce_solution/bounce_solution.cpp minimum_tracer/*.cpp utility/*.cpp
// bsym-stub: ^BSMPT::BounceSolution::TunnelingRate\( -> h_rate
// bsym-stub: ^BSMPT::BounceSolution::HubbleRate\( -> h_hubble
// bsym-stub: ^BSMPT::BounceSolution::GetBounceSol\( -> h_S3
// bsym-stub: ^BSMPT::Nintegrate_Outer\( -> h_outer
#include "bs.h"
#include <BSMPT/bounce_solution/bounce_solution.h>
#include <cmath>
using namespace BSMPT;
static double R(const std::string &n, double lo, double hi) { return bs_real(n.c_str(), lo, hi); }
static BounceSolution *b;
static const int NS = 4;
static double val[NS]; // "level" at the solutions: below 1 or not
static bool has_[NS];
struct Ev
{
  double T, v;
};
static std::vector<Ev> evs; // evaluations between the solutions
static int tail, nfree;
static double tailLo, tailHi;
static int which(const double &T)
{
  for (int i = 0; i < NS; i++)
    if (&T == &b->SolutionList[i].T) return i;
  for (int i = 0; i < NS; i++)
    if (bs_same(T, b->SolutionList[i].T)) return i;
  return -1;
}
static double level(const double &T)
{
  int i = which(T);
  if (i >= 0) return val[i];
  for (auto &e : evs)
    if (bs_same(e.T, T)) return e.v;
  bs_check(T > b->SolutionList[0].T && T < b->SolutionList[NS - 1].T, "never beyond the known solutions");
  double v;
  if ((int)evs.size() < nfree)
    v = R("m" + std::to_string(evs.size()), 0.3, 3);
  else
    v = tail == 0 ? 0.5 : tail == 1 ? 2 : tail == 2 ? 1.0001 : 1;
  evs.push_back({T, v});
  return v;
}
extern "C"
{
  double h_rate(BounceSolution *o, const double &T)
  {
    bs_check(o == b, "same object");
    return level(T) * 81;
  }
  double h_hubble(BounceSolution *, const double &) { return 3; }
  double h_S3(const BounceSolution *o, const double &T)
  {
    bs_check(o == b, "same object");
    return level(T) * 140 * T;
  }
}
static double L, pre;
extern "C" resultErrorPair h_outer(BounceSolution &o)
{
  bs_check(&o == b, "same object");
  return {level(o.store_Temp) * L / pre, 0};
}
// a bracket of the crossing within the relative distance eps around T
static bool bracketed(double T, double eps)
{
  bool lo = false, hi = false;
  auto look = [&](double t, double v)
  {
    if (!bs_decide(std::abs(t - T) <= eps * T)) return;
    if (bs_decide(v < 1)) lo = true;
    if (bs_decide(v >= 1)) hi = true;
  };
  // the last evaluations on either side and the free ones
  bool l = false, h = false;
  for (size_t i = evs.size(); i-- > 0;)
  {
    bool up  = bs_decide(evs[i].v >= 1);
    bool use = (int)i < nfree || !(up ? h : l);
    (up ? h : l) = true;
    if (use) look(evs[i].T, evs[i].v);
  }
  for (int i = 0; i < NS; i++)
    look(b->SolutionList[i].T, val[i]);
  return lo && hi;
}
static void body()
{
  std::string cs = bs_case();
  std::shared_ptr<Class_Potential_Origin> none;
  b      = new BounceSolution(none);
  double T = R("T0", 20, 150);
  b->SolutionList.resize(NS);
  for (int i = 0; i < NS; i++)
  {
    b->SolutionList[i].T = T;
    T                    = T + R("d" + std::to_string(i), cs == "frac" ? 5 : 0.5, cs == "frac" ? 10 : 40);
  }
  nfree    = cs == "frac" ? 1 : 2;
  // every pattern of levels below and above the threshold, or exactly at it
  long pat = bs_choice("pattern", 18);
  for (int i = 0; i < NS; i++)
  {
    bool up = pat >> i & 1;
    val[i]  = pat >= 16 && (i == 1) ? 1 : pat == 16 ? (i == 0 ? 0.5 : 2) : pat == 17 ? 0.5 : up ? R("v" + std::to_string(i), 1.01, 10) : R("v" + std::to_string(i), 0, 0.99);
  }
  bool fail = pat == 1 && cs != "frac" && bs_choice("failed", 2);
  b->status_bounce_sol = fail ? StatusGW::Failure : StatusGW::Success;
  tail = bs_choice("tail", cs == "frac" ? 4 : 2);
  bool below = false, above = false;
  for (int i = 0; i < NS; i++)
  {
    below = bs_decide(val[i] < 1) || below;
    above = bs_decide(val[i] > 1) || above;
  }
  StatusTemperature st;
  double res;
  if (cs == "nucl")
  {
    b->CalculateNucleationTemp();
    st = b->status_nucl, res = b->GetNucleationTemp();
    bs_check(b->status_nucl_approx == StatusTemperature::NotSet && b->Tnucl_approx == -1, "other temperatures untouched");
  }
  else if (cs == "approx")
  {
    b->CalculateNucleationTempApprox();
    st = b->status_nucl_approx, res = b->GetNucleationTempApprox();
    bs_check(b->status_nucl == StatusTemperature::NotSet && b->Tnucl == -1, "other temperatures untouched");
  }
  else
  {
    bool o   = pat & 1;
    b->vwall = o ? 0.95 : 0.3;
    pre      = 4. * M_PI / 3. * b->vwall * b->vwall * b->vwall;
    double f = o ? 0.71 : 0.01;
    L        = -std::log(f);
    res      = b->CalcTempAtFalseVacFraction(f);
    if (res > 0)
    {
      bs_check(below && above, "a temperature is found only if the fraction is crossed");
      double v = -1;
      for (size_t i = evs.size() < 4 ? 0 : evs.size() - 4; i < evs.size(); i++)
        if (bs_decide(evs[i].T == res)) v = evs[i].v;
      bs_check(v >= 0, "the fraction was computed at the temperature returned");
      bs_check(v > 1 - 1.1e-3 && v < 1 + 1.1e-3, "the false vacuum fraction at the temperature returned is the requested one");
      bs_check(res > b->SolutionList[0].T && res < b->SolutionList[NS - 1].T, "temperature between the known solutions");
    }
    else
    {
      bs_check(res == -1, "no temperature is -1");
      bool conv = tail >= 2 && (int)evs.size() > nfree;
      bs_check(!(below && above) || !conv, "a crossing that can be resolved is found");
    }
    return;
  }
  if (fail)
  {
    bs_check(st == StatusTemperature::NotSet && res == -1 && evs.empty(), "nothing is computed without a bounce solution");
    return;
  }
  bs_check((st == StatusTemperature::Success) == (below && above), "success exactly if the threshold is crossed");
  bs_check(st == StatusTemperature::Success || st == StatusTemperature::NotMet, "documented status");
  if (st == StatusTemperature::Success)
  {
    bs_check(bracketed(res, 2e-10), "the threshold is crossed at the temperature returned");
    bs_check(res > b->SolutionList[0].T && res < b->SolutionList[NS - 1].T, "temperature between the known solutions");
  }
  else
    bs_check(res == -1, "no temperature without success");
}
extern "C" void bs_harness_main()
{
  body();
  bs_reach("end");
}
