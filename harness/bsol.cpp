// Solutions of the bounce equation: which temperatures are computed, from which
// vacua and path, the sorted list, the interpolation and the discrete symmetry.
// bsym-stub: ^BSMPT::BounceSolution::GWSecondaryScan\( -> h_second
// bsym-src: bounce_solution/bounce_solution.cpp utility/utility.cpp utility/Logger.cpp
#include "bs.h"
#include <BSMPT/bounce_solution/bounce_solution.h>
#include <BSMPT/models/ClassPotentialOrigin.h>
#include <BSMPT/utility/asciiplotter/asciiplotter.h>
#include <cmath>
#include <cstring>
#include <new>
using namespace BSMPT;
static double R(const std::string &n, double lo, double hi) { return bs_real(n.c_str(), lo, hi); }
static BounceSolution *b;
struct Call
{
  double T;
  std::vector<std::vector<double>> path;
};
static std::vector<Call> calls;
static std::vector<std::pair<double, double>> acts; // action at a temperature
static std::vector<std::pair<double, int>> viable;  // answers about the vacua
static std::vector<double> splT, splS;
static int splines, warps, freeActions = 99;
static double warpT = -1;
static const double M[2][2] = {{0, -1}, {1, 0}};
static double vacuum(int w, double T, int k) { return w * 100 + (k + 2) * T + k; }
static bool symMode;
static int seconds;
extern "C" void h_second(BounceSolution *) { seconds++; }
static int isViable(double T)
{
  for (auto &v : viable)
    if (bs_same(v.first, T)) return v.second;
  int c = bs_choice(("viable" + std::to_string(viable.size())).c_str(), 2);
  viable.push_back({T, c});
  return c;
}
static char modelRaw[sizeof(Class_Potential_Origin)];
static void *vtab[64];
extern "C" double h_veff(const Class_Potential_Origin *o, const std::vector<double> &v, double T, int diff, int order)
{
  bs_check((const void *)o == modelRaw && diff == 0 && order == 1, "one-loop potential");
  return v[0] + 1000 * T;
}
namespace BSMPT
{
Phase::Phase() {}
CoexPhases::CoexPhases() {}
Minimum Phase::Get(double T)
{
  int w = this == &b->phase_pair.false_phase ? 0 : 1;
  bs_check(w == 0 || this == &b->phase_pair.true_phase, "phase of the pair");
  Minimum m;
  if (symMode)
  {
    m.point = {R(w ? "t0" : "f0", -300, 300), R(w ? "t1" : "f1", -300, 300)};
    return m;
  }
  m.point     = {vacuum(w, T, 0), vacuum(w, T, 1)};
  m.temp      = T;
  int v       = isViable(T);
  m.potential = w == 0 ? 5. : v ? -3. : 5. + (viable.size() % 2);
  return m;
}
std::vector<double> Class_Potential_Origin::MinimizeOrderVEV(const std::vector<double> &v) const { return {v[0] * 2 + v[1], 0, 0, 0}; }
const std::vector<std::vector<double>> MinimumTracer::WarpPath(const std::vector<std::vector<double>> &p, const std::vector<double> &T1, const std::vector<double> &F1, const std::vector<double> &T2, const std::vector<double> &F2)
{
  warps++;
  bs_check(p.size() == 1 && p[0].size() == 1, "path of a solution");
  warpT = p[0][0];
  bs_check(T1.size() == 1 && F1.size() == 1 && bs_same(T1[0], warpT + 1) && bs_same(F1[0], warpT + 2), "vacua of the solution warped");
  bs_check(T2.size() == 2 && F2.size() == 2, "vacua");
  return {{-7}, T2, F2};
}
static std::function<double(std::vector<double>)> *curV;
BounceActionInt::BounceActionInt() {}
BounceActionInt::BounceActionInt(std::vector<std::vector<double>> path, std::vector<double> tv, std::vector<double> fv, std::function<double(std::vector<double>)> &V_, double T_, int mp)
{
  T = T_;
  bs_check(mp == b->MaxPathIntegrations, "path integrations as requested");
  bs_check(tv.size() == 2 && fv.size() == 2, "vacua");
  for (int k = 0; k < 2; k++)
  {
    double rot = 0;
    for (int j = 0; j < 2; j++)
      rot += M[k][j] * vacuum(1, T, j);
    bs_check_eq(tv[k], rot, 1e-12, 1e-9, "true vacuum in the optimal symmetry");
    bs_check_eq(fv[k], vacuum(0, T, k), 1e-12, 1e-9, "false vacuum");
  }
  double x = R("x" + std::to_string(calls.size()), -100, 100), y = R("y" + std::to_string(calls.size()), -100, 100);
  bs_check_eq(V_({x, y}), 2 * x + y + 1000 * T, 1e-12, 1e-9, "potential at the temperature of the solution");
  calls.push_back({T, path});
  Path       = {{T}};
  TrueVacuum = {T + 1}, FalseVacuum = {T + 2};
}
void BounceActionInt::CalculateAction(double)
{
  int n = acts.size();
  // failed, or any action
  Action = n < freeActions && bs_choice(("failed" + std::to_string(n)).c_str(), 2) ? -1 : R("S" + std::to_string(n), 1, 1e5);
  acts.push_back({T, Action});

}
} // namespace BSMPT
namespace tk
{
void spline::set_boundary(bd_type, double, bd_type, double) {}
void spline::set_points(const std::vector<double> &x, const std::vector<double> &y, spline_type)
{
  splT = x, splS = y;
  splines++;
}
double spline::operator()(double) const { return 1; }
} // namespace tk

AsciiPlotter::AsciiPlotter(string, int, int) {}
AsciiPlotter::~AsciiPlotter() {}
void AsciiPlotter::addPlot(vector<double>, vector<double>, string, char) {}
void AsciiPlotter::show(std::stringstream &) {}
void AsciiPlotter::xlabel(string) {}
void AsciiPlotter::ylabel(string) {}
static void sorted(const char *what)
{
  for (size_t i = 0; i + 1 < b->SolutionList.size(); i++)
    bs_check(b->SolutionList[i].T <= b->SolutionList[i + 1].T, what);
  for (auto &s : b->SolutionList)
    bs_check(s.Action > 0, "solutions have a positive action");
}
static void body()
{
  std::string cs = bs_case();
  auto *m        = reinterpret_cast<Class_Potential_Origin *>(modelRaw);
  auto pm        = static_cast<double (Class_Potential_Origin::*)(const std::vector<double> &, double, int, int) const>(&Class_Potential_Origin::VEff);
  long slot;
  std::memcpy(&slot, &pm, sizeof slot);
  vtab[(slot - 1) / 8] = reinterpret_cast<void *>(&h_veff);
  *(void ***)modelRaw  = vtab;
  ISMConstants sm{};
  new ((void *)&m->SMConstants) ISMConstants(sm);
  std::shared_ptr<Class_Potential_Origin> model(m, [](Class_Potential_Origin *) {});
  b                      = new BounceSolution(model);
  b->MaxPathIntegrations = 5;
  b->Tm                  = R("Tm", 10, 60);
  b->Tc                  = b->Tm + R("range", 20, 120);
  b->phase_pair.T_low = b->Tm, b->phase_pair.crit_temp = b->Tc;
  b->OptimalDiscreteSymmetry = Eigen::MatrixXd(2, 2);
  for (int i = 0; i < 2; i++)
    for (int j = 0; j < 2; j++)
      b->OptimalDiscreteSymmetry(i, j) = M[i][j];
  auto add = [&](double T, double S)
  {
    BounceActionInt s;
    s.T = T, s.Action = S;
    s.Path       = {{T}};
    s.TrueVacuum = {T + 1}, s.FalseVacuum = {T + 2};
    b->SolutionList.push_back(s);
  };
  if (cs == "at")
  {
    int n    = bs_choice("solutions", 4);
    double T = b->Tm + R("first", 0, 10);
    std::vector<double> Ts;
    for (int i = 0; i < n; i++)
    {
      add(T, R("A" + std::to_string(i), 1, 1e5));
      Ts.push_back(T);
      T = T + R("d" + std::to_string(i), 0.01, 20);
    }
    double want = R("T", 5, 200);
    bool smart  = bs_choice("smart", 2);
    b->CalculateActionAt(want, smart);
    bool inside = bs_decide(want >= b->Tm) && bs_decide(want <= b->Tc);
    int near    = -1;
    if (inside)
      for (int i = 0; i < n; i++)
        if (near < 0 || bs_decide(std::abs(want - Ts[i]) < std::abs(want - Ts[near]))) near = i;
    bool known = near >= 0 && bs_decide(std::abs(want - Ts[near]) < 0.001);
    bool does  = inside && !known && (n == 0 || isViable(want));
    bs_check(calls.size() == (does ? 1u : 0u), "computed exactly for a new temperature in range with a viable transition");
    if (!does)
    {
      bs_check((int)b->SolutionList.size() == n, "no new solution");
      return;
    }
    bs_check(bs_same(calls[0].T, want), "computed at the temperature");
    auto &p = calls[0].path;
    if (n > 0 && smart)
    {
      bs_check(warps == 1 && bs_same(warpT, Ts[near]), "path of the nearest solution");
      bs_check(p.size() == 3 && p[0].size() == 1 && p[0][0] == -7, "the warped path is used");
    }
    else
    {
      bs_check(warps == 0 && p.size() == 2 && p[0].size() == 2, "straight path");
      for (int k = 0; k < 2; k++)
      {
        double rot = 0;
        for (int j = 0; j < 2; j++)
          rot += M[k][j] * vacuum(1, want, j);
        bs_check_eq(p[0][k], rot, 1e-12, 1e-9, "path starts in the true vacuum");
        bs_check_eq(p[1][k], vacuum(0, want, k), 1e-12, 1e-9, "path ends in the false vacuum");
      }
    }
    bool good = acts[0].second != -1;
    bs_check((int)b->SolutionList.size() == n + (good ? 1 : 0), "solution kept exactly if the action is positive");
    sorted("sorted by temperature");
    if (good)
    {
      int hit = 0;
      for (auto &s : b->SolutionList)
        if (bs_same(s.T, want) && bs_same(s.Action, acts[0].second)) hit++;
      bs_check(hit == 1, "the new solution is in the list");
    }
  }
  else if (cs == "scan")
  {
    b->NumberOfInitialScanTemperatures = 2 + bs_choice("points", 4);
    b->GWInitialScan();
    bs_check(seconds == 1, "second scan follows");
    bs_check(calls.size() < b->NumberOfInitialScanTemperatures, "at most the requested number of temperatures");
    double last = b->Tc;
    size_t pos  = 0;
    for (size_t i = 0; i < calls.size(); i++)
    {
      double T = calls[i].T, S = acts[i].second;
      bs_check(T < last && T > b->Tm, "scanned from the critical to the lowest temperature");
      last = T;
      bs_check(isViable(T), "transition energetically viable");
      double st = S / T;
      if (S != -1)
      {
        pos++;
        if (i + 1 < calls.size()) bs_check(st >= 40, "stops at a small action");
      }
      bool prev = i > 0 && acts[i - 1].second != -1;
      if (prev)
        bs_check(calls[i].path.size() == 3 && calls[i].path[0][0] == -7, "path of the solution before");
      else
        bs_check(calls[i].path.size() == 2, "straight path");
    }
    // every viable temperature is computed until the action is small
    bool done = !calls.empty() && acts.back().second != -1 && bs_decide(acts.back().second / acts.back().first < 40);
    for (auto &v : viable)
    {
      bool got = false;
      for (auto &c : calls)
        got = got || bs_same(c.T, v.first);
      bs_check(got == (v.second == 1), "every viable temperature is computed");
    }
    if (!done) bs_check(viable.size() + 2 >= b->NumberOfInitialScanTemperatures, "scanned to the end without a small action");
    bs_check(b->SolutionList.size() == pos, "solutions kept exactly if the action is positive");
    sorted("sorted by temperature");
  }
  else if (cs == "spline")
  {
    int n    = bs_choice("solutions", 7);
    double T = b->Tm;
    std::vector<double> Ts, Ss;
    for (int i = 0; i < n; i++)
    {
      double S = R("A" + std::to_string(i), 1, 1e5);
      add(T, S);
      Ts.push_back(T), Ss.push_back(S);
      T = T + R("d" + std::to_string(i), 0.01, 20);
    }
    b->SetBounceSol();
    bs_check(b->status_bounce_sol == (n >= 4 ? StatusGW::Success : StatusGW::Failure), "success exactly with four solutions");
    bs_check(splines == (n >= 4 ? 1 : 0), "interpolated exactly with four solutions");
    if (n < 4) return;
    bs_check((int)splT.size() == n && (int)splS.size() == n, "all solutions are interpolated");
    for (int i = 0; i < n && i < (int)splT.size(); i++)
      bs_check(bs_same(splT[i], Ts[i]) && bs_same(splS[i], Ss[i]), "action against temperature");
  }
  else // symmetry
  {
    symMode = true;
    int n   = bs_choice("elements", 4);
    static const double G[4][2][2] = {{{1, 0}, {0, 1}}, {{-1, 0}, {0, 1}}, {{0, 1}, {1, 0}}, {{-1, 0}, {0, -1}}};
    int rot = bs_choice("order", 4);
    for (int e = 0; e < n; e++)
    {
      Eigen::MatrixXd g(2, 2);
      for (int i = 0; i < 2; i++)
        for (int j = 0; j < 2; j++)
          g(i, j) = G[(e + rot) % 4][i][j];
      b->GroupElements.push_back(g);
    }
    b->CalculateOptimalDiscreteSymmetry();
    double t[2] = {R("t0", -300, 300), R("t1", -300, 300)}, f[2] = {R("f0", -300, 300), R("f1", -300, 300)};
    auto dist = [&](const double g[2][2])
    {
      double d = 0;
      for (int i = 0; i < 2; i++)
      {
        double x = f[i] - g[i][0] * t[0] - g[i][1] * t[1];
        d += x * x;
      }
      return d;
    };
    double o[2][2];
    for (int i = 0; i < 2; i++)
      for (int j = 0; j < 2; j++)
        o[i][j] = b->OptimalDiscreteSymmetry(i, j);
    int which = -1;
    for (int e = 0; e < 4; e++)
      if (o[0][0] == G[e][0][0] && o[0][1] == G[e][0][1] && o[1][0] == G[e][1][0] && o[1][1] == G[e][1][1]) which = e;
    if (n == 0)
      bs_check(which == 0, "identity without a group");
    else
    {
      bs_check(which >= 0 && (which - rot + 4) % 4 < n, "an element of the group");
      for (int e = 0; e < n; e++)
        bs_check(dist(o) <= dist(G[(e + rot) % 4]) + 1e-6, "the vacua are closest in the symmetry chosen");
    }
    std::vector<double> r = b->TransformIntoOptimalDiscreteSymmetry({t[1], f[0]});
    bs_check(r.size() == 2, "transformed vacuum");
    for (int i = 0; i < 2; i++)
      bs_check_eq(r[i], o[i][0] * t[1] + o[i][1] * f[0], 1e-12, 1e-9, "transformed vacuum");
  }
}
extern "C" void bs_harness_main()
{
  body();
  bs_reach("end");
}
