// Vacuum: coexisting phases, coverage of the temperature range, patched gaps,
// and the order in which the phases are traced, sorted and paired.
// bsym-src: minimum_tracer/minimum_tracer.cpp utility/utility.cpp utility/Logger.cpp utility/NumericalDerivatives.cpp
// bsym-stub: ^BSMPT::MinimumTracer::TrackPhase\(std::vector -> h_track
// bsym-stub: ^BSMPT::Minimizer::Minimize_gen_all\( -> h_all
// bsym-stub: ^BSMPT::Phase::Get\( -> h_get
// bsym-stub: ^BSMPT::CoexPhases::CalculateTc\( -> h_tc
// bsym-stub: ^BSMPT::Vacuum::MultiStepPTMode0\( -> h_mode0
// bsym-stub: ^BSMPT::Vacuum::MultiStepPTMode1\( -> h_mode1
// bsym-stub: ^BSMPT::Vacuum::MultiStepPTMode2\( -> h_mode2
// bsym-stub: ^BSMPT::Vacuum::MultiStepPTTracer\( -> h_tracer
// bsym-stub: ^BSMPT::Vacuum::PrintPhasesDiagram\( -> h_print
#include "bs.h"
#include <BSMPT/minimizer/Minimizer.h>
#include <BSMPT/minimum_tracer/minimum_tracer.h>
#include <BSMPT/models/ClassPotentialOrigin.h>
#include <BSMPT/utility/asciiplotter/asciiplotter.h>
#include <cmath>
#include <cstring>
#include <new>
using namespace BSMPT;
static double R(const std::string &n, double lo, double hi) { return bs_real(n.c_str(), lo, hi); }
static std::string N(const char *p, int i) { return p + std::to_string(i); }
AsciiPlotter::AsciiPlotter(string, int, int) {}
AsciiPlotter::~AsciiPlotter() {}
void AsciiPlotter::addPlot(vector<double>, vector<double>, string, char) {}
void AsciiPlotter::show(std::stringstream &) {}
void AsciiPlotter::xlabel(string) {}
void AsciiPlotter::ylabel(string) {}
static char modelRaw[sizeof(Class_Potential_Origin)];
static Class_Potential_Origin *model() { return reinterpret_cast<Class_Potential_Origin *>(modelRaw); }
static double ewv = 200;
namespace BSMPT
{
std::vector<double> Class_Potential_Origin::MinimizeOrderVEV(const std::vector<double> &v) const { return {0, 0, v.at(0), 0}; }
} // namespace BSMPT
struct Rng
{
  double lo, hi, mark;
};
static std::vector<Rng> ph; // the phases by their mark
static std::vector<double> globT;
static std::vector<std::vector<double>> globStart;
static std::vector<double> pairT; // temperatures of the pairs
static std::string log_;
static std::vector<std::vector<double>> points; // given to the tracing modes
static int tracesFail, statusAfter, statusAfter2;
static double gapLo, gapHi;
static Minimum at(double T, double mark, int edge = 0)
{
  Minimum m;
  m.temp        = T;
  m.potential   = mark;
  m.point       = {mark};
  m.EdgeOfPhase = edge;
  return m;
}
static Vacuum *vac;
static void push(Vacuum *v, int k)
{
  Phase p;
  p.MinTracer          = v->MinTracer;
  p.T_low              = ph[k].lo;
  p.T_high             = ph[k].hi;
  p.MinimumPhaseVector = {at(p.T_low, ph[k].mark, -1), at((p.T_low + p.T_high) / 2, ph[k].mark), at(p.T_high, ph[k].mark, 1)};
  v->PhasesList.push_back(p);
}
static int nph;
static int newTracked; // phases traced from a point which is not known
extern "C"
{
  std::vector<double> h_all(const std::shared_ptr<Class_Potential_Origin> &, const double &T, std::vector<double> &, const std::vector<double> &start, const int &, bool)
  {
    globT.push_back(T);
    globStart.push_back(start);
    return {!bs_is_sym(T) && T == 0 ? 51000. : !bs_is_sym(T) && T == 300 ? 52000. : 60000.};
  }
  std::vector<Minimum> h_track(MinimumTracer *, const std::vector<double> &p, const double &T, const double &to, const double &, const bool &, const bool &unprotected)
  {
    // a known phase, or a new one from T to its end
    if (unprotected) return {at(to, p.at(0))};
    newTracked++;
    if (tracesFail) return {};
    double end = bs_decide(to > T) ? gapHi : gapLo;
    return {at(T, p.at(0)), at((T + end) / 2, p.at(0)), at(end, p.at(0))};
  }
  Minimum h_get(Phase *p, double T) { return at(T, p->MinimumPhaseVector.at(0).point.at(0)); }
  void h_tc(CoexPhases *c)
  {
    c->crit_temp   = 11;
    c->crit_status = StatusCrit::Success;
  }
  void h_print(Vacuum *, int) {}
  static void traced(Vacuum *v, const char *name, int status)
  {
    log_ += name;
    vac = v;
    for (int k = 0; k < nph; k++)
      push(v, k);
    if (status == 1) v->status_vacuum = StatusTracing::NoGlobMinCoverage;
    if (status == 2) v->status_vacuum = StatusTracing::NoCoverage;
    if (status == 3) v->status_vacuum = StatusTracing::NoMinsAtBoundaries;
  }
  void h_mode0(Vacuum *v, const std::vector<double> &a, const std::vector<double> &b) { points = {a, b}, traced(v, "0", statusAfter); }
  void h_mode1(Vacuum *v, const std::vector<double> &a, const std::vector<double> &b) { points = {a, b}, traced(v, "1", statusAfter); }
  void h_mode2(Vacuum *v, const std::vector<double> &a, const std::vector<double> &b)
  {
    bs_check(points.empty() || (points[0] == a && points[1] == b), "both modes from the same points");
    points = {a, b};
    if (log_ == "1")
    {
      bs_check(v->status_vacuum == StatusTracing::Success, "status forgotten");
      v->PhasesList.clear();
    }
    traced(v, "2", log_ == "1" ? statusAfter2 : statusAfter);
  }
  void h_tracer(Vacuum *v, const double &T, const double &)
  {
    bs_check(bs_same(T, v->T_high), "traced from the highest temperature");
    traced(v, "t", statusAfter);
  }
}
static std::shared_ptr<MinimumTracer> tr;
static std::shared_ptr<Class_Potential_Origin> mp;
static void *vtab[64];
extern "C" double h_ewv(const Class_Potential_Origin *, const std::vector<double> &) { return ewv; }
static void setup()
{
  mp = std::shared_ptr<Class_Potential_Origin>(model(), [](Class_Potential_Origin *) {});
  new ((void *)&model()->VevOrder) std::vector<std::size_t>(1, 2);
  new ((void *)&model()->vevTreeMin) std::vector<double>(1, 246.5);
  auto pm = &Class_Potential_Origin::EWSBVEV;
  long slot;
  std::memcpy(&slot, &pm, sizeof slot);
  vtab[(slot - 1) / 8]  = reinterpret_cast<void *>(&h_ewv);
  *(void ***)modelRaw   = vtab;
  model()->nVEV        = 1;
  model()->NHiggs      = 4;
  tr                   = std::make_shared<MinimumTracer>();
  tr->modelPointer     = mp;
  tr->WhichMinimizer   = 5;
}
static Vacuum *blank()
{
  auto *v              = reinterpret_cast<Vacuum *>(new char[sizeof(Vacuum)]());
  new ((void *)&v->PhasesList) std::vector<Phase>;
  new ((void *)&v->CoexPhasesList) std::vector<CoexPhases>;
  new ((void *)&v->MinTracer) std::shared_ptr<MinimumTracer>(tr);
  new ((void *)&v->modelPointer) std::shared_ptr<Class_Potential_Origin>(mp);
  v->T_low = 0, v->T_high = 300;
  v->status_vacuum     = StatusTracing::Success;
  v->status_coex_pairs = StatusCoexPair::NoCoexPairs;
  return v;
}
// every order of the ends of n phases (the last of them starting at zero with ew)
static void ranges(int n, bool ew = false)
{
  std::vector<int> seen(n, 0);
  ph.resize(n);
  double T = R("T0", 0.1, 50);
  for (int i = 0; i < n; i++)
    ph[i].mark = 1000 * (i + 1);
  if (ew)
  {
    ph[n - 1].lo   = 0;
    ph[n - 1].mark = 246.5;
    seen[n - 1]    = 1;
  }
  for (int k = ew; k < 2 * n; k++)
  {
    std::vector<int> may;
    for (int i = 0; i < n; i++)
      if (seen[i] < 2) may.push_back(i);
    int i = may[may.size() == 1 ? 0 : bs_choice(N("end", k).c_str(), may.size())];
    if (k > ew) T = T + R(N("d", k), 0.01, 50);
    (seen[i]++ ? ph[i].hi : ph[i].lo) = T;
  }
}
static int markOf(const Phase &p) { return (int)(p.MinimumPhaseVector.at(0).point.at(0) / 1000) - 1; }
// the pairs of a list of phases
static void pairs(Vacuum *v, const char *what)
{
  size_t k = 0;
  for (size_t i = 0; i < v->PhasesList.size(); i++)
    for (size_t j = i + 1; j < v->PhasesList.size(); j++)
    {
      auto &f = v->PhasesList[i], &t = v->PhasesList[j];
      bool ov = bs_decide(f.T_low <= t.T_high) && bs_decide(t.T_low <= f.T_high);
      if (!ov) continue;
      bs_check(k < v->CoexPhasesList.size(), what);
      auto &c = v->CoexPhasesList.at(k);
      bs_check(c.coex_pair_id == (int)k, "numbered in this order");
      bs_check(c.false_phase.id == f.id && c.true_phase.id == t.id && markOf(c.false_phase) == markOf(f) && markOf(c.true_phase) == markOf(t), "false phase is the one which starts at the higher temperature");
      bs_check_eq(c.T_low, bs_decide(f.T_low > t.T_low) ? f.T_low : t.T_low, 0, 0, "lowest common temperature");
      bs_check_eq(c.T_high, bs_decide(f.T_high < t.T_high) ? f.T_high : t.T_high, 0, 0, "highest common temperature");
      bs_check(c.crit_temp == 11, "critical temperature calculated");
      k++;
    }
  bs_check(k == v->CoexPhasesList.size(), "only coexisting phases are paired");
}
static void coex()
{
  auto *v = blank();
  int n   = bs_choice("n", 4);
  ranges(n);
  for (int i = 0; i < n; i++)
  {
    push(v, i);
    v->PhasesList.back().id = 7 * i + 2;
  }
  v->setCoexPhases();
  pairs(v, "every pair of coexisting phases");
}
static int cover; // 0 below/above, 1 single, 2 two or more somewhere; gap
static void coverage(const std::vector<std::pair<double, double>> &r, bool &gap, bool &two)
{
  gap = two = false;
  // just below every end but the lowest
  for (auto &e : r)
    for (int hi = 0; hi < 2; hi++)
    {
      double T = hi ? e.second : e.first;
      int n = 0, below = 0;
      for (auto &o : r)
      {
        n += bs_decide(T <= o.second) && bs_decide(T > o.first);
        below += bs_decide(o.first < T);
      }
      if (n >= 2) two = true;
      if (n == 0 && below > 0) gap = true;
    }
}
static void region()
{
  auto *v = blank();
  int n   = bs_choice("n", 3) + 1, st = bs_choice("status", 2);
  ranges(n);
  std::vector<std::pair<double, double>> r;
  for (int i = 0; i < n; i++)
  {
    push(v, i);
    r.push_back({ph[i].lo, ph[i].hi});
  }
  if (st) v->status_vacuum = StatusTracing::NoCoverage;
  v->setCoexRegion(0);
  bool gap, two;
  coverage(r, gap, two);
  bs_check((v->status_coex_pairs == StatusCoexPair::Success) == two, "coexistence found exactly if two phases exist at the same temperature");
  auto want = gap ? StatusTracing::NoCoverage : st ? StatusTracing::NoGlobMinCoverage : StatusTracing::Success;
  bs_check(v->status_vacuum == want, "coverage of the temperature range");
  bs_check((int)v->PhasesList.size() == n && newTracked == 0, "nothing traced");
}

// the constructor: which mode is called how, what happens after each outcome
static void run(int mode, int st, bool only, bool &gap, bool &two)
{
  std::vector<std::pair<double, double>> r;
  double top = 0;
  for (auto &p : ph)
  {
    r.push_back({p.lo, p.hi});
    top = bs_decide(p.hi > top) ? p.hi : top;
  }
  coverage(r, gap, two);
  gapLo = R("T0", 0.1, 50) / 2, gapHi = top + 1; // a patch covers everything
  Vacuum v(0, 300, tr, mp, mode, 10, only);
  bool goOn  = nph > 0 && (st == 0 || (mode != 0 && st == 2));
  bool patch = goOn && gap && mode != 0 && !tracesFail;
  if (nph == 0)
  {
    bs_check(v.status_vacuum == StatusTracing::Failure, "no phases found");
    bs_check(v.PhasesList.empty() && v.CoexPhasesList.empty(), "no pairs");
    return;
  }
  if (!goOn)
  {
    bs_check(v.CoexPhasesList.empty(), "no pairs after a failure");
    bs_check(v.status_vacuum == (st == 1 ? StatusTracing::NoGlobMinCoverage : st == 2 ? StatusTracing::NoCoverage : StatusTracing::NoMinsAtBoundaries), "status kept");
    return;
  }
  bs_check((int)v.PhasesList.size() == nph + patch, "phases found");
  for (size_t i = 0; i < v.PhasesList.size(); i++)
  {
    bs_check(v.PhasesList[i].id == (int)i, "phases numbered");
    if (i) bs_check(v.PhasesList[i - 1].T_high >= v.PhasesList[i].T_high, "phases in the order of falling temperature");
  }
  if (patch)
    bs_check(v.status_vacuum == StatusTracing::Success, "gap patched");
  else
    bs_check(v.status_vacuum == (gap ? StatusTracing::NoCoverage : st == 2 ? StatusTracing::NoGlobMinCoverage : StatusTracing::Success), "coverage of the temperature range");
  bool coexist = two || patch;
  bs_check((v.status_coex_pairs == StatusCoexPair::Success) == coexist, "coexistence");
  if (only || !coexist)
    bs_check(v.CoexPhasesList.empty(), "no pairs");
  else
    pairs(&v, "every pair of coexisting phases");
}
static void vacuum(int n)
{
  nph         = n;
  statusAfter = n == 3 ? 0 : bs_choice("after", 2) * 2;
  tracesFail  = n == 3 ? 0 : bs_choice("fails", 2);
  ranges(nph, true);
  bool gap, two;
  int mode = n == 3 ? -1 : bs_choice("mode", 2) - 1;
  run(mode, statusAfter, false, gap, two);
}
static void modes()
{
  int mode    = bs_choice("mode", 5) - 1;
  nph         = bs_choice("phases", 3);
  statusAfter = bs_choice("after", 4);
  if (mode == 3) statusAfter2 = bs_choice("after2", 2) * 2;
  int only = bs_choice("only", 2), ht = bs_choice("highT", 2);
  int nonbfb = mode >= 0 ? bs_choice("nonbfb", 2) : 0;
  ph         = {{0, 120, 246.5}, {90, 300, 1000}};
  ph.resize(nph);
  tracesFail = 1;
  if (ht) tr->HighTemperatureVEV = {77};
  if (nonbfb)
  {
    ewv = 2e10;
    Vacuum v(0, 300, tr, mp, mode, 10, only);
    bs_check(log_.empty() && v.status_vacuum == StatusTracing::Failure, "unbounded potentials are rejected");
    bs_check(v.PhasesList.empty() && v.CoexPhasesList.empty(), "nothing traced");
    return;
  }
  const char *want[] = {"t", "0", "1", "2", "1"};
  std::string w      = want[mode + 1];
  if (mode == 3 && statusAfter == 1) w = "12";
  bool gap, two;
  run(mode, w == "12" ? statusAfter2 : statusAfter, only, gap, two);
  bs_check(log_ == w, "traced in the requested mode");
  if (mode >= 0)
  {
    bs_check(globT.size() >= 1 && globT[0] == 0 && globStart[0] == std::vector<double>{246.5}, "low temperature minimum from the vacuum");
    bs_check(points.size() == 2 && points[0] == std::vector<double>{51000}, "low temperature point");
    if (ht)
      bs_check(points[1] == std::vector<double>{77}, "known high temperature minimum");
    else
      bs_check(globT.size() >= 2 && globT[1] == 300 && globStart[1] == std::vector<double>{0} && points[1] == std::vector<double>{52000}, "high temperature point from the origin");
  }
}
extern "C" void bs_harness_main()
{
  std::string cs = bs_case();
  setup();
  if (cs == "coex") coex();
  if (cs == "region") region();
  if (cs == "vacuum2") vacuum(2);
  if (cs == "vacuum3") vacuum(3);
  if (cs == "modes") modes();
  bs_reach("end");
}
