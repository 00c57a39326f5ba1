// Minimum tracer: the sector of a minimum, phases as sorted lists of minima,
// comparison with the global minimum, symmetry restoration, grids, warped paths.
// bsym-src: minimum_tracer/minimum_tracer.cpp utility/utility.cpp utility/Logger.cpp utility/NumericalDerivatives.cpp
// bsym-stub: ^BSMPT::MinimumTracer::TrackPhase\(std::vector -> h_track
// bsym-stub: ^BSMPT::Minimizer::Minimize_gen_all\( -> h_all
#include "bs.h"
#include <BSMPT/minimizer/Minimizer.h>
#include <BSMPT/minimum_tracer/minimum_tracer.h>
#include <BSMPT/models/ClassPotentialOrigin.h>
#include <BSMPT/utility/asciiplotter/asciiplotter.h>
#include <cmath>
#include <cstring>
#include <new>
using namespace BSMPT;
static double R(const std::string &n, double lo, double hi) { return bs_real(n.c_str(), lo, hi); }
static std::string N(const char *p, int i) { return p + std::to_string(i); }
AsciiPlotter::AsciiPlotter(string, int, int) {}
AsciiPlotter::~AsciiPlotter() {}
void AsciiPlotter::addPlot(vector<double>, vector<double>, string, char) {}
void AsciiPlotter::show(std::stringstream &) {}
void AsciiPlotter::xlabel(string) {}
void AsciiPlotter::ylabel(string) {}
static char modelRaw[sizeof(Class_Potential_Origin)];
static void *vtab[64];
static double (*potential)(const std::vector<double> &, double, int, int);
extern "C" double h_veff(const Class_Potential_Origin *o, const std::vector<double> &v, double T, int diff, int order)
{
  bs_check((const void *)o == modelRaw, "model");
  return potential(v, T, diff, order);
}
static std::vector<double> globAt, globStart;
static double globT;
static int globs;
extern "C" std::vector<double> h_all(const std::shared_ptr<Class_Potential_Origin> &, const double &T, std::vector<double> &, const std::vector<double> &start, const int &w, bool m)
{
  globs++;
  globT = T, globStart = start;
  bs_check(w == 5 && m, "minimizers as requested");
  return globAt;
}
static double trackP, trackT, trackTo, trackD;
static int tracks, answer;
static Minimum at(double T)
{
  Minimum m;
  m.temp      = T;
  m.potential = bs_fresh("Vnew", -1e8, 1e8);
  m.point     = {m.potential};
  return m;
}
extern "C" std::vector<Minimum> h_track(MinimumTracer *, const std::vector<double> &p, const double &T, const double &to, const double &dT, const bool &, const bool &unprotected)
{
  tracks++;
  bs_check(p.size() == 1 && unprotected, "tracked from a minimum of the phase");
  trackP = p[0], trackT = T, trackTo = to, trackD = dT;
  if (answer == 0) return {};
  if (answer == 1) return {at(to)};
  if (answer == 2) return {at(T + (to - T) * 0.25), at(to)};
  return {at(T + (to - T) * 0.25)};
}
static std::vector<int> order; // field of every vacuum direction
static int nh;
static double ewv;
static std::vector<double> ewAt;
namespace BSMPT
{
std::vector<double> Class_Potential_Origin::MinimizeOrderVEV(const std::vector<double> &v) const
{
  std::vector<double> r(nh, 0);
  for (size_t i = 0; i < order.size(); i++)
    r[order[i]] = v.at(i);
  return r;
}
double Class_Potential_Origin::EWSBVEV(const std::vector<double> &v) const
{
  ewAt = v;
  return ewv;
}
} // namespace BSMPT
static std::shared_ptr<Class_Potential_Origin> makeModel()
{
  auto *m = reinterpret_cast<Class_Potential_Origin *>(modelRaw);
  auto pm = static_cast<double (Class_Potential_Origin::*)(const std::vector<double> &, double, int, int) const>(&Class_Potential_Origin::VEff);
  long slot;
  std::memcpy(&slot, &pm, sizeof slot);
  vtab[(slot - 1) / 8] = reinterpret_cast<void *>(&h_veff);
  *(void ***)modelRaw  = vtab;
  new ((void *)&m->VevOrder) std::vector<std::size_t>(order.begin(), order.end());
  m->nVEV   = order.size();
  m->NHiggs = nh;
  return std::shared_ptr<Class_Potential_Origin>(m, [](Class_Potential_Origin *) {});
}
static MinimumTracer *tracer()
{
  auto *t              = new MinimumTracer;
  t->modelPointer      = makeModel();
  t->WhichMinimizer    = 5;
  t->UseMultithreading = true;
  return t;
}
static Eigen::MatrixXd flip(int dim, int mask)
{
  Eigen::MatrixXd m = Eigen::MatrixXd::Identity(dim, dim);
  for (int i = 0; i < dim; i++)
    if (mask >> i & 1) m(i, i) = -1;
  return m;
}
// every group of sign flips, in the order in which they are found: a subset of
// the masks closed under xor
static std::vector<int> group(int dim)
{
  static const int gens[][3] = {{0, 0, 0}, {1, 0, 0}, {2, 0, 0}, {3, 0, 0}, {1, 2, 0}, {4, 0, 0}, {5, 0, 0}, {6, 0, 0}, {7, 0, 0}, {1, 4, 0}, {1, 6, 0}, {2, 4, 0}, {2, 5, 0}, {3, 4, 0}, {3, 6, 0}, {1, 2, 4}, {6, 11, 0}, {8, 3, 5}, {12, 3, 0}, {15, 5, 0}};
  int g                     = bs_choice("group", dim == 2 ? 5 : dim == 3 ? 16 : 20);
  std::vector<int> el;
  for (int m = 0; m < 1 << dim; m++)
  {
    bool in = false;
    for (int c = 0; c < 8; c++)
    {
      int x = 0;
      for (int k = 0; k < 3; k++)
        if (c >> k & 1) x ^= gens[g][k];
      in = in || x == m;
    }
    if (in) el.push_back(m);
  }
  // as constructed: by number of flips, then the first fields first
  std::vector<int> out;
  for (int n = 0; n <= dim; n++)
  {
    std::string bit(n, 1);
    bit.resize(dim, 0);
    do
    {
      int m = 0;
      for (int i = 0; i < dim; i++)
        if (bit[i]) m |= 1 << i;
      for (int e : el)
        if (e == m) out.push_back(m);
    } while (std::prev_permutation(bit.begin(), bit.end()));
  }
  return out;
}
static void canonical()
{
  int dim = bs_choice("dim", 3) + 2;
  auto *t = tracer();
  auto g  = group(dim);
  for (int m : g)
    t->GroupElements.push_back(flip(dim, m));
  std::vector<double> v(dim);
  for (int i = 0; i < dim; i++)
  {
    v[i] = R(N("v", i), 1e-3, 300);
    if (bs_choice(N("neg", i).c_str(), 2)) v[i] = -v[i];
  }
  std::vector<double> r = v, prev;
  t->ReduceVEV(r);
  // in the group
  bool found = false;
  for (int m : g)
  {
    bool same = true;
    for (int i = 0; i < dim; i++)
      same = same && bs_decide(r[i] == (m >> i & 1 ? -v[i] : v[i]));
    found = found || same;
  }
  bs_check(found, "reduced by an element of the group");
  // every equivalent vacuum is reduced to the same one, and reducing again changes nothing
  for (int m : g)
  {
    std::vector<double> w(dim);
    for (int i = 0; i < dim; i++)
      w[i] = m >> i & 1 ? -v[i] : v[i];
    t->ReduceVEV(w);
    for (int i = 0; i < dim; i++)
      bs_check(bs_decide(w[i] == r[i]), "equivalent vacua have one representative");
  }
  Minimum mm;
  mm.point = v;
  t->ReduceVEV(mm);
  for (int i = 0; i < dim; i++)
    bs_check(bs_decide(mm.point[i] == r[i]), "minimum reduced as its point");
  // no symmetry known: nothing happens
  t->GroupElements.clear();
  std::vector<double> w = v;
  t->ReduceVEV(w);
  for (int i = 0; i < dim; i++)
    bs_check(bs_same(w[i], v[i]), "no symmetries, nothing changes");
}
// sorted, unique temperatures and the range of the phase
static void sorted(const Phase &p, const std::vector<double> &T, const char *what)
{
  size_t n = p.MinimumPhaseVector.size();
  for (size_t i = 0; i + 1 < n; i++)
    bs_check(p.MinimumPhaseVector[i].temp < p.MinimumPhaseVector[i + 1].temp, what);
  for (double t : T)
  {
    int c = 0;
    for (auto &m : p.MinimumPhaseVector)
      c += bs_decide(m.temp == t);
    bs_check(c == 1, "every temperature once");
  }
  for (auto &m : p.MinimumPhaseVector)
  {
    bool c = false;
    for (size_t k = 0; k < T.size(); k++)
      if (bs_decide(m.temp == T[k])) c = true;
    bs_check(c, "only minima added");
    bs_check(m.point.size() == 1 && bs_same(m.point[0], m.potential), "point and potential stay with their temperature");
  }
}
static void add()
{
  const int n = 5;
  Phase p;
  std::vector<double> T;
  for (int i = 0; i < n; i++)
  {
    Minimum m;
    m.temp      = R(N("T", i), 0, 300);
    m.potential = R(N("V", i), -1e8, 1e8);
    m.point     = {m.potential};
    if (i == 0) m.EdgeOfPhase = 0;
    p.Add(m);
    if (i == 0) p.T_low = p.T_high = m.temp; // as the phase's constructor sets them
    T.push_back(m.temp);
    sorted(p, T, "minima in the order of their temperature");
    bs_check_eq(p.T_low, p.MinimumPhaseVector.front().temp, 0, 0, "lowest temperature");
    bs_check_eq(p.T_high, p.MinimumPhaseVector.back().temp, 0, 0, "highest temperature");
  }
  // the first minimum added at a temperature stays
  for (auto &m : p.MinimumPhaseVector)
    for (int i = 0; i < n; i++)
      if (bs_decide(m.temp == T[i]))
      {
        bs_check(bs_same(m.potential, R(N("V", i), -1e8, 1e8)), "the first minimum at a temperature is kept");
        break;
      }
}
static void get()
{
  const int n = 3;
  auto *t     = tracer();
  Phase p;
  p.MinTracer = std::shared_ptr<MinimumTracer>(t, [](MinimumTracer *) {});
  std::vector<double> T(n);
  for (int i = 0; i < n; i++)
  {
    T[i] = i ? T[i - 1] + R(N("d", i), 0.5, 100) : R("T0", 0, 100);
    Minimum m;
    m.temp      = T[i];
    m.potential = R(N("V", i), -1e8, 1e8);
    m.point     = {m.potential};
    p.MinimumPhaseVector.push_back(m);
  }
  p.T_low = T[0], p.T_high = T[n - 1];
  answer  = bs_choice("answer", 4);
  int k   = bs_choice("known", n + 1);
  if (k < n)
  { // known: the tracer is not needed
    Minimum m = p.Get(T[k]);
    bs_check(tracks == 0 && bs_same(m.temp, T[k]) && bs_same(m.potential, R(N("V", k), -1e8, 1e8)) && bs_same(m.point[0], m.potential), "known minimum");
    return;
  }
  double x = R("T", 0, 300);
  int near = 0;
  for (int i = 0; i < n; i++)
  {
    double u = x - T[i];
    bs_assume(u > 1e-3 || u < -1e-3);
    if (i + 1 < n)
    {
      double mid = (T[i] + T[i + 1]) / 2;
      bs_assume(x > mid + 1e-3 || x < mid - 1e-3);
      if (bs_decide(x > mid)) near = i + 1;
    }
  }
  Minimum m = p.Get(x);
  bs_check(tracks == 1, "tracked once");
  bs_check(bs_same(trackP, R(N("V", near), -1e8, 1e8)) && bs_same(trackT, T[near]), "tracked from the nearest minimum");
  bs_check(bs_same(trackTo, x), "tracked to the temperature");
  bs_check_eq(trackD, x - T[near], 1e-12, 0, "in one step");
  if (answer == 0)
  {
    bs_check(bs_same(m.temp, T[near]) && bs_same(m.potential, R(N("V", near), -1e8, 1e8)), "nearest minimum if tracking fails");
    sorted(p, T, "minima unchanged");
    return;
  }
  std::vector<double> all = T;
  double q                = T[near] + (x - T[near]) * 0.25;
  if (answer >= 2) all.push_back(q);
  if (answer <= 2) all.push_back(x);
  bs_check_eq(m.temp, answer == 3 ? q : x, 0, 0, "minimum at the temperature");
  bs_check(bs_same(m.point[0], m.potential), "minimum tracked");
  sorted(p, all, "minima in the order of their temperature");
  bs_check_eq(p.T_low, p.MinimumPhaseVector.front().temp, 0, 0, "lowest temperature of the phase");
  bs_check_eq(p.T_high, p.MinimumPhaseVector.back().temp, 0, 0, "highest temperature of the phase");
  bool in = false;
  for (auto &e : p.MinimumPhaseVector)
    in = in || (bs_same(e.temp, m.temp) && bs_same(e.potential, m.potential));
  bs_check(in, "minimum kept in the phase");
}
static void same()
{
  double p = R("prec", 1e-4, 0.5), z = R("zero", 1e-6, 1e-2);
  int dim = 2;
  std::vector<double> a(dim), b(dim);
  bool all = true, all1 = true;
  int flipOk = bs_choice("flip", 2);
  auto eq = [&](double x, double y)
  {
    if (bs_decide(std::abs(x) < z) && bs_decide(std::abs(y) < z)) return true;
    return (bool)bs_decide(std::abs(x - y) < std::abs(x + y) / 2 * p);
  };
  for (int i = 0; i < dim; i++)
  {
    a[i] = R(N("a", i), 0, 300), b[i] = R(N("b", i), 0, 300);
    if (bs_choice(N("na", i).c_str(), 2)) a[i] = -a[i];
    if (bs_choice(N("nb", i).c_str(), 2)) b[i] = -b[i];
    all  = all && eq(a[i], b[i]);
    all1 = all1 && (eq(a[i], b[i]) || eq(a[i], -b[i]));
  }
  bs_check(almost_the_same(a[0], b[0], p, z) == eq(a[0], b[0]), "numbers are the same up to the relative precision");
  bs_check(almost_the_same(a, b, flipOk, p, z) == (flipOk ? all1 : all), flipOk ? "vectors are the same up to signs" : "vectors are the same");
  bool thrown = false;
  try
  {
    b.push_back(1);
    almost_the_same(a, b);
  }
  catch (const std::runtime_error &)
  {
    thrown = true;
  }
  bs_check(thrown, "vectors of different size are rejected");
}
static const int dv[] = {1, 1, 2, 3, 4, 5, 6};
static void grid()
{
  int n = bs_choice("n", 7), dim = 3, k = bs_choice("k", dim);
  std::vector<double> a(dim), b(dim);
  for (int i = 0; i < dim; i++)
    a[i] = R(N("a", i), -300, 300), b[i] = R(N("b", i), -300, 300);
  double lo = R("lo", -300, 300), hi = R("hi", -300, 300);
  auto g = Create1DimGrid(a, k, lo, hi, n);
  bs_check((int)g.size() == n + 1, "steps of the grid");
  for (int i = 0; i <= n; i++)
    for (int d = 0; d < dim; d++)
      bs_check_eq(g[i].at(d), d == k && n > 0 ? lo + (hi - lo) * i / dv[n] : a[d], 1e-12, 1e-12, "grid in one direction");
  g = Create1DimGrid(a, b, n);
  bs_check((int)g.size() == n + 1, "points of the line");
  for (int i = 0; i <= n; i++)
    for (int d = 0; d < dim; d++)
      bs_check_eq(g[i].at(d), a[d] + (b[d] - a[d]) * i / dv[n], 1e-12, 1e-12, "grid between two points");
}
static void warp()
{
  int n = 4, dim = 2;
  std::vector<double> T1(dim), F1(dim), T2(dim), F2(dim), s(n);
  std::vector<std::vector<double>> path(n, std::vector<double>(dim));
  int equal = bs_choice("equal", 3); // direction in which the old vacua coincide
  for (int d = 0; d < dim; d++)
  {
    T1[d] = R(N("T1_", d), -300, 300), T2[d] = R(N("T2_", d), -300, 300), F2[d] = R(N("F2_", d), -300, 300);
    F1[d] = d == equal ? T1[d] : T1[d] + (bs_choice(N("dir", d).c_str(), 2) ? 1 : -1) * R(N("d", d), 0.1, 300);
    if (d == equal) F2[d] = T2[d];
    for (int i = 0; i < n; i++)
      path[i][d] = i == 0 ? T1[d] : i == n - 1 ? F1[d] : R(N("p", i * dim + d), -300, 300);
  }
  auto *t = tracer();
  auto r  = t->WarpPath(path, T1, F1, T2, F2);
  bs_check((int)r.size() == n, "points of the path");
  for (int d = 0; d < dim; d++)
  {
    bs_check_eq(r[0].at(d), T2[d], 1e-12, 1e-9, "starts at the true vacuum");
    bs_check_eq(r[n - 1].at(d), F2[d], 1e-12, 1e-9, "ends at the false vacuum");
    for (int i = 1; i + 1 < n; i++)
      if (d == equal)
        bs_check_eq(r[i].at(d) - T2[d], path[i][d] - T1[d], 1e-12, 1e-9, "distance from the vacua kept");
      else
        bs_check_eq((r[i].at(d) - T2[d]) * (F1[d] - T1[d]), (path[i][d] - T1[d]) * (F2[d] - T2[d]), 1e-10, 1e-7, "relative position between the vacua kept");
  }
}
static void globmin()
{
  nh    = 4;
  order = {3, 1};
  auto *t      = tracer();
  int sym      = bs_choice("sym", 2);
  if (sym) t->GroupElements = {flip(2, 0), flip(2, 1), flip(2, 2), flip(2, 3)};
  Minimum m;
  m.temp        = R("T", 0, 300);
  m.is_glob_min = bs_choice("before", 2);
  globAt.resize(2), m.point.resize(2);
  double d2 = 0;
  for (int i = 0; i < 2; i++)
  { // distance u up to signs (with a symmetry), far away otherwise
    double g = R(N("g", i), 3, 300), u = R(N("u", i), -2, 2);
    int sg   = bs_choice(N("sg", i).c_str(), 2), sp = sym ? bs_choice(N("sp", i).c_str(), 2) : sg;
    globAt[i]  = sg ? -g : g;
    m.point[i] = sp ? -(g + u) : g + u;
    d2 += u * u;
  }
  std::vector<double> p = m.point;
  t->IsGlobMin(m);
  bs_check(globs == 1 && bs_same(globT, m.temp), "global minimum at the temperature of the minimum");
  bs_assume(d2 < 1 - 1e-6 || d2 > 1 + 1e-6);
  bs_check(m.is_glob_min == bs_decide(d2 < 1), "global minimum within 1 GeV");
  bs_check(bs_same(m.point[0], p[0]) && bs_same(m.point[1], p[1]), "minimum unchanged");
  // direct
  std::vector<double> check, full = t->GetGlobalMinimum(R("T2", 0, 300));
  bs_check(full.size() == 4 && full[0] == 0 && full[2] == 0 && bs_same(full[3], globAt[0]) && bs_same(full[1], globAt[1]), "global minimum as all fields");
  bs_check(bs_same(globT, R("T2", 0, 300)) && globStart.size() == 4, "global minimum at the requested temperature");
  for (double s : globStart)
    bs_check(s == 0, "from the origin");
  auto v = t->ConvertToVEVDim(full);
  bs_check(v.size() == 2 && bs_same(v[0], globAt[0]) && bs_same(v[1], globAt[1]), "vacuum directions of a point");
}
static void flat()
{
  auto *t = tracer();
  int on  = bs_choice("found", 2);
  t->flat_dirs_found = on;
  int which          = bs_choice("pairs", 4);
  if (which == 1) t->flat_2D_dirs = {{0, 2}};
  if (which == 2) t->flat_2D_dirs = {{0, 1}, {2, 3}};
  if (which == 3) t->flat_2D_dirs = {{0, 1}, {0, 2}, {1, 2}};
  std::vector<double> p(4), q;
  for (int i = 0; i < 4; i++)
    p[i] = R(N("p", i), 0.1, 300) * (bs_choice(N("neg", i).c_str(), 2) ? -1 : 1);
  q = p;
  t->ConvertToNonFlatDirections(q);
  if (!on || which == 0)
  {
    for (int i = 0; i < 4; i++)
      bs_check(bs_same(p[i], q[i]), "no flat direction, nothing changes");
    return;
  }
  auto sq = [&](double x) { return x * x; };
  if (which == 1)
  {
    bs_check(q[2] == 0 && bs_same(q[1], p[1]) && bs_same(q[3], p[3]), "flat direction removed");
    bs_check_eq(sq(q[0]), sq(p[0]) + sq(p[2]), 1e-12, 0, "length kept");
  }
  if (which == 2)
  {
    bs_check(q[1] == 0 && q[3] == 0, "flat directions removed");
    bs_check_eq(sq(q[0]), sq(p[0]) + sq(p[1]), 1e-12, 0, "length kept");
    bs_check_eq(sq(q[2]), sq(p[2]) + sq(p[3]), 1e-12, 0, "second length kept");
  }
  if (which == 3)
  {
    bs_check(q[1] == 0 && q[2] == 0 && bs_same(q[3], p[3]), "flat directions removed");
    bs_check_eq(sq(q[0]), sq(p[0]) + sq(p[1]) + sq(p[2]), 1e-12, 0, "length kept");
  }
}
static void statuses()
{
  auto *t = tracer();
  bs_check(t->GetStatusNLOVEV(true) == StatusNLOStability::Success && t->GetStatusNLOVEV(false) == StatusNLOStability::NoNLOStability, "status of the NLO stability");
  int s  = bs_int("s", -3, 6);
  auto r = t->GetStatusEWSR(s);
  auto e = s == 3 ? StatusEWSR::EWSymRes : s == 2 ? StatusEWSR::EWSymNonRes : s == 1 ? StatusEWSR::FlatRegion : s == -1 ? StatusEWSR::NotBFB : StatusEWSR::Failure;
  bs_check(r == e, "status of the symmetry restoration");
}
extern "C" void bs_harness_main()
{
  std::string cs = bs_case();
  nh             = 4;
  order          = {3, 1};
  if (cs == "reduce") canonical();
  if (cs == "add") add();
  if (cs == "get") get();
  if (cs == "same") same();
  if (cs == "grid") grid();
  if (cs == "warp") warp();
  if (cs == "globmin") globmin();
  if (cs == "flat") flat();
  if (cs == "status") statuses();
  bs_reach("end");
}
