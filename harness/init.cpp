// A model is the function of the current input line alone: columns set the
// documented parameters, and nothing of an earlier point survives.
// bsym-src: @models
// bsym-stub: ^BSMPT::Class_Potential_Origin::CalculatePhysicalCouplings\(\) -> h_pc
// bsym-stub: ^BSMPT::Class_Potential_Origin::WeinbergFirstDerivative\(\) -> h_w1
// bsym-stub: ^BSMPT::Class_Potential_Origin::WeinbergSecondDerivative\(\) -> h_w2
// bsym-stub: ^std::(istream|basic_istream<char, std::char_traits<char> >)::operator>>\(double ?&\) -> h_in
#include "models.h"
#include <map>
static int couplingCalls;
// the numbers of the current line
static Vec line;
static size_t linePos;
extern "C"
{
  std::istream *h_in(std::istream *is, double *d)
  {
    if (linePos < line.size()) *d = line[linePos++];
    return is;
  }
  void h_pc(CPO *m)
  {
    couplingCalls++;
    if (!m->SetCurvatureDone) m->SetCurvatureArrays();
    m->CalcCouplingsdone = true;
  }
  // arbitrary one-loop derivatives, depending on the point and the scale
  Vec h_w1(const CPO *m)
  {
    bs_check(m->CalcCouplingsdone, "couplings are calculated before the counterterms");
    Vec r;
    for (size_t i = 0; i < m->NHiggs; i++)
      r.push_back(R("w" + std::to_string(i), -1e4, 1e4) + 0.01 * m->scale + m->vevTree[i]);
    return r;
  }
  Vec h_w2(const CPO *m)
  {
    bs_check(m->CalcCouplingsdone, "couplings are calculated before the counterterms");
    Vec r;
    for (size_t i = 0; i < m->NHiggs; i++)
      for (size_t j = 0; j < m->NHiggs; j++)
      {
        size_t a = std::min(i, j), b = std::max(i, j);
        r.push_back(R("w" + std::to_string(a) + "_" + std::to_string(b), -1e4, 1e4) + 0.1 * m->scale + m->Curvature_Higgs_L2[i][j]);
      }
    return r;
  }
}
static void eq(double a, double b, const char *l) { bs_check_eq(a, b, 1e-10, 1e-10, l); }
static void eq(std::complex<double> a, std::complex<double> b, const char *l) { eq(a.real(), b.real(), l), eq(a.imag(), b.imag(), l); }
template <class T> static void eq(const std::vector<T> &a, const std::vector<T> &b, const char *l)
{
  bs_check(a.size() == b.size(), l);
  for (size_t i = 0; i < a.size() && i < b.size(); i++)
    eq(a[i], b[i], l);
}
static void same(CPO &a, CPO &b, const char *l)
{
  eq(a.parStored, b.parStored, l), eq(a.parCTStored, b.parCTStored, l), eq(a.scale, b.scale, l);
  eq(a.vevTree, b.vevTree, l), eq(a.vevTreeMin, b.vevTreeMin, l);
  eq(a.Curvature_Higgs_L1, b.Curvature_Higgs_L1, l), eq(a.Curvature_Higgs_L2, b.Curvature_Higgs_L2, l);
  eq(a.Curvature_Higgs_L3, b.Curvature_Higgs_L3, l), eq(a.Curvature_Higgs_L4, b.Curvature_Higgs_L4, l);
  eq(a.Curvature_Higgs_CT_L1, b.Curvature_Higgs_CT_L1, l), eq(a.Curvature_Higgs_CT_L2, b.Curvature_Higgs_CT_L2, l);
  eq(a.Curvature_Higgs_CT_L3, b.Curvature_Higgs_CT_L3, l), eq(a.Curvature_Higgs_CT_L4, b.Curvature_Higgs_CT_L4, l);
  eq(a.Curvature_Gauge_G2H2, b.Curvature_Gauge_G2H2, l), eq(a.Curvature_Quark_F2H1, b.Curvature_Quark_F2H1, l);
  eq(a.Curvature_Lepton_F2H1, b.Curvature_Lepton_F2H1, l), eq(a.Curvature_Quark_F2, b.Curvature_Quark_F2, l);
  eq(a.Curvature_Lepton_F2, b.Curvature_Lepton_F2, l);
  eq(a.DebyeHiggs, b.DebyeHiggs, l), eq(a.DebyeGauge, b.DebyeGauge, l), eq(a.HiggsVev, b.HiggsVev, l);
}
// documented order of the input columns (headers of the example input files)
static std::vector<std::string> columns(const ModelSpec &s)
{
  if (s.name == "R2HDM") return {"type", "L1", "L2", "L3", "L4", "L5", "m12sq", "tanbeta"};
  if (s.name == "C2HDM") return {"type", "L1", "L2", "L3", "L4", "ReL5", "ImL5", "m12sq", "tanbeta"};
  if (s.name == "N2HDM") return {"type", "L1", "L2", "L3", "L4", "L5", "L6", "L7", "L8", "vs", "tanbeta", "m12sq"};
  if (s.name == "CPintheDark")
    return {"mHsm", "mH1", "mH2", "mH3", "mHp", "R11", "R12", "R13", "R21", "R22", "R23", "R31", "R32", "R33", "L1", "L2", "L3", "L4", "L5", "L6", "L7", "L8",
            "ReA", "ImA", "m11s", "m22s", "mSs", "v", "a1", "a2"};
  return parNames(s);
}
extern "C" void bs_harness_main()
{
  std::string cs = bs_case();
  ModelSpec s    = specFromCase(cs);
  auto has       = [&](const char *t) { return cs.find(t) != std::string::npos; };
  ISMConstants sm = GetSMConstants();
  auto names = parNames(s);
  Vec pa = symPar(s, "A_"), pb = symPar(s, "", false, has("vs0"), has("va0"));
  for (size_t i = 0; i < names.size(); i++)
    if (names[i] == "type") pa[i] = s.type % 4 + 1;
  bool idx = has("idx");
  auto feed = [&](const Vec &p)
  {
    std::map<std::string, double> val;
    for (size_t i = 0; i < names.size(); i++)
      val[names[i]] = p[i];
    line.clear(), linePos = 0;
    if (idx) line.push_back(77);
    int junk = 0;
    for (auto &c : columns(s))
      line.push_back(val.count(c) ? val[c] : 1000.0 + junk++);
    // the text of the line (its numbers are symbolic in the symbolic run)
    std::string text;
    for (double x : line)
    {
      char b[40];
      if (bs_symbolic())
        snprintf(b, sizeof b, "1");
      else
        snprintf(b, sizeof b, "%.17g", x);
      text += (text.empty() ? "" : "\t") + std::string(b);
    }
    return text;
  };
  std::string head = idx ? "\tc1\tc2" : "c1\tc2";
  bs_generic(2);
  auto m1 = newModel(s, sm), m2 = newModel(s, sm), m3 = newModel(s, sm);
  for (auto *m : {m1.get(), m2.get(), m3.get()})
    m->setUseIndexCol(head);
  bs_check(m1->getUseIndexCol() == idx, "index column is recognised from the header");
  // fresh object, input line
  auto r2 = m2->initModel(feed(pb));
  eq(r2.first, pb, "input columns set the documented parameters");
  eq(r2.second, m2->parCTStored, "reported counterterms are the ones in use");
  // fresh object, parameter vector
  line.clear(), linePos = 0;
  Vec c3 = m3->initModel(pb);
  eq(c3, r2.second, "parameter vector and input line agree");
  same(*m2, *m3, "parameter vector and input line agree");
  // used object: another point, another line, then the point itself
  m1->initModel(pa);
  m1->resetScale(333.0);
  if (has("line"))
  {
    m1->initModel(feed(pa));
  }
  auto r1 = m1->initModel(feed(pb));
  eq(r1.first, pb, "input columns set the documented parameters");
  same(*m1, *m3, "nothing of an earlier point survives");
  // changing the scale afterwards
  double sc = R("scale", 100, 1000);
  Vec a = m1->resetScale(sc), b = m3->resetScale(sc);
  eq(a, b, "nothing of an earlier point survives");
  same(*m1, *m3, "nothing of an earlier point survives");
  eq(m1->scale, sc, "new scale is in use");
  m3->scale = 4.0;
  Vec back  = m3->resetScale(sc);
  eq(back, a, "counterterms depend on the scale alone");
  // calling it twice changes nothing
  back = m3->resetScale(sc);
  eq(back, a, "counterterms depend on the scale alone");
  bs_generic(0);
  // the couplings of the Lagrangian carry the documented input values
  LagPar q = treeLag(s, *m1);
  std::map<std::string, double> val;
  for (size_t i = 0; i < names.size(); i++)
    val[names[i]] = pb[i];
  auto want = [&](double got, const char *n) { eq(got, val[n], "Lagrangian parameter equals its input"); };
  Vec vt;
  if (s.name == "SM")
  {
    eq(q.lam, sm.C_MassSMHiggs * sm.C_MassSMHiggs / (2 * sm.C_vev0 * sm.C_vev0), "Lagrangian parameter equals its input");
    vt = {sm.C_vev0};
  }
  else if (s.name == "CxSM")
  {
    want(q.lam, "lambda"), want(q.d2l, "delta2"), want(q.b2, "b2"), want(q.d2, "d2"), want(q.b1i, "Imb1");
    if (!has("va0")) want(q.a1i, "Ima1");
    if (has("va0") && !has("vs0")) want(q.a1r, "Rea1");
    if (has("va0") && has("vs0")) want(q.b1r, "Reb1");
    vt = {val["vh"], val["vs"], val["va"]};
  }
  else if (s.name == "CPintheDark")
  {
    want(q.m11, "m11s"), want(q.m22, "m22s"), want(q.mS, "mSs"), want(q.ar, "ReA"), want(q.ai, "ImA");
    want(q.l1, "L1"), want(q.l2, "L2"), want(q.l3, "L3"), want(q.l4, "L4"), want(q.l5r, "L5"), want(q.n6, "L6"), want(q.n7, "L7"), want(q.n8, "L8");
    vt = {0, sm.C_vev0, 0, 0, 0};
  }
  else
  {
    want(q.l1, "L1"), want(q.l2, "L2"), want(q.l3, "L3"), want(q.l4, "L4"), want(q.m12r, "m12sq");
    want(q.l5r, s.name == "C2HDM" ? "ReL5" : "L5");
    if (s.name == "C2HDM") want(q.l5i, "ImL5");
    if (s.name == "N2HDM") want(q.n6, "L6"), want(q.n7, "L7"), want(q.n8, "L8");
    double t = val["tanbeta"], c = 1 / std::sqrt(1 + t * t);
    vt = {0, sm.C_vev0 * c, sm.C_vev0 * t * c, 0};
    if (s.name == "R2HDM") vt = {0, sm.C_vev0 * c, sm.C_vev0 * t * c, 0};
    if (s.name == "N2HDM") vt = {0, 0, sm.C_vev0 * c, sm.C_vev0 * t * c, val["vs"]};
  }
  bs_check(m1->vevTreeMin.size() == m1->nVEV && m1->VevOrder.size() == m1->nVEV, "one component per vacuum direction");
  // compare in field space, independent of the order of the directions
  Vec full = m1->MinimizeOrderVEV(m1->vevTreeMin);
  double w1 = 0, w2 = 0;
  for (double x : full) w1 += x * x;
  for (double x : vt) w2 += x * x;
  bs_check_eq(w1, w2, 1e-9, 1e-6, "size of the vacuum");
  eq(full, m1->vevTree, "vacuum in field space");
  for (size_t d = 0; d < s.doublets.size(); d++)
  {
    double n = 0, e = 0;
    for (int c : s.doublets[d]) n += full[c] * full[c];
    if (s.name == "SM") e = sm.C_vev0;
    else if (s.name == "CxSM") e = val["vh"];
    else if (s.name == "CPintheDark") e = d == 0 ? sm.C_vev0 : 0;
    else e = vt[s.name == "N2HDM" ? 2 + d : 1 + d];
    bs_check_eq(n, e * e, 1e-9, 1e-6, "vacuum expectation value of the doublet");
  }
  for (size_t d = 0; d < s.singlets.size(); d++)
  {
    double e = s.name == "CxSM" ? val[d ? "va" : "vs"] : s.name == "N2HDM" ? val["vs"] : 0;
    eq(full[s.singlets[d]], e, "vacuum expectation value of the singlet");
  }
  bs_reach("end");
}
