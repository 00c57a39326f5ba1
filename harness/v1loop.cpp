// The one-loop potential as a function of the field-dependent masses: sum over
// all particles with their degrees of freedom plus the daisy term, and its
// derivatives with respect to fields and temperature by the chain rule.
// bsym-src: @models
// bsym-stub: ^BSMPT::Class_Potential_Origin::HiggsMassesSquared\( -> h_h
// bsym-stub: ^BSMPT::Class_Potential_Origin::GaugeMassesSquared\( -> h_g
// bsym-stub: ^BSMPT::Class_Potential_Origin::QuarkMassesSquared\( -> h_q
// bsym-stub: ^BSMPT::Class_Potential_Origin::LeptonMassesSquared\( -> h_l
// bsym-stub: ^BSMPT::Class_Potential_Origin::boson\( -> h_boson
// bsym-stub: ^BSMPT::Class_Potential_Origin::fermion\( -> h_fermion
#include "models.h"
static Vec H0, HT, dH0, dHT, pH, G0, GT, dG0, dGT, pG, Q, dQ, L, dL;
static double Tt;
static int wantdiff;
static double A[2], B[2], C[2], D[2];
static double poly(int k, double m, double c) { return A[k] + c * B[k] + C[k] * m + D[k] * m * m; }
static double dpoly(int k, double m) { return C[k] + 2 * D[k] * m; }
static double tpoly(int k, double m, double c) { return B[k] - c * C[k] + A[k] * m; }
static Vec cat(const Vec &a, const Vec &b, int diff)
{
  Vec r = a;
  if (diff != 0) r.insert(r.end(), b.begin(), b.end());
  return r;
}
static Vec zero(const Vec &a) { return Vec(a.size(), 0.0); }
extern "C"
{
  Vec h_h(const void *, const Vec &, const double &T, const int &diff)
  {
    bs_check(T == 0 || T == Tt, "temperature of the mass evaluation");
    bs_check(diff == wantdiff || diff == 0, "derivative index of the masses");
    if (T == 0) return cat(H0, diff > 0 ? dH0 : zero(H0), diff);
    return cat(HT, diff > 0 ? dHT : pH, diff);
  }
  Vec h_g(const void *, const Vec &, const double &T, const int &diff)
  {
    bs_check(T == 0 || T == Tt, "temperature of the mass evaluation");
    bs_check(diff == wantdiff || diff == 0, "derivative index of the masses");
    if (T == 0) return cat(G0, diff > 0 ? dG0 : zero(G0), diff);
    return cat(GT, diff > 0 ? dGT : pG, diff);
  }
  Vec h_q(const void *, const Vec &, const int &diff) { return cat(Q, dQ, diff > 0); }
  Vec h_l(const void *, const Vec &, const int &diff) { return cat(L, dL, diff > 0); }
  double h_boson(const void *, double m, double T, double cb, int diff)
  {
    bs_check(T == Tt, "temperature of the boson contribution");
    bs_check(diff >= -1 && diff <= 1, "derivative order of the boson contribution");
    return diff == 0 ? poly(0, m, cb) : diff == 1 ? dpoly(0, m) : diff == -1 ? tpoly(0, m, cb) : 0;
  }
  double h_fermion(const void *, double m, double T, int diff)
  {
    bs_check(T == Tt, "temperature of the fermion contribution");
    bs_check(diff >= -1 && diff <= 1, "derivative order of the fermion contribution");
    return diff == 0 ? poly(1, m, 1.5) : diff == 1 ? dpoly(1, m) : diff == -1 ? tpoly(1, m, 1.5) : 0;
  }
}
static double daisy(double m) { return m > 0 ? m * std::sqrt(m) : 0; }
static double ddaisy(double m, double d) { return m > 0 ? 1.5 * std::sqrt(m) * d : 0; }
extern "C" void bs_harness_main()
{
  std::string cs = bs_case();
  ModelSpec s    = specFromCase("SM");
  auto mp        = newModel(s, GetSMConstants());
  CPO &m         = *mp;
  m.set_gen({-8000, 0.13});
  if (!m.SetCurvatureDone) m.SetCurvatureArrays();
  Tt = R("T", 1, 1000);
  for (int k = 0; k < 2; k++)
  {
    std::string n = std::to_string(k);
    A[k] = R("A" + n, -10, 10), B[k] = R("B" + n, -10, 10), C[k] = R("C" + n, -10, 10), D[k] = R("D" + n, -10, 10);
  }
  // exactly one mass of each kind has a free sign, the others alternate
  long free_ = bs_choice("free", 4);
  auto masses = [&](const char *n, int N, bool anysign)
  {
    Vec r;
    for (int i = 0; i < N; i++)
    {
      std::string nm = n + std::to_string(i);
      if (!anysign)
        r.push_back(R(nm, 0, 1e4));
      else if (i == free_)
        r.push_back(R(nm, -1e4, 1e4));
      else if (i % 2)
        r.push_back(R(nm, -1e4, 0));
      else
        r.push_back(R(nm, 1e-6, 1e4));
    }
    return r;
  };
  auto der = [&](const char *n, int N)
  {
    Vec r;
    for (int i = 0; i < N; i++)
      r.push_back(R(n + std::to_string(i), -1e3, 1e3));
    return r;
  };
  H0 = masses("h0_", 4, true), HT = masses("hT_", 4, true);
  G0 = masses("g0_", 4, true), GT = masses("gT_", 4, true);
  Q = masses("q", 12, false), L = masses("l", 9, false);
  dH0 = der("dh0_", 4), dHT = der("dhT_", 4), dG0 = der("dg0_", 4), dGT = der("dgT_", 4);
  dQ = der("dq", 12), dL = der("dl", 9);
  pH = der("ph", 4), pG = der("pg", 4);
  Vec v(4, 1.0);
  auto both = [&](auto f, bool tder)
  {
    double r = 0;
    for (int i = 0; i < 4; i++)
      r += f(0, H0[i], dH0[i], 1.5) + 3 * f(0, G0[i], dG0[i], 5.0 / 6.0);
    for (int i = 0; i < 12; i++)
      r -= 3 * 2 * f(1, Q[i], dQ[i], 1.5);
    for (int i = 0; i < 9; i++)
      r -= 2 * f(1, L[i], dL[i], 1.5);
    return r;
  };
  if (cs == "value")
  {
    wantdiff = 0;
    double w = both([](int k, double x, double, double c) { return poly(k, x, c); }, false);
    double d = 0;
    for (int i = 0; i < 4; i++)
      d += daisy(HT[i]) - daisy(H0[i]) + daisy(GT[i]) - daisy(G0[i]);
    bs_check_eq(m.V1Loop(v, Tt, 0), w - Tt / (12 * M_PI) * d, 1e-9, 1e-6, "one-loop potential");
  }
  else if (cs == "field")
  {
    long diff = 1 + bs_choice("field", 4);
    wantdiff  = diff;
    double w = both([](int k, double x, double dx, double) { return dx * dpoly(k, x); }, false);
    double d = 0;
    for (int i = 0; i < 4; i++)
      d += ddaisy(HT[i], dHT[i]) - ddaisy(H0[i], dH0[i]) + ddaisy(GT[i], dGT[i]) - ddaisy(G0[i], dG0[i]);
    bs_check_eq(m.V1Loop(v, Tt, diff), w - Tt / (12 * M_PI) * d, 1e-9, 1e-6, "field derivative of the one-loop potential");
  }
  else
  {
    wantdiff = -1;
    if (cs == "tempfixed") pH = zero(pH), pG = zero(pG);
    double w = both([](int k, double x, double, double c) { return tpoly(k, x, c); }, true);
    double d = 0, e = 0;
    for (int i = 0; i < 4; i++)
    {
      d += daisy(HT[i]) - daisy(H0[i]) + daisy(GT[i]) - daisy(G0[i]);
      e += ddaisy(HT[i], pH[i]) + ddaisy(GT[i], pG[i]);
    }
    bs_check_eq(m.V1Loop(v, Tt, -1), w - 1 / (12 * M_PI) * (d + Tt * e), 1e-9, 1e-6, cs == "tempfixed" ? "temperature derivative at fixed masses" : "temperature derivative of the one-loop potential");
  }
  bs_reach("end");
}
