// Symbolic model factory and documented-Lagrangian oracle.
#pragma once
#include "bs.h"
#include <BSMPT/models/ClassPotentialC2HDM.h>
#include <BSMPT/models/ClassPotentialCPintheDark.h>
#include <BSMPT/models/ClassPotentialCxSM.h>
#include <BSMPT/models/ClassPotentialN2HDM.h>
#include <BSMPT/models/ClassPotentialR2HDM.h>
#include <BSMPT/models/ClassPotentialSM.h>
#include <BSMPT/models/SMparam.h>
#include <BSMPT/utility/Logger.h>
#include <cmath>
#include <complex>
#include <memory>
#include <string>
#include <vector>
using namespace BSMPT;
typedef std::vector<double> Vec;
typedef Class_Potential_Origin CPO;

struct ModelSpec
{
  std::string name;
  int type = 1;
  int N    = 0;
  // doublet field indices: re+, im+, re0, im0
  std::vector<std::array<int, 4>> doublets;
  std::vector<int> singlets;
};

inline ModelSpec specFromCase(const std::string &c)
{
  ModelSpec s;
  auto p = c.find('-');
  s.name = c.substr(0, p);
  if (p != std::string::npos) s.type = atoi(c.substr(p + 1).c_str());
  if (s.name == "SM")
  {
    s.N        = 4;
    s.doublets = {{0, 1, 2, 3}};
  }
  else if (s.name == "CxSM")
  {
    s.N        = 6;
    s.doublets = {{0, 1, 3, 2}};
    s.singlets = {4, 5};
  }
  else if (s.name == "R2HDM" || s.name == "C2HDM")
  {
    s.N        = 8;
    s.doublets = {{0, 1, 4, 5}, {2, 3, 6, 7}};
  }
  else if (s.name == "N2HDM")
  {
    s.N        = 9;
    s.doublets = {{0, 2, 6, 4}, {1, 3, 7, 5}};
    s.singlets = {8};
  }
  else
  {
    s.N        = 9;
    s.doublets = {{0, 1, 4, 5}, {2, 3, 6, 7}};
    s.singlets = {8};
  }
  return s;
}

inline std::unique_ptr<CPO> newModel(const ModelSpec &s,
                                     const ISMConstants &sm)
{
  using namespace Models;
  if (s.name == "SM") return std::make_unique<Class_SM>(sm);
  if (s.name == "CxSM") return std::make_unique<Class_CxSM>(sm);
  if (s.name == "R2HDM") return std::make_unique<Class_Potential_R2HDM>(sm);
  if (s.name == "C2HDM") return std::make_unique<Class_Potential_C2HDM>(sm);
  if (s.name == "N2HDM") return std::make_unique<Class_Potential_N2HDM>(sm);
  return std::make_unique<Class_Potential_CPintheDark>(sm);
}

inline double R(const std::string &n, double lo, double hi)
{
  return bs_real(n.c_str(), lo, hi);
}
// non-zero real of either sign is not an interval: callers pick a sign
inline std::vector<std::string> parNames(const ModelSpec &s)
{
  if (s.name == "SM") return {"muSq", "lambda"};
  if (s.name == "CxSM")
    return {"vh", "vs", "va", "msq", "lambda", "delta2", "b2", "d2", "Reb1",
            "Imb1", "Rea1", "Ima1"};
  if (s.name == "R2HDM")
    return {"L1", "L2", "L3", "L4", "L5", "m12sq", "tanbeta", "type"};
  if (s.name == "C2HDM")
    return {"L1", "L2", "L3", "L4", "ReL5", "ImL5", "m12sq", "tanbeta", "type"};
  if (s.name == "N2HDM")
    return {"L1", "L2", "L3", "L4", "L5", "L6", "L7", "L8", "tanbeta", "vs",
            "m12sq", "type"};
  return {"m11s", "m22s", "mSs", "ReA", "ImA", "L1", "L2", "L3", "L4", "L5",
          "L6", "L7", "L8"};
}
// opt: "neg" negative tan(beta);  CxSM: vs/va pattern in opt ("vs0","va0",...)
inline Vec symPar(const ModelSpec &s,
                  const std::string &pre = "",
                  bool negTan            = false,
                  bool vsZero            = false,
                  bool vaZero            = false)
{
  Vec p;
  for (auto &n : parNames(s))
  {
    if (n == "type")
      p.push_back(s.type);
    else if (n == "tanbeta")
      p.push_back(negTan ? R(pre + n, -50, -0.1) : R(pre + n, 0.1, 50));
    else if (n == "vh")
      p.push_back(R(pre + n, 100, 400));
    else if (n == "vs" && s.name == "CxSM")
      p.push_back(vsZero ? 0.0 : R(pre + n, 1, 1000));
    else if (n == "va")
      p.push_back(vaZero ? 0.0 : R(pre + n, 1, 1000));
    else if (n == "vs")
      p.push_back(R(pre + n, 1, 3000));
    else if (n[0] == 'L' || n == "lambda" || n[0] == 'd' || n == "ReL5" ||
             n == "ImL5")
      p.push_back(R(pre + n, -10, 10));
    else if (n == "Rea1" || n == "Ima1")
      p.push_back(R(pre + n, -1e6, 1e6));
    else if (n == "ReA" || n == "ImA")
      p.push_back(R(pre + n, -1e3, 1e3));
    else
      p.push_back(R(pre + n, -1e5, 1e5));
  }
  return p;
}
// symbolic SM inputs; CKM entries stay at the values the library computes
inline ISMConstants symSM()
{
  ISMConstants sm = GetSMConstants();
  sm.C_vev0       = R("vev0", 200, 300);
  sm.C_g          = R("g", 0.3, 1);
  sm.C_gs         = R("gprime", 0.1, 0.9);
  sm.C_MassTop      = R("mt", 100, 250);
  sm.C_MassBottom   = R("mb", 1, 10);
  sm.C_MassTau      = R("mtau", 0.5, 5);
  sm.C_MassCharm    = R("mc", 0.5, 3);
  sm.C_MassStrange  = R("ms", 0.01, 1);
  sm.C_MassUp       = R("mu", 0.001, 1);
  sm.C_MassDown     = R("md", 0.001, 1);
  sm.C_MassMu       = R("mmu", 0.01, 1);
  sm.C_MassElectron = R("me", 1e-4, 0.1);
  sm.C_MassSMHiggs  = R("mh", 100, 150);
  return sm;
}

// ---- documented scalar potential ------------------------------------------
struct LagPar
{
  // doublet-doublet sector (2HDM-like), singlets per model
  double m11 = 0, m22 = 0, m12r = 0, m12i = 0;
  double l1 = 0, l2 = 0, l3 = 0, l4 = 0, l5r = 0, l5i = 0, l6i = 0;
  // CxSM
  double msq = 0, lam = 0, d2l = 0, b2 = 0, d2 = 0, b1r = 0, b1i = 0, a1r = 0,
         a1i = 0;
  // real singlet
  double mS = 0, n6 = 0, n7 = 0, n8 = 0, ar = 0, ai = 0;
  Vec tad; // linear terms per field
};

inline double lagrangianV(const ModelSpec &s, const LagPar &q, const Vec &f)
{
  double V = 0;
  for (size_t i = 0; i < q.tad.size(); i++)
    V += q.tad[i] * f[i];
  auto nrm = [&](int d)
  {
    double r = 0;
    for (int c = 0; c < 4; c++)
      r += f[s.doublets[d][c]] * f[s.doublets[d][c]];
    return r / 2;
  };
  double P1 = nrm(0);
  if (s.name == "SM")
  {
    // mu^2 |H|^2 + lambda |H|^4
    V += q.msq * P1 + q.lam * P1 * P1;
    return V;
  }
  if (s.name == "CxSM")
  {
    double a = f[4], b = f[5];
    double SS = (a * a + b * b) / 2;
    V += q.msq / 2 * P1 + q.lam / 4 * P1 * P1 + q.d2l / 2 * P1 * SS +
         q.b2 / 2 * SS + q.d2 / 4 * SS * SS;
    // b1/4 S^2 + a1 S + cc
    double s2r = (a * a - b * b) / 2, s2i = a * b;
    V += (q.b1r * s2r - q.b1i * s2i) / 2;
    V += std::sqrt(2.0) * (q.a1r * a - q.a1i * b);
    return V;
  }
  double P2 = nrm(1);
  // Phi1^dagger Phi2
  double xr = 0, xi = 0;
  for (int c = 0; c < 4; c += 2)
  {
    double a = f[s.doublets[0][c]], b = f[s.doublets[0][c + 1]];
    double p = f[s.doublets[1][c]], r = f[s.doublets[1][c + 1]];
    xr += (a * p + b * r) / 2;
    xi += (a * r - b * p) / 2;
  }
  V += q.m11 * P1 + q.m22 * P2 - 2 * (q.m12r * xr - q.m12i * xi);
  V += q.l1 / 2 * P1 * P1 + q.l2 / 2 * P2 * P2 + q.l3 * P1 * P2 +
       q.l4 * (xr * xr + xi * xi);
  double x2r = xr * xr - xi * xi, x2i = 2 * xr * xi;
  V += q.l5r * x2r - q.l5i * x2i;
  // (i l6i) |Phi1|^2 Phi1^dagger Phi2 + cc
  V += -2 * q.l6i * P1 * xi;
  if (s.name == "N2HDM")
  {
    double S = f[8];
    V += q.mS / 2 * S * S + q.n6 / 8 * S * S * S * S + q.n7 / 2 * P1 * S * S +
         q.n8 / 2 * P2 * S * S;
  }
  if (s.name == "CPintheDark")
  {
    double S = f[8];
    V += q.mS / 2 * S * S + q.n6 / 4 * S * S * S * S + q.n7 / 2 * P1 * S * S +
         q.n8 / 2 * P2 * S * S;
    V += 2 * S * (q.ar * xr - q.ai * xi);
  }
  return V;
}

// parameters of the tree-level Lagrangian as the model object reports them
inline LagPar treeLag(const ModelSpec &s, CPO &m)
{
  using namespace Models;
  LagPar q;
  if (s.name == "SM")
  {
    auto &x = static_cast<Class_SM &>(m);
    q.msq   = x.muSq;
    q.lam   = x.lambda;
  }
  else if (s.name == "CxSM")
  {
    auto &x = static_cast<Class_CxSM &>(m);
    q.msq = x.msq, q.lam = x.lambda, q.d2l = x.delta2, q.b2 = x.b2, q.d2 = x.d2;
    q.b1r = x.Reb1, q.b1i = x.Imb1, q.a1r = x.Rea1, q.a1i = x.Ima1;
  }
  else if (s.name == "R2HDM")
  {
    auto &x = static_cast<Class_Potential_R2HDM &>(m);
    q.m11 = x.u1, q.m22 = x.u2, q.m12r = x.RealMMix;
    q.l1 = x.L1, q.l2 = x.L2, q.l3 = x.L3, q.l4 = x.L4, q.l5r = x.RL5;
  }
  else if (s.name == "C2HDM")
  {
    auto &x = static_cast<Class_Potential_C2HDM &>(m);
    q.m11 = x.u1, q.m22 = x.u2, q.m12r = x.RealMMix, q.m12i = x.Iu3;
    q.l1 = x.L1, q.l2 = x.L2, q.l3 = x.L3, q.l4 = x.L4, q.l5r = x.RL5,
    q.l5i = x.IL5;
  }
  else if (s.name == "N2HDM")
  {
    auto &x = static_cast<Class_Potential_N2HDM &>(m);
    q.m11 = x.u1, q.m22 = x.u2, q.m12r = x.RealMMix;
    q.l1 = x.L1, q.l2 = x.L2, q.l3 = x.L3, q.l4 = x.L4, q.l5r = x.RL5;
    q.mS = x.Nus, q.n6 = x.NL6, q.n7 = x.NL7, q.n8 = x.NL8;
  }
  else
  {
    auto &x = static_cast<Class_Potential_CPintheDark &>(m);
    q.m11 = x.m11s, q.m22 = x.m22s, q.mS = x.mSs;
    q.l1 = x.L1, q.l2 = x.L2, q.l3 = x.L3, q.l4 = x.L4, q.l5r = x.L5;
    q.n6 = x.L6, q.n7 = x.L7, q.n8 = x.L8, q.ar = x.ReA, q.ai = x.ImA;
  }
  return q;
}
// documented meaning of the counterterm parameter vector
inline LagPar ctLag(const ModelSpec &s, const Vec &p)
{
  LagPar q;
  q.tad = Vec(s.N, 0.0);
  if (s.name == "SM")
  {
    q.msq = p[0], q.lam = p[1];
    for (int i = 0; i < 4; i++)
      q.tad[i] = p[2 + i];
  }
  else if (s.name == "CxSM")
  {
    q.msq = p[0], q.lam = p[1], q.d2l = p[2], q.b2 = p[3], q.d2 = p[4];
    q.b1r = p[5], q.b1i = p[6], q.a1r = p[7], q.a1i = p[8];
    for (int i = 0; i < 6; i++)
      q.tad[i] = p[9 + i];
  }
  else if (s.name == "R2HDM")
  {
    q.m11 = p[0], q.m22 = p[1], q.m12r = p[2], q.l1 = p[3], q.l2 = p[4],
    q.l3 = p[5], q.l4 = p[6], q.l5r = p[7];
    q.tad[4] = p[8], q.tad[6] = p[9], q.tad[7] = p[10];
  }
  else if (s.name == "C2HDM")
  {
    q.m11 = p[0], q.m22 = p[1], q.m12i = p[2], q.m12r = p[3], q.l1 = p[4],
    q.l2 = p[5], q.l3 = p[6], q.l4 = p[7], q.l5r = p[8], q.l5i = p[9];
    q.tad[2] = p[10], q.tad[4] = p[11], q.tad[6] = p[12], q.tad[7] = p[13];
    q.l6i = p[14];
  }
  else if (s.name == "N2HDM")
  {
    q.m11 = p[0], q.m22 = p[1], q.m12r = p[2], q.l1 = p[3], q.l2 = p[4],
    q.l3 = p[5], q.l4 = p[6], q.l5r = p[7];
    q.mS = p[8], q.n6 = p[9], q.n7 = p[10], q.n8 = p[11];
    q.tad[6] = p[12], q.tad[7] = p[13], q.tad[8] = p[14];
  }
  else
  {
    q.m11 = p[0], q.m22 = p[1], q.mS = p[2], q.ar = p[3], q.ai = p[4],
    q.l1 = p[5], q.l2 = p[6], q.l3 = p[7], q.l4 = p[8], q.l5r = p[9],
    q.n6 = p[10], q.n7 = p[11], q.n8 = p[12];
    q.tad[2] = p[13], q.tad[4] = p[14], q.tad[6] = p[15], q.tad[7] = p[16],
    q.tad[8] = p[17];
    q.l5i    = p[18];
  }
  return q;
}
// exact derivative of a polynomial of degree <= 4 (five-point stencil)
template <class F> double deriv4(F f, Vec x, int i)
{
  double x0 = x[i];
  auto at   = [&](double d)
  {
    x[i] = x0 + d;
    return f(x);
  };
  return (at(-2) - 8 * at(-1) + 8 * at(1) - at(2)) / 12;
}
inline Vec symFields(const ModelSpec &s,
                     const std::string &pre = "phi",
                     double lo              = 0.5,
                     double hi              = 500)
{
  Vec v;
  for (int i = 0; i < s.N; i++)
    v.push_back(R(pre + std::to_string(i), lo, hi));
  return v;
}
inline bool isVev(CPO &m, int i)
{
  for (auto k : m.VevOrder)
    if ((int)k == i) return true;
  return false;
}
