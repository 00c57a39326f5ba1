// Gravitational waves: efficiencies, energy fractions, peaks, spectra, status
// and signal-to-noise ratio follow the transition data, whatever was computed
// on the object before.
// bsym-src: gravitational_waves/gw.cpp utility/*.cpp
// bsym-stub: ^BSMPT::BounceSolution::CalcTransitionTemp\( -> h_T
// bsym-stub: ^BSMPT::BounceSolution::GetPTStrength\( -> h_alpha
// bsym-stub: ^BSMPT::BounceSolution::GetInvTimeScale\( -> h_beta
// bsym-stub: ^BSMPT::BounceSolution::GetWallVelocity\( -> h_vw
// bsym-stub: ^BSMPT::BounceSolution::GetEpsTurb\( -> h_eps
// bsym-stub: ^BSMPT::BounceSolution::GetGstar\( -> h_gstar
// bsym-stub: ^BSMPT::BounceSolution::HubbleRate\( -> h_hubble
// bsym-stub: ^gsl_integration_qags$ -> h_qags
// bsym-stub: ^gsl_integration_workspace_alloc$ -> h_walloc
// bsym-stub: ^gsl_integration_workspace_free$ -> h_wfree
#include "bs.h"
#include <BSMPT/gravitational_waves/gw.h>
#include <BSMPT/models/ClassPotentialOrigin.h>
#include <cmath>
#include <cstring>
#include <new>
using namespace BSMPT;
static double R(const char *n, double lo, double hi) { return bs_real(n, lo, hi); }
static double vT, vAlpha, vBeta, vVw, vEps, vG;
static int wantWhich;
static void *fakeObj;
extern "C"
{
  double h_T(const void *o, const int &w)
  {
    bs_check(o == fakeObj && w == wantWhich, "the requested transition temperature is used");
    return vT;
  }
  double h_alpha(const void *) { return vAlpha; }
  double h_beta(void *) { return vBeta; }
  double h_vw(const void *) { return vVw; }
  double h_eps(const void *) { return vEps; }
  double h_gstar(const void *) { return vG; }
  double h_hubble(void *, const double &T) { return 3 * T * T + 1; }
}
static double icalls, ilo, ihi, iF, iFval, iProbe;
static void *iObj;
extern "C" int h_qags(const gsl_function *F, double a, double b, double ea, double er, size_t lim, void *, double *r, double *e)
{
  icalls++;
  ilo = a, ihi = b;
  bs_check(ea == 0 && er > 0 && er <= 1e-2 && lim >= 100, "integration accuracy");
  iFval = F->function(iProbe, F->params);
  *r    = iF;
  *e    = 0;
  return 0;
}
extern "C" void *h_walloc(size_t) { return malloc(8); }
extern "C" void h_wfree(void *p) { free(p); }
// arXiv:1004.4187, appendix A
static double kappaRef(double al, double vw, double cs, int region)
{
  double kA = std::pow(vw, 1.2) * 6.9 * al / (1.36 - 0.037 * std::sqrt(al) + al);
  double kB = std::pow(al, 0.4) / (0.017 + std::pow(0.997 + al, 0.4));
  double kC = std::sqrt(al) / (0.135 + std::sqrt(0.98 + al));
  double kD = al / (0.73 + 0.083 * std::sqrt(al) + al);
  double xi = (std::sqrt(2. / 3. * al + al * al) + std::sqrt(1. / 3.)) / (1 + al);
  double dk = -0.9 * std::log(std::sqrt(al) / (1 + std::sqrt(al)));
  auto cube = [](double x) { return x * x * x; };
  if (region == 0)
    return std::pow(cs, 2.2) * kA * kB / ((std::pow(cs, 2.2) - std::pow(vw, 2.2)) * kB + vw * std::pow(cs, 1.2) * kA);
  if (region == 1) return kB + (vw - cs) * dk + cube(vw - cs) / cube(xi - cs) * (kC - kB - (xi - cs) * dk);
  return cube(xi - 1) * std::pow(xi, 2.5) * std::pow(vw, -2.5) * kC * kD /
         ((cube(xi - 1) - cube(vw - 1)) * std::pow(xi, 2.5) * kC + cube(vw - 1) * kD);
}
static double xiJ(double al) { return (std::sqrt(2. / 3. * al + al * al) + std::sqrt(1. / 3.)) / (1 + al); }
struct Fake
{
  std::shared_ptr<Class_Potential_Origin> model;
  char *raw;
  Fake();
};
static char modelRaw[sizeof(Class_Potential_Origin)];
Fake::Fake()
{
  auto *m = reinterpret_cast<Class_Potential_Origin *>(modelRaw);
  std::memset(modelRaw, 0, sizeof modelRaw);
  ISMConstants sm{};
  new ((void *)&m->SMConstants) ISMConstants(sm);
  model = std::shared_ptr<Class_Potential_Origin>(m, [](Class_Potential_Origin *) {});
  raw   = static_cast<char *>(malloc(sizeof(BounceSolution)));
  std::memset(raw, 0, sizeof(BounceSolution));
  auto *b = reinterpret_cast<BounceSolution *>(raw);
  new ((void *)&b->modelPointer) std::shared_ptr<Class_Potential_Origin>(model);
  fakeObj = b;
}
static double swRef(const GravitationalWaveData &d, double f, double A, double fp)
{
  double s = f / fp;
  (void)d;
  return A * s * s * s * std::pow(7. / (4 + 3 * s * s), 3.5);
}
static double turbRef(const GravitationalWaveData &d, double f, double A, double fp)
{
  double s = f / fp;
  return A * s * s * s / (std::pow(1 + s, 11. / 3.) * (1 + 8 * M_PI * f / d.Hstar));
}
static double ampSW(const GravitationalWaveData &d, bool longLived)
{
  double h = 0.674;
  double K = d.K_sw, HR = d.HR;
  return h * h * 2.061 * 0.012 * 3.57e-5 * std::pow(100. / d.gstar, 1. / 3.) * (longLived ? HR * K * K : HR * K * K * (2 * HR / std::sqrt(3 * K)));
}
static double ampTurb(const GravitationalWaveData &d) { return 1.144e-4 * std::pow(100. / d.gstar, 1. / 3.) * d.HR * std::pow(d.K_turb, 1.5); }
static double fSW(const GravitationalWaveData &d) { return 26e-6 / d.HR * d.transitionTemp / 100 * std::pow(d.gstar / 100, 1. / 6); }
static double fTurb(const GravitationalWaveData &d) { return 79.09e-6 / d.HR * d.transitionTemp / 100 * std::pow(d.gstar / 100, 1. / 6); }
static double sens(double f)
{
  double pa = 5.76e-48 * (1 + std::pow(0.4e-3 / f, 2)), ps = 3.6e-41, om = 2 * M_PI * f;
  double S  = 0.5 * 20. / 3. * (pa / (om * om * om * om) + ps) * (1 + std::pow(f / 25e-3, 2));
  double H0 = 100 / 3.09e19;
  return 4 * M_PI * M_PI / (3 * H0 * H0) * f * f * f * S;
}
static void inputs()
{
  vT     = R("T", 10, 300);
  vAlpha = R("alpha", 1e-4, 10);
  vBeta  = R("beta", 1, 1e5);
  vVw    = R("vw", 0.05, 0.99);
  vEps   = R("eps", 0.01, 1);
  vG     = R("gstar", 100, 130);
}
static void body()
{
  std::string cs = bs_case();
  if (cs == "kappa")
  {
    double al = R("alpha", 1e-4, 10), c = R("cs", 0.5, 0.5773502), vw = R("vw", 0.05, 0.99);
    bs_assume(vw < c - 1e-9 || vw > c + 1e-9);
    int reg   = vw < c ? 0 : vw > xiJ(al) ? 2 : 1;
    bs_reach(reg == 0 ? "deflagration" : reg == 1 ? "hybrid" : "detonation");
    double k = Getkappa_sw(al, vw, c);
    bs_check_eq(k, kappaRef(al, vw, c, reg), 1e-7, 0, "efficiency of the sound waves");
    bs_check_eq(GetK_sw(al, vw, c), k * al / (1 + al), 1e-9, 0, "kinetic energy fraction of the sound waves");
    double e = R("k", 0, 1);
    bs_check_eq(GetK_turb(al, e), e * al / (1 + al), 1e-9, 0, "kinetic energy fraction of the turbulence");
    bs_check_eq(Getkappa_sw(al, c, c), kappaRef(al, c, c, 0), 1e-7, 0, "efficiency is continuous at the sound velocity");
    double b = R("beta", 1, 1e5);
    bs_check_eq(GetHR(b, vw, c), std::pow(8 * M_PI, 1. / 3) * (vw > c ? vw : c) / b, 1e-9, 0, "bubble separation");
  }
  if (cs == "jouguet")
  {
    double al = R("alpha", 1e-2, 10), c = R("cs", 0.5, 0.57), x = xiJ(al);
    double kC = std::sqrt(al) / (0.135 + std::sqrt(0.98 + al));
    bs_check_eq(Getkappa_sw(al, x, c), kC, 1e-6, 0, "efficiency is continuous at the Jouguet velocity");
  }
  if (cs == "ctor")
  {
    Fake fk;
    inputs();
    vBeta     = R("beta0", 0.01, 1e5);
    wantWhich = 1 + bs_choice("which", 4);
    bool noT  = bs_choice("notemp", 2);
    bool dyn  = bs_choice("dyn", 2);
    if (noT) vT = -1;
    if (dyn) vEps = -1;
    auto *b = reinterpret_cast<BounceSolution *>(fk.raw);
    GravitationalWave gw(*b, wantWhich);
    auto &d = gw.data;
    double c = fk.model->SMConstants.Csound;
    bs_check_eq(d.transitionTemp, vT, 0, 0, "transition temperature");
    bs_check_eq(d.PTStrength, vAlpha, 0, 0, "strength");
    bs_check_eq(d.InvTimeScale, vBeta, 0, 0, "inverse time scale");
    bs_check_eq(d.vb, vVw, 0, 0, "wall velocity");
    bs_check_eq(d.gstar, vG, 0, 0, "degrees of freedom");
    bs_check_eq(d.Hstar, 3 * vT * vT + 1, 1e-12, 0, "Hubble rate at the transition temperature");
    bs_check_eq(d.kappa_sw, Getkappa_sw(vAlpha, vVw, c), 1e-9, 0, "efficiency");
    bs_check_eq(d.K_sw, GetK_sw(vAlpha, vVw, c), 1e-9, 0, "energy fraction");
    bs_check_eq(d.HR, GetHR(vBeta, vVw, c), 1e-9, 0, "separation");
    bs_check((d.status == StatusGW::Failure) == (noT || vBeta < 1), "failure exactly for a missing temperature or beta/H below one");
    bs_check(d.status == StatusGW::Failure || d.status == StatusGW::NotSet, "no success before the spectrum is computed");
    bs_check(d.swON && d.turbON, "both contributions on");
    bs_check(d.h2OmegaPeakSoundWave == 0 && d.fPeakSoundWave == 0 && d.h2OmegaPeakTurbulence == 0 && d.fPeakTurbulence == 0, "peaks not computed yet");
    if (!dyn)
      bs_check_eq(d.kappa_turb, vEps * d.kappa_sw, 1e-9, 0, "turbulence efficiency");
    bs_check_eq(d.K_turb, d.kappa_turb * vAlpha / (1 + vAlpha), 1e-9, 0, "turbulence energy fraction");
  }
  if (cs == "eps")
  {
    GravitationalWave *g = reinterpret_cast<GravitationalWave *>(malloc(sizeof(GravitationalWave)));
    new ((void *)&g->data) GravitationalWaveData();
    g->data.HR = R("HR", 1e-4, 3), g->data.K_sw = R("K", 1e-8, 1);
    double e = R("eps", 0, 1);
    bs_check_eq(g->CalcEpsTurb(e), e, 0, 0, "user-defined turbulence fraction");
    double tau = 2 * g->data.HR / std::sqrt(3 * g->data.K_sw);
    bs_assume(tau < 1 - 1e-9 || tau > 1 + 1e-9); // the tie is decided by rounding
    double got = g->CalcEpsTurb(-1);
    if (tau >= 1)
      bs_check_eq(got, 0, 0, 1e-12, "no turbulence if the sound waves last a Hubble time");
    else
      bs_check_eq(got, std::pow(1 - tau, 2. / 3.), 1e-9, 0, "turbulence fraction from the sound-wave lifetime");
    bs_check(IsFluidTurnoverApproxOne(g->data.HR, g->data.K_sw) == (tau >= 1), "long-lasting source");
  }
  if (cs == "spec" || cs == "hist" || cs == "snr")
  {
    GravitationalWave *g = reinterpret_cast<GravitationalWave *>(malloc(sizeof(GravitationalWave)));
    new ((void *)g) GravitationalWave(*new (malloc(sizeof(GravitationalWave))) GravitationalWave(*[] {
      static Fake fk;
      vT = 100, vAlpha = 0.1, vBeta = 100, vVw = 0.9, vEps = 0.1, vG = 106.75, wantWhich = 3;
      return reinterpret_cast<BounceSolution *>(fk.raw);
    }(), 3));
    auto &d          = g->data;
    // fractional powers of these become polynomials
    double k = R("k", 1e-3, 0.57), kt = R("kt", 1e-3, 1), u = R("u", 1, 1.05);
    bool conc        = cs == "snr";
    d.transitionTemp = conc ? 100 : R("T", 10, 300);
    d.HR = conc ? 0.1 : R("HR", 1e-4, 3), d.K_sw = conc ? 0.01 : 3 * k * k, d.K_turb = conc ? 0.001 : kt * kt, d.gstar = conc ? 106.75 : 100 * u * u * u * u * u * u;
    d.Hstar    = conc ? 0.1 : R("H", 1e-6, 10);
    double tau = 2 * d.HR / (conc ? std::sqrt(3 * d.K_sw) : 3 * k);
    bs_assume(tau < 1 - 1e-9 || tau > 1 + 1e-9);
    bool longLived = tau >= 1;
    double A = ampSW(d, longLived), At = ampTurb(d), F = fSW(d), Ft = fTurb(d);
    double f = conc ? R("f", 1e-6, 10) : R("f/fpeak", 1e-4, 1e4) * F;
    if (cs == "spec")
    {
      if (bs_choice("peaksfirst", 2))
      {
        g->CalcPeakFrequencySoundWave();
        g->CalcPeakAmplitudeSoundWave();
        g->CalcPeakFrequencyTurbulence();
        g->CalcPeakAmplitudeTurbulence();
        bs_check_eq(d.fPeakSoundWave, F, 1e-9, 0, "sound-wave peak frequency");
        bs_check_eq(d.fPeakTurbulence, Ft, 1e-9, 0, "turbulence peak frequency");
        bs_check_eq(d.h2OmegaPeakSoundWave, A, 1e-9, 0, "sound-wave peak amplitude");
        bs_check_eq(d.h2OmegaPeakTurbulence, At, 1e-9, 0, "turbulence peak amplitude");
      }
      long w = bs_choice("parts", 4);
      double got = g->CalcGWAmplitude(f, w & 1, w & 2);
      bs_check_eq(got, (w & 1 ? swRef(d, f, A, F) : 0) + (w & 2 ? turbRef(d, f, At, Ft) : 0), 1e-7, 0, w == 1 ? "spectrum on a fresh object (sw)" : w == 2 ? "spectrum on a fresh object (t)" : "spectrum on a fresh object");
    }
    if (cs == "hist")
    {
      double f0 = 1e-3;
      long w0 = bs_choice("first", 4), w = bs_choice("then", 4);
      g->CalcGWAmplitude(f0, w0 & 1, w0 & 2);
      double got = g->CalcGWAmplitude(f, w & 1, w & 2);
      bs_check_eq(got, (w & 1 ? swRef(d, f, A, F) : 0) + (w & 2 ? turbRef(d, f, At, Ft) : 0), 1e-7, 0, "spectrum after another evaluation");
    }
    if (cs == "snr")
    {
      long w   = bs_choice("parts", 4);
      d.swON = w & 1, d.turbON = w & 2;
      iProbe    = f;
      iF        = R("I", 0, 1e10);
      double lo = R("lo", 1e-7, 1e-3), hi = R("hi", 1e-2, 100), yr = R("years", 0.5, 10);
      double s  = g->GetSNR(lo, hi, yr);
      bs_check(icalls == 1, "one integration");
      bs_check_eq(ilo, lo, 0, 0, "lower frequency");
      bs_check_eq(ihi, hi, 0, 0, "upper frequency");
      double om = (w & 1 ? swRef(d, f, A, F) : 0) + (w & 2 ? turbRef(d, f, At, Ft) : 0), r = om / sens(f);
      bs_check_eq(iFval, r * r, 1e-7, 0, "signal-to-noise density");
      bs_check_eq(s * s, 365.25 * 86400 * yr * iF, 1e-9, 0, "signal-to-noise ratio");
      bs_check(d.status == StatusGW::Success, "success after the signal-to-noise ratio");
      bs_check(d.swON == bool(w & 1) && d.turbON == bool(w & 2), "contributions unchanged");
    }
  }
}
extern "C" void bs_harness_main()
{
  body();
  bs_reach("end");
}
