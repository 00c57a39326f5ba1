// Transition tracer: what is reported about every pair of phases, which steps
// are taken for which input, and the transition history.
// bsym-src: transition_tracer/transition_tracer.cpp utility/utility.cpp utility/Logger.cpp utility/spline/spline.cpp
#include "bs.h"
#include <BSMPT/transition_tracer/transition_tracer.h>
#include <BSMPT/models/ClassPotentialOrigin.h>
#include <cmath>
#include <cstring>
#include <new>
using namespace BSMPT;
static double R(const std::string &n, double lo, double hi) { return bs_real(n.c_str(), lo, hi); }
static user_input in;
static std::vector<CoexPhases> pairs;
static int nlo, ewsr, nEwsr, nNlo, nVac, nGlob, stTrace, stCoex;
static const std::vector<double> globPoint = {3, 4, 5}, globVev = {6, 7};
struct Bnc // what the bounce solution of a pair says
{
  bool ok = false;
  StatusTemperature st[4];
  double T[4];
  double alpha, beta, vw;
  int gwOk = 0;
  int calls[4] = {0, 0, 0, 0}, strength = 0, made = 0;
  double snr[4], fsw, hsw, ft, ht, ksw, kt, Tgw;
};
static Bnc bn[6];
static double pointOf(int phase, double T, int k) { return phase * 1000 + 7 * T + k; }
static Bnc &of(const BounceSolution *o) { return bn[o->indexTrueCandidatePhase]; }
namespace BSMPT
{
Phase::Phase() {}
CoexPhases::CoexPhases() {}
MinimumTracer::MinimumTracer(const std::shared_ptr<Class_Potential_Origin> &p, const int &w, const bool &m)
{
  bs_check(p == in.modelPointer && w == in.which_minimizer && m == in.use_multithreading, "minimizer as requested");
}
std::vector<std::string> MinimumTracer::GetLegend(const int &n, const bool &g)
{
  return {"legend", std::to_string(n), g ? "gw" : "no"};
}
std::vector<double> MinimumTracer::GetGlobalMinimum(const double &T)
{
  nGlob++;
  bs_check(T == 0, "vacuum at zero temperature");
  return globPoint;
}
std::vector<double> MinimumTracer::ConvertToVEVDim(const std::vector<double> &p)
{
  bs_check(p == globPoint, "global minimum");
  return globVev;
}
bool Class_Potential_Origin::CheckNLOVEV(const std::vector<double> &v) const
{
  nNlo++;
  bs_check(v == globVev, "global minimum in the vacuum directions");
  return nlo;
}
StatusNLOStability MinimumTracer::GetStatusNLOVEV(const bool &b)
{
  return b ? StatusNLOStability::Success : StatusNLOStability::NoNLOStability;
}
int MinimumTracer::IsThereEWSymmetryRestoration()
{
  nEwsr++;
  return ewsr;
}
static StatusEWSR toEwsr(int s)
{
  return s < 0 ? StatusEWSR::NotBFB : s == 0 ? StatusEWSR::Failure : s == 1 ? StatusEWSR::FlatRegion : s == 2 ? StatusEWSR::EWSymNonRes : StatusEWSR::EWSymRes;
}
StatusEWSR MinimumTracer::GetStatusEWSR(const int &s)
{
  bs_check(s == ewsr, "status of the restoration");
  return toEwsr(s);
}
Vacuum::Vacuum(const double &lo, const double &hi, std::shared_ptr<MinimumTracer> &, std::shared_ptr<Class_Potential_Origin> &m, const int &mode, const int &n, const bool &)
{
  nVac++;
  bs_check(bs_same(lo, in.T_low) && bs_same(hi, in.T_high) && mode == in.multistepmode && n == in.num_points && m == in.modelPointer, "traced as requested");
  CoexPhasesList    = pairs;
  status_vacuum     = stTrace == 1 ? StatusTracing::NoCoverage : StatusTracing::Success;
  status_coex_pairs = stCoex == 1 ? StatusCoexPair::NoCoexPairs : StatusCoexPair::Success;
}
Minimum Phase::Get(double T)
{
  Minimum m;
  m.point = {pointOf(id, T, 0), pointOf(id, T, 1)};
  m.temp  = T;
  return m;
}
BounceSolution::BounceSolution(const std::shared_ptr<Class_Potential_Origin> &m, const std::shared_ptr<MinimumTracer> &, const CoexPhases &p, const double &vw, const double &eps, const int &mp, const size_t &ns)
{
  indexTrueCandidatePhase = p.coex_pair_id;
  bs_check(of(this).made++ == 0, "one bounce solution for every pair");
  bs_check(m == in.modelPointer && bs_same(vw, in.vwall) && bs_same(eps, in.epsturb) && mp == in.maxpathintegrations && ns == in.number_of_initial_scan_temperatures, "bounce solution as requested");
  bs_check(p.crit_status == StatusCrit::Success || p.crit_status == StatusCrit::TrueLower, "bounce solution of pairs that can tunnel only");
  status_bounce_sol = of(this).ok ? StatusGW::Success : StatusGW::Failure;
}
static void calc(BounceSolution *o, int k, StatusTemperature &s, double &T)
{
  Bnc &x = of(o);
  x.calls[k]++;
  bs_check(x.ok, "temperatures of bounce solutions only");
  s = x.st[k];
  T = s == StatusTemperature::Success ? x.T[k] : -1;
}
void BounceSolution::CalculateNucleationTempApprox() { calc(this, 0, status_nucl_approx, Tnucl_approx); }
void BounceSolution::CalculateNucleationTemp() { calc(this, 1, status_nucl, Tnucl); }
void BounceSolution::CalculatePercolationTemp(const double &f)
{
  bs_check(bs_same(f, in.perc_prbl), "requested percolation fraction");
  calc(this, 2, status_perc, Tperc);
}
void BounceSolution::CalculateCompletionTemp(const double &f)
{
  bs_check(bs_same(f, in.compl_prbl), "requested completion fraction");
  calc(this, 3, status_compl, Tcompl);
}
double BounceSolution::GetNucleationTempApprox() const { return Tnucl_approx; }
double BounceSolution::GetNucleationTemp() const { return Tnucl; }
double BounceSolution::GetPercolationTemp() const { return Tperc; }
double BounceSolution::GetCompletionTemp() const { return Tcompl; }
void BounceSolution::CalculatePTStrength()
{
  Bnc &x = of(this);
  bs_check(status_perc == StatusTemperature::Success, "strength needs a percolation temperature");
  x.strength++;
  alpha = x.alpha, vwall = x.vw;
}
double BounceSolution::GetWallVelocity() const { return vwall; }
double BounceSolution::GetPTStrength() const { return alpha; }
double BounceSolution::GetInvTimeScale() { return of(this).beta; }
static Bnc *gwOf;
GravitationalWave::GravitationalWave(BounceSolution &b, const int &w)
{
  bs_check(w == in.which_transition_temp, "waves at the requested temperature");
  gwOf = &of(&b);
  bs_check(gwOf->strength == 1, "waves after the strength");
  data.status         = gwOf->gwOk ? StatusGW::Success : StatusGW::Failure;
  data.transitionTemp = gwOf->Tgw;
}
GravitationalWave::~GravitationalWave() {}
void GravitationalWave::CalcPeakFrequencySoundWave() { data.fPeakSoundWave = gwOf->fsw, data.K_sw = gwOf->ksw; }
void GravitationalWave::CalcPeakAmplitudeSoundWave() { data.h2OmegaPeakSoundWave = gwOf->hsw; }
void GravitationalWave::CalcPeakFrequencyTurbulence() { data.fPeakTurbulence = gwOf->ft, data.K_turb = gwOf->kt; }
void GravitationalWave::CalcPeakAmplitudeTurbulence() { data.h2OmegaPeakTurbulence = gwOf->ht; }
double GravitationalWave::GetSNR(const double a, const double c, const double)
{
  bs_check(a > 0 && c > a, "frequency range");
  return gwOf->snr[(data.swON ? 1 : 0) + (data.turbON ? 2 : 0)];
}
} // namespace BSMPT
static char modelRaw[sizeof(Class_Potential_Origin)];
static bool same(const std::optional<double> &o, bool has, double v) { return o.has_value() == has && (!has || bs_same(*o, v)); }
static void vev(const std::vector<double> &v, bool has, int phase, double T, const char *what)
{
  bs_check(v.size() == 2, what);
  if (v.size() != 2) return;
  for (int k = 0; k < 2; k++)
    if (has)
      bs_check_eq(v[k], pointOf(phase, T, k), 1e-12, 0, what);
    else
      bs_check(!bs_is_sym(v[k]) && std::isnan(v[k]), what);
}
static void fill(int i, bool full)
{
  std::string k = std::to_string(i);
  Bnc &x        = bn[i];
  for (int j = 0; j < 4; j++)
    x.T[j] = R("T" + std::to_string(j) + "_" + k, 20, 200);
  if (!full) return;
  x.alpha = R("alpha" + k, 0, 1), x.beta = R("beta" + k, 1, 1e4), x.vw = R("vw" + k, 0, 1);
  for (int j = 0; j < 4; j++)
    x.snr[j] = R("snr" + std::to_string(j) + "_" + k, 0, 100);
  x.fsw = R("fsw" + k, 0, 1), x.hsw = R("hsw" + k, 0, 1), x.ft = R("ft" + k, 0, 1), x.ht = R("ht" + k, 0, 1);
  x.ksw = R("ksw" + k, 0, 1), x.kt = R("kt" + k, 0, 1), x.Tgw = R("Tgw" + k, 1, 200);
}
static void body()
{
  std::string cs = bs_case();
  auto *m        = reinterpret_cast<Class_Potential_Origin *>(modelRaw);
  ISMConstants sm{};
  new ((void *)&m->SMConstants) ISMConstants(sm);
  m->nVEV         = 2;
  in.modelPointer = std::shared_ptr<Class_Potential_Origin>(m, [](Class_Potential_Origin *) {});
  in.T_low = R("Tlow", 0, 10), in.T_high = R("Thigh", 200, 400);
  in.vwall = R("vwall", 0, 1), in.epsturb = R("eps", 0, 1);
  in.perc_prbl = R("perc", 0.5, 0.9), in.compl_prbl = R("compl", 0.001, 0.1);
  in.maxpathintegrations = 9, in.multistepmode = 2, in.num_points = 13, in.which_minimizer = 5, in.use_multithreading = true;
  in.number_of_initial_scan_temperatures = 17;
  auto mkPair = [&](int f, int t)
  {
    CoexPhases p;
    p.coex_pair_id   = pairs.size();
    p.false_phase.id = f, p.true_phase.id = t;
    p.T_low = 0, p.T_high = 300;
    p.crit_temp   = R("Tc" + std::to_string(pairs.size()), 20, 250);
    p.crit_status = StatusCrit::Success;
    pairs.push_back(p);
  };
  nlo = 1, ewsr = 3;
  if (cs == "steps")
  {
    in.nlo_check = bs_choice("nlo_check", 2);
    nlo          = bs_choice("nlo", 2);
    in.ewsr_check = bs_choice("ewsr_check", 4);
    ewsr          = bs_choice("ewsr", 5) - 1;
    stTrace       = bs_choice("tracing", 2);
    stCoex        = bs_choice("coex", 2);
    in.gw_calculation = bs_choice("gw", 2);
    mkPair(0, 1);
    fill(0, false);
    TransitionTracer t(in);
    auto &o     = t.output_store;
    bool stable = !in.nlo_check || nlo;
    bs_check(o.status.status_nlo_stability == (!in.nlo_check ? StatusNLOStability::Off : nlo ? StatusNLOStability::Success : StatusNLOStability::NoNLOStability), "status of the stability");
    bs_check(nNlo == (in.nlo_check ? 1 : 0), "stability checked exactly if requested");
    bs_check(nEwsr == (stable && in.ewsr_check > 0 ? 1 : 0), "restoration checked exactly if requested");
    StatusEWSR want = !stable ? StatusEWSR::NotSet : in.ewsr_check == 0 ? StatusEWSR::Off : toEwsr(ewsr);
    bs_check(o.status.status_ewsr == want, "status of the restoration reported");
    bool go = stable && !(in.ewsr_check == 2 && ewsr < 2) && !(in.ewsr_check == 3 && ewsr < 3);
    bs_check(nVac == (go ? 1 : 0), "phases are traced exactly if the point passes");
    if (!go)
    {
      bs_check(o.status.status_tracing == StatusTracing::NotSet && o.status.status_coex_pairs == StatusCoexPair::NotSet, "nothing traced");
      bs_check(o.num_coex_phase_pairs == 0, "no pairs");
    }
    else
    {
      bs_check(o.status.status_tracing == (stTrace ? StatusTracing::NoCoverage : StatusTracing::Success), "status of the tracing");
      bs_check(o.status.status_coex_pairs == (stCoex ? StatusCoexPair::NoCoexPairs : StatusCoexPair::Success), "status of the pairs");
      bs_check(o.num_coex_phase_pairs == 1, "number of pairs");
    }
    bool all = go && !stTrace && !stCoex;
    size_t n = all ? 1 : 0;
    bs_check(o.vec_trans_data.size() == n && o.vec_gw_data.size() == n && o.status.status_crit.size() == n && bn[0].made == (int)n, "pairs are evaluated exactly after successful tracing");
    bs_check(o.transition_history == (all ? "0" : "not_set"), "history");
    bs_check(o.legend.size() == 3 && o.legend[1] == (all ? "1" : "0") && o.legend[2] == (in.gw_calculation ? "gw" : "no"), "legend");
    return;
  }
  in.nlo_check = 0, in.ewsr_check = 0;
  if (cs == "history")
  {
    int f[5] = {0, 0, 1, 1, 2}, t[5] = {1, 2, 2, 3, 3};
    for (int i = 0; i < 5; i++)
    {
      mkPair(f[i], t[i]);
      fill(i, false);
      bn[i].ok = true;
      int c    = bs_choice(("compl" + std::to_string(i)).c_str(), 2);
      for (int j = 0; j < 4; j++)
        bn[i].st[j] = c ? StatusTemperature::Success : StatusTemperature::NotMet;
    }
    TransitionTracer tr(in);
    std::string want = "0";
    int cur          = 0;
    for (;;)
    {
      int best = -1;
      for (int i = 0; i < 5; i++)
        if (f[i] == cur && bn[i].st[3] == StatusTemperature::Success && (best < 0 || bs_decide(bn[i].T[3] > bn[best].T[3]))) best = i;
      if (best < 0) break;
      cur = t[best];
      want += "-(" + std::to_string(best) + ")->" + std::to_string(cur);
    }
    bs_check(tr.output_store.transition_history == want, "history follows the first transition to complete");
    return;
  }
  // report: one pair in full, with another one before it
  in.gw_calculation = bs_choice("gw", 2);
  int crit          = bs_choice("crit", 4);
  StatusCrit cst[4] = {StatusCrit::Success, StatusCrit::TrueLower, StatusCrit::FalseLower, StatusCrit::Failure};
  mkPair(0, 1);
  mkPair(1, 2);
  fill(0, false), fill(1, true);
  pairs[0].crit_status = StatusCrit::FalseLower;
  pairs[1].crit_status = cst[crit];
  bool tun             = crit < 2;
  Bnc &x               = bn[1];
  x.ok                 = tun ? bs_choice("bounce", 2) : 0;
  in.which_transition_temp = x.ok && in.gw_calculation ? 1 + bs_choice("which", 4) : 3;
  for (int j = 0; j < 4; j++)
    x.st[j] = x.ok && bs_choice(("st" + std::to_string(j)).c_str(), 2) ? StatusTemperature::Success : StatusTemperature::NotMet;
  bool wave = x.ok && in.gw_calculation && x.st[2] == StatusTemperature::Success && x.st[in.which_transition_temp - 1] == StatusTemperature::Success;
  x.gwOk    = wave ? bs_choice("waves", 2) : 0;
  TransitionTracer t(in);
  auto &o = t.output_store;
  auto &s = o.status;
  bs_check(o.vec_trans_data.size() == 2 && o.vec_gw_data.size() == 2 && s.status_crit.size() == 2 && s.status_bounce_sol.size() == 2 && s.status_nucl_approx.size() == 2 && s.status_nucl.size() == 2 && s.status_perc.size() == 2 && s.status_compl.size() == 2, "one entry for every pair");
  if (o.vec_trans_data.size() != 2 || s.status_compl.size() != 2) return;
  bs_check(s.status_crit[0] == StatusCrit::FalseLower && s.status_crit[1] == cst[crit], "status of the critical temperature");
  bs_check(s.status_bounce_sol[0] == StatusGW::NotSet && s.status_bounce_sol[1] == (!tun ? StatusGW::NotSet : x.ok ? StatusGW::Success : StatusGW::Failure), "status of the bounce solution");
  bs_check(x.made == (tun ? 1 : 0) && bn[0].made == 0, "bounce solution exactly for pairs that can tunnel");
  StatusTemperature got[4] = {s.status_nucl_approx[1], s.status_nucl[1], s.status_perc[1], s.status_compl[1]};
  StatusTemperature g0[4]  = {s.status_nucl_approx[0], s.status_nucl[0], s.status_perc[0], s.status_compl[0]};
  auto &d                  = o.vec_trans_data[1];
  const std::optional<double> *T[4] = {&d.nucl_approx_temp, &d.nucl_temp, &d.perc_temp, &d.compl_temp};
  const std::vector<double> *V[4]   = {&d.nucl_approx_true_vev, &d.nucl_true_vev, &d.perc_true_vev, &d.compl_true_vev};
  const std::vector<double> *F[4]   = {&d.nucl_approx_false_vev, &d.nucl_false_vev, &d.perc_false_vev, &d.compl_false_vev};
  bs_check(same(d.crit_temp, true, pairs[1].crit_temp), "critical temperature");
  vev(d.crit_true_vev, tun, 2, pairs[1].crit_temp, "vacua at the critical temperature");
  vev(d.crit_false_vev, tun, 1, pairs[1].crit_temp, "vacua at the critical temperature");
  for (int j = 0; j < 4; j++)
  {
    bs_check(g0[j] == StatusTemperature::NaN, "status of a pair that cannot tunnel");
    bs_check(got[j] == (x.ok ? x.st[j] : StatusTemperature::NaN), "status of the temperatures");
    bool has = x.ok && x.st[j] == StatusTemperature::Success;
    bs_check(same(*T[j], has, x.T[j]), "temperature exactly if found");
    vev(*V[j], has, 2, x.T[j], "true vacuum at the temperature");
    vev(*F[j], has, 1, x.T[j], "false vacuum at the temperature");
    bs_check(x.calls[j] == (x.ok ? 1 : 0), "every temperature once");
  }
  auto &g = o.vec_gw_data[1];
  bs_check(same(g.vwall, wave, x.vw) && same(g.alpha, wave, x.alpha) && same(g.beta_over_H, wave, x.beta), "strength, velocity and time scale");
  bs_check(same(g.trans_temp, wave, x.Tgw), "transition temperature of the waves");
  bool sp = wave && x.gwOk;
  bs_check(g.status_gw == (!wave ? StatusGW::NotSet : x.gwOk ? StatusGW::Success : StatusGW::Failure), "status of the waves");
  bs_check(same(g.fpeak_sw, sp, x.fsw) && same(g.h2Omega_sw, sp, x.hsw) && same(g.K_sw, sp, x.ksw), "sound waves");
  bs_check(same(g.fpeak_turb, sp, x.ft) && same(g.h2Omega_turb, sp, x.ht) && same(g.K_turb, sp, x.kt), "turbulence");
  bs_check(same(g.SNR_sw, sp, x.snr[1]) && same(g.SNR_turb, sp, x.snr[2]) && same(g.SNR, sp, x.snr[3]), "signal-to-noise ratios");
  auto &e = o.vec_gw_data[0];
  bs_check(!e.alpha && !e.SNR && !e.trans_temp && e.status_gw == StatusGW::NotSet, "no waves from a pair that cannot tunnel");
}
extern "C" void bs_harness_main()
{
  body();
  bs_reach("end");
}
