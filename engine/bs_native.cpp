// Native side of the harness API: inputs come from a replay file
// ("name value" per line), checks are evaluated in ordinary double arithmetic.
#include "bs.h"
#include <cmath>
#include <cstdio>
#include <cstring>
#include <exception>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
static std::map<std::string, double> in;
static int autoN = 0, fails = 0, checks = 0;
static std::vector<double> isq;
static size_t isqPos = 0;
static bool isqOn    = false;
static const char *only = nullptr;
extern "C"
{
  double bs_real(const char *n, double lo, double hi)
  {
    auto it = in.find(n);
    return it == in.end() ? 0.5 * (lo + hi) : it->second;
  }
  double bs_fresh(const char *p, double lo, double hi)
  {
    return bs_real((std::string(p) + "#" + std::to_string(autoN++)).c_str(),
                   lo,
                   hi);
  }
  long bs_int(const char *n, long lo, long hi)
  {
    auto it = in.find(n);
    return it == in.end() ? lo : lround(it->second);
  }
  long bs_freshint(const char *p, long lo, long hi)
  {
    return bs_int((std::string(p) + "#" + std::to_string(autoN++)).c_str(),
                  lo,
                  hi);
  }
  long bs_choice(const char *n, long k) { return bs_int(n, 0, k - 1); }
  static void done()
  {
    fprintf(stderr, "replay: %d checks, %d failed\n", checks, fails);
    fflush(stdout);
    _Exit(fails ? 1 : 0);
  }
  void bs_assume(int c)
  {
    if (!c)
    {
      fprintf(stderr, "replay: assumption not satisfied\n");
      fflush(stdout);
      _Exit(fails ? 1 : 77);
    }
  }
  void bs_check(int c, const char *l)
  {
    if (only && strcmp(only, l)) return;
    checks++;
    if (!c)
    {
      fails++;
      fprintf(stderr, "REPLAY-FAIL %s\n", l);
    }
  }
  void bs_check_eq(double a, double b, double rt, double at, const char *l)
  {
    if (only && strcmp(only, l)) return;
    checks++;
    double d = std::fabs(a - b);
    if (!(d <= at + rt * std::fmax(std::fabs(a), std::fabs(b))))
    {
      fails++;
      fprintf(stderr, "REPLAY-FAIL %s: %.17g vs %.17g\n", l, a, b);
    }
  }
  void bs_reach(const char *) {}
  int bs_decide(int c) { return c; }
  int bs_symbolic() { return 0; }
  int bs_is_sym(double) { return 0; }
  int bs_same(double a, double b) { return a == b; }
  void bs_note(const char *) {}
  void bs_show(const char *n, double v)
  {
    fprintf(stderr, "%s = %.17g\n", n, v);
  }
  void bs_istream_push(double v)
  {
    isq.push_back(v);
    isqOn = true;
  }
  double bs_deriv(double, double) { return 0; }
  void bs_generic(int) {}
  void bs_istream_reset()
  {
    isq.clear();
    isqPos = 0;
    isqOn  = false;
  }
  int bs_istream_next(double *p)
  {
    if (!isqOn || isqPos >= isq.size()) return 0;
    *p = isq[isqPos++];
    return 1;
  }
  void bs_end_path() { done(); }
}
int main(int argc, char **argv)
{
  only = getenv("BS_ONLY");
  if (argc > 1)
  {
    std::ifstream f(argv[1]);
    std::string line;
    while (std::getline(f, line))
    {
      size_t p = line.rfind(' ');
      if (p == std::string::npos || line[0] == '#') continue;
      in[line.substr(0, p)] = strtod(line.c_str() + p + 1, nullptr);
    }
  }
  try
  {
    bs_harness_main();
  }
  catch (std::exception &e)
  {
    fprintf(stderr, "REPLAY-EXCEPTION %s\n", e.what());
    return 3;
  }
  catch (...)
  {
    fprintf(stderr, "REPLAY-EXCEPTION\n");
    return 3;
  }
  done();
}
