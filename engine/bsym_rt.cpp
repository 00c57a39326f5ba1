// Runtime of the bsym symbolic executor: expression DAG, shadow memory, forking
// on undecided branches (z3), and the decision procedures for obligations.
#include "bsym_rt.h"
#include <csetjmp>
#include <csignal>
#include <cmath>
#include <csignal>
#include <cstring>
#include <fcntl.h>
#include <limits>
#include <semaphore.h>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_map>
#include <map>
#include <vector>
#include <algorithm>
#include <functional>
#include <sstream>
#include <iostream>

using namespace bsym;

namespace bsym
{
std::vector<Node> N(1);
Shared *SH = nullptr;
std::vector<Input> inputs;
std::vector<u32> pc;
Config cfg;
}

extern "C"
{
  uint64_t rt_args[128];
  uint64_t rt_argtag;
  uint64_t rt_ret[64];
  uint64_t rt_rettag;
  u32 rt_s;
  extern unsigned char rt_cov_bytes[];
  extern const char rt_cov_names[];
  extern const uint64_t rt_cov_n;
}

// ------------------------------------------------------------------ errors --
static uint64_t SIGBITS = 0x7ff8b5b5c0ffee11ull;
double bsym::symval()
{
  double d;
  memcpy(&d, &SIGBITS, 8);
  return d;
}
static bool isSig(double d)
{
  uint64_t b;
  memcpy(&b, &d, 8);
  return (b & 0x0000ffffffffffffull) == (SIGBITS & 0x0000ffffffffffffull) &&
         d != d;
}
static std::string jesc(const std::string &s)
{
  std::string r;
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\')
    {
      r += '\\';
      r += c;
    }
    else if (c < 32)
    {
      char b[8];
      snprintf(b, 8, "\\u%04x", c);
      r += b;
    }
    else
      r += c;
  }
  return r;
}
std::string bsym::jstr(const std::string &s) { return "\"" + jesc(s) + "\""; }
void bsym::emit(const std::string &line)
{
  std::string l = line + "\n";
  size_t off    = 0;
  while (off < l.size())
  {
    ssize_t w = write(cfg.outfd, l.data() + off, l.size() - off);
    if (w <= 0) break;
    off += w;
  }
}
static std::vector<pid_t> kids;
static bool holdsToken = false;
static unsigned char *covShared = nullptr;
static void finishProcess(int code)
{
  for (uint64_t i = 0; i < rt_cov_n; i++)
    if (rt_cov_bytes[i]) covShared[i] = 1;
  // wait for concurrently running children
  if (holdsToken)
  {
    // give the token back before waiting
    sem_post(&SH->tokens);
    holdsToken = false;
  }
  for (pid_t k : kids)
  {
    int st;
    waitpid(k, &st, 0);
    if (!WIFEXITED(st) || (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 9))
    {
      emit("{\"kind\":\"error\",\"msg\":\"path process died: status " +
           std::to_string(st) + "\"}");
    }
  }
  fflush(stdout);
  _exit(code);
}
static bool pathErr = false;
void bsym::pathError(const std::string &msg)
{
  emit("{\"kind\":\"error\",\"msg\":" + jstr(msg) + "}");
  pathErr = true;
  __sync_fetch_and_add(&SH->errors, 1);
  finishProcess(9);
  abort();
}

// --------------------------------------------------------------- nodes ------
namespace
{
struct Key
{
  int op;
  u32 a, b;
  uint64_t bits;
  bool operator==(const Key &o) const
  {
    return op == o.op && a == o.a && b == o.b && bits == o.bits;
  }
};
struct KeyH
{
  size_t operator()(const Key &k) const
  {
    uint64_t h = k.op * 0x9e3779b97f4a7c15ull;
    h ^= (h >> 29) + k.a * 0xbf58476d1ce4e5b9ull;
    h ^= (h >> 31) + k.b * 0x94d049bb133111ebull;
    h ^= (h >> 30) + k.bits * 0x2545F4914F6CDD1Dull;
    return h ^ (h >> 32);
  }
};
std::unordered_map<Key, u32, KeyH> cons;
double dn(double x) { return std::nextafter(x, -INFINITY); }
double up(double x) { return std::nextafter(x, INFINITY); }

void interval(Node &n)
{
  auto &A   = N[n.a];
  auto &B   = N[n.b];
  double lo = -INFINITY, hi = INFINITY;
  auto set = [&](double l, double h)
  {
    if (l != l) l = -INFINITY;
    if (h != h) h = INFINITY;
    lo = dn(l);
    hi = up(h);
  };
  switch (n.op)
  {
  case CF: lo = hi = n.d; break;
  case CI: lo = hi = (double)n.i; break;
  case ADD: set(A.lo + B.lo, A.hi + B.hi); break;
  case SUB:
    if (n.a == n.b)
      lo = hi = 0;
    else
      set(A.lo - B.hi, A.hi - B.lo);
    break;
  case NEG:
    lo = -A.hi;
    hi = -A.lo;
    break;
  case MUL:
  {
    auto m = [](double x, double y) { return (x == 0 || y == 0) ? 0. : x * y; };
    double c[4] = {
        m(A.lo, B.lo), m(A.lo, B.hi), m(A.hi, B.lo), m(A.hi, B.hi)};
    set(*std::min_element(c, c + 4), *std::max_element(c, c + 4));
    if (n.a == n.b && lo < 0) lo = 0;
    break;
  }
  case DIV:
    if (B.lo > 0 || B.hi < 0)
    {
      double c[4] = {A.lo / B.lo, A.lo / B.hi, A.hi / B.lo, A.hi / B.hi};
      bool nan    = false;
      for (double x : c)
        if (x != x) nan = true;
      if (!nan) set(*std::min_element(c, c + 4), *std::max_element(c, c + 4));
    }
    break;
  case FN1:
  {
    auto mono = [&](double (*f)(double))
    {
      double l = f(A.lo), h = f(A.hi);
      set(dn(l), up(h));
    };
    switch (n.fn)
    {
    case 1:
      if (A.lo >= 0)
        mono(std::sqrt);
      else
        set(0, std::sqrt(A.hi));
      if (lo < 0) lo = 0;
      break;
    case 2:
      mono(std::exp);
      if (lo < 0) lo = 0;
      break;
    case 3:
      if (A.lo > 0)
        mono(std::log);
      else if (A.hi > 0)
        set(-INFINITY, std::log(A.hi));
      break;
    case 4:
    case 5: set(-1, 1); break;
    case 7: mono(std::atan); break;
    case 8: set(-1.5707963267948968, 1.5707963267948968); break;
    case 9: set(0, 3.1415926535897936); break;
    case 10: mono(std::sinh); break;
    case 11: lo = 1; break;
    case 12: mono(std::tanh); break;
    case 13:
      if (A.lo >= 0)
        lo = A.lo, hi = A.hi;
      else if (A.hi <= 0)
        lo = -A.hi, hi = -A.lo;
      else
        lo = 0, hi = std::max(-A.lo, A.hi);
      break;
    case 14: lo = std::floor(A.lo), hi = std::floor(A.hi); break;
    case 15: lo = std::ceil(A.lo), hi = std::ceil(A.hi); break;
    case 20: lo = std::trunc(A.lo), hi = std::trunc(A.hi); break;
    case 23: lo = std::round(A.lo), hi = std::round(A.hi); break;
    default: break;
    }
    break;
  }
  case FN2:
    switch (n.fn)
    {
    case 40:
      if (A.lo >= 0)
      {
        if (B.op == CF && B.d >= 0)
          set(dn(std::pow(A.lo, B.d)), up(std::pow(A.hi, B.d)));
        else if (B.op == CF && A.lo > 0)
          set(dn(std::pow(A.hi, B.d)), up(std::pow(A.lo, B.d)));
        if (lo < 0) lo = 0;
      }
      else if (B.op == CF && B.d == std::floor(B.d) &&
               std::fmod(B.d, 2) == 0)
        lo = 0;
      break;
    case 41: set(-3.1415926535897936, 3.1415926535897936); break;
    case 42:
      lo = std::min(A.lo, B.lo);
      hi = std::min(A.hi, B.hi);
      break;
    case 43:
      lo = std::max(A.lo, B.lo);
      hi = std::max(A.hi, B.hi);
      break;
    default: break;
    }
    break;
  case I2F: lo = A.lo, hi = A.hi; break;
  case F2I: lo = std::trunc(A.lo), hi = std::trunc(A.hi); break;
  case IADD: lo = A.lo + B.lo, hi = A.hi + B.hi; break;
  case ISUB: lo = A.lo - B.hi, hi = A.hi - B.lo; break;
  case IMUL:
  {
    double c[4] = {A.lo * B.lo, A.lo * B.hi, A.hi * B.lo, A.hi * B.hi};
    lo          = *std::min_element(c, c + 4);
    hi          = *std::max_element(c, c + 4);
    break;
  }
  case IDIV:
  case IREM:
    if (n.op == IDIV)
    {
      if (B.lo == B.hi && B.lo != 0)
      {
        double x = std::trunc(A.lo / B.lo), y = std::trunc(A.hi / B.lo);
        lo = std::min(x, y);
        hi = std::max(x, y);
      }
    }
    else if (B.lo == B.hi && B.lo != 0)
    {
      double m = std::fabs(B.lo) - 1;
      lo       = A.lo >= 0 ? 0 : -m;
      hi       = A.hi <= 0 ? 0 : m;
    }
    break;
  case B2I: lo = 0, hi = 1; break;
  default: break;
  }
  n.lo = lo;
  n.hi = hi;
}

u32 mk(int op, Ty ty, u32 a, u32 b, int fn, uint64_t bits, int64_t i, double d)
{
  Key k{op | (fn << 8) | (ty << 20), a, b, bits};
  auto it = cons.find(k);
  if (it != cons.end()) return it->second;
  Node n;
  n.op = op;
  n.ty = ty;
  n.a  = a;
  n.b  = b;
  n.fn = fn;
  n.i  = i;
  n.d  = d;
  if (op == CF || op == CI || op == CB)
    n.sz = 1;
  else
    n.sz = 1;
  interval(n);
  u32 id = N.size();
  N.push_back(n);
  cons[k] = id;
  if (id > cfg.maxNodes) pathError("too many expression nodes");
  return id;
}
} // namespace

u32 bsym::cf(double d)
{
  if (d != d) pathError("NaN constant in symbolic expression");
  if (d == 0) d = 0.0;
  uint64_t b;
  memcpy(&b, &d, 8);
  return mk(CF, TF, 0, 0, 0, b, 0, d);
}
u32 bsym::ci(int64_t i) { return mk(CI, TI, 0, 0, 0, (uint64_t)i, i, 0); }
u32 bsym::cb(bool b) { return mk(CB, TB, 0, 0, 0, b, b, 0); }
static u32 lift(double v, u32 s) { return s ? s : cf(v); }
static u32 lifti(int64_t v, u32 s) { return s ? s : ci(v); }

u32 bsym::fadd(u32 a, u32 b)
{
  if (N[a].op == CF && N[b].op == CF) return cf(N[a].d + N[b].d);
  if (N[a].op == CF && N[a].d == 0) return b;
  if (N[b].op == CF && N[b].d == 0) return a;
  if (N[b].op == NEG) return fsub(a, N[b].a);
  if (a > b) std::swap(a, b);
  return mk(ADD, TF, a, b, 0, 0, 0, 0);
}
u32 bsym::fsub(u32 a, u32 b)
{
  if (a == b) return cf(0);
  if (N[a].op == CF && N[b].op == CF) return cf(N[a].d - N[b].d);
  if (N[b].op == CF && N[b].d == 0) return a;
  if (N[a].op == CF && N[a].d == 0) return fneg(b);
  return mk(SUB, TF, a, b, 0, 0, 0, 0);
}
u32 bsym::fneg(u32 a)
{
  if (N[a].op == CF) return cf(-N[a].d);
  if (N[a].op == NEG) return N[a].a;
  if (N[a].op == SUB) return fsub(N[a].b, N[a].a);
  return mk(NEG, TF, a, 0, 0, 0, 0, 0);
}
u32 bsym::fmul(u32 a, u32 b)
{
  if (N[a].op == CF && N[b].op == CF) return cf(N[a].d * N[b].d);
  for (int k = 0; k < 2; k++)
  {
    if (N[a].op == CF)
    {
      if (N[a].d == 0) return cf(0);
      if (N[a].d == 1) return b;
      if (N[a].d == -1) return fneg(b);
    }
    std::swap(a, b);
  }
  if (a > b) std::swap(a, b);
  return mk(MUL, TF, a, b, 0, 0, 0, 0);
}
static u32 divZeroVar(const std::string &nm);
u32 bsym::fdiv(u32 a, u32 b)
{
  if (N[a].op == CF && N[b].op == CF)
  {
    if (N[b].d == 0) pathError("constant division by zero in expression");
    return cf(N[a].d / N[b].d);
  }
  if (N[b].op == CF && N[b].d == 1) return a;
  if (N[b].op == CF && N[b].d == -1) return fneg(a);
  if (N[b].op == CF && N[b].d == 0)
  {
    // infinite or NaN: an arbitrary value nobody may rely on
    static int k = 0;
    return divZeroVar("divzero#" + std::to_string(k++));
  }
  if (N[a].op == CF && N[a].d == 0) return cf(0);
  if (a == b) return cf(1);
  return mk(DIV, TF, a, b, 0, 0, 0, 0);
}
double bsym::evalFn1(int fn, double x)
{
  switch (fn)
  {
  case 1: return std::sqrt(x);
  case 2: return std::exp(x);
  case 3: return std::log(x);
  case 4: return std::sin(x);
  case 5: return std::cos(x);
  case 6: return std::tan(x);
  case 7: return std::atan(x);
  case 8: return std::asin(x);
  case 9: return std::acos(x);
  case 10: return std::sinh(x);
  case 11: return std::cosh(x);
  case 12: return std::tanh(x);
  case 13: return std::fabs(x);
  case 14: return std::floor(x);
  case 15: return std::ceil(x);
  case 16: return std::log10(x);
  case 17: return std::cbrt(x);
  case 18: return std::log2(x);
  case 19: return std::exp2(x);
  case 20: return std::trunc(x);
  case 21: return std::log1p(x);
  case 22: return std::expm1(x);
  case 23: return std::round(x);
  case 24: return std::nearbyint(x);
  case 25: return std::pow(10., x);
  }
  return NAN;
}
double bsym::evalFn2(int fn, double x, double y)
{
  switch (fn)
  {
  case 40: return std::pow(x, y);
  case 41: return std::atan2(x, y);
  case 42: return std::fmin(x, y);
  case 43: return std::fmax(x, y);
  case 44: return std::hypot(x, y);
  case 45: return std::copysign(x, y);
  case 46: return std::fmod(x, y);
  case 47: return std::fdim(x, y);
  }
  return NAN;
}
u32 bsym::fn1(int fn, u32 a)
{
  if (N[a].op == CF) return cf(evalFn1(fn, N[a].d));
  // keep copies: N may be reallocated below
  int aop = N[a].op, afn = N[a].fn;
  u32 aa     = N[a].a;
  double alo = N[a].lo, ahi = N[a].hi;
  switch (fn)
  {
  case 6: return fdiv(fn1(4, a), fn1(5, a));
  case 4:
    if (aop == FN1 && afn == 7) // sin(atan y)
      return fdiv(aa, fn1(1, fadd(cf(1), fmul(aa, aa))));
    if (aop == FN1 && afn == 8) return aa;
    if (aop == FN1 && afn == 9) return fn1(1, fsub(cf(1), fmul(aa, aa)));
    if (aop == NEG) return fneg(fn1(4, aa));
    break;
  case 5:
    if (aop == FN1 && afn == 7)
      return fdiv(cf(1), fn1(1, fadd(cf(1), fmul(aa, aa))));
    if (aop == FN1 && afn == 9) return aa;
    if (aop == FN1 && afn == 8) return fn1(1, fsub(cf(1), fmul(aa, aa)));
    if (aop == NEG) return fn1(5, aa);
    break;
  case 10:
    return fmul(cf(0.5), fsub(fn1(2, a), fn1(2, fneg(a))));
  case 11:
    return fmul(cf(0.5), fadd(fn1(2, a), fn1(2, fneg(a))));
  case 12:
    return fdiv(fsub(fn1(2, a), fn1(2, fneg(a))),
                fadd(fn1(2, a), fn1(2, fneg(a))));
  case 13:
    if (alo >= 0) return a;
    if (ahi <= 0) return fneg(a);
    if (aop == NEG) return fn1(13, aa);
    if (aop == SUB && N[a].a > N[a].b) return fn1(13, fsub(N[a].b, N[a].a));
    break;
  case 16: return fmul(cf(1. / std::log(10.)), fn1(3, a));
  case 18: return fmul(cf(1. / std::log(2.)), fn1(3, a));
  case 19: return fn1(2, fmul(cf(std::log(2.)), a));
  case 25: return fn1(2, fmul(cf(std::log(10.)), a));
  case 21: return fn1(3, fadd(cf(1), a));
  case 22: return fsub(fn1(2, a), cf(1));
  case 3:
    if (aop == FN1 && afn == 2) return aa;
    if (aop == FN1 && afn == 1 && N[aa].lo > 0) return fmul(cf(0.5), fn1(3, aa));
    if (aop == MUL || aop == DIV)
    {
      u32 ab = N[a].b;
      if (N[aa].lo > 0 && N[ab].lo > 0)
      {
        u32 p = fn1(3, aa), q = fn1(3, ab);
        return aop == MUL ? fadd(p, q) : fsub(p, q);
      }
    }
    break;
  case 2:
    if (aop == FN1 && afn == 3) return aa;
    break;
  }
  return mk(FN1, TF, a, 0, fn, 0, 0, 0);
}
u32 bsym::fn2(int fn, u32 a, u32 b)
{
  if (N[a].op == CF && N[b].op == CF) return cf(evalFn2(fn, N[a].d, N[b].d));
  switch (fn)
  {
  case 40:
    if (N[b].op == CF)
    {
      double y = N[b].d;
      if (y == 0) return cf(1);
      if (y == 1) return a;
      if (y == 0.5) return fn1(1, a);
      if (y == std::floor(y) && std::fabs(y) <= 12)
      {
        int n   = (int)std::fabs(y);
        u32 r   = 0;
        u32 sq  = a;
        while (n)
        {
          if (n & 1) r = r ? fmul(r, sq) : sq;
          n >>= 1;
          if (n) sq = fmul(sq, sq);
        }
        return y > 0 ? r : fdiv(cf(1), r);
      }
      if (2 * y == std::floor(2 * y) && std::fabs(y) <= 12)
      {
        double ay = std::fabs(y);
        u32 r     = fmul(fn2(40, a, cf(ay - 0.5)), fn1(1, a));
        return y > 0 ? r : fdiv(cf(1), r);
      }
    }
    if (N[a].op == CF && N[a].d == 1) return cf(1);
    break;
  case 42:
  case 43:
    if (a == b) return a;
    if (N[a].hi <= N[b].lo) return fn == 42 ? a : b;
    if (N[b].hi <= N[a].lo) return fn == 42 ? b : a;
    if (a > b) std::swap(a, b);
    break;
  case 44:
    if (N[b].op == CF && N[b].d == 0) return fn1(13, a);
    if (N[a].op == CF && N[a].d == 0) return fn1(13, b);
    return fn1(1, fadd(fmul(a, a), fmul(b, b)));
  case 45:
    if (N[b].lo > 0) return fn1(13, a);
    if (N[b].hi < 0) return fneg(fn1(13, a));
    return rt_branch(0, lt(b, cf(0))) ? fneg(fn1(13, a)) : fn1(13, a);
  case 47: return fn2(43, fsub(a, b), cf(0));
  }
  return mk(FN2, TF, a, b, fn, 0, 0, 0);
}
// comparisons over reals
static u32 cmp(int op, u32 a, u32 b)
{
  if (op == EQ && a > b) std::swap(a, b);
  if (a == b) return cb(op != LT);
  if (N[a].op == CF && N[b].op == CF)
    return cb(op == LT ? N[a].d < N[b].d
                       : op == LE ? N[a].d <= N[b].d : N[a].d == N[b].d);
  if (op == LT)
  {
    if (N[a].hi < N[b].lo) return cb(true);
    if (N[a].lo >= N[b].hi) return cb(false);
  }
  if (op == LE)
  {
    if (N[a].hi <= N[b].lo) return cb(true);
    if (N[a].lo > N[b].hi) return cb(false);
  }
  if (op == EQ && (N[a].hi < N[b].lo || N[a].lo > N[b].hi)) return cb(false);
  return mk(op, TB, a, b, 0, 0, 0, 0);
}
u32 bsym::lt(u32 a, u32 b) { return cmp(LT, a, b); }
u32 bsym::le(u32 a, u32 b) { return cmp(LE, a, b); }
u32 bsym::eq(u32 a, u32 b) { return cmp(EQ, a, b); }
static u32 icmp_(int op, u32 a, u32 b)
{
  if (op == IEQ && a > b) std::swap(a, b);
  if (a == b) return cb(op != ILT);
  if (N[a].op == CI && N[b].op == CI)
    return cb(op == ILT ? N[a].i < N[b].i
                        : op == ILE ? N[a].i <= N[b].i : N[a].i == N[b].i);
  if (op == ILT)
  {
    if (N[a].hi < N[b].lo) return cb(true);
    if (N[a].lo >= N[b].hi) return cb(false);
  }
  if (op == ILE)
  {
    if (N[a].hi <= N[b].lo) return cb(true);
    if (N[a].lo > N[b].hi) return cb(false);
  }
  if (op == IEQ && (N[a].hi < N[b].lo || N[a].lo > N[b].hi)) return cb(false);
  // b2i(x) == c
  if (op == IEQ)
  {
    u32 x = a, c = b;
    if (N[x].op == CI) std::swap(x, c);
    if (N[x].op == B2I && N[c].op == CI)
      return N[c].i == 1 ? N[x].a : N[c].i == 0 ? bnot(N[x].a) : cb(false);
  }
  return mk(op, TB, a, b, 0, 0, 0, 0);
}
u32 bsym::bnot(u32 a)
{
  switch (N[a].op)
  {
  case CB: return cb(!N[a].i);
  case NOT: return N[a].a;
  case LT: return le(N[a].b, N[a].a);
  case LE: return lt(N[a].b, N[a].a);
  case ILT: return icmp_(ILE, N[a].b, N[a].a);
  case ILE: return icmp_(ILT, N[a].b, N[a].a);
  }
  return mk(NOT, TB, a, 0, 0, 0, 0, 0);
}
u32 bsym::band(u32 a, u32 b)
{
  if (a == b) return a;
  if (N[a].op == CB) return N[a].i ? b : a;
  if (N[b].op == CB) return N[b].i ? a : b;
  if (a > b) std::swap(a, b);
  return mk(AND, TB, a, b, 0, 0, 0, 0);
}
u32 bsym::bor(u32 a, u32 b)
{
  if (a == b) return a;
  if (N[a].op == CB) return N[a].i ? a : b;
  if (N[b].op == CB) return N[b].i ? b : a;
  if (a > b) std::swap(a, b);
  return mk(OR, TB, a, b, 0, 0, 0, 0);
}
static u32 b2i(u32 b)
{
  if (N[b].op == CB) return ci(N[b].i);
  return mk(B2I, TI, b, 0, 0, 0, 0, 0);
}

// returns concrete part and sets rt_s
static double retF(u32 s)
{
  if (N[s].op == CF)
  {
    rt_s = 0;
    return N[s].d;
  }
  rt_s = s;
  return symval();
}
static uint64_t retI(u32 s, int w)
{
  if (N[s].op == CI || N[s].op == CB)
  {
    rt_s = 0;
    uint64_t v = (uint64_t)N[s].i;
    return w >= 64 ? v : v & ((1ull << w) - 1);
  }
  rt_s = s;
  return 0;
}
static int64_t sx(uint64_t v, int w)
{
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ull << (w - 1);
  v &= (1ull << w) - 1;
  return (int64_t)((v ^ m) - m);
}
static void leak(const char *where)
{
  pathError(std::string("symbolic value lost at ") + where);
}

// LLVM opcodes
enum
{
  LAdd  = 13,
  LFAdd = 14,
  LSub  = 15,
  LFSub = 16,
  LMul  = 17,
  LFMul = 18,
  LUDiv = 19,
  LSDiv = 20,
  LFDiv = 21,
  LURem = 22,
  LSRem = 23,
  LFRem = 24,
  LShl  = 25,
  LLShr = 26,
  LAShr = 27,
  LAnd  = 28,
  LOr   = 29,
  LXor  = 30
};

static u32 asInt(uint64_t v, u32 s, int w)
{
  if (!s) return ci(sx(v, w));
  if (N[s].ty == TB) return b2i(s);
  if (N[s].ty == TF) leak("integer use of a floating point bit pattern");
  return s;
}
static u32 asBool(uint64_t v, u32 s)
{
  if (!s) return cb(v & 1);
  if (N[s].ty == TB) return s;
  if (N[s].ty == TI) return bnot(icmp_(IEQ, s, ci(0)));
  leak("boolean use of a float");
  return 0;
}

extern "C"
{
  // -------------------------------------------------------- shadow memory ---
  // two level table of 4-byte shadows, one per byte; 0 none, 0xffffffff cont.
  // entry: handle for first byte, plus size in a parallel byte table
}
namespace
{
struct Page
{
  u32 h[4096];
  uint8_t sz[4096];
  u32 live;
};
std::unordered_map<uint64_t, Page *> pages;
// direct-mapped lookup cache
constexpr int LC = 4096;
uint64_t lcKey[LC];
Page *lcVal[LC];
bool lcInit = false;
Page *findPage(uint64_t p)
{
  size_t i = p & (LC - 1);
  if (!lcInit)
  {
    for (auto &k : lcKey)
      k = ~0ull;
    lcInit = true;
  }
  if (lcKey[i] == p) return lcVal[i];
  auto it  = pages.find(p);
  Page *r  = it == pages.end() ? nullptr : it->second;
  lcKey[i] = p;
  lcVal[i] = r;
  return r;
}
Page *getPage(uint64_t p)
{
  Page *r = findPage(p);
  if (r) return r;
  r = (Page *)calloc(1, sizeof(Page));
  pages[p]          = r;
  lcKey[p & (LC - 1)] = p;
  lcVal[p & (LC - 1)] = r;
  return r;
}
u32 getB(uint64_t a, uint8_t &sz)
{
  Page *p = findPage(a >> 12);
  if (!p)
  {
    sz = 0;
    return 0;
  }
  sz = p->sz[a & 4095];
  return p->h[a & 4095];
}
void setB(uint64_t a, u32 h, uint8_t sz)
{
  Page *p = h ? getPage(a >> 12) : findPage(a >> 12);
  if (!p) return;
  u32 &o = p->h[a & 4095];
  if (!o && h) p->live++;
  if (o && !h) p->live--;
  o                = h;
  p->sz[a & 4095] = sz;
}
} // namespace

extern "C"
{
  u32 rt_load(void *ptr, uint64_t n)
  {
    uint64_t a = (uint64_t)ptr;
    Page *p    = findPage(a >> 12);
    if (!p || !p->live)
    {
      if ((a & 4095) + n <= 4096) return 0;
    }
    uint8_t sz;
    u32 h = getB(a, sz);
    if (h == 0)
    {
      for (uint64_t k = 1; k < n; k++)
      {
        uint8_t s2;
        if (getB(a + k, s2))
          pathError("partial load of a symbolic value");
      }
      return 0;
    }
    if (h == 0xffffffffu) pathError("load inside a symbolic value");
    if (sz == n) return h;
    if (N[h].ty != TF && n < sz && (N[h].lo >= 0) && N[h].hi < 256)
      return h; // small non-negative int, little endian prefix
    pathError("load size differs from store size of a symbolic value");
    return 0;
  }
  void rt_clear(void *ptr, uint64_t n)
  {
    uint64_t a = (uint64_t)ptr, e = a + n;
    while (a < e)
    {
      uint64_t pe = std::min(e, (a | 4095) + 1);
      Page *p     = findPage(a >> 12);
      if (p && p->live)
        for (uint64_t k = a; k < pe; k++)
        {
          u32 &o = p->h[k & 4095];
          if (o)
          {
            o = 0;
            p->live--;
          }
          p->sz[k & 4095] = 0;
        }
      a = pe;
    }
  }
  void rt_store(void *ptr, uint64_t n, u32 s)
  {
    if (!s)
    {
      rt_clear(ptr, n);
      return;
    }
    uint64_t a = (uint64_t)ptr;
    setB(a, s, (uint8_t)n);
    for (uint64_t k = 1; k < n; k++)
      setB(a + k, 0xffffffffu, 0);
  }
  void rt_memcpy(void *d, void *s, uint64_t n)
  {
    if (d == s || n == 0) return;
    // fast path: nothing live in source
    bool any   = false;
    uint64_t a = (uint64_t)s, e = a + n;
    for (uint64_t p = a >> 12; p <= (e - 1) >> 12; p++)
    {
      Page *q = findPage(p);
      if (q && q->live)
      {
        any = true;
        break;
      }
    }
    if (!any)
    {
      rt_clear(d, n);
      return;
    }
    std::vector<std::pair<u32, uint8_t>> tmp(n);
    for (uint64_t k = 0; k < n; k++)
    {
      uint8_t sz;
      u32 h  = getB(a + k, sz);
      tmp[k] = {h, sz};
    }
    for (uint64_t k = 0; k < n; k++)
      setB((uint64_t)d + k, tmp[k].first, tmp[k].second);
  }
  void rt_byval(void *d, uint64_t s, uint64_t n)
  {
    if (s)
      rt_memcpy(d, (void *)s, n);
    else
      rt_clear(d, n);
  }
  void rt_chkload(double v, u32 s, const char *fn)
  {
    if (!s && isSig(v)) pathError(std::string("lost symbolic value in ") + fn);
  }
  void rt_enter(void *f)
  {
    if (rt_argtag != (uint64_t)f) memset(rt_args, 0, sizeof rt_args);
    rt_argtag = 0;
  }
  void rt_leave(void *f)
  {
    if (rt_rettag != (uint64_t)f) memset(rt_ret, 0, sizeof rt_ret);
    rt_rettag = 0;
  }
  void rt_noext(u32 s, const char *what)
  {
    if (s) leak(what);
  }
  double rt_extarg_f(double v, u32 s, const char *fn)
  {
    if (s) leak(fn);
    return v;
  }

  // ---------------------------------------------------------- arithmetic ----
  double rt_fop(int op, double a, u32 sa, double b, u32 sb)
  {
    if (!(sa | sb))
    {
      rt_s = 0;
      double r;
      switch (op)
      {
      case LFAdd: r = a + b; break;
      case LFSub: r = a - b; break;
      case LFMul: r = a * b; break;
      case LFDiv: r = a / b; break;
      default: r = std::fmod(a, b);
      }
      if (__builtin_expect(r != r, 0) && (isSig(a) || isSig(b)))
        leak("arithmetic on unshadowed symbolic value");
      return r;
    }
    if ((!sa && a != a) || (!sb && b != b))
    {
      if ((!sa && isSig(a)) || (!sb && isSig(b)))
        leak("arithmetic on unshadowed symbolic value");
      pathError("NaN operand meets a symbolic value");
    }
    u32 x = lift(a, sa), y = lift(b, sb);
    switch (op)
    {
    case LFAdd: return retF(fadd(x, y));
    case LFSub: return retF(fsub(x, y));
    case LFMul: return retF(fmul(x, y));
    case LFDiv: return retF(fdiv(x, y));
    }
    leak("frem");
    return 0;
  }
  double rt_fneg(double a, u32 sa)
  {
    if (!sa)
    {
      rt_s = 0;
      return -a;
    }
    return retF(fneg(sa));
  }
  double rt_math1(int fn, double nat, double a, u32 sa)
  {
    if (!sa)
    {
      rt_s = 0;
      if (nat != nat && isSig(a)) leak("math function");
      return nat;
    }
    return retF(fn1(fn, sa));
  }
  double rt_math2(int fn, double nat, double a, u32 sa, double b, u32 sb)
  {
    if (!(sa | sb))
    {
      rt_s = 0;
      if (nat != nat && (isSig(a) || isSig(b))) leak("math function");
      return nat;
    }
    return retF(fn2(fn, lift(a, sa), lift(b, sb)));
  }
  bool rt_fcmp(int pred, double a, u32 sa, double b, u32 sb)
  {
    // 0 false 1 oeq 2 ogt 3 oge 4 olt 5 ole 6 one 7 ord 8 uno 9 ueq 10 ugt
    // 11 uge 12 ult 13 ule 14 une 15 true
    if (!(sa | sb))
    {
      rt_s   = 0;
      bool u = (a != a) || (b != b);
      if (u && (isSig(a) || isSig(b)))
        leak("comparison of unshadowed symbolic value");
      switch (pred)
      {
      case 0: return false;
      case 1: return a == b;
      case 2: return a > b;
      case 3: return a >= b;
      case 4: return a < b;
      case 5: return a <= b;
      case 6: return !u && a != b;
      case 7: return !u;
      case 8: return u;
      case 9: return u || a == b;
      case 10: return u || a > b;
      case 11: return u || a >= b;
      case 12: return u || a < b;
      case 13: return u || a <= b;
      case 14: return a != b;
      }
      return true;
    }
    bool nan = (!sa && a != a) || (!sb && b != b);
    if (nan)
    {
      if ((!sa && isSig(a)) || (!sb && isSig(b))) leak("comparison");
      rt_s = 0;
      return pred >= 8;
    }
    u32 r;
    u32 x, y;
    if (!sa && std::isinf(a))
    {
      rt_s = 0;
      return rt_fcmp(pred, a, 0, 0.0, 0);
    }
    if (!sb && std::isinf(b))
    {
      rt_s = 0;
      return rt_fcmp(pred, 0.0, 0, b, 0);
    }
    x = lift(a, sa);
    y = lift(b, sb);
    switch (pred)
    {
    case 1:
    case 9: r = eq(x, y); break;
    case 2:
    case 10: r = lt(y, x); break;
    case 3:
    case 11: r = le(y, x); break;
    case 4:
    case 12: r = lt(x, y); break;
    case 5:
    case 13: r = le(x, y); break;
    case 6:
    case 14: r = bnot(eq(x, y)); break;
    case 7: r = cb(true); break;
    case 8: r = cb(false); break;
    case 0: r = cb(false); break;
    default: r = cb(true);
    }
    return retI(r, 1);
  }
  bool rt_fpclass(double v, u32 s, bool nat, int mask)
  {
    if (!s)
    {
      rt_s = 0;
      return nat;
    }
    // finite non-NaN: negative normal(8) .. subnormal/zero/normal
    rt_s      = 0;
    int finite = 0x1f8;
    if ((mask & finite) == finite) return true;
    if ((mask & finite) == 0) return false;
    pathError("fpclass of a symbolic value");
    return false;
  }
  static void rangeCheck(u32 s, int w)
  {
    double m = std::ldexp(1., w - 1);
    if (N[s].lo < -m || N[s].hi > 2 * m)
      pathError("possible wrap-around of a symbolic integer");
  }
  uint64_t rt_concretize(uint64_t v, u32 s, int w);
  uint64_t rt_iop(int op, int w, uint64_t a, u32 sa, uint64_t b, u32 sb)
  {
    uint64_t mask = w >= 64 ? ~0ull : (1ull << w) - 1;
    if (!(sa | sb))
    {
    conc:
      rt_s = 0;
      int64_t x = sx(a, w), y = sx(b, w);
      a &= mask;
      b &= mask;
      uint64_t r;
      switch (op)
      {
      case LAdd: r = a + b; break;
      case LSub: r = a - b; break;
      case LMul: r = a * b; break;
      case LUDiv: r = b ? a / b : 0; break;
      case LSDiv: r = y ? (uint64_t)(y == -1 ? -(uint64_t)x : x / y) : 0; break;
      case LURem: r = b ? a % b : 0; break;
      case LSRem: r = y ? (uint64_t)(y == -1 ? 0 : x % y) : 0; break;
      case LShl: r = b < 64 ? a << b : 0; break;
      case LLShr: r = b < 64 ? a >> b : 0; break;
      case LAShr: r = (uint64_t)(x >> (b < 63 ? b : 63)); break;
      case LAnd: r = a & b; break;
      case LOr: r = a | b; break;
      case LXor: r = a ^ b; break;
      default: r = 0;
      }
      return r & mask;
    }
    if (w == 1)
    {
      u32 x = asBool(a, sa), y = asBool(b, sb);
      switch (op)
      {
      case LAnd: return retI(band(x, y), 1);
      case LOr: return retI(bor(x, y), 1);
      case LXor:
        if (N[y].op == CB) return retI(N[y].i ? bnot(x) : x, 1);
        if (N[x].op == CB) return retI(N[x].i ? bnot(y) : y, 1);
        return retI(bor(band(x, bnot(y)), band(bnot(x), y)), 1);
      }
    }
    // b2i values combined bitwise
    auto isB = [&](u32 s, uint64_t v)
    { return s ? (N[s].ty == TB || N[s].op == B2I) : v <= 1; };
    auto toB = [&](u32 s, uint64_t v)
    { return s ? (N[s].ty == TB ? s : N[s].a) : cb(v); };
    if ((op == LAnd || op == LOr || op == LXor) && isB(sa, a) && isB(sb, b))
    {
      u32 x = toB(sa, a), y = toB(sb, b);
      u32 r = op == LAnd  ? band(x, y)
              : op == LOr ? bor(x, y)
                          : bor(band(x, bnot(y)), band(bnot(x), y));
      return retI(b2i(r), w);
    }
    u32 x = asInt(a, sa, w), y = asInt(b, sb, w);
    u32 r = 0;
    switch (op)
    {
    case LAdd: r = mk(IADD, TI, x, y, 0, 0, 0, 0); break;
    case LSub:
      if (x == y) return retI(ci(0), w);
      r = mk(ISUB, TI, x, y, 0, 0, 0, 0);
      break;
    case LMul: r = mk(IMUL, TI, x, y, 0, 0, 0, 0); break;
    case LShl:
      if (N[y].op == CI)
        r = mk(IMUL, TI, x, ci(1ll << N[y].i), 0, 0, 0, 0);
      break;
    case LSDiv:
      if (N[y].op == CI && N[y].i) r = mk(IDIV, TI, x, y, 0, 0, 0, 0);
      break;
    case LUDiv:
      if (N[y].op == CI && N[y].i > 0 && N[x].lo >= 0)
        r = mk(IDIV, TI, x, y, 0, 0, 0, 0);
      break;
    case LSRem:
      if (N[y].op == CI && N[y].i) r = mk(IREM, TI, x, y, 0, 0, 0, 0);
      break;
    case LURem:
      if (N[y].op == CI && N[y].i > 0 && N[x].lo >= 0)
        r = mk(IREM, TI, x, y, 0, 0, 0, 0);
      break;
    case LLShr:
      if (N[y].op == CI && N[x].lo >= 0)
        r = mk(IDIV, TI, x, ci(1ll << N[y].i), 0, 0, 0, 0);
      else if (N[y].op == CI && N[y].i == w - 1)
        r = b2i(icmp_(ILT, x, ci(0)));
      break;
    case LAShr:
      if (N[y].op == CI && N[x].lo >= 0)
        r = mk(IDIV, TI, x, ci(1ll << N[y].i), 0, 0, 0, 0);
      break;
    case LAnd:
      if (N[y].op == CI && N[x].lo >= 0 && ((N[y].i + 1) & N[y].i) == 0 &&
          N[y].i > 0)
        r = mk(IREM, TI, x, ci(N[y].i + 1), 0, 0, 0, 0);
      break;
    case LXor:
      if (N[y].op == CI && N[y].i == -1)
        r = mk(ISUB, TI, ci(-1), x, 0, 0, 0, 0);
      break;
    }
    if (!r)
    {
      a = rt_concretize(a, sa, w);
      b = rt_concretize(b, sb, w);
      goto conc;
    }
    rangeCheck(r, w);
    return retI(r, w);
  }
  bool rt_icmp(int pred, int w, uint64_t a, u32 sa, uint64_t b, u32 sb)
  {
    // 32 eq 33 ne 34 ugt 35 uge 36 ult 37 ule 38 sgt 39 sge 40 slt 41 sle
    uint64_t mask = w >= 64 ? ~0ull : (1ull << w) - 1;
    if (!(sa | sb))
    {
      rt_s      = 0;
      int64_t x = sx(a, w), y = sx(b, w);
      a &= mask;
      b &= mask;
      switch (pred)
      {
      case 32: return a == b;
      case 33: return a != b;
      case 34: return a > b;
      case 35: return a >= b;
      case 36: return a < b;
      case 37: return a <= b;
      case 38: return x > y;
      case 39: return x >= y;
      case 40: return x < y;
      default: return x <= y;
      }
    }
    if (w == 1 && (pred == 32 || pred == 33))
    {
      u32 x = asBool(a, sa), y = asBool(b, sb);
      u32 r = bor(band(x, y), band(bnot(x), bnot(y)));
      if (N[x].op == CB) r = N[x].i ? y : bnot(y);
      else if (N[y].op == CB) r = N[y].i ? x : bnot(x);
      return retI(pred == 32 ? r : bnot(r), 1);
    }
    u32 x, y;
    bool uns = pred >= 34 && pred <= 37;
    if (uns)
    {
      // treat constants as unsigned
      auto asU = [&](uint64_t v, u32 s)
      {
        if (s) return asInt(v, s, w);
        v &= mask;
        if (v > (uint64_t)INT64_MAX) return ci(INT64_MAX);
        return ci((int64_t)v);
      };
      x = asU(a, sa);
      y = asU(b, sb);
      if (N[x].lo < 0 || N[y].lo < 0)
      {
        a = rt_concretize(a, sa, w);
        b = rt_concretize(b, sb, w);
        return rt_icmp(pred, w, a, 0, b, 0);
      }
    }
    else
    {
      x = asInt(a, sa, w);
      y = asInt(b, sb, w);
    }
    u32 r;
    switch (pred)
    {
    case 32: r = icmp_(IEQ, x, y); break;
    case 33: r = bnot(icmp_(IEQ, x, y)); break;
    case 34:
    case 38: r = icmp_(ILT, y, x); break;
    case 35:
    case 39: r = icmp_(ILE, y, x); break;
    case 36:
    case 40: r = icmp_(ILT, x, y); break;
    default: r = icmp_(ILE, x, y);
    }
    return retI(r, 1);
  }
  bool rt_selbool(bool c, u32 sc, bool a, u32 sa, bool b, u32 sb)
  {
    if (!(sc | sa | sb))
    {
      rt_s = 0;
      return c ? a : b;
    }
    u32 C = asBool(c, sc), A = asBool(a, sa), B = asBool(b, sb);
    if (N[C].op == CB) return retI(N[C].i ? A : B, 1);
    return retI(bor(band(C, A), band(bnot(C), B)), 1);
  }
  uint64_t rt_iminmax(int k, int w, uint64_t a, u32 sa, uint64_t b, u32 sb)
  {
    bool mx   = k == 0 || k == 2;
    int pred  = k < 2 ? 38 : 34;
    bool gt   = rt_icmp(pred, w, a, sa, b, sb);
    u32 s     = rt_s;
    if (s) gt = rt_branch(gt, s);
    bool first = gt == mx;
    rt_s       = first ? sa : sb;
    return first ? a : b;
  }
  uint64_t rt_fptoi(int sg, int w, double a, u32 sa)
  {
    if (!sa)
    {
      rt_s = 0;
      if (isSig(a)) leak("fptosi");
      return sg ? (uint64_t)(int64_t)a : (uint64_t)a;
    }
    if (N[sa].op == I2F) return retI(N[sa].a, w);
    u32 r = mk(F2I, TI, sa, 0, 0, 0, 0, 0);
    rangeCheck(r, w);
    return retI(r, w);
  }
  double rt_itofp(int sg, int w, uint64_t a, u32 sa)
  {
    if (!sa)
    {
      rt_s = 0;
      return sg ? (double)sx(a, w)
                : (double)(w >= 64 ? a : a & ((1ull << w) - 1));
    }
    return retF(mk(I2F, TF, asInt(a, sa, w), 0, 0, 0, 0, 0));
  }
  uint64_t rt_icast(int op, int fw, int tw, uint64_t a, u32 sa)
  {
    // 38 trunc 39 zext 40 sext
    if (!sa)
    {
      rt_s = 0;
      if (op == 40) return (uint64_t)sx(a, fw);
      return a;
    }
    if (op == 38)
    {
      if (N[sa].ty == TF) leak("truncation of a float bit pattern");
      if (tw == 1)
      {
        if (N[sa].ty == TB) return retI(sa, 1);
        if (N[sa].op == B2I) return retI(N[sa].a, 1);
        if (N[sa].lo >= 0 && N[sa].hi <= 1)
          return retI(bnot(icmp_(IEQ, sa, ci(0))), 1);
        return retI(bnot(icmp_(IEQ, mk(IREM, TI, sa, ci(2), 0, 0, 0, 0), ci(0))),
                    1);
      }
      rangeCheck(sa, tw);
      return retI(sa, tw);
    }
    if (N[sa].ty == TB)
    {
      if (op == 40) return retI(mk(ISUB, TI, ci(0), b2i(sa), 0, 0, 0, 0), tw);
      return retI(b2i(sa), tw);
    }
    if (op == 39 && N[sa].lo < 0)
    {
      uint64_t v = rt_concretize(a, sa, fw);
      rt_s       = 0;
      return fw >= 64 ? v : v & ((1ull << fw) - 1);
    }
    return retI(sa, tw);
  }

  // ------------------------------------------------------- control flow -----
  static std::unordered_map<u32, bool> known;
  static void learn(u32 c, bool v)
  {
    known[c]       = v;
    known[bnot(c)] = !v;
    if (v && N[c].op == AND)
    {
      learn(N[c].a, true);
      learn(N[c].b, true);
    }
    if (!v && N[c].op == OR)
    {
      learn(N[c].a, false);
      learn(N[c].b, false);
    }
  }
  void rt_addpc(u32 c)
  {
    pc.push_back(c);
    learn(c, true);
    solverAssert(c);
  }
  static u32 simp(u32 c)
  {
    auto it = known.find(c);
    if (it != known.end()) return cb(it->second);
    switch (N[c].op)
    {
    case AND: return band(simp(N[c].a), simp(N[c].b));
    case OR: return bor(simp(N[c].a), simp(N[c].b));
    case NOT: return bnot(simp(N[c].a));
    }
    return c;
  }
  static uint64_t pathBits = 0;
  static int forkDepth     = 0;
  // true in the child
  static bool doFork()
  {
    long n = __sync_add_and_fetch(&SH->paths, 1);
    if (n > cfg.maxPaths)
    {
      pathError("path limit reached");
    }
    if (cfg.deadline && time(nullptr) > cfg.deadline)
      pathError("time limit reached");
    fflush(stdout);
    bool conc = sem_trywait(&SH->tokens) == 0;
    pid_t p   = fork();
    if (p < 0)
    {
      if (conc) sem_post(&SH->tokens);
      pathError("fork failed");
    }
    if (p == 0)
    {
      kids.clear();
      holdsToken = conc;
      forkDepth++;
      return true;
    }
    if (conc)
      kids.push_back(p);
    else
    {
      int st;
      waitpid(p, &st, 0);
      if (!WIFEXITED(st) || (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 9))
        emit("{\"kind\":\"error\",\"msg\":\"path process died: status " +
             std::to_string(st) + "\"}");
    }
    return false;
  }
  // "generic" mode: a test of |x| against a tiny constant cut is not forked;
  // the side |x| > cut is assumed (recorded in the path condition)
  static int genericOn = 0;
  void bs_generic(int on) { genericOn = on; }
  static int smallTest(u32 c) // 1: c means small, -1: c means large, 0: other
  {
    if (N[c].op == NOT) return -smallTest(N[c].a);
    if (N[c].op != LT && N[c].op != LE) return 0;
    u32 a = N[c].a, b = N[c].b;
    auto isAbs = [](u32 x) { return N[x].op == FN1 && (N[x].fn == 13 || N[x].fn == 1); }; // fabs, sqrt
    auto tiny  = [](u32 x)
    { return N[x].op == CF && N[x].d >= 0 && N[x].d <= 1e-2; };
    if (isAbs(a) && tiny(b)) return 1;
    if (tiny(a) && isAbs(b)) return -1;
    return 0;
  }
  bool rt_branch(bool cval, u32 s)
  {
    if (!s) return cval;
    u32 c = N[s].ty == TB ? s : asBool(0, s);
    c     = simp(c);
    if (N[c].op == CB) return N[c].i;
    __sync_fetch_and_add(&SH->branches, 1);
    if (genericOn == 2) // same, without telling the solver
      if (int t = smallTest(c))
      {
        u32 k = t > 0 ? bnot(c) : c;
        learn(k, true);
        return t < 0;
      }
    int rt = solverCheck(c);          // feasible true?
    int rf = rt == -1 ? 1 : solverCheck(bnot(c)); // -1 unsat, 0 unknown, 1 sat
    if (rt == -1)
    {
      learn(c, false);
      return false;
    }
    if (rf == -1)
    {
      learn(c, true);
      return true;
    }
    if (genericOn)
      if (int t = smallTest(c))
      {
        rt_addpc(t > 0 ? bnot(c) : c);
        return t < 0;
      }
    if (doFork())
    {
      rt_addpc(c);
      return true;
    }
    rt_addpc(bnot(c));
    return false;
  }
  uint64_t rt_concretize(uint64_t v, u32 s, int w)
  {
    if (!s) return v;
    if (N[s].ty == TB) return rt_branch(0, s) ? 1 : 0;
    if (N[s].ty == TF) leak("concretization of a float");
    uint64_t mask = w >= 64 ? ~0ull : (1ull << w) - 1;
    for (int k = 0; k < cfg.maxConc; k++)
    {
      int64_t val;
      int r = solverModelInt(s, val);
      if (r <= 0) pathError("cannot enumerate the values of an integer");
      u32 e   = icmp_(IEQ, s, ci(val));
      e       = simp(e);
      if (N[e].op == CB && N[e].i) return (uint64_t)val & mask;
      if (solverCheck(bnot(e)) == -1)
      {
        rt_addpc(e);
        return (uint64_t)val & mask;
      }
      if (doFork())
      {
        rt_addpc(e);
        return (uint64_t)val & mask;
      }
      rt_addpc(bnot(e));
    }
    pathError("too many values for an integer");
    return 0;
  }

  // --------------------------------------------------------- harness API ----
  static u32 argS(int i) { return (u32)rt_args[i]; }
  static void clrArgs()
  {
    memset(rt_args, 0, sizeof(uint64_t) * 16);
    rt_argtag = 0;
  }
  static void retS(u32 s) { rt_ret[0] = s; }
  static int autoN = 0;

  double bs_real(const char *name, double lo, double hi)
  {
    clrArgs();
    std::string nm = name;
    for (auto &in : inputs)
      if (in.name == nm)
      {
        retS(in.node);
        return symval();
      }
    Node n;
    n.op = VAR;
    n.ty = TF;
    n.i  = inputs.size();
    n.lo = lo;
    n.hi = hi;
    n.sz = 1;
    N.push_back(n);
    u32 id = N.size() - 1;
    inputs.push_back({nm, id, false, lo, hi});
    solverDeclare(id);
    retS(id);
    return symval();
  }
  double bs_fresh(const char *prefix, double lo, double hi)
  {
    std::string nm = std::string(prefix) + "#" + std::to_string(autoN++);
    return bs_real(nm.c_str(), lo, hi);
  }
  long bs_int(const char *name, long lo, long hi)
  {
    clrArgs();
    std::string nm = name;
    for (auto &in : inputs)
      if (in.name == nm)
      {
        retS(in.node);
        return 0;
      }
    Node n;
    n.op = VAR;
    n.ty = TI;
    n.i  = inputs.size();
    n.lo = lo;
    n.hi = hi;
    n.sz = 1;
    N.push_back(n);
    u32 id = N.size() - 1;
    inputs.push_back({nm, id, true, (double)lo, (double)hi});
    solverDeclare(id);
    retS(id);
    return 0;
  }
  long bs_freshint(const char *prefix, long lo, long hi)
  {
    std::string nm = std::string(prefix) + "#" + std::to_string(autoN++);
    return bs_int(nm.c_str(), lo, hi);
  }
  // enumerated immediately
  long bs_choice(const char *name, long n)
  {
    bs_int(name, 0, n - 1);
    u32 s   = (u32)rt_ret[0];
    long v  = (long)rt_concretize(0, s, 64);
    retS(0);
    return v;
  }
  void bs_assume(int c)
  {
    u32 s = argS(0);
    clrArgs();
    if (!s)
    {
      if (!c) finishProcess(0);
      return;
    }
    u32 b = N[s].ty == TB ? s : asBool(0, s);
    b     = simp(b);
    if (N[b].op == CB)
    {
      if (!N[b].i) finishProcess(0);
      return;
    }
    int r = solverCheck(b);
    if (r == -1) finishProcess(0);
    rt_addpc(b);
  }
  static bool okLabel(const char *label)
  {
    return true;
  }
  void bs_check(int c, const char *label)
  {
    u32 s = argS(0);
    clrArgs();
    u32 b = s ? (N[s].ty == TB ? s : asBool(0, s)) : cb(c != 0);
    b     = simp(b);
    decideBool(b, label);
  }
  void bs_check_eq(double a, double b, double rtol, double atol, const char *l)
  {
    u32 sa = argS(0), sb = argS(1);
    clrArgs();
    if ((!sa && isSig(a)) || (!sb && isSig(b))) leak("bs_check_eq argument");
    if ((!sa && !std::isfinite(a)) || (!sb && !std::isfinite(b)))
    {
      decideBool(cb(false), l);
      return;
    }
    decideEq(lift(a, sa), lift(b, sb), rtol, atol, l);
  }
  void bs_reach(const char *label)
  {
    clrArgs();
    reachWitness(label);
  }
  int bs_symbolic()
  {
    clrArgs();
    retS(0);
    return 1;
  }
  // the same term (no solver involved)?
  int bs_same(double a, double b)
  {
    u32 x = argS(0), y = argS(1);
    int r = x || y ? x == y : a == b;
    clrArgs();
    retS(0);
    return r;
  }
  // is this value symbolic (not a constant)?
  int bs_is_sym(double)
  {
    int r = argS(0) != 0;
    clrArgs();
    retS(0);
    return r;
  }
  void bs_note(const char *s)
  {
    clrArgs();
    if (getenv("BSYM_VERBOSE")) fprintf(stderr, "note: %s\n", s);
  }
  // force a decision now: forks, returns a concrete bool
  int bs_decide(int c)
  {
    u32 s = argS(0);
    clrArgs();
    bool r = s ? rt_branch(0, s) : c;
    retS(0);
    return r;
  }
  void bs_show(const char *name, double v)
  {
    u32 s = argS(1);
    clrArgs();
    if (getenv("BSYM_VERBOSE"))
      fprintf(stderr,
              "%s = %s\n",
              name,
              s ? show(s).c_str() : std::to_string(v).c_str());
  }
  // queue used by the model of istream >> double
  static std::vector<std::pair<double, u32>> isq;
  static size_t isqPos = 0;
  static bool isqOn    = false;
  void bs_istream_push(double v)
  {
    u32 s = argS(0);
    clrArgs();
    isq.push_back({v, s});
    isqOn = true;
  }
  void bs_istream_reset()
  {
    clrArgs();
    isq.clear();
    isqPos = 0;
    isqOn  = false;
  }
  void rt_istream_double(double *p)
  {
    if (!isqOn)
    {
      rt_clear(p, 8);
      return;
    }
    if (isqPos >= isq.size())
    {
      return; // end of line: value untouched
    }
    *p = isq[isqPos].second ? symval() : isq[isqPos].first;
    rt_store(p, 8, isq[isqPos].second);
    isqPos++;
  }
  void bs_end_path()
  {
    clrArgs();
    pathDone();
    finishProcess(0);
  }
}

// -------------------------------------------------------------------- main --
extern "C" void bs_harness_main();
static sigjmp_buf crashJmp;
static volatile int crashing = 0;
static void crash(int sig)
{
  if (crashing++)
  {
    const char m[] =
        "{\"kind\":\"error\",\"msg\":\"signal in path process\"}\n";
    if (write(cfg.outfd, m, sizeof m - 1) < 0) {}
    _exit(8);
  }
  siglongjmp(crashJmp, sig);
}
static void crashSetup()
{
  static char stk[1 << 18];
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_sp   = stk;
  ss.ss_size = sizeof stk;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = crash;
  sa.sa_flags   = SA_ONSTACK;
  for (int s : {SIGSEGV, SIGFPE, SIGBUS, SIGABRT, SIGILL})
    sigaction(s, &sa, nullptr);
}
static void failObligation(const char *label)
{
  clrArgs();
  bs_check(0, label);
}
int main(int argc, char **argv)
{
  cfg.init();
  SH = (Shared *)mmap(nullptr,
                      sizeof(Shared),
                      PROT_READ | PROT_WRITE,
                      MAP_SHARED | MAP_ANONYMOUS,
                      -1,
                      0);
  memset(SH, 0, sizeof *SH);
  covShared = (unsigned char *)mmap(nullptr,
                                    rt_cov_n + 1,
                                    PROT_READ | PROT_WRITE,
                                    MAP_SHARED | MAP_ANONYMOUS,
                                    -1,
                                    0);
  sem_init(&SH->tokens, 1, cfg.jobs > 1 ? cfg.jobs - 1 : 0);
  N[0] = Node();
  N.reserve(1 << 16);
  SH->paths = 1;
  crashSetup();
  pid_t p = fork();
  if (p == 0)
  {
    solverInit();
    if (sigsetjmp(crashJmp, 1) == 0)
    {
      try
      {
        bs_harness_main();
      }
      catch (std::exception &e)
      {
        if (getenv("BSYM_VERBOSE"))
          fprintf(stderr, "uncaught exception: %s\n", e.what());
        failObligation("no uncaught exception");
      }
      catch (...)
      {
        failObligation("no uncaught exception");
      }
    }
    else
      failObligation("no crash");
    pathDone();
    finishProcess(0);
  }
  int st;
  waitpid(p, &st, 0);
  if (!WIFEXITED(st) || (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 9))
    emit("{\"kind\":\"error\",\"msg\":\"root path process died\"}");
  std::stringstream ss;
  ss << "{\"kind\":\"summary\",\"paths\":" << SH->paths
     << ",\"done\":" << SH->done << ",\"branches\":" << SH->branches
     << ",\"errors\":" << SH->errors << ",\"solver_queries\":" << SH->queries
     << ",\"solver_us\":" << SH->solver_us << ",\"sat\":" << SH->nsat
     << ",\"unsat\":" << SH->nunsat << ",\"unknown\":" << SH->nunknown << "}";
  emit(ss.str());
  {
    std::string o = "{\"kind\":\"cov\",\"fns\":[";
    const char *p = rt_cov_names;
    bool first    = true;
    for (uint64_t i = 0; i < rt_cov_n; i++)
    {
      const char *e = strchr(p, '\n');
      if (covShared[i])
      {
        o += (first ? "" : ",") + jstr(std::string(p, e - p));
        first = false;
      }
      p = e + 1;
    }
    emit(o + "]}");
  }
  return 0;
}

static u32 divZeroVar(const std::string &nm)
{
  Node n;
  n.op = VAR;
  n.ty = TF;
  n.i  = inputs.size();
  n.lo = -1e300;
  n.hi = 1e300;
  n.sz = 1;
  N.push_back(n);
  u32 id = N.size() - 1;
  inputs.push_back({nm, id, false, n.lo, n.hi});
  solverDeclare(id);
  return id;
}

// symbolic derivative of a real expression with respect to an input
static u32 derivOf(u32 e, u32 x, std::unordered_map<u32, u32> &memo)
{
  if (e == x) return cf(1);
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  Node n = N[e];
  u32 r  = 0;
  auto D = [&](u32 y) { return derivOf(y, x, memo); };
  switch (n.op)
  {
  case CF:
  case VAR:
  case I2F: r = cf(0); break;
  case ADD: r = fadd(D(n.a), D(n.b)); break;
  case SUB: r = fsub(D(n.a), D(n.b)); break;
  case NEG: r = fneg(D(n.a)); break;
  case MUL: r = fadd(fmul(D(n.a), n.b), fmul(n.a, D(n.b))); break;
  case DIV:
    r = fdiv(fsub(fmul(D(n.a), n.b), fmul(n.a, D(n.b))), fmul(n.b, n.b));
    break;
  case FN1:
  {
    u32 d = D(n.a);
    if (N[d].op == CF && N[d].d == 0)
    {
      r = d;
      break;
    }
    switch (n.fn)
    {
    case 1: r = fdiv(d, fmul(cf(2), e)); break;
    case 2: r = fmul(d, e); break;
    case 3: r = fdiv(d, n.a); break;
    case 4: r = fmul(d, fn1(5, n.a)); break;
    case 5: r = fneg(fmul(d, fn1(4, n.a))); break;
    case 7: r = fdiv(d, fadd(cf(1), fmul(n.a, n.a))); break;
    case 13: r = fmul(d, fdiv(e, n.a)); break;
    default: pathError("derivative of function " + std::to_string(n.fn));
    }
    break;
  }
  case FN2:
    if (n.fn == 40 && N[n.b].op == CF)
      r = fmul(D(n.a), fmul(n.b, fdiv(e, n.a)));
    else
      pathError("derivative of binary function " + std::to_string(n.fn));
    break;
  default: pathError("derivative of operation " + std::to_string(n.op));
  }
  memo[e] = r;
  return r;
}
extern "C" double bs_deriv(double y, double x)
{
  u32 sy = (u32)rt_args[0], sx_ = (u32)rt_args[1];
  clrArgs();
  if (!sx_) pathError("derivative with respect to a constant");
  std::unordered_map<u32, u32> memo;
  retS(sy ? derivOf(sy, sx_, memo) : cf(0));
  return symval();
}
