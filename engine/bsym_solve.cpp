// Decision procedures: path feasibility (z3), polynomial/Laurent normal forms
// over algebraic atoms + linear-arithmetic query (z3) for identities, z3 NRA
// for the rest, model search for counterexamples.
#include "bsym_rt.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <fcntl.h>
#include <gmpxx.h>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <z3++.h>
using namespace bsym;

static double now()
{
  timeval t;
  gettimeofday(&t, nullptr);
  return t.tv_sec + 1e-6 * t.tv_usec;
}
void Config::init()
{
  auto gi = [](const char *n, long d)
  {
    const char *v = getenv(n);
    return v ? atol(v) : d;
  };
  if (const char *o = getenv("BSYM_OUT"))
    outfd = open(o, O_WRONLY | O_CREAT | O_APPEND, 0644);
  jobs      = gi("BSYM_JOBS", 8);
  maxPaths  = gi("BSYM_MAXPATHS", 20000);
  brTimeout = gi("BSYM_BRTO", 1500);
  obTimeout = gi("BSYM_OBTO", 20000);
  seed      = gi("VERIF_SEED", 1);
  maxConc   = gi("BSYM_MAXCONC", 128);
  maxTerms  = gi("BSYM_MAXTERMS", 3000000);
  long tl   = gi("BSYM_TIME", 0);
  if (tl) deadline = time(nullptr) + tl;
}
std::string bsym::show(u32 s)
{
  const Node &n = N[s];
  char b[64];
  switch (n.op)
  {
  case CF: snprintf(b, 64, "%.6g", n.d); return b;
  case CI: return std::to_string(n.i);
  case CB: return n.i ? "true" : "false";
  case VAR: return inputs[n.i].name;
  case NEG: return "-" + show(n.a);
  case NOT: return "!(" + show(n.a) + ")";
  case FN1: return "f" + std::to_string(n.fn) + "(" + show(n.a) + ")";
  case FN2:
    return "g" + std::to_string(n.fn) + "(" + show(n.a) + "," + show(n.b) + ")";
  case I2F:
  case F2I:
  case B2I: return "cv(" + show(n.a) + ")";
  }
  static const char *ops[] = {"?", "", "", "", "",  "+", "-", "*",  "/",
                              "",  "", "", "", "",  "+", "-", "*",  "/",
                              "%", "", "<", "<=", "==", "<", "<=", "==",
                              "",  "&&", "||"};
  return "(" + show(n.a) + ops[n.op] + show(n.b) + ")";
}

// ------------------------------------------------------------------- z3 -----
static z3::context *Z = nullptr;
static std::unordered_map<u32, z3::expr> tmemo;
void bsym::solverInit()
{
  Z = new z3::context();
}
void bsym::solverDeclare(u32) {}
void bsym::solverAssert(u32) {}

static std::string ratStr(double d)
{
  mpq_class q(d);
  return q.get_str();
}
// collect the nodes below a set of roots (sorted = topological)
static void cone(const std::vector<u32> &roots, std::vector<u32> &out)
{
  std::unordered_set<u32> seen;
  std::vector<u32> st(roots);
  while (!st.empty())
  {
    u32 x = st.back();
    st.pop_back();
    if (!x || !seen.insert(x).second) continue;
    out.push_back(x);
    const Node &n = N[x];
    if (n.a) st.push_back(n.a);
    if (n.b) st.push_back(n.b);
  }
  std::sort(out.begin(), out.end());
}
static std::unordered_map<u32, std::vector<u32>> varMemo;
static const std::vector<u32> &varsOf(u32 c)
{
  auto it = varMemo.find(c);
  if (it != varMemo.end()) return it->second;
  std::vector<u32> o, v;
  cone({c}, o);
  for (u32 x : o)
    if (N[x].op == VAR) v.push_back(x);
  return varMemo[c] = v;
}

struct Tr
{
  z3::context &c;
  std::unordered_map<u32, z3::expr> m;
  std::vector<z3::expr> defs;
  bool nonlin = false, ints = false;
  std::vector<u32> exps, logs, atans, pows;
  explicit Tr(z3::context &c_) : c(c_) {}
  z3::expr rv(double d) { return c.real_val(ratStr(d).c_str()); }
  z3::expr fresh(u32 id)
  {
    return c.real_const(("n" + std::to_string(id)).c_str());
  }
  z3::expr get(u32 id) { return m.at(id); }
  void bounds(u32 id, const z3::expr &e)
  {
    if (std::isfinite(N[id].lo)) defs.push_back(e >= rv(N[id].lo));
    if (std::isfinite(N[id].hi)) defs.push_back(e <= rv(N[id].hi));
  }
  void build(const std::vector<u32> &roots)
  {
    std::vector<u32> o;
    cone(roots, o);
    std::map<u32, u32> sines, cosines;
    for (u32 id : o)
    {
      if (m.count(id)) continue;
      const Node &n = N[id];
      z3::expr e(c);
      auto A = [&]() { return m.at(n.a); };
      auto B = [&]() { return m.at(n.b); };
      switch (n.op)
      {
      case CF: e = rv(n.d); break;
      case CI: e = c.int_val((int64_t)n.i); break;
      case CB: e = c.bool_val(n.i != 0); break;
      case VAR:
        if (n.ty == TI)
        {
          ints = true;
          e    = c.int_const(("x" + std::to_string(n.i)).c_str());
          defs.push_back(e >= c.int_val((int64_t)inputs[n.i].lo));
          defs.push_back(e <= c.int_val((int64_t)inputs[n.i].hi));
        }
        else
        {
          e = c.real_const(("x" + std::to_string(n.i)).c_str());
          defs.push_back(e >= rv(inputs[n.i].lo));
          defs.push_back(e <= rv(inputs[n.i].hi));
        }
        break;
      case ADD: e = A() + B(); break;
      case SUB: e = A() - B(); break;
      case NEG: e = -A(); break;
      case MUL:
        if (N[n.a].op != CF && N[n.b].op != CF) nonlin = true;
        e = A() * B();
        break;
      case DIV:
        if (N[n.b].op == CF)
          e = A() / B();
        else
        {
          nonlin = true;
          e      = fresh(id);
          defs.push_back(e * B() == A());
          defs.push_back(B() != 0);
          bounds(id, e);
        }
        break;
      case FN1:
        switch (n.fn)
        {
        case 1:
          nonlin = true;
          e      = fresh(id);
          defs.push_back(e >= 0);
          defs.push_back(e * e == A());
          break;
        case 13: e = z3::ite(A() >= 0, A(), -A()); break;
        case 14:
          ints = true;
          e    = z3::to_real(z3::expr(c, Z3_mk_real2int(c, A())));
          break;
        case 15:
          ints = true;
          e    = -z3::to_real(z3::expr(c, Z3_mk_real2int(c, -A())));
          break;
        case 20:
          ints = true;
          e    = z3::ite(A() >= 0,
                      z3::to_real(z3::expr(c, Z3_mk_real2int(c, A()))),
                      -z3::to_real(z3::expr(c, Z3_mk_real2int(c, -A()))));
          break;
        case 23:
        case 24:
          ints = true;
          e    = z3::to_real(
              z3::expr(c, Z3_mk_real2int(c, A() + c.real_val(1, 2))));
          break;
        default:
          e = fresh(id);
          bounds(id, e);
          if (n.fn == 2)
          {
            defs.push_back(e > 0);
            defs.push_back(e >= A() + 1);
            defs.push_back(z3::implies(A() < 0, e < 1));
            exps.push_back(id);
          }
          if (n.fn == 3)
          {
            defs.push_back(A() > 0);
            defs.push_back(e <= A() - 1);
            defs.push_back(z3::implies(A() > 1, e > 0));
            logs.push_back(id);
          }
          if (n.fn == 7)
          {
            defs.push_back(z3::implies(A() > 0, e > 0));
            defs.push_back(z3::implies(A() < 0, e < 0));
            atans.push_back(id);
          }
          if (n.fn == 4) sines[n.a] = id;
          if (n.fn == 5) cosines[n.a] = id;
        }
        break;
      case FN2:
        if (n.fn == 42)
          e = z3::ite(A() <= B(), A(), B());
        else if (n.fn == 43)
          e = z3::ite(A() >= B(), A(), B());
        else
        {
          e = fresh(id);
          bounds(id, e);
          if (n.fn == 40)
          {
            defs.push_back(z3::implies(A() > 0, e > 0));
            if (N[n.b].op == CF)
            {
              double y = N[n.b].d;
              defs.push_back(z3::implies(A() > 1, y > 0 ? e > 1 : e < 1));
              defs.push_back(z3::implies(A() == 1, e == 1));
              defs.push_back(z3::implies(A() > 0 && A() < 1,
                                         y > 0 ? e < 1 : e > 1));
              pows.push_back(id);
            }
          }
        }
        break;
      case I2F: e = z3::to_real(A()); break;
      case F2I:
        ints = true;
        e    = z3::ite(A() >= 0,
                    z3::expr(c, Z3_mk_real2int(c, A())),
                    -z3::expr(c, Z3_mk_real2int(c, -A())));
        break;
      case IADD: e = A() + B(); break;
      case ISUB: e = A() - B(); break;
      case IMUL: e = A() * B(); break;
      case IDIV:
      {
        // truncating division by a constant
        z3::expr a = A(), b = B();
        e = z3::ite(a >= 0, a / b, -((-a) / b));
        break;
      }
      case IREM:
      {
        z3::expr a = A(), b = B();
        z3::expr ab = z3::ite(b >= 0, b, -b);
        e = z3::ite(a >= 0, z3::mod(a, ab), -z3::mod(-a, ab));
        break;
      }
      case B2I: e = z3::ite(A(), c.int_val(1), c.int_val(0)); break;
      case LT:
      case ILT: e = A() < B(); break;
      case LE:
      case ILE: e = A() <= B(); break;
      case EQ:
      case IEQ: e = A() == B(); break;
      case NOT: e = !A(); break;
      case AND: e = A() && B(); break;
      case OR: e = A() || B(); break;
      default: pathError("translate");
      }
      m.insert({id, e});
    }
    for (auto &[a, s] : sines)
      if (cosines.count(a))
      {
        nonlin = true;
        z3::expr x = get(s), y = get(cosines[a]);
        defs.push_back(x * x + y * y == 1);
      }
    auto mono = [&](std::vector<u32> &v, auto cond)
    {
      for (size_t i = 0; i < v.size() && i < 30; i++)
        for (size_t j = 0; j < i; j++)
        {
          int k = cond(v[i], v[j]);
          if (!k) continue;
          z3::expr xa = get(N[v[i]].a), xb = get(N[v[j]].a);
          z3::expr ya = get(v[i]), yb = get(v[j]);
          if (k < 0)
          {
            defs.push_back(z3::implies(xa < xb, ya > yb));
            defs.push_back(z3::implies(xa > xb, ya < yb));
          }
          else
          {
            defs.push_back(z3::implies(xa < xb, ya < yb));
            defs.push_back(z3::implies(xa > xb, ya > yb));
          }
          defs.push_back(z3::implies(xa == xb, ya == yb));
        }
    };
    mono(exps, [](u32, u32) { return 1; });
    mono(logs, [](u32, u32) { return 1; });
    mono(atans, [](u32, u32) { return 1; });
    mono(pows,
         [](u32 a, u32 b)
         { return N[a].b != N[b].b ? 0 : N[N[a].b].d > 0 ? 1 : -1; });
  }
};

static std::vector<u32> slice(const std::vector<u32> &roots)
{
  // literals of the path condition that share variables (transitively)
  std::unordered_set<u32> vs;
  for (u32 r : roots)
    for (u32 v : varsOf(r))
      vs.insert(v);
  std::vector<char> in(pc.size(), 0);
  bool ch = true;
  while (ch)
  {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++)
      if (!in[i])
      {
        bool hit = false;
        for (u32 v : varsOf(pc[i]))
          if (vs.count(v)) hit = true;
        if (hit)
        {
          in[i] = 1;
          ch    = true;
          for (u32 v : varsOf(pc[i]))
            vs.insert(v);
        }
      }
  }
  std::vector<u32> r;
  for (size_t i = 0; i < pc.size(); i++)
    if (in[i]) r.push_back(pc[i]);
  return r;
}

struct QRes
{
  int r = 0; // -1 unsat, 0 unknown, 1 sat
  std::map<u32, std::string> model; // VAR node -> rational string
};
static QRes query(const std::vector<u32> &lits,
                  int timeoutMs,
                  bool wantModel,
                  const std::vector<u32> &intsWanted = {})
{
  QRes q;
  double t0 = now();
  __sync_fetch_and_add(&SH->queries, 1);
  try
  {
    Tr t(*Z);
    t.build(lits);
    auto mkSolver = [&](int k)
    {
      if (k == 0 && t.nonlin && !t.ints) return z3::solver(*Z, "QF_NRA");
      return z3::solver(*Z);
    };
    for (int k = 0; k < (t.nonlin && !t.ints ? 2 : 1); k++)
    {
      z3::solver s = mkSolver(k);
      z3::params p(*Z);
      p.set("timeout", (unsigned)(t.nonlin && !t.ints ? timeoutMs / 2 + 1 : timeoutMs));
      s.set(p);
      for (auto &d : t.defs)
        s.add(d);
      for (u32 l : lits)
        s.add(t.get(l));
      auto r = s.check();
      q.r    = r == z3::sat ? 1 : r == z3::unsat ? -1 : 0;
      if (q.r == 1 && wantModel)
      {
        z3::model mo = s.get_model();
        for (auto &[id, e] : t.m)
          if (N[id].op == VAR)
          {
            z3::expr v = mo.eval(e, true);
            std::string str;
            if (v.is_numeral())
              str = Z3_get_numeral_string(*Z, v);
            else if (Z3_is_algebraic_number(*Z, v))
              str = Z3_get_numeral_string(
                  *Z, Z3_get_algebraic_number_upper(*Z, v, 30));
            else
              continue;
            q.model[id] = str;
          }
        for (u32 id : intsWanted)
          if (t.m.count(id))
          {
            z3::expr v = mo.eval(t.get(id), true);
            if (v.is_numeral()) q.model[id] = Z3_get_numeral_string(*Z, v);
          }
      }
      if (q.r != 0) break;
    }
  }
  catch (z3::exception &e)
  {
    q.r = 0;
    if (getenv("BSYM_VERBOSE")) fprintf(stderr, "z3: %s\n", e.msg());
  }
  double us = (now() - t0) * 1e6;
  __sync_fetch_and_add(&SH->solver_us, (long)us);
  if (q.r == 1)
    __sync_fetch_and_add(&SH->nsat, 1);
  else if (q.r == -1)
    __sync_fetch_and_add(&SH->nunsat, 1);
  else
    __sync_fetch_and_add(&SH->nunknown, 1);
  if (getenv("BSYM_VERBOSE") && us > 3e5)
    fprintf(stderr,
            "query %d lits %.2fs -> %d : %s\n",
            (int)lits.size(),
            us * 1e-6,
            q.r,
            lits.size() ? show(lits.back()).substr(0, 300).c_str() : "");
  return q;
}
static double ratToD(const std::string &s)
{
  try
  {
    mpq_class q(s);
    return q.get_d();
  }
  catch (...)
  {
    return 0;
  }
}

int bsym::solverCheck(u32 c)
{
  auto lits = slice({c});
  lits.push_back(c);
  return query(lits, cfg.brTimeout, false).r;
}
int bsym::solverModelInt(u32 s, int64_t &v)
{
  auto lits = slice({s});
  u32 dummy = s;
  // make sure s is part of the query: s <= s folds, so add s < big
  lits.push_back(le(cf(-1e300), cf(0)) ? cb(true) : cb(true));
  // translate s through a trivial literal
  u32 big = 0;
  {
    // (s < M) with M above the interval
    // built as an ILE node by hand through bnot(ILT) simplification is folded,
    // so query the value with an extra literal that mentions s
    big = s;
  }
  QRes q;
  double t0 = now();
  __sync_fetch_and_add(&SH->queries, 1);
  try
  {
    Tr t(*Z);
    auto roots = lits;
    roots.push_back(s);
    t.build(roots);
    z3::solver so(*Z);
    z3::params p(*Z);
    p.set("timeout", (unsigned)cfg.brTimeout * 4);
    so.set(p);
    for (auto &d : t.defs)
      so.add(d);
    for (u32 l : lits)
      so.add(t.get(l));
    auto r = so.check();
    q.r    = r == z3::sat ? 1 : r == z3::unsat ? -1 : 0;
    if (q.r == 1)
    {
      z3::expr e = so.get_model().eval(t.get(s), true);
      int64_t x;
      if (!e.is_numeral_i64(x))
        q.r = 0;
      else
        v = x;
    }
  }
  catch (z3::exception &e)
  {
    q.r = 0;
  }
  (void)dummy;
  (void)big;
  __sync_fetch_and_add(&SH->solver_us, (long)((now() - t0) * 1e6));
  if (q.r == 1)
    __sync_fetch_and_add(&SH->nsat, 1);
  else if (q.r == -1)
    __sync_fetch_and_add(&SH->nunsat, 1);
  else
    __sync_fetch_and_add(&SH->nunknown, 1);
  return q.r;
}

// ------------------------------------------------------ numeric evaluation --
typedef long double LD;
static bool evalAll(const std::vector<u32> &order,
                    const std::map<u32, double> &in,
                    std::unordered_map<u32, LD> &v)
{
  for (u32 id : order)
  {
    const Node &n = N[id];
    LD a = n.a ? v[n.a] : 0, b = n.b ? v[n.b] : 0, r = 0;
    switch (n.op)
    {
    case CF: r = n.d; break;
    case CI:
    case CB: r = n.i; break;
    case VAR:
    {
      auto it = in.find(id);
      r       = it == in.end() ? 0 : it->second;
      break;
    }
    case ADD: r = a + b; break;
    case SUB: r = a - b; break;
    case MUL: r = a * b; break;
    case DIV: r = a / b; break;
    case NEG: r = -a; break;
    case FN1:
      switch (n.fn)
      {
      case 1: r = sqrtl(a); break;
      case 2: r = expl(a); break;
      case 3: r = logl(a); break;
      case 4: r = sinl(a); break;
      case 5: r = cosl(a); break;
      case 7: r = atanl(a); break;
      case 13: r = fabsl(a); break;
      default: r = evalFn1(n.fn, (double)a);
      }
      break;
    case FN2:
      if (n.fn == 40)
        r = powl(a, b);
      else if (n.fn == 42)
        r = std::min(a, b);
      else if (n.fn == 43)
        r = std::max(a, b);
      else
        r = evalFn2(n.fn, (double)a, (double)b);
      break;
    case I2F: r = a; break;
    case F2I: r = truncl(a); break;
    case IADD: r = a + b; break;
    case ISUB: r = a - b; break;
    case IMUL: r = a * b; break;
    case IDIV: r = truncl(a / b); break;
    case IREM: r = fmodl(a, b); break;
    case B2I: r = a; break;
    case LT:
    case ILT: r = a < b; break;
    case LE:
    case ILE: r = a <= b; break;
    case EQ:
    case IEQ: r = a == b; break;
    case NOT: r = !a; break;
    case AND: r = a && b; break;
    case OR: r = a || b; break;
    }
    if (n.ty == TF && !(std::isfinite(r))) return false;
    v[id] = r;
  }
  return true;
}

static std::string ceJson(const std::map<u32, double> &in)
{
  std::stringstream ss;
  ss << "{";
  bool first = true;
  for (auto &I : inputs)
  {
    auto it  = in.find(I.node);
    double d = it == in.end() ? I.lo : it->second;
    char b[64];
    snprintf(b, 64, "%.17g", d);
    if (!first) ss << ",";
    first = false;
    ss << jstr(I.name) << ":" << b;
  }
  ss << "}";
  return ss.str();
}

// search for concrete inputs satisfying all literals; violated(v) decides
static std::vector<std::map<u32, double>>
searchCE(const std::vector<u32> &lits,
         const std::vector<u32> &extra,
         std::function<bool(std::unordered_map<u32, LD> &)> viol,
         const std::map<u32, double> *hint,
         double seconds,
         int want)
{
  std::vector<std::map<u32, double>> out;
  std::vector<u32> roots(lits), order;
  roots.insert(roots.end(), extra.begin(), extra.end());
  for (auto &I : inputs)
    roots.push_back(I.node);
  cone(roots, order);
  std::mt19937_64 rng(cfg.seed * 7919 + 13);
  auto U    = [&]() { return (rng() >> 11) * (1.0 / 9007199254740992.0); };
  double t0 = now();
  auto tryIt = [&](const std::map<u32, double> &in)
  {
    std::unordered_map<u32, LD> v;
    if (!evalAll(order, in, v)) return false;
    for (u32 l : lits)
      if (v[l] == 0) return false;
    if (!viol(v)) return false;
    out.push_back(in);
    return true;
  };
  if (hint)
  {
    tryIt(*hint);
  }
  int n = 0;
  while ((int)out.size() < want && now() - t0 < seconds && n < 200000)
  {
    n++;
    std::map<u32, double> in;
    int mode = n % 4;
    for (auto &I : inputs)
    {
      double x;
      if (I.isInt)
        x = I.lo + std::floor(U() * (I.hi - I.lo + 1));
      else if (hint && hint->count(I.node) && (mode == 0))
      {
        double h = hint->at(I.node);
        x        = h * (1 + 1e-3 * (U() - .5)) + 1e-3 * (U() - .5);
        if (U() < .5) x = h;
      }
      else if (mode == 1 && U() < .3)
        x = U() < .5 ? I.lo : I.hi;
      else if (mode == 2)
      {
        double w = std::pow(10., -6 * U());
        x        = (U() < .5 ? I.lo : I.hi) * w;
        if (I.lo > 0) x = I.lo * std::pow(I.hi / I.lo, U());
      }
      else if (mode == 3 && U() < .5)
        x = std::round(I.lo + (I.hi - I.lo) * U());
      else
        x = I.lo + (I.hi - I.lo) * U();
      if (x < I.lo) x = I.lo;
      if (x > I.hi) x = I.hi;
      in[I.node] = x;
    }
    tryIt(in);
  }
  return out;
}

// ------------------------------------------------------ polynomial normals --
// exponents in units of 1/60
static const int EU = 60;
typedef std::vector<std::pair<u32, int>> Mono;
struct MonoH
{
  size_t operator()(const Mono &m) const
  {
    uint64_t h = 1469598103934665603ull;
    for (auto &[v, e] : m)
    {
      h = (h ^ v) * 1099511628211ull;
      h = (h ^ (uint32_t)e) * 1099511628211ull;
    }
    return h ^ (h >> 29);
  }
};
struct Coef
{
  mpq_class c;
  double A;
};
typedef std::unordered_map<Mono, Coef, MonoH> Poly;
struct RF
{
  Poly n;
  std::map<int, int> d;
};
struct TooBig
{
};
struct AtomInfo
{
  std::string key;
  bool pos   = false; // >= 0
  int period = 0;     // v^(period units) == rel
  RF rel;
  double lo = -INFINITY, hi = INFINITY;
  u32 node = 0;
};
static std::vector<AtomInfo> atoms;
static std::map<std::string, u32> atomByKey;
static std::vector<Poly> factors;
static std::map<std::string, int> factorByKey;
static std::unordered_map<u32, RF> nfMemo;
static std::unordered_map<u32, mpq_class> substC; // VAR node -> const

static Poly pconst(const mpq_class &c)
{
  Poly p;
  if (c != 0) p[Mono()] = {c, std::fabs(c.get_d())};
  return p;
}
static void padd(Poly &p, const Poly &q, int sgn)
{
  for (auto &[m, c] : q)
  {
    auto it = p.find(m);
    if (it == p.end())
      p[m] = {sgn > 0 ? c.c : mpq_class(-c.c), c.A};
    else
    {
      if (sgn > 0)
        it->second.c += c.c;
      else
        it->second.c -= c.c;
      it->second.A += c.A;
    }
  }
  if ((long)p.size() > cfg.maxTerms) throw TooBig();
}
// terms that vanish up to rounding are dropped
static void pclean(Poly &p)
{
  for (auto it = p.begin(); it != p.end();)
  {
    double c = it->second.c.get_d();
    if (c == 0 || std::fabs(c) < 1e-13 * it->second.A)
      it = p.erase(it);
    else
      ++it;
  }
}
static Mono mmul(const Mono &a, const Mono &b)
{
  Mono r;
  r.reserve(a.size() + b.size());
  size_t i = 0, j = 0;
  while (i < a.size() || j < b.size())
  {
    if (j == b.size() || (i < a.size() && a[i].first < b[j].first))
      r.push_back(a[i++]);
    else if (i == a.size() || b[j].first < a[i].first)
      r.push_back(b[j++]);
    else
    {
      int e = a[i].second + b[j].second;
      if (e) r.push_back({a[i].first, e});
      i++;
      j++;
    }
  }
  return r;
}
static Poly pmulRaw(const Poly &a, const Poly &b)
{
  Poly r;
  if ((double)a.size() * b.size() > 5e7) throw TooBig();
  for (auto &[m, c] : a)
    for (auto &[k, d] : b)
    {
      Mono x  = mmul(m, k);
      auto &s = r[x];
      s.c += c.c * d.c;
      s.A += c.A * d.A;
      if ((long)r.size() > cfg.maxTerms) throw TooBig();
    }
  return r;
}
static RF rfmul(const RF &a, const RF &b);
static RF rfadd(const RF &a, const RF &b, int sgn);
static RF rfconst(double d)
{
  RF r;
  r.n = pconst(mpq_class(d));
  return r;
}
static RF rfpow(const RF &a, int n);
static bool needsReduce(const Poly &p)
{
  for (auto &[m, c] : p)
    for (auto &[v, e] : m)
    {
      int per = atoms[v].period;
      if (per && (e < 0 || e >= per)) return true;
    }
  return false;
}
// apply v^period -> rel
static RF reduceP(const Poly &p)
{
  RF out;
  if (!needsReduce(p))
  {
    out.n = p;
    pclean(out.n);
    return out;
  }
  std::map<std::vector<std::pair<u32, int>>, Poly> groups;
  for (auto &[m, c] : p)
  {
    std::vector<std::pair<u32, int>> g;
    Mono r;
    for (auto &[v, e] : m)
    {
      int per = atoms[v].period;
      if (per && (e < 0 || e >= per))
      {
        int q = e >= 0 ? e / per : -((-e + per - 1) / per);
        g.push_back({v, q});
        int rem = e - q * per;
        if (rem) r.push_back({v, rem});
      }
      else
        r.push_back({v, e});
    }
    auto &s = groups[g][r];
    s.c += c.c;
    s.A += c.A;
  }
  bool first = true;
  for (auto &[g, q] : groups)
  {
    RF t;
    t.n = q;
    for (auto &[v, k] : g)
      t = rfmul(t, rfpow(RF(atoms[v].rel), k));
    if (first)
      out = t, first = false;
    else
      out = rfadd(out, t, 1);
  }
  pclean(out.n);
  return out;
}
static Poly pmul1(const Poly &a, const Poly &b)
{
  Poly r = pmulRaw(a, b);
  pclean(r);
  return r;
}
static Poly facPow(int f, int k)
{
  Poly r = pconst(1);
  for (int i = 0; i < k; i++)
    r = pmul1(r, factors[f]);
  return r;
}
static std::string monoKey(const Mono &m)
{
  std::string s;
  for (auto &[v, e] : m)
    s += std::to_string(v) + "^" + std::to_string(e) + ".";
  return s;
}
// canonical form: content (mono), lead coefficient, key
struct Canon
{
  Mono content;
  mpq_class lc;
  Poly p; // content * lc * p = original
  std::string key;
};
static Canon canon(const Poly &p)
{
  Canon c;
  // content: min exponents
  std::map<u32, int> mn;
  bool first = true;
  for (auto &[m, k] : p)
  {
    if (first)
    {
      for (auto &[v, e] : m)
        mn[v] = e;
      first = false;
    }
    else
    {
      std::set<u32> seen;
      for (auto &[v, e] : m)
      {
        seen.insert(v);
        auto it = mn.find(v);
        if (it == mn.end())
          mn[v] = std::min(0, e);
        else
          it->second = std::min(it->second, e);
      }
      for (auto &[v, e] : mn)
        if (!seen.count(v)) e = std::min(e, 0);
    }
  }
  Mono inv;
  for (auto &[v, e] : mn)
    if (e)
    {
      c.content.push_back({v, e});
      inv.push_back({v, -e});
    }
  std::vector<std::pair<Mono, Coef>> t;
  for (auto &[m, k] : p)
    t.push_back({mmul(m, inv), k});
  std::sort(t.begin(),
            t.end(),
            [](const auto &a, const auto &b) { return a.first > b.first; });
  c.lc = t.empty() ? mpq_class(1) : t[0].second.c;
  std::stringstream ss;
  for (auto &[m, k] : t)
  {
    mpq_class q = k.c / c.lc;
    double d    = q.get_d();
    c.p[m]      = {q, k.A / std::fabs(c.lc.get_d())};
    char b[40];
    snprintf(b, 40, "%.10e*", d);
    ss << b << monoKey(m) << ";";
  }
  c.key = ss.str();
  return c;
}
static int getFactor(const Canon &c)
{
  auto it = factorByKey.find(c.key);
  if (it != factorByKey.end()) return it->second;
  factors.push_back(c.p);
  factorByKey[c.key] = factors.size() - 1;
  return factors.size() - 1;
}
static RF rfmono(const Mono &m, const mpq_class &c)
{
  RF r;
  if (c != 0) r.n[m] = {c, std::fabs(c.get_d())};
  return r;
}
static RF rfinv(const RF &a)
{
  // 1/(n/d)
  if (a.n.empty()) pathError("division by an identically zero expression");
  Canon c = canon(a.n);
  Mono inv;
  for (auto &[v, e] : c.content)
    inv.push_back({v, -e});
  RF r;
  r.n[inv] = {1 / c.lc, std::fabs(1 / c.lc.get_d())};
  if (c.p.size() > 1) r.d[getFactor(c)] = 1;
  // times d
  RF dd;
  dd.n = pconst(1);
  for (auto &[f, k] : a.d)
  {
    dd.n = pmul1(dd.n, facPow(f, k));
  }
  RF red = reduceP(r.n);
  for (auto &[f, k] : r.d)
    red.d[f] += k;
  if (dd.n.size() == 1 && dd.n.begin()->first.empty()) return red;
  return rfmul(red, reduceP(dd.n));
}
static void cancel(RF &r)
{
  if (r.n.empty())
  {
    r.d.clear();
    return;
  }
  if (r.d.empty() || r.n.size() < 2) return;
  for (auto it = r.d.begin(); it != r.d.end();)
  {
    if (factors[it->first].size() == r.n.size())
    {
      Canon c = canon(r.n);
      auto f  = factorByKey.find(c.key);
      if (f != factorByKey.end() && f->second == it->first)
      {
        r.n.clear();
        r.n[c.content] = {c.lc, std::fabs(c.lc.get_d())};
        if (--it->second == 0) it = r.d.erase(it);
        return;
      }
    }
    ++it;
  }
}
static RF rfmul(const RF &a, const RF &b)
{
  RF r;
  if (a.n.empty() || b.n.empty()) return r;
  // cross-cancel numerators that equal a denominator factor
  RF x = a, y = b;
  auto cc = [&](RF &p, RF &q)
  {
    if (p.n.size() < 2 || q.d.empty()) return;
    bool any = false;
    for (auto &[f, k] : q.d)
      if (factors[f].size() == p.n.size()) any = true;
    if (!any) return;
    Canon c = canon(p.n);
    auto f  = factorByKey.find(c.key);
    if (f == factorByKey.end()) return;
    auto it = q.d.find(f->second);
    if (it == q.d.end()) return;
    p.n.clear();
    p.n[c.content] = {c.lc, std::fabs(c.lc.get_d())};
    if (--it->second == 0) q.d.erase(it);
  };
  cc(x, y);
  cc(y, x);
  r = reduceP(pmulRaw(x.n, y.n));
  for (auto &[f, k] : x.d)
    r.d[f] += k;
  for (auto &[f, k] : y.d)
    r.d[f] += k;
  cancel(r);
  return r;
}
static RF rfadd(const RF &a, const RF &b, int sgn)
{
  if (b.n.empty()) return a;
  RF r;
  if (a.d == b.d)
  {
    r = a;
    padd(r.n, b.n, sgn);
    pclean(r.n);
    if (r.n.empty()) r.d.clear();
    return r;
  }
  std::map<int, int> l = a.d;
  for (auto &[f, k] : b.d)
    l[f] = std::max(l[f], k);
  auto up = [&](const RF &x)
  {
    RF y;
    y.n = x.n;
    for (auto &[f, k] : l)
    {
      auto it = x.d.find(f);
      int h   = it == x.d.end() ? 0 : it->second;
      if (k > h)
      {
        RF t = reduceP(pmulRaw(y.n, facPow(f, k - h)));
        if (!t.d.empty()) throw TooBig(); // relation with denominators
        y.n = t.n;
      }
    }
    return y.n;
  };
  r.n = up(a);
  padd(r.n, up(b), sgn);
  pclean(r.n);
  if (!r.n.empty()) r.d = l;
  return r;
}
static RF rfpow(const RF &a, int n)
{
  if (n < 0) return rfpow(rfinv(a), -n);
  RF r = rfconst(1), b = a;
  while (n)
  {
    if (n & 1) r = rfmul(r, b);
    n >>= 1;
    if (n) b = rfmul(b, b);
  }
  return r;
}
static bool isConst(const RF &r, double &d)
{
  if (!r.d.empty()) return false;
  if (r.n.empty())
  {
    d = 0;
    return true;
  }
  if (r.n.size() == 1 && r.n.begin()->first.empty())
  {
    d = r.n.begin()->second.c.get_d();
    return true;
  }
  return false;
}
static std::string rfKey(const RF &r)
{
  Canon c = canon(r.n);
  char b[40];
  snprintf(b, 40, "%.10e|", c.lc.get_d());
  std::string s = b + monoKey(c.content) + "|" + c.key + "/";
  for (auto &[f, k] : r.d)
    s += std::to_string(f) + ":" + std::to_string(k) + ",";
  return s;
}
static u32 getAtom(const std::string &key, bool &isNew)
{
  auto it = atomByKey.find(key);
  isNew   = it == atomByKey.end();
  if (!isNew) return it->second;
  AtomInfo a;
  a.key = key;
  atoms.push_back(a);
  u32 id         = atoms.size() - 1;
  atomByKey[key] = id;
  return id;
}
static RF rfatom(u32 v, int e = EU)
{
  RF r;
  r.n[Mono{{v, e}}] = {mpq_class(1), 1.0};
  return r;
}
// value interval of an atom from the DAG node that created it
static void setIv(u32 v, u32 node)
{
  atoms[v].lo   = std::max(atoms[v].lo, N[node].lo);
  atoms[v].hi   = std::min(atoms[v].hi, N[node].hi);
  atoms[v].node = node;
}
// is the polynomial positive on the whole box?  (interval evaluation)
static bool positivePoly(const Poly &p)
{
  double lo = 0;
  for (auto &[m, k] : p)
  {
    double l = 1, h = 1, c = k.c.get_d();
    for (auto &[v, e] : m)
    {
      double a = atoms[v].lo, b = atoms[v].hi, x = e / 60.;
      if (atoms[v].pos) a = std::max(a, 0.);
      double pl, ph;
      if (a >= 0)
      {
        pl = std::pow(a, x), ph = std::pow(b, x);
        if (x < 0) std::swap(pl, ph);
      }
      else if (e % (2 * EU) == 0 && e > 0)
        pl = b < 0 ? std::pow(b, x) : 0, ph = std::max(std::pow(a, x), std::pow(b, x));
      else
        return false;
      l *= pl, h *= ph;
    }
    double t = c >= 0 ? c * l : c * h;
    if (!(t > -INFINITY)) return false;
    lo += t;
  }
  return lo > 0;
}
static RF powUnits(const RF &r, int u)
{
  if (u % EU == 0) return rfpow(r, u / EU);
  double cst;
  if (isConst(r, cst)) return rfconst(std::pow(cst, u / 60.));
  // (n / d)^q = n^q d^-q for d > 0
  for (auto &[f, k] : r.d)
    if (positivePoly(factors[f]))
    {
      RF rest = r, den;
      rest.d.erase(f);
      den.n = factors[f];
      return rfmul(powUnits(rest, u), powUnits(den, -u * k));
    }
  Canon c = canon(r.n);
  // positive part of the content
  Mono pm, rest;
  for (auto &[v, e] : c.content)
  {
    if (atoms[v].pos && ((long)e * u) % EU == 0 )
      pm.push_back({v, (int)((long)e * u / EU)});
    else if (atoms[v].pos && atoms[v].period == 0 && ((long)e * u) % EU != 0)
      rest.push_back({v, e});
    else if ((e % (2 * EU)) == 0 && ((long)e * u) % (2 * EU) == 0 && (u * 2) % EU == 0 &&
             ((long)e * u / EU) % (2 * EU) == 0)
      pm.push_back({v, (int)((long)e * u / EU)});
    else
      rest.push_back({v, e});
  }
  RF out = rfmono(pm, 1);
  double lc = c.lc.get_d();
  out       = rfmul(out, rfconst(std::pow(std::fabs(lc), u / 60.)));
  RF base;
  // base = sign(lc) * rest * p / d
  {
    Poly p;
    for (auto &[m, k] : c.p)
    {
      Coef kk = k;
      if (lc < 0) kk.c = -kk.c;
      p[mmul(m, rest)] = kk;
    }
    base.n = p;
    base.d = r.d;
  }
  double bc;
  if (isConst(base, bc))
  {
    if (bc == 1) return out;
    return rfmul(out, rfconst(std::pow(bc, u / 60.)));
  }
  bool isNew;
  u32 v = getAtom("POW|" + rfKey(base), isNew);
  if (isNew)
  {
    atoms[v].pos    = true;
    atoms[v].period = EU;
    atoms[v].rel    = base;
    atoms[v].lo     = 0;
  }
  RF a = rfatom(v, u);
  return rfmul(out, reduceP(a.n));
}
static RF nf(u32 id);
static RF absRF(const RF &r, u32 node)
{
  double cst;
  if (isConst(r, cst)) return rfconst(std::fabs(cst));
  Canon c = canon(r.n);
  if (c.p.size() == 1 && r.d.empty())
  {
    bool ok = true;
    for (auto &[v, e] : c.content)
      if (!atoms[v].pos && (e % (2 * EU)) != 0) ok = false;
    if (ok) return rfmono(c.content, abs(c.lc));
  }
  RF base;
  for (auto &[m, k] : c.p)
    base.n[mmul(m, c.content)] = k;
  base.d = r.d;
  bool isNew;
  u32 v = getAtom("ABS|" + rfKey(base), isNew);
  if (isNew)
  {
    atoms[v].pos    = true;
    atoms[v].lo     = 0;
    atoms[v].period = 2 * EU;
    atoms[v].rel    = rfmul(base, base);
  }
  return rfmul(rfatom(v), rfconst(std::fabs(c.lc.get_d())));
}
static RF nfRaw(u32 id)
{
  const Node n = N[id];
  switch (n.op)
  {
  case CF: return rfconst(n.d);
  case VAR:
  {
    auto s = substC.find(id);
    if (s != substC.end())
    {
      RF r;
      r.n = pconst(s->second);
      return r;
    }
    bool isNew;
    u32 v = getAtom("VAR|" + std::to_string(id), isNew);
    if (isNew)
    {
      atoms[v].pos = n.lo >= 0;
      setIv(v, id);
    }
    return rfatom(v);
  }
  case ADD: return rfadd(nf(n.a), nf(n.b), 1);
  case SUB: return rfadd(nf(n.a), nf(n.b), -1);
  case NEG: return rfmul(nf(n.a), rfconst(-1));
  case MUL: return rfmul(nf(n.a), nf(n.b));
  case DIV: return rfmul(nf(n.a), rfinv(nf(n.b)));
  case FN1:
  {
    RF a = nf(n.a);
    double cst;
    if (isConst(a, cst) && std::isfinite(evalFn1(n.fn, cst)))
      return rfconst(evalFn1(n.fn, cst));
    if (n.fn == 1) return powUnits(a, EU / 2);
    if (n.fn == 17) return powUnits(a, EU / 3);
    if (n.fn == 13) return absRF(a, id);
    if (n.fn == 2 && a.d.empty())
    {
      RF out = rfconst(1);
      for (auto &[m, k] : a.n)
      {
        if (m.empty())
        {
          out = rfmul(out, rfconst(std::exp(k.c.get_d())));
          continue;
        }
        bool isNew;
        // exp(c*m): atom exp(m/60) would need huge exponents; use |c| grid
        char b[40];
        snprintf(b, 40, "%.10e|", std::fabs(k.c.get_d()));
        u32 v = getAtom("EXP|" + std::string(b) + monoKey(m), isNew);
        if (isNew)
        {
          atoms[v].pos = true;
          atoms[v].lo  = 0;
        }
        out = rfmul(out, rfatom(v, k.c > 0 ? EU : -EU));
      }
      return out;
    }
    if (n.fn == 3)
    {
      // log of a product of positive things
      Canon c  = canon(a.n);
      bool pos = c.lc > 0;
      for (auto &[v, e] : c.content)
        if (!atoms[v].pos) pos = false;
      if (c.p.size() == 1 && pos && a.d.empty())
      {
        RF out = rfconst(std::log(c.lc.get_d()));
        for (auto &[v, e] : c.content)
        {
          bool isNew;
          u32 l = getAtom("LOGA|" + std::to_string(v), isNew);
          out   = rfadd(
              out, rfmul(rfatom(l), rfmul(rfconst(e), rfinv(rfconst(EU)))), 1);
        }
        return out;
      }
    }
    if (n.fn == 4 || n.fn == 5)
    {
      Canon c     = canon(a.n);
      bool flip   = c.lc < 0;
      RF b        = flip ? rfmul(a, rfconst(-1)) : a;
      bool isNew;
      std::string k = rfKey(b);
      u32 s         = getAtom("SIN|" + k, isNew);
      u32 co        = getAtom("COS|" + k, isNew);
      if (isNew)
      {
        atoms[s].lo = atoms[co].lo = -1;
        atoms[s].hi = atoms[co].hi = 1;
        atoms[co].period           = 2 * EU;
        RF s2                      = rfatom(s, 2 * EU);
        atoms[co].rel              = rfadd(rfconst(1), s2, -1);
      }
      if (n.fn == 5) return rfatom(co);
      return flip ? rfmul(rfatom(s), rfconst(-1)) : rfatom(s);
    }
    bool isNew;
    u32 v = getAtom("F" + std::to_string(n.fn) + "|" + rfKey(a), isNew);
    if (isNew) setIv(v, id);
    return rfatom(v);
  }
  case FN2:
  {
    RF a = nf(n.a), b = nf(n.b);
    if (n.fn == 42 || n.fn == 43)
    {
      RF d   = absRF(rfadd(a, b, -1), id);
      RF sum = rfadd(a, b, 1);
      return rfmul(rfadd(sum, d, n.fn == 43 ? 1 : -1), rfconst(0.5));
    }
    double y;
    if (n.fn == 40 && isConst(b, y))
    {
      double u = y * EU;
      if (std::fabs(u - std::round(u)) < 1e-9 * std::fabs(u) &&
          std::fabs(u) < 6000)
        return powUnits(a, (int)std::round(u));
    }
    bool isNew;
    u32 v = getAtom(
        "G" + std::to_string(n.fn) + "|" + rfKey(a) + "|" + rfKey(b), isNew);
    if (isNew)
    {
      setIv(v, id);
      if (atoms[v].lo >= 0) atoms[v].pos = true;
    }
    return rfatom(v);
  }
  default:
  {
    bool isNew;
    u32 v = getAtom("NODE|" + std::to_string(id), isNew);
    if (isNew)
    {
      setIv(v, id);
      if (atoms[v].lo >= 0) atoms[v].pos = true;
    }
    return rfatom(v);
  }
  }
}
static RF nf(u32 id)
{
  auto it = nfMemo.find(id);
  if (it != nfMemo.end()) return it->second;
  // iterative over the cone to avoid deep recursion
  std::vector<u32> o;
  {
    std::vector<u32> st{id};
    std::unordered_set<u32> seen;
    while (!st.empty())
    {
      u32 x = st.back();
      st.pop_back();
      if (nfMemo.count(x) || !seen.insert(x).second) continue;
      o.push_back(x);
      if (N[x].ty != TF) continue;
      if (N[x].op == I2F || N[x].op == F2I) continue;
      if (N[x].a) st.push_back(N[x].a);
      if (N[x].b) st.push_back(N[x].b);
    }
    std::sort(o.begin(), o.end());
  }
  for (u32 x : o)
    if (N[x].ty == TF && !nfMemo.count(x)) nfMemo.emplace(x, nfRaw(x));
  return nfMemo.at(id);
}

static void collectSubst()
{
  static size_t done = 0;
  bool any           = false;
  std::function<void(u32)> go = [&](u32 l)
  {
    if (N[l].op == AND)
    {
      go(N[l].a);
      go(N[l].b);
      return;
    }
    if (N[l].op != EQ) return;
    u32 a = N[l].a, b = N[l].b;
    if (N[a].op == CF) std::swap(a, b);
    if (N[a].op == VAR && N[b].op == CF && !substC.count(a))
    {
      substC[a] = mpq_class(N[b].d);
      any       = true;
    }
  };
  for (; done < pc.size(); done++)
    go(pc[done]);
  if (any)
  {
    nfMemo.clear();
    atoms.clear();
    atomByKey.clear();
    factors.clear();
    factorByKey.clear();
  }
}

// upper bound of |monomial| over the box
static double monoBound(const Mono &m)
{
  double b = 1;
  for (auto &[v, e] : m)
  {
    double lo = atoms[v].lo, hi = atoms[v].hi;
    double mx = std::max(std::fabs(lo), std::fabs(hi));
    double mnv =
        (lo <= 0 && hi >= 0) ? 0 : std::min(std::fabs(lo), std::fabs(hi));
    double x = e / 60.;
    b *= x > 0 ? std::pow(mx, x) : std::pow(mnv, x);
  }
  return b;
}

// the linear query: can |sum c_k t_k| exceed eps * sum A_k M_k (+ atol), where
// |t_k| <= M_k <= bound_k ?   unsat => identity holds on the whole box
static int linQuery(const Poly &p, double eps, double atol, size_t &nterms)
{
  nterms = p.size();
  std::vector<std::pair<const Mono *, const Coef *>> t;
  for (auto &[m, c] : p)
    t.push_back({&m, &c});
  double t0 = now();
  int res   = -1;
  size_t K  = 400;
  for (size_t s = 0; s < t.size() || s == 0; s += K)
  {
    __sync_fetch_and_add(&SH->queries, 1);
    try
    {
      z3::solver so(*Z);
      z3::params pa(*Z);
      pa.set("timeout", (unsigned)cfg.obTimeout);
      so.set(pa);
      z3::expr D = Z->real_val(0), T = Z->real_val(0);
      for (size_t i = s; i < t.size() && i < s + K; i++)
      {
        z3::expr x = Z->real_const(("t" + std::to_string(i)).c_str());
        z3::expr M = Z->real_const(("M" + std::to_string(i)).c_str());
        so.add(x <= M);
        so.add(-M <= x);
        double b = monoBound(*t[i].first);
        if (std::isfinite(b)) so.add(M <= Z->real_val(ratStr(b).c_str()));
        D = D + Z->real_val(t[i].second->c.get_str().c_str()) * x;
        T = T + Z->real_val(ratStr(eps * t[i].second->A).c_str()) * M;
      }
      if (t.size() <= K) T = T + Z->real_val(ratStr(atol).c_str());
      so.add(D > T || -D > T);
      auto r = so.check();
      if (r != z3::unsat)
      {
        res = r == z3::sat ? 1 : 0;
        __sync_fetch_and_add(r == z3::sat ? &SH->nsat : &SH->nunknown, 1);
        break;
      }
      __sync_fetch_and_add(&SH->nunsat, 1);
    }
    catch (z3::exception &)
    {
      res = 0;
      break;
    }
    if (t.empty()) break;
  }
  __sync_fetch_and_add(&SH->solver_us, (long)((now() - t0) * 1e6));
  return res;
}

// ------------------------------------------------------------- obligations --
static void
report(const char *label,
       const char *status,
       const char *method,
       double secs,
       size_t terms,
       const std::vector<std::map<u32, double>> &ces = {},
       const std::string &info                       = "")
{
  std::stringstream ss;
  ss << "{\"kind\":\"ob\",\"label\":" << jstr(label) << ",\"status\":\""
     << status << "\",\"method\":\"" << method << "\",\"secs\":" << secs
     << ",\"terms\":" << terms << ",\"pc\":" << pc.size();
  if (!ces.empty())
  {
    ss << ",\"ce\":[";
    for (size_t i = 0; i < ces.size(); i++)
      ss << (i ? "," : "") << ceJson(ces[i]);
    ss << "]";
  }
  if (!info.empty()) ss << ",\"info\":" << jstr(info);
  ss << "}";
  emit(ss.str());
}
static std::map<u32, double> toD(const QRes &q)
{
  std::map<u32, double> m;
  for (auto &[k, v] : q.model)
    if (N[k].op == VAR)
    {
      double d  = ratToD(v);
      auto &I   = inputs[N[k].i];
      if (d < I.lo) d = I.lo;
      if (d > I.hi) d = I.hi;
      m[k] = d;
    }
  // variables the query does not mention: middle of the range
  for (auto &I : inputs)
    if (!m.count(I.node))
      m[I.node] = I.isInt ? I.lo : 0.5 * (I.lo + I.hi);
  return m;
}

void bsym::decideBool(u32 b, const char *label)
{
  __sync_fetch_and_add(&SH->nobl, 1);
  double t0 = now();
  if (N[b].op == CB && N[b].i)
  {
    report(label, "holds", "fold", 0, 0);
    return;
  }
  u32 neg   = bnot(b);
  auto lits = slice({neg});
  lits.push_back(neg);
  QRes q;
  if (N[b].op == CB)
    q.r = 1;
  else
    q = query(lits, cfg.obTimeout, true);
  if (q.r == -1)
  {
    report(label, "holds", "smt", now() - t0, 0);
    return;
  }
  // complete model over the whole path condition
  std::vector<u32> all(pc);
  all.push_back(neg);
  QRes full = query(all, cfg.obTimeout, true);
  if (full.r == -1)
  {
    report(label, "holds", "smt", now() - t0, 0);
    return;
  }
  std::map<u32, double> hint = toD(full.r == 1 ? full : q);
  auto ces                   = searchCE(
      all,
      {},
      [](std::unordered_map<u32, LD> &) { return true; },
      &hint,
      full.r == 1 ? 2 : 6,
      cfg.maxCE);
  // the raw model too: rounding may lose exact equalities in the evaluation
  if (full.r == 1 || q.r == 1) ces.push_back(hint);
  if (ces.empty())
    report(label, "unknown", "smt", now() - t0, 0, {}, show(b).substr(0, 400));
  else
    report(label,
           "fails",
           full.r == 1 ? "smt" : "search",
           now() - t0,
           0,
           ces,
           show(b).substr(0, 400));
}

void bsym::decideEq(u32 a, u32 b, double rtol, double atol, const char *label)
{
  __sync_fetch_and_add(&SH->nobl, 1);
  double t0 = now();
  if (a == b)
  {
    report(label, "holds", "fold", 0, 0);
    return;
  }
  std::string info;
  size_t terms = 0;
  bool big     = false;
  try
  {
    collectSubst();
    RF d = rfadd(nf(a), nf(b), -1);
    // clear negative powers of atoms with relations, reduce again
    std::map<u32, int> mn;
    for (auto &[m, c] : d.n)
      for (auto &[v, e] : m)
        if (e < 0) mn[v] = std::min(mn[v], e);
    (void)mn;
    terms = d.n.size();
    if (getenv("BSYM_VERBOSE") && getenv("BSYM_TERMS"))
      for (auto &[m, c] : d.n)
      {
        fprintf(stderr, "  %.6g (A %.3g)", c.c.get_d(), c.A);
        for (auto &[v, e] : m)
          fprintf(stderr, " [%s]^%g", atoms[v].key.substr(0,60).c_str(), e / 60.);
        fprintf(stderr, "\n");
      }
    int r = linQuery(d.n, rtol, d.d.empty() ? atol : 0, terms);
    if (r == -1)
    {
      report(label, "holds", "nf+lra", now() - t0, terms);
      return;
    }
  }
  catch (TooBig &)
  {
    big  = true;
    info = "normal form too big; ";
  }
  // z3 on the original formula
  u32 diff = fsub(a, b);
  u32 tol  = fadd(cf(atol),
                 fmul(cf(rtol), fn2(43, fn1(13, a), fn1(13, b))));
  u32 neg  = lt(tol, fn1(13, diff));
  std::vector<u32> all(pc);
  all.push_back(neg);
  std::map<u32, double> hint;
  bool haveHint = false;
  // model search: solver first, then concrete evaluation
  QRes q = query(all, std::min(cfg.obTimeout, 4000), true);
  if (q.r == -1)
  {
    report(label, "holds", "smt", now() - t0, terms);
    return;
  }
  if (q.r == 1)
  {
    hint     = toD(q);
    haveHint = true;
  }
  else
  {
    QRes p = query(pc, 4000, true);
    if (p.r == 1)
    {
      hint     = toD(p);
      haveHint = true;
    }
  }
  auto ces = searchCE(
      pc,
      {a, b},
      [&](std::unordered_map<u32, LD> &v)
      {
        LD x = v[a], y = v[b];
        return fabsl(x - y) >
               1.5 * (atol + rtol * std::max(fabsl(x), fabsl(y)));
      },
      haveHint ? &hint : nullptr,
      6,
      cfg.maxCE);
  if (ces.empty() && q.r == 1) ces.push_back(hint);
  if (ces.empty() && q.r == 0 && cfg.obTimeout > 4000)
  {
    auto lits = slice({neg});
    lits.push_back(neg);
    q = query(lits, cfg.obTimeout, true);
    if (q.r == -1)
    {
      report(label, "holds", "smt", now() - t0, terms);
      return;
    }
  }
  info += show(a).substr(0, 200) + "  vs  " + show(b).substr(0, 200);
  if (ces.empty())
    report(label, "unknown", big ? "toobig" : "nf+nra", now() - t0, terms, {}, info);
  else
    report(label, "fails", q.r == 1 ? "smt" : "nf+search", now() - t0, terms, ces, info);
}

void bsym::reachWitness(const char *label)
{
  // vacuity: the path condition at this point must be satisfiable (one witness
  // per label is enough)
  volatile long &slot = SH->reached[std::hash<std::string>()(label) % 1024];
  if (slot > 0) return;
  double t0 = now();
  int sat   = pc.empty() ? 1 : 0;
  if (!sat)
  {
    bool got = !searchCE(
                    pc, {}, [](std::unordered_map<u32, LD> &) { return true; }, nullptr, 0.3, 1)
                    .empty();
    if (got)
      sat = 1;
    else if (slot > -40) // a limited number of attempts
    {
      __sync_fetch_and_sub(&slot, 1);
      sat = query(pc, cfg.brTimeout, false).r;
    }
  }
  if (sat == 1) slot = 1;
  std::stringstream ss;
  ss << "{\"kind\":\"reach\",\"label\":" << jstr(label) << ",\"sat\":" << sat
     << ",\"secs\":" << now() - t0 << "}";
  emit(ss.str());
}
void bsym::pathDone()
{
  __sync_fetch_and_add(&SH->done, 1);
  std::stringstream ss;
  ss << "{\"kind\":\"path\",\"pc\":" << pc.size() << ",\"nodes\":" << N.size()
     << ",\"inputs\":" << inputs.size() << "}";
  emit(ss.str());
}
