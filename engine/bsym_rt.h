#pragma once
#include <cstdint>
#include <ctime>
#include <semaphore.h>
#include <string>
#include <vector>
typedef uint32_t u32;
namespace bsym
{
enum Ty
{
  TF,
  TI,
  TB
};
enum Op
{
  NOP,
  CF,
  CI,
  CB,
  VAR,
  ADD,
  SUB,
  MUL,
  DIV,
  NEG,
  FN1,
  FN2,
  I2F,
  F2I,
  IADD,
  ISUB,
  IMUL,
  IDIV,
  IREM,
  B2I,
  LT,
  LE,
  EQ,
  ILT,
  ILE,
  IEQ,
  NOT,
  AND,
  OR
};
struct Node
{
  int op    = 0;
  Ty ty     = TF;
  u32 a     = 0, b = 0;
  int fn    = 0;
  int64_t i = 0;
  double d  = 0;
  double lo = -__builtin_inf(), hi = __builtin_inf();
  u32 sz    = 1;
};
struct Input
{
  std::string name;
  u32 node;
  bool isInt;
  double lo, hi;
};
struct Shared
{
  sem_t tokens;
  long paths, done, branches, errors, queries, solver_us, nsat, nunsat,
      nunknown, nobl;
  volatile long reached[1024]; // labels with a witness, by hash
};
struct Config
{
  int outfd       = 1;
  int jobs        = 8;
  long maxPaths   = 20000;
  time_t deadline = 0;
  u32 maxNodes    = 8000000;
  int maxConc     = 128;
  int brTimeout   = 1500;  // ms per branch feasibility query
  int obTimeout   = 20000; // ms per obligation query
  long maxTerms   = 3000000;
  unsigned seed   = 1;
  int maxCE       = 4;
  void init();
};
extern std::vector<Node> N;
extern Shared *SH;
extern std::vector<Input> inputs;
extern std::vector<u32> pc;
extern Config cfg;
double symval();
std::string jstr(const std::string &s);
void emit(const std::string &line);
[[noreturn]] void pathError(const std::string &msg);
u32 cf(double d);
u32 ci(int64_t i);
u32 cb(bool b);
u32 fadd(u32 a, u32 b);
u32 fsub(u32 a, u32 b);
u32 fmul(u32 a, u32 b);
u32 fdiv(u32 a, u32 b);
u32 fneg(u32 a);
u32 fn1(int fn, u32 a);
u32 fn2(int fn, u32 a, u32 b);
u32 lt(u32 a, u32 b);
u32 le(u32 a, u32 b);
u32 eq(u32 a, u32 b);
u32 bnot(u32 a);
u32 band(u32 a, u32 b);
u32 bor(u32 a, u32 b);
double evalFn1(int fn, double x);
double evalFn2(int fn, double x, double y);
std::string show(u32 s);
// solver
void solverInit();
void solverDeclare(u32 var);
void solverAssert(u32 c);
int solverCheck(u32 c); // -1 unsat 0 unknown 1 sat
int solverModelInt(u32 s, int64_t &v);
void decideBool(u32 b, const char *label);
void decideEq(u32 a, u32 b, double rtol, double atol, const char *label);
void reachWitness(const char *label);
void pathDone();
} // namespace bsym
extern "C" bool rt_branch(bool cval, u32 s);
