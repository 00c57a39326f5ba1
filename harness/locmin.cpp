// One local minimisation: converged point or failure, of the right function.
// bsym-src: @models minimizer/*.cpp minimizer/LibNLOPT/*.cpp
// bsym-stub: ^BSMPT::Class_Potential_Origin::VEff\( -> h_veff
// bsym-stub: ^gsl_multimin_fminimizer_alloc$ -> h_alloc
// bsym-stub: ^gsl_multimin_fminimizer_free$ -> h_free
// bsym-stub: ^gsl_multimin_fminimizer_set$ -> h_set
// bsym-stub: ^gsl_multimin_fminimizer_iterate$ -> h_iter
// bsym-stub: ^gsl_multimin_fminimizer_size$ -> h_size
// bsym-stub: ^gsl_multimin_test_size$ -> h_test
// bsym-stub: ^gsl_vector_alloc$ -> h_valloc
// bsym-stub: ^gsl_vector_calloc$ -> h_valloc
// bsym-stub: ^gsl_vector_free$ -> h_vfree
// bsym-stub: ^gsl_vector_get$ -> h_vget
// bsym-stub: ^gsl_vector_set$ -> h_vset
// bsym-stub: ^gsl_vector_set_all$ -> h_vall
#include "models.h"
#include <BSMPT/minimizer/MinimizeGSL.h>
#include <BSMPT/minimizer/MinimizePlane.h>
#include <gsl/gsl_errno.h>
#include <gsl/gsl_multimin.h>
#include <gsl/gsl_vector.h>
using namespace BSMPT::Minimizer;
static double Tt;
static CPO *mod;
static int vecs, mins, iters, ends, how;
static Vec start, fin;
static size_t dim, Ix;
static bool plane;
static PointerContainerMinPlane pp;
static gsl_multimin_function *fun;
static double val(const Vec &full)
{
  double r = 7;
  for (size_t i = 0; i < full.size(); i++)
    r += (1.0 + i) * full[i];
  return r;
}
extern "C"
{
  double h_veff(const CPO *m, const Vec &v, double T, int diff, int order)
  {
    bs_check(m == mod && T == Tt && diff == 0 && order == 1, "potential value at the requested temperature");
    return val(v.size() == m->NHiggs ? v : m->MinimizeOrderVEV(v));
  }
  gsl_vector *h_valloc(size_t n)
  {
    vecs++;
    auto v    = new gsl_vector();
    v->size   = n;
    v->stride = 1;
    v->data   = new double[n + 1]();
    return v;
  }
  void h_vfree(gsl_vector *v)
  {
    if (!v) return;
    vecs--;
    delete[] v->data;
    delete v;
  }
  double h_vget(const gsl_vector *v, size_t i)
  {
    bs_check(i < v->size, "vector index in range");
    return i < v->size ? v->data[i] : 0;
  }
  void h_vset(gsl_vector *v, size_t i, double x)
  {
    bs_check(i < v->size, "vector index in range");
    if (i < v->size) v->data[i] = x;
  }
  void h_vall(gsl_vector *v, double x)
  {
    for (size_t i = 0; i < v->size; i++)
      v->data[i] = x;
  }
  gsl_multimin_fminimizer *h_alloc(const gsl_multimin_fminimizer_type *, size_t n)
  {
    mins++;
    bs_check(n == dim, "dimension of the search");
    auto s = new gsl_multimin_fminimizer();
    s->x   = h_valloc(n);
    return s;
  }
  void h_free(gsl_multimin_fminimizer *s)
  {
    if (!s) return;
    mins--;
    h_vfree(s->x);
    delete s;
  }
  int h_set(gsl_multimin_fminimizer *s, gsl_multimin_function *f, const gsl_vector *x, const gsl_vector *step)
  {
    bs_check(f->n == dim && x->size == dim && step->size == dim, "dimension of the search");
    for (size_t i = 0; i < dim; i++)
      bs_check(x->data[i] == start[i], "search begins at the starting point"), bs_check(step->data[i] > 0, "positive step"), s->x->data[i] = x->data[i];
    fun = f;
    return 0;
  }
  int h_iter(gsl_multimin_fminimizer *s)
  {
    iters++;
    if (iters == 1 || (how != 2 && iters == ends))
    {
      for (size_t i = 0; i < dim; i++)
        s->x->data[i] = fin[i];
      Vec full = fin;
      if (plane)
      {
        full = Vec(dim + 1, 0.0);
        double c = 0;
        for (size_t i = 0, k = 0; i <= dim; i++)
          if (i != Ix) full[i] = fin[k++], c += pp.normalvector[i] * (pp.Point[i] - full[i]);
        full[Ix] = pp.Point[Ix] + c / pp.normalvector[Ix];
      }
      bs_check_eq(fun->f(s->x, fun->params), val(mod->MinimizeOrderVEV(full)), 1e-9, 1e-6, "objective is the potential (in the plane)");
    }
    return how == 1 && iters == ends ? GSL_ENOPROG : GSL_SUCCESS;
  }
  double h_size(const gsl_multimin_fminimizer *) { return how == 0 && iters >= ends ? 1e-7 : 1.0; }
  int h_test(const double size, double tol)
  {
    bs_check(tol > 0 && tol <= 1e-3, "convergence criterion");
    return size < tol ? GSL_SUCCESS : GSL_CONTINUE;
  }
}
extern "C" void bs_harness_main()
{
  std::string cs = bs_case();
  auto has       = [&](const char *t) { return cs.find(t) != std::string::npos; };
  std::shared_ptr<CPO> m = newModel(specFromCase(cs), GetSMConstants());
  Vec par;
  for (auto &n : parNames(specFromCase(cs)))
    par.push_back(n == "type" ? 1 : n == "vh" ? 246 : n == "vs" || n == "va" ? 100 : 0.5);
  m->set_gen(par);
  if (!m->SetCurvatureDone) m->SetCurvatureArrays();
  mod      = m.get();
  size_t n = m->nVEV;
  plane    = has("plane");
  dim      = plane ? n - 1 : n;
  Tt       = R("T", 0, 300);
  for (size_t i = 0; i < dim; i++)
    start.push_back(R("x" + std::to_string(i), -500, 500)), fin.push_back(R("y" + std::to_string(i), -500, 500));
  how  = bs_choice("how", 3); // converges, stops with an error, never converges
  ends = 1 + bs_choice("ends", 3) * 3;
  Vec sol;
  int st;
  if (plane)
  {
    Ix = bs_choice("index", n);
    pp.Temp = Tt, pp.nVEV = n, pp.modelPointer = m, pp.Index = Ix;
    for (size_t i = 0; i < n; i++)
    {
      std::string k = std::to_string(i);
      pp.Point.push_back(R("p" + k, -400, 400));
      pp.normalvector.push_back(i == Ix ? R("n" + k, 1, 400) : R("n" + k, -400, 400));
    }
    st = GSL_Minimize_Plane_From_S_gen_all(pp, sol, start);
  }
  else
  {
    GSL_params p(*m, Tt);
    st = GSL_Minimize_From_S_gen_all(p, sol, start);
  }
  bs_check((st == GSL_SUCCESS) == (how == 0), "success iff the search converged");
  bs_check(vecs == 0 && mins == 0, "all resources are released");
  bs_check(sol.size() == dim, "size of the solution");
  if (how == 2) bs_check(iters >= 100 && iters <= 5000, "the number of iterations is bounded");
  if (how == 0)
    for (size_t i = 0; i < dim; i++)
      bs_check(sol[i] == fin[i], "solution is the converged point");
  bs_reach("end");
}
