// Dependency seams: the QP core, the LP library and the contact model behind
// link-time wrappers that trace what really happened and inject failures.
#include <glpk.h>
#include <hpp/bezier-com-traj/solver/eiquadprog-fast.hpp>
#include <hpp/centroidal-dynamics/centroidal_dynamics.hh>

#include "rt.h"

using namespace rt;
typedef tsid::solvers::EiquadprogFast QP;
typedef Eigen::MatrixXd MX;
typedef Eigen::VectorXd VX;

extern "C" {
#define QPSYM _ZN4tsid7solvers14EiquadprogFast14solve_quadprogERKN5Eigen6MatrixIdLin1ELin1ELi0ELin1ELin1EEERKNS3_IdLin1ELi1ELi0ELin1ELi1EEES6_S9_S6_S9_RS7_
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
__attribute__((weak)) int CAT(__real_, QPSYM)(QP*, const MX&, const VX&, const MX&, const VX&, const MX&, const VX&, VX&);
int CAT(__wrap_, QPSYM)(QP* self, const MX& H, const VX& g, const MX& CE, const VX& ce, const MX& CI, const VX& ci, VX& x) {
  if (!in_lib()) return CAT(__real_, QPSYM)(self, H, g, CE, ce, CI, ci, x);
  DepTrace& d = op_dep();
  OpFault& f = op_fault();
  ++d.qp_calls;
  bool hit = f.qp_k > 0 && d.qp_calls == f.qp_k;
  int old = self->getMaxIter();
  if (hit && f.qp_maxiter >= 0) { count_fault(F_QP_MAXITER); self->setMaxIter(f.qp_maxiter); }
  struct Back { QP* s; int o; ~Back() { s->setMaxIter(o); } } back{self, old};
  int st = CAT(__real_, QPSYM)(self, H, g, CE, ce, CI, ci, x);
  if (hit && f.qp_status >= 0) { count_fault(F_QP_STATUS); st = f.qp_status; }
  DepTrace& e = op_dep();
  e.last_qp_status = st;
  if (st != 0) ++e.qp_bad;
  e.obj_known = st == 0 && x.size() == g.size() && H.rows() == g.size();
  if (e.obj_known) {
    double q = 0, l = 0, m = 0;
    for (int i = 0; i < g.size(); ++i) {
      l += g(i) * x(i); m += std::abs(g(i) * x(i));
      for (int j = 0; j < g.size(); ++j) { double t = x(i) * H(i, j) * x(j); q += 0.5 * t; m += 0.5 * std::abs(t); }
    }
    e.obj = q + l; e.obj_scale = m;
  }
  return st;
}

// the library's memory limit cannot be read back; it lives as long as the thread's environment
static thread_local int limited = 0;
void __real_glp_mem_limit(int);
void __wrap_glp_mem_limit(int mb) { if (in_lib()) limited = 1; __real_glp_mem_limit(mb); }
int __real_glp_free_env(void);
int __wrap_glp_free_env(void) { limited = 0; return __real_glp_free_env(); }
int glp_limited() { return limited; }

int __real_glp_simplex(glp_prob*, const glp_smcp*);
int __wrap_glp_simplex(glp_prob* p, const glp_smcp* parm) {
  if (!in_lib()) return __real_glp_simplex(p, parm);
  DepTrace& d = op_dep();
  OpFault& f = op_fault();
  ++d.lp_calls;
  bool hit = f.lp_k > 0 && d.lp_calls == f.lp_k;
  int r;
  if (hit && f.lp_fail) { count_fault(F_LP_FAIL); r = GLP_EFAIL; }
  else if (hit && f.lp_itlim >= 0) {
    count_fault(F_LP_ITLIM);
    glp_smcp q; if (parm) q = *parm; else glp_init_smcp(&q);
    q.it_lim = f.lp_itlim;
    r = __real_glp_simplex(p, &q);
  } else r = __real_glp_simplex(p, parm);
  int st = glp_get_status(p);
  // GLP_OPT with a nonzero return means the limit was hit on an optimal basis
  d.last_lp_status = st != GLP_OPT ? (r ? 100 + r : st) : 0;
  if (d.last_lp_status) ++d.lp_bad;
  d.obj_known = !d.last_lp_status;
  if (d.obj_known) { d.obj = glp_get_obj_val(p); d.obj_scale = std::abs(d.obj); }
  return r;
}

typedef centroidal_dynamics::Equilibrium EQ;
#define EQSYM _ZNK19centroidal_dynamics11Equilibrium23getPolytopeInequalitiesERN5Eigen6MatrixIdLin1ELin1ELi1ELin1ELin1EEERNS2_IdLin1ELi1ELi0ELin1ELi1EEE
int CAT(__real_, EQSYM)(const EQ*, centroidal_dynamics::MatrixXX&, centroidal_dynamics::VectorX&);
int CAT(__wrap_, EQSYM)(const EQ* self, centroidal_dynamics::MatrixXX& H, centroidal_dynamics::VectorX& h) {
  if (!in_lib()) return CAT(__real_, EQSYM)(self, H, h);
  DepTrace& d = op_dep();
  OpFault& f = op_fault();
  ++d.cone_calls;
  int st;
  if (f.cone_k > 0 && d.cone_calls == f.cone_k) { count_fault(F_CONE_FAIL); st = centroidal_dynamics::LP_STATUS_ERROR; }
  else {
    // the prebuilt library resizes in place with stock Eigen, which leaves a
    // dangling pointer when that fails: give it fresh outputs
    centroidal_dynamics::MatrixXX Ht;
    centroidal_dynamics::VectorX ht;
    st = CAT(__real_, EQSYM)(self, Ht, ht);
    if (st == centroidal_dynamics::LP_STATUS_OPTIMAL) { H.swap(Ht); h.swap(ht); }
  }
  if (st != centroidal_dynamics::LP_STATUS_OPTIMAL) ++op_dep().cone_bad;
  return st;
}
}
