// Calls into the library exactly as a user does. Compiled with the access
// hooks; everything between LIB and HOST markers is code under test.
#include <hpp/bezier-com-traj/solve_end_effector.hh>
#include <typeinfo>

#include "scen.h"
#include "util.h"

using namespace rt;
using namespace bezier_com_traj;

// ---------------------------------------------------------------- reporting
static void put(std::vector<double>& v, const VX& x) { v.assign(x.data(), x.data() + x.size()); }

template <class B>
static void putb(const B& b, std::vector<double>& v, double& mn, double& mx, size_t& deg) {
  mn = b.min(); mx = b.max(); deg = b.degree();
  v.clear();
  for (auto const& p : b.waypoints()) for (int i = 0; i < p.size(); ++i) v.push_back(p[i]);
  v.push_back(b.mult_T_);
}

static void report(const ResultDataCOMTraj& r, Out& o) {
  o.kind = 0; o.success = r.success_; o.cost = r.cost_;
  put(o.x, r.x);
  putb(r.c_of_t_, o.cpts, o.c_min, o.c_max, o.c_deg);
  putb(r.dL_of_t_, o.dlpts, o.dl_min, o.dl_max, o.dl_deg);
  for (int i = 0; i < 3; ++i) { o.dc1[i] = r.dc1_[i]; o.ddc1[i] = r.ddc1_[i]; }
}
static void report(const solvers::ResultData& r, Out& o) {
  o.kind = 0; o.success = r.success_; o.cost = r.success_ ? r.cost_ : 0; if (r.success_) put(o.x, r.x);
}

struct SimPathError : std::exception {
  int token; explicit SimPathError(int t) : token(t) {}
  const char* what() const noexcept override { return "user path failed"; }
};

// other things a user's path may throw, with or without a standard base
struct SimRange : std::out_of_range { int token = 4714; SimRange() : std::out_of_range("path range") {} };
struct SimRuntime : std::runtime_error { int token = 4715; SimRuntime() : std::runtime_error("path runtime") {} };
struct SimAlloc : std::bad_alloc { int token = 4716; };
static const char* const SIM_TEXT = "path text";
struct SimPlain { int token; double more[6]; };
struct SimInvalid : std::invalid_argument { int token = 4719; SimInvalid() : std::invalid_argument("path argument") {} };
enum { PATH_KINDS = 10 };
static void path_throw(int kind) {
  switch (kind % PATH_KINDS) {
    case 0: throw SimPathError(4711);
    case 1: throw 4712;
    case 2: throw std::logic_error("user path: 4713");
    case 3: throw SimRange();
    case 4: throw SimRuntime();
    case 5: throw SimAlloc();
    case 6: throw SIM_TEXT;
    case 7: throw SimPlain{4717, {}};
    case 8: throw std::runtime_error("user path: 4718");
    default: throw SimInvalid();
  }
}

static void exc(Out& o, int kind, const char* type, const char* what) {
  ModeGuard g(HOST);
  o.clear(); o.kind = kind; o.type = type; o.what = what;
}

#define GUARDED(...)         \
  set_mode(LIB);                                                                             \
  try { __VA_ARGS__ }                                                                             \
  catch (const SimPathError& e) { exc(o, 1, "user:path", e.token == 4711 ? "4711" : "damaged"); } \
  catch (const SimRange& e) { exc(o, 1, "user:range", e.token == 4714 ? "4714" : "damaged"); } \
  catch (const SimRuntime& e) { exc(o, 1, "user:runtime", e.token == 4715 ? "4715" : "damaged"); } \
  catch (const SimAlloc& e) { exc(o, 1, "user:alloc", e.token == 4716 ? "4716" : "damaged"); } \
  catch (const SimInvalid& e) { exc(o, 1, "user:invalid", e.token == 4719 ? "4719" : "damaged"); } \
  catch (const SimPlain& e) { exc(o, 1, "user:plain", e.token == 4717 ? "4717" : "damaged"); } \
  catch (const char* e) { exc(o, e == SIM_TEXT ? 1 : 2, "user:text", e == SIM_TEXT ? "4720" : "damaged"); } \
  catch (const std::bad_alloc&) { exc(o, 1, "std::bad_alloc", ""); }                         \
  catch (const std::exception& e) { exc(o, 1, typeid(e).name(), e.what()); }                 \
  catch (int t) { exc(o, t == 4712 ? 1 : 2, "user:int", t == 4712 ? "4712" : "damaged"); }   \
  catch (...) { exc(o, 2, "unknown", ""); }                                                  \
  set_mode(HOST);

// -------------------------------------------------------------- user's path
struct SimPath {
  const Prob* p; PathPlan* pp;
  point3_t operator()(double t) const {
    ModeGuard host(HOST);
    host_check(false);
    int k = pp ? ++pp->calls : 0;
    if (pp && k == pp->throw_at) {
      count_fault(F_PATH_THROW);
      path_throw(pp->throw_kind);
    }
    if (pp && k == pp->enter_at && pp->enter) {
      count_fault(F_PATH_REENTER);
      OpSave s; op_save(s);
      op_fault() = OpFault();
      op_dep() = DepTrace();
      Out no;
      if (pp->inner) pp->inner->calls = 0;
      ad_call(*pp->enter, pp->inner, no);
      pp->nested_d = digest(no);
      pp->nested = no.kind ? no.type + no.what : (no.success ? "ok" : "fail");
      op_restore(s);
    }
    point3_t a = p->pd.c0_ * (1 - t) + p->pd.c1_ * t;
    a += p->bump * (4 * t * (1 - t));
    return a;
  }
};

static void mat(std::vector<double>& v, const MX& m) { for (int j = 0; j < m.cols(); ++j) for (int i = 0; i < m.rows(); ++i) v.push_back(m(i, j)); }
template <class W> static void wps(std::vector<double>& v, const W& w) { for (auto const& p : w) { mat(v, p.first); mat(v, p.second); } }

// the helper functions the entry points are made of
static void helpers(const Prob& p, const ProblemData& pd, std::vector<double>& v) {
  const double T = p.T;
  std::vector<point_t> pi = computeConstantWaypoints(pd, T);
  { ModeGuard h(HOST); for (auto& q : pi) mat(v, q); }
  switch (p.help) {
    case 0: {
      T_time ta = computeDiscretizedTime(p.Ts, p.timeStep);
      T_time tb = computeDiscretizedTimeFixed(p.Ts, p.ppp);
      ModeGuard h(HOST);
      for (auto& x : ta) { v.push_back(x.first); v.push_back(x.second); }
      for (auto& x : tb) { v.push_back(x.first); v.push_back(x.second); }
      break;
    }
    case 1: {
      bezier_wp_t::t_point_t w = computeWwaypoints(pd, T);
      { ModeGuard h(HOST); wps(v, w); }
      bezier_wp_t::t_point_t s = computeConstantWaypointsSymbolic(pd, T);
      ModeGuard h(HOST); wps(v, s);
      break;
    }
    case 2: {
      for (int k = 0; k < 4; ++k) {
        coefs_t a = evaluateCurveAtTime(pd, pi, 0.3 * k);
        coefs_t b = evaluateAccelerationCurveAtTime(pd, pi, T, 0.3 * k);
        ModeGuard h(HOST); v.push_back(a.first); mat(v, a.second); v.push_back(b.first); mat(v, b.second);
      }
      coefs_t f = computeFinalVelocityPoint(pd, T);
      ModeGuard h(HOST); v.push_back(f.first); mat(v, f.second);
      break;
    }
    case 3: {
      std::vector<waypoint_t> a = computeVelocityWaypoints(pd, T), b = computeAccelerationWaypoints(pd, T), c = computeJerkWaypoints(pd, T);
      std::pair<MatrixXX, VectorX> hg = computeVelocityCost(pd, T);
      ModeGuard h(HOST); wps(v, a); wps(v, b); wps(v, c); mat(v, hg.first); mat(v, hg.second);
      break;
    }
    case 4: {
      for (int k = 0; k < 3; ++k) {
        waypoint_t a = evaluateCurveWaypointAtTime(pd, pi, 0.4 * k), b = evaluateVelocityCurveWaypointAtTime(pd, T, pi, 0.4 * k),
                   c = evaluateAccelerationCurveWaypointAtTime(pd, T, pi, 0.4 * k), d = evaluateJerkCurveWaypointAtTime(pd, T, pi, 0.4 * k);
        ModeGuard h(HOST); mat(v, a.first); mat(v, a.second); mat(v, b.first); mat(v, b.second); mat(v, c.first); mat(v, c.second); mat(v, d.first); mat(v, d.second);
      }
      break;
    }
    case 5: {
      MatrixXX H; VectorX g;
      computeVelCostFunctionDiscretized(10, pd, T, H, g);
      { ModeGuard h(HOST); mat(v, H); mat(v, g); }
      computeAccelerationCostFunctionDiscretized(10, pd, T, H, g);
      { ModeGuard h(HOST); mat(v, H); mat(v, g); }
      computeJerkCostFunctionDiscretized(10, pd, T, H, g);
      ModeGuard h(HOST); mat(v, H); mat(v, g);
      break;
    }
    case 6: {
      std::vector<point_t> a = computeConstantWaypointsInitPredef(pd, T), b = computeConstantWaypointsGoalPredef(pd, T);
      ModeGuard h(HOST);
      for (auto& q : a) mat(v, q);
      for (auto& q : b) mat(v, q);
      break;
    }
    case 8: case 9: {
      const unsigned deg = 1 + p.ppp % 7;
      std::vector<ndcurves::Bern<double> > bern = ComputeBersteinPolynoms(deg);
      { ModeGuard h(HOST); for (auto& q : bern) for (int k = 0; k <= 4; ++k) v.push_back(q(0.25 * k)); }
      std::vector<waypoint6_t> w, l;
      for (unsigned i = 0; i <= deg; ++i) {
        waypoint6_t a; a.first.setZero(); a.second.setZero();
        a.first.block<3, 3>(0, 0) = Matrix3::Identity() * (1. + i); a.first.block<3, 3>(3, 0) = skew(pd.c0_ * (double)i + pd.c1_);
        a.second.head<3>() = pd.dc0_ * (double)i; a.second.tail<3>() = pd.ddc1_ + pd.j0_ * (double)i;
        w.push_back(a);
        a.first.setZero(); a.first.block<3, 3>(3, 0) = Matrix3::Identity() * (2. - i); a.second.head<3>().setZero();
        l.push_back(a);
      }
      if (p.help == 8) { std::vector<waypoint6_t> z = ComputeDiscretizedWaypoints(w, bern, 2 + (int)p.ppp); ModeGuard h(HOST); wps(v, z); break; }
      bool fail = true, am = p.ppp & 1;
      std::pair<MatrixXX, VectorX> ab = compute6dControlPointInequalities(pd.contacts_[0], w, l, am, fail);
      ModeGuard h(HOST); v.push_back(fail); mat(v, ab.first); mat(v, ab.second);
      break;
    }
    default: {
      MatrixXX A = p.A; VectorX b = p.b;
      int z = Normalize(A, b);
      ModeGuard h(HOST); v.push_back(z); mat(v, A); mat(v, b);
    }
  }
}

// an optimisation problem, through any of the overloads
static solvers::ResultData put(const Prob& p) {
  if (p.form == 1) return bezier_com_traj::solve(p.pA, p.pD, p.pH, p.lo, p.hi, p.x0, p.solver);
  if (p.form == 2) return bezier_com_traj::solve(p.pA, p.pH, p.x0, p.solver);
  return solvers::solve(p.A, p.b, p.D, p.d, p.H, p.g, p.x0, p.lo, p.hi, p.solver);
}

void ad_call(const Prob& p, PathPlan* pp, Out& o) {
  o.clear();
  GUARDED({
    switch (p.entry) {
      case E_TRAJ: {
        ResultDataCOMTraj r = computeCOMTraj(p.pd, p.Ts, p.timeStep, p.solver);
        ModeGuard h(HOST); report(r, o); break;
      }
      case E_FIXED: {
        ResultDataCOMTraj r = computeCOMTrajFixedSize(p.pd, p.Ts, p.ppp);
        ModeGuard h(HOST); report(r, o); break;
      }
      case E_ZERO: {
        ResultDataCOMTraj r = solve0step(p.pd, p.Tsv, p.timeStep);
        ModeGuard h(HOST); report(r, o); break;
      }
      case E_EE: {
        SimPath path{&p, pp};
        ResultDataCOMTraj r = solveEndEffector(p.pd, path, p.T, p.w, p.useVel);
        ModeGuard h(HOST); report(r, o); break;
      }
      case E_SOLVE: {
        solvers::ResultData r = put(p);
        ModeGuard h(HOST); report(r, o); break;
      }
      case E_HELP: {
        std::vector<double>* v;
        { ModeGuard h(HOST); v = &o.extra; }
        helpers(p, p.pd, *v);
        o.success = true;
        break;
      }
    }
  })
}

// the same description, built field by field
static ProblemData* describe(const Prob& p, int leave) {
  std::unique_ptr<ProblemData> q(new ProblemData());
  const ProblemData& d = p.pd;
  q->c0_ = d.c0_;
  if (!(leave & 1)) q->l0_ = d.l0_;
  if (!(leave & 2)) q->dc0_ = d.dc0_;
  if (!(leave & 4)) q->ddc0_ = d.ddc0_;
  if (!(leave & 8)) q->j0_ = d.j0_;
  if (!(leave & 16)) q->c1_ = d.c1_;
  if (!(leave & 32)) q->dc1_ = d.dc1_;
  if (!(leave & 64)) q->ddc1_ = d.ddc1_;
  if (!(leave & 128)) q->j1_ = d.j1_;
  if (!(leave & 256)) q->useAngularMomentum_ = d.useAngularMomentum_;
  if (!(leave & 512)) q->costFunction_ = d.costFunction_;
  if (!(leave & 1024)) q->representation_ = d.representation_;
  if (!(leave & 2048)) q->constraints_ = d.constraints_; else {
    std::unique_ptr<Constraints> c(new Constraints(d.constraints_.flag_));
    asm volatile("" : : "r"(c.get()) : "memory");      // really in the heap
    if (leave & 16384) c->constraintAcceleration_ = true;
    q->constraints_ = *c;
  }
  q->contacts_.resize(d.contacts_.size());
  for (size_t i = 0; i < d.contacts_.size(); ++i) {
    ContactData& c = q->contacts_[i];
    c.contactPhase_ = d.contacts_[i].contactPhase_;
    if (!(leave & 4096)) { c.Kin_ = d.contacts_[i].Kin_; c.kin_ = d.contacts_[i].kin_; }
    if (!(leave & 8192)) { c.Ang_ = d.contacts_[i].Ang_; c.ang_ = d.contacts_[i].ang_; }
  }
  return q.release();
}

void ad_fresh_call(const Prob& p, int leave, Out& o) {
  o.clear();
  GUARDED({
    std::unique_ptr<ProblemData> q(describe(p, leave));
    if (p.entry == E_HELP) {
      std::vector<double>* v;
      { ModeGuard h(HOST); v = &o.extra; }
      helpers(p, *q, *v);
      o.success = true;
    } else {
      SimPath path{&p, nullptr};
      ResultDataCOMTraj r = p.entry == E_FIXED ? computeCOMTrajFixedSize(*q, p.Ts, p.ppp)
                            : p.entry == E_ZERO ? solve0step(*q, p.Tsv, p.timeStep)
                            : p.entry == E_EE   ? solveEndEffector(*q, path, p.T, p.w, p.useVel)
                                                : computeCOMTraj(*q, p.Ts, p.timeStep, p.solver);
      ModeGuard h(HOST); report(r, o);
    }
  })
}
void ad_eq_copy(const Prob& p, Out& o) {
  o.clear();
  GUARDED({ for (auto const& c : p.pd.contacts_) new centroidal_dynamics::Equilibrium(*c.contactPhase_); o.success = true; })
}

// ---------------------------------------------------------- reused QP solver
typedef tsid::solvers::EiquadprogFast QP;
static QP* qp[64];
struct HostDelete { void operator()(QP::SpMat* m) const { ModeGuard h(HOST); delete m; } };
void ad_export(const Prob& p, const std::string& name, bool clip, Out& o) {
  GUARDED(
    printQHullFile(p.Ab, p.point, name, clip);
    { ModeGuard g(HOST); o.kind = 0; o.success = true; }
  )
}
void ad_qp_new(int s) { ad_qp_del(s); ModeGuard g(LIB); qp[s] = new QP(); }
void ad_qp_del(int s) { ModeGuard g(LIB); delete qp[s]; qp[s] = nullptr; }
bool ad_qp_maxiter(int s, int n) { ModeGuard g(LIB); return qp[s]->setMaxIter(n); }
void ad_qp_solve(int s, const Prob& p, bool sparse, int inverse, Out& o) {
  o.clear();
  struct Own { QP* q; ~Own() { q->is_inverse_provided_ = false; } } own{qp[s]};
  GUARDED({
    if (inverse) {     // the caller factorises
      if (inverse > 1) qp[s]->reset((int)p.g.size(), (int)p.d.size(), (int)p.b.size());
      MX J = MX::Identity(p.H.rows(), p.H.rows());
      Eigen::LLT<MX> chol(p.H);
      chol.matrixU().solveInPlace(J);
      qp[s]->m_J = J;
      qp[s]->is_inverse_provided_ = true;
    }
    VX ce0 = -p.d; MX CI = -p.A; VX x = p.x0;
    tsid::solvers::EiquadprogFast_status st;
    if (sparse) {
      std::unique_ptr<QP::SpMat, HostDelete> hs;
      { ModeGuard h(HOST); hs.reset(new QP::SpMat(p.H.sparseView())); }
      st = qp[s]->solve_quadprog_sparse(*hs, p.g, p.D, ce0, CI, p.b, x);
    } else st = qp[s]->solve_quadprog(p.H, p.g, p.D, ce0, CI, p.b, x);
    ModeGuard h(HOST);
    o.success = st == tsid::solvers::EIQUADPROG_FAST_OPTIMAL;
    o.extra.push_back((int)st);
    if (o.success) {
      put(o.x, x); o.cost = qp[s]->getObjValue();
      int q = qp[s]->getActiveSetSize();
      o.extra.push_back(q);
      for (int i = 0; i < q; ++i) o.extra.push_back(qp[s]->getActiveSet()[i]);
      for (int i = 0; i < q; ++i) o.extra.push_back(qp[s]->getLagrangeMultipliers()[i]);
    }
  })
}

// ------------------------------------------------------- problem descriptions
static const int NS = 24;
static ProblemData* pdv[NS];
static std::vector<centroidal_dynamics::Equilibrium*>* eqs[NS];   // host's own contact objects
static std::vector<ProblemData>* vec = nullptr;

bool ad_pd_has(int s) { return pdv[s] != nullptr; }
// may this problem be handed to p's entry point?  (as many phases, each with a contact model)
bool ad_pd_fits(int s, const Prob& p) {
  if (!pdv[s] || pdv[s]->contacts_.empty() || pdv[s]->contacts_.size() != p.pd.contacts_.size()) return false;
  for (auto const& c : pdv[s]->contacts_) if (!c.contactPhase_) return false;
  return true;
}
int ad_vec_size() { return vec ? (int)vec->size() : 0; }

// everything a description says; of its contact models only whether they are there, or also what they say
static uint64_t says(const ProblemData& q, bool models) {
  ModeGuard g(HOST);
  uint64_t h = fnv("", 0);
  auto v = [&](const double* p, size_t n) { h = fnv(&n, sizeof n, h); h = fnv(p, n * sizeof(double), h); };
  auto i = [&](long k) { h = fnv(&k, sizeof k, h); };
  for (const point_t* p : {&q.c0_, &q.dc0_, &q.ddc0_, &q.j0_, &q.c1_, &q.dc1_, &q.ddc1_, &q.j1_, &q.l0_}) v(p->data(), 3);
  i(q.useAngularMomentum_); i((long)q.constraints_.flag_); i(q.constraints_.constraintAcceleration_); i((long)q.costFunction_); i((long)q.representation_);
  v(&q.constraints_.maxAcceleration_, 1); v(&q.constraints_.reduce_h_, 1);
  i((long)q.contacts_.size());
  for (auto const& c : q.contacts_) {
    i(c.Kin_.rows()); i(c.Ang_.rows());
    v(c.Kin_.data(), c.Kin_.size()); v(c.kin_.data(), c.kin_.size()); v(c.Ang_.data(), c.Ang_.size()); v(c.ang_.data(), c.ang_.size());
    i(c.contactPhase_ != nullptr);
    if (models && c.contactPhase_) { v(&c.contactPhase_->m_mass, 1); v(c.contactPhase_->m_gravity.data(), 3); v(c.contactPhase_->m_G_centr.data(), c.contactPhase_->m_G_centr.size()); }
  }
  return h;
}
static void same_words(const ProblemData& a, uint64_t was, bool models, const char* what, Out& o) {
  if (o.wrong.empty() && says(a, models) != was) o.wrong = what;
}

void ad_pd_make(int s, const Prob& p, int late, Out& o) {
  o.clear();
  Out dummy; ad_pd_del(s, dummy);
  auto* own = new std::vector<centroidal_dynamics::Equilibrium*>();
  for (auto const& c : p.pd.contacts_) own->push_back(new centroidal_dynamics::Equilibrium(*c.contactPhase_));
  ad_pd_freeeq(s);
  eqs[s] = own;
  GUARDED({
    std::unique_ptr<ProblemData> q(new ProblemData());
    q->c0_ = p.pd.c0_; q->dc0_ = p.pd.dc0_; q->ddc0_ = p.pd.ddc0_; q->j0_ = p.pd.j0_;
    q->c1_ = p.pd.c1_; q->dc1_ = p.pd.dc1_; q->ddc1_ = p.pd.ddc1_; q->j1_ = p.pd.j1_;
    q->l0_ = p.pd.l0_;
    q->useAngularMomentum_ = p.pd.useAngularMomentum_;
    q->constraints_ = p.pd.constraints_;
    q->costFunction_ = p.pd.costFunction_;
    q->representation_ = p.pd.representation_;
    for (size_t i = 0; i < own->size(); ++i) {
      ContactData c((*own)[i]);
      if (late) c.contactPhase_ = nullptr;             // the model is handed over later
      c.Kin_ = p.pd.contacts_[i].Kin_; c.kin_ = p.pd.contacts_[i].kin_;
      c.Ang_ = p.pd.contacts_[i].Ang_; c.ang_ = p.pd.contacts_[i].ang_;
      q->contacts_.push_back(c);
    }
    pdv[s] = q.release();
    for (auto const& c : pdv[s]->contacts_) if (!c.contactPhase_ != !!late) o.wrong = "a contact put into a description lost its contact model";
    o.success = true;
  })
}
void ad_pd_default(int s, Out& o) { o.clear(); Out d; ad_pd_del(s, d); GUARDED({ pdv[s] = new ProblemData(); pdv[s]->contacts_.resize(2); o.success = true; }) }
void ad_pd_copy(int f, int t, Out& o) {
  o.clear(); if (f == t) { o.success = true; return; }
  Out d; ad_pd_del(t, d);
  GUARDED({
    uint64_t was = says(*pdv[f], true);
    pdv[t] = new ProblemData(*pdv[f]); o.success = true;
    same_words(*pdv[t], was, true, "a copy differs from its original", o); same_words(*pdv[f], was, true, "copying changed the original", o);
  })
}
void ad_pd_move(int f, int t, Out& o) {
  o.clear(); if (f == t) { o.success = true; return; }
  Out d; ad_pd_del(t, d);
  GUARDED({
    uint64_t was = says(*pdv[f], false);
    pdv[t] = new ProblemData(std::move(*pdv[f])); o.success = true;
    same_words(*pdv[t], was, false, "a moved description differs from what it was", o);
  })
}
void ad_pd_assign(int f, int t, Out& o) { o.clear(); GUARDED({
    uint64_t was = says(*pdv[f], false);
    *pdv[t] = *pdv[f]; o.success = true;
    same_words(*pdv[t], was, false, "an assigned description differs from its original", o); same_words(*pdv[f], was, false, "assigning changed the original", o);
  })
}
void ad_pd_swap(int a, int b, Out& o) { o.clear(); if (a == b) return; GUARDED({
    uint64_t wa = says(*pdv[a], false), wb = says(*pdv[b], false);
    std::swap(*pdv[a], *pdv[b]); o.success = true;
    same_words(*pdv[a], wb, false, "a swapped description differs from what it was", o); same_words(*pdv[b], wa, false, "a swapped description differs from what it was", o);
  })
}
// change one part of a copy: to the value it has in p
void ad_pd_mut(int s, const Prob& p, int what, Out& o) {
  o.clear();
  GUARDED({
    ProblemData& q = *pdv[s];
    switch (what) {
      case 0: q.c0_ = p.pd.c0_; break;
      case 1: q.c1_ = p.pd.c1_; break;
      case 2: q.constraints_ = p.pd.constraints_; break;
      case 3: for (size_t i = 0; i < q.contacts_.size() && i < p.pd.contacts_.size(); ++i) {
          q.contacts_[i].Kin_ = p.pd.contacts_[i].Kin_; q.contacts_[i].kin_ = p.pd.contacts_[i].kin_; } break;
      case 4: q.contacts_ = p.pd.contacts_; break;
      case 5: q.costFunction_ = p.pd.costFunction_; break;
      case 6:    // edit the contact model of this copy in place
        for (size_t i = 0; i < q.contacts_.size() && i < p.pd.contacts_.size(); ++i)
        {
          // the host turns its own contact model into another one
          ModeGuard h(HOST);
          centroidal_dynamics::Equilibrium *e = q.contacts_[i].contactPhase_, *f = p.pd.contacts_[i].contactPhase_;
          if (e && f && !pool_model(e)) { e->~Equilibrium(); new (e) centroidal_dynamics::Equilibrium(*f); }
        }
        break;
      case 8:    // contact models handed over late
        for (size_t i = 0; i < q.contacts_.size() && i < p.pd.contacts_.size(); ++i)
          if (!q.contacts_[i].contactPhase_) q.contacts_[i].contactPhase_ = p.pd.contacts_[i].contactPhase_;
        break;
      default: q.dc0_ = p.pd.dc0_; break;
    }
    o.success = true;
  })
}
void ad_pd_del(int s, Out& o) { o.clear(); GUARDED({ ProblemData* q = pdv[s]; pdv[s] = nullptr; delete q; o.success = true; }) }
void ad_pd_freeeq(int s) {
  if (!eqs[s]) return;
  for (auto* e : *eqs[s]) delete e;
  delete eqs[s]; eqs[s] = nullptr;
}
void ad_pd_call(int s, const Prob& p, Out& o) {
  o.clear();
  GUARDED({
    ResultDataCOMTraj r = p.entry == E_FIXED ? computeCOMTrajFixedSize(*pdv[s], p.Ts, p.ppp)
                          : p.entry == E_ZERO ? solve0step(*pdv[s], p.Tsv, p.timeStep)
                                              : computeCOMTraj(*pdv[s], p.Ts, p.timeStep, p.solver);
    ModeGuard h(HOST); report(r, o);
  })
}
void ad_vec_push(int s, Out& o) {
  o.clear();
  GUARDED({ if (!vec) vec = new std::vector<ProblemData>(); uint64_t was = says(*pdv[s], true);
    vec->push_back(*pdv[s]); o.success = true;
    same_words(vec->back(), was, true, "a stored copy differs from its original", o);
  })
}
void ad_vec_erase(int i, Out& o) { o.clear(); GUARDED({ vec->erase(vec->begin() + i); o.success = true; }) }
void ad_vec_get(int i, int s, Out& o) { o.clear(); Out d; ad_pd_del(s, d); GUARDED({
    uint64_t was = says((*vec)[i], true);
    pdv[s] = new ProblemData((*vec)[i]); o.success = true;
    same_words(*pdv[s], was, true, "a copy differs from its original", o);
  })
}
void ad_vec_clear(Out& o) { o.clear(); GUARDED({ delete vec; vec = nullptr; o.success = true; }) }
void ad_cd_defaults(Out& o) {
  o.clear();
  GUARDED({
    ContactData a; ContactData b(a); ContactData c; c = b; a = a;
    std::vector<ContactData> v(3);
    v.push_back(a); v.resize(9);
    v.erase(v.begin() + 2);
    ProblemData p; p.contacts_ = v; ProblemData q(p); q = p;
    o.success = b.contactPhase_ == nullptr && q.contacts_.size() == 8;
  })
}

// ------------------------------------------------------------ returned plans
static const int NR = 24;
static ResultDataCOMTraj* res[NR];
bool ad_res_has(int s) { return s >= 0 && s < NR && res[s]; }
void ad_res_del(int s, Out& o) { o.clear(); GUARDED({ ResultDataCOMTraj* q = res[s]; res[s] = nullptr; delete q; o.success = true; }) }
// plans and keeps the plan; everything the request consisted of is discarded
void ad_res_call(int s, const Prob& p, PathPlan* pp, Out& o) {
  Out d; ad_res_del(s, d);
  o.clear();
  GUARDED({
    std::unique_ptr<ResultDataCOMTraj> r;
    {
      std::unique_ptr<ProblemData> q(describe(p, 0));
      std::unique_ptr<VectorX> Ts(new VectorX(p.Ts));
      SimPath path{&p, pp};
      if (p.entry == E_SOLVE) {
        r.reset(new ResultDataCOMTraj());
        static_cast<solvers::ResultData&>(*r) = put(p);
      } else
        r.reset(new ResultDataCOMTraj(p.entry == E_FIXED ? computeCOMTrajFixedSize(*q, *Ts, p.ppp)
                                      : p.entry == E_ZERO ? solve0step(*q, p.Tsv, p.timeStep)
                                      : p.entry == E_EE   ? solveEndEffector(*q, path, p.T, p.w, p.useVel)
                                                          : computeCOMTraj(*q, *Ts, p.timeStep, p.solver)));
    }
    res[s] = r.release();
    ModeGuard h(HOST); report(*res[s], o);
    if (!o.success) o.x.clear();
  })
}
// everything a caller can see of a plan, the curves evaluated at n + 1 instants
static bool alike(const std::vector<double>& a, const std::vector<double>& b) {
  return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * sizeof(double)));
}
void ad_res_view(int s, int n, Out& o) {
  o.clear();
  const ResultDataCOMTraj& r = *res[s];
  GUARDED({
    for (int k = 0; k <= n; ++k) {
      double w = n ? (double)k / n : 0.;
      double t = r.c_of_t_.min() + w * (r.c_of_t_.max() - r.c_of_t_.min()), u = r.dL_of_t_.min() + w * (r.dL_of_t_.max() - r.dL_of_t_.min());
      point_t v[5] = {r.c_of_t_(t), r.c_of_t_.derivate(t, 1), r.c_of_t_.derivate(t, 2), r.dL_of_t_(u), r.dL_of_t_.derivate(u, 1)};
      ModeGuard h(HOST);
      for (auto& q : v) for (int i = 0; i < 3; ++i) o.extra.push_back(q[i]);
    }
    bezier_t d = r.c_of_t_.compute_derivate(1);
    ResultDataCOMTraj copy(r);
    ModeGuard h(HOST);
    std::vector<double> e; double mn, mx; size_t deg;
    putb(d, e, mn, mx, deg);
    o.extra.insert(o.extra.end(), e.begin(), e.end());
    Out oc;
    report(copy, oc);
    report(r, o);
    if (oc.success != o.success || memcmp(&oc.cost, &o.cost, sizeof o.cost)) o.wrong = "a copy of the plan has another outcome";
    else if (!alike(oc.x, o.x) || !alike(oc.cpts, o.cpts) || !alike(oc.dlpts, o.dlpts)) o.wrong = "a copy of the plan has other variables or curves";
    else if (memcmp(oc.dc1, o.dc1, sizeof oc.dc1) || memcmp(oc.ddc1, o.ddc1, sizeof oc.ddc1)) o.wrong = "a copy of the plan ends in another state";
    else if (!alike({oc.c_min, oc.c_max, oc.dl_min, oc.dl_max}, {o.c_min, o.c_max, o.dl_min, o.dl_max})) o.wrong = "a copy of the plan has another duration";
  })
}
void ad_res_copy(int f, int t, Out& o) { Out d; if (f != t) ad_res_del(t, d); o.clear(); if (f == t) { o.success = true; return; } GUARDED({ res[t] = new ResultDataCOMTraj(*res[f]); o.success = true; }) }
void ad_res_move(int f, int t, Out& o) { Out d; if (f != t) ad_res_del(t, d); o.clear(); if (f == t) { o.success = true; return; } GUARDED({ res[t] = new ResultDataCOMTraj(std::move(*res[f])); o.success = true; }) }
// (an interrupted assignment may leave parts of two plans; nobody looks at those)
static void half_assigned(int t, Out& o) { if (!o.success) { Out d; ad_res_del(t, d); } }
void ad_res_assign(int f, int t, Out& o) { o.clear(); GUARDED({ *res[t] = *res[f]; o.success = true; }) half_assigned(t, o); }
void ad_res_swap(int a, int b, Out& o) { o.clear(); if (a == b) { o.success = true; return; } GUARDED({ std::swap(*res[a], *res[b]); o.success = true; }) half_assigned(a, o); half_assigned(b, o); }
// only the solver's part of the reply
void ad_res_base(int f, int t, Out& o) { o.clear(); GUARDED({ solvers::ResultData b(*res[f]); static_cast<solvers::ResultData&>(*res[t]) = b; o.success = true; }) half_assigned(t, o); }
// the caller changes its own copy
void ad_res_edit(int s, int what, Out& o) {
  o.clear();
  GUARDED({
    ResultDataCOMTraj& r = *res[s];
    switch (what) {
      case 0: r.x.setConstant(17); break;
      case 1: r.c_of_t_ = bezier_t::zero(3, 2.); break;
      case 2: r.cost_ += 1; r.dc1_.setConstant(3); break;
      case 3: r.x.resize(7); r.x.setZero(); r.success_ = true; break;
      case 4: r.dL_of_t_ = r.c_of_t_; r.ddc1_.setOnes(); break;
      case 5: r.dc1_.setZero(); break;
      case 6: r.ddc1_.setZero(); r.cost_ = -1; break;
      case 7: r.success_ = !r.success_; break;
      default: r.x.resize(0); break;
    }
    o.success = true;
  })
}
