#include <setjmp.h>
// Executor: expands requests, runs a plan (ops x threads x faults) under the
// simulator in a forked child, judges replies, reports as one JSON line.
#include <glpk.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <iostream>
#include <map>
#include <sstream>

#include "scen.h"
#include "util.h"

using namespace rt;
using namespace bezier_com_traj;
using centroidal_dynamics::Equilibrium;

// ------------------------------------------------------------ contact worlds
struct PhaseInfo { Equilibrium* eq; Eigen::Vector3d centre; };
static const int NW = 6, NP = 5;   // world 5 is world 0 seen from the centre of mass
static PhaseInfo world[NW][NP];
static Equilibrium* eq_nocone;      // contact model without polytope
static uint64_t pool_hash = 0;
bool pool_model(const Equilibrium* e) {
  for (auto& w : world) for (auto& p : w) if (p.eq == e) return true;
  return e == eq_nocone;
}

static void foot(std::vector<Eigen::Vector3d>& P, std::vector<Eigen::Vector3d>& N, Eigen::Vector3d c, double tilt, int corners) {
  const double lx = 0.2172 / 2, ly = 0.138 / 2;
  Eigen::Matrix3d R = Eigen::AngleAxisd(tilt, Eigen::Vector3d::UnitY()).toRotationMatrix();
  Eigen::Vector3d q[4] = {{lx, ly, 0}, {lx, -ly, 0}, {-lx, -ly, 0}, {-lx, ly, 0}};
  if (corners == 3) { q[2] = Eigen::Vector3d(-lx, 0, 0); }
  for (int i = 0; i < corners; ++i) { P.push_back(c + R * q[i]); N.push_back(R * Eigen::Vector3d::UnitZ()); }
}
static Equilibrium* mkeq(const std::vector<Eigen::Vector3d>& P, const std::vector<Eigen::Vector3d>& N, double mass, double mu, bool pp) {
  centroidal_dynamics::MatrixX3 p(P.size(), 3), n(N.size(), 3);
  for (size_t i = 0; i < P.size(); ++i) { p.row(i) = P[i].transpose(); n.row(i) = N[i].transpose(); }
  Equilibrium* e = new Equilibrium("contacts", mass, 4, centroidal_dynamics::SOLVER_LP_QPOASES, true, 10, false);
  bool ok = e->setNewContacts(p, n, mu, pp ? centroidal_dynamics::EQUILIBRIUM_ALGORITHM_PP : centroidal_dynamics::EQUILIBRIUM_ALGORITHM_LP);
  if (!ok) fprintf(stderr, "pool: setNewContacts failed\n");
  return e;
}
static void build_pool() {
  ModeGuard g(INPUT);
  for (int w = 0; w < NW; ++w) {
    double tilt = w == 2 ? 0.15 : 0, dz = w == 1 ? 0.1 : 0, mass = w == 2 ? 68 : 50, mu = w == 2 ? 0.7 : w == 3 ? 0.4 : 0.5;
    int corners = w == 3 || w == 4 ? 3 : 4;
    double sx = w == 4 ? 0.22 : 0.3, yo = w == 4 ? 1.3 : 0, zo = w == 5 ? -0.6 : 0;
    Eigen::Vector3d R0(0, -0.1 + yo, zo), L0(0, 0.1 + yo, zo), R1(sx, -0.1 + yo, dz + zo), L1(sx, 0.1 + yo, dz + zo);
    std::vector<std::vector<Eigen::Vector3d>> feet = {{R0, L0}, {L0}, {L0, R1}, {R1}, {R1, L1}};
    for (int k = 0; k < NP; ++k) {
      std::vector<Eigen::Vector3d> P, N; Eigen::Vector3d c(0, 0, 0);
      for (auto& f : feet[k]) { foot(P, N, f, (f == R1) ? tilt : -tilt, corners); c += f / (double)feet[k].size(); }
      world[w][k].eq = mkeq(P, N, mass, mu, true);
      world[w][k].centre = c;
      centroidal_dynamics::MatrixXX H; VX h;
      world[w][k].eq->getPolytopeInequalities(H, h);
      pool_hash = fnv(H.data(), H.size() * 8, pool_hash ^ 7);
    }
  }
  std::vector<Eigen::Vector3d> P, N;
  foot(P, N, Eigen::Vector3d(0, 0, 0), 0, 4);
  eq_nocone = mkeq(P, N, 50, 0.5, false);
}

// ------------------------------------------------------------------ requests
static const ConstraintFlag F_BASE = INIT_POS | INIT_VEL;
static ConstraintFlag traj_flag(int k) {
  switch (k) {
    case 0: return F_BASE | END_POS;
    case 1: return F_BASE | END_VEL;
    case 2: return F_BASE | END_VEL | END_POS;
    case 3: return F_BASE | INIT_ACC;
    case 4: return F_BASE | INIT_ACC | END_POS;
    case 5: return F_BASE | INIT_ACC | END_VEL | END_POS;
    case 6: return F_BASE | INIT_ACC | END_ACC | END_VEL | END_POS;
    default: return F_BASE | INIT_ACC | END_ACC | END_VEL | END_POS | INIT_JERK | END_JERK;
  }
}
static void box(ContactData& c, const Eigen::Vector3d& centre, Rng& r, double hx, double hy, double z0, double z1) {
  int extra = r.p(0.3) ? r.n(4) : 0;
  c.Kin_ = MatrixX3::Zero(6 + extra, 3); c.kin_ = VX::Zero(6 + extra);
  for (int i = 0; i < 3; ++i) { c.Kin_(2 * i, i) = 1; c.Kin_(2 * i + 1, i) = -1; }
  c.kin_ << centre[0] + hx, -centre[0] + hx, centre[1] + hy, -centre[1] + hy, centre[2] + z1, -(centre[2] + z0), VX::Zero(extra);
  for (int i = 0; i < extra; ++i) {
    Eigen::Vector3d n = r.v(1); n.normalize();
    c.Kin_.row(6 + i) = n.transpose();
    c.kin_[6 + i] = n.dot(centre + Eigen::Vector3d(0, 0, 0.65)) + r.r(0.2, 0.6);
  }
}
static void gen_traj(Prob& p, Rng& r, bool small) {
  ProblemData& d = p.pd;
  int w = small ? 3 + r.n(2) : r.n(NW);
  int n = 1 + r.n(small ? 2 : 3), s = r.n(NP - n + 1);
  int fk = r.n(8);
  d.constraints_.flag_ = traj_flag(fk);
  d.contacts_.resize(n);
  p.Ts = VX::Zero(n);
  for (int i = 0; i < n; ++i) {
    PhaseInfo& ph = world[w][s + i];
    d.contacts_[i].contactPhase_ = ph.eq;
    p.phases.push_back(ph.eq);
    p.Ts[i] = std::floor(r.r(0.5, 1.3) * 100) / 100.;
    if (r.p(0.7)) box(d.contacts_[i], ph.centre, r, r.r(0.3, 0.7), r.r(0.25, 0.4), 0.2, 0.95);
  }
  double z = r.r(0.5, 0.75);
  Eigen::Vector3d a = world[w][s].centre, b = world[w][s + n - 1].centre;
  d.c0_ = a + Eigen::Vector3d(r.r(-.03, .03), r.r(-.03, .03), z);
  d.c1_ = b + Eigen::Vector3d(r.r(-.03, .03), r.r(-.03, .03), z);
  if ((w == 0 || w == 5) && r.p(w ? 0.5 : 0.2)) {   // exact zeros are ordinary inputs too
    int k = r.n(4);
    if (k == 0) d.c0_.head<2>().setZero();
    else if (k == 1) d.c0_.setZero();
    else if (k == 2) d.c1_ = d.c0_;
    else { d.c1_.setZero(); }
  }
  double vs = r.p(0.5) ? 0.03 : 0.15;
  if (r.p(0.8)) d.dc0_ = r.v(vs);
  if (fk == 1) d.dc1_.setZero(); else if (r.p(0.6)) d.dc1_ = r.v(vs);
  if (r.p(0.6)) { d.ddc0_ = r.v(0.2); d.ddc1_ = r.v(0.2); }
  if (r.p(0.6)) { d.j0_ = r.v(0.3); d.j1_ = r.v(0.3); }
  d.costFunction_ = r.p(0.6) ? ACCELERATION : DISTANCE_TRAVELED;
  d.constraints_.constraintAcceleration_ = r.p(0.4);
  d.constraints_.maxAcceleration_ = r.p(0.7) ? 10. : r.r(1, 4);
  d.constraints_.reduce_h_ = r.p(0.6) ? 1e-3 : r.p(0.5) ? 0. : 1e-4;
}

static void gen_qp(Prob& p, Rng& r, bool lp, bool big) {
  int n = big ? 30 : 1 + r.n(12), mi = big ? 720 : r.n(24), me = big ? 0 : r.n(std::min(n, 4));
  if (!big && r.p(0.15)) { mi = 0; if (r.p(0.5)) me = 0; }
  p.A = MX::Zero(mi, n); p.b = VX::Zero(mi); p.D = MX::Zero(me, n); p.d = VX::Zero(me);
  if (!big && r.p(0.08)) { me = n + r.n(3); p.D = MX::Zero(me, n); p.d = VX::Zero(me); }   // as many or more equalities than variables
  VX xf(n);
  for (int i = 0; i < n; ++i) xf[i] = r.r(-2, 2);
  for (int i = 0; i < mi; ++i) {
    for (int j = 0; j < n; ++j) p.A(i, j) = (!big && r.p(0.3)) ? 0. : r.r(-1, 1);
    p.b[i] = p.A.row(i).dot(xf) + (r.p(0.9) || big ? r.r(0.01, 2) : r.r(-1, 0));
  }
  for (int i = 0; i < me; ++i) {
    for (int j = 0; j < n; ++j) p.D(i, j) = r.r(-1, 1);
    if (i == 2 && r.p(0.2)) { p.D.row(2) = p.D.row(1); }
    p.d[i] = p.D.row(i).dot(xf);
  }
  if (!big && mi > 2 && r.p(0.25)) {   // degenerate: repeated, dependent and exactly active rows
    for (int q = 0; q < 1 + mi / 3; ++q) {
      int i = r.n(mi), j = r.n(mi), w = r.n(4);
      if (w == 0) { p.A.row(i) = p.A.row(j); p.b[i] = p.b[j]; }
      else if (w == 1) { p.A.row(i) = -p.A.row(j); p.b[i] = -p.A.row(j).dot(xf); p.b[j] = p.A.row(j).dot(xf); }
      else if (w == 2 && me > 0) { p.A.row(i) = p.D.row(r.n(me)); p.b[i] = p.A.row(i).dot(xf); }
      else p.b[i] = p.A.row(i).dot(xf);
    }
  }
  MX m(n, n);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m(i, j) = r.r(-1, 1);
  p.H = m.transpose() * m + MX::Identity(n, n) * (r.p(0.8) ? 0.1 : 1e-4);
  p.g = VX::Zero(n); for (int i = 0; i < n; ++i) p.g[i] = r.r(-3, 3);
  p.x0 = VX::Zero(n);
  p.lo = VX(); p.hi = VX();
  bool bounded = r.p(lp ? 0.9 : 0.5);
  if (bounded) {
    int k = lp ? 2 : r.n(3);
    if (k != 1) { p.lo = xf; for (int i = 0; i < n; ++i) p.lo[i] -= r.r(0.5, 4); }
    if (k != 0) { p.hi = xf; for (int i = 0; i < n; ++i) p.hi[i] += r.r(0.5, 4); }
    if (lp && r.p(0.3)) for (int i = 0; i < n; ++i) if (r.p(0.2)) { p.lo[i] = solvers::UNBOUNDED_DOWN; }
  }
  p.solver = lp ? solvers::SOLVER_GLPK : solvers::SOLVER_QUADPROG;
  if (big) return;
  if (lp && r.p(0.07)) {          // few rows, many variables
    n = 50 + r.n(90); mi = r.n(8); me = 1 + r.n(3);
    VX x = VX::Zero(n); for (int i = 0; i < n; ++i) x[i] = r.r(-2, 2);
    p.A = MX::Zero(mi, n); p.b = VX::Zero(mi); p.D = MX::Zero(me, n); p.d = VX::Zero(me); p.H = MX::Identity(n, n); p.g = VX::Zero(n); p.x0 = VX::Zero(n);
    for (int j = 0; j < n; ++j) { for (int i = 0; i < mi; ++i) p.A(i, j) = r.p(0.2) ? 0. : r.r(-1, 1); for (int i = 0; i < me; ++i) p.D(i, j) = r.p(0.2) ? 0. : r.r(-1, 1); p.g[j] = r.r(-3, 3); }
    p.b = p.A * x; for (int i = 0; i < mi; ++i) p.b[i] += r.r(0.01, 2);
    p.d = p.D * x; p.lo = x - VX::Constant(n, r.r(0.5, 4)); p.hi = x + VX::Constant(n, r.r(0.5, 4));
    xf = x;
  }
  if (p.D.rows() && r.p(0.25)) {  // equalities through the origin
    int i = r.n((int)p.D.rows()); double q = xf.squaredNorm();
    if (q > 1e-3) { p.D.row(i) -= xf.transpose() * (p.d[i] / q); p.d[i] = 0; }
  }
}

static void mutate(Prob& p, const std::string& name, uint64_t seed) {
  Rng r(seed ^ 0xabcdef);
  static const double sc[] = {1e-9, 1e-5, 1e-2, 0.1};
  double s = sc[r.n(4)];
  ProblemData& d = p.pd;
  auto jit = [&](VX& v) { if (v.size()) v[r.n((int)v.size())] += r.r(-s, s); };
  if (name == "c0") d.c0_ += r.v(s);
  else if (name == "dc0") d.dc0_ += r.v(s);
  else if (name == "ddc0") d.ddc0_ += r.v(s);
  else if (name == "j0") d.j0_ += r.v(s);
  else if (name == "c1") d.c1_ += r.v(s);
  else if (name == "dc1") d.dc1_ += r.v(s);
  else if (name == "ddc1") d.ddc1_ += r.v(s);
  else if (name == "j1") d.j1_ += r.v(s);
  else if (name == "l0") d.l0_ += r.v(s);
  else if (name == "T") { double e = r.r(0, s) + 1e-9; if (p.Ts.size()) p.Ts[r.n((int)p.Ts.size())] += e; if (!p.Tsv.empty()) p.Tsv[0] += e; p.T += e; }
  else if (name == "Tswap") { if (p.Ts.size() > 1) { int i = r.n((int)p.Ts.size() - 1); std::swap(p.Ts[i], p.Ts[i + 1]); } }
  else if (name == "kin") { if (!d.contacts_.empty()) { auto& c = d.contacts_[r.n((int)d.contacts_.size())]; if (c.kin_.size()) c.kin_[r.n((int)c.kin_.size())] += r.r(-s, s); } }
  else if (name == "kinrow") { if (!d.contacts_.empty()) { auto& c = d.contacts_[r.n((int)d.contacts_.size())]; int k = (int)c.kin_.size(); if (k > 1) { MatrixX3 K = c.Kin_.topRows(k - 1); VX q = c.kin_.head(k - 1); c.Kin_ = K; c.kin_ = q; } } }
  else if (name == "kinmat") { if (!d.contacts_.empty()) { auto& c = d.contacts_[r.n((int)d.contacts_.size())]; if (c.Kin_.rows()) c.Kin_(r.n((int)c.Kin_.rows()), r.n(3)) += r.r(-s, s); } }
  else if (name == "ang") { if (!d.contacts_.empty()) { auto& c = d.contacts_[0]; if (c.ang_.size()) c.ang_[r.n((int)c.ang_.size())] += r.r(-s, s); } }
  else if (name == "cone") { if (!d.contacts_.empty()) { int i = r.n((int)d.contacts_.size()); Equilibrium* e = world[r.n(NW)][r.n(NP)].eq; d.contacts_[i].contactPhase_ = e; if (i < (int)p.phases.size()) p.phases[i] = e; } }
  else if (name == "nocone") { if (!d.contacts_.empty()) { int i = r.n((int)d.contacts_.size()); d.contacts_[i].contactPhase_ = eq_nocone; if (i < (int)p.phases.size()) p.phases[i] = eq_nocone; } }
  else if (name == "step") { if (p.timeStep > 0) p.timeStep *= r.r(0.8, 1.2); }
  else if (name == "ppp") p.ppp = 2 + r.n(6);
  else if (name == "fine") {      // many instants
    if (p.timeStep > 0) p.timeStep = (p.Ts.size() ? p.Ts.sum() : p.T) / r.r(50, 200);
    p.ppp = 15 + r.n(60);
  }
  else if (name == "wide") {      // unusual but legal sizes
    int k = r.n(4);
    if (k == 0) p.ppp = 8 + r.n(60);
    else if (k == 1) { if (p.timeStep > 0) p.timeStep /= r.r(2, 12); }
    else {
      double f = k == 2 ? r.r(1.5, 12) : r.r(0.15, 0.8);
      p.Ts *= f; for (double& t : p.Tsv) t *= f; p.T *= f; if (p.timeStep > 0) p.timeStep *= r.p(0.5) || f < 1 ? f : 1.;
    }
  }
  else if (name == "acc") d.constraints_.maxAcceleration_ *= r.r(0.3, 1.2);
  else if (name == "accon") d.constraints_.constraintAcceleration_ = !d.constraints_.constraintAcceleration_;
  else if (name == "rh") d.constraints_.reduce_h_ = r.p(0.5) ? 0. : r.r(0, 2e-3);
  else if (name == "cost") d.costFunction_ = d.costFunction_ == ACCELERATION ? DISTANCE_TRAVELED : ACCELERATION;
  else if (name == "flag") { if (p.entry == E_TRAJ || p.entry == E_FIXED) { int k = r.n(8); d.constraints_.flag_ = traj_flag(k); if (k == 1) d.dc1_.setZero(); } }
  else if (name == "solver") { if (p.entry == E_TRAJ) p.solver = p.solver == solvers::SOLVER_QUADPROG ? solvers::SOLVER_GLPK : solvers::SOLVER_QUADPROG; }
  else if (name == "am") { d.useAngularMomentum_ = !d.useAngularMomentum_; }
  else if (name == "w") p.w = std::min(1., std::max(0., p.w + r.r(-s, s)));
  else if (name == "bump") p.bump += r.v(s);
  else if (name == "b") jit(p.b);
  else if (name == "d") jit(p.d);
  else if (name == "g") jit(p.g);
  else if (name == "lo") jit(p.lo);
  else if (name == "hi") jit(p.hi);
  else if (name == "A") { if (p.A.size()) p.A(r.n((int)p.A.rows()), r.n((int)p.A.cols())) += r.r(-s, s); }
  else if (name == "H") { if (p.H.size()) { int i = r.n((int)p.H.rows()); p.H(i, i) += r.r(0, s); } }
  else if (name == "qa") { if (p.Ab.first.size()) p.Ab.first(r.n((int)p.Ab.first.rows()), r.n(3)) += r.r(-1, 1); }
  else if (name == "qb") jit(p.Ab.second);
  else if (name == "qp") jit(p.point);
  else if (name == "qrow") {      // fewer or more rows
    int m = (int)p.Ab.first.rows(), k = r.p(0.6) ? r.n(m + 1) : m + 1 + r.n(4);
    MX A = MX::Zero(k, p.Ab.first.cols()); VX b = VX::Zero(k);
    int c = std::min(k, m); A.topRows(c) = p.Ab.first.topRows(c); b.head(c) = p.Ab.second.head(c);
    p.Ab.first = A; p.Ab.second = b;
  }
  else if (name == "cross") {     // bounds that meet, or exclude each other
    if (!p.lo.size() || !p.hi.size()) return;
    int i = r.n((int)p.lo.size()), w = r.n(3);
    if (w == 0) p.hi[i] = p.lo[i]; else if (w == 1) p.hi[i] = p.lo[i] - r.r(1e-3, 1); else p.lo[i] = p.hi[i] + r.r(1e-3, 1);
  }
  else if (name == "nobound") {   // no bounds on one variable, or none at all
    if (r.p(0.5)) { p.lo = VX(); p.hi = VX(); }
    else for (int i = 0; i < p.lo.size() && i < p.hi.size(); ++i) if (r.p(0.5)) { p.lo[i] = solvers::UNBOUNDED_DOWN; p.hi[i] = solvers::UNBOUNDED_UP; }
  }
  else if (name == "duprow") {    // a limit stated twice, once scaled
    int k = (int)p.A.rows(); if (k < 2) return;
    int i = r.n(k), j = r.n(k); double f = r.p(0.5) ? 1. : r.r(0.1, 10);
    if (i != j) { p.A.row(i) = p.A.row(j) * f; p.b[i] = p.b[j] * f + (r.p(0.3) ? s : 0.); }
  }
  else if (name == "zerorow") {   // a limit that limits nothing, or cannot be met
    int k = (int)p.A.rows(); if (!k) return;
    int i = r.n(k); p.A.row(i).setZero(); p.b[i] = r.p(0.3) ? -r.r(0, 1) : r.p(0.5) ? 0. : r.r(0, 1);
  }
  else if (name == "infeas") {    // two limits that exclude each other
    int k = (int)p.A.rows(); if (k < 2) return;
    int i = r.n(k), j = r.n(k);
    if (i != j) { p.A.row(i) = -p.A.row(j); p.b[i] = -p.b[j] - r.r(1e-3, 2); }
  }
  else if (name == "rowscale") {  // the same set, other units
    for (int i = 0; i < p.A.rows(); ++i) if (r.p(0.5)) { double f = std::pow(10., r.r(-3, 3)); p.A.row(i) *= f; p.b[i] *= f; }
  }
  else if (name == "cut") {       // one more kinematic limit, close to where a plan would pass
    if (d.contacts_.empty()) return;
    const int np = (int)d.contacts_.size(), i = r.n(np);
    double t0 = 0, T = p.Ts.sum(); for (int q = 0; q < i && q < p.Ts.size(); ++q) t0 += p.Ts[q];
    double dt = i < p.Ts.size() ? p.Ts[i] : 0, u = r.p(0.35) ? 0. : r.p(0.5) ? 1. : r.d();
    double s01 = T > 0 ? (t0 + u * dt) / T : 0;
    s01 = s01 * s01 * (3 - 2 * s01);
    Eigen::Vector3d q = d.c0_ + (d.c1_ - d.c0_) * s01 + d.dc0_ * T * s01 * (1 - s01) * (1 - s01);
    Eigen::Vector3d n(0, 0, 0); if (r.p(0.7)) n[r.n(3)] = r.p(0.5) ? 1 : -1; else { n = r.v(1); n.normalize(); }
    auto& c = d.contacts_[i]; int k = (int)c.kin_.size(), at = r.p(0.5) ? k : 0;
    MatrixX3 K = MatrixX3::Zero(k + 1, 3); VX h = VX::Zero(k + 1);
    if (k) { K.middleRows(at ? 0 : 1, k) = c.Kin_; h.segment(at ? 0 : 1, k) = c.kin_; }
    K.row(at) = n.transpose() * (r.p(0.7) ? 1. : r.r(0.3, 3)); h[at] = K.row(at).dot(q) + r.r(-0.02, 0.05) * K.row(at).norm();
    c.Kin_ = K; c.kin_ = h;
  }
  else if (name == "atight") {    // an acceleration limit near the least acceleration that does the job
    double T = p.Ts.size() ? p.Ts.sum() : p.T; if (T <= 0) return;
    d.constraints_.constraintAcceleration_ = true;
    double need = 6 * (d.c1_ - d.c0_).cwiseAbs().maxCoeff() / (T * T) + 4 * d.dc0_.cwiseAbs().maxCoeff() / T + 2 * d.dc1_.cwiseAbs().maxCoeff() / T
                + d.ddc0_.cwiseAbs().maxCoeff() + d.ddc1_.cwiseAbs().maxCoeff();
    d.constraints_.maxAcceleration_ = std::max(0.05, need * r.r(0.3, 1.2));
  }
  else if (name == "htight") d.constraints_.reduce_h_ = r.r(0.001, 0.6);
  else if (name == "vfast") { d.dc0_ += r.v(0.5); }
  else if (name == "acut") {      // angular momentum limits on one side of the natural value
    if (d.contacts_.empty()) return;
    auto& c = d.contacts_[0]; int k = 1 + r.n(4);
    c.Ang_ = MatrixX3::Zero(k, 3); c.ang_ = VX::Zero(k);
    for (int i = 0; i < k; ++i) { Eigen::Vector3d n(0, 0, 0); n[r.n(3)] = r.p(0.5) ? 1 : -1; c.Ang_.row(i) = n.transpose() * r.r(0.3, 3); c.ang_[i] = c.Ang_.row(i).dot(d.l0_ * 0.75) + r.r(-0.3, 0.3); }
  }
  else if (name == "fresh") {}
}

// desc = entry:seed[:mut~seed,...]
static Prob* expand(const std::string& desc) {
  std::string e = desc.substr(0, desc.find(':'));
  std::string rest = desc.substr(e.size() + 1);
  uint64_t seed = strtoull(rest.c_str(), nullptr, 10);
  std::string muts; size_t c = rest.find(':'); if (c != std::string::npos) muts = rest.substr(c + 1);
  Prob* p = new Prob();
  Rng r(seed);
  p->pd.l0_ = Eigen::Vector3d::Zero();   // unless the scenario says otherwise
  if (e == "ddq" || e == "ddl" || e == "ctq" || e == "ctl" || e == "foq" || e == "fol" || e == "fix") {
    bool fo = e[0] == 'f' && e[1] == 'o';
    gen_traj(*p, r, fo);
    p->entry = e == "fix" ? E_FIXED : E_TRAJ;
    p->solver = e[2] == 'l' ? solvers::SOLVER_GLPK : solvers::SOLVER_QUADPROG;
    p->timeStep = e[0] == 'd' ? std::floor(r.r(0.08, 0.25) * 100) / 100. : -1;
    if (fo) p->pd.representation_ = FORCE;
    p->ppp = 2 + r.n(4);
  } else if (e == "mnq" || e == "mnl") {   // long contact sequences, fine sampling
    gen_traj(*p, r, false);
    int w = r.n(3), n = 3 + r.n(5);
    p->pd.contacts_.resize(n); p->phases.clear(); p->Ts = VX::Zero(n);
    Eigen::Vector3d c; c << 0, 0, 0;
    for (int i = 0; i < n; ++i) {
      PhaseInfo& ph = world[w][i % 2 ? 2 : (i % 4 ? 2 : 0)];
      p->pd.contacts_[i] = ContactData(); p->pd.contacts_[i].contactPhase_ = ph.eq; p->phases.push_back(ph.eq);
      p->Ts[i] = std::floor(r.r(0.2, 0.6) * 100) / 100.;
      if (r.p(0.5)) box(p->pd.contacts_[i], ph.centre, r, 0.7, 0.4, 0.2, 0.95);
      if (i == 0) c = ph.centre;
    }
    p->pd.c0_ = c + Eigen::Vector3d(0, 0, 0.6); p->pd.c1_ = p->pd.c0_ + Eigen::Vector3d(0.02, 0, 0);
    p->entry = E_TRAJ; p->solver = e == "mnl" ? solvers::SOLVER_GLPK : solvers::SOLVER_QUADPROG;
    p->timeStep = r.p(0.15) ? -1 : r.p(0.5) ? r.r(0.008, 0.02) : r.r(0.02, 0.1);
  } else if (e == "lsq" || e == "lsl" || e == "lsc" || e == "lsf") {   // more than three phases, each with limits of its own
    gen_traj(*p, r, false);
    ProblemData& d = p->pd;
    int w = r.n(NW), n = 4 + r.n(3), k = r.n(2);
    d.contacts_.clear(); d.contacts_.resize(n); p->phases.clear(); p->Ts = VX::Zero(n);
    double half = r.r(0.3, 0.7);
    for (int i = 0; i < n; ++i) {
      PhaseInfo& ph = world[w][k];
      d.contacts_[i].contactPhase_ = ph.eq; p->phases.push_back(ph.eq);
      p->Ts[i] = std::floor(r.r(0.25, 0.7) * 100) / 100.;
      if (r.p(0.85)) box(d.contacts_[i], ph.centre, r, half * r.r(0.8, 1), r.r(0.15, 0.4), 0.2, 0.95);
      ContactData& cd = d.contacts_[i];
      if (cd.kin_.size() && r.p(0.5))       // the same box, its faces in another order and other units
        for (int q = 0; q < (int)cd.kin_.size(); ++q) {
          int o = r.n((int)cd.kin_.size()); double f = r.p(0.7) ? 1. : r.r(0.3, 3);
          cd.Kin_.row(q).swap(cd.Kin_.row(o)); std::swap(cd.kin_[q], cd.kin_[o]); cd.Kin_.row(q) *= f; cd.kin_[q] *= f;
        }
      if (!i) d.c0_ = ph.centre; d.c1_ = ph.centre;
      if (k + 1 < NP && r.p(0.6)) ++k;
    }
    d.c0_ += Eigen::Vector3d(r.r(-.03, .03), r.r(-.03, .03), r.r(0.5, 0.7)); d.c1_ += Eigen::Vector3d(r.r(-.03, .03), r.r(-.03, .03), r.r(0.5, 0.7));
    p->entry = e == "lsf" ? E_FIXED : E_TRAJ; p->ppp = 2 + r.n(4);
    p->solver = e == "lsl" || (e == "lsc" && r.p(0.4)) ? solvers::SOLVER_GLPK : solvers::SOLVER_QUADPROG;
    p->timeStep = e == "lsc" ? -1 : std::floor(r.r(0.05, 0.2) * 100) / 100.;
  } else if (e == "z0" || e == "z0d" || e == "z0a") {
    p->entry = E_ZERO;
    int w = r.n(NW), s = r.n(NP);
    p->pd.contacts_.resize(1);
    p->pd.contacts_[0].contactPhase_ = world[w][s].eq;
    p->phases.push_back(world[w][s].eq);
    if (r.p(0.7)) box(p->pd.contacts_[0], world[w][s].centre, r, r.r(0.2, 0.6), r.r(0.2, 0.4), 0.1, 0.95);
    p->pd.c0_ = world[w][s].centre + Eigen::Vector3d(r.r(-.05, .05), r.r(-.05, .05), r.r(0.4, 0.7));
    p->pd.dc0_ = r.v(r.p(0.5) ? 0.1 : 0.4);
    p->pd.constraints_.flag_ = F_BASE | END_VEL;
    double T = r.r(0.3, 1.2);
    p->Tsv.push_back(T); p->T = T; p->Ts = VX::Constant(1, T);
    p->timeStep = e == "z0d" ? T / (2 + r.n(6)) * 0.999 : -1;
    if (e == "z0a") {
      p->pd.useAngularMomentum_ = true;
      p->pd.l0_ = r.v(r.p(0.5) ? 0.5 : 3);
      if (r.p(0.3)) p->timeStep = T / (2 + r.n(6)) * 0.999;
      if (r.p(0.7)) {
        ContactData& cd = p->pd.contacts_[0];
        cd.Ang_ = MatrixX3::Zero(6, 3); cd.ang_ = VX::Zero(6);
        for (int i = 0; i < 3; ++i) { cd.Ang_(2 * i, i) = 1; cd.Ang_(2 * i + 1, i) = -1; cd.ang_[2 * i] = r.r(0.05, 2); cd.ang_[2 * i + 1] = r.r(0.05, 2); }
      }
    }
  } else if (e == "ee") {
    p->entry = E_EE;
    int k = r.n(3);
    p->pd.constraints_.flag_ = traj_flag(7) | (k == 0 ? ONE_FREE_VAR : k == 1 ? THREE_FREE_VAR : FIVE_FREE_VAR);
    p->pd.c0_ = r.v(0.3) + Eigen::Vector3d(0, 0, 0.3); p->pd.c1_ = p->pd.c0_ + r.v(0.3);
    if (r.p(0.5)) { p->pd.dc0_ = r.v(0.05); p->pd.dc1_ = r.v(0.05); }
    if (r.p(0.5)) { p->pd.ddc0_ = r.v(0.1); p->pd.ddc1_ = r.v(0.1); p->pd.j0_ = r.v(0.1); p->pd.j1_ = r.v(0.1); }
    p->T = r.r(0.4, 2); p->Ts = VX::Constant(1, p->T);
    static const double ws[] = {0, 0.3, 0.5, 0.9, 1};
    p->w = ws[r.n(5)];
    p->bump = r.v(0.1) + Eigen::Vector3d(0, 0, 0.2);
    if (r.p(0.3)) p->useVel = false;
  } else if (e == "sq" || e == "sl") {
    p->entry = E_SOLVE; gen_qp(*p, r, e == "sl", false);
  } else if (e == "qh") {         // a constraint system to export
    p->entry = E_SOLVE;
    int n = r.p(0.7) ? 3 : 3 + r.n(7), m = r.p(0.1) ? 0 : r.p(0.06) ? 200 + r.n(400) : 1 + r.n(25);
    double scale = r.p(0.3) ? std::pow(10., r.r(-8, 8)) : 1;
    p->Ab.first.resize(m, n); p->Ab.second.resize(m); p->point.resize(n);
    auto num = [&](double a) {
      if (r.p(0.8)) return r.r(-a, a);
      static const double odd[] = {0, 1, -1, 100000, 1234567, 1e-12, 1e300, -0.5, 0.1, 999999.5, 4, 3};
      return r.p(0.05) ? (r.p(0.5) ? HUGE_VAL : -HUGE_VAL) : odd[r.n(12)];
    };
    for (int i = 0; i < m; ++i) { for (int j = 0; j < n; ++j) p->Ab.first(i, j) = num(scale); p->Ab.second[i] = num(scale); }
    for (int j = 0; j < n; ++j) p->point[j] = num(scale);
  } else if (e == "big") {
    p->entry = E_SOLVE; gen_qp(*p, r, true, true);
  } else if (e == "qp") {         // for the reused solver object: few distinct shapes
    p->entry = E_SOLVE;
    static const int shp[5][3] = {{3, 4, 0}, {3, 4, 1}, {6, 10, 0}, {6, 0, 2}, {2, 12, 0}};
    int k = (int)(seed % 5); int n = shp[k][0], mi = shp[k][1], me = shp[k][2];
    gen_qp(*p, r, false, false);
    p->A = MX::Zero(mi, n); p->b = VX::Zero(mi); p->D = MX::Zero(me, n); p->d = VX::Zero(me);
    VX xf(n); for (int i = 0; i < n; ++i) xf[i] = r.r(-2, 2);
    bool inf = r.p(0.2), degen = r.p(0.3);
    for (int i = 0; i < mi; ++i) { for (int j = 0; j < n; ++j) p->A(i, j) = degen ? (double)(r.n(3) - 1) : r.r(-1, 1); p->b[i] = p->A.row(i).dot(xf) + (inf && i < 2 ? -1. : degen ? (double)r.n(2) : r.r(0, 1)); }
    if (inf && mi > 1) p->A.row(1) = -p->A.row(0), p->b[0] = -1, p->b[1] = -1;
    for (int i = 0; i < me; ++i) { for (int j = 0; j < n; ++j) p->D(i, j) = r.r(-1, 1); p->d[i] = p->D.row(i).dot(xf); }
    if (me == 2 && r.p(0.25)) p->D.row(1) = p->D.row(0), p->d[1] = p->d[0];
    MX m(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m(i, j) = r.r(-1, 1);
    p->H = m.transpose() * m + MX::Identity(n, n) * 0.1;
    p->g = VX::Zero(n); for (int i = 0; i < n; ++i) p->g[i] = r.r(-3, 3);
    p->x0 = VX::Zero(n); p->lo = VX(); p->hi = VX();
  } else if (e == "hb") {
    p->entry = E_HELP;
    p->help = r.n(10);
    p->pd.contacts_.resize(1); p->pd.contacts_[0].contactPhase_ = world[r.n(NW)][r.n(NP)].eq;
    p->pd.c0_ = r.v(1); p->pd.c1_ = r.v(1); p->pd.dc0_ = r.v(1); p->pd.dc1_ = r.v(1); p->pd.ddc0_ = r.v(1); p->pd.ddc1_ = r.v(1); p->pd.j0_ = r.v(1); p->pd.j1_ = r.v(1);
    p->T = r.r(0.3, 2);
    p->Ts = VX::Zero(1 + r.n(3)); for (int i = 0; i < p->Ts.size(); ++i) p->Ts[i] = r.r(0.3, 1);
    p->timeStep = r.r(0.03, 0.2); p->ppp = 2 + r.n(6);
    if (p->help >= 3 && p->help <= 6) { int k = r.n(3); p->pd.constraints_.flag_ = traj_flag(7) | (k == 0 ? ONE_FREE_VAR : k == 1 ? THREE_FREE_VAR : FIVE_FREE_VAR); }
    else { int k = r.n(8); p->pd.constraints_.flag_ = traj_flag(k); if (k == 1) p->pd.dc1_.setZero(); }
    int m = 1 + r.n(8);
    p->A = MX::Zero(m, 3); p->b = VX::Zero(m);
    for (int i = 0; i < m; ++i) { if (!r.p(0.3)) p->A.row(i) = r.v(2).transpose(); p->b[i] = r.r(-0.1, 2); }
  } else if (e == "bad") {        // requests that must be rejected (or fail) cleanly
    int k = r.n(14);
    gen_traj(*p, r, false);
    p->entry = E_TRAJ; p->timeStep = r.p(0.5) ? 0.1 : -1;
    p->judge = false;
    switch (k) {
      case 0: { VX t = p->Ts; p->Ts = VX::Constant(t.size() + 1, 0.7); break; }
      case 1: p->pd.constraints_.flag_ = INIT_POS; break;
      case 2: p->pd.constraints_.flag_ = traj_flag(5) | INIT_JERK; break;
      case 3: p->pd.costFunction_ = UNKNOWN_COST; break;
      case 4: p->solver = (solvers::SolverType)0x40; break;
      case 5: p->pd.constraints_.flag_ = traj_flag(1); p->pd.dc1_ = Eigen::Vector3d(0.1, 0, 0); break;
      case 6: p->pd.costFunction_ = TARGET_END_VELOCITY; break;
      case 7: p->pd.contacts_.clear(); p->phases.clear(); p->Ts = VX(); break;
      case 8: p->entry = E_FIXED; p->ppp = 0; break;
      case 9: p->entry = E_FIXED; p->ppp = 1; break;
      case 10: p->pd.constraints_.flag_ = traj_flag(7) | FIVE_FREE_VAR; break;
      case 11: p->entry = E_EE; p->T = 1; p->pd.constraints_.flag_ = traj_flag(r.n(7)); break;
      case 12: p->Ts[0] = 0; break;
      default: p->pd.c0_[0] = std::nan(""); break;
    }
  } else return nullptr;
  std::stringstream ss(muts); std::string m;
  while (std::getline(ss, m, ',')) {
    size_t k = m.find('~'); if (k == std::string::npos) continue;
    mutate(*p, m.substr(0, k), strtoull(m.c_str() + k + 1, nullptr, 10));
  }
  if (p->entry == E_SOLVE && (e == "sq" || e == "sl" || e == "qp")) {
    p->form = (int)(seed / 5 % 3);
    if (p->form == 2 && (p->D.rows() || p->lo.size() || p->hi.size())) p->form = 1;
    if (p->form) { p->pA = {p->A, p->b}; p->pD = {p->D, p->d}; p->pH = {p->H, p->g}; }
  }
  return p;
}

// -------------------------------------------------------- reference judgement
// Own model of what a success reply promises; shares no code with the library.
struct Curve {
  std::vector<Eigen::Vector3d> P; double t0 = 0, t1 = 1, mult = 1;
  Eigen::Vector3d at(double t) const {
    double u = t1 > t0 ? (t - t0) / (t1 - t0) : 0; if (u < 0) u = 0; if (u > 1) u = 1;
    std::vector<Eigen::Vector3d> q = P;
    for (size_t k = q.size(); k > 1; --k) for (size_t i = 0; i + 1 < k; ++i) q[i] = (1 - u) * q[i] + u * q[i + 1];
    return q[0] * mult;
  }
  Curve der() const {
    Curve c; c.t0 = t0; c.t1 = t1; c.mult = mult;
    size_t n = P.size() - 1;
    for (size_t i = 0; i < n; ++i) c.P.push_back((P[i + 1] - P[i]) * ((double)n / (t1 - t0)));
    if (c.P.empty()) c.P.push_back(Eigen::Vector3d::Zero());
    return c;
  }
};
static Curve curve_of(const std::vector<double>& v, double mn, double mx) {
  Curve c; c.t0 = mn; c.t1 = mx; c.mult = v.empty() ? 1 : v.back();
  for (size_t i = 0; i + 3 < v.size(); i += 3) c.P.push_back(Eigen::Vector3d(v[i], v[i + 1], v[i + 2]));
  return c;
}
static std::string fmt(const char* f, ...) { char b[200]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static double vio_lin(const MatrixX3& K, const VX& k, const Eigen::Vector3d& c) {
  double m = -1e300; for (int i = 0; i < k.size(); ++i) m = std::max(m, (K.row(i).dot(c) - k[i]) / std::max(1., K.row(i).norm())); return m;
}

// a solver's success reply must at least satisfy the constraints it was given
static std::string judge_solve(const Prob& p, const Out& o, bool bounds = true) {
  if (!o.success || !p.judge) return "";
  if ((int)o.x.size() != (int)p.g.size()) return "solution of the wrong size";
  Eigen::Map<const VX> x(o.x.data(), o.x.size());
  double xn = std::max(1., x.norm());
  for (int i = 0; i < x.size(); ++i) if (!(x[i] == x[i])) return "not-a-number in the solution";
  for (int i = 0; i < p.A.rows(); ++i) { double v = p.A.row(i).dot(x) - p.b[i]; if (v > 1e-5 * xn * std::max(1., p.A.row(i).norm())) return fmt("success reply violates inequality %d by %g", i, v); }
  for (int i = 0; i < p.D.rows(); ++i) { double v = std::abs(p.D.row(i).dot(x) - p.d[i]); if (v > 1e-5 * xn * std::max(1., p.D.row(i).norm())) return fmt("success reply violates equality %d by %g", i, v); }
  for (int i = 0; bounds && i < p.lo.size(); ++i) if (p.lo[i] > solvers::UNBOUNDED_DOWN && x[i] < p.lo[i] - 1e-5 * xn) return fmt("success reply violates lower bound %d by %g", i, p.lo[i] - x[i]);
  for (int i = 0; bounds && i < p.hi.size(); ++i) if (p.hi[i] < solvers::UNBOUNDED_UP && x[i] > p.hi[i] + 1e-5 * xn) return fmt("success reply violates upper bound %d by %g", i, x[i] - p.hi[i]);
  double c = p.solver == solvers::SOLVER_GLPK ? p.g.dot(x) : 0.5 * x.dot(p.H * x) + p.g.dot(x);
  if (std::abs(c - o.cost) > 1e-6 * std::max(1., std::abs(c)) * xn) return fmt("reported cost %g, solution costs %g", o.cost, c);
  return "";
}
// an answer of a solver object carries its own proof of optimality
static std::string judge_object(const Prob& p, const Out& o, bool& extreme) {
  extreme = false;
  std::string v = judge_solve(p, o, false);   // a solver object knows no bounds
  if (!v.empty() || o.kind != 0 || !o.success || !p.judge) return v;
  Eigen::Map<const VX> x(o.x.data(), o.x.size());
  int q = o.extra.size() > 1 ? (int)o.extra[1] : -1;
  if (q < 0 || (int)o.extra.size() != 2 + 2 * q) return "active set of the wrong size";
  VX r = p.H * x + p.g; double big = std::max(1., r.norm());
  for (int i = 0; i < q; ++i) {
    int a = (int)o.extra[2 + i]; double u = o.extra[2 + q + i];
    big = std::max(big, std::abs(u));
    if (a < 0) {
      if (-a - 1 >= p.D.rows()) return "active set names a constraint that does not exist";
      r -= u * p.D.row(-a - 1).transpose(); big = std::max(big, std::abs(u) * p.D.row(-a - 1).norm());
    } else {
      if (a >= p.A.rows()) return "active set names a constraint that does not exist";
      r += u * p.A.row(a).transpose(); big = std::max(big, std::abs(u) * p.A.row(a).norm());
      if (u < -1e-6 * big) return fmt("multiplier of inequality %d is %g", a, u);
    }
  }
  extreme = big > 1e5;      // nearly dependent constraints: the multipliers prove nothing
  if (r.norm() > 1e-5 * big) return fmt("the answer is not a minimum: gradient and multipliers differ by %g of %g", r.norm(), big);
  return "";
}
static std::string judge(const Prob& p, const Out& o) {
  if (o.kind == 0 && p.entry == E_SOLVE) return judge_solve(p, o);
  if (o.kind != 0 || p.entry == E_HELP) return "";
  for (double v : o.cpts) if (!(v == v) && o.success && p.judge) return "not-a-number in the trajectory";
  if (!o.success) {
    if (!o.x.empty()) return "failure reply carries a solution vector";
    for (size_t i = 0; i + 1 < o.cpts.size(); ++i) if (o.cpts[i] != 0) return "failure reply carries a trajectory";
    if (o.cost != -1.) return "failure reply carries a cost";
    for (int i = 0; i < 3; ++i) if (o.dc1[i] != 0 || o.ddc1[i] != 0) return "failure reply carries final derivatives";
    return "";
  }
  if (!p.judge) return "";
  const ProblemData& d = p.pd;
  double T = p.entry == E_EE ? p.T : p.entry == E_ZERO ? p.Tsv[0] : p.Ts.sum();
  if (std::abs(o.c_min) > 1e-12 || std::abs(o.c_max - T) > 1e-9 * T) return fmt("duration is %g..%g, requested %g", o.c_min, o.c_max, T);
  Curve c = curve_of(o.cpts, o.c_min, o.c_max), dc = c.der(), ddc = dc.der(), j = ddc.der();
  int fl = p.entry == E_ZERO ? (INIT_POS | INIT_VEL | END_VEL) : (int)d.constraints_.flag_;
  double scale = 1;
  for (auto& q : c.P) scale = std::max(scale, q.norm());
  auto eq = [&](const Eigen::Vector3d& a, const Eigen::Vector3d& b, double k) { return (a - b).norm() <= 1e-7 * scale * k; };
  double k1 = 20 / T, k2 = 100 / (T * T), k3 = 1000 / (T * T * T);
  k1 = std::max(1., k1); k2 = std::max(1., k2); k3 = std::max(1., k3);
  if (!eq(c.at(0), d.c0_, 1)) return "initial position differs from the request";
  if ((fl & INIT_VEL) && !eq(dc.at(0), d.dc0_, k1)) return "initial velocity differs from the request";
  if ((fl & INIT_ACC) && !eq(ddc.at(0), d.ddc0_, k2)) return "initial acceleration differs from the request";
  if ((fl & INIT_JERK) && !eq(j.at(0), d.j0_, k3)) return "initial jerk differs from the request";
  if ((fl & END_POS) && !eq(c.at(T), d.c1_, 1)) return "final position differs from the request";
  if ((fl & END_VEL) && !eq(dc.at(T), p.entry == E_ZERO ? Eigen::Vector3d(0, 0, 0) : Eigen::Vector3d(d.dc1_), k1)) return "final velocity differs from the request";
  if ((fl & END_ACC) && !eq(ddc.at(T), d.ddc1_, k2)) return "final acceleration differs from the request";
  if ((fl & END_JERK) && !eq(j.at(T), d.j1_, k3)) return "final jerk differs from the request";
  // solution vector and trajectory agree
  if (p.entry != E_EE) {
    if (o.x.size() < 3) return "success reply without solution";
    Eigen::Vector3d x(o.x[0], o.x[1], o.x[2]); bool found = false;
    for (auto& q : c.P) if ((q - x).norm() <= 1e-9 * scale) found = true;
    if (!found) return "solution is no control point of the trajectory";
  }
  {
    Eigen::Vector3d v(o.dc1[0], o.dc1[1], o.dc1[2]), a(o.ddc1[0], o.ddc1[1], o.ddc1[2]);
    if (!eq(v, dc.at(T), k1)) return "reported final velocity is not that of the trajectory";
    if (!eq(a, ddc.at(T), k2)) return "reported final acceleration is not that of the trajectory";
  }
  if (p.entry == E_TRAJ || p.entry == E_FIXED) {
    if (std::abs(o.dl_max - T) > 1e-9 * T) return "duration of the angular momentum curve";
    for (size_t i = 0; i + 1 < o.dlpts.size(); ++i) if (o.dlpts[i] != 0) return "angular momentum curve is not zero";
  }
  if (p.entry == E_EE) {
    double zmin = std::min(d.c0_[2], d.c1_[2]);
    for (size_t i = 2; i < o.x.size(); i += 3) if (o.x[i] < zmin - 1e-6 * scale) return "free waypoint below both end points";
    return "";
  }
  // instants at which the chosen formulation promises the limits, with phase
  std::vector<std::pair<double, int>> ins;
  const int np = (int)d.contacts_.size();
  if (p.entry == E_ZERO) {
    int n = p.timeStep > 0 ? (int)(T / p.timeStep) : -1;
    if (n > 0) for (int i = 0; i <= n; ++i) ins.push_back({T * i / n, 0});
    else { for (int i = 0; i <= 40; ++i) ins.push_back({T * i / 40, 0}); }
  } else {
    double t0 = 0;
    for (int i = 0; i < np; ++i) {
      double t1 = t0 + p.Ts[i];
      if (p.entry == E_FIXED) { for (unsigned q = 0; q <= p.ppp; ++q) ins.push_back({std::min(T, t0 + p.Ts[i] * q / p.ppp), i}); }
      else if (p.timeStep > 0) { for (double t = t0; t < t1; t += p.timeStep) ins.push_back({t, i}); ins.push_back({std::min(t1, T), i}); }
      else { for (int q = 0; q <= 30; ++q) ins.push_back({t0 + p.Ts[i] * q / 30, i}); }
      t0 = t1;
    }
  }
  // The QP core stops at a violation of (number of inequalities) * 100 eps *
  // trace(H) * trace(L^-T): negligible for three variables, centimetres for the
  // thousand weakly weighted forces of the force formulation.
  const double tol = d.representation_ == FORCE && p.solver == solvers::SOLVER_QUADPROG ? 5e-2 : 2e-5;
  bool dyn = !(d.representation_ == FORCE && np > 1);
  std::vector<MX> Hs; std::vector<VX> hs;
  for (int i = 0; i < np; ++i) {
    centroidal_dynamics::MatrixXX H; VX h;
    if (p.phases[i]->getPolytopeInequalities(H, h) != centroidal_dynamics::LP_STATUS_OPTIMAL) { H.resize(0, 6); h.resize(0); if (d.representation_ != FORCE) return "success without stability inequalities"; dyn = false; }
    MX n = -H; for (int q = 0; q < n.rows(); ++q) n.row(q).normalize();
    Hs.push_back(n); hs.push_back(h);
  }
  Curve dL; bool am = p.entry == E_ZERO && d.useAngularMomentum_;
  if (p.entry == E_ZERO) {
    if (std::abs(o.dl_max - T) > 1e-9 * T) return "duration of the angular momentum curve";
    dL = curve_of(o.dlpts, o.dl_min, o.dl_max);
    Eigen::Vector3d x(o.x[0], o.x[1], o.x[2]);
    if (am) {
      if (o.x.size() != 6) return "solution of the wrong size";
      Eigen::Vector3d xl(o.x[3], o.x[4], o.x[5]);
      // L(t) = l0 + integral of dL ends at rest: total impulse cancels l0
      Eigen::Vector3d I(0, 0, 0); int N = 200;
      for (int i = 0; i < N; ++i) I += dL.at(T * (i + 0.5) / N) * (T / N);
      if ((d.l0_ + I).norm() > 1e-3 * std::max(1., std::max(d.l0_.norm(), xl.norm()))) return "angular momentum does not end at rest";
      double cost = (9 * d.l0_.dot(d.l0_) - 9 * d.l0_.dot(xl) + 6 * xl.dot(xl)) / 5.;
      if (std::abs(cost - o.cost) > 1e-6 * std::max(1., std::abs(cost))) return "reported cost does not belong to the solution";
      const ContactData& cd = d.contacts_[0];
      if (cd.ang_.size() && vio_lin(cd.Ang_, cd.ang_, xl) > tol * std::max(1., xl.norm())) return "angular momentum limit violated";
    } else {
      for (size_t i = 0; i + 1 < o.dlpts.size(); ++i) if (o.dlpts[i] != 0) return "angular momentum curve is not zero";
      if (std::abs((d.c0_ - x).norm() - o.cost) > 1e-6 * scale) return "reported cost does not belong to the solution";
    }
    const ContactData& cd = d.contacts_[0];
    if (cd.kin_.size() && vio_lin(cd.Kin_, cd.kin_, c.at(T)) > tol * scale) return fmt("kinematic limit violated by %g at the end", vio_lin(cd.Kin_, cd.kin_, c.at(T)));
  }
  for (auto& tp : ins) {
    double t = tp.first; int ph = tp.second;
    const ContactData& cd = d.contacts_[ph];
    Eigen::Vector3d x = c.at(t), a = ddc.at(t);
    if (p.entry != E_ZERO && cd.kin_.size()) {
      double v = vio_lin(cd.Kin_, cd.kin_, x);
      if (v > tol * scale) return fmt("kinematic limit of phase %d violated by %g at t=%g", ph, v, t);
    }
    if (dyn) {
      const Eigen::Vector3d g = p.phases[ph]->m_gravity; const double m = p.phases[ph]->m_mass;
      Eigen::Matrix<double, 6, 1> w; w.head<3>() = a - g; w.tail<3>() = x.cross(a - g);
      if (am) w.tail<3>() += dL.at(t) / m;
      double red = (p.entry == E_ZERO || d.representation_ == FORCE) ? 0. : d.constraints_.reduce_h_;
      double sc = std::max(1., w.norm());
      VX v = Hs[ph] * w - hs[ph];
      for (int q = 0; q < v.size(); ++q) if (v[q] + red > tol * sc) return fmt("stability limit of phase %d violated by %g at t=%g", ph, v[q] + red, t);
    }
    if ((p.entry == E_FIXED || p.entry == E_TRAJ) && d.constraints_.constraintAcceleration_) {
      double v = a.cwiseAbs().maxCoeff() - d.constraints_.maxAcceleration_;
      if (v > tol * std::max(1., a.norm()) * k2) return fmt("acceleration limit violated by %g at t=%g", v, t);
    }
  }
  return "";
}

// ---------------------------------------------------------------- digests
static uint64_t hd(const std::vector<double>& v, uint64_t h) {
  h = fnv("|", 1, h);
  for (double x : v) { if (!(x == x)) { h = fnv("nan", 3, h); continue; } h = fnv(&x, 8, h); }
  return h;
}
uint64_t digest(const Out& o) {
  uint64_t h = fnv(&o.kind, 4);
  if (o.kind) { h = fnv(o.type.data(), o.type.size(), h); return fnv(o.what.data(), o.what.size(), h); }
  h = fnv(&o.success, 1, h);
  h = hd({o.cost, o.c_min, o.c_max, o.dl_min, o.dl_max, o.dc1[0], o.dc1[1], o.dc1[2], o.ddc1[0], o.ddc1[1], o.ddc1[2], (double)o.c_deg, (double)o.dl_deg}, h);
  h = hd(o.x, h); h = hd(o.cpts, h); h = hd(o.dlpts, h); return hd(o.extra, h);
}
static std::string brief(const Out& o) {
  if (o.kind) return "exc " + o.type + (o.what.empty() ? "" : ": " + o.what);
  if (!o.success) return "fail";
  return fmt("ok cost=%.17g x0=%.17g n=%zu", o.cost, o.x.empty() ? 0. : o.x[0], o.x.size());
}
static std::string jesc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }

// ------------------------------------------------------------------- plans
struct Op {
  int id = 0, thr = 1; std::string kind; std::map<std::string, std::string> kv;
  OpFault f; int poison = 0; uint64_t pseed = 0; int rep = 1;
  Prob* p = nullptr; PathPlan pp, in; bool has_path = false, has_inner = false;
  long iv(const char* k, long def) const { auto i = kv.find(k); return i == kv.end() ? def : strtol(i->second.c_str(), nullptr, 10); }
};
struct Plan {
  int threads = 1, policy = 0, loops = 1; uint64_t sseed = 1, budget = ~0ull, host = 0;
  std::vector<Op> ops; std::vector<SwitchRec> sw; bool replay = false; bool sites = false; bool check = true;
};
static bool parse(std::istream& in, Plan& pl) {
  std::string line; bool any = false;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    any = true;
    std::stringstream ss(line); std::string w; ss >> w;
    if (w == "end") return true;
    if (w == "run") {
      std::string kv; while (ss >> kv) {
        size_t e = kv.find('='); std::string k = kv.substr(0, e), v = kv.substr(e + 1);
        if (k == "threads") pl.threads = atoi(v.c_str());
        else if (k == "loops") pl.loops = atoi(v.c_str());
        else if (k == "policy") pl.policy = atoi(v.c_str());
        else if (k == "sseed") pl.sseed = strtoull(v.c_str(), 0, 10);
        else if (k == "budget") pl.budget = strtoull(v.c_str(), 0, 10);
        else if (k == "host") pl.host = strtoull(v.c_str(), 0, 10);
        else if (k == "sites") pl.sites = v == "1";
        else if (k == "check") pl.check = v == "1";
        else if (k == "replay") pl.replay = v == "1";
      }
    } else if (w == "op") {
      Op o; ss >> o.id >> o.thr >> o.kind; std::string kv;
      while (ss >> kv) { size_t e = kv.find('='); if (e == std::string::npos) continue; o.kv[kv.substr(0, e)] = kv.substr(e + 1); }
      o.rep = (int)o.iv("rep", 1);
      o.f.alloc_k = o.iv("ak", -1); o.f.alloc_from = o.iv("af", 0);
      o.f.qp_k = o.iv("qk", -1); o.f.qp_maxiter = (int)o.iv("qmax", -1); o.f.qp_status = (int)o.iv("qst", -1);
      o.f.lp_k = o.iv("lk", -1); o.f.lp_itlim = (int)o.iv("lit", -1); o.f.lp_fail = (int)o.iv("lfail", 0);
      o.f.cone_k = o.iv("ck", -1);
      o.f.disk_open = (int)o.iv("do", 0); o.f.disk_k = o.iv("dk", -1); o.f.disk_kind = (int)o.iv("dt", 0); o.f.disk_arg = (int)o.iv("da", 0); o.f.disk_close = (int)o.iv("dc", 0);
      if (o.kv.count("poison")) { o.poison = atoi(o.kv["poison"].c_str()); size_t c = o.kv["poison"].find(':'); if (c != std::string::npos) o.pseed = strtoull(o.kv["poison"].c_str() + c + 1, 0, 10); }
      if (o.kv.count("pt")) { o.has_path = true; o.pp.throw_at = (int)o.iv("pt", -1); o.pp.throw_kind = (int)o.iv("pk", 0); }
      if (o.kv.count("pe")) { o.has_path = true; o.pp.enter_at = (int)o.iv("pe", -1); }
      if (o.kv.count("npt")) { o.has_inner = true; o.in.throw_at = (int)o.iv("npt", -1); o.in.throw_kind = (int)o.iv("npk", 0); }
      if (o.kv.count("npe")) { o.has_inner = true; o.in.enter_at = (int)o.iv("npe", -1); }
      pl.ops.push_back(o);
    } else if (w == "sw") {
      SwitchRec r; int a, b, c; long op; unsigned long long ev; ss >> a >> b >> c >> op >> ev;
      r.tid = a; r.to = b; r.forced = c; r.op = op; r.ev = ev; pl.sw.push_back(r);
    }
  }
  return any && false;
}

// ------------------------------------------------------------------ running
static const size_t OUTSZ = 8 << 20;
static char* outbuf;
static Plan* P;
static void emit(const char* f, ...) {
  va_list a; va_start(a, f);
  uint32_t n = sh->out_len;
  int k = vsnprintf(outbuf + n, OUTSZ - n, f, a); va_end(a);
  if (k > 0 && n + k < OUTSZ) sh->out_len = n + k;
}

// the host program's own LP objects
struct Host { int thr = 1; glp_prob* p = nullptr; uint64_t seed = 0; int rows = 0, cols = 0; };
static Host host[16];
// ... and its settings of the LP library: hooks, memory accounting
struct HostEnv { bool hook = false, err = false; uint64_t calls = 0, hash = 0; jmp_buf jb; };
static HostEnv henv[16];
static void glp_make(int s, uint64_t seed, int thr) {
  ModeGuard g(HOSTOBJ);
  if (!henv[thr & 15].hook) glp_term_out(GLP_OFF);
  Rng r(seed);
  glp_prob* lp = glp_create_prob();
  int n = 2 + r.n(5), m = 1 + r.n(6);
  glp_set_prob_name(lp, "host");
  glp_set_obj_dir(lp, r.p(0.5) ? GLP_MIN : GLP_MAX);
  glp_add_rows(lp, m); glp_add_cols(lp, n);
  for (int i = 1; i <= m; ++i) { glp_set_row_name(lp, i, fmt("r%d", i).c_str()); glp_set_row_bnds(lp, i, GLP_UP, 0, r.r(1, 5)); }
  for (int j = 1; j <= n; ++j) { glp_set_col_name(lp, j, fmt("c%d", j).c_str()); glp_set_col_bnds(lp, j, GLP_DB, -r.r(0, 3), r.r(0.1, 3)); glp_set_obj_coef(lp, j, r.r(-2, 2)); }
  std::vector<int> ia(1), ja(1); std::vector<double> ar(1);
  for (int i = 1; i <= m; ++i) for (int j = 1; j <= n; ++j) if (r.p(0.7)) { ia.push_back(i); ja.push_back(j); ar.push_back(r.r(-1, 1)); }
  glp_load_matrix(lp, (int)ia.size() - 1, ia.data(), ja.data(), ar.data());
  host[s].p = lp; host[s].seed = seed; host[s].rows = m; host[s].cols = n;
}
static int host_hook(void* info, const char* s) { HostEnv* e = (HostEnv*)info; ++e->calls; e->hash = e->hash * 1099511628211ull + fnv(s, strlen(s)); return 1; }
static void host_error(void* info) { HostEnv* e = (HostEnv*)info; longjmp(e->jb, 1); }
static void glp_hook(int thr, int n) {
  ModeGuard g(HOSTOBJ);
  HostEnv& e = henv[thr & 15];
  e.hook = n & 1; e.err = n & 2;
  glp_term_hook(e.hook ? host_hook : nullptr, e.hook ? &e : nullptr);
  glp_error_hook(e.err ? host_error : nullptr, e.err ? &e : nullptr);
  if (e.hook) glp_term_out(GLP_ON);
}
static void glp_host_gone(int thr) { for (auto& h : host) if (h.thr == thr) h.p = nullptr; henv[thr & 15].hook = henv[thr & 15].err = false; }
static void glp_message(int thr, int n, Out& o) {
  HostEnv& e = henv[thr & 15];
  { ModeGuard g(HOSTOBJ); glp_printf("host message %d\n", n); }
  o.success = true; o.extra.push_back((double)e.calls); o.extra.push_back((double)(e.hash >> 12));
}
// an error of the host's own: its handler gets control and discards the library's state
static void glp_fault(int thr, Out& o) {
  HostEnv& e = henv[thr & 15];
  volatile int caught = 0;
  { ModeGuard g(HOSTOBJ);
    if (!setjmp(e.jb)) { glp_term_out(GLP_OFF); glp_error("host error\n"); }
    else { caught = 1; glp_free_env(); } }
  glp_host_gone(thr);
  o.success = caught; o.extra.push_back((double)e.calls);
}
extern "C" int glp_limited();
static void glp_memory(Out& o) {
  int count = 0; size_t total = 0;
  { ModeGuard g(HOSTOBJ); glp_mem_usage(&count, nullptr, &total, nullptr); }
  o.success = true; o.extra.push_back(count); o.extra.push_back((double)total); o.extra.push_back(glp_limited());
}
static void glp_view(int s, Out& o) {
  ModeGuard g(HOSTOBJ);
  glp_prob* lp = host[s].p;
  auto add = [&](double d) { ModeGuard h(HOST); o.extra.push_back(d); };
  auto str = [&](const char* c) { ModeGuard h(HOST); o.extra.push_back((double)(fnv(c ? c : "", c ? strlen(c) : 0) >> 12)); };
  o.success = true;
  str(glp_get_prob_name(lp)); add(glp_get_num_rows(lp)); add(glp_get_num_cols(lp)); add(glp_get_num_nz(lp)); add(glp_get_obj_dir(lp));
  add(glp_get_status(lp)); add(glp_get_obj_val(lp));
  for (int i = 1; i <= glp_get_num_rows(lp) && i < 100; ++i) { str(glp_get_row_name(lp, i)); add(glp_get_row_ub(lp, i)); add(glp_get_row_prim(lp, i)); add(glp_get_row_dual(lp, i)); }
  int ind[200]; double val[200];
  for (int j = 1; j <= glp_get_num_cols(lp) && j < 100; ++j) {
    str(glp_get_col_name(lp, j)); add(glp_get_col_lb(lp, j)); add(glp_get_obj_coef(lp, j)); add(glp_get_col_prim(lp, j));
    int k = glp_get_mat_col(lp, j, ind, val); for (int q = 1; q <= k && q < 200; ++q) { add(ind[q]); add(val[q]); }
  }
}

// human-readable form of a request
static void show(const Prob& p) {
  const ProblemData& d = p.pd;
  std::ostringstream o; o.precision(17);
  Eigen::IOFormat f(17, Eigen::DontAlignCols, " ", "; ");
  o << "entry " << (int)p.entry << " flag 0x" << std::hex << (int)d.constraints_.flag_ << std::dec << " solver " << (int)p.solver << " step " << p.timeStep << " ppp " << p.ppp
    << " T " << p.T << " Ts " << p.Ts.transpose().format(f) << " cost " << d.costFunction_ << " repr " << d.representation_ << " am " << d.useAngularMomentum_
    << " acc " << d.constraints_.constraintAcceleration_ << " " << d.constraints_.maxAcceleration_ << " red " << d.constraints_.reduce_h_ << "\n c0 " << d.c0_.transpose().format(f)
    << "\n dc0 " << d.dc0_.transpose().format(f) << "\n ddc0 " << d.ddc0_.transpose().format(f) << "\n j0 " << d.j0_.transpose().format(f) << "\n c1 " << d.c1_.transpose().format(f)
    << "\n dc1 " << d.dc1_.transpose().format(f) << "\n ddc1 " << d.ddc1_.transpose().format(f) << "\n j1 " << d.j1_.transpose().format(f) << "\n l0 " << d.l0_.transpose().format(f) << "\n";
  for (size_t i = 0; i < d.contacts_.size(); ++i) {
    auto& c = d.contacts_[i];
    for (int w = 0; w < NW; ++w) for (int k = 0; k < NP; ++k) if (world[w][k].eq == c.contactPhase_) o << " phase " << i << " world " << w << " contact " << k;
    o << " Kin " << c.Kin_.format(f) << " | " << c.kin_.transpose().format(f) << " Ang rows " << c.ang_.size() << "\n";
  }
  if (p.entry == E_SOLVE) o << " A " << p.A.rows() << "x" << p.A.cols() << " D " << p.D.rows() << " lo " << p.lo.size() << " hi " << p.hi.size() << "\n";
  fputs(o.str().c_str(), stderr);
}

// standard output that stops accepting bytes (full disk, closed pipe)
struct FailBuf : std::streambuf {
  int left; explicit FailBuf(int n) : left(n) {}
  bool bad() { if (left-- > 0) return false; count_fault(F_STDOUT); return true; }
  int overflow(int c) override { return bad() ? traits_type::eof() : c; }
  std::streamsize xsputn(const char*, std::streamsize n) override { return bad() ? 0 : n; }
};

// ------------------------------------------------------------ exported systems
static std::string file_name(int k) {
  static const char* const n[] = {"bezier_wp.txt", "constraints.txt", "a", "set 1.txt", "wp.txt"};
  return fmt("%d_", k / 5) + n[k % 5];
}
// text: what the file holds; part: it may end early (the disk refused something)
static std::string judge_file(const Prob& p, bool clip, const std::string& text, bool part) {
  std::vector<std::vector<double>> want;
  want.push_back({3, 1});
  want.push_back({p.point[0], p.point[1], p.point[2]});
  want.push_back({4});
  int m = (int)p.Ab.first.rows();
  want.push_back({(double)(m + (clip ? 2 : 0))});
  for (int i = 0; i < m; ++i) want.push_back({p.Ab.first(i, 0), p.Ab.first(i, 1), p.Ab.first(i, 2), -p.Ab.second[i] - 0.001});
  if (clip) { want.push_back({0, 0, 1, -3}); want.push_back({0, 0, -1, -1}); }
  size_t at = 0, line = 0;
  while (at < text.size()) {
    size_t e = text.find('\n', at);
    bool whole = e != std::string::npos;
    std::string l = text.substr(at, whole ? e - at : std::string::npos);
    at = whole ? e + 1 : text.size();
    if (line >= want.size()) return fmt("line %zu of the file is not part of the system: '%s'", line + 1, l.substr(0, 60).c_str());
    const std::vector<double>& w = want[line];
    size_t k = 0, q = 0;
    for (;;) {
      q = l.find_first_not_of(" \t\r", q); if (q == std::string::npos) break;
      size_t z = l.find_first_of(" \t\r", q); if (z == std::string::npos) z = l.size();
      std::string tok = l.substr(q, z - q); q = z;
      if (!whole && z == l.size() && part) { ++k; break; }      // cut within this number
      char* end; double v;
      { locale_t old = uselocale(newlocale(LC_ALL_MASK, "C", nullptr)); v = strtod(tok.c_str(), &end); freelocale(uselocale(old)); }
      if (k >= w.size() || *end || tok.find_first_of("xX") != std::string::npos || !(v == w[k] || std::fabs(v - w[k]) <= 1.1e-5 * std::fabs(w[k])))
        return fmt("line %zu of the file says '%s'%s", line + 1, tok.substr(0, 40).c_str(), k < w.size() ? fmt(" instead of %.9g", w[k]).c_str() : " too much");
      ++k;
    }
    if (k > w.size() || (whole && k != w.size()) || (!whole && !part)) return fmt("line %zu of the file is not complete: '%s'", line + 1, l.substr(0, 60).c_str());
    ++line;
  }
  if (!part && line != want.size()) return fmt("the file ends after %zu of %zu lines", line, want.size());
  return "";
}

static void run_op(Op& op) {
  for (int r = 0; r < op.rep; ++r) {
    Out o; bool applicable = true; std::string verdict;
    op.pp.calls = 0; op.pp.nested.clear(); op.pp.nested_d = 0;
    op.in.calls = 0; op.in.nested.clear(); op.in.nested_d = 0;
    const std::string& k = op.kind;
    int s = (int)op.iv("s", 0), t = (int)op.iv("t", 0);
    op_begin(op.id, op.f, op.poison, op.pseed + r * 1000003ull, (uint64_t)op.iv("clk", 0));
    std::streambuf* oldbuf = nullptr;
    FailBuf fb((int)op.iv("so", 0));
    if (op.kv.count("so")) { std::cout.clear(); oldbuf = std::cout.rdbuf(&fb); }
    auto act = [&] {
    host_check(true);
    if (k[0] != 'g') stack_paint();
    if (k == "call") ad_call(*op.p, op.has_path ? &op.pp : nullptr, o);
    else if (k == "fcall") ad_fresh_call(*op.p, (int)op.iv("leave", 0), o);
    else if (k == "eqcopy") ad_eq_copy(*op.p, o);
    else if (k == "show") show(*op.p);
    else if (k == "qnew") { ad_qp_new(s); o.success = true; }
    else if (k == "qdel") { ad_qp_del(s); o.success = true; }
    else if (k == "qmax") { o.success = ad_qp_maxiter(s, (int)op.iv("n", 1000)); }
    else if (k == "qsolve") ad_qp_solve(s, *op.p, op.iv("sp", 0), (int)op.iv("inv", 0), o);
    else if (k == "pmake") ad_pd_make(s, *op.p, (int)op.iv("late", 0), o);
    else if (k == "pdef") ad_pd_default(s, o);
    else if (k == "pfree") { ad_pd_freeeq(s); o.success = true; }
    else if (k == "pdel") ad_pd_del(s, o);
    else if (k == "vclear") ad_vec_clear(o);
    else if (k == "cdef") ad_cd_defaults(o);
    else if (k == "pcopy") { if ((applicable = ad_pd_has(s))) ad_pd_copy(s, t, o); }
    else if (k == "pmove") { if ((applicable = ad_pd_has(s))) ad_pd_move(s, t, o); }
    else if (k == "passign") { if ((applicable = ad_pd_has(s) && ad_pd_has(t))) ad_pd_assign(s, t, o); }
    else if (k == "pswap") { if ((applicable = ad_pd_has(s) && ad_pd_has(t))) ad_pd_swap(s, t, o); }
    else if (k == "pmut") { if ((applicable = ad_pd_has(s))) ad_pd_mut(s, *op.p, (int)op.iv("what", 0), o); }
    else if (k == "pcall") { if ((applicable = ad_pd_fits(s, *op.p))) ad_pd_call(s, *op.p, o); }
    else if (k == "vpush") { if ((applicable = ad_pd_has(s))) ad_vec_push(s, o); }
    else if (k == "verase") { if ((applicable = ad_vec_size() > s)) ad_vec_erase(s, o); }
    else if (k == "vget") { if ((applicable = ad_vec_size() > s)) ad_vec_get(s, t, o); }
    else if (k == "rcall") ad_res_call(s, *op.p, op.has_path ? &op.pp : nullptr, o);
    else if (k == "rview") { if ((applicable = ad_res_has(s))) ad_res_view(s, (int)op.iv("n", 4), o); }
    else if (k == "rcopy") { if ((applicable = ad_res_has(s))) ad_res_copy(s, t, o); }
    else if (k == "rmove") { if ((applicable = ad_res_has(s))) ad_res_move(s, t, o); }
    else if (k == "rassign") { if ((applicable = ad_res_has(s) && ad_res_has(t))) ad_res_assign(s, t, o); }
    else if (k == "rswap") { if ((applicable = ad_res_has(s) && ad_res_has(t))) ad_res_swap(s, t, o); }
    else if (k == "rbase") { if ((applicable = ad_res_has(s) && ad_res_has(t))) ad_res_base(s, t, o); }
    else if (k == "redit") { if ((applicable = ad_res_has(s))) ad_res_edit(s, (int)op.iv("what", 0), o); }
    else if (k == "rdel") ad_res_del(s, o);
    else if (k == "sync") { barrier(); o.success = true; }
    else if (k == "gnew") { glp_make(s, (uint64_t)op.iv("seed", 1), op.thr); host[s].thr = op.thr; o.success = true; }
    else if (k == "gsolve") { if ((applicable = host[s].p)) { { ModeGuard g(HOSTOBJ); glp_smcp sm; glp_init_smcp(&sm); sm.msg_lev = GLP_MSG_OFF; glp_simplex(host[s].p, &sm); } glp_view(s, o); } }
    else if (k == "gedit") { if ((applicable = host[s].p)) { ModeGuard g(HOSTOBJ); glp_set_obj_coef(host[s].p, 1, (double)op.iv("n", 1)); glp_set_row_bnds(host[s].p, 1, GLP_UP, 0, 1.0 + op.iv("n", 1)); int rr = glp_add_rows(host[s].p, 1); glp_set_row_bnds(host[s].p, rr, GLP_UP, 0, 4); o.success = true; } }
    else if (k == "gview") { if ((applicable = host[s].p)) glp_view(s, o); }
    else if (k == "gdel") { if ((applicable = host[s].p)) { ModeGuard g(HOSTOBJ); glp_delete_prob(host[s].p); host[s].p = nullptr; o.success = true; } }
    else if (k == "gfree") { ModeGuard g(HOSTOBJ); glp_free_env(); glp_host_gone(op.thr); o.success = true; }
    else if (k == "ghook") { glp_hook(op.thr, (int)op.iv("n", 1)); o.success = true; }
    else if (k == "gmsg") { if ((applicable = henv[op.thr & 15].hook)) glp_message(op.thr, (int)op.iv("n", 1), o); }
    else if (k == "gerr") { if ((applicable = henv[op.thr & 15].err)) glp_fault(op.thr, o); }
    else if (k == "gmem") glp_memory(o);
    else if (k == "qhull") ad_export(*op.p, file_name((int)op.iv("file", 0)), op.iv("clip", 0), o);
    else if (k == "qread") { std::string t; o.kind = 0; o.success = disk_read(file_name((int)op.iv("file", 0)).c_str(), t); o.x.push_back((double)t.size()); o.x.push_back((double)(fnv(t.data(), t.size()) >> 12)); }
    else if (k == "gterm") { ModeGuard g(HOSTOBJ); o.success = true; o.extra.push_back(glp_term_out((int)op.iv("n", 0))); }
    host_check(true);
    };
    if (op.iv("tt", 0)) brief_thread([](void* a) { (*(decltype(act)*)a)(); }, &act);
    else act();
    if (oldbuf) { std::cout.rdbuf(oldbuf); std::cout.clear(); }
    int64_t live = op_live_blocks(), liveb = op_live_bytes(), al = op_allocs();
    int64_t total = (int64_t)total_lib_live_blocks(), totalb = (int64_t)total_lib_live_bytes();
    bool fired = op_alloc_fault_fired(); DepTrace dep = op_dep(); uint64_t ev = op_events();
    op_end();
    if (P->check && (k == "call" || k == "pcall") && applicable && op.p) {
      verdict = judge(*op.p, o);
      const Prob& p = *op.p;
      // the force formulation's thousand variables leave the QP core's running sum of the objective behind
      double tol = p.pd.representation_ == FORCE ? 1e-3 : 1e-6;
      if (verdict.empty() && o.kind == 0 && o.success && p.judge && dep.obj_known && (p.entry == E_TRAJ || p.entry == E_FIXED || p.entry == E_EE) &&
          !(std::abs(o.cost - dep.obj) <= tol * (1 + dep.obj_scale)))
        verdict = fmt("reported cost %g, the solution costs %g", o.cost, dep.obj);
    }
    if (!o.wrong.empty()) verdict = o.wrong;
    bool extreme = false;
    if (P->check && k == "qsolve" && applicable && op.p) verdict = judge_object(*op.p, o, extreme);
    {
      int left = 0; std::string name = k == "qhull" ? file_name((int)op.iv("file", 0)) : "";
      std::string rep = disk_report(op.id, name.c_str(), &left);
      if (k == "qhull") {
        std::string t; disk_read(name.c_str(), t);
        bool wrote = rep[0] == '+', part = o.kind != 0 || dep.disk_bad || fired;
        if (!o.kind) { o.x.push_back(wrote ? (double)t.size() : -1.); o.x.push_back(wrote ? (double)(fnv(t.data(), t.size()) >> 12) : 0.); }
        if (!wrote && !part) verdict = "no file was written";
        else if (wrote) verdict = judge_file(*op.p, op.iv("clip", 0), t, part);
      }
      if (rep.size() > 1) verdict = "the file " + rep.substr(1) + " was written";
      if (left) verdict = fmt("%d files are left open", left);
    }
    uint64_t dg = digest(o);
    emit("%s{\"i\":%d,\"k\":\"%s\",\"r\":%d,\"na\":%d,\"d\":\"%016llx\",\"b\":\"%s\",\"kind\":%d,\"lv\":%lld,\"lb\":%lld,\"al\":%lld,\"fi\":%d,\"ev\":%llu,"
         "\"dep\":[%d,%d,%d,%d,%d,%d,%d,%d],\"v\":\"%s\",\"nested\":\"%s\",\"nd\":\"%016llx\",\"pc\":%d,\"nested2\":\"%s\",\"nd2\":\"%016llx\",\"pc2\":%d,\"hs\":\"%s\"",
         sh->out_len ? ",\n" : "", op.id, k.c_str(), r, applicable ? 0 : 1, (unsigned long long)dg, jesc(brief(o)).c_str(), o.kind, (long long)live, (long long)liveb,
         (long long)al, fired, (unsigned long long)ev, dep.qp_calls, dep.qp_bad, dep.last_qp_status, dep.lp_calls, dep.lp_bad, dep.last_lp_status,
         dep.cone_calls, dep.cone_bad, jesc(verdict).c_str(), jesc(op.pp.nested).c_str(), (unsigned long long)op.pp.nested_d, op.pp.calls,
         jesc(op.in.nested).c_str(), (unsigned long long)op.in.nested_d, op.in.calls, host_diff().c_str());
    if (extreme) emit(",\"xt\":1");
    if (P->threads == 1) emit(",\"tb\":%lld,\"ty\":%lld", (long long)total, (long long)totalb);
    if (P->sites) {
      static uint32_t ks[4096]; int n = op_alloc_sites(ks, nullptr, 4096);
      emit(",\"ks\":["); for (int i = 0; i < n; ++i) emit("%s%u", i ? "," : "", ks[i]); emit("]");
    }
    emit("}");
    sh->log_hash = fnv(&dg, 8, sh->log_hash ^ ev ^ (uint64_t)live);
  }
}
static void thread_main(int tid) { for (int l = 0; l < P->loops; ++l) for (auto& op : P->ops) if (op.thr == tid) run_op(op); }

static void child(Plan& pl, int timeout) {
  P = &pl;
  install_handlers();
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  start_guard(timeout);
  if (!freopen("/dev/null", "w", stdout)) _exit(5);
  { ModeGuard g(INPUT);
    std::map<std::string, Prob*> shared;     // equal requests share one argument object
    auto get = [&](const std::string& d, bool priv) -> Prob* {
      if (!priv) { auto i = shared.find(d); if (i != shared.end()) return i->second; }
      Prob* q = expand(d); if (!q) _exit(6); shared[d] = q; return q; };
    for (auto& op : pl.ops) {
      if (op.kv.count("desc")) op.p = get(op.kv["desc"], op.kv.count("priv") > 0);
      if (op.kv.count("enter")) op.pp.enter = get(op.kv["enter"], false);
      if (op.kv.count("nenter")) op.in.enter = get(op.kv["nenter"], false);
      if (op.has_inner) op.pp.inner = &op.in;
    }
  }
  begin_run(pl.sseed, pl.threads, pl.policy, pl.budget);
  if (pl.replay) set_replay(pl.sw.data(), (int)pl.sw.size());
  track_sites(pl.sites);
  protect_inputs(true);
  host_setup(pl.host); host_thread(pl.host); host_base();
  run_threads(thread_main);
  protect_inputs(false);
  sh->done = 1;
  _exit(0);
}

static double now_s() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
static void run_plan(Plan& pl, int timeout, bool want_sw) {
  memset((void*)sh, 0, offsetof(Shared, sw)); sh->events = 0;
  memset((void*)&sh->events, 0, sizeof(Shared) - offsetof(Shared, events));
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) { child(pl, timeout); _exit(0); }
  int st = 0;
  // hard guard: the child's own alarm should have ended it.  A child that used
  // no processor time for long is blocked for ever.
  int guard = 0; long waited = 0; int64_t cpu = -1; double since = now_s(), start = since;
  clockid_t cl; bool havecl = clock_getcpuclockid(pid, &cl) == 0;
  for (;;) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    usleep(waited < 200 ? 100 : 2000); waited++;
    if (waited % 250 == 0) {
      double t = now_s(); struct timespec ts; int64_t c = cpu;
      if (havecl && clock_gettime(cl, &ts) == 0) c = ts.tv_sec * 1000 + ts.tv_nsec / 1000000;
      if (c != cpu) { cpu = c; since = t; }
      if (havecl && t - since > 15) guard = 1;
      else if (t - start > timeout * 4 + 10) guard = 2;
      if (guard) { kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
    }
  }
  printf("{\"done\":%u,\"st\":%d,\"guard\":%d,\"viol\":[", sh->done, st, guard);
  for (uint32_t i = 0; i < sh->nviol && i < MAXV; ++i) {
    Violation& v = sh->viol[i];
    printf("%s{\"kind\":%u,\"t\":%d,\"op\":%d,\"aux\":%u,\"ev\":%llu,\"pc\":%llu,\"pc2\":%llu,\"text\":\"%s\"}", i ? "," : "", v.kind, v.thread, v.op, v.aux,
           (unsigned long long)v.ev, (unsigned long long)v.pc, (unsigned long long)v.pc2, jesc(v.text).c_str());
  }
  printf("],\"nsw\":%u,\"swof\":%u,\"events\":%llu,\"shared_events\":%llu,\"allocs\":%llu,\"preempts\":%llu,\"th\":\"%016llx\",\"lh\":\"%016llx\",\"pool\":\"%016llx\",\"fired\":[",
         sh->nsw, sh->sw_overflow, (unsigned long long)sh->events, (unsigned long long)sh->shared_events, (unsigned long long)sh->allocs,
         (unsigned long long)sh->preempts, (unsigned long long)sh->trace_hash, (unsigned long long)sh->log_hash, (unsigned long long)pool_hash);
  for (int i = 0; i < F_NKINDS; ++i) printf("%s%llu", i ? "," : "", (unsigned long long)sh->fired[i]);
  printf("]");
  if (want_sw) { printf(",\"sw\":["); for (uint32_t i = 0; i < sh->nsw; ++i) printf("%s[%d,%d,%d,%d,%llu]", i ? "," : "", sh->sw[i].tid, sh->sw[i].to, sh->sw[i].forced, sh->sw[i].op, (unsigned long long)sh->sw[i].ev); printf("]"); }
  outbuf[sh->out_len] = 0;
  std::string body(outbuf, sh->out_len); for (char& c : body) if (c == '\n') c = ' ';
  printf(",\"ops\":[%s]}\n", body.c_str());
  fflush(stdout);
}

int main(int argc, char** argv) {
  int pers = personality(0xffffffff);
  if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOREEXEC")) {
    if (personality(pers | ADDR_NO_RANDOMIZE) >= 0) { setenv("SIM_NOREEXEC", "1", 1); execv("/proc/self/exe", argv); }
  }
  init();
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  outbuf = (char*)mmap(nullptr, OUTSZ + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  build_pool();
  int timeout = 30; bool want_sw = false;
  for (int i = 1; i < argc; ++i) { if (!strcmp(argv[i], "--timeout")) timeout = atoi(argv[++i]); if (!strcmp(argv[i], "--sw")) want_sw = true; }
  printf("{\"ready\":1,\"pool\":\"%016llx\"}\n", (unsigned long long)pool_hash); fflush(stdout);
  for (;;) {
    Plan pl;
    if (!parse(std::cin, pl)) break;
    run_plan(pl, timeout, want_sw);
  }
  return 0;
}
