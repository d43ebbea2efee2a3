// Scenarios (requests), shared between the instrumented adapter and the
// harness.
#pragma once
#include <hpp/bezier-com-traj/common_solve_methods.hh>
#include <hpp/bezier-com-traj/solve.hh>
#include <hpp/bezier-com-traj/solver/eiquadprog-fast.hpp>
#include <hpp/bezier-com-traj/waypoints/waypoints_definition.hh>
#include <string>
#include <vector>

#include "rt.h"

namespace bct = bezier_com_traj;
typedef Eigen::MatrixXd MX;
typedef Eigen::VectorXd VX;

enum Entry { E_TRAJ, E_FIXED, E_ZERO, E_EE, E_SOLVE, E_HELP };

struct Prob {
  Entry entry = E_TRAJ;
  bct::ProblemData pd;
  bct::VectorX Ts;
  std::vector<double> Tsv;
  double timeStep = -1;
  solvers::SolverType solver = solvers::SOLVER_QUADPROG;
  unsigned ppp = 3;
  // end effector
  double T = 1, w = 0.5;
  bool useVel = true;
  Eigen::Vector3d bump = Eigen::Vector3d::Zero();
  // direct solver problems
  MX A, D, H;
  VX b, d, g, x0, lo, hi;
  int help = 0;
  int form = 0;            // through which overload a problem is handed to the solver
  std::pair<MX, VX> pA, pD, pH;
  std::pair<MX, VX> Ab;    // a system to export
  VX point;
  // how to judge a success reply
  std::vector<const centroidal_dynamics::Equilibrium*> phases;
  bool judge = true;
};

// what the user-supplied path does
struct PathPlan {
  int throw_at = -1, throw_kind = 0;
  int enter_at = -1;
  const Prob* enter = nullptr;
  int calls = 0;
  PathPlan* inner = nullptr;   // plan of the path of the nested request
  std::string nested;          // outcome of the nested request
  uint64_t nested_d = 0;       // digest of its reply
};

struct Out {           // what the caller observes
  int kind = 0;        // 0 reply, 1 std exception, 2 other exception
  bool success = false;
  double cost = 0;
  std::vector<double> x, cpts, dlpts, extra;
  double c_min = 0, c_max = 0, dl_min = 0, dl_max = 0;
  size_t c_deg = 0, dl_deg = 0;
  double dc1[3] = {0, 0, 0}, ddc1[3] = {0, 0, 0};
  std::string type, what;
  std::string wrong;    // what the caller can tell is wrong without a reference
  void clear() { *this = Out(); }
};

bool pool_model(const centroidal_dynamics::Equilibrium* e);   // one of the simulator's own contact models?

// the host program's own settings (host.cpp)
void host_setup(uint64_t seed);
void host_thread(uint64_t seed);
void host_base();
void host_check(bool deep);
std::string host_diff();

// adapter (instrumented)
uint64_t digest(const Out& o);
void ad_call(const Prob& p, PathPlan* pp, Out& o);
void ad_fresh_call(const Prob& p, int leave, Out& o);   // fresh description, some fields left at their defaults
void ad_eq_copy(const Prob& p, Out& o);                 // one copy of every contact object, never freed (calibration)
void ad_export(const Prob& p, const std::string& name, bool clip, Out& o);
void ad_qp_new(int slot);
void ad_qp_del(int slot);
bool ad_qp_maxiter(int slot, int n);
void ad_qp_solve(int slot, const Prob& p, bool sparse, int inverse, Out& o);   // inverse: 1 the factor is supplied, 2 after reset()
// problem-description pool
void ad_pd_make(int s, const Prob& p, int late, Out& o);        // deep build, library-owned
void ad_pd_default(int s, Out& o);
void ad_pd_copy(int from, int to, Out& o);
void ad_pd_move(int from, int to, Out& o);
void ad_pd_assign(int from, int to, Out& o);
void ad_pd_swap(int a, int b, Out& o);
void ad_pd_mut(int s, const Prob& p, int what, Out& o);
void ad_pd_del(int s, Out& o);
void ad_pd_freeeq(int s);                             // host destroys its own contact objects
void ad_pd_call(int s, const Prob& p, Out& o);
void ad_vec_push(int s, Out& o);
void ad_vec_erase(int i, Out& o);
void ad_vec_get(int i, int s, Out& o);
void ad_vec_clear(Out& o);
void ad_cd_defaults(Out& o);                          // default-constructed contact data
bool ad_pd_has(int s);
bool ad_pd_fits(int s, const Prob& p);
int ad_vec_size();
// plans kept by the caller
bool ad_res_has(int s);
void ad_res_call(int s, const Prob& p, PathPlan* pp, Out& o);
void ad_res_view(int s, int n, Out& o);
void ad_res_copy(int f, int t, Out& o);
void ad_res_move(int f, int t, Out& o);
void ad_res_assign(int f, int t, Out& o);
void ad_res_swap(int a, int b, Out& o);
void ad_res_base(int f, int t, Out& o);
void ad_res_edit(int s, int what, Out& o);
void ad_res_del(int s, Out& o);
