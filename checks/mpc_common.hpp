#ifndef MPC_COMMON_HPP
#define MPC_COMMON_HPP
#include "mpc_world.hpp"
using namespace sim; using Eigen::VectorXd; using Eigen::MatrixXd;
const MpcCfg& mpc_cfg(int i); int mpc_ncfg();
struct MpcScheme { LVec nodes; LMat D; };
const MpcScheme& mpc_scheme(int P);
LVec mpc_times(const MpcDim& q, double t0, double tf);          // ascending: index 0 is the initial time
// x: primal vector in the solver's ordering (final node first)
struct MpcViol { LD defect, box, ineq; LD all() const { return std::max(defect, std::max(box, ineq)); } };
MpcViol mpc_viol(const MpcCfg& c, const MpcState& b, const VectorXd& x);
// independent piecewise-polynomial interpolation of nodal values (columns in time order) at time t (barycentric)
LVec mpc_interp(const MpcDim& q, double t0, double tf, const MatrixXd& V, LD t);
bool mpc_fin(const MatrixXd& m);
double mpc_dist(const VectorXd& a, const VectorXd& b);
#endif
