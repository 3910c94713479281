#ifndef OCP_COMMON_HPP
#define OCP_COMMON_HPP
#include "ocp_world.hpp"
using namespace sim; using Eigen::VectorXd; using Eigen::MatrixXd;
const OcpCfg& ocp_cfg(int i);
// the collocation scheme, derived independently in extended precision (nodes descending from +1 to -1)
struct OcpScheme { LVec nodes, w; LMat D; };
const OcpScheme& ocp_scheme(int P);
LVec ocp_times(const OcpDim& q, double t0, double tf);     // descending: index 0 is the final time
struct OcpRef { LD cost; LVec c, g, grad, lgrad; LMat Jc, Jg, H, HL; };
OcpRef ocp_ref(const OcpDim& q, const OcpCoef& k, double t0, double tf, const VectorXd& v, const VectorXd& d, const VectorXd& lam, double scale);
OcpCoef ocp_coef(uint64_t seed, int kind);
// first difference between a result and its reference, relative to scale; empty when none
std::string ocp_diff(const char* what, const VectorXd& a, const VectorXd& b, double tol);
std::string ocp_diffm(const char* what, const MatrixXd& a, const MatrixXd& b, double tol);
#endif
