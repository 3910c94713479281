// Problem generator and independent optimality oracle shared by the QP scenarios.
#ifndef QP_COMMON_HPP
#define QP_COMMON_HPP
#include "qp_world.hpp"
using namespace sim; using Eigen::VectorXd; using Eigen::MatrixXd; using Eigen::MatrixXi;
static const double QINF = std::numeric_limits<double>::infinity();
const QpCfg& qp_cfg(int i);
int qp_ncfg();
// pattern seed fixes the sparsity pattern, problem seed fixes the values
enum PKind { PK_REG = 0, PK_INFEAS = 1, PK_NONCONVEX = 2, PK_SEMIDEF = 3, PK_LP = 4 };
QpData qp_problem(const QpCfg& c, uint64_t pseed, uint64_t patseed, int kind, bool full_diag);
void qp_revector(QpData& d, uint64_t seed, int mode, bool bounded);
enum DFault { DF_NONE = 0, DF_NAN_H = 1, DF_NAN_h = 2, DF_NAN_A = 3, DF_INF_h = 4, DF_INF_A = 5, DF_INF_H = 6 };
bool qp_poison(QpData& d, int fault, int pos);
struct QpKkt { double prim, dual, sp, sd, comp; bool finite; };
QpKkt qp_kkt(const QpData& d, const QpOut& o, const QpSet& s, bool single);
// empty string: the answer is what its status says; otherwise the class of the lie
// small executable reference model of the over-relaxed operator splitting (dense, plain loops); result comparable to a real solve
QpOut qp_ref(const QpCfg& c, const QpData& d, const QpSet& s, const VectorXd* xg, const VectorXd* yg);
std::string qp_honest(const QpData& d, const QpOut& o, const QpSet& s, bool single, std::string& detail);
#endif
