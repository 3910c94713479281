// Simulated QPMAD back end (only what src/solvers/qpmad_interface.hpp uses). Its answers are scripted (g_be).
#ifndef STUB_QPMAD_SOLVER_H
#define STUB_QPMAD_SOLVER_H
#include <Eigen/Dense>
#include "be_world.hpp"
namespace qpmad {
typedef Eigen::VectorXd QPVector; typedef Eigen::MatrixXd QPMatrix; typedef int MatrixIndex;
struct SolverParameters { enum HessianType { UNDEFINED = 0, HESSIAN_LOWER_TRIANGULAR = 1, HESSIAN_CHOLESKY_FACTOR = 2 }; HessianType hessian_type_ = HESSIAN_LOWER_TRIANGULAR; double tolerance_ = 1e-12; int max_iter_ = -1; };
template<typename S, int n, int hb, int m> class SolverTemplate { public:
    enum ReturnStatus { OK = 0, INCONSISTENT = 1, INFEASIBLE_EQUALITY = 2, INFEASIBLE_INEQUALITY = 3, MAXIMAL_NUMBER_OF_ITERATIONS = 4 };
    template<class P, class H, class V, class L, class U, class A, class AL, class AU> ReturnStatus solve(P& primal, H& hes, const V& h, const L& lb, const U& ub, const A& a, const AL& al, const AU& au, const SolverParameters& p) {
        ++g_be.solves; ++g_be.inits; g_be.H = hes; g_be.A = a; g_be.h = h; g_be.l.resize(al.size() + lb.size()); g_be.l << al, lb; g_be.u.resize(al.size() + lb.size()); g_be.u << au, ub; g_be.warmed = true; g_be.gx = primal;
        g_be.applied.clear(); g_be.applied["MaxIteration"] = p.max_iter_; g_be.applied["AbsoluteTolerance"] = p.tolerance_; g_be.applied["HessianType"] = int(p.hessian_type_);
        hes.setConstant(7.25);   // QPMAD overwrites the Hessian with its factor
        primal = g_be.x; return ReturnStatus(g_be.status); } };
using Solver = SolverTemplate<double, Eigen::Dynamic, 1, Eigen::Dynamic>;
}
#endif
