// Simulated OSQP back end behind the osqp-eigen interface (only what src/solvers/osqp_interface.hpp uses).
// It keeps osqp-eigen's life-cycle rules: data can be set once until it is cleared, a solver is initialised once until it
// is cleared, updates and solves need an initialised solver. What it answers is scripted by the simulator (g_be).
#ifndef STUB_OSQP_EIGEN_H
#define STUB_OSQP_EIGEN_H
#include <memory>
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include "be_world.hpp"
typedef double c_float; typedef long long c_int;
#define OSQP_DUAL_INFEASIBLE_INACCURATE (4)
#define OSQP_PRIMAL_INFEASIBLE_INACCURATE (3)
#define OSQP_SOLVED_INACCURATE (2)
#define OSQP_SOLVED (1)
#define OSQP_MAX_ITER_REACHED (-2)
#define OSQP_PRIMAL_INFEASIBLE (-3)
#define OSQP_DUAL_INFEASIBLE (-4)
#define OSQP_SIGINT (-5)
#define OSQP_TIME_LIMIT_REACHED (-6)
#define OSQP_NON_CVX (-7)
#define OSQP_UNSOLVED (-10)
struct OSQPInfo { c_int iter = 0, status_val = OSQP_UNSOLVED, rho_updates = 0; c_float obj_val = 0, pri_res = 0, dua_res = 0, rho_estimate = 0; };
struct OSQPWorkspace { OSQPInfo* info; OSQPInfo store; OSQPWorkspace() : info(&store) {} };
namespace OsqpEigen {
enum class ErrorExitFlag : int { DataValidationError = 1, SettingsValidationError = 2, LinsysSolverLoadError = 3, LinsysSolverInitError = 4, NonCvxError = 5, MemAllocError = 6, WorkspaceNotInitError = 7, NoError = 0 };
class Settings { public: std::map<std::string, double> v;
#define ST(N) void set##N(double x) { v[#N] = x; }
    ST(Rho) ST(Alpha) ST(Sigma) ST(Verbosity) ST(WarmStart) ST(AdaptiveRho) ST(MaxIteration) ST(CheckTermination) ST(AbsoluteTolerance) ST(RelativeTolerance) ST(AdaptiveRhoInterval) ST(AdaptiveRhoTolerance)
    ST(Delta) ST(Polish) ST(Scaling) ST(TimeLimit) ST(PolishRefineIter) ST(LinearSystemSolver) ST(ScaledTerimination) ST(AdaptiveRhoFraction) ST(PrimalInfeasibilityTolerance) ST(DualInfeasibilityTolerance)
#undef ST
};
class Data { public: int n = 0, m = 0; bool hset = false, aset = false; Eigen::MatrixXd H, A; const double *q = nullptr, *l = nullptr, *u = nullptr;
    void setNumberOfVariables(int k) { n = k; } void setNumberOfConstraints(int k) { m = k; }
    template<class D> bool setHessianMatrix(const Eigen::SparseCompressedBase<D>& M) { if (hset) { ++g_be.refused; return false; } if (M.rows() != n || M.cols() != n) return false; H = Eigen::MatrixXd(M); hset = true; return true; }
    template<class D> bool setLinearConstraintsMatrix(const Eigen::SparseCompressedBase<D>& M) { if (aset) { ++g_be.refused; return false; } if (M.rows() != m || M.cols() != n) return false; A = Eigen::MatrixXd(M); aset = true; return true; }
    bool setGradient(Eigen::Ref<Eigen::VectorXd> v) { if (v.size() != n) return false; q = v.data(); return true; }
    bool setLowerBound(Eigen::Ref<Eigen::VectorXd> v) { if (v.size() != m) return false; l = v.data(); return true; }
    bool setUpperBound(Eigen::Ref<Eigen::VectorXd> v) { if (v.size() != m) return false; u = v.data(); return true; }
    void clearHessianMatrix() { hset = false; H.resize(0, 0); } void clearLinearConstraintsMatrix() { aset = false; A.resize(0, 0); } };
class Solver { std::unique_ptr<Settings> s_{new Settings}; std::unique_ptr<Data> d_{new Data}; std::unique_ptr<OSQPWorkspace> w_; Eigen::MatrixXd H, A; Eigen::VectorXd q, l, u, x, y, wx, wy; bool init_ = false, warmed = false; Eigen::VectorXd sx, sy;
public: const std::unique_ptr<Settings>& settings() const { return s_; } const std::unique_ptr<Data>& data() const { return d_; } const std::unique_ptr<OSQPWorkspace>& workspace() const { return w_; }
    bool isInitialized() { return init_; }
    bool initSolver() { if (init_) { ++g_be.refused; return false; } if (!d_->hset || !d_->aset || !d_->q || !d_->l || !d_->u) { ++g_be.refused; return false; } if (g_be.fail_init) { ++g_be.init_failed; return false; }
        H = d_->H; A = d_->A; q = Eigen::Map<const Eigen::VectorXd>(d_->q, d_->n); l = Eigen::Map<const Eigen::VectorXd>(d_->l, d_->m); u = Eigen::Map<const Eigen::VectorXd>(d_->u, d_->m); w_.reset(new OSQPWorkspace); init_ = true; warmed = false; g_be.applied = s_->v; ++g_be.inits; return true; }
    void clearSolver() { w_.reset(); init_ = false; } void clearSolverVariables() {}
    template<class D> bool updateHessianMatrix(const Eigen::SparseCompressedBase<D>& M) { if (!init_) { ++g_be.refused; return false; } H = Eigen::MatrixXd(M); return true; }
    template<class D> bool updateLinearConstraintsMatrix(const Eigen::SparseCompressedBase<D>& M) { if (!init_) { ++g_be.refused; return false; } A = Eigen::MatrixXd(M); return true; }
    bool updateGradient(const Eigen::Ref<const Eigen::VectorXd>& v) { if (!init_) { ++g_be.refused; return false; } q = v; return true; }
    bool updateBounds(const Eigen::Ref<const Eigen::VectorXd>& a, const Eigen::Ref<const Eigen::VectorXd>& b) { if (!init_) { ++g_be.refused; return false; } l = a; u = b; return true; }
    bool setWarmStart(const Eigen::Ref<const Eigen::VectorXd>& a, const Eigen::Ref<const Eigen::VectorXd>& b) { if (!init_) { ++g_be.refused; return false; } wx = a; wy = b; warmed = true; return true; }
    ErrorExitFlag solveProblem() { if (!init_) { ++g_be.refused; return ErrorExitFlag::WorkspaceNotInitError; } ++g_be.solves; g_be.H = H; g_be.A = A; g_be.h = q; g_be.l = l; g_be.u = u; g_be.warmed = warmed; g_be.gx = wx; g_be.gy = wy; warmed = false;
        OSQPInfo& i = *w_->info; i.iter = g_be.iter; i.status_val = g_be.status; i.pri_res = g_be.rp; i.dua_res = g_be.rd; i.rho_updates = g_be.rho_updates; i.rho_estimate = g_be.rho; sx = g_be.x; sy = g_be.y; return ErrorExitFlag::NoError; }
    const Eigen::VectorXd& getSolution() { if (!w_) be_misuse("the solution was read from a solver without a workspace"); return sx; } const Eigen::VectorXd& getDualSolution() { if (!w_) be_misuse("the dual solution was read from a solver without a workspace"); return sy; } };
}
#endif
