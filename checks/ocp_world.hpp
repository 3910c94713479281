// The OCP world: persistent ContinuousOCP objects (dense and sparse transcription of the same problem) behind a
// type-erased handle. Seams: the user callbacks (faults, recording, yields) and the matrices the caller keeps.
#ifndef OCP_WORLD_HPP
#define OCP_WORLD_HPP
#include "../sim/sim.hpp"
#include <Eigen/Dense>
typedef long double LD;
typedef Eigen::Matrix<LD, Eigen::Dynamic, 1> LVec;
typedef Eigen::Matrix<LD, Eigen::Dynamic, Eigen::Dynamic> LMat;
enum { CB_DYN = 0, CB_LAG = 1, CB_MAY = 2, CB_INEQ = 3 };
// fault at a user callback: kind 1 NaN at call #at, 2 NaN from #at on, 3 Inf at #at
struct OcpCb { int kind = 0, which = 0; long at = 0, calls = 0; bool fired = false; std::vector<double> t[4]; bool rec = false;
    void reset(int k = 0, int w = 0, long a = 0) { kind = k; which = w; at = a; calls = 0; fired = false; for (auto& v : t) v.clear(); } };
extern OcpCb g_oc;
extern void (*g_yield)(int site);
int ocp_cb(int which, double t);

enum { COEF_N = 64 };
struct OcpCoef { double a[COEF_N] = {0}; };
enum { OM_EQ = 0, OM_INEQ, OM_CON, OM_EQLIN, OM_INEQLIN, OM_CONLIN, OM_COST, OM_GRAD, OM_HESS, OM_LAG, OM_LGRAD, OM_LHESS, OM_LHESS_SCALED, OM_COUNT };
// everything one call can produce; empty members were not produced
struct OcpOut { double cost = 0; bool has_cost = false; Eigen::VectorXd c, g, grad, lgrad; Eigen::MatrixXd Jc, Jg, H; long nnz = 0; };
struct IOcp { virtual ~IOcp() {}
    virtual void coef(const OcpCoef&) = 0;
    virtual void horizon(double t0, double tf) = 0;
    virtual Eigen::VectorXd times() const = 0;
    virtual double t0() const = 0; virtual double tf() const = 0;
    virtual OcpOut call(int method, const Eigen::VectorXd& v, const Eigen::VectorXd& d, const Eigen::VectorXd& lam, double scale) = 0;
    virtual void drop() = 0;            // the caller forgets its matrices
    // sparse block quasi-Newton update of a matrix with the transcription's pattern: H := base (masked by the pattern), then update
    virtual bool hess_update(const Eigen::MatrixXd& base, const Eigen::VectorXd& s, const Eigen::VectorXd& y, Eigen::MatrixXd& H0, Eigen::MatrixXd& H1, Eigen::MatrixXd& mask) = 0;
    virtual std::unique_ptr<IOcp> copy() const = 0; };
enum { OV_FULL = 0, OV_MAYER = 1, OV_LAG = 2 };
struct OcpDim { int nx, nu, np, nd, ng, P, S; bool single; int variant; int nodes() const { return P * S + 1; } int nvar() const { return (nx + nu) * nodes() + np; } int neq() const { return nx * nodes(); } int nin() const { return ng * nodes(); } };
struct OcpCfg { std::string name; OcpDim d; std::function<std::unique_ptr<IOcp>()> dense, sparse; };
std::vector<OcpCfg>& ocp_cfgs();
#endif
