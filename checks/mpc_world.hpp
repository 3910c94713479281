// The MPC world: persistent MPC controllers (wrapper + SQP + QP + transcription) behind a type-erased handle.
// Seams: user callbacks, the QP's linear solver, the controller's inputs (measurements, bounds, clock) and budgets.
#ifndef MPC_WORLD_HPP
#define MPC_WORLD_HPP
#include "../sim/sim.hpp"
#include "ls_seam.hpp"
#include <Eigen/Dense>
typedef long double LD;
typedef Eigen::Matrix<LD, Eigen::Dynamic, 1> LVec;
typedef Eigen::Matrix<LD, Eigen::Dynamic, Eigen::Dynamic> LMat;
enum { CB_DYN = 0, CB_LAG = 1, CB_MAY = 2, CB_INEQ = 3 };
struct OcpCb { int kind = 0, which = 0; long at = 0, calls = 0; bool fired = false; bool rec = false; double tmin = 1e300, tmax = -1e300;
    void reset(int k = 0, int w = 0, long a = 0) { kind = k; which = w; at = a; calls = 0; fired = false; tmin = 1e300; tmax = -1e300; } };
extern SIM_TLS OcpCb g_oc;
extern void (*g_yield)(int site);
int ocp_cb(int which, double t);

// setters of the wrapper
enum { ST_X0 = 0, ST_X0B, ST_XLB, ST_XUB, ST_XB, ST_XTRAJB, ST_XFLB, ST_XFUB, ST_XFB, ST_ULB, ST_UUB, ST_UTRAJB, ST_UB, ST_GTRAJB, ST_GB, ST_PB, ST_D, ST_XG, ST_UG, ST_LG, ST_PG, ST_TIME, ST_COUNT };
struct MpcSet { int max_iter = 30, ls_max = 20, qp_max = 1000, qp_check = 10; double eps = 1e-3, qp_eps = 1e-4; };
struct MpcOut { int status = -1, iter = 0, qp_iter = 0; double viol = 0, cost = 0, pn = 0, dn = 0; Eigen::VectorXd x, lam; };
struct MpcView { Eigen::VectorXd x, u, p, dual; Eigen::MatrixXd X, U; };
struct MpcState { Eigen::VectorXd lbx, ubx, lbg, ubg, d, x, lam, times; double t0, tf; };
struct IMpc { virtual ~IMpc() {}
    virtual void settings(const MpcSet&) = 0;
    virtual void set(int id, const Eigen::VectorXd& a, const Eigen::VectorXd& b) = 0;
    virtual MpcOut solve() = 0; virtual MpcOut peek() const = 0;
    virtual MpcState state() const = 0;
    virtual MpcView view() const = 0;
    virtual void held(const std::function<void()>& between, std::vector<double>& v) const = 0;   // everything the accessors return, looked at only after `between`
    virtual Eigen::VectorXd x_at(int k) const = 0; virtual Eigen::VectorXd u_at(int k) const = 0;
    virtual Eigen::VectorXd x_at(double t) const = 0; virtual Eigen::VectorXd u_at(double t) const = 0;
    virtual std::unique_ptr<IMpc> copy() const = 0; };
struct MpcDim { int nx, nu, np, nd, ng, P, S; bool single; int nodes() const { return P * S + 1; } int varx() const { return nx * nodes(); } int varu() const { return nu * nodes(); } int nvar() const { return varx() + varu() + np; } int nin() const { return ng * nodes(); } int ndual() const { return varx() + nin() + nvar(); } };
enum { MK_DINT = 0, MK_PEND = 1, MK_PAR = 2, MK_ROBOT = 3, MK_PATH = 4 };
struct MpcCfg { std::string name; MpcDim q; int kind; bool spied, sparse; std::function<std::unique_ptr<IMpc>()> make; std::function<IMpc*(void*)> place; size_t size;
    std::function<void(const LD* x, const LD* u, const LD* p, const LD* d, LD t, LD* xdot)> dyn; std::function<void(const LD* x, const LD* u, const LD* p, const LD* d, LD t, LD* g)> ineq; };
std::vector<MpcCfg>& mpc_cfgs();
enum { MPC_SOLVED = 0, MPC_MAXITER = 1 };
#endif
