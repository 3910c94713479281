// The QP world: persistent QP solver objects behind a type-erased handle; the linear solver is the seam through
// which the simulator counts work, advances simulated time and injects numerical faults.
#ifndef QP_WORLD_HPP
#define QP_WORLD_HPP
#include "../sim/sim.hpp"
#include <Eigen/Dense>
#include <Eigen/Sparse>

#include "ls_seam.hpp"

struct QpData { int n = 0, m = 0; Eigen::MatrixXd H, A; Eigen::VectorXd h, l, u, xl, xu;
    Eigen::MatrixXi patH, patA;      // explicit sparsity pattern (sparse back ends store exactly these entries)
    uint64_t pat = 0; int form = 0; };   // form: how sparse matrices are stored (bit 0/1: H/A compressed, bits 2-3: spare room per column when not)
struct QpSet { double eps_rel = 1e-3, eps_abs = 1e-3, rho = 0.1, sigma = 1e-6, alpha = 1.0, tol = 5; int max_iter = 1000, check = 25, interval = 25; bool adaptive = false, reuse = false; };
struct QpOut { int status = -1, istatus = -1, iter = 0; double rp = 0, rd = 0; Eigen::VectorXd x, y; long solves = 0, factors = 0; bool fired = false, noisy = false; double spied_ticks() const { return double(solves ? solves : iter); } };

struct IQp { virtual ~IQp() {}
    virtual QpOut solve(const QpData&, const Eigen::VectorXd* xg, const Eigen::VectorXd* yg) = 0;
    virtual void held(const std::function<void()>& between, std::vector<double>& v) const = 0;   // what the accessors return, looked at only after `between`
    virtual QpOut peek() const = 0;       // what the object shows right now
    virtual void set(const QpSet&) = 0;
    virtual std::unique_ptr<IQp> copy() const = 0; };          // snapshot of the live object
struct QpCfg { std::string name; int n, m; bool sparse, single, box, spied, both; std::function<std::unique_ptr<IQp>()> make; std::function<IQp*(void*)> place; size_t size; };
std::vector<QpCfg>& qp_cfgs();
enum { QP_SOLVED = 0, QP_MAXITER = 1, QP_UNSOLVED = 2 };
#endif
