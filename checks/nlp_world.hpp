// The NLP world: persistent SQP solver objects behind a type-erased handle. Seams: problem callbacks, the QP's
// linear solver (template parameters of the library) and budgets.
#ifndef NLP_WORLD_HPP
#define NLP_WORLD_HPP
#include "../sim/sim.hpp"
#include "ls_seam.hpp"
#include <Eigen/Dense>
typedef long double LD;
typedef Eigen::Matrix<LD, Eigen::Dynamic, 1> LVec;
typedef Eigen::Matrix<LD, Eigen::Dynamic, Eigen::Dynamic> LMat;

// fault at a user callback: which 0 cost, 1 equalities, 2 inequalities; kind 1 NaN once, 2 NaN from #at on, 3 +Inf once, 4 value jump once
struct CbFault { int kind = 0, which = 0; long at = 0; long calls = 0; bool fired = false; void reset(int k = 0, int w = 0, long a = 0) { kind = k; which = w; at = a; calls = 0; fired = false; } };
extern SIM_TLS CbFault g_cb;
extern void (*g_yield)(int site);       // scheduling point (isolation scenarios)
inline int cb_point(int which) { if (g_yield) g_yield(which); if (!g_cb.kind || g_cb.which != which) return 0; long k = ++g_cb.calls; bool hit = g_cb.kind == 2 ? k >= g_cb.at : k == g_cb.at; if (hit) g_cb.fired = true; return hit ? g_cb.kind : 0; }
template<class T, class X> void cb_poison(int hit, const X& x, T& v) { if (!hit) return; typedef double D;
    if (hit == 1 || hit == 2) v = v + x(0) * T(std::numeric_limits<D>::quiet_NaN()); else if (hit == 3) v = v + T(std::numeric_limits<D>::infinity()); else v = v * T(3.0) + x(0) * T(7.0) + T(5.0); }

struct HessObs { long updates = 0, notsym = 0, notpd = 0; double worst_sym = 0, worst_eig = 0, alpha = 1, hscale = 0; bool qp_ok = true; };   // quasi-Newton observation
extern SIM_TLS HessObs g_ho;
bool nlp_regularise(Eigen::MatrixXd& H);
void nlp_observe_update(const Eigen::MatrixXd& before, const Eigen::MatrixXd& after, const Eigen::VectorXd& sy, bool single);

struct NlpEval { LD cost; LVec grad, c, g; LMat Jc, Jg; };
struct NlpBounds { Eigen::VectorXd lbx, ubx, lbg, ubg; };
struct NlpSet { int max_iter = 100, ls_max = 100, qp_max = 100, qp_check = 10; double eps = 1e-3, qp_eps = 1e-4, tau = 0.5, eta = 0.25; bool qp_adaptive = true; };
struct NlpOut { int status = -1, iter = 0, qp_iter = 0; double pn = 0, dn = 0, viol = 0, cost = 0; Eigen::VectorXd x, lam; };
struct INlp { virtual ~INlp() {}
    virtual void set(const NlpSet&) = 0;
    virtual NlpOut peek() const = 0;
    virtual void held(const std::function<void()>& between, std::vector<double>& v) const = 0;   // what the accessors return, looked at only after `between`
    virtual void data(const Eigen::VectorXd& p, const NlpBounds& b) = 0;
    virtual NlpOut solve(const Eigen::VectorXd* xg, const Eigen::VectorXd* lg) = 0;     // null: continue from the retained iterate
    virtual std::unique_ptr<INlp> copy() const = 0;
    virtual size_t bytes() const = 0; };
enum { NK_CONVEX = 0, NK_NONCONVEX = 1, NK_BOX = 2, NK_INEQ = 3, NK_FEAS = 4, NK_SCALED = 5 };
struct NlpCfg { std::string name; int n, ne, ni, np, kind; bool single, spied, quasi, ruiz, filter; std::function<std::unique_ptr<INlp>()> make; std::function<INlp*(void*)> place; size_t size;
    std::function<NlpEval(const Eigen::VectorXd&, const Eigen::VectorXd&)> eval; };
std::vector<NlpCfg>& nlp_cfgs();
enum { NLP_SOLVED = 0, NLP_MAXITER = 1 };
#endif
