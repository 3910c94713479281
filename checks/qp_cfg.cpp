// Instantiates the real solvers (src/solvers/admm.hpp, box_admm.hpp) for a set of configurations. Compiled once per PART.
#include "qp_world.hpp"
#include "solvers/admm.hpp"
#include "solvers/box_admm.hpp"
#include "ls_solvers.hpp"
using namespace Eigen;

template<class Q, int N, int M, typename S, bool SP> struct W : IQp {
    Q q;
    using hess = typename Q::qp_hessian_t; using jac = typename Q::qp_constraint_t; using var = typename Q::qp_var_t; using dua = typename Q::qp_dual_a_t; using dual = typename Q::qp_dual_t;
    static void mat(const MatrixXd& a, const MatrixXi& p, SparseMatrix<S>& o, bool packed, int spare) { o.resize(a.rows(), a.cols()); VectorXi nz(a.cols()); for (int j = 0; j < a.cols(); ++j) nz(j) = std::max(1, p.col(j).sum()) + spare; o.reserve(nz); for (int j = 0; j < a.cols(); ++j) for (int i = 0; i < a.rows(); ++i) if (p(i, j)) o.insert(i, j) = S(a(i, j)); if (packed) o.makeCompressed(); }
    template<class D> static void mat(const MatrixXd& a, const MatrixXi&, MatrixBase<D>& o, bool, int) { o = a.cast<S>(); }
    QpOut solve(const QpData& d, const VectorXd* xg, const VectorXd* yg) override {
        hess H; jac A; mat(d.H, d.patH, H, d.form & 1, d.form >> 2 & 3); mat(d.A, d.patA, A, d.form & 2, d.form >> 2 & 3);
        var h = d.h.cast<S>(), xl = d.xl.cast<S>(), xu = d.xu.cast<S>(); dua l = d.l.cast<S>(), u = d.u.cast<S>();
        QpOut o; long s0 = g_ls.solves, f0 = g_ls.factors;
        if (xg) { var x = xg->cast<S>(); dual y = yg->cast<S>(); LibScope L; o.status = q.solve(H, h, A, l, u, xl, xu, x, y); } else { LibScope L; o.status = q.solve(H, h, A, l, u, xl, xu); }
        show(o);
        o.solves = g_ls.solves - s0; o.factors = g_ls.factors - f0; o.fired = g_ls.fired; return o; }
    void held(const std::function<void()>& f, std::vector<double>& v) const override { auto&& x = q.primal_solution(); auto&& y = q.dual_solution(); auto&& in = q.info(); auto&& st = q.settings(); f(); for (int i = 0; i < int(x.size()); ++i) v.push_back(double(x(i))); for (int i = 0; i < int(y.size()); ++i) v.push_back(double(y(i))); v.push_back(in.iter); v.push_back(in.status); v.push_back(double(in.res_prim)); v.push_back(double(in.res_dual)); v.push_back(double(st.rho)); v.push_back(double(st.eps_abs)); v.push_back(st.max_iter); }
    void show(QpOut& o) const {
        o.istatus = q.info().status; o.iter = q.info().iter; o.rp = q.info().res_prim; o.rd = q.info().res_dual; o.x = q.primal_solution().template cast<double>(); o.y = q.dual_solution().template cast<double>(); }
    QpOut peek() const override { QpOut o; show(o); o.status = o.istatus; return o; }
    void set(const QpSet& s) override { auto& t = q.settings(); t.eps_rel = S(s.eps_rel); t.eps_abs = S(s.eps_abs); t.rho = S(s.rho); t.sigma = S(s.sigma); t.alpha = S(s.alpha); t.adaptive_rho_tolerance = S(s.tol); t.max_iter = s.max_iter; t.check_termination = s.check; t.adaptive_rho_interval = s.interval; t.adaptive_rho = s.adaptive; t.reuse_pattern = s.reuse; }
    // a linear-solver object of Eigen's sparse family is not copyable: a snapshot exists for dense solvers only
    template<bool C = !SP> typename std::enable_if<C, std::unique_ptr<IQp>>::type copy_() const { auto p = std::unique_ptr<W>(new W); p->q = q; return std::move(p); }
    template<bool C = !SP> typename std::enable_if<!C, std::unique_ptr<IQp>>::type copy_() const { return nullptr; }
    std::unique_ptr<IQp> copy() const override { return copy_<>(); }
};
template<class Q, int N, int M, typename S, bool SP> int reg(const char* name, bool box, bool spied, bool both) {
    QpCfg c{name, N, M, SP, std::is_same<S, float>::value, box, spied, both, [] { return std::unique_ptr<IQp>(new W<Q, N, M, S, SP>); }, [](void* m) -> IQp* { return new (m) W<Q, N, M, S, SP>; }, sizeof(W<Q, N, M, S, SP>)}; qp_cfgs().push_back(c); return 0; }
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define REG(NAME, CLS, N, M, S, SP, BOX, SPY, BOTH) static int CAT(r_, __LINE__) = reg<CLS, N, M, S, SP>(NAME, BOX, SPY, BOTH);
template<int N, int M, class S> using AD = ADMM<N, M, S, DENSE, SpyLDLT, Lower>;
template<int N, int M, class S> using BD = boxADMM<N, M, S, DENSE, SpyLDLT, Lower>;
template<int N, int M, class S> using AS = ADMM<N, M, S, SPARSE, SpySLDLT, Lower>;
template<int N, int M, class S> using BS = boxADMM<N, M, S, SPARSE, SpySLDLT, Lower>;
#define C2(...) __VA_ARGS__
#if PART == 0
using a0 = AD<4, 2, double>; REG("dense-admm-4-2", a0, 4, 2, double, false, false, true, false)
using a1 = ADMM<3, 1, double>; REG("dense-admm-default-3-1", a1, 3, 1, double, false, false, false, false)
using a2 = AD<5, 3, float>; REG("dense-admm-float-5-3", a2, 5, 3, float, false, false, true, false)
using a3 = ADMM<4, 3, double, DENSE, SpyLU, Lower | Upper>; REG("dense-admm-both-4-3", a3, 4, 3, double, false, false, true, true)
#elif PART == 1
using a0 = BD<4, 2, double>; REG("dense-box-4-2", a0, 4, 2, double, false, true, true, false)
using a1 = boxADMM<7, 4, double>; REG("dense-box-default-7-4", a1, 7, 4, double, false, true, false, false)
using a2 = BD<5, 3, float>; REG("dense-box-float-5-3", a2, 5, 3, float, false, true, true, false)
using a3 = boxADMM<4, 3, double, DENSE, SpyLU, Lower | Upper>; REG("dense-box-both-4-3", a3, 4, 3, double, false, true, true, true)
#elif PART == 2
using a0 = AS<6, 3, double>; REG("sparse-admm-6-3", a0, 6, 3, double, true, false, true, false)
using a1 = ADMM<8, 5, double, SPARSE, linear_solver_traits<SPARSE>::default_solver>; REG("sparse-admm-default-8-5", a1, 8, 5, double, true, false, false, false)
using a2 = AS<5, 3, float>; REG("sparse-admm-float-5-3", a2, 5, 3, float, true, false, true, false)
using a3 = ADMM<5, 3, double, SPARSE, SpySLU, Lower | Upper>; REG("sparse-admm-both-5-3", a3, 5, 3, double, true, false, true, true)
#elif PART == 3
using a0 = BS<6, 3, double>; REG("sparse-box-6-3", a0, 6, 3, double, true, true, true, false)
using a1 = boxADMM<8, 5, double, SPARSE, linear_solver_traits<SPARSE>::default_solver>; REG("sparse-box-default-8-5", a1, 8, 5, double, true, true, false, false)
using a2 = BS<5, 3, float>; REG("sparse-box-float-5-3", a2, 5, 3, float, true, true, true, false)
using a3 = boxADMM<5, 3, double, SPARSE, SpySLU, Lower | Upper>; REG("sparse-box-both-5-3", a3, 5, 3, double, true, true, true, true)
#endif
