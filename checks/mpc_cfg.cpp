// Instantiates the real MPC stack (src/control/mpc_wrapper.hpp, continuous_ocp.hpp, src/solvers/*) for a set of plants
// and solver variants. Compiled once per PART.
#include "mpc_world.hpp"
#include "solvers/sqp_base.hpp"
#include "solvers/box_admm.hpp"
#include "solvers/admm.hpp"
#include "solvers/qp_preconditioners.hpp"
#include "polynomials/ebyshev.hpp"
#include "polynomials/splines.hpp"
#include "control/continuous_ocp.hpp"
#include "control/mpc_wrapper.hpp"
#include "ls_solvers.hpp"
#include <Eigen/Eigenvalues>
using namespace Eigen; using std::sin; using std::cos;
// ---- plants: formulas shared by the library (scalar and AD types) and by the oracle (long double) ----
struct FDint { enum { NX = 2, NU = 1, NP = 0, ND = 2, NG = 0, KIND = MK_DINT };
    template<class T, class X, class U, class P, class D, class O> static void dyn(const X& x, const U& u, const P&, const D& d, O& o) { o[0] = x[1]; o[1] = T(d[0]) * u[0]; }
    template<class T, class X, class U, class P, class D> static T lag(const X& x, const U& u, const P&, const D& d) { T e = x[0] - T(d[1]); return T(e * e + T(0.3) * x[1] * x[1] + T(0.1) * u[0] * u[0]); }
    template<class T, class X, class U, class P, class D> static T may(const X& x, const U&, const P&, const D& d) { T e = x[0] - T(d[1]); return T(T(5.0) * e * e + T(3.0) * x[1] * x[1]); }
    template<class T, class X, class U, class P, class D, class O> static void ineq(const X&, const U&, const P&, const D&, O&) {} };
struct FPend { enum { NX = 2, NU = 1, NP = 0, ND = 2, NG = 1, KIND = MK_PEND };
    template<class T, class X, class U, class P, class D, class O> static void dyn(const X& x, const U& u, const P&, const D& d, O& o) { T a = x[0]; T s = sin(a); o[0] = x[1]; o[1] = T(d[0]) * u[0] - s - T(0.2) * x[1]; }
    template<class T, class X, class U, class P, class D> static T lag(const X& x, const U& u, const P&, const D& d) { T e = x[0] - T(d[1]); return T(e * e + T(0.2) * x[1] * x[1] + T(0.05) * u[0] * u[0]); }
    template<class T, class X, class U, class P, class D> static T may(const X& x, const U&, const P&, const D& d) { T e = x[0] - T(d[1]); return T(T(3.0) * e * e + T(1.5) * x[1] * x[1]); }
    template<class T, class X, class U, class P, class D, class O> static void ineq(const X& x, const U& u, const P&, const D&, O& o) { o[0] = x[1] + T(0.3) * u[0] + T(0.05) * x[0] * x[0]; } };
struct FPar { enum { NX = 1, NU = 1, NP = 1, ND = 2, NG = 1, KIND = MK_PAR };
    template<class T, class X, class U, class P, class D, class O> static void dyn(const X& x, const U& u, const P& p, const D& d, O& o) { T xx = x[0] * x[0]; o[0] = u[0] + p[0] - T(d[0]) * x[0] - T(0.1) * xx; }
    template<class T, class X, class U, class P, class D> static T lag(const X& x, const U& u, const P& p, const D& d) { T e = x[0] - T(d[1]), q = p[0] - T(0.1); return T(e * e + T(0.2) * u[0] * u[0] + q * q); }
    template<class T, class X, class U, class P, class D> static T may(const X& x, const U&, const P&, const D& d) { T e = x[0] - T(d[1]); return T(T(2.0) * e * e); }
    template<class T, class X, class U, class P, class D, class O> static void ineq(const X& x, const U& u, const P&, const D&, O& o) { o[0] = u[0] + T(0.5) * x[0] * x[0]; } };
struct FRobot { enum { NX = 3, NU = 2, NP = 0, ND = 2, NG = 0, KIND = MK_ROBOT };
    template<class T, class X, class U, class P, class D, class O> static void dyn(const X& x, const U& u, const P&, const D& d, O& o) { T th = x[2], de = u[1]; T c = cos(th), s = sin(th), cd = cos(de), sd = sin(de); T w = u[0] * sd; o[0] = u[0] * c * cd; o[1] = u[0] * s * cd; o[2] = w * T(1.0 / d[0]); }
    template<class T, class X, class U, class P, class D> static T lag(const X& x, const U& u, const P&, const D& d) { T e = x[0] - T(d[1]); return T(e * e + x[1] * x[1] + x[2] * x[2] + u[0] * u[0] + u[1] * u[1]); }
    template<class T, class X, class U, class P, class D> static T may(const X& x, const U&, const P&, const D& d) { T e = x[0] - T(d[1]); return T(e * e + x[1] * x[1] + x[2] * x[2]); }
    template<class T, class X, class U, class P, class D, class O> static void ineq(const X&, const U&, const P&, const D&, O&) {} };
// a vehicle on a path: progress and lateral offset; the curvature comes from the library's spline (three segments on [0, 1.5], left at both ends)
struct FPath { enum { NX = 2, NU = 2, NP = 0, ND = 2, NG = 0, KIND = MK_PATH };
    static void table(double* c) { double k[3][2] = {{0, 0}, {0.5, 0.1}, {1.0, -0.15}}; double p[4] = {0.2, 0.3, -0.04, 0}; for (int g = 0; g < 3; ++g) { double s = k[g][0], a = k[g][1]; p[0] -= a * s * s * s; p[1] += 3 * a * s * s; p[2] -= 3 * a * s; p[3] += a; for (int i = 0; i < 4; ++i) c[4 * g + i] = p[i]; } }
    static const polympc::EquidistantCubicSpline<double>& path() { static const polympc::EquidistantCubicSpline<double> s = [] { Eigen::Matrix<double, 4, Eigen::Dynamic> c(4, 3); table(c.data()); return polympc::EquidistantCubicSpline<double>(c, 0.5); }(); return s; }
    template<class T> static T kappa(const T& s) { return path().eval(s); }
    static LD kappa(const LD& s) { double c[12]; table(c); int k = int(std::max(0.0L, std::min(2.0L, floorl(s / 0.5L)))); return c[4 * k] + s * (c[4 * k + 1] + s * (c[4 * k + 2] + s * LD(c[4 * k + 3]))); }
    template<class T, class X, class U, class P, class D, class O> static void dyn(const X& x, const U& u, const P&, const D& d, O& o) { T s = x[0]; T k = kappa(s); o[0] = T(d[0]) * u[0]; o[1] = u[1] - T(0.3) * x[1] + k; }
    template<class T, class X, class U, class P, class D> static T lag(const X& x, const U& u, const P&, const D& d) { T e = x[0] - T(d[1]); return T(e * e + x[1] * x[1] + T(0.2) * u[0] * u[0] + T(0.2) * u[1] * u[1]); }
    template<class T, class X, class U, class P, class D> static T may(const X& x, const U&, const P&, const D& d) { T e = x[0] - T(d[1]); return T(T(3.0) * e * e + T(2.0) * x[1] * x[1]); }
    template<class T, class X, class U, class P, class D, class O> static void ineq(const X&, const U&, const P&, const D&, O&) {} };

template<class F, class S, class A, int FMT> class MpcOcp;
template<class F, class S, class A, int FMT> struct polympc_traits<MpcOcp<F, S, A, FMT>> { using Scalar = S; enum { NX = F::NX, NU = F::NU, NP = F::NP, ND = F::ND, NG = F::NG }; };
static double val(double t) { return t; } static double val(float t) { return t; } template<class D> double val(const AutoDiffScalar<D>& t) { return val(t.value()); }
template<class T, class V> void poison(int h, const V& x, T& o) { if (h == 3) o = o + T(std::numeric_limits<double>::infinity()); else if (h) o = o + x(0) * T(std::numeric_limits<double>::quiet_NaN()); }
template<class F, class S, class A, int FMT> class MpcOcp : public ContinuousOCP<MpcOcp<F, S, A, FMT>, A, FMT> { public:
    using B = ContinuousOCP<MpcOcp<F, S, A, FMT>, A, FMT>; using scalar_t = S; enum { NX = F::NX, NU = F::NU, NP = F::NP, ND = F::ND, NG = F::NG };
    template<class T> using st = typename B::template state_t<T>; template<class T> using ct = typename B::template control_t<T>; template<class T> using pt = typename B::template parameter_t<T>; template<class T> using gt = typename B::template constraint_t<T>; using sp = typename B::static_parameter_t;
    template<typename T> void dynamics_impl(const Ref<const st<T>> x, const Ref<const ct<T>> u, const Ref<const pt<T>> p, const Ref<const sp>& d, const T& t, Ref<st<T>> xdot) const noexcept { int h = ocp_cb(CB_DYN, val(t)); F::template dyn<T>(x, u, p, d, xdot); if (h) poison<T>(h, x, xdot(0)); }
    template<typename T> void lagrange_term_impl(const Ref<const st<T>> x, const Ref<const ct<T>> u, const Ref<const pt<T>> p, const Ref<const sp> d, const scalar_t& t, T& l) const noexcept { int h = ocp_cb(CB_LAG, t); l = F::template lag<T>(x, u, p, d); if (h) poison<T>(h, x, l); }
    template<typename T> void mayer_term_impl(const Ref<const st<T>> x, const Ref<const ct<T>> u, const Ref<const pt<T>> p, const Ref<const sp> d, const scalar_t& t, T& m) const noexcept { int h = ocp_cb(CB_MAY, t); m = F::template may<T>(x, u, p, d); if (h) poison<T>(h, x, m); }
    template<typename T> void inequality_constraints_impl(const Ref<const st<T>> x, const Ref<const ct<T>> u, const Ref<const pt<T>> p, const Ref<const sp> d, const scalar_t& t, Ref<gt<T>> g) const noexcept { if (!NG) return; int h = ocp_cb(CB_INEQ, t); F::template ineq<T>(x, u, p, d, g); if (h) poison<T>(h, x, g(0)); } };

// user-side solver classes: eigenvalue clamping (dense), Gershgorin shift (sparse)
template<class P, class QP, class PC = polympc::IdentityPreconditioner> class SolD : public SQPBase<SolD<P, QP, PC>, P, QP, PC> { public:
    using B = SQPBase<SolD<P, QP, PC>, P, QP, PC>; using hess = typename B::nlp_hessian_t; using S = typename B::scalar_t;
    void hessian_regularisation_dense_impl(Ref<hess> H) noexcept { UserScope U; MatrixXd h = H.template cast<double>(); if (!(h - h).isZero(0)) return; h = (0.5 * (h + h.transpose())).eval(); SelfAdjointEigenSolver<MatrixXd> es(h); if (es.eigenvalues()(0) > 1e-4) return; VectorXd e = es.eigenvalues().cwiseAbs().cwiseMax(0.01); H = (es.eigenvectors() * e.asDiagonal() * es.eigenvectors().transpose()).template cast<S>(); } };
template<class P, class QP, class PC = polympc::IdentityPreconditioner> class SolS : public SQPBase<SolS<P, QP, PC>, P, QP, PC> { public:
    using B = SQPBase<SolS<P, QP, PC>, P, QP, PC>; using hess = typename B::nlp_hessian_t; using var = typename B::nlp_variable_t; using S = typename B::scalar_t;
    void hessian_update_impl(Ref<hess> H, const Ref<const var>& s, const Ref<const var>& y) noexcept { this->problem.hessian_update_impl(H, s, y); }
    void hessian_regularisation_sparse_impl(hess& H) noexcept { for (int i = 0; i < H.cols(); ++i) { S off = 0, dg = 0; S* pd = nullptr; for (typename hess::InnerIterator it(H, i); it; ++it) { if (it.row() == i) { dg = it.value(); pd = &it.valueRef(); } else off += std::abs(it.value()); } if (pd && dg - off <= 0) *pd += (off - dg) + S(0.01); } } };

template<class M, class O> struct W : IMpc { M m; using S = typename M::scalar_t; enum { NX = M::nx, NU = M::nu, NP = M::np, ND = M::nd, NG = M::ng, VX = M::varx_size, VU = M::varu_size };
    template<class V> static V cv(const VectorXd& a) { V v(a.size()); for (int i = 0; i < a.size(); ++i) v(i) = S(a(i)); return v; }
    template<class V> static VectorXd dv(const V& v) { return VectorXd(v.template cast<double>()); }
    void settings(const MpcSet& s) override { auto& q = m.settings(); q.max_iter = s.max_iter; q.line_search_max_iter = s.ls_max; q.eps_prim = q.eps_dual = S(s.eps); auto& w = m.qp_settings(); w.max_iter = s.qp_max; w.check_termination = s.qp_check; w.eps_abs = w.eps_rel = S(s.qp_eps); }
    template<bool G> typename std::enable_if<G>::type gset(int id, const VectorXd& a, const VectorXd& b) { if (id == ST_GTRAJB) m.constraints_trajectory_bounds(cv<typename M::constraints_t>(a), cv<typename M::constraints_t>(b)); else m.constraints_bounds(cv<typename M::constraint_t>(a), cv<typename M::constraint_t>(b)); }
    template<bool G> typename std::enable_if<!G>::type gset(int, const VectorXd&, const VectorXd&) {}
    template<bool G> typename std::enable_if<G>::type pset(int id, const VectorXd& a, const VectorXd& b) { using V = typename M::parameter_t; if (id == ST_PB) m.parameters_bounds(cv<V>(a), cv<V>(b)); else m.p_guess(cv<V>(a)); }
    template<bool G> typename std::enable_if<!G>::type pset(int, const VectorXd&, const VectorXd&) {}
    void set(int id, const VectorXd& a, const VectorXd& b) override { using X = typename M::state_t; using U = typename M::control_t; using TX = typename M::traj_state_t; using TU = typename M::traj_control_t;
        LibScope L; switch (id) {
        case ST_X0: m.initial_conditions(cv<X>(a)); break; case ST_X0B: m.initial_conditions(cv<X>(a), cv<X>(b)); break;
        case ST_XLB: m.x_lower_bound(cv<X>(a)); break; case ST_XUB: m.x_upper_bound(cv<X>(a)); break; case ST_XB: m.state_bounds(cv<X>(a), cv<X>(b)); break; case ST_XTRAJB: m.state_trajectory_bounds(cv<TX>(a), cv<TX>(b)); break;
        case ST_XFLB: m.x_final_lower_bound(cv<X>(a)); break; case ST_XFUB: m.x_final_upper_bound(cv<X>(a)); break; case ST_XFB: m.final_state_bounds(cv<X>(a), cv<X>(b)); break;
        case ST_ULB: m.u_lower_bound(cv<U>(a)); break; case ST_UUB: m.u_upper_bound(cv<U>(a)); break; case ST_UTRAJB: m.control_trajecotry_bounds(cv<TU>(a), cv<TU>(b)); break; case ST_UB: m.control_bounds(cv<U>(a), cv<U>(b)); break;
        case ST_GTRAJB: case ST_GB: gset<(NG > 0)>(id, a, b); break; case ST_PB: case ST_PG: pset<(NP > 0)>(id, a, b); break;
        case ST_D: m.set_static_parameters(cv<typename M::static_param>(a)); break; case ST_XG: m.x_guess(cv<TX>(a)); break; case ST_UG: m.u_guess(cv<TU>(a)); break; case ST_LG: m.lam_guess(cv<typename M::dual_var_t>(a)); break;
        case ST_TIME: m.set_time_limits(S(a(0)), S(b(0))); break; } }
    MpcOut solve() override { { LibScope L; m.solve(); } return peek(); }
    MpcOut peek() const override { MpcOut o; o.status = m.info().status.value; o.iter = m.info().iter; o.qp_iter = m.info().qp_solver_iter; o.viol = m.constr_violation(); o.cost = m.cost(); o.pn = m.primal_norm(); o.dn = m.dual_norm(); o.x = dv(m.solver().primal_solution()); o.lam = dv(m.solver().dual_solution()); return o; }
    MpcState state() const override { MpcState s; auto& q = m.solver(); s.lbx = dv(q.lower_bound_x()); s.ubx = dv(q.upper_bound_x()); s.lbg = dv(q.lower_bound_g()); s.ubg = dv(q.upper_bound_g()); s.d = dv(q.parameters()); s.x = dv(q.primal_solution()); s.lam = dv(q.dual_solution()); s.times = dv(m.ocp().time_nodes); s.t0 = m.ocp().t_start; s.tf = m.ocp().t_stop; return s; }
    template<bool G> typename std::enable_if<G, VectorXd>::type solp() const { return dv(m.solution_p()); } template<bool G> typename std::enable_if<!G, VectorXd>::type solp() const { return VectorXd(0); }
    MpcView view() const override { MpcView v; v.x = dv(m.solution_x()); v.u = dv(m.solution_u()); v.p = solp<(NP > 0)>(); v.dual = dv(m.solution_dual()); v.X = m.solution_x_reshaped().template cast<double>(); v.U = m.solution_u_reshaped().template cast<double>(); return v; }
    template<class T> static void put(std::vector<double>& v, const T& a) { for (int j = 0; j < int(a.cols()); ++j) for (int i = 0; i < int(a.rows()); ++i) v.push_back(double(a(i, j))); }
    void held(const std::function<void()>& f, std::vector<double>& v) const override { auto&& a = m.solution_x(); auto&& b = m.solution_u(); auto&& c = m.solution_dual(); auto&& d = m.solution_x_reshaped(); auto&& e = m.solution_u_reshaped(); auto&& xk = m.solution_x_at(0); auto&& uk = m.solution_u_at(0); S t = m.ocp().t_start; auto&& xt = m.solution_x_at(t); auto&& ut = m.solution_u_at(t); auto& q = m.solver(); auto&& p = q.primal_solution(); auto&& y = q.dual_solution(); auto&& s = q.parameters(); auto&& lx = q.lower_bound_x(); auto&& ux = q.upper_bound_x(); auto&& lg = q.lower_bound_g(); auto&& ug = q.upper_bound_g(); auto&& in = m.info(); auto&& viol = m.constr_violation(); auto&& cost = m.cost();
        f(); put(v, a); put(v, b); put(v, c); put(v, d); put(v, e); put(v, xk); put(v, uk); put(v, xt); put(v, ut); put(v, p); put(v, y); put(v, s); put(v, lx); put(v, ux); put(v, lg); put(v, ug); v.push_back(in.iter); v.push_back(in.status.value); v.push_back(viol); v.push_back(cost); }
    VectorXd x_at(int k) const override { return dv(m.solution_x_at(k)); } VectorXd u_at(int k) const override { return dv(m.solution_u_at(k)); }
    VectorXd x_at(double t) const override { auto v = [&] { LibScope L; return m.solution_x_at(S(t)); }(); return dv(v); } VectorXd u_at(double t) const override { auto v = [&] { LibScope L; return m.solution_u_at(S(t)); }(); return dv(v); }
    template<class T> static typename std::enable_if<std::is_copy_constructible<T>::value, std::unique_ptr<IMpc>>::type cp(const T& t) { return std::unique_ptr<IMpc>(new W(t)); } template<class T> static typename std::enable_if<!std::is_copy_constructible<T>::value, std::unique_ptr<IMpc>>::type cp(const T&) { return nullptr; }   // sparse factorisations are not copyable
    std::unique_ptr<IMpc> copy() const override { return cp(m); } W() {} explicit W(const M& o) : m(o) {}
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW };
template<class F, class S, int P, int G, int FMT, template<class, class...> class Sol, class... Q> int reg(const char* name, bool spied) { using A = polympc::Spline<polympc::Chebyshev<P, polympc::GAUSS_LOBATTO, S>, G>; using O = MpcOcp<F, S, A, FMT>; using WW = W<MPC<O, Sol, Q...>, O>;
    MpcCfg c; c.name = name; c.q = MpcDim{F::NX, F::NU, F::NP, F::ND, F::NG, P, G, sizeof(S) == 4}; c.kind = F::KIND; c.spied = spied; c.sparse = FMT == SPARSE; c.make = [] { return std::unique_ptr<IMpc>(new WW); }; c.place = [](void* m) -> IMpc* { return new (m) WW; }; c.size = sizeof(WW);
    c.dyn = [](const LD* x, const LD* u, const LD* p, const LD* d, LD, LD* o) { F::template dyn<LD>(x, u, p, d, o); }; c.ineq = [](const LD* x, const LD* u, const LD* p, const LD* d, LD, LD* o) { F::template ineq<LD>(x, u, p, d, o); }; mpc_cfgs().push_back(c); return 0; }
#define NVAR(F, P, G) ((F::NX + F::NU) * (P * G + 1) + F::NP)
#define NCON(F, P, G) ((F::NX + F::NG) * (P * G + 1))
#if PART == 0
static int r0 = reg<FDint, double, 3, 2, DENSE, SolD, boxADMM<NVAR(FDint, 3, 2), NCON(FDint, 3, 2), double, DENSE, SpyLDLT, Lower>>("dint-dense", true);
#elif PART == 1
static int r1 = reg<FPend, double, 4, 2, SPARSE, SolS, boxADMM<NVAR(FPend, 4, 2), NCON(FPend, 4, 2), double, SPARSE, SpySLDLT, Lower>>("pend-sparse", true);
#elif PART == 2
static int r2 = reg<FPar, double, 5, 1, DENSE, SolD, boxADMM<NVAR(FPar, 5, 1), NCON(FPar, 5, 1), double, DENSE, SpyLDLT, Lower>, polympc::RuizEquilibration<double, NVAR(FPar, 5, 1), NCON(FPar, 5, 1)>>("par-dense-ruiz", true);
#elif PART == 3
static int r3 = reg<FRobot, double, 3, 2, SPARSE, SolS, boxADMM<NVAR(FRobot, 3, 2), NCON(FRobot, 3, 2), double, SPARSE, SpySLDLT, Lower>, polympc::RuizEquilibration<double, NVAR(FRobot, 3, 2), NCON(FRobot, 3, 2), SPARSE>>("robot-sparse-ruiz", true);
#elif PART == 4
static int r4 = reg<FDint, float, 4, 1, DENSE, SolD, boxADMM<NVAR(FDint, 4, 1), NCON(FDint, 4, 1), float, DENSE, SpyLDLT, Lower>>("dint-float", true);
#elif PART == 5
static int r5 = reg<FPend, double, 3, 3, DENSE, SolD, ADMM<NVAR(FPend, 3, 3), NCON(FPend, 3, 3), double>>("pend-dense-admm", false);
#elif PART == 6
static int r6 = reg<FPar, double, 3, 2, SPARSE, SolS, boxADMM<NVAR(FPar, 3, 2), NCON(FPar, 3, 2), double, SPARSE, SpySLDLT, Lower>>("par-sparse", true);
#elif PART == 7
static int r7 = reg<FPath, double, 3, 2, SPARSE, SolS, boxADMM<NVAR(FPath, 3, 2), NCON(FPath, 3, 2), double, SPARSE, SpySLDLT, Lower>>("path-sparse", true);
#endif
