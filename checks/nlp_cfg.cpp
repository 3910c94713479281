// Instantiates the real SQP solver (src/solvers/sqp_base.hpp, nlproblem.hpp, bfgs.hpp, sr1.hpp, line_search.hpp,
// qp_preconditioners.hpp and the ADMM solvers) for a set of problems and variants. Compiled once per PART.
#include "nlp_world.hpp"
#include "solvers/nlproblem.hpp"
#include "solvers/sqp_base.hpp"
#include "solvers/sr1.hpp"
#include "solvers/line_search.hpp"
#include "ls_solvers.hpp"
using namespace Eigen;

// ---- independent forward-mode differentiation in extended precision (oracle side) ----
struct Du { LD v; LD d[6]; Du(LD x = 0) : v(x) { for (auto& q : d) q = 0; } };
static Du bin(LD v, const Du& a, LD ca, const Du& b, LD cb) { Du r(v); for (int i = 0; i < 6; ++i) r.d[i] = ca * a.d[i] + cb * b.d[i]; return r; }
static Du operator+(const Du& a, const Du& b) { return bin(a.v + b.v, a, 1, b, 1); }
static Du operator-(const Du& a, const Du& b) { return bin(a.v - b.v, a, 1, b, -1); }
static Du operator*(const Du& a, const Du& b) { return bin(a.v * b.v, a, b.v, b, a.v); }
static Du exp(const Du& a) { LD e = expl(a.v); return bin(e, a, e, a, 0); }
static Du sin(const Du& a) { return bin(sinl(a.v), a, cosl(a.v), a, 0); }

// ---- problem formulas, evaluated by the library (its scalar, AD and second-order AD types) and by the oracle ----
struct FConvex { enum { N = 4, NE = 1, NI = 2, NP = 10, KIND = NK_CONVEX, COST = 1 };
    template<class T, class X, class P> static T cost(const X& x, const P& p) { T c = T(p(9)) * (x(0) - x(1)) * (x(0) - x(1)); for (int i = 0; i < 4; ++i) { T e = x(i) - T(p(i)); T q = x(i) * x(i); c = c + T(1.0 + 0.5 * i) * e * e + T(0.1) * q * q; } return c; }
    template<class T, class X, class P> static T eq(const X& x, const P& p, int) { T c = T(-p(8)); for (int i = 0; i < 4; ++i) c = c + T(p(4 + i)) * x(i); return c; }
    template<class T, class X, class P> static T ineq(const X& x, const P&, int k) { if (k == 0) return T(x(0) * x(0) + x(1) * x(1) + T(0.5) * x(2) * x(2)); T h = T(0.5) * x(3); return T(exp(h) + x(2)); } };
struct FNonconvex { enum { N = 3, NE = 1, NI = 1, NP = 6, KIND = NK_NONCONVEX, COST = 1 };
    template<class T, class X, class P> static T cost(const X& x, const P& p) { T a = T(p(0)) - x(0), b = x(1) - x(0) * x(0), s = T(p(2)) * x(2), e = x(2) - T(p(3)); return T(a * a + T(p(1)) * b * b + T(0.5) * sin(s) + T(0.1) * e * e); }
    template<class T, class X, class P> static T eq(const X& x, const P& p, int) { return T(x(0) * x(0) + x(1) * x(1) + T(0.1) * x(2) - T(p(4))); }
    template<class T, class X, class P> static T ineq(const X& x, const P& p, int) { return T(x(0) * x(1) + T(p(5)) * x(2)); } };
struct FBox { enum { N = 3, NE = 0, NI = 0, NP = 4, KIND = NK_BOX, COST = 1 };
    template<class T, class X, class P> static T cost(const X& x, const P& p) { T h = T(0.3) * x(0), q = x(1) * x(1); T c = T(p(3)) * exp(h) + T(0.1) * q * q; for (int i = 0; i < 3; ++i) { T e = x(i) - T(p(i)); c = c + T(1.0 + i) * e * e; } T m = x(1) - x(2); return T(c + T(0.5) * m * m); }
    template<class T, class X, class P> static T eq(const X&, const P&, int) { return T(0); }
    template<class T, class X, class P> static T ineq(const X&, const P&, int) { return T(0); } };
struct FIneq { enum { N = 2, NE = 0, NI = 2, NP = 4, KIND = NK_INEQ, COST = 1 };
    template<class T, class X, class P> static T cost(const X& x, const P& p) { T a = x(0) - T(p(0)), b = x(1) - T(p(1)); return T(a * a + T(p(2)) * b * b + T(0.3) * a * b); }
    template<class T, class X, class P> static T eq(const X&, const P&, int) { return T(0); }
    template<class T, class X, class P> static T ineq(const X& x, const P& p, int k) { if (k == 0) return T(x(0) * x(0) + T(p(3)) * x(1) * x(1)); return T(x(0) + T(2.0) * x(1)); } };
struct FFeas { enum { N = 3, NE = 1, NI = 1, NP = 3, KIND = NK_FEAS, COST = 0 };   // find a feasible point: no cost callback at all
    template<class T, class X, class P> static T cost(const X&, const P&) { return T(0); }
    template<class T, class X, class P> static T eq(const X& x, const P& p, int) { return T(x(0) * x(0) + T(p(0)) * x(1) + x(2) - T(p(1))); }
    template<class T, class X, class P> static T ineq(const X& x, const P& p, int) { return T(x(0) + T(p(2)) * x(2)); } };

template<class F, class S> class Nlp;
template<class F, class S> struct nlp_traits<Nlp<F, S>> { using Scalar = S; enum { NX = F::N, NE = F::NE, NI = F::NI, NP = F::NP }; };
#define NLP_BODY_CON \
    template<typename T> void equality_constraints_impl(const Ref<const variable_t<T>>& x, const Ref<const static_parameter_t>& p, Ref<eq_t<T>> c) const noexcept { int h = F::NE ? cb_point(1) : 0; for (int i = 0; i < F::NE; ++i) { c(i) = F::template eq<T>(x, p, i); if (i == 0) cb_poison(h, x, c(i)); } } \
    template<typename T> void inequality_constraints_impl(const Ref<const variable_t<T>>& x, const Ref<const static_parameter_t>& p, Ref<ineq_t<T>> c) const noexcept { int h = F::NI ? cb_point(2) : 0; for (int i = 0; i < F::NI; ++i) { c(i) = F::template ineq<T>(x, p, i); if (i == 0) cb_poison(h, x, c(i)); } }
template<class F, class S, bool COST> struct NlpCostPart;
template<class F, class S> class Nlp : public ProblemBase<Nlp<F, S>> { public: using B = ProblemBase<Nlp<F, S>>; using static_parameter_t = typename B::static_parameter_t;
    template<class T> using variable_t = typename B::template variable_t<T>; template<class T> using eq_t = typename B::template eq_constraint_t<T>; template<class T> using ineq_t = typename B::template ineq_constraint_t<T>;
    template<typename T> void cost_impl(const Ref<const variable_t<T>>& x, const Ref<const static_parameter_t>& p, T& cost) const noexcept { int h = cb_point(0); cost = F::template cost<T>(x, p); cb_poison(h, x, cost); }
    NLP_BODY_CON };
template<class S> class Nlp<FFeas, S> : public ProblemBase<Nlp<FFeas, S>> { public: using F = FFeas; using B = ProblemBase<Nlp<FFeas, S>>; using static_parameter_t = typename B::static_parameter_t;
    template<class T> using variable_t = typename B::template variable_t<T>; template<class T> using eq_t = typename B::template eq_constraint_t<T>; template<class T> using ineq_t = typename B::template ineq_constraint_t<T>;
    NLP_BODY_CON };

enum { H_BFGS = 0, H_EXACT = 1, H_SR1 = 2 };
template<class P, class QP, class PC, int HM, bool FILT> class Sqp : public SQPBase<Sqp<P, QP, PC, HM, FILT>, P, QP, PC> { public:
    using B = SQPBase<Sqp<P, QP, PC, HM, FILT>, P, QP, PC>; using S = typename B::scalar_t; using var = typename B::nlp_variable_t; using hess = typename B::nlp_hessian_t; using dual = typename B::nlp_dual_t; using par = typename B::parameter_t; using jac = typename B::nlp_jacobian_t; using con = typename B::nlp_constraints_t;
    LSFilter<S> filter;
    // user-supplied regularisation: eigenvalue clamping
    void hessian_regularisation_dense_impl(Ref<hess> H) noexcept { UserScope U; MatrixXd h = H.template cast<double>(); if (nlp_regularise(h)) H = h.cast<S>(); }
    void hessian_update_impl(Ref<hess> H, const Ref<const var>& s, const Ref<const var>& y) noexcept { if (g_yield) g_yield(3);
        if (HM == H_SR1) { SR1_update(H, s, y); hessian_regularisation_dense_impl(H); return; }
        MatrixXd H0; VectorXd sy; { UserScope U; H0 = H.template cast<double>(); sy.resize(2 * s.size()); sy << s.template cast<double>(), y.template cast<double>(); } BFGS_update(H, s, y); { UserScope U; nlp_observe_update(H0, H.template cast<double>(), sy, sizeof(S) == 4); } }
    void update_linearisation_dense_impl(const Ref<const var>& x, const Ref<const par>& p, const Ref<const var>& s, const Ref<const dual>& lam, Ref<var> g, Ref<hess> H, Ref<jac> A, Ref<con> b) noexcept {
        if (HM == H_EXACT) this->linearisation_dense_impl(x, p, lam, g, H, A, b); else B::update_linearisation_dense_impl(x, p, s, lam, g, H, A, b); }
    S step_size_selection_impl(const Ref<const var>& p) noexcept { S a = select(p); g_ho.alpha = a; g_ho.hscale = double(this->m_H.cwiseAbs().maxCoeff()); g_ho.qp_ok = this->m_qp_solver.info().status == status_t::SOLVED; return a; }
    S select(const Ref<const var>& p) noexcept { if (!FILT) return B::step_size_selection_impl(p);
        S tau = this->m_settings.tau, c1 = this->constraints_violation(this->m_x), f1; this->problem.cost(this->m_x, this->m_p, f1); if (filter.is_acceptable(f1, c1)) filter.add(f1, c1);
        S a = 1, f; var xs; for (int i = 1; i < this->m_settings.line_search_max_iter; ++i) { xs = this->m_x + a * p; this->problem.cost(xs, this->m_p, f); S c = this->constraints_violation(xs); this->m_cost = f; if (filter.is_acceptable(f, c)) { filter.add(f, c); return a; } a *= tau; } return a; } };

template<class F, class S, class SV, bool FILT> struct W : INlp { SV s; using var = typename SV::nlp_variable_t; using dual = typename SV::nlp_dual_t;
    void set(const NlpSet& t) override { auto& q = s.settings(); q.max_iter = t.max_iter; q.line_search_max_iter = t.ls_max; q.eps_prim = q.eps_dual = S(t.eps); q.tau = S(t.tau); q.eta = S(t.eta); auto& w = s.m_qp_solver.settings(); w.max_iter = t.qp_max; w.check_termination = t.qp_check; w.eps_abs = w.eps_rel = S(t.qp_eps); w.adaptive_rho = t.qp_adaptive; }
    template<class V> static void put(V& v, const VectorXd& d) { for (int i = 0; i < int(v.size()); ++i) v(i) = S(d(i)); }
    void data(const VectorXd& p, const NlpBounds& b) override { put(s.parameters(), p); put(s.lower_bound_x(), b.lbx); put(s.upper_bound_x(), b.ubx); put(s.lower_bound_g(), b.lbg); put(s.upper_bound_g(), b.ubg); }
    NlpOut solve(const VectorXd* xg, const VectorXd* lg) override { if (FILT) s.filter.clear(); if (xg) { var x = xg->cast<S>(); dual l = lg->cast<S>(); LibScope L; s.solve(x, l); } else { LibScope L; s.solve(); }
        return peek(); }
    template<class T> static void out(std::vector<double>& v, const T& a) { for (int i = 0; i < int(a.size()); ++i) v.push_back(double(a(i))); }
    void held(const std::function<void()>& f, std::vector<double>& v) const override { auto&& x = s.primal_solution(); auto&& y = s.dual_solution(); auto&& p = s.parameters(); auto&& lx = s.lower_bound_x(); auto&& ux = s.upper_bound_x(); auto&& lg = s.lower_bound_g(); auto&& ug = s.upper_bound_g(); auto&& in = s.info(); auto&& st = s.settings(); auto&& viol = s.constr_violation(); auto&& cost = s.cost(); auto&& pn = s.primal_norm(); auto&& dn = s.dual_norm();
        f(); out(v, x); out(v, y); out(v, p); out(v, lx); out(v, ux); out(v, lg); out(v, ug); v.push_back(in.iter); v.push_back(in.qp_solver_iter); v.push_back(in.status.value); v.push_back(st.max_iter); v.push_back(double(st.eps_prim)); v.push_back(viol); v.push_back(cost); v.push_back(pn); v.push_back(dn); }
    NlpOut peek() const override {
        NlpOut o; o.status = s.info().status.value; o.iter = s.info().iter; o.qp_iter = s.info().qp_solver_iter; o.pn = s.primal_norm(); o.dn = s.dual_norm(); o.viol = s.constr_violation(); o.cost = s.cost(); o.x = s.primal_solution().template cast<double>(); o.lam = s.dual_solution().template cast<double>(); return o; }
    std::unique_ptr<INlp> copy() const override { return std::unique_ptr<INlp>(new W(*this)); }
    size_t bytes() const override { return sizeof(W); } };
template<class F> NlpEval evalf(const VectorXd& x, const VectorXd& p) { NlpEval e; Matrix<Du, F::N, 1> X; Matrix<LD, F::NP, 1> P; for (int i = 0; i < F::N; ++i) { X(i) = Du(x(i)); X(i).d[i] = 1; } for (int i = 0; i < F::NP; ++i) P(i) = p(i);
    Du c = F::template cost<Du>(X, P); e.cost = c.v; e.grad.resize(F::N); e.c.resize(F::NE); e.g.resize(F::NI); e.Jc.resize(F::NE, F::N); e.Jg.resize(F::NI, F::N);
    for (int i = 0; i < F::N; ++i) e.grad(i) = c.d[i]; for (int k = 0; k < F::NE; ++k) { Du d = F::template eq<Du>(X, P, k); e.c(k) = d.v; for (int i = 0; i < F::N; ++i) e.Jc(k, i) = d.d[i]; }
    for (int k = 0; k < F::NI; ++k) { Du d = F::template ineq<Du>(X, P, k); e.g(k) = d.v; for (int i = 0; i < F::N; ++i) e.Jg(k, i) = d.d[i]; } return e; }
template<class F, class S, class QP, class PC, int HM, bool FILT> int reg(const char* name, bool spied, bool ruiz) { using SV = Sqp<Nlp<F, S>, QP, PC, HM, FILT>; using WW = W<F, S, SV, FILT>;
    NlpCfg c{name, F::N, F::NE, F::NI, F::NP, F::KIND, sizeof(S) == 4, spied, HM == H_BFGS, ruiz, FILT, [] { return std::unique_ptr<INlp>(new WW); }, [](void* m) -> INlp* { return new (m) WW; }, sizeof(WW), evalf<F>}; nlp_cfgs().push_back(c); return 0; }
template<class F, class S> using Box = boxADMM<F::N, F::NE + F::NI, S>;
template<class F, class S> using Gen = ADMM<F::N, F::NE + F::NI, S>;
template<class F, class S> using SBox = boxADMM<F::N, F::NE + F::NI, S, DENSE, SpyLDLT, Lower>;
template<class F, class S> using Rz = polympc::RuizEquilibration<S, F::N, F::NE + F::NI>;
using Id = polympc::IdentityPreconditioner;
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define R_(NAME, F, S, QP, PC, HM, FILT, SPY, RZ) static int CAT(r_, __LINE__) = reg<F, S, QP<F, S>, PC, HM, FILT>(NAME, SPY, RZ);
typedef Rz<FConvex, double> RzC; typedef Rz<FNonconvex, double> RzN; typedef Rz<FIneq, double> RzI;
#if PART == 0
R_("convex-bfgs", FConvex, double, SBox, Id, H_BFGS, false, true, false)
R_("convex-admm", FConvex, double, Gen, Id, H_BFGS, false, false, false)
#elif PART == 1
R_("convex-ruiz", FConvex, double, SBox, RzC, H_BFGS, false, true, true)
R_("convex-exact", FConvex, double, Box, Id, H_EXACT, false, false, false)
#elif PART == 2
R_("convex-float", FConvex, float, SBox, Id, H_BFGS, false, true, false)
R_("convex-filter", FConvex, double, SBox, Id, H_BFGS, true, true, false)
#elif PART == 3
R_("nonconvex-bfgs", FNonconvex, double, SBox, Id, H_BFGS, false, true, false)
R_("nonconvex-exact-ruiz", FNonconvex, double, SBox, RzN, H_EXACT, false, true, true)
#elif PART == 4
R_("box-bfgs", FBox, double, SBox, Id, H_BFGS, false, true, false)
R_("ineq-bfgs", FIneq, double, SBox, Id, H_BFGS, false, true, false)
R_("ineq-ruiz-admm", FIneq, double, Gen, RzI, H_BFGS, false, false, true)
#elif PART == 5
R_("feas-bfgs", FFeas, double, SBox, Id, H_BFGS, false, true, false)
R_("nonconvex-sr1", FNonconvex, double, SBox, Id, H_SR1, false, true, false)
#endif
