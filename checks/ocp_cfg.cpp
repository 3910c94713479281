// Instantiates the real transcription (src/control/continuous_ocp.hpp with the real polynomials) for a set of problem
// shapes, each dense and sparse. Compiled once per PART.
#include "ocp_fam.hpp"
#include "polynomials/ebyshev.hpp"
#include "polynomials/splines.hpp"
#include "control/continuous_ocp.hpp"
using namespace Eigen; using polympc::Chebyshev; using polympc::Spline;
template<int X, int U, int P_, int D_, int G> struct Dm { enum { NX = X, NU = U, NP = P_, ND = D_, NG = G }; };
template<class S, class D, class A, int F> class OcpFull; template<class S, class D, class A, int F> class OcpMay; template<class S, class D, class A, int F> class OcpLag;
#define TRAITS(C) template<class S, class D, class A, int F> struct polympc_traits<C<S, D, A, F>> { using Scalar = S; enum { NX = D::NX, NU = D::NU, NP = D::NP, ND = D::ND, NG = D::NG }; };
TRAITS(OcpFull) TRAITS(OcpMay) TRAITS(OcpLag)
static double val(double t) { return t; } static double val(float t) { return t; } template<class D> double val(const AutoDiffScalar<D>& t) { return val(t.value()); }
template<class T, class V> void poison(int h, const V& x, T& o) { if (h == 3) o = o + T(std::numeric_limits<double>::infinity()); else if (h) o = o + x(0) * T(std::numeric_limits<double>::quiet_NaN()); }
#define HEAD(C) public: using B = ContinuousOCP<C<S, D, A, F>, A, F>; using scalar_t = S; enum { NX = D::NX, NU = D::NU, NP = D::NP, ND = D::ND, NG = D::NG }; template<class T> using st = typename B::template state_t<T>; template<class T> using ct = typename B::template control_t<T>; template<class T> using pt = typename B::template parameter_t<T>; template<class T> using gt = typename B::template constraint_t<T>; using sp = typename B::static_parameter_t; OcpCoef k; \
    template<typename T> void dynamics_impl(const Ref<const st<T>> x, const Ref<const ct<T>> u, const Ref<const pt<T>> p, const Ref<const sp>& d, const T& t, Ref<st<T>> xdot) const noexcept { int h = ocp_cb(CB_DYN, val(t)); fam_dyn<T>(k.a, NX, NU, NP, ND, x, u, p, d, t, xdot); if (h) poison<T>(h, x, xdot(0)); }
#define LAGT template<typename T> void lagrange_term_impl(const Ref<const st<T>> x, const Ref<const ct<T>> u, const Ref<const pt<T>> p, const Ref<const sp> d, const scalar_t& t, T& l) const noexcept { int h = ocp_cb(CB_LAG, t); l = fam_lag<T>(k.a + 16, NX, NU, NP, ND, x, u, p, d, t); if (h) poison<T>(h, x, l); }
#define MAYT template<typename T> void mayer_term_impl(const Ref<const st<T>> x, const Ref<const ct<T>> u, const Ref<const pt<T>> p, const Ref<const sp> d, const scalar_t& t, T& m) const noexcept { int h = ocp_cb(CB_MAY, t); m = fam_may<T>(k.a + 32, NX, NU, NP, ND, x, u, p, d, t); if (h) poison<T>(h, x, m); }
#define INEQT template<typename T> void inequality_constraints_impl(const Ref<const st<T>> x, const Ref<const ct<T>> u, const Ref<const pt<T>> p, const Ref<const sp> d, const scalar_t& t, Ref<gt<T>> g) const noexcept { int h = NG ? ocp_cb(CB_INEQ, t) : 0; fam_ineq<T>(k.a + 48, NX, NU, NP, ND, NG, x, u, p, d, t, g); if (h && NG) poison<T>(h, x, g(0)); }
template<class S, class D, class A, int F> class OcpFull : public ContinuousOCP<OcpFull<S, D, A, F>, A, F> { HEAD(OcpFull) LAGT MAYT INEQT };
template<class S, class D, class A, int F> class OcpMay : public ContinuousOCP<OcpMay<S, D, A, F>, A, F> { HEAD(OcpMay) MAYT };
template<class S, class D, class A, int F> class OcpLag : public ContinuousOCP<OcpLag<S, D, A, F>, A, F> { HEAD(OcpLag) LAGT };

template<class O> struct W : IOcp { O o; using S = typename O::B::scalar_t; using var = typename O::B::nlp_variable_t; using con = typename O::B::nlp_constraints_t; using dual = typename O::B::nlp_dual_t; using eqv = typename O::B::nlp_eq_constraints_t; using inv = typename O::B::nlp_ineq_constraints_t; using sp = typename O::B::static_parameter_t;
    typename O::B::nlp_eq_jacobian_t Je; typename O::B::nlp_ineq_jacobian_t Ji; typename O::B::nlp_jacobian_t J; typename O::B::nlp_hessian_t H;
    enum { NV = O::B::VAR_SIZE, NE = O::B::NUM_EQ, NI = O::B::NUM_INEQ, SPR = O::B::is_sparse };
    W() { drop(); }
    void coef(const OcpCoef& k) override { o.k = k; } void horizon(double a, double b) override { o.set_time_limits(S(a), S(b)); }
    VectorXd times() const override { return o.time_nodes.template cast<double>(); } double t0() const override { return o.t_start; } double tf() const override { return o.t_stop; }
    template<class M> static void size(M& m, int r, int c) { m = M(); m.resize(r, c); }
    template<int R, int C, int Q> static void poke(Matrix<S, R, C, Q>& m) { m.setConstant(S(0.77)); } static void poke(SparseMatrix<S>&) {}
    void drop() override { size(Je, NE, NV); size(Ji, NI, NV); size(J, NE + NI, NV); size(H, NV, NV); poke(Je); poke(Ji); poke(J); poke(H); }
    template<class M> static MatrixXd dn(const M& m) { return MatrixXd(m.template cast<double>()); }
    OcpOut call(int m, const VectorXd& v, const VectorXd& d, const VectorXd& l, double sc) override { OcpOut r; var x(NV); for (int i = 0; i < NV; ++i) x(i) = S(v(i)); sp p; for (int i = 0; i < int(O::ND); ++i) p(i) = S(d(i)); dual lam; lam.resize(int(O::B::DUAL_SIZE)); for (int i = 0; i < int(O::B::DUAL_SIZE); ++i) lam(i) = S(l(i));
        eqv c(NE); inv g(NI); con cg(NE + NI); var gr(NV), lg(NV); S cost = S(3.3); c.setConstant(S(0.5)); g.setConstant(S(0.5)); cg.setConstant(S(0.5)); gr.setConstant(S(0.5)); lg.setConstant(S(0.5));
        auto setcg = [&] { VectorXd t = cg.template cast<double>(); r.c = t.head(NE); r.g = t.tail(NI); }; auto setJ = [&] { MatrixXd t = dn(J); r.Jc = t.topRows(NE); r.Jg = t.bottomRows(NI); r.nnz = nn(J); }; auto setc = [&] { r.cost = cost; r.has_cost = true; };
        switch (m) {
        case OM_EQ: o.equalities(x, p, c); r.c = c.template cast<double>(); break;
        case OM_INEQ: if (NI) { o.inequalities(x, p, g); r.g = g.template cast<double>(); } break;
        case OM_CON: o.constraints(x, p, cg); setcg(); break;
        case OM_EQLIN: o.equalities_linearised(x, p, c, Je); r.c = c.template cast<double>(); r.Jc = dn(Je); r.nnz = nn(Je); break;
        case OM_INEQLIN: if (NI) { o.inequalities_linearised(x, p, g, Ji); r.g = g.template cast<double>(); r.Jg = dn(Ji); r.nnz = nn(Ji); } break;
        case OM_CONLIN: o.constraints_linearised(x, p, cg, J); setcg(); setJ(); break;
        case OM_COST: o.cost(x, p, cost); setc(); break;
        case OM_GRAD: o.cost_gradient(x, p, cost, gr); setc(); r.grad = gr.template cast<double>(); break;
        case OM_HESS: o.cost_gradient_hessian(x, p, cost, gr, H); setc(); r.grad = gr.template cast<double>(); r.H = dn(H); r.nnz = nn(H); break;
        case OM_LAG: o.lagrangian(x, p, lam, cost, cg); r.cost = cost; r.has_cost = true; setcg(); break;
        case OM_LGRAD: o.lagrangian_gradient(x, p, lam, cost, lg, gr, cg, J); r.grad = gr.template cast<double>(); r.lgrad = lg.template cast<double>(); setcg(); setJ(); break;
        case OM_LHESS: o.lagrangian_gradient_hessian(x, p, lam, cost, lg, H, gr, cg, J); r.grad = gr.template cast<double>(); r.lgrad = lg.template cast<double>(); r.H = dn(H); setcg(); setJ(); break;
        case OM_LHESS_SCALED: o.lagrangian_gradient_hessian(x, p, lam, cost, lg, H, gr, cg, J, S(sc)); r.grad = gr.template cast<double>(); r.lgrad = lg.template cast<double>(); r.H = dn(H); setcg(); setJ(); break; }
        return r; }
    template<int R, int C, int Q> static long nn(const Matrix<S, R, C, Q>&) { return 0; } static long nn(const SparseMatrix<S>& m) { return m.nonZeros(); }
    template<int R, int C, int Q> bool upd(Matrix<S, R, C, Q>&, const MatrixXd&, const VectorXd&, const VectorXd&, MatrixXd&, MatrixXd&, MatrixXd&) { return false; }
    bool upd(SparseMatrix<S>& M, const MatrixXd& base, const VectorXd& s, const VectorXd& y, MatrixXd& H0, MatrixXd& H1, MatrixXd& mask) { SparseMatrix<S> Q = M; mask = MatrixXd::Zero(NV, NV); for (int k = 0; k < Q.outerSize(); ++k) for (typename SparseMatrix<S>::InnerIterator it(Q, k); it; ++it) { it.valueRef() = S(base(it.row(), it.col())); mask(it.row(), it.col()) = 1; }
        H0 = dn(Q); var sv(NV), yv(NV); for (int i = 0; i < NV; ++i) { sv(i) = S(s(i)); yv(i) = S(y(i)); } long n0 = Q.nonZeros(); o.hessian_update_impl(Q, sv, yv); H1 = dn(Q); return Q.nonZeros() == n0; }
    bool hess_update(const MatrixXd& base, const VectorXd& s, const VectorXd& y, MatrixXd& H0, MatrixXd& H1, MatrixXd& mask) override { return upd(H, base, s, y, H0, H1, mask); }
    std::unique_ptr<IOcp> copy() const override { return std::unique_ptr<IOcp>(new W(*this)); } };
template<template<class, class, class, int> class C, class S, class D, class A> int reg(const char* n, int variant) { OcpDim q{D::NX, D::NU, D::NP, D::ND, D::NG, A::POLY_ORDER, A::NUM_SEGMENTS, sizeof(S) == 4, variant};
    ocp_cfgs().push_back({n, q, [] { return std::unique_ptr<IOcp>(new W<C<S, D, A, DENSE>>); }, [] { return std::unique_ptr<IOcp>(new W<C<S, D, A, SPARSE>>); }}); return 0; }
template<int P, int N, class S = double> using Ch = Spline<Chebyshev<P, polympc::GAUSS_LOBATTO, S>, N>;
#define R1(...) static int r1 = reg<__VA_ARGS__>
#define R2(...) static int r2 = reg<__VA_ARGS__>
#if PART == 0
R1(OcpFull, double, Dm<2, 1, 0, 0, 0>, Ch<5, 1>)("ch5x1-2.1.0", OV_FULL);
#elif PART == 1
R1(OcpFull, double, Dm<2, 1, 1, 1, 1>, Ch<3, 2>)("ch3x2-2.1.1", OV_FULL);
#elif PART == 2
R1(OcpFull, double, Dm<3, 2, 2, 2, 2>, Ch<4, 3>)("ch4x3-3.2.2", OV_FULL);
#elif PART == 3
R1(OcpFull, double, Dm<2, 3, 2, 0, 3>, Ch<3, 2>)("ch3x2-2.3.2", OV_FULL);
#elif PART == 4
R1(OcpFull, double, Dm<2, 2, 0, 1, 1>, Ch<6, 2>)("ch6x2-2.2.0", OV_FULL);
#elif PART == 5
R1(OcpMay, double, Dm<3, 1, 1, 0, 0>, Ch<3, 2>)("mayer-ch3x2-3.1.1", OV_MAYER);
R2(OcpLag, double, Dm<1, 1, 1, 1, 0>, Ch<2, 3>)("lagrange-ch2x3-1.1.1", OV_LAG);
#elif PART == 6
R1(OcpFull, float, Dm<2, 1, 1, 1, 1>, Ch<3, 2, float>)("float-ch3x2-2.1.1", OV_FULL);
#elif PART == 7
R1(OcpFull, double, Dm<1, 1, 3, 1, 2>, Ch<2, 4>)("ch2x4-1.1.3", OV_FULL);
#elif PART == 8
R1(OcpFull, double, Dm<4, 2, 1, 1, 1>, Ch<3, 8>)("dynamic-ch3x8-4.2.1", OV_FULL);
#endif
