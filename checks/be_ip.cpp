// B02: what the Ipopt adapter shows an optimiser is the caller's problem, whatever the optimiser asks, in whatever order,
// and what the optimiser answers is what the interface shows. The optimiser is simulated (stubs/IpTNLP.hpp).
#define PART 99
#include "ocp_cfg.cpp"
#include "ocp_common.hpp"
#include "solvers/nlproblem.hpp"
#include "solvers/ipopt_interface.hpp"
namespace Ipopt { Script& script() { static Script s; return s; } }
using namespace sim;
static const double NaN = std::numeric_limits<double>::quiet_NaN();
// generic NLP (HS071-like with coefficients)
template<int NE_, int NI_> class IpN; template<int NE_, int NI_> struct nlp_traits<IpN<NE_, NI_>> { using Scalar = double; enum { NX = 4, NE = NE_, NI = NI_, NP = 1 }; };
template<class T, class X> T n_cost(const double* c, const X& x) { T s = x(0) + x(1) + x(2); T m = x(0) * x(3); T q = T(c[0]) * m * s; T e = x(2) - T(c[1]); T w = T(c[2]) * e * e; return T(q + w + T(c[3]) * x(1)); }
template<class T, class X> T n_con(const double* c, const X& x, int k) { T a = x(0) * x(1), b = x(2) * x(3); T s = T(c[4 + k]) * x(k % 4) * x(k % 4); if (k % 2) { T q = a * b; return T(q + s); } return T(s + T(c[8]) * a + b - T(c[9] * k)); }
template<int NE_, int NI_> class IpN : public ProblemBase<IpN<NE_, NI_>> { public: using B = ProblemBase<IpN<NE_, NI_>>; using sp = typename B::static_parameter_t; OcpCoef k; enum { NE = NE_, NI = NI_ }; template<class T> using vt = typename B::template variable_t<T>; template<class T> using et = typename B::template eq_constraint_t<T>; template<class T> using it = typename B::template ineq_constraint_t<T>;
    template<typename T> void cost_impl(const Ref<const vt<T>>& x, const Ref<const sp>& p, T& c) const noexcept { int h = ocp_cb(CB_LAG, 0); c = n_cost<T>(k.a, x) + T(p(0)) * x(3); if (h) poison<T>(h, x, c); }
    template<typename T> void equality_constraints_impl(const Ref<const vt<T>>& x, const Ref<const sp>&, Ref<et<T>> c) const noexcept { int h = NE ? ocp_cb(CB_DYN, 0) : 0; for (int i = 0; i < NE; ++i) c(i) = n_con<T>(k.a, x, i); if (h && NE) poison<T>(h, x, c(0)); }
    template<typename T> void inequality_constraints_impl(const Ref<const vt<T>>& x, const Ref<const sp>&, Ref<it<T>> c) const noexcept { int h = NI ? ocp_cb(CB_INEQ, 0) : 0; for (int i = 0; i < NI; ++i) c(i) = n_con<T>(k.a, x, NE + i); if (h && NI) poison<T>(h, x, c(0)); } };
// what the adapter has to show, in extended precision
struct IRef { double f; VectorXd grad, g; MatrixXd J, H; };
struct II { virtual ~II() {} int n, m, ne, ni, nd; virtual void coef(const OcpCoef&) = 0; virtual void horizon(double, double) = 0; virtual IRef ref(const VectorXd& x, const VectorXd& d, const VectorXd& lam, double s) = 0; virtual VectorXd &xs(VectorXd&) = 0;
    virtual void put(const char* what, const VectorXd& v) = 0; virtual VectorXd get(const char* what) = 0; virtual void solve() = 0; virtual void solve(const VectorXd&, const VectorXd&) = 0; virtual int status() = 0; virtual int iter() = 0; virtual double num(const char*) = 0; virtual bool own(Ipopt::TNLP*) = 0; };
template<class P> struct IW : II { IpoptInterface<P> s; VectorXd& xs(VectorXd& v) override { return v; }
    IW() { n = P::VAR_SIZE; ne = P::NUM_EQ; ni = P::NUM_INEQ; m = ne + ni; nd = int(s.parameters().size()); }
    void coef(const OcpCoef& k) override { s.get_problem().k = k; }
    void put(const char* w, const VectorXd& v) override { std::string q = w; if (q == "x") s.primal_solution() = v; else if (q == "lam") s.dual_solution() = v; else if (q == "lbx") s.lower_bound_x() = v; else if (q == "ubx") s.upper_bound_x() = v; else if (q == "lbg") s.lower_bound_g() = v; else if (q == "ubg") s.upper_bound_g() = v; else s.parameters() = v; }
    VectorXd get(const char* w) override { std::string q = w; const auto& c = s; if (q == "x") return c.primal_solution(); if (q == "lam") return c.dual_solution(); if (q == "lbx") return c.lower_bound_x(); if (q == "ubx") return c.upper_bound_x(); if (q == "lbg") return c.lower_bound_g(); if (q == "ubg") return c.upper_bound_g(); return c.parameters(); }
    void solve() override { s.solve(); } void solve(const VectorXd& x, const VectorXd& l) override { typename IpoptInterface<P>::nlp_variable_t a = x; typename IpoptInterface<P>::nlp_dual_t b = l; s.solve(a, b); }
    int status() override { return int(s.info().status); } int iter() override { return s.info().iter; } double num(const char* w) override { std::string q = w; return q == "dual" ? s.dual_norm() : q == "viol" ? s.constr_violation() : s.cost(); } bool own(Ipopt::TNLP*) override { return true; } };
template<class P> struct IOc : IW<P> { OcpCoef k; double a = 0, b = 1; OcpDim q; IOc(OcpDim d) : q(d) { a = this->s.get_problem().t_start; b = this->s.get_problem().t_stop; } void coef(const OcpCoef& c) override { k = c; IW<P>::coef(c); } void horizon(double t0, double tf) override { a = t0; b = tf; this->s.get_problem().set_time_limits(t0, tf); }
    IRef ref(const VectorXd& x, const VectorXd& d, const VectorXd& lam, double sc) override { OcpRef r = ocp_ref(q, k, a, b, x, d, lam, sc); IRef o; o.f = double(r.cost); o.grad = r.grad.cast<double>(); o.g.resize(this->m); o.g << r.c.cast<double>(), r.g.cast<double>(); o.J.resize(this->m, this->n); o.J << r.Jc.cast<double>(), r.Jg.cast<double>(); o.H = r.HL.cast<double>(); return o; } };
struct JV4 { Jet a[4]; Jet& operator()(int i) { return a[i]; } const Jet& operator()(int i) const { return a[i]; } };
template<class P> struct INl : IW<P> { OcpCoef k; void coef(const OcpCoef& c) override { k = c; IW<P>::coef(c); } void horizon(double, double) override {}
    IRef ref(const VectorXd& x, const VectorXd& d, const VectorXd& lam, double sc) override { JV4 v; for (int i = 0; i < 4; ++i) { v(i) = Jet(x(i)); v(i).g[i] = 1; } IRef o; Jet c = n_cost<Jet>(k.a, v) + Jet(d(0)) * v(3); o.f = double(c.v); o.grad.resize(4); o.g.resize(this->m); o.J.resize(this->m, 4); o.H.resize(4, 4); for (int i = 0; i < 4; ++i) { o.grad(i) = double(c.g[i]); for (int j = 0; j < 4; ++j) o.H(i, j) = double(sc * c.h[i][j]); } for (int q = 0; q < this->m; ++q) { Jet g = n_con<Jet>(k.a, v, q); o.g(q) = double(g.v); for (int i = 0; i < 4; ++i) { o.J(q, i) = double(g.g[i]); for (int j = 0; j < 4; ++j) o.H(i, j) += double(lam(q) * g.h[i][j]); } } return o; } };
struct ICfg { const char* name; bool sparse; std::function<std::unique_ptr<II>()> make; };
template<template<class, class, class, int> class C, class D, class A, int F> static ICfg oc(const char* n, int variant) { OcpDim q{D::NX, D::NU, D::NP, D::ND, D::NG, A::POLY_ORDER, A::NUM_SEGMENTS, false, variant}; return {n, F == SPARSE, [q] { return std::unique_ptr<II>(new IOc<C<double, D, A, F>>(q)); }}; }
template<int NE_, int NI_> static ICfg nl(const char* n) { return {n, false, [] { return std::unique_ptr<II>(new INl<IpN<NE_, NI_>>); }}; }
static std::vector<ICfg>& cfgs() { static std::vector<ICfg> v{ oc<OcpFull, Dm<2, 1, 0, 1, 0>, Ch<3, 1>, SPARSE>("sparse-ch3x1-2.1.0", OV_FULL), oc<OcpFull, Dm<2, 1, 1, 1, 1>, Ch<3, 2>, SPARSE>("sparse-ch3x2-2.1.1", OV_FULL), oc<OcpFull, Dm<2, 3, 2, 1, 3>, Ch<2, 2>, SPARSE>("sparse-ch2x2-2.3.2", OV_FULL), oc<OcpMay, Dm<3, 1, 1, 1, 0>, Ch<3, 2>, SPARSE>("sparse-mayer-ch3x2-3.1.1", OV_MAYER), oc<OcpLag, Dm<1, 1, 1, 1, 0>, Ch<2, 3>, SPARSE>("sparse-lagrange-ch2x3-1.1.1", OV_LAG),
    oc<OcpFull, Dm<2, 1, 1, 1, 1>, Ch<3, 2>, DENSE>("dense-ch3x2-2.1.1", OV_FULL), oc<OcpFull, Dm<2, 1, 0, 1, 0>, Ch<3, 1>, DENSE>("dense-ch3x1-2.1.0", OV_FULL), nl<1, 1>("nlp-1-1"), nl<2, 0>("nlp-2-0"), nl<0, 2>("nlp-0-2"), nl<0, 0>("nlp-0-0") }; return v; }
static double val(Rng& r) { return std::round(r.uni(-2, 2) * 64) / 64; }
static VectorXd vec(Rng& r, int n) { VectorXd v(n); for (int i = 0; i < n; ++i) v(i) = val(r); return v; }
// buffers are surrounded by canaries and handed over with exactly the promised length
struct Buf { std::vector<double> v; int n; explicit Buf(int k, double fill = NaN) : v(k + 64, -77.125), n(k) { for (int i = 0; i < k; ++i) v[32 + i] = fill; } double* p() { return v.data() + 32; } bool ok() const { for (int i = 0; i < 32; ++i) if (v[i] != -77.125 || v[32 + n + i] != -77.125) return false; return true; } VectorXd get() const { return Eigen::Map<const VectorXd>(v.data() + 32, n); } };
struct IBuf { std::vector<int> v; int n; explicit IBuf(int k) : v(k + 64, -771), n(k) { for (int i = 0; i < k; ++i) v[32 + i] = -555; } int* p() { return v.data() + 32; } bool ok() const { for (int i = 0; i < 32; ++i) if (v[i] != -771 || v[32 + n + i] != -771) return false; return true; } bool full() const { for (int i = 0; i < n; ++i) if (v[32 + i] == -555) return false; return true; } int at(int i) const { return v[32 + i]; } };
enum { E_F, E_GRAD, E_G, E_JAC, E_H, E_JACS, E_HS, E_COUNT };
// op data {seed}; guess {seed}; horizon {t0, tf}; solve {seed, calls, end, guess, fault, at}
static void run_b02(const Plan& p, Ctx& x) {
    const ICfg& c = cfgs()[((p.ops[0].in(0) % int(cfgs().size())) + cfgs().size()) % cfgs().size()]; g_oc.reset(); fflush(stdout); x.log("config %s", c.name); x.sig(p.ops[0].in(0)); auto make = [&] { g_oc.reset(); return c.make(); }; std::unique_ptr<II> o = make(); const int n = o->n, m = o->m; OcpCoef k = ocp_coef(p.ops[0].u(1), 0); o->coef(k); double t0 = 0, tf = 1; o->horizon(t0, tf);
    VectorXd d = VectorXd::Constant(o->nd, 0.5), lbx = VectorXd::Constant(n, -INFINITY), ubx = VectorXd::Constant(n, INFINITY), lbg = VectorXd::Constant(o->ni, -INFINITY), ubg = VectorXd::Constant(o->ni, INFINITY), gx = VectorXd::Zero(n), gl = VectorXd::Zero(n + m); o->put("p", d); int solves = 0;
    auto eqv = [](const VectorXd& a, const VectorXd& b) { if (a.size() != b.size()) return false; for (int i = 0; i < a.size(); ++i) if (a(i) != b(i) && !(bad(a(i)) && bad(b(i)) && (a(i) != a(i)) == (b(i) != b(i)) )) return false; return true; };
    for (size_t i = 1; i < p.ops.size() && !x.failed; ++i) { const Op& q = p.ops[i]; x.sig(int64_t(std::hash<std::string>()(q.name))); Rng r(q.u(0) + 5);
        if (q.name == "data") { d = vec(r, o->nd); o->put("p", d); for (int j = 0; j < n; ++j) { double a = val(r), b = val(r); lbx(j) = r.chance(0.2) ? -INFINITY : std::min(a, b); ubx(j) = r.chance(0.2) ? INFINITY : std::max(a, b); } for (int j = 0; j < o->ni; ++j) { double a = val(r), b = val(r); lbg(j) = r.chance(0.3) ? -INFINITY : std::min(a, b); ubg(j) = r.chance(0.2) ? INFINITY : std::max(a, b); } o->put("lbx", lbx); o->put("ubx", ubx); o->put("lbg", lbg); o->put("ubg", ubg); if (r.chance(0.5)) { k = ocp_coef(r.sub(), 0); o->coef(k); } continue; }
        if (q.name == "guess") { gx = vec(r, n); gl = vec(r, n + m); o->put("x", gx); o->put("lam", gl); continue; }
        if (q.name == "horizon") { t0 = q.at(0); tf = q.at(1); o->horizon(t0, tf); continue; }
        if (q.name == "restart") { o.reset(); o = make(); o->coef(k); o->horizon(t0, tf); o->put("p", d); o->put("lbx", lbx); o->put("ubx", ubx); o->put("lbg", lbg); o->put("ubg", ubg); gx.setZero(); gl.setZero(); x.fault("crash_restart"); continue; }
        if (q.name != "solve") continue;
        int end = q.in(2); bool wg = q.in(3); if (wg) { gx = vec(r, n); gl = vec(r, n + m); } VectorXd fx = vec(r, n), fl = vec(r, m), zl(n), zu(n); for (int j = 0; j < n; ++j) { double z = val(r); zl(j) = std::max(0.0, z); zu(j) = std::max(0.0, -z); } double fobj = val(r), sdi = r.logu(1e-9, 1), scv = r.logu(1e-9, 1); int it = r.irange(0, 300); Ipopt::ApplicationReturnStatus st = Ipopt::Solve_Succeeded; bool called = false; long asked = 0; bool fin = false;
        const std::string nm = c.name;
        Ipopt::script().run = [&](Ipopt::TNLP* t, Ipopt::SmartPtr<Ipopt::SolveStatistics>& stats) { called = true; Ipopt::Index nn = -1, mm = -1, nj = -1, nh = -1; Ipopt::TNLP::IndexStyleEnum style = Ipopt::TNLP::FORTRAN_STYLE; t->get_nlp_info(nn, mm, nj, nh, style);
            auto fail = [&](const char* cls, const std::string& s) { x.fail(cls, "%s: %s", nm.c_str(), s.c_str()); return Ipopt::Internal_Error; };
            if (nn != n || mm != m || style != Ipopt::TNLP::C_STYLE || nj < 0 || nh < 0 || nj > n * m || nh > n * (n + 1) / 2) return fail("sizes-wrong", "sizes reported to the optimiser are wrong");
            if (end == 1) return Ipopt::Invalid_Problem_Definition;            // gives up before anything is evaluated: no statistics, no final point
            Buf a(n), b(n), e(m), f(m); t->get_bounds_info(n, a.p(), b.p(), m, e.p(), f.p()); VectorXd L(m), U(m); L.head(o->ne).setZero(); U.head(o->ne).setZero(); L.tail(o->ni) = lbg; U.tail(o->ni) = ubg; x.eval(); if (!a.ok() || !b.ok() || !e.ok() || !f.ok()) return fail("overrun", "bounds were written outside the buffers"); if (!eqv(a.get(), lbx) || !eqv(b.get(), ubx) || !eqv(e.get(), L) || !eqv(f.get(), U)) return fail("bounds-differ", "bounds shown to the optimiser are not those of the caller");
            Buf sx(n), sl(n), su(n), sg(m); bool iz = r.chance(0.6), ig = r.chance(0.6); t->get_starting_point(n, true, sx.p(), iz, sl.p(), su.p(), m, ig, sg.p()); x.eval(); if (!sx.ok() || !sl.ok() || !su.ok() || !sg.ok()) return fail("overrun", "the starting point was written outside the buffers"); if (!eqv(sx.get(), gx)) return fail("start-differs", "the starting point is not the caller's guess"); if (iz && (!eqv(sl.get(), gl.tail(n).cwiseMin(0).cwiseAbs()) || !eqv(su.get(), gl.tail(n).cwiseMax(0)))) return fail("start-differs", "bound multipliers of the starting point are not the caller's guess"); if (ig && !eqv(sg.get(), gl.head(m))) return fail("start-differs", "constraint multipliers of the starting point are not the caller's guess");
            IBuf jr(nj), jc(nj), hr(nh), hc(nh); bool hj = false, hh = false; auto structs = [&](bool jac) { IBuf R(jac ? nj : nh), C(jac ? nj : nh); if (jac) t->eval_jac_g(n, nullptr, false, m, nj, R.p(), C.p(), nullptr); else t->eval_h(n, nullptr, false, 1.0, m, nullptr, false, nh, R.p(), C.p(), nullptr); x.eval(); if (!R.ok() || !C.ok()) { fail("overrun", jac ? "the Jacobian structure was written outside the buffers" : "the Hessian structure was written outside the buffers"); return; } if (!R.full() || !C.full()) { fail("structure-incomplete", jac ? "fewer Jacobian entries than announced" : "fewer Hessian entries than announced"); return; }
                std::set<std::pair<int, int>> s; for (int w = 0; w < R.n; ++w) { int rr = R.at(w), cc = C.at(w); if (rr < 0 || cc < 0 || cc >= n || rr >= (jac ? m : n) || (!jac && rr < cc)) { fail("structure-wrong", "an entry of the structure lies outside the matrix"); return; } if (!s.insert({rr, cc}).second) { fail("structure-wrong", "an entry of the structure appears twice"); return; } }
                if (jac) { if (hj && (R.v != jr.v || C.v != jc.v)) { fail("structure-changes", "the Jacobian structure changed within one solve"); return; } jr = R; jc = C; hj = true; } else { if (hh && (R.v != hr.v || C.v != hc.v)) { fail("structure-changes", "the Hessian structure changed within one solve"); return; } hr = R; hc = C; hh = true; } };
            structs(true); if (x.failed) return Ipopt::Internal_Error; structs(false); if (x.failed) return Ipopt::Internal_Error; VectorXd px = sx.get(), pl = VectorXd::Zero(m); double tol = 1e-9 * (1 + std::fabs(t0) * 1e-2);
            for (int w = 0; w < q.in(1); ++w) { bool nx = r.chance(0.6); if (nx) px = vec(r, n); bool nlm = r.chance(0.5); if (nlm) pl = vec(r, m); int e = r.irange(0, E_COUNT - 1); ++asked; bool arm = q.in(4) && w == q.in(5); if (arm) g_oc.reset(q.in(4), r.irange(0, 3), r.irange(1, 4)); double sf = r.pick({1.0, 1.0, 0.0, 0.25, -2.0, 1e3});
                Buf X(n); for (int j = 0; j < n; ++j) X.p()[j] = px(j); Buf LM(m); for (int j = 0; j < m; ++j) LM.p()[j] = pl(j); for (size_t j = 32 + m; j < LM.v.size(); ++j) LM.v[j] = NaN; VectorXd full = VectorXd::Zero(n + m); full.head(m) = pl; if (x.verbose) x.log("  call %d%s%s%s", e, nx ? " new point" : "", nlm ? " new multipliers" : "", arm ? " fault" : "");
                double f = NaN; Buf G(e == E_GRAD ? n : e == E_G ? m : e == E_JAC ? nj : e == E_H ? nh : 0);
                switch (e) { case E_F: t->eval_f(n, X.p(), nx, f); break; case E_GRAD: t->eval_grad_f(n, X.p(), nx, G.p()); break; case E_G: t->eval_g(n, X.p(), nx, m, G.p()); break; case E_JAC: t->eval_jac_g(n, X.p(), nx, m, nj, nullptr, nullptr, G.p()); break; case E_H: t->eval_h(n, X.p(), nx, sf, m, LM.p(), nlm, nh, nullptr, nullptr, G.p()); break; case E_JACS: structs(true); break; case E_HS: structs(false); break; }
                if (x.failed) return Ipopt::Internal_Error; bool dirty = g_oc.kind && g_oc.fired; if (g_oc.kind) { if (g_oc.fired) x.fault(g_oc.kind == 3 ? "callback_inf" : "callback_nan"); g_oc.reset(); } if (dirty || e >= E_JACS) continue; if (!G.ok()) return fail("overrun", "values were written outside the buffer");
                x.eval(); x.nontrivial(); IRef R = o->ref(px, d, full, sf); std::string er; x.ival(e);
                if (e == E_F) { x.val(f); if (!(std::fabs(f - R.f) <= tol * std::max(1.0, std::fabs(R.f)))) { char b2[120]; snprintf(b2, 120, "cost is %.12g, expected %.12g", f, R.f); er = b2; } } else { x.vec(G.get()); x.probe(e == E_H ? sf == 1 ? "hessian" : "hessian_scaled" : e == E_JAC ? "jacobian" : e == E_G ? "constraints" : "gradient"); }
                if (e == E_GRAD) er = ocp_diff("cost gradient", G.get(), R.grad, tol); if (e == E_G) er = ocp_diff("constraints", G.get(), R.g, tol);
                if (e == E_JAC) { MatrixXd M = MatrixXd::Zero(m, n); for (int w2 = 0; w2 < nj; ++w2) M(jr.at(w2), jc.at(w2)) = G.p()[w2]; er = ocp_diffm("Jacobian", M, R.J, tol); }
                if (e == E_H) { MatrixXd M = MatrixXd::Zero(n, n); for (int w2 = 0; w2 < nh; ++w2) { M(hr.at(w2), hc.at(w2)) = G.p()[w2]; M(hc.at(w2), hr.at(w2)) = G.p()[w2]; } double sc = std::max(1.0, std::fabs(sf)); er = ocp_diffm("Hessian", M / sc, R.H / sc, tol); }
                if (!er.empty()) return fail("other-problem", "call " + std::to_string(w) + ": " + er); }
            static const Ipopt::ApplicationReturnStatus ES[] = {Ipopt::Solve_Succeeded, Ipopt::Invalid_Problem_Definition, Ipopt::Solved_To_Acceptable_Level, Ipopt::Infeasible_Problem_Detected, Ipopt::Maximum_Iterations_Exceeded, Ipopt::Restoration_Failed, Ipopt::Invalid_Number_Detected, Ipopt::Not_Enough_Degrees_Of_Freedom, Ipopt::Unrecoverable_Exception}; st = ES[((end % 9) + 9) % 9]; if (st != Ipopt::Solve_Succeeded) x.fault("ipopt_status_" + std::to_string(int(st)));
            if (st == Ipopt::Not_Enough_Degrees_Of_Freedom || st == Ipopt::Unrecoverable_Exception) return st;
            fin = true; Buf FX(n), FL(m), ZL(n), ZU(n), FG(m); for (int j = 0; j < n; ++j) { FX.p()[j] = fx(j); ZL.p()[j] = zl(j); ZU.p()[j] = zu(j); } for (int j = 0; j < m; ++j) { FL.p()[j] = fl(j); FG.p()[j] = 0; } for (size_t j = 32 + m; j < FL.v.size(); ++j) FL.v[j] = NaN; t->finalize_solution(Ipopt::SUCCESS, n, FX.p(), ZL.p(), ZU.p(), m, FG.p(), FL.p(), fobj, nullptr, nullptr);
            Ipopt::SolveStatistics* S = new Ipopt::SolveStatistics; S->it = it; S->di = sdi; S->cv = scv; S->bv = 3.5; S->co = 4.5; S->kkt = 5.5; S->obj = fobj; stats = S; return st; };
        if (end == 1) st = Ipopt::Invalid_Problem_Definition, x.fault("rejected_before_start"); int ret = 0; (void)ret; if (wg) o->solve(gx, gl); else o->solve(); x.ticks(double(asked)); g_oc.reset(); if (x.failed) return; ++solves; x.eval(); x.sig(int(st)); x.log("solve: %ld calls, status %d", asked, int(st)); if (!called) { x.fail("not-solved", "%s: the optimiser was not started", c.name); return; }
        if (o->status() != int(st)) x.fail("status-differs", "%s: the optimiser ended with %d, the interface shows %d", c.name, int(st), o->status());
        else if (fin) { VectorXd lam(n + m); lam << fl, zu - zl; if (!eqv(o->get("x"), fx)) x.fail("solution-differs", "%s: the primal solution shown is not that of the optimiser", c.name); else if (!eqv(o->get("lam"), lam)) x.fail("solution-differs", "%s: the multipliers shown are not those of the optimiser (constraints, then bounds)", c.name); else if (o->iter() != it || o->num("dual") != sdi || o->num("viol") != scv || o->num("cost") != fobj) x.fail("statistics-differ", "%s: iterations, residuals or cost shown are not those of the optimiser", c.name); gx = fx; gl = lam; }
        else { if (!eqv(o->get("x"), gx) || !eqv(o->get("lam"), gl)) x.fail("solution-differs", "%s: the solution changed although the optimiser returned none", c.name); }
        if (!x.failed && !eqv(o->get("p"), d)) x.fail("parameters-differ", "%s: parameters changed", c.name); x.vec(o->get("x")); x.vec(o->get("lam")); } }
static Reg b02({"b02_ipopt", [](Rng& r, Plan& p, bool t) { p.ops.push_back({"cfg", {double(r.irange(0, int(cfgs().size()) - 1)), double(r.sub())}}); int n = r.irange(1, t ? 10 : 5); double pf = r.pick({0.0, 0.0, 0.3}), pe = r.pick({0.0, 0.3});
    for (int i = 0; i < n; ++i) { double z = r.u01(); if (z < 0.06) p.ops.push_back({"restart", {}}); else if (z < 0.25) p.ops.push_back({"data", {double(r.sub())}}); else if (z < 0.35) p.ops.push_back({"guess", {double(r.sub())}}); else if (z < 0.42) { double a = val(r); p.ops.push_back({"horizon", {a, a + 0.25 + std::fabs(val(r))}}); } else p.ops.push_back({"solve", {double(r.sub()), double(r.irange(0, t ? 30 : 14)), double(r.chance(pe) ? r.irange(1, 8) : 0), double(r.chance(0.4)), double(r.chance(pf) ? r.irange(1, 3) : 0), double(r.irange(0, 8))}}); } }, run_b02});
