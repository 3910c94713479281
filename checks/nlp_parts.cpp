// Histories of the stateful numerical parts of the NLP solver, driven directly: preconditioners (N04), quasi-Newton updates
// (N05) and the line-search filter (N06).
#include "nlp_common.hpp"
#include "solvers/bfgs.hpp"
#include "solvers/sr1.hpp"
#include "solvers/line_search.hpp"
#include "solvers/qp_base.hpp"
#include "solvers/qp_preconditioners.hpp"
#include <Eigen/Eigenvalues>
#include <Eigen/Sparse>
#define DEF(T, NAME, ...) static T NAME(int i) { static const T v[] = {__VA_ARGS__}; const int n = int(sizeof v / sizeof v[0]); return v[((i % n) + n) % n]; }

// ---------------- N05 (direct part): arbitrary step histories through BFGS_update / SR1_update ----------------
template<int N, class S> static void run_qn(const Plan& p, Ctx& x) { typedef Eigen::Matrix<S, N, N> M; typedef Eigen::Matrix<S, N, 1> V; M B = M::Identity(); bool sr1 = p.ops[0].in(1); const double tol = sizeof(S) == 4 ? 2e-4 : 1e-9; x.sig(N); x.sig(sr1);
    auto eig = [](const M& m) { Eigen::SelfAdjointEigenSolver<MatrixXd> e(MatrixXd(0.5 * (m + m.transpose()).template cast<double>())); return VectorXd(e.eigenvalues()); };
    for (size_t i = 1; i < p.ops.size() && !x.failed; ++i) { const Op& o = p.ops[i]; Rng r(o.u(0) * 977 + 5); if (o.name == "restart") { B = M::Identity() * S(r.logu(0.1, 10)); x.fault("restart"); continue; }
        V s, y; double ss = std::pow(10.0, o.at(2)); for (int k = 0; k < N; ++k) s(k) = S(ss * r.uni(-1, 1)); V Bs = B * s; int kind = o.in(1);
        // 0 convex curvature, 1 negative curvature, 2 y = B s exactly (exact quadratic model), 3 zero step, 4 zero gradient change, 5 nearly parallel, 6 random gradient, 7 large curvature
        static const char* nm[] = {"", "negative_curvature", "exact_model", "zero_step", "zero_gradient_change", "orthogonal_change", "random_change", "large_curvature"}; if (kind) x.fault(nm[kind]);
        MatrixXd C(N, N); for (int a = 0; a < N; ++a) for (int b = 0; b < N; ++b) C(a, b) = r.uni(-1, 1); MatrixXd A = C * C.transpose() + 0.1 * MatrixXd::Identity(N, N); if (kind == 7) A *= 1e4; if (kind == 1) A = -A; VectorXd yd = A * s.template cast<double>(); if (kind == 3) s.setZero(); y = yd.cast<S>(); if (kind == 2) y = Bs; if (kind == 4) y.setZero(); if (kind == 5) { y = yd.cast<S>(); double q = double(s.squaredNorm()); if (q > 0) y -= s * S(double(y.dot(s)) / q); } if (kind == 6) for (int k = 0; k < N; ++k) y(k) = S(ss * r.uni(-2, 2)); if (kind == 3) y.setZero();
        M B0 = B; if (sr1) SR1_update(B, s, y); else BFGS_update(B, s, y); x.eval(); x.nontrivial(); x.vec(B); x.sig(kind);
        for (int k = 0; k < N * N; ++k) if (bad(double(B.data()[k]))) { x.fail("non-finite", "operation %zu: the %s update with finite step and gradient change (%s) produced a non-finite matrix", i, sr1 ? "SR1" : "BFGS", nm[kind]); return; }
        double sc = double(B.cwiseAbs().maxCoeff()) + double(B0.cwiseAbs().maxCoeff()); if (!(double((B - B.transpose()).cwiseAbs().maxCoeff()) <= tol * sc * double(i))) { x.fail("not-symmetric", "operation %zu: asymmetry %.3g of scale %.3g after a %s update", i, double((B - B.transpose()).cwiseAbs().maxCoeff()), sc, sr1 ? "SR1" : "BFGS"); return; }
        double sn = double(s.norm()), sBs = double(s.dot(B0 * s)), sy = double(s.dot(y)); bool changed = (B - B0).cwiseAbs().maxCoeff() > 0;
        if (!sr1) { VectorXd e0 = eig(B0), e = eig(B); if (e0(0) > tol * sc && !(e(0) > -tol * sc)) { x.fail("not-positive-definite", "operation %zu: smallest eigenvalue %.3g of scale %.3g after a BFGS update of a positive definite matrix (%s)", i, e(0), sc, nm[kind]); return; }
            double want = std::max(sy, 0.2 * sBs), got = double(s.dot(B * s)), rel = std::fabs(got - want) / (std::fabs(want) + sc * sn * sn + 1e-300); if (e0(0) > 1e-3 * sc && want > (sizeof(S) == 4 ? 1e-4 : 1e-12) && !(rel <= (sizeof(S) == 4 ? 1e-2 : 1e-6))) { x.fail("secant", "operation %zu: curvature along the step is %.6g, the damped secant condition asks for %.6g (%s)", i, got, want, nm[kind]); return; } if (e0(0) > 1e-3 * sc && want > 1e-4) x.probe("secant_checked"); }
        else if (changed) { V d = B * s - y; if (!(double(d.norm()) <= (sizeof(S) == 4 ? 5e-2 : 1e-5) * (double(y.norm()) + sc * sn))) { x.fail("secant", "operation %zu: SR1 changed the matrix but B s differs from y by %.3g (%s)", i, double(d.norm()), nm[kind]); return; } x.probe("secant_checked"); }
        // the matrix is replaced when it is no longer a sensible model (conditioning beyond the scalar type)
        VectorXd e = eig(B); double mx = e.cwiseAbs().maxCoeff(); if (!(mx < (sizeof(S) == 4 ? 1e4 : 1e7)) || !(e.cwiseAbs().minCoeff() > mx * (sizeof(S) == 4 ? 1e-3 : 1e-6))) { B.setIdentity(); x.probe("model_reset"); } } }
static void run_n05d(const Plan& p, Ctx& x) { switch (p.ops[0].in(0) % 4) { case 0: run_qn<2, double>(p, x); break; case 1: run_qn<4, double>(p, x); break; case 2: run_qn<7, double>(p, x); break; default: run_qn<4, float>(p, x); } }
static Reg n05d({"n05_updates", [](Rng& r, Plan& p, bool t) { p.ops.push_back({"cfg", {double(r.irange(0, 3)), double(r.chance(0.35))}}); int n = r.irange(2, t ? 60 : 25); for (int i = 0; i < n; ++i) { if (r.chance(0.05)) p.ops.push_back({"restart", {double(r.sub() % 100000)}}); p.ops.push_back({"update", {double(r.sub() % 100000), double(r.chance(0.5) ? 0 : r.irange(1, 7)), double(r.chance(0.6) ? 0 : r.irange(-9, 2))}}); } }, run_n05d, 0.5});

// ---------------- N06: the line-search filter ----------------
DEF(double, t_val, 0, 1, -1, 2.5, 1e3, -1e3, 1e-9, 0.5)
template<class S> static void run_filter(const Plan& p, Ctx& x) { LSFilter<S> f; typedef std::pair<double, double> P; std::vector<P> kept; /* the last accepted trials, newest first */ x.sig(sizeof(S)); int depth = 1 + p.ops[0].in(1) % 12; f.max_depth = depth;
    for (size_t i = 1; i < p.ops.size() && !x.failed; ++i) { const Op& o = p.ops[i]; Rng r(o.u(0) * 131 + 7); if (o.name == "clear") { f.clear(); kept.clear(); x.fault("filter_cleared"); if (!f.m_filter.empty()) { x.fail("not-cleared", "operation %zu: the filter kept entries", i); return; } continue; }
        if (o.name == "nan") { bool a = f.is_acceptable(std::numeric_limits<S>::quiet_NaN(), S(0)); (void)a; x.fault("nan_trial_queried"); continue; }
        double c = o.in(1) ? t_val(o.in(1)) : double(S(r.uni(-3, 3))), v = o.in(2) ? std::fabs(t_val(o.in(2))) : double(S(r.chance(0.2) ? 0 : r.uni(0, 3))); if (o.in(3) && !kept.empty()) { const P& q = kept[r.next() % kept.size()]; c = double(S(q.first + (o.in(3) == 1 ? 0.0 : r.uni(-1e-4, 1e-4)))); v = double(S(std::fabs(q.second + (o.in(3) == 1 ? 0.0 : r.uni(-1e-4, 1e-4))))); x.probe("near_entry"); }
        x.eval(); x.nontrivial(); bool acc = f.is_acceptable(S(c), S(v)); x.ival(acc); x.sig(acc);
        for (auto& q : kept) if (q.first <= c && q.second <= v && acc && q.second >= 0) { x.fail("accepted-dominated", "operation %zu: trial (%.6g, %.6g) accepted although one of the last accepted points (%.6g, %.6g) is at least as good in both", i, c, v, q.first, q.second); return; }
        bool better = true; for (auto& e : f.m_filter) { double m = 1e-4 * (1 + std::fabs(double(e.second))) + 1e-5 * std::fabs(double(e.first)); if (!(c < double(e.first) - m) && !(v < double(e.second) - m)) better = false; } if (better && !acc) { x.fail("rejected-improvement", "operation %zu: trial (%.6g, %.6g) improves on every stored point in cost or violation and was rejected", i, c, v); return; }
        if (o.name == "trial" && acc) { f.add(S(c), S(v)); kept.insert(kept.begin(), {c, v}); if (int(kept.size()) > depth) kept.resize(depth); x.probe("entries_added"); if (int(f.m_filter.size()) == depth) x.probe("filter_full");
            if (int(f.m_filter.size()) > depth) { x.fail("unbounded", "operation %zu: %d entries, depth %d", i, int(f.m_filter.size()), depth); return; }
            if (f.is_acceptable(S(c), S(v))) { x.fail("not-stored", "operation %zu: the point (%.6g, %.6g) just added is acceptable again", i, c, v); return; } if (!f.is_dominated(S(c), S(v))) { x.fail("not-stored", "operation %zu: the point just added is not dominated by the filter", i); return; } } } }
static void run_n06(const Plan& p, Ctx& x) { if (p.ops[0].in(0) % 3) run_filter<double>(p, x); else run_filter<float>(p, x); }
static Reg n06({"n06_filter", [](Rng& r, Plan& p, bool t) { p.ops.push_back({"cfg", {double(r.irange(0, 2)), double(r.chance(0.5) ? 9 : r.irange(0, 11))}}); int n = r.irange(3, t ? 80 : 40); for (int i = 0; i < n; ++i) { if (r.chance(0.03)) p.ops.push_back({"clear", {}}); if (r.chance(0.03)) p.ops.push_back({"nan", {}}); p.ops.push_back({r.chance(0.75) ? "trial" : "query", {double(r.sub() % 100000), double(r.chance(0.2) ? r.irange(1, 7) : 0), double(r.chance(0.2) ? r.irange(1, 7) : 0), double(r.chance(0.3) ? r.irange(1, 2) : 0)}}); } }, run_n06});

// ---------------- N04: preconditioning is transparent ----------------
enum { PN = 5, PM = 4 };
struct PreData { MatrixXd H, A; VectorXd h, al, au, l, u; };
static PreData pre_data(const Op& o) { Rng r(o.u(0) * 1009 + 1); PreData d; int kind = o.in(1); double sc = std::pow(10.0, o.at(2)); d.H.setZero(PN, PN); d.A.setZero(PM, PN); d.h.resize(PN); d.al.resize(PM); d.au.resize(PM); d.l.resize(PN); d.u.resize(PN);
    MatrixXd C(PN, PN); for (int i = 0; i < PN * PN; ++i) C.data()[i] = r.uni(-1, 1) * (r.chance(0.3) ? 0 : 1); d.H = (C * C.transpose() + 0.1 * MatrixXd::Identity(PN, PN)) * sc; for (int i = 0; i < PM * PN; ++i) d.A.data()[i] = r.chance(0.4) ? 0 : r.uni(-1, 1) * r.logu(0.1, 100); for (int i = 0; i < PN; ++i) d.h(i) = r.uni(-1, 1) * sc * r.logu(0.1, 10);
    VectorXd rs(PN); for (int i = 0; i < PN; ++i) rs(i) = r.logu(0.03, 30); d.H = rs.asDiagonal() * d.H * rs.asDiagonal();
    for (int i = 0; i < PM; ++i) { d.al(i) = r.chance(0.2) ? -QINF : r.uni(-3, 0); d.au(i) = r.chance(0.2) ? QINF : r.uni(0, 3); if (r.chance(0.2)) d.al(i) = d.au(i) = r.uni(-1, 1); } for (int i = 0; i < PN; ++i) { d.l(i) = r.chance(0.2) ? -QINF : r.uni(-3, 0); d.u(i) = r.chance(0.2) ? QINF : r.uni(0, 3); }
    // 1 zero gradient, 2 empty Hessian row/column, 3 empty constraint row, 4 variable absent everywhere, 5 no Hessian at all, 6 no Hessian and zero gradient, 7 empty column and zero gradient
    int k = int(r.next() % PN), q = int(r.next() % PM); if (kind == 1 || kind == 6 || kind == 7) d.h.setZero(); if (kind == 2 || kind == 4 || kind == 7) { d.H.row(k).setZero(); d.H.col(k).setZero(); } if (kind == 3) d.A.row(q).setZero(); if (kind == 4) { d.A.col(k).setZero(); d.h(k) = 0; } if (kind == 5 || kind == 6) d.H.setZero();
    return d; }
static double reldiff(const MatrixXd& a, const MatrixXd& b) { double m = 0; for (int i = 0; i < a.size(); ++i) { double p = a.data()[i], q = b.data()[i]; if (p == q) continue; if (bad(p) || bad(q)) return 1e300; m = std::max(m, std::fabs(p - q) / (std::fabs(q) + 1e-12)); } return m; }
template<int FMT, class S> struct PreRun { typedef Eigen::Matrix<S, PN, 1> V; typedef Eigen::Matrix<S, PM, 1> C; typedef typename std::conditional<FMT == SPARSE, Eigen::SparseMatrix<S>, Eigen::Matrix<S, PN, PN>>::type H_t; typedef typename std::conditional<FMT == SPARSE, Eigen::SparseMatrix<S>, Eigen::Matrix<S, PM, PN>>::type A_t; typedef polympc::RuizEquilibration<S, PN, PM, FMT> R_t;
    struct L { H_t H; A_t A; V h, l, u; C al, au; };
    static void setm(Eigen::SparseMatrix<S>& t, const MatrixXd& m) { std::vector<Eigen::Triplet<S>> v; for (int j = 0; j < m.cols(); ++j) for (int i = 0; i < m.rows(); ++i) if (m(i, j) != 0 || i == j) if (m(i, j) != 0) v.emplace_back(i, j, S(m(i, j))); t.resize(m.rows(), m.cols()); t.setFromTriplets(v.begin(), v.end()); }
    template<int R, int K> static void setm(Eigen::Matrix<S, R, K>& t, const MatrixXd& m) { t = m.cast<S>(); }
    static L load(const PreData& d) { L q; setm(q.H, d.H); setm(q.A, d.A); q.h = d.h.cast<S>(); q.l = d.l.cast<S>(); q.u = d.u.cast<S>(); q.al = d.al.cast<S>(); q.au = d.au.cast<S>(); return q; }
    static PreData store(const L& q) { PreData d; d.H = MatrixXd(Eigen::Matrix<S, -1, -1>(q.H).template cast<double>()); d.A = MatrixXd(Eigen::Matrix<S, -1, -1>(q.A).template cast<double>()); d.h = q.h.template cast<double>(); d.l = q.l.template cast<double>(); d.u = q.u.template cast<double>(); d.al = q.al.template cast<double>(); d.au = q.au.template cast<double>(); return d; }
    static void run(const Plan& p, Ctx& x) { R_t pc; bool poisoned = false; const double tol = sizeof(S) == 4 ? 2e-4 : 1e-10; x.sig(FMT); x.sig(sizeof(S)); bool have = false;
        for (size_t i = 1; i < p.ops.size() && !x.failed; ++i) { const Op& o = p.ops[i]; if (o.name == "restart") { pc = R_t(); have = false; x.fault("restart"); continue; }
            PreData d0 = pre_data(o); L q = load(d0); PreData d = store(q); int kind = o.in(1); static const char* kn[] = {"", "zero_gradient", "empty_hessian_column", "empty_constraint_row", "absent_variable", "no_hessian", "no_hessian_no_gradient", "empty_column_no_gradient"}; if (kind) x.fault(kn[kind]); x.sig(kind);
            if (o.name == "poison") { q.h(int(o.u(0) % PN)) = std::numeric_limits<S>::quiet_NaN(); pc.compute(q.H, q.h, q.A, q.al, q.au, q.l, q.u); x.fault("nan_cycle"); have = false; poisoned = true; continue; }
            bool reuse = o.name == "scale" && have; if (reuse) pc.scale(q.H, q.h, q.A, q.al, q.au, q.l, q.u); else pc.compute(q.H, q.h, q.A, q.al, q.au, q.l, q.u); have = true; PreData sc = store(q); x.eval(); x.nontrivial(); x.vec(sc.H); if (poisoned) x.probe("cycle_after_poison");
            for (auto m : {&sc.H, &sc.A}) for (int k = 0; k < m->size(); ++k) if (bad(m->data()[k])) { x.fail("non-finite", "operation %zu: scaling finite data (%s) produced a non-finite matrix", i, kn[kind]); return; }
            for (int k = 0; k < PN; ++k) if (bad(sc.h(k)) || sc.l(k) != sc.l(k) || sc.u(k) != sc.u(k) || (sc.l(k) > sc.u(k))) { x.fail("non-finite", "operation %zu: scaling finite data (%s) produced an invalid gradient or box", i, kn[kind]); return; }
            // a candidate solution of the scaled problem, mapped back: residuals of both problems have to agree up to positive diagonal factors
            Rng r(o.u(0) + 99); V xs; Eigen::Matrix<S, PN + PM, 1> ys; for (int k = 0; k < PN; ++k) xs(k) = S(r.uni(0.5, 1)); for (int k = 0; k < PN + PM; ++k) ys(k) = S(r.uni(0.5, 1)); V xo = xs; Eigen::Matrix<S, PN + PM, 1> yo = ys; pc.unscale(xo, yo);
            VectorXd X = xs.template cast<double>(), Y = ys.template cast<double>(), XO = xo.template cast<double>(), YO = yo.template cast<double>(); VectorXd D = XO.cwiseQuotient(X); for (int k = 0; k < PN; ++k) if (!(D(k) > 0) || bad(D(k))) { x.fail("bad-scaling", "operation %zu: primal scaling factor %.4g", i, D(k)); return; }
            // stationarity: scaled residual = c D (original residual) for one positive c
            auto stat = [](const PreData& e, const VectorXd& xx, const VectorXd& yy) { return VectorXd(e.H * xx + e.h + e.A.transpose() * yy.head(PM) + yy.tail(PN)); }; auto mag = [](const PreData& e, const VectorXd& xx, const VectorXd& yy) { return VectorXd(e.H.cwiseAbs() * xx.cwiseAbs() + e.h.cwiseAbs() + e.A.cwiseAbs().transpose() * yy.head(PM).cwiseAbs() + yy.tail(PN).cwiseAbs()); };
            VectorXd rs = stat(sc, X, Y), ro = stat(d, XO, YO), ms = mag(sc, X, Y); double c = Y(PM) / (D(0) * YO(PM)); if (!(c > 0) || bad(c)) { x.fail("bad-scaling", "operation %zu: cost scaling %.4g", i, c); return; }
            for (int k = 0; k < PN; ++k) { double e = std::fabs(rs(k) - c * D(k) * ro(k)); if (!(e <= 100 * tol * (ms(k) + 1e-30))) { x.fail("residual-mapping", "operation %zu: stationarity residual %d is %.8g in the scaled problem and %.8g after mapping the solution back (%s)", i, k, rs(k), c * D(k) * ro(k), kn[kind]); return; } }
            // constraints: scaled A x = E A xo, bounds scaled by the same positive E; box by 1/D
            VectorXd as = sc.A * X, ao = d.A * XO; for (int k = 0; k < PM; ++k) { double E = YO(k) * c / Y(k); if (!(E > 0) || !(std::fabs(as(k) - E * ao(k)) <= 100 * tol * (sc.A.row(k).cwiseAbs().dot(X) + 1e-30)) || !(reldiff(MatrixXd::Constant(1, 1, sc.al(k)), MatrixXd::Constant(1, 1, E * d.al(k))) < 100 * tol) || !(reldiff(MatrixXd::Constant(1, 1, sc.au(k)), MatrixXd::Constant(1, 1, E * d.au(k))) < 100 * tol)) { x.fail("constraint-mapping", "operation %zu: constraint %d scaled inconsistently (row %.6g against %.6g, bounds %.6g %.6g against %.6g %.6g)", i, k, as(k), E * ao(k), sc.al(k), sc.au(k), E * d.al(k), E * d.au(k)); return; } }
            for (int k = 0; k < PN; ++k) if (!(reldiff(MatrixXd::Constant(1, 1, sc.l(k) * D(k)), MatrixXd::Constant(1, 1, d.l(k))) < 100 * tol) || !(reldiff(MatrixXd::Constant(1, 1, sc.u(k) * D(k)), MatrixXd::Constant(1, 1, d.u(k))) < 100 * tol)) { x.fail("box-mapping", "operation %zu: box bound %d scaled inconsistently", i, k); return; }
            V xb = xo; Eigen::Matrix<S, PN + PM, 1> yb = yo; pc.scale(xb, yb); if (!(reldiff(xb.template cast<double>(), X) < tol) || !(reldiff(yb.template cast<double>(), Y) < tol)) { x.fail("solution-roundtrip", "operation %zu: scaling the unscaled solution does not return it", i); return; }
            pc.unscale(q.H, q.h, q.A, q.al, q.au, q.l, q.u); PreData b = store(q); double w = std::max({reldiff(b.H, d.H), reldiff(b.h, d.h), reldiff(b.A, d.A), reldiff(b.al, d.al), reldiff(b.au, d.au), reldiff(b.l, d.l), reldiff(b.u, d.u)}); if (!(w < tol * 10)) { x.fail("data-roundtrip", "operation %zu: unscaling does not restore the problem data (relative difference %.3g; H %.2g h %.2g A %.2g, %s)", i, w, reldiff(b.H, d.H), reldiff(b.h, d.h), reldiff(b.A, d.A), kn[kind]); return; } } } };
static void run_n04(const Plan& p, Ctx& x) { switch (p.ops[0].in(0) % 4) { case 0: PreRun<DENSE, double>::run(p, x); break; case 1: PreRun<SPARSE, double>::run(p, x); break; case 2: PreRun<DENSE, float>::run(p, x); break; default: PreRun<SPARSE, float>::run(p, x); } }
static Reg n04({"n04_cycles", [](Rng& r, Plan& p, bool t) { p.ops.push_back({"cfg", {double(r.irange(0, 3))}}); int n = r.irange(1, t ? 12 : 6); for (int i = 0; i < n; ++i) { double u = r.u01(); if (u < 0.1) p.ops.push_back({"restart", {}}); else if (u < 0.2) p.ops.push_back({"poison", {double(r.sub() % 100000)}}); p.ops.push_back({r.chance(0.75) ? "compute" : "scale", {double(r.sub() % 100000), double(r.chance(0.5) ? 0 : r.irange(1, 7)), double(r.irange(-3, 3))}}); } }, run_n04, 0.8});
