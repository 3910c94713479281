// B01: the interfaces to external QP solvers (OSQP, QPMAD) hand over exactly the caller's problem and give back exactly
// the back end's verdict. The back ends are simulated (stubs/): scripted answers, faults and life-cycle rules.
#define POLYMPC_FOUND_QPMAD
#include "../sim/sim.hpp"
#include "solvers/osqp_interface.hpp"
#include "solvers/qpmad_interface.hpp"
using namespace Eigen; using namespace sim;
BackEnd g_be; void be_misuse(const char* w) { if (g_be.misuse.empty()) g_be.misuse = w; }
struct BIn { MatrixXd H, A; MatrixXi pH, pA; VectorXd h, l, u, xl, xu, xg, yg; bool guess = false; int form = 0; };
struct BSet { double eps_rel, eps_abs, rho, sigma, alpha, tol; int max_iter, check, interval; bool adaptive, reuse, warm, polish, scaled; int scaling, refine, ls, htype; double delta, tl, frac, edi, epi; };
struct BOut { int ret, st, iter, rho_updates; double rp, rd, rho; VectorXd x, y; };
struct IBe { virtual ~IBe() {} virtual BOut solve(const BIn&) = 0; virtual void set(const BSet&) = 0; };
static void mat(const MatrixXd& a, const MatrixXi& p, SparseMatrix<double>& o, bool packed, int spare) { o.resize(a.rows(), a.cols()); VectorXi nz(a.cols()); for (int j = 0; j < a.cols(); ++j) nz(j) = std::max(1, p.col(j).sum()) + spare; o.reserve(nz); for (int j = 0; j < a.cols(); ++j) for (int i = 0; i < a.rows(); ++i) if (p(i, j)) o.insert(i, j) = a(i, j); if (packed) o.makeCompressed(); }
static void mat(const MatrixXd& a, const MatrixXi& p, MatrixXd& o, bool, int) { o = a.cwiseProduct(p.cast<double>()); }
template<class Q, int N, int M, bool SPR> struct BW : IBe { Q q; int k = 0;
    void set(const BSet& s) override { auto& t = q.settings(); t.eps_rel = s.eps_rel; t.eps_abs = s.eps_abs; t.rho = s.rho; t.sigma = s.sigma; t.alpha = s.alpha; t.adaptive_rho_tolerance = s.tol; t.max_iter = s.max_iter; t.check_termination = s.check; t.adaptive_rho_interval = s.interval; t.adaptive_rho = s.adaptive; t.reuse_pattern = s.reuse; t.warm_start = s.warm; t.polish = s.polish; t.scaled_termination = s.scaled; t.scaling = s.scaling; t.polish_refine_iter = s.refine; t.osqp_linear_solver = s.ls; t.hessian_type = s.htype; t.delta = s.delta; t.time_limit = s.tl; t.adaptive_rho_fraction = s.frac; t.eps_dual_inf = s.edi; t.eps_prim_inf = s.epi; }
    BOut solve(const BIn& d) override { using MT = typename std::conditional<SPR, SparseMatrix<double>, MatrixXd>::type; MT H, A; mat(d.H, d.pH, H, d.form & 1, d.form >> 2 & 3); mat(d.A, d.pA, A, d.form & 2, d.form >> 2 & 3); Matrix<double, N, 1> h = d.h, xl = d.xl, xu = d.xu, xg = d.xg; Matrix<double, M, 1> l = d.l, u = d.u; Matrix<double, N + M, 1> yg = d.yg; BOut o; o.ret = d.guess ? q.solve(H, h, A, l, u, xl, xu, xg, yg) : q.solve(H, h, A, l, u, xl, xu); auto& f = q.info(); o.st = f.status; o.iter = f.iter; o.rho_updates = f.rho_updates; o.rho = f.rho_estimate; o.rp = f.res_prim; o.rd = f.res_dual; o.x = q.primal_solution(); o.y = q.dual_solution(); return o; } };
struct BCfg { const char* name; int n, m; bool osqp; std::function<std::unique_ptr<IBe>()> make; };
template<int N, int M> static BCfg os(const char* n) { return {n, N, M, true, [] { return std::unique_ptr<IBe>(new BW<polympc::OSQP<N, M, double>, N, M, true>); }}; }
template<int N, int M> static BCfg qm(const char* n) { return {n, N, M, false, [] { return std::unique_ptr<IBe>(new BW<polympc::QPMAD<N, M, double>, N, M, false>); }}; }
static std::vector<BCfg>& cfgs() { static std::vector<BCfg> v{os<2, 1>("osqp-2-1"), os<4, 2>("osqp-4-2"), os<3, 5>("osqp-3-5"), os<7, 1>("osqp-7-1"), qm<2, 1>("qpmad-2-1"), qm<4, 3>("qpmad-4-3"), qm<3, 5>("qpmad-3-5")}; return v; }
static double val(Rng& r) { return r.normal() * (r.chance(0.1) ? 1e3 : 1.0); }
static BSet gset(Rng& r) { BSet s; s.eps_rel = r.logu(1e-8, 1e-2); s.eps_abs = r.logu(1e-8, 1e-2); s.rho = r.logu(1e-3, 10); s.sigma = r.logu(1e-8, 1e-3); s.alpha = r.uni(0.5, 1.8); s.tol = r.uni(2, 9); s.max_iter = r.irange(1, 4000); s.check = r.irange(1, 50); s.interval = r.irange(1, 60); s.adaptive = r.chance(0.5); s.reuse = false; s.warm = false; s.polish = r.chance(0.5); s.scaled = r.chance(0.5); s.scaling = r.irange(0, 20); s.refine = r.irange(1, 9); s.ls = r.irange(0, 1); s.htype = r.irange(1, 1); s.delta = r.logu(1e-8, 1e-4); s.tl = r.uni(0, 2); s.frac = r.uni(0.1, 0.9); s.edi = r.logu(1e-7, 1e-3); s.epi = r.logu(1e-7, 1e-3); return s; }
enum { F_NONE, F_NAN, F_INIT };
// op set {seed}; solve {seed, guess, warm, reuse, answer, fault, keep}; restart
static void run_b01(const Plan& p, Ctx& x) {
    const BCfg& c = cfgs()[((p.ops[0].in(0) % int(cfgs().size())) + cfgs().size()) % cfgs().size()]; x.sig(p.ops[0].in(0)); x.log("config %s", c.name); g_be = BackEnd(); std::unique_ptr<IBe> o = c.make(); Rng r0(7); BSet cur = gset(r0), def = cur; o->set(cur); int n = c.n, m = c.m; bool have = false; MatrixXi pA(m, n), pH(n, n); std::vector<int> hist;
    for (size_t i = 1; i < p.ops.size() && !x.failed; ++i) { const Op& q = p.ops[i]; x.sig(int64_t(std::hash<std::string>()(q.name)));
        if (q.name == "set") { Rng r(q.u(0) + 1); cur = gset(r); o->set(cur); continue; }
        if (q.name == "restart") { o.reset(); o = c.make(); have = false; o->set(cur); x.fault("crash_restart"); continue; }
        if (q.name != "solve") continue;
        Rng r(q.u(0) + 11); BIn d; { Rng f(q.u(0) * 31 + 17); d.form = f.chance(0.4) ? 0 : f.irange(0, 15); } bool reuse = q.in(3) && have, warm = q.in(2); int ans = q.in(4), fault = q.in(5);
        if (!reuse) { for (int b = 0; b < n; ++b) for (int a = 0; a < m; ++a) pA(a, b) = r.chance(0.7); for (int b = 0; b < n; ++b) for (int a = 0; a < n; ++a) pH(a, b) = a == b || r.chance(0.5); }
        else if (r.chance(0.3)) for (int b = 0; b < n; ++b) for (int a = 0; a < n; ++a) pH(a, b) = a == b || r.chance(0.5);   // reuse_pattern promises the constraint pattern; the Hessian is handed over whole
        d.pA = pA; d.pH = pH; d.H = MatrixXd(n, n); d.A = MatrixXd(m, n); for (int k = 0; k < n * n; ++k) d.H.data()[k] = val(r); for (int k = 0; k < m * n; ++k) d.A.data()[k] = val(r); d.h.resize(n); d.l.resize(m); d.u.resize(m); d.xl.resize(n); d.xu.resize(n); d.xg.resize(n); d.yg.resize(n + m);
        for (int k = 0; k < n; ++k) { d.h(k) = val(r); double a = val(r), b = val(r); d.xl(k) = r.chance(0.1) ? -1e20 : std::min(a, b); d.xu(k) = r.chance(0.1) ? 1e20 : std::max(a, b); d.xg(k) = val(r); } for (int k = 0; k < m; ++k) { double a = val(r), b = val(r); d.l(k) = std::min(a, b); d.u(k) = r.chance(0.2) ? d.l(k) : std::max(a, b); } for (int k = 0; k < n + m; ++k) d.yg(k) = val(r); d.guess = q.in(1);
        if (fault == F_NAN) { int w = r.irange(0, 3); (w == 0 ? d.h(0) : w == 1 ? d.l(0) : w == 2 ? d.xu(n - 1) : d.H(0, 0)) = std::numeric_limits<double>::quiet_NaN(); x.fault("nan_data"); }
        cur.warm = warm; cur.reuse = reuse; o->set(cur); BackEnd& b = g_be; b.refused = 0; b.init_failed = 0; b.misuse.clear(); long s0 = b.solves, i0 = b.inits; b.fail_init = fault == F_INIT && c.osqp; Rng ra(q.u(0) + 23);
        static const int OS[] = {1, 2, -2, -3, -4, 3, 4, -5, -6, -7, -10}; b.status = c.osqp ? OS[((ans % 11) + 11) % 11] : ((ans % 5) + 5) % 5; b.iter = ra.irange(1, 5000); b.rho_updates = ra.irange(0, 20); b.rp = ra.logu(1e-9, 1); b.rd = ra.logu(1e-9, 1); b.rho = ra.logu(1e-3, 1e3); b.x.resize(n); b.y.resize(n + m); for (int k = 0; k < n; ++k) b.x(k) = val(ra); for (int k = 0; k < n + m; ++k) b.y(k) = val(ra); if (ans && ra.chance(0.2)) { b.x(0) = std::numeric_limits<double>::quiet_NaN(); x.fault("back_end_nan"); } if (b.status != (c.osqp ? 1 : 0)) x.fault(c.osqp ? "osqp_status_" + std::to_string(b.status) : "qpmad_status_" + std::to_string(b.status)); if (warm) x.probe(hist.empty() ? "first_solve_warm" : "warm"); if (reuse) x.probe("pattern_reused");
        hist.push_back(1); BOut a = o->solve(d); x.eval(); x.ticks(1); x.ival(a.ret); x.ival(a.st); x.ival(a.iter); x.vec(a.x); x.sig(a.ret); x.log("solve warm=%d reuse=%d guess=%d fault=%d answer %d -> %d", warm, reuse, int(d.guess), fault, b.status, a.ret); have = true;
        if (b.fail_init && b.init_failed) { x.fault("back_end_refuses_problem"); x.nontrivial(); if (!b.misuse.empty()) { x.fail("used-failed-back-end", "the back end refused the problem and %s", b.misuse.c_str()); return; } if (a.ret == SOLVED || a.st == SOLVED || a.ret != a.st) x.fail("solved-without-back-end", "the back end refused the problem but the interface returns %d and shows %d", a.ret, a.st); continue; }
        if (!b.misuse.empty()) { x.fail("used-failed-back-end", "%s", b.misuse.c_str()); return; }
        if (b.solves != s0 + 1) { x.fail("not-solved-once", "the back end was asked %ld times in one call", b.solves - s0); return; }
        if (i > 1) x.nontrivial();
        auto df = [](const MatrixXd& a, const MatrixXd& b) { if (a.rows() != b.rows() || a.cols() != b.cols()) return true; for (int k = 0; k < a.size(); ++k) { double p = a.data()[k], q = b.data()[k]; if (p != q && !(p != p && q != q)) return true; } return false; };
        MatrixXd A = d.A.cwiseProduct(d.pA.cast<double>()), H = d.H.cwiseProduct(d.pH.cast<double>()); if (fault == F_NAN && d.H(0, 0) != d.H(0, 0)) H(0, 0) = d.H(0, 0); VectorXd L(n + m), U(n + m); L << d.l, d.xl; U << d.u, d.xu; MatrixXd AA = A; if (c.osqp) { AA.resize(n + m, n); AA << A, MatrixXd::Identity(n, n); }
        const char* w = df(b.H, H) ? "Hessian" : df(b.h, d.h) ? "linear term" : df(b.A, AA) ? "constraint matrix" : df(b.l, L) ? "lower bounds" : df(b.u, U) ? "upper bounds" : nullptr; if (w) { x.fail("other-problem", "%s: the %s handed to the back end is not that of this call%s", c.name, w, b.refused ? " (the back end refused the update)" : ""); return; }
        if (d.guess && (c.osqp ? !b.warmed || df(b.gx, d.xg) || df(b.gy, d.yg) : df(b.gx, d.xg))) { x.fail("other-guess", "%s: the guess handed to the back end is not that of this call", c.name); return; }
        if (b.inits > i0) { auto ck = [&](const char* k, double v) { auto it = b.applied.find(k); if (it == b.applied.end() || it->second != v) x.fail("other-settings", "%s: setting %s is %.17g in the back end, %.17g in the interface", c.name, k, it == b.applied.end() ? NAN : it->second, v); }; ck("MaxIteration", cur.max_iter); ck("AbsoluteTolerance", cur.eps_abs);
            if (c.osqp) { ck("RelativeTolerance", cur.eps_rel); ck("Rho", cur.rho); ck("Sigma", cur.sigma); ck("Alpha", cur.alpha); ck("AdaptiveRho", cur.adaptive); ck("AdaptiveRhoInterval", cur.interval); ck("AdaptiveRhoTolerance", cur.tol); ck("CheckTermination", cur.check); ck("WarmStart", cur.warm); ck("Polish", cur.polish); ck("ScaledTerimination", cur.scaled); ck("Scaling", cur.scaling); ck("PolishRefineIter", cur.refine); ck("LinearSystemSolver", cur.ls); ck("Delta", cur.delta); ck("TimeLimit", cur.tl); ck("AdaptiveRhoFraction", cur.frac); ck("DualInfeasibilityTolerance", cur.edi); ck("PrimalInfeasibilityTolerance", cur.epi); } else ck("HessianType", cur.htype); x.probe("settings_compared"); }
        if (x.failed) return;
        bool solved = b.status == (c.osqp ? 1 : 0), loose = c.osqp && b.status == 2, limit = b.status == (c.osqp ? -2 : 4), inf = c.osqp && (b.status == -3 || b.status == -4);
        if (a.ret != a.st) x.fail("status-differs", "%s: solve returns %d but info shows %d (back end status %d)", c.name, a.ret, a.st, b.status);
        else if (solved ? a.ret != SOLVED : loose ? false : limit ? a.ret != MAX_ITER_EXCEEDED : inf ? a.ret != INFEASIBLE : (a.ret == SOLVED)) x.fail("other-verdict", "%s: the back end reports %d, the interface %d", c.name, b.status, a.ret);
        else if (df(a.x, b.x)) x.fail("other-solution", "%s: primal solution is not that of the back end", c.name);
        else if (c.osqp && df(a.y, b.y)) x.fail("other-solution", "%s: dual solution is not that of the back end", c.name);
        else if (c.osqp && (a.iter != b.iter || a.rho_updates != b.rho_updates || a.rho != b.rho)) x.fail("other-effort", "%s: iterations %d/%d, step-size updates %d/%d, step size %.17g/%.17g (shown/back end)", c.name, a.iter, b.iter, a.rho_updates, b.rho_updates, a.rho, b.rho);
        else if (c.osqp && (a.rp != b.rp || a.rd != b.rd)) x.fail("other-residuals", "%s: residuals shown %.6g, %.6g; the back end reports %.6g, %.6g", c.name, a.rp, a.rd, b.rp, b.rd); } }
static Reg b01({"b01_qp_back_ends", [](Rng& r, Plan& p, bool t) { p.ops.push_back({"cfg", {double(r.irange(0, int(cfgs().size()) - 1))}}); int n = r.irange(1, t ? 14 : 8); double pf = r.pick({0.0, 0.2, 0.5}); bool early = r.chance(0.3);
    for (int i = 0; i < n; ++i) { double z = r.u01(); if (z < 0.1) p.ops.push_back({"restart", {}}); else if (z < 0.25) p.ops.push_back({"set", {double(r.sub())}}); else p.ops.push_back({"solve", {double(r.sub()), double(r.chance(0.4)), double((i || early) && r.chance(0.5)), double(r.chance(0.5)), double(r.chance(pf) ? r.irange(0, 10) : 0), double(r.chance(pf * 0.5) ? r.irange(1, 2) : 0)}}); } }, run_b01});
