// Scenarios N01..N05: one persistent SQP solver per run, driven through a seeded history of solves with faults in
// the user callbacks, in the QP's linear solver, in budgets and in the stored iterate.
#include "nlp_common.hpp"
#define DEF(T, NAME, ...) static T NAME(int i) { static const T v[] = {__VA_ARGS__}; const int n = int(sizeof v / sizeof v[0]); return v[((i % n) + n) % n]; }
DEF(int, t_maxit, 100, 1, 2, 3, 7, 30)
DEF(int, t_ls, 100, 1, 2, 5, 20)
DEF(int, t_qp, 100, 1000, 9, 25, 300, 60)
DEF(int, t_chk, 10, 1, 25)
DEF(double, t_eps, 1e-3, 1e-2, 1e-4, 3e-4)
DEF(double, t_tau, 0.5, 0.8, 0.3)
DEF(double, t_eta, 0.25, 0.1, 1e-4)
static NlpSet settings(const Op& o, bool single) { NlpSet s; s.max_iter = t_maxit(o.in(0)); s.ls_max = t_ls(o.in(1)); s.qp_max = t_qp(o.in(2)); s.qp_check = t_chk(o.in(3)); s.eps = t_eps(o.in(4)); s.tau = t_tau(o.in(5)); s.eta = t_eta(o.in(6)); s.qp_eps = std::min(1e-4, s.eps * 0.1); s.qp_adaptive = o.in(7) == 0; if (single) { s.eps = std::max(s.eps, 1e-3); s.qp_eps = std::max(s.qp_eps, 1e-4); } return s; }
static Op gen_set(Rng& r) { Op o{"set", {}}; o.a = {double(r.chance(0.5) ? 0 : r.irange(0, 5)), double(r.chance(0.5) ? 0 : r.irange(0, 4)), double(r.chance(0.4) ? 1 : r.irange(0, 5)), double(r.irange(0, 2)), double(r.irange(0, 3)), double(r.irange(0, 2)), double(r.irange(0, 2)), double(r.chance(0.3))}; return o; }
// solve: pseed guess cbkind cbwhich cbat lskind lsat
static Op gen_solve(Rng& r, double pf) { double cb = r.chance(pf) ? r.irange(1, 4) : 0, ls = r.chance(pf * 0.7) ? r.irange(1, 5) : 0; Op o{"solve", {}}; o.a = {double(r.sub() % 100000), double(r.chance(0.5) ? 1 : r.irange(0, 3)), cb, double(r.irange(0, 2)), double(r.chance(0.5) ? r.irange(1, 12) : r.irange(1, 80)), ls, double(r.chance(0.5) ? r.irange(1, 40) : r.irange(1, 400))}; return o; }

struct NlpWorld { const NlpCfg& c; Ctx& x; std::unique_ptr<INlp> q; NlpSet s; VectorXd xg, lg; bool seeded = false;
    NlpWorld(const Plan& p, Ctx& x_) : c(nlp_cfg(p.ops[0].in(0))), x(x_) { q = c.make(); x.sig(p.ops[0].in(0)); g_ho = HessObs(); }
    void crash(bool snap) { x.fault(snap ? "snapshot_restore" : "crash_restart"); if (snap) { auto n = q->copy(); if (n) { q = std::move(n); return; } } q = c.make(); }
    bool guess(const Op& o, const NlpData& d) { Rng r(o.u(0) * 17 + 3); int m = o.in(1); xg = d.x0; lg = VectorXd::Zero(c.ne + c.ni + c.n); if (m == 0) return false; if (m == 2) { for (int i = 0; i < c.n; ++i) xg(i) += r.uni(-1, 1); for (int i = 0; i < lg.size(); ++i) lg(i) = r.uni(-1, 1); } if (m == 3) { xg(int(r.next() % c.n)) = std::numeric_limits<double>::quiet_NaN(); x.fault("nan_guess"); } return true; }
    NlpOut solve(const Op& o, const NlpData& d) { q->set(s); q->data(d.p, d.b); bool g = guess(o, d); seeded = g; int cbk = o.in(2), which = o.in(3); g_cb.reset(cbk, which, o.in(4)); g_ls.reset(c.spied ? o.in(5) : 0, o.in(6)); NlpOut r = q->solve(g ? &xg : nullptr, g ? &lg : nullptr);
        static const char* cn[] = {"", "nan_once", "nan_forever", "inf_once", "jump_once"}; static const char* wn[] = {"cost_", "equality_", "inequality_"}; static const char* ln[] = {"", "ls_nan_once", "ls_perturbed", "ls_zero", "ls_factor_fail", "ls_nan_forever"};
        if (g_cb.fired) x.fault(std::string(wn[which]) + cn[cbk]); if (g_ls.fired) x.fault(ln[g_ls.kind]); if (r.status != NLP_SOLVED) x.fault("budget_exhausted"); bool cf = g_cb.fired, lf = g_ls.fired; g_cb.kind = 0; g_ls.kind = 0; fired = cf || lf; cbfired = cf; lsfired = lf; x.sig(r.status); x.ival(r.status); x.ival(r.iter); x.ival(r.qp_iter); x.vec(r.x); x.vec(r.lam); x.ticks(r.qp_iter); return r; }
    bool fired = false, cbfired = false, lsfired = false; };
static void gen_hist(Rng& r, Plan& p, bool t, double pf) { p.ops.push_back({"cfg", {double(r.irange(0, 1000))}}); p.ops.push_back(gen_set(r)); int n = r.irange(1, t ? 10 : 5); for (int i = 0; i < n; ++i) { double u = r.u01(); if (u < 0.15) p.ops.push_back(gen_set(r)); else if (u < 0.22) p.ops.push_back({"crash", {double(r.chance(0.5))}}); p.ops.push_back(gen_solve(r, pf)); } }

// ---------------- N01: SOLVED is honest ----------------
static void run_n01(const Plan& p, Ctx& x) { NlpWorld w(p, x);
    for (size_t i = 1; i < p.ops.size() && !x.failed; ++i) { const Op& o = p.ops[i];
        if (o.name == "set") { w.s = settings(o, w.c.single); x.sig(o.in(0)); } else if (o.name == "crash") w.crash(o.in(0)); else if (o.name == "solve") {
            NlpData d = nlp_problem(w.c, o.u(0) + 1); NlpOut r = w.solve(o, d); x.eval(); x.log("op %zu %s cb=%d/%d@%d ls=%d@%d guess=%d -> status %d iter %d pn %g dn %g viol %g", i, w.c.name.c_str(), o.in(2), o.in(3), o.in(4), o.in(5), o.in(6), o.in(1), r.status, r.iter, r.pn, r.dn, r.viol);
            if (r.status != NLP_SOLVED && r.status != NLP_MAXITER) { x.fail("no-verdict", "%s: status %d", w.c.name.c_str(), r.status); return; }
            if (r.iter < 1 || r.iter > std::max(1, w.s.max_iter)) { x.fail("iter-count", "%s: operation %zu: iter=%d max_iter=%d", w.c.name.c_str(), i, r.iter, w.s.max_iter); return; }
            if (r.qp_iter > long(r.iter) * (w.s.qp_max + 1)) { x.fail("qp-iter-count", "%s: operation %zu: %d QP iterations in %d QPs of at most %d", w.c.name.c_str(), i, r.qp_iter, r.iter, w.s.qp_max); return; }
            if (r.status != NLP_SOLVED) continue; x.nontrivial(); x.probe("solved"); if (w.fired) x.probe("solved_after_fault");
            NlpKkt k = nlp_kkt(w.c, d, r); if (!k.finite) { x.fail("solved-nonfinite", "%s: operation %zu: status SOLVED with a non-finite primal or dual solution", w.c.name.c_str(), i); return; }
            double tol = w.s.eps * (1 + 1e-6) + (w.c.single ? 2e-5 : 1e-9); bool lied = o.in(2) == 4 && o.in(3) != 0 && w.cbfired; // a callback that returned a wrong finite value: the solver cannot know
            if (!lied && !(k.viol <= tol)) { x.fail("solved-infeasible", "%s: operation %zu: status SOLVED with constraint violation %.4g, eps_prim %.3g (reported %.4g)", w.c.name.c_str(), i, k.viol, w.s.eps, r.viol); return; }
            // stationarity: the last step was at most eps, so the gradient of the Lagrangian is at most curvature * eps / step length
            if (o.in(2) == 4 && w.cbfired) continue; if (w.lsfired && !g_ho.qp_ok) { x.probe("solved_on_faulty_qp"); continue; }
            double last = std::pow(w.s.tau, w.s.ls_max - 1); bool exhausted = w.s.ls_max > 1 && g_ho.alpha <= last * 1.001; double bound = 30 * w.s.eps * (1 + g_ho.hscale) / (exhausted ? 1.0 : std::min(1.0, g_ho.alpha)) + 1e-2;
            x.probe(!g_ho.qp_ok ? "stationarity_checked_on_unsolved_qp" : exhausted ? "stationarity_checked_after_exhausted_line_search" : "stationarity_checked");
            if (!(k.stat <= bound)) { x.fail(!g_ho.qp_ok ? "solved-on-unsolved-qp" : exhausted ? "solved-after-exhausted-line-search" : "solved-not-stationary", "%s: operation %zu: status SOLVED with Lagrangian gradient %.4g (curvature %.3g, last step length %.3g, eps %.3g)", w.c.name.c_str(), i, k.stat, g_ho.hscale, g_ho.alpha, w.s.eps); return; }
            if (!exhausted && g_ho.qp_ok && !(k.comp <= 30 * w.s.eps * (1 + k.yscale) / std::min(1.0, g_ho.alpha) + 1e-2)) { x.fail("solved-not-complementary", "%s: operation %zu: status SOLVED with complementarity gap %.4g (eps %.3g)", w.c.name.c_str(), i, k.comp, w.s.eps); return; }
        } } }
static Reg n01({"n01_honest", [](Rng& r, Plan& p, bool t) { gen_hist(r, p, t, 0.35); }, run_n01});

// ---------------- N02: a re-seeded used solver answers like a newly constructed one ----------------
static double dist(const VectorXd& a, const VectorXd& b) { double m = 0; for (int i = 0; i < a.size(); ++i) { if (bad(a(i)) != bad(b(i))) return 1e300; if (!bad(a(i))) m = std::max(m, std::fabs(a(i) - b(i)) / (1 + std::fabs(b(i)))); } return m; }
static void run_n02(const Plan& p, Ctx& x) { NlpWorld w(p, x); bool hist = false;
    for (size_t i = 1; i < p.ops.size() && !x.failed; ++i) { const Op& o = p.ops[i];
        if (o.name == "set") { w.s = settings(o, w.c.single); x.sig(o.in(0)); } else if (o.name == "crash") { w.crash(o.in(0)); if (!o.in(0)) hist = false; } else if (o.name == "solve") {
            NlpData d = nlp_problem(w.c, o.u(0) + 1); NlpOut r = w.solve(o, d); bool chk = hist && w.seeded && o.in(1) != 3 && !o.in(2) && !o.in(5); hist = true; if (!chk) continue; x.eval();
            VectorXd xg = w.xg, lg = w.lg; auto fresh = [&](double pert) { auto q = w.c.make(); q->set(w.s); q->data(d.p, d.b); VectorXd g = xg; for (int k = 0; k < g.size(); ++k) g(k) *= 1 + pert * (k % 2 ? 1 : -1); g_cb.reset(); g_ls.reset(); return q->solve(&g, &lg); };
            NlpOut f = fresh(0); double tol = w.c.single ? 1e-3 : 1e-6; auto differ = [&](const NlpOut& a, const NlpOut& b, double t) { return a.status != b.status || a.iter != b.iter || !(dist(a.x, b.x) <= t) || !(dist(a.lam, b.lam) <= t * 10); };
            if (!differ(r, f, tol)) { x.probe("compared_after_history"); x.nontrivial(); x.vec(f.x); continue; }
            double pe = w.c.single ? 1e-6 : 1e-12; if (differ(fresh(pe), f, tol / 10) || differ(fresh(-pe), f, tol / 10) || differ(fresh(3 * pe), f, tol / 10)) { x.probe("skipped_rounding_sensitive"); continue; }
            x.fail("history-dependent", "%s: operation %zu: status %d iterations %d qp iterations %d against %d %d %d of a new solver; solutions differ by %.3g (x) %.3g (dual)", w.c.name.c_str(), i, r.status, r.iter, r.qp_iter, f.status, f.iter, f.qp_iter, dist(r.x, f.x), dist(r.lam, f.lam)); return; } } }
static Reg n02({"n02_history", [](Rng& r, Plan& p, bool t) { gen_hist(r, p, t, 0.3); p.ops.push_back({"solve", {double(r.sub() % 100000), r.chance(0.7) ? 1. : 2., 0, 0, 0, 0, 0}}); }, run_n02});

// ---------------- N03: interrupted solves make progress ----------------
// one convex problem, solved in slices of a few iterations with faults, restarts and lost checkpoints; once faults stop, the
// solver reaches SOLVED within a bounded number of iterations and at the solution
static bool convexk(const NlpCfg& c) { return (c.kind == NK_CONVEX || c.kind == NK_BOX) && !c.filter; }
static void run_n03(const Plan& p, Ctx& x) { NlpWorld w(p, x); if (!convexk(w.c)) { Plan q = p; int k = q.ops[0].in(0); while (!convexk(nlp_cfg(k))) ++k; q.ops[0].a[0] = k; run_n03(q, x); return; }
    NlpData d = nlp_problem(w.c, p.ops[0].u(1) + 1); NlpSet s; s.max_iter = 1; s.ls_max = 100; s.qp_max = 2000; s.qp_check = 10; s.eps = w.c.single ? 1e-2 : t_eps(p.ops[0].in(2)); s.qp_eps = w.c.single ? 1e-4 : s.eps * 0.01; s.tau = t_tau(p.ops[0].in(3)); s.eta = t_eta(p.ops[0].in(4)); s.qp_adaptive = true; VectorXd ckx = d.x0, ckl = VectorXd::Zero(w.c.ne + w.c.ni + w.c.n); bool reseed = true; int st = -1; NlpOut r;
    auto slice = [&](int len, int cb, int which, int at, int ls, int lat) { s.max_iter = len; w.q->set(s); w.q->data(d.p, d.b); g_cb.reset(cb, which, at); g_ls.reset(w.c.spied ? ls : 0, lat); VectorXd gx = ckx, gl = ckl; r = w.q->solve(reseed ? &gx : nullptr, reseed ? &gl : nullptr); reseed = false; if (g_cb.fired) x.fault("callback"); if (g_ls.fired) x.fault("linear_solver"); g_cb.kind = 0; g_ls.kind = 0; x.ival(r.status); x.vec(r.x); x.ticks(r.qp_iter); if (x.verbose) { x.log("slice len=%d cb=%d ls=%d -> status %d iter %d alpha %g qp_ok %d pn %g dn %g viol %g", len, cb, ls, r.status, r.iter, g_ho.alpha, g_ho.qp_ok, r.pn, r.dn, r.viol); for (int k = 0; k < r.x.size(); ++k) printf(" %g", r.x(k)); printf(" |"); for (int k = 0; k < r.lam.size(); ++k) printf(" %g", r.lam(k)); printf("\n"); } return r.status; };
    for (size_t i = 1; i < p.ops.size(); ++i) { const Op& o = p.ops[i];
        if (o.name == "slice") { slice(o.in(0), o.in(1), o.in(2), o.in(3), o.in(4), o.in(5)); if (r.status != NLP_SOLVED) x.fault("budget_slice"); bool ok = true; for (int k = 0; k < r.x.size(); ++k) if (bad(r.x(k)) || std::fabs(r.x(k)) > 20) ok = false; for (int k = 0; k < r.lam.size(); ++k) if (bad(r.lam(k)) || std::fabs(r.lam(k)) > 1e3) ok = false; if (!ok) { ckx = d.x0; ckl.setZero(); reseed = true; x.probe("iterate_lost"); } else if (o.in(6)) { ckx = r.x; ckl = r.lam; x.probe("checkpoint"); } }
        else if (o.name == "crash") { w.crash(o.in(0)); if (!o.in(0)) reseed = true; } else if (o.name == "lose") { ckx = d.x0; ckl.setZero(); x.fault("checkpoint_lost"); reseed = true; } }
    // faults stop: drain in slices of the last used length
    int len = 1 + p.ops[0].in(5) % 8, used = 0, tries = 0; x.nontrivial(); x.eval(); for (; used < 60; used += len) { st = slice(len, 0, 0, 0, 0, 0); if (st == NLP_SOLVED) break; }
    // a watchdog re-seeds the solver with the initial guess when the slices do not converge
    for (; st != NLP_SOLVED && tries < 8; ++tries) { Rng rr(p.ops[0].u(1) * 13 + tries); ckx = d.x0; if (tries) for (int k = 0; k < ckx.size(); ++k) ckx(k) = rr.uni(-1.5, 1.5); ckl.setZero(); reseed = true; st = slice(150, 0, 0, 0, 0, 0); x.probe("watchdog_restart"); }
    x.sig(w.c.kind); x.sig(st); x.sig(len); x.sig(tries); if (st == NLP_SOLVED) x.probe("drained"); x.probe("drain_iterations", used + 1);
    if (st != NLP_SOLVED) { x.fail("no-progress", "%s: not solved in slices of %d, nor by 8 watchdog restarts, after faults stopped; step %.3g violation %.3g", w.c.name.c_str(), len, r.pn, r.viol); return; }
    double last = std::pow(s.tau, s.ls_max - 1); if (!g_ho.qp_ok || g_ho.alpha <= last * 1.001) { x.probe("solved_without_accepted_step"); return; }
    NlpKkt k = nlp_kkt(w.c, d, r); double bound = 30 * s.eps * (1 + g_ho.hscale) / std::min(1.0, g_ho.alpha) + 1e-2; if (!k.finite || !(k.viol <= s.eps * 1.001 + 1e-5) || !(k.stat <= bound)) x.fail("wrong-result", "%s: the interrupted solve ended at violation %.3g, Lagrangian gradient %.3g (bound %.3g)", w.c.name.c_str(), k.viol, k.stat, bound); }
static Reg n03({"n03_progress", [](Rng& r, Plan& p, bool t) { p.ops.push_back({"cfg", {double(r.irange(0, 1000)), double(r.sub() % 100000), double(r.irange(0, 3)), double(r.irange(0, 2)), double(r.irange(0, 2)), double(r.irange(0, 7))}}); int n = r.irange(1, t ? 14 : 7);
    for (int i = 0; i < n; ++i) { double u = r.u01(); if (u < 0.15) p.ops.push_back({"crash", {double(r.chance(0.5))}}); else if (u < 0.22) p.ops.push_back({"lose", {}}); bool f = r.chance(0.35), g = r.chance(0.25); p.ops.push_back({"slice", {double(r.irange(1, 5)), double(f ? r.irange(1, 4) : 0), double(r.irange(0, 2)), double(r.irange(1, 12)), double(g ? r.irange(1, 5) : 0), double(r.irange(1, 60)), double(r.chance(0.5))}}); } }, run_n03});

// ---------------- N05 (live part): the quasi-Newton matrix of a faulted solver stays symmetric and positive definite ----------------
static void run_n05(const Plan& p, Ctx& x) { NlpWorld w(p, x); if (!w.c.quasi) { Plan q = p; int k = q.ops[0].in(0); while (!nlp_cfg(k).quasi) ++k; q.ops[0].a[0] = k; run_n05(q, x); return; }
    for (size_t i = 1; i < p.ops.size() && !x.failed; ++i) { const Op& o = p.ops[i];
        if (o.name == "set") { w.s = settings(o, w.c.single); x.sig(o.in(0)); } else if (o.name == "crash") w.crash(o.in(0)); else if (o.name == "solve") {
            NlpData d = nlp_problem(w.c, o.u(0) + 1); g_ho = HessObs(); w.solve(o, d); x.eval(double(g_ho.updates)); x.probe("hessian_updates", double(g_ho.updates)); if (g_ho.updates) x.nontrivial();
            if (g_ho.notsym) { x.fail("not-symmetric", "%s: operation %zu: %ld of %ld quasi-Newton updates lost symmetry (relative asymmetry %.3g)", w.c.name.c_str(), i, g_ho.notsym, g_ho.updates, g_ho.worst_sym); return; }
            if (g_ho.notpd) { x.fail("not-positive-definite", "%s: operation %zu: %ld of %ld quasi-Newton updates of a positive definite matrix gave an indefinite or non-finite one (relative eigenvalue %.3g)", w.c.name.c_str(), i, g_ho.notpd, g_ho.updates, g_ho.worst_eig); return; } } } }
static Reg n05({"n05_live", [](Rng& r, Plan& p, bool t) { gen_hist(r, p, t, 0.35); }, run_n05, 0.5});
