// Scenarios Q01..Q05: one persistent QP solver per run, driven through a seeded history of solves, faults,
// budget cuts, setting changes, snapshots and crashes.
#include "qp_common.hpp"
#define DEF(T, NAME, ...) static T NAME(int i) { static const T v[] = {__VA_ARGS__}; const int n = int(sizeof v / sizeof v[0]); return v[((i % n) + n) % n]; }
DEF(double, tab_alpha, 1.0, 0.6, 1.2, 1.4, 1.6, 1.8, 0.9)
DEF(double, tab_rho, 0.1, 0.02, 0.5, 1.0, 5.0)
DEF(int, tab_maxit, 1000, 1, 7, 24, 25, 26, 60, 300, 4000)
DEF(int, tab_check, 25, 1, 10, 40, 0)
DEF(int, tab_int, 25, 1, 10, 50, 17)
DEF(double, tab_tol, 5, 2, 10, 1.5)
DEF(double, tab_sigma, 1e-6, 1e-4, 1e-2)
DEF(double, tab_eps, 1e-3, 1e-4, 1e-5, 1e-2)

static QpSet settings(const Op& o) { QpSet s; s.alpha = tab_alpha(o.in(0)); s.rho = tab_rho(o.in(1)); s.adaptive = o.in(2) != 0; s.max_iter = tab_maxit(o.in(3)); s.check = tab_check(o.in(4)); s.interval = tab_int(o.in(5)); s.eps_rel = s.eps_abs = tab_eps(o.in(6)); s.tol = tab_tol(o.in(7)); s.sigma = tab_sigma(o.in(8)); return s; }
static Op gen_settings(Rng& r, bool cut = true) { Op o{"set", {}}; o.a = {double(r.irange(0, 6)), double(r.irange(0, 4)), double(r.chance(0.5)), double(cut ? (r.chance(0.5) ? 0 : r.irange(0, 8)) : 0), double(r.chance(0.5) ? 0 : r.irange(0, 4)), double(r.irange(0, 4)), double(r.irange(0, 3)), double(r.irange(0, 3)), double(r.irange(0, 2))}; return o; }
// solve: pseed kind guess fault pos ls ls_at reuse carry (1..3: keep the matrices of the previous call)
static Op gen_solve(Rng& r, double pfault, double preuse) { Op o{"solve", {}}; double kind = r.chance(0.6) ? 0 : r.irange(1, 4), guess = r.chance(0.4) ? 0 : r.irange(1, 4), fault = r.chance(pfault) ? r.irange(1, 6) : 0, ls = r.chance(pfault) ? r.irange(1, 5) : 0;
    o.a = {double(r.sub() % 100000), kind, guess, fault, double(r.irange(0, 60)), ls, double(r.chance(0.5) ? r.irange(1, 30) : r.irange(1, 300)), double(r.chance(preuse)), double(r.chance(0.35) ? r.irange(1, 3) : 0)}; return o; }

struct QpWorld { const QpCfg& c; Ctx& x; std::unique_ptr<IQp> q; QpSet s; uint64_t pat; bool full; int kind = 0; bool prev = false; QpData last; bool built = false, gused = false, gfin = false; VectorXd lx, ly, gx, gy;
    QpWorld(const Plan& p, Ctx& x_) : c(qp_cfg(p.ops[0].in(0))), x(x_) { pat = p.ops[0].u(1) + 1; full = p.ops[0].in(2) == 0; q = c.make(); q->set(s); lx = VectorXd::Zero(c.n); ly = VectorXd::Zero(c.n + c.m); x.sig(p.ops[0].in(0)); }
    void crash(bool snapshot) { x.fault(snapshot ? "snapshot_restore" : "crash_restart"); if (snapshot) { auto n = q->copy(); if (n) { q = std::move(n); return; } } q = c.make(); q->set(s); built = false; }
    bool guess(int mode, Rng& r, VectorXd& xg, VectorXd& yg) { xg = VectorXd::Zero(c.n); yg = VectorXd::Zero(c.n + c.m); if (mode == 0) return false;
        if (mode == 2) { xg = lx; yg = ly; } if (mode == 3) { for (int i = 0; i < c.n; ++i) xg(i) = r.uni(-5, 5); for (int i = 0; i < c.n + c.m; ++i) yg(i) = r.uni(-5, 5); }
        if (mode == 4) { xg(int(r.next() % c.n)) = std::numeric_limits<double>::quiet_NaN(); x.fault("nan_guess"); } return true; }
    QpData data(const Op& o) { QpData d; int cm = o.a.size() > 8 ? o.in(8) : 0;
        if (cm && prev) { d = last; qp_revector(d, o.u(0) + 1, cm, !full || kind >= PK_NONCONVEX); if (cm == 1 && kind == PK_INFEAS) kind = PK_REG; x.sig(100 + cm); x.probe("matrices_kept"); } else { d = qp_problem(c, o.u(0) + 1, pat, o.in(1), full); kind = o.in(1); }
        last = d; prev = true; if (o.in(3)) if (qp_poison(d, o.in(3), o.in(4))) { static const char* nm[] = {"", "nan_hessian", "nan_gradient", "nan_jacobian", "inf_gradient", "inf_jacobian", "inf_hessian"}; x.fault(nm[o.in(3)]); } if (kind == PK_INFEAS) x.fault("infeasible_problem"); return d; }
    QpOut solve(const Op& o, const QpData& d) { Rng r(o.u(0) * 31 + 5); VectorXd xg, yg; bool g = guess(o.in(2), r, xg, yg); gused = g; gx = xg; gy = yg; gfin = true; for (int i = 0; i < gx.size(); ++i) gfin = gfin && std::fabs(gx(i)) < 1e4; for (int i = 0; i < gy.size(); ++i) gfin = gfin && std::fabs(gy(i)) < 1e4;
        int ls = c.spied ? o.in(5) : 0; g_ls.reset(ls, o.in(6)); s.reuse = o.in(7) && built; q->set(s);
        QpOut r_ = q->solve(d, g ? &xg : nullptr, g ? &yg : nullptr); built = true;
        if (g_ls.fired) { static const char* nm[] = {"", "ls_nan_once", "ls_perturbed", "ls_zero", "ls_factor_fail", "ls_nan_forever"}; x.fault(nm[ls]); } if (r_.status == QP_MAXITER) x.fault("budget_exhausted");
        g_ls.kind = 0; lx = r_.x; ly = r_.y; x.sig(r_.status); x.sig(s.reuse); x.ival(r_.status); x.ival(r_.iter); x.vec(r_.x); x.vec(r_.y); x.ticks(r_.spied_ticks()); return r_; }
};
static bool data_bad(const QpData& d) { for (int i = 0; i < d.H.size(); ++i) if (bad(d.H.data()[i])) return true; for (int i = 0; i < d.A.size(); ++i) if (bad(d.A.data()[i])) return true; for (int i = 0; i < d.h.size(); ++i) if (bad(d.h(i))) return true; return false; }

static void gen_history(Rng& r, Plan& p, bool thorough, double pf, double preuse, bool cut) {
    p.ops.push_back({"cfg", {double(r.irange(0, 63)), double(r.sub() % 5000), double(r.chance(0.25)), 0}});
    p.ops.push_back(gen_settings(r, cut)); int n = r.irange(2, thorough ? 14 : 8);
    for (int i = 0; i < n; ++i) { double u = r.u01(); if (u < 0.12) p.ops.push_back(gen_settings(r, cut)); else if (u < 0.18) p.ops.push_back({"crash", {double(r.chance(0.5))}}); p.ops.push_back(gen_solve(r, pf, preuse)); } }

// ---------------- Q01: SOLVED is never a lie ----------------
static void run_q01(const Plan& p, Ctx& x) { QpWorld w(p, x); x.strict_asserts = true;
    for (size_t i = 1; i < p.ops.size() && !x.failed; ++i) { const Op& o = p.ops[i];
        if (o.name == "set") { w.s = settings(o); x.sig(o.in(0)); } else if (o.name == "crash") w.crash(o.in(0)); else if (o.name == "solve") {
            QpData d = w.data(o); QpOut r = w.solve(o, d); x.eval(); if (r.status == QP_SOLVED) { x.probe("solved"); x.nontrivial(); }
            std::string det, c = qp_honest(d, r, w.s, w.c.single, det); x.log("op %zu solve %s kind=%d fault=%d ls=%d -> status %d iter %d", i, w.c.name.c_str(), o.in(1), o.in(3), o.in(5), r.status, r.iter);
            if (c.empty() && r.status == QP_SOLVED && data_bad(d)) { c = "solved-nonfinite-data"; det = "status SOLVED for a problem whose data contain NaN or Inf"; }
            if (!c.empty()) { x.fail(c, "%s: operation %zu: %s", w.c.name.c_str(), i, det.c_str()); return; } } } }
static Reg q01({"q01_honest", [](Rng& r, Plan& p, bool t) { gen_history(r, p, t, 0.25, 0.4, true); }, run_q01});

// ---------------- Q02 / Q03: a used solver answers like a fresh one ----------------
// loose = the two objects legitimately round differently (in-place value update against a rebuilt matrix)
static bool same(const QpOut& a, const QpOut& b, bool single, bool loose, std::string& d, double tol_ = 0) { char t[300];
    if (a.status != b.status || a.iter != b.iter) { if (loose && single) return true; snprintf(t, 300, "status/iterations %d/%d against %d/%d", a.status, a.iter, b.status, b.iter); d = t; return false; }
    double tol = single ? (loose ? 5e-2 : 1e-4) : (loose ? 1e-6 : 1e-9); if (tol_ > 0) tol = tol_; double sx = 1, sy = 1;
    for (int i = 0; i < a.x.size(); ++i) if (!bad(b.x(i))) sx = std::max(sx, std::fabs(b.x(i))); for (int i = 0; i < a.y.size(); ++i) if (!bad(b.y(i))) sy = std::max(sy, std::fabs(b.y(i)));
    auto cmp = [&](double u, double v, double sc) { if (u == v) return true; if (u != u && v != v) return true; if (loose && bad(u) && bad(v)) return true; return std::fabs(u - v) <= tol * sc; };
    for (int i = 0; i < a.x.size(); ++i) if (!cmp(a.x(i), b.x(i), sx)) { snprintf(t, 300, "primal[%d] %.12g against %.12g", i, a.x(i), b.x(i)); d = t; return false; }
    for (int i = 0; i < a.y.size(); ++i) if (!cmp(a.y(i), b.y(i), sy)) { snprintf(t, 300, "dual[%d] %.12g against %.12g", i, a.y(i), b.y(i)); d = t; return false; }
    if (!cmp(a.rp, b.rp, sx + sy) || !cmp(a.rd, b.rd, sx + sy)) { snprintf(t, 300, "reported residuals %.9g/%.9g against %.9g/%.9g", a.rp, a.rd, b.rp, b.rd); d = t; return false; }
    return true; }
static void run_fresh(const Plan& p, Ctx& x, bool reuse) { QpWorld w(p, x); int used = 0;
    for (size_t i = 1; i < p.ops.size() && !x.failed; ++i) { Op o = p.ops[i];
        if (o.name == "set") { w.s = settings(o); x.sig(o.in(0)); } else if (o.name == "crash") { w.crash(o.in(0)); used = 0; } else if (o.name == "solve") {
            if (o.a.size() < 8) o.a.resize(8); if (!reuse) o.a[7] = 0;
            QpData d = w.data(o); VectorXd px = w.lx, py = w.ly; bool lsf = w.c.spied && o.in(5); QpOut r = w.solve(o, d); bool ru = w.s.reuse; ++used;
            x.log("op %zu solve %s kind=%d fault=%d ls=%d reuse=%d -> status %d iter %d", i, w.c.name.c_str(), o.in(1), o.in(3), o.in(5), ru, r.status, r.iter);
            if (lsf && r.fired) continue;      // the numerical fault itself changed this answer; the next one is compared
            if (reuse && !ru) continue;
            if (reuse) { // an in-place update may round differently; on ill-posed calls that is amplified without bound, so those are history only
                std::string det, c = qp_honest(d, r, w.s, w.c.single, det); if (!c.empty() && !data_bad(d)) { x.fail(c, "%s: operation %zu (reuse_pattern=1): %s", w.c.name.c_str(), i, det.c_str()); return; }
                bool clean = w.kind == PK_REG && w.full && !o.in(3) && o.in(2) != 4; if (o.in(2) == 2) { double g = std::max(px.cwiseAbs().maxCoeff(), py.cwiseAbs().maxCoeff()); if (!(g < 1e3)) clean = false; }
                bool lp = w.kind == PK_REG && !w.full && !o.in(3) && o.in(2) < 2; if (w.s.adaptive && (w.c.single || w.s.interval < 10)) clean = false;
                if (w.s.adaptive || w.c.single) lp = false;
                if (!clean && !lp) { x.probe("ill_posed_not_compared"); continue; } }
            // residual fields are only defined once a residual was computed in this call
            std::unique_ptr<IQp> f = w.c.make(); QpSet s = w.s; s.reuse = false; f->set(s); Rng rr(o.u(0) * 31 + 5); VectorXd sx = w.lx, sy = w.ly, xg, yg; w.lx = px; w.ly = py; bool st = x.st; Stats* keep = x.st; x.st = nullptr; (void)st; uint64_t sh = x.sigh; bool g = w.guess(o.in(2), rr, xg, yg); x.st = keep; x.sigh = sh; w.lx = sx; w.ly = sy;
            g_ls.reset(); QpData d0 = d; d0.form = 0; if (w.c.sparse && d.form) x.probe(d.form & 3 ? "compressed_matrices" : "spare_room_in_matrices"); QpOut b = f->solve(d0, g ? &xg : nullptr, g ? &yg : nullptr);
            bool res = w.s.check > 0 && w.s.check <= w.s.max_iter; if (!res) { r.rp = b.rp; r.rd = b.rd; }
            x.eval(); if (used > 1) { x.nontrivial(); x.probe("compared_after_history"); } std::string det;
            if (!same(r, b, w.c.single, ru, det)) { // does rounding alone decide this answer? then it says nothing about the history
                bool sens = false; for (int k = 0; k < 6 && !sens; ++k) { QpData e = d; Rng q(91 + k); double pe = w.c.single ? 3e-7 : 1e-12; for (int j = 0; j < e.A.size(); ++j) e.A.data()[j] *= 1 + pe * q.uni(-1, 1); for (int j = 0; j < e.h.size(); ++j) e.h(j) *= 1 + pe * q.uni(-1, 1); std::unique_ptr<IQp> n = w.c.make(); n->set(s); QpOut y = n->solve(e, g ? &xg : nullptr, g ? &yg : nullptr); if (!res) { y.rp = b.rp; y.rd = b.rd; } std::string dd; if (!same(y, b, w.c.single, true, dd)) sens = true; }
                if (sens) { x.probe("rounding_sensitive_not_compared"); continue; }
                x.fail(ru ? "reuse-differs" : "history-dependent", "%s: operation %zu (call %d on this object, reuse_pattern=%d): %s from a fresh solver", w.c.name.c_str(), i, used, ru, det.c_str()); return; } } } }
static Reg q02({"q02_history", [](Rng& r, Plan& p, bool t) { gen_history(r, p, t, 0.2, 0.0, true); }, [](const Plan& p, Ctx& x) { run_fresh(p, x, false); }});
static Reg q03({"q03_reuse", [](Rng& r, Plan& p, bool t) { for (;;) { p.ops.clear(); gen_history(r, p, t, 0.15, 0.75, true); if (qp_cfg(p.ops[0].in(0)).sparse || r.chance(0.1)) break; } }, [](const Plan& p, Ctx& x) { run_fresh(p, x, true); }});

// ---------------- Q04: interrupted solves still finish ----------------
static void run_q04(const Plan& p, Ctx& x) { QpWorld w(p, x); w.s = settings(p.ops[0].a.size() > 4 ? Op{"set", std::vector<double>(p.ops[0].a.begin() + 4, p.ops[0].a.end())} : Op{"set", {}}); if (w.s.check == 0) w.s.check = 25; if (w.s.eps_abs < 1e-4) w.s.eps_abs = w.s.eps_rel = 1e-4; if (w.c.single) w.s.eps_abs = w.s.eps_rel = 1e-2;
    QpData d = qp_problem(w.c, p.ops[0].u(3) + 1, w.pat, PK_REG, true); VectorXd gx = VectorXd::Zero(w.c.n), gy = VectorXd::Zero(w.c.n + w.c.m); bool have = false; long total = 0; bool built = false; QpOut r; bool solved = false;
    auto slice = [&](int it, int ls, int at) { w.s.max_iter = it; w.s.reuse = built && false; w.q->set(w.s); g_ls.reset(w.c.spied ? ls : 0, at); r = w.q->solve(d, have ? &gx : nullptr, have ? &gy : nullptr); built = true; total += std::min(r.iter, it); x.ticks(std::min(r.iter, it)); if (g_ls.fired) x.fault(ls == 2 ? "ls_perturbed" : "ls_nan_once"); g_ls.kind = 0;
        bool fin = true; for (int i = 0; i < r.x.size(); ++i) fin = fin && !bad(r.x(i)); for (int i = 0; i < r.y.size(); ++i) fin = fin && !bad(r.y(i)); if (fin) { gx = r.x; gy = r.y; have = true; } else x.probe("checkpoint_discarded"); x.ival(r.status); x.vec(r.x); x.sig(r.status); };
    for (size_t i = 1; i < p.ops.size(); ++i) { const Op& o = p.ops[i]; if (o.name == "slice") { slice(std::max(1, o.in(0)), o.in(1), o.in(2)); x.fault("budget_cut"); x.log("slice %d ls=%d -> status %d iter %d", o.in(0), o.in(1), r.status, r.iter); } else if (o.name == "crash") { w.crash(false); built = false; if (o.in(0)) { have = false; gx.setZero(); gy.setZero(); x.fault("checkpoint_lost"); } } }
    // faults have stopped: one uninterrupted solve from the checkpoint must keep up with the reference model of the same method
    if (!w.c.single) { QpSet rs = w.s; rs.max_iter = 6000; QpOut ref = qp_ref(w.c, d, rs, have ? &gx : nullptr, have ? &gy : nullptr);
        if (ref.status == QP_SOLVED && !ref.noisy) { QpSet keep = w.s; w.s.max_iter = 3 * ref.iter + 400; w.s.reuse = false; w.q->set(w.s); g_ls.reset(); QpOut f = w.q->solve(d, have ? &gx : nullptr, have ? &gy : nullptr); x.probe("paced_against_reference"); x.ticks(std::min(f.iter, w.s.max_iter)); x.log("pace: reference %d iterations, solver status %d after %d", ref.iter, f.status, f.iter);
            if (f.status != QP_SOLVED) { bool sens = false; for (int k = 0; k < 6 && !sens; ++k) { QpData e = d; Rng q(91 + k); for (int j = 0; j < e.A.size(); ++j) e.A.data()[j] *= 1 + 1e-10 * q.uni(-1, 1); for (int j = 0; j < e.h.size(); ++j) e.h(j) *= 1 + 1e-10 * q.uni(-1, 1); QpSet ps = rs; ps.max_iter = w.s.max_iter; if (qp_ref(w.c, e, ps, have ? &gx : nullptr, have ? &gy : nullptr).status != QP_SOLVED) sens = true; }
                if (sens) x.probe("rounding_sensitive_not_compared"); else { x.fail("slower-than-reference", "%s: not solved within %d iterations, the reference model of the method needs %d from the same point (alpha=%g rho=%g adaptive=%d interval=%d tolerance=%g)", w.c.name.c_str(), w.s.max_iter, ref.iter, w.s.alpha, w.s.rho, w.s.adaptive, w.s.interval, w.s.tol); return; } }
            w.s = keep; } }
    // the remaining work arrives in slices of the same kind of budget
    long before = total; const int chunk = 25 * std::max(1, p.ops[0].in(2) ? 8 : 4); const long limit = 40000; int slices = 0;
    while (total - before < limit) { slice(std::max(chunk, 2 * std::max(w.s.check, 1)), 0, 0); ++slices; if (r.status == QP_SOLVED) { solved = true; break; } }
    // a supervisor grants longer slices and other penalty parameters to a problem that converges slowly in the given ones
    { static const double er[] = {0, 0.1, 1, 10, 0.1, 1, 10, 0.01}; for (int e = 0; e < 8 && !solved; ++e) { if (e) { w.s.rho = er[e]; w.s.adaptive = e < 4 ? w.s.adaptive : e == 7; w.s.interval = 50; } x.probe("escalated"); have = have && e == 0; for (int k = 0; k < 2 && !solved; ++k) { slice(20000, 0, 0); solved = r.status == QP_SOLVED; } } }
    x.eval(); x.nontrivial(); x.probe("iters_after_faults", double(total - before)); if (x.st) { double& mx = x.st->c["max.iters_after_faults"]; (void)mx; } x.log("drained %ld iterations in %d slices", total - before, slices);
    if (!solved) { x.fail("no-progress", "%s: a strictly convex feasible QP was not solved within %ld iterations after the last fault, nor with longer slices and other penalty parameters (alpha=%g rho=%g adaptive=%d interval=%d chunk=%d)", w.c.name.c_str(), limit, w.s.alpha, w.s.rho, w.s.adaptive, w.s.interval, chunk); return; }
    std::string det, c = qp_honest(d, r, w.s, w.c.single, det); if (!c.empty()) { x.fail(c, "%s: %s", w.c.name.c_str(), det.c_str()); return; } }
static Reg q04({"q04_progress", [](Rng& r, Plan& p, bool t) {
    Op c{"cfg", {double(r.irange(0, 63)), double(r.sub() % 5000), double(r.chance(0.3)), double(r.sub() % 100000)}}; Op s = gen_settings(r, false); c.a.insert(c.a.end(), s.a.begin(), s.a.end()); p.ops.push_back(c);
    int n = r.irange(0, t ? 8 : 4); for (int i = 0; i < n; ++i) { if (r.chance(0.3)) p.ops.push_back({"crash", {double(r.chance(0.3))}}); int ls = r.chance(0.3) ? r.irange(1, 2) : 0; p.ops.push_back({"slice", {double(r.irange(1, 120)), double(ls), double(r.irange(1, 60))}}); } }, run_q04});

// ---------------- Q05: effort never exceeds the budget ----------------
static void run_q05(const Plan& p, Ctx& x) { QpWorld w(p, x);
    for (size_t i = 1; i < p.ops.size() && !x.failed; ++i) { const Op& o = p.ops[i];
        if (o.name == "set") { w.s = settings(o); x.sig(o.in(3)); } else if (o.name == "crash") w.crash(o.in(0)); else if (o.name == "solve") { QpData d = w.data(o); QpOut r = w.solve(o, d); const QpSet& s = w.s;
            x.log("op %zu max_iter=%d check=%d -> status %d iter %d backsolves %ld factorisations %ld", i, s.max_iter, s.check, r.status, r.iter, r.solves, r.factors); x.eval(); x.nontrivial();
            if (r.status != QP_SOLVED && r.status != QP_MAXITER) { x.fail("no-verdict", "%s: operation %zu ended with status %d", w.c.name.c_str(), i, r.status); return; }
            if (r.istatus != r.status) { x.fail("status-mismatch", "%s: returned %d, info says %d", w.c.name.c_str(), r.status, r.istatus); return; }
            if (r.status == QP_SOLVED) { if (s.check == 0) { x.fail("solved-unchecked", "%s: SOLVED although termination checks are disabled", w.c.name.c_str()); return; }
                if (r.iter < 1 || r.iter > s.max_iter || r.iter % s.check != 0) { x.fail("iter-count", "%s: SOLVED with iter=%d (max_iter %d, check every %d)", w.c.name.c_str(), r.iter, s.max_iter, s.check); return; } }
            else if (r.iter < s.max_iter || r.iter > s.max_iter + 1) { x.fail("iter-count", "%s: MAX_ITER_EXCEEDED after iter=%d, max_iter=%d", w.c.name.c_str(), r.iter, s.max_iter); return; }
            if (w.c.spied) { long want = r.status == QP_SOLVED ? r.iter : s.max_iter; if (r.solves != want) { x.fail("effort", "%s: %ld back-solves for %ld reported iterations (max_iter %d)", w.c.name.c_str(), r.solves, want, s.max_iter); return; }
                long fmax = 1 + (s.adaptive ? want / std::max(1, s.interval) : 0); if (r.factors < 1 || r.factors > fmax) { x.fail("factorisations", "%s: %ld factorisations, at most %ld possible", w.c.name.c_str(), r.factors, fmax); return; }
                if (s.adaptive && !w.c.single && !r.fired && w.kind == PK_REG && !o.in(3) && o.in(2) != 4 && !data_bad(d) && (o.in(2) != 2 || w.gfin)) { QpSet rs = s; QpOut ref = qp_ref(w.c, d, rs, w.gused ? &w.gx : nullptr, w.gused ? &w.gy : nullptr); x.probe("refactorisations_compared");
                    long mf = ref.factors; if (!ref.noisy && r.factors > 3 * mf + 3) for (int k = 0; k < 12; ++k) { QpData e = d; Rng q(91 + k); double pe = k < 6 ? 1e-10 : 1e-9; for (int j = 0; j < e.A.size(); ++j) e.A.data()[j] *= 1 + pe * q.uni(-1, 1); for (int j = 0; j < e.h.size(); ++j) e.h(j) *= 1 + pe * q.uni(-1, 1); mf = std::max(mf, qp_ref(w.c, e, rs, w.gused ? &w.gx : nullptr, w.gused ? &w.gy : nullptr).factors); }
                    if (!ref.noisy && r.factors > 3 * mf + 3) { x.fail("needless-refactorisation", "%s: %ld factorisations in %d iterations; the step-size rule (factor %g, every %d iterations) asks for %ld", w.c.name.c_str(), r.factors, r.iter, s.tol, s.interval, mf); return; } } } } } }
static Reg q05({"q05_budget", [](Rng& r, Plan& p, bool t) { gen_history(r, p, t, 0.25, 0.3, true); }, run_q05});

// ---------------- Q06: the iterates are those of the reference model of the method ----------------
static void run_q06(const Plan& p, Ctx& x) { QpWorld w(p, x); int used = 0;
    for (size_t i = 1; i < p.ops.size() && !x.failed; ++i) { const Op& o = p.ops[i];
        if (o.name == "set") { w.s = settings(o); x.sig(o.in(0)); } else if (o.name == "crash") { w.crash(o.in(0)); used = 0; } else if (o.name == "solve") {
            QpData d = w.data(o); QpOut r = w.solve(o, d); QpSet s = w.s; ++used; x.log("op %zu solve %s kind=%d fault=%d ls=%d reuse=%d max_iter=%d -> status %d iter %d", i, w.c.name.c_str(), o.in(1), o.in(3), o.in(5), s.reuse, s.max_iter, r.status, r.iter);
            if (w.c.single || r.fired || o.in(3) || o.in(2) == 4 || !w.gfin || data_bad(d)) continue; if (w.kind != PK_REG) { x.probe("not_strictly_convex_not_compared"); continue; }
            const VectorXd* xg = w.gused ? &w.gx : nullptr; const VectorXd* yg = w.gused ? &w.gy : nullptr; QpOut b = qp_ref(w.c, d, s, xg, yg); bool res = s.check > 0 && s.check <= s.max_iter; if (!res) { r.rp = b.rp; r.rd = b.rd; }
            if (!(b.x.cwiseAbs().maxCoeff() < 1e6) || !(b.y.cwiseAbs().maxCoeff() < 1e6)) { x.probe("diverged_not_compared"); continue; } if (b.noisy) { x.probe("adaptation_at_rounding_level_not_compared"); continue; }
            x.eval(); if (used > 1) { x.nontrivial(); x.probe("compared_after_history"); } if (b.factors > 1) x.probe("compared_with_step_size_changes"); std::string det; double tol = b.factors > 1 ? 1e-3 : 1e-6;
            if (same(r, b, false, true, det, tol)) { if (w.c.spied && r.factors != b.factors) det = "factorisations " + std::to_string(r.factors) + " against " + std::to_string(b.factors); else continue; }
            bool sens = false; for (int k = 0; k < 8 && !sens; ++k) { QpData e = d; Rng q(91 + k); double pe = k < 3 ? 1e-11 : k < 6 || b.factors == 1 ? 1e-10 : 1e-9; for (int j = 0; j < e.A.size(); ++j) e.A.data()[j] *= 1 + pe * q.uni(-1, 1); for (int j = 0; j < e.h.size(); ++j) e.h(j) *= 1 + pe * q.uni(-1, 1); for (int j = 0; j < e.H.size(); ++j) e.H.data()[j] *= 1 + pe * q.uni(-1, 1); QpOut y = qp_ref(w.c, e, s, xg, yg); if (!res) { y.rp = b.rp; y.rd = b.rd; } std::string dd; if (!same(y, b, false, true, dd, tol * (b.factors > 1 ? 0.01 : 1)) || y.factors != b.factors) sens = true; }
            if (sens) { x.probe("rounding_sensitive_not_compared"); continue; }
            x.fail("not-the-method", "%s: operation %zu (call %d on this object, reuse_pattern=%d, alpha=%g rho=%g sigma=%g adaptive=%d interval=%d tolerance=%g max_iter=%d): %s of the reference model", w.c.name.c_str(), i, used, s.reuse, s.alpha, s.rho, s.sigma, s.adaptive, s.interval, s.tol, s.max_iter, det.c_str()); return; } } }
static Reg q06({"q06_refine", [](Rng& r, Plan& p, bool t) { gen_history(r, p, t, 0.12, 0.4, true); }, run_q06});
