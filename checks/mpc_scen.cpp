// Scenarios M01..M07: MPC controllers driven through seeded histories of setter calls, solves and faults, and through a
// simulated networked control loop (plant, sensor, controller, actuator and the messages between them).
#include "mpc_common.hpp"
#include <queue>
#define DEF(T, NAME, ...) static T NAME(int i) { static const T v[] = {__VA_ARGS__}; const int n = int(sizeof v / sizeof v[0]); return v[((i % n) + n) % n]; }
DEF(double, t_len, 2.0, 1.0, 3.0, 0.5, 1.5)
DEF(double, t_off, 0.0, 0.0, 1.0, -1.0, 3.5, 100.0, -20.0, 1000.0)
DEF(int, t_maxit, 30, 1, 2, 3, 6, 12)
DEF(int, t_ls, 20, 1, 2, 5)
DEF(int, t_qp, 1000, 100, 9, 30, 300)
static const double INFD = std::numeric_limits<double>::infinity();
static const char* CBK[] = {"", "nan_once", "nan_forever", "inf_once"};
static const char* CBW[] = {"dynamics_", "lagrange_", "mayer_", "inequality_"};
static const char* LSN[] = {"", "ls_nan_once", "ls_perturbed", "ls_zero", "ls_factor_fail", "ls_nan_forever"};
static VectorXd vrnd(Rng& r, int n, double a, double b) { VectorXd v(n); for (int i = 0; i < n; ++i) v(i) = std::round(r.uni(a, b) * 1024) / 1024; return v; }
static MpcSet setof(const Op& o, size_t k, bool single) { MpcSet s; s.max_iter = t_maxit(o.in(k)); s.ls_max = t_ls(o.in(k + 1)); s.qp_max = t_qp(o.in(k + 2)); if (single) s.qp_eps = 3e-4; return s; }

// one controller with its faults and the reference model of everything the caller has set
struct Ctl { const MpcCfg& c; const MpcDim& q; Ctx& x; std::unique_ptr<IMpc> m; MpcState b; MpcSet s; bool fired = false, cbf = false, lsf = false;
    Ctl(const MpcCfg& c_, Ctx& x_) : c(c_), q(c_.q), x(x_) { renew(); b = m->state(); g_oc.reset(); g_oc.rec = false; g_ls.reset(); }
    void renew() { m = c.make(); m->settings(s); }
    // reference model of the setters: which entries each call owns (solver ordering: final node first, states, controls, parameters)
    static void blk(VectorXd& d, int at, const VectorXd& v) { d.segment(at, v.size()) = v; }
    static VectorXd rep(const VectorXd& v, int n) { return v.replicate(n, 1); }
    double rd(double v) const { return q.single ? double(float(v)) : v; } VectorXd rd(const VectorXd& v) const { return v.unaryExpr([this](double z) { return rd(z); }); }
    void model(int id, const VectorXd& a0, const VectorXd& b0) { VectorXd a = rd(a0), e = rd(b0); int N = q.nodes(), nx = q.nx, vx = q.varx(), vu = q.varu();
        switch (id) { case ST_X0: blk(b.lbx, vx - nx, a); blk(b.ubx, vx - nx, a); break; case ST_X0B: blk(b.lbx, vx - nx, a); blk(b.ubx, vx - nx, e); break;
        case ST_XLB: blk(b.lbx, 0, rep(a, N - 1)); break; case ST_XUB: blk(b.ubx, 0, rep(a, N - 1)); break; case ST_XB: blk(b.lbx, 0, rep(a, N - 1)); blk(b.ubx, 0, rep(e, N - 1)); break; case ST_XTRAJB: blk(b.lbx, 0, a); blk(b.ubx, 0, e); break;
        case ST_XFLB: blk(b.lbx, 0, a); break; case ST_XFUB: blk(b.ubx, 0, a); break; case ST_XFB: blk(b.lbx, 0, a); blk(b.ubx, 0, e); break;
        case ST_ULB: blk(b.lbx, vx, rep(a, N)); break; case ST_UUB: blk(b.ubx, vx, rep(a, N)); break; case ST_UTRAJB: blk(b.lbx, vx, a); blk(b.ubx, vx, e); break; case ST_UB: blk(b.lbx, vx, rep(a, N)); blk(b.ubx, vx, rep(e, N)); break;
        case ST_GTRAJB: b.lbg = a; b.ubg = e; break; case ST_GB: b.lbg = rep(a, N); b.ubg = rep(e, N); break; case ST_PB: blk(b.lbx, vx + vu, a); blk(b.ubx, vx + vu, e); break;
        case ST_D: b.d = a; break; case ST_XG: blk(b.x, 0, a); break; case ST_UG: blk(b.x, vx, a); break; case ST_LG: b.lam = a; break; case ST_PG: blk(b.x, vx + vu, a); break; case ST_TIME: b.t0 = a(0); b.tf = e(0); break; } }
    void set(int id, const VectorXd& a, const VectorXd& e = VectorXd()) { m->set(id, a, e); model(id, a, e); }
    void settings(const MpcSet& t) { s = t; m->settings(s); }
    MpcOut solve(int cbk = 0, int cbw = 0, int cbat = 0, int lsk = 0, int lsat = 0) { g_oc.reset(cbk, cbw, cbat); g_ls.reset(c.spied ? lsk : 0, lsat); MpcOut o = m->solve(); cbf = g_oc.fired; lsf = g_ls.fired; fired = cbf || lsf; if (cbf) x.fault(std::string(CBW[cbw]) + CBK[cbk]); if (lsf) x.fault(LSN[lsk]); g_oc.kind = 0; g_ls.kind = 0; if (o.status != MPC_SOLVED) x.fault("budget_exhausted"); b.x = o.x; b.lam = o.lam; x.sig(o.status); x.ival(o.status); x.ival(o.iter); x.ival(o.qp_iter); x.vec(o.x); x.vec(o.lam); x.ticks(o.qp_iter); return o; }
    // everything the wrapper shows has to be what was set (or solved)
    bool agree(size_t i, const char* after) { MpcState s = m->state(); struct { const char* n; const VectorXd *a, *b; } t[] = {{"lower bounds of the variables", &s.lbx, &b.lbx}, {"upper bounds of the variables", &s.ubx, &b.ubx}, {"lower bounds of the path constraints", &s.lbg, &b.lbg}, {"upper bounds of the path constraints", &s.ubg, &b.ubg}, {"static parameters", &s.d, &b.d}, {"primal iterate", &s.x, &b.x}, {"dual iterate", &s.lam, &b.lam}};
        for (auto& e : t) { if (e.a->size() != e.b->size()) { x.fail("setter-size", "%s: operation %zu: size of the %s", c.name.c_str(), i, e.n); return false; } for (int k = 0; k < e.a->size(); ++k) { double u = (*e.a)(k), v = (*e.b)(k); if (!(u == v) && !(bad(u) && u != u && v != v)) { x.fail("setter-value", "%s: operation %zu (%s): %s entry %d is %.9g, should be %.9g", c.name.c_str(), i, after, e.n, k, u, v); return false; } } }
        double tt = q.single ? 1e-6 : 1e-14, ts = std::max(1.0, std::max(std::fabs(b.t0), std::fabs(b.tf))); LVec ref = mpc_times(q, b.t0, b.tf); int N = q.nodes(); if (std::fabs(s.t0 - rd(b.t0)) > 0 || std::fabs(s.tf - rd(b.tf)) > 0) { x.fail("setter-time", "%s: operation %zu (%s): horizon [%g,%g], should be [%g,%g]", c.name.c_str(), i, after, s.t0, s.tf, b.t0, b.tf); return false; }
        for (int k = 0; k < N; ++k) if (!(fabsl(ref(k) - LD(s.times(N - 1 - k))) <= 50 * tt * ts)) { x.fail("setter-time", "%s: operation %zu (%s): time node %d is %.12g, should be %.12g", c.name.c_str(), i, after, k, s.times(N - 1 - k), double(ref(k))); return false; }
        return true; }
    double vtol(const MpcOut& o) const { double sc = 1 + o.x.cwiseAbs().maxCoeff(); return (q.single ? 3e-5 : 1e-9) * sc * sc; }
    // a SOLVED answer is finite and feasible for what was set, node by node; the reported violation is the true one
    bool safe(size_t i, const MpcOut& o) { x.eval();
        if (o.status != MPC_SOLVED && o.status != MPC_MAXITER) { x.fail("no-verdict", "%s: operation %zu: status %d", c.name.c_str(), i, o.status); return false; }
        if (o.iter < 1 || o.iter > std::max(1, s.max_iter)) { x.fail("iter-count", "%s: operation %zu: iter=%d max_iter=%d", c.name.c_str(), i, o.iter, s.max_iter); return false; }
        if (o.qp_iter > long(o.iter) * (s.qp_max + 1)) { x.fail("qp-iter-count", "%s: operation %zu: %d QP iterations in %d QPs of at most %d", c.name.c_str(), i, o.qp_iter, o.iter, s.qp_max); return false; }
        if (o.status == MPC_SOLVED) { if (!mpc_fin(o.x) || !mpc_fin(o.lam)) { x.fail("solved-nonfinite", "%s: operation %zu: SOLVED with a non-finite prediction", c.name.c_str(), i); return false; } if (!mpc_fin(b.d)) { x.fail("solved-nonfinite", "%s: operation %zu: SOLVED with non-finite static parameters", c.name.c_str(), i); return false; } }
        if (!mpc_fin(o.x)) return true; bool nanb = false; for (int k = 0; k < b.lbx.size(); ++k) nanb = nanb || b.lbx(k) != b.lbx(k) || b.ubx(k) != b.ubx(k); for (int k = 0; k < b.lbg.size(); ++k) nanb = nanb || b.lbg(k) != b.lbg(k) || b.ubg(k) != b.ubg(k); if (nanb) { if (o.status == MPC_SOLVED && !bad(o.viol)) { x.probe("solved_with_nan_bound"); } return true; }
        MpcViol v = mpc_viol(c, b, o.x); double t = s.eps * (1 + 1e-6) + vtol(o);
        if (o.status == MPC_SOLVED) { x.probe("solved"); if (fired) x.probe("solved_after_fault"); x.nontrivial(); if (!(v.box <= t)) { x.fail("solved-outside-bounds", "%s: operation %zu: SOLVED but a bound (initial state, state, control or parameter) is violated by %.4g, eps %.3g", c.name.c_str(), i, double(v.box), s.eps); return false; } if (!(v.ineq <= t)) { x.fail("solved-outside-constraints", "%s: operation %zu: SOLVED but a path constraint is violated by %.4g, eps %.3g", c.name.c_str(), i, double(v.ineq), s.eps); return false; } if (!(v.defect <= t)) { x.fail("solved-off-dynamics", "%s: operation %zu: SOLVED but the collocated dynamics are violated by %.4g, eps %.3g", c.name.c_str(), i, double(v.defect), s.eps); return false; } }
        if (!cbf && !(fabsl(LD(o.viol) - std::max(LD(0), v.all())) <= LD(vtol(o)) + 1e-6 * fabsl(v.all()))) { x.fail("violation-misreported", "%s: operation %zu: constr_violation() is %.6g, the violation at the returned point is %.6g", c.name.c_str(), i, o.viol, double(v.all())); return false; }
        return true; }
    void crash(int kind) { x.fault(kind ? "snapshot_restore" : "crash_restart"); if (kind) { auto n = m->copy(); if (n) { m = std::move(n); return; } } restore(); }
    // a restarted controller: everything the caller knows is set again through the wrapper
    void restore() { MpcState k = b; renew(); b = m->state(); set(ST_TIME, VectorXd::Constant(1, k.t0), VectorXd::Constant(1, k.tf)); int vx = q.varx(), vu = q.varu(); set(ST_XTRAJB, k.lbx.head(vx), k.ubx.head(vx)); set(ST_UTRAJB, k.lbx.segment(vx, vu), k.ubx.segment(vx, vu)); if (q.np) { set(ST_PB, k.lbx.tail(q.np), k.ubx.tail(q.np)); set(ST_PG, k.x.tail(q.np)); } if (q.ng) set(ST_GTRAJB, k.lbg, k.ubg); set(ST_D, k.d); set(ST_XG, k.x.head(vx)); set(ST_UG, k.x.segment(vx, vu)); set(ST_LG, k.lam); }
    void reseed(const VectorXd& x0) { VectorXd z = x0; for (int k = 0; k < z.size(); ++k) if (bad(z(k))) z(k) = 0; set(ST_XG, rep(z, q.nodes())); set(ST_UG, VectorXd::Zero(q.varu())); set(ST_LG, VectorXd::Zero(q.ndual())); if (q.np) set(ST_PG, VectorXd::Zero(q.np)); } };

static void defaults(Ctl& k, uint64_t seed) { Rng r(seed * 977 + 5); const MpcDim& q = k.q; VectorXd d(q.nd); d(0) = std::round(r.uni(0.7, 1.5) * 64) / 64; if (k.c.kind == MK_ROBOT) d(0) = 2; d(1) = r.chance(0.5) ? 0 : std::round(r.uni(-0.4, 0.4) * 64) / 64; k.set(ST_D, d); double ub = k.c.kind == MK_ROBOT ? 1.5 : 3; VectorXd u = VectorXd::Constant(q.nu, ub); if (k.c.kind == MK_ROBOT) u(1) = 0.75; k.set(ST_UB, -u, u); if (q.ng) k.set(ST_GB, VectorXd::Constant(q.ng, -4), VectorXd::Constant(q.ng, 4)); if (q.np) k.set(ST_PB, VectorXd::Constant(q.np, -0.5), VectorXd::Constant(q.np, 0.5)); }
static VectorXd x0of(const MpcCfg& c, uint64_t seed) { Rng r(seed * 31 + 9); double a = c.kind == MK_ROBOT ? 0.5 : c.kind == MK_PEND ? 0.6 : 0.8; return vrnd(r, c.q.nx, -a, a); }

// ---------------- M01: setters ----------------
// set: id seed wild;  solve: cbk cbw cbat lsk lsat
static Op gen_msolve(Rng& r, double pf) { Op o{"solve", {}}; double cb = r.chance(pf) ? r.irange(1, 3) : 0, ls = r.chance(pf * 0.6) ? r.irange(1, 5) : 0; o.a = {cb, double(r.irange(0, 3)), double(r.irange(1, r.chance(0.5) ? 20 : 300)), ls, double(r.chance(0.5) ? r.irange(1, 60) : r.irange(1, 1500))}; return o; }
static Op gen_mset(Rng& r) { return Op{"settings", {double(r.irange(0, 5)), double(r.chance(0.6) ? 0 : r.irange(0, 3)), double(r.chance(0.6) ? 0 : r.irange(0, 4))}}; }
static void do_set(Ctl& k, const Op& o) { int id = o.in(0) % ST_COUNT; const MpcDim& q = k.q; Rng r(o.u(1) * 53 + 3); bool wild = o.in(2);
    if ((id == ST_GTRAJB || id == ST_GB) && !q.ng) return; if ((id == ST_PB || id == ST_PG) && !q.np) return;
    auto two = [&](int n, double c, VectorXd& a, VectorXd& b) { a = vrnd(r, n, -c, -0.3 * c); b = vrnd(r, n, 0.3 * c, c); if (r.chance(0.2)) a(int(r.next() % n)) = -INFD; if (r.chance(0.2)) b(int(r.next() % n)) = INFD; if (wild && r.chance(0.1)) a(int(r.next() % n)) = std::nan(""); };
    VectorXd a, b; int n = 0; double c = 4;
    switch (id) { case ST_X0: k.set(id, x0of(k.c, o.u(1))); return; case ST_X0B: { a = x0of(k.c, o.u(1)); b = a; for (int i = 0; i < q.nx; ++i) b(i) += std::round(r.uni(0, 0.5) * 64) / 64; k.set(id, a, b); return; }
    case ST_XLB: case ST_XUB: case ST_XB: case ST_XFLB: case ST_XFUB: case ST_XFB: n = q.nx; break; case ST_XTRAJB: n = q.varx(); break; case ST_ULB: case ST_UUB: case ST_UB: n = q.nu; c = 3; break; case ST_UTRAJB: n = q.varu(); c = 3; break; case ST_GTRAJB: n = q.nin(); break; case ST_GB: n = q.ng; break; case ST_PB: n = q.np; c = 0.5; break;
    case ST_D: a = vrnd(r, q.nd, -0.5, 0.5); a(0) = std::round(r.uni(0.7, 1.5) * 64) / 64; k.set(id, a); return; case ST_XG: k.set(id, vrnd(r, q.varx(), -1, 1)); return; case ST_UG: k.set(id, vrnd(r, q.varu(), -1, 1)); return; case ST_LG: k.set(id, vrnd(r, q.ndual(), -1, 1)); return; case ST_PG: k.set(id, vrnd(r, q.np, -0.3, 0.3)); return;
    case ST_TIME: { double t0 = t_off(int(r.next() % 8)); k.set(id, VectorXd::Constant(1, t0), VectorXd::Constant(1, t0 + t_len(int(r.next() % 5)))); return; } }
    two(n, c, a, b); if (id == ST_XUB || id == ST_XFUB || id == ST_UUB) k.set(id, b); else k.set(id, a, b); }
static void gen_hist(Rng& r, Plan& p, bool t, double pf) { p.ops.push_back({"cfg", {double(r.irange(0, 1000)), double(r.sub() % 5000), double(r.irange(0, 4))}}); int n = r.irange(4, t ? 40 : 20); for (int i = 0; i < n; ++i) { double u = r.u01(); if (u < 0.22) p.ops.push_back(gen_msolve(r, pf)); else if (u < 0.27) p.ops.push_back({"crash", {double(r.irange(0, 1))}}); else if (u < 0.33) p.ops.push_back(gen_mset(r)); else p.ops.push_back({"set", {double(r.irange(0, ST_COUNT - 1)), double(r.sub() % 100000), double(r.chance(0.1))}}); } }
static void start(Ctl& k, const Plan& p) { k.settings(k.s); defaults(k, p.ops[0].u(1)); k.set(ST_TIME, VectorXd::Zero(1), VectorXd::Constant(1, t_len(p.ops[0].in(2)))); k.set(ST_X0, x0of(k.c, p.ops[0].u(1) + 7)); }
static void run_m01(const Plan& p, Ctx& x) { Ctl k(mpc_cfg(p.ops[0].in(0)), x); x.sig(p.ops[0].in(0)); { Ctl f(k.c, x); MpcState a = k.m->state(), b = f.m->state(); if (a.lbx != b.lbx || a.ubx != b.ubx || a.d != b.d || a.x != b.x || a.lam != b.lam || a.lbg != b.lbg || a.ubg != b.ubg) { x.fail("fresh-objects-differ", "%s", k.c.name.c_str()); return; } } start(k, p); if (!k.agree(0, "start")) return; bool solved = false;
    for (size_t i = 1; i < p.ops.size() && !x.failed; ++i) { const Op& o = p.ops[i]; x.sig(o.name[1] * 64 + (o.name == "set" ? o.in(0) : 0));
        if (o.name == "set") { do_set(k, o); x.probe("setter_" + std::to_string(o.in(0) % ST_COUNT)); if (solved) x.probe("set_after_solve"); } else if (o.name == "crash") k.crash(o.in(0)); else if (o.name == "settings") k.settings(setof(o, 0, k.q.single)); else if (o.name == "solve") { MpcOut r = k.solve(o.in(0), o.in(1), o.in(2), o.in(3), o.in(4)); solved = true; x.log("op %zu solve -> %d iter %d viol %g", i, r.status, r.iter, r.viol); if (!k.safe(i, r)) return; if (!mpc_fin(r.x) || !mpc_fin(r.lam)) k.reseed(x0of(k.c, 1)); }
        x.eval(); if (!k.agree(i, o.name.c_str())) return; x.nontrivial(); } }
static Reg m01({"m01_setters", [](Rng& r, Plan& p, bool t) { gen_hist(r, p, t, 0.25); }, run_m01});

// ---------------- M02: reading the prediction ----------------
static bool readable(Ctl& k, size_t i, Ctx& x, uint64_t seed) { const MpcDim& q = k.q; int N = q.nodes(), nx = q.nx, nu = q.nu; MpcView v = k.m->view(); Rng r(seed * 61 + 1); x.eval();
    auto eqv = [](const VectorXd& a, const VectorXd& b) { if (a.size() != b.size()) return false; for (int j = 0; j < a.size(); ++j) if (!(a(j) == b(j)) && !(a(j) != a(j) && b(j) != b(j))) return false; return true; };
    if (!eqv(v.x, k.b.x.head(q.varx())) || !eqv(v.u, k.b.x.segment(q.varx(), q.varu())) || !eqv(v.dual, k.b.lam) || (q.np && !eqv(v.p, k.b.x.tail(q.np)))) { x.fail("view-mismatch", "%s: operation %zu: solution_x/u/p/dual do not return the parts of the current solution", k.c.name.c_str(), i); return false; }
    MatrixXd X(nx, N), U(nu, N); for (int j = 0; j < N; ++j) { X.col(j) = k.b.x.segment((N - 1 - j) * nx, nx); U.col(j) = k.b.x.segment(q.varx() + (N - 1 - j) * nu, nu); }
    for (int j = 0; j < N; ++j) { if (!eqv(k.m->x_at(j), X.col(j)) || !eqv(v.X.col(j), X.col(j))) { x.fail("node-access", "%s: operation %zu: state node %d in time order", k.c.name.c_str(), i, j); return false; } if (!eqv(k.m->u_at(j), U.col(j)) || !eqv(v.U.col(j), U.col(j))) { x.fail("node-access", "%s: operation %zu: control node %d in time order", k.c.name.c_str(), i, j); return false; } }
    if (!mpc_fin(X) || !mpc_fin(U)) return true; LVec tt = mpc_times(q, k.b.t0, k.b.tf); double T = k.b.tf - k.b.t0, sx = 1e-300 + X.cwiseAbs().maxCoeff(), su = 1e-300 + U.cwiseAbs().maxCoeff(), toff = std::max(std::fabs(k.b.t0), std::fabs(k.b.tf)) / T; double tol = (q.single ? 2e-4 : 1e-9) + (q.single ? 1e-6 : 1e-14) * toff * 40;
    for (int j = 0; j < 12; ++j) { double t = j < 3 ? double(tt(int(r.next() % N))) : j == 3 ? k.b.t0 : j == 4 ? k.b.tf : j == 5 ? double(tt(q.P * r.irange(0, q.S))) : k.b.t0 + T * r.u01(); t = k.rd(t); if (t < k.b.t0) t = k.rd(k.b.t0); if (t > k.b.tf) t = k.rd(k.b.tf); VectorXd a = k.m->x_at(t), b = k.m->u_at(t); LVec ra = mpc_interp(q, k.b.t0, k.b.tf, X, t), rb = mpc_interp(q, k.b.t0, k.b.tf, U, t); x.vec(a); x.vec(b);
        for (int e = 0; e < nx; ++e) if (!(std::fabs(a(e) - double(ra(e))) <= tol * sx)) { x.fail("state-interpolation", "%s: operation %zu: horizon [%g,%g]: state %d at t=%.9g reads %.9g, the prediction is %.9g", k.c.name.c_str(), i, k.b.t0, k.b.tf, e, t, a(e), double(ra(e))); return false; }
        for (int e = 0; e < nu; ++e) if (!(std::fabs(b(e) - double(rb(e))) <= tol * su)) { x.fail("control-interpolation", "%s: operation %zu: horizon [%g,%g]: control %d at t=%.9g reads %.9g, the prediction is %.9g", k.c.name.c_str(), i, k.b.t0, k.b.tf, e, t, b(e), double(rb(e))); return false; } x.probe(k.b.t0 != 0 ? "read_shifted_horizon" : "read_horizon_at_zero"); }
    x.nontrivial(); return true; }
static void run_m02(const Plan& p, Ctx& x) { Ctl k(mpc_cfg(p.ops[0].in(0)), x); x.sig(p.ops[0].in(0)); if (p.ops[0].in(3)) start(k, p); else x.probe("default_horizon");
    for (size_t i = 1; i < p.ops.size() && !x.failed; ++i) { const Op& o = p.ops[i]; x.sig(o.name[1] * 64 + (o.name == "set" ? o.in(0) : 0));
        if (o.name == "set") do_set(k, o); else if (o.name == "crash") k.crash(o.in(0)); else if (o.name == "settings") { MpcSet s = setof(o, 0, k.q.single); s.max_iter = std::min(s.max_iter, 6); k.settings(s); } else if (o.name == "solve") { MpcOut r = k.solve(o.in(0), o.in(1), o.in(2), o.in(3), o.in(4)); x.log("op %zu solve -> %d", i, r.status); if (!readable(k, i, x, p.seed + i)) return; if (!mpc_fin(r.x) || !mpc_fin(r.lam)) k.reseed(x0of(k.c, 1)); }
        if (!readable(k, i, x, p.seed + i)) return; } }
static Reg m02({"m02_reading", [](Rng& r, Plan& p, bool t) { p.ops.push_back({"cfg", {double(r.irange(0, 1000)), double(r.sub() % 5000), double(r.irange(0, 4)), double(r.chance(0.8))}}); int n = r.irange(3, t ? 24 : 12); for (int i = 0; i < n; ++i) { double u = r.u01(); if (u < 0.2) p.ops.push_back(gen_msolve(r, 0.2)); else if (u < 0.27) p.ops.push_back({"crash", {double(r.irange(0, 1))}}); else if (u < 0.33) p.ops.push_back(gen_mset(r)); else p.ops.push_back({"set", {double(r.chance(0.5) ? ST_TIME : r.irange(0, ST_COUNT - 1)), double(r.sub() % 100000), 0}}); } }, run_m02});

// ---------------- the control loop ----------------
// step: mfault(0 none,1 lost,2 duplicated,3 NaN,4 Inf,5 outlier) mdelay cbk cbw cbat lsk lsat cfault(0 none,1 lost,2 duplicated) cdelay cpu(0 ok,1 stalled) event(0 none,1 crash,2 snapshot) s0 s1 s2 clockjump
struct Loop { Ctl k; Ctx& x; const MpcCfg& c; const MpcDim& q; VectorXd xp; double Ts, T, off; bool moving; long n = 0; int nsolved = 0, streak = 0, failures = 0, watchdog = 1 << 20;
    struct Meas { long arrive, stamp; VectorXd x; }; struct Cmd { long arrive, stamp; std::vector<VectorXd> u; }; std::vector<Meas> mq; std::vector<Cmd> cq; Cmd act{0, -1, {}}; long lastm = -1; double jump = 0; enum { SUB = 4 };
    std::function<bool(Loop&, size_t, const MpcOut&, const VectorXd& meas)> on_solve;
    Loop(const Plan& p, Ctx& x_) : k(mpc_cfg(p.ops[0].in(0)), x_), x(x_), c(k.c), q(c.q) { x.sig(p.ops[0].in(0)); start(k, p); T = t_len(p.ops[0].in(2)); if (T < 1) T = 1; Ts = T / 10; moving = p.ops[0].in(3); off = t_off(p.ops[0].in(4)); if (q.single && std::fabs(off) > 20) off = 3.5; xp = x0of(c, p.ops[0].u(1) + 7); k.set(ST_TIME, VectorXd::Constant(1, off), VectorXd::Constant(1, off + T)); MpcSet s; if (q.single) { s.qp_eps = 3e-4; } k.settings(s); }
    VectorXd f(const VectorXd& s, const VectorXd& u) { LVec a = s.cast<LD>(), b = u.cast<LD>(), d = k.b.d.cast<LD>(), o(q.nx); LD pp = 0.1L; c.dyn(a.data(), b.data(), &pp, d.data(), 0, o.data()); return o.cast<double>(); }
    VectorXd ucur(int sub) { if (act.stamp < 0) return VectorXd::Zero(q.nu); long i = (n - act.stamp) * SUB + sub; i = std::max(0L, std::min(i, long(act.u.size()) - 1)); VectorXd u = act.u[i]; for (int e = 0; e < q.nu; ++e) { double m = c.kind == MK_ROBOT ? (e ? 0.75 : 1.5) : 3; u(e) = u(e) != u(e) ? 0 : std::max(-m, std::min(m, u(e))); } return u; } // a real actuator saturates
    void plant() { double h = Ts / SUB; for (int s = 0; s < SUB; ++s) { VectorXd u = ucur(s), k1 = f(xp, u), k2 = f(xp + h / 2 * k1, u), k3 = f(xp + h / 2 * k2, u), k4 = f(xp + h * k3, u); xp += h / 6 * (k1 + 2 * k2 + 2 * k3 + k4); } }
    bool control(size_t i, const Op& o, const VectorXd& z) { if (moving) { double t0 = off + n * Ts + jump; k.set(ST_TIME, VectorXd::Constant(1, t0), VectorXd::Constant(1, t0 + T)); }
        k.set(ST_X0, z); MpcOut r = k.solve(o.in(2), o.in(3), o.in(4), o.in(5), o.in(6)); x.log("t=%ld x=(%g %g) meas=(%g %g) -> status %d iter %d qp %d viol %g", n, xp(0), xp(q.nx - 1), z(0), z(q.nx - 1), r.status, r.iter, r.qp_iter, r.viol); if (r.status == MPC_SOLVED) { ++nsolved; ++streak; failures = 0; } else { streak = 0; ++failures; }
        if (on_solve && !on_solve(*this, i, r, z)) return false;
        if (failures >= watchdog) { k.reseed(z); failures = 0; x.probe("watchdog_reseeded"); } else if (mpc_fin(r.x) && mpc_fin(r.lam)) { Cmd m{n + o.in(8), n, {}}; for (int j = 0; j <= 10 * SUB; ++j) { double t = k.b.t0 + (k.b.tf - k.b.t0) * j / (10.0 * SUB); if (t > k.b.tf) t = k.b.tf; m.u.push_back(k.m->u_at(t)); } if (o.in(7) == 1) x.fault("command_lost"); else { cq.push_back(m); if (o.in(8)) x.fault("command_delayed"); if (o.in(7) == 2) { m.arrive += 2; cq.push_back(m); x.fault("command_duplicated"); } } }
        else { k.reseed(z); x.probe("supervisor_reseeded"); }
        return true; }
    bool step(size_t i, const Op& o) { if (o.a.size() > 11) { MpcSet s = setof(o, 11, q.single); k.settings(s); } if (o.in(10) == 1) { k.crash(0); } else if (o.in(10) == 2) k.crash(1); if (o.at(14) != 0 && moving) { jump += o.at(14); x.fault("clock_jump"); }
        VectorXd z = xp; int mf = o.in(0); if (mf == 3) { z(0) = std::nan(""); } else if (mf == 4) z(q.nx - 1) = INFD; else if (mf == 5) z(0) += 50; if (mf >= 3) x.fault(mf == 3 ? "measurement_nan" : mf == 4 ? "measurement_inf" : "measurement_outlier"); if (mf == 1) x.fault("measurement_lost"); else { mq.push_back({n + o.in(1), n, z}); if (o.in(1)) x.fault("measurement_delayed"); if (mf == 2) { mq.push_back({n + o.in(1) + 1, n, z}); x.fault("measurement_duplicated"); } }
        if (o.in(9)) x.fault("controller_stalled"); else for (size_t j = 0; j < mq.size();) { if (mq[j].arrive > n) { ++j; continue; } Meas m = mq[j]; mq.erase(mq.begin() + j); if (m.stamp < lastm) { x.probe("stale_measurement_dropped"); continue; } lastm = m.stamp; if (!control(i, o, m.x)) return false; }
        for (size_t j = 0; j < cq.size();) { if (cq[j].arrive > n) { ++j; continue; } if (cq[j].stamp > act.stamp) act = cq[j]; else x.probe("stale_command_dropped"); cq.erase(cq.begin() + j); }
        plant(); ++n; x.vec(xp); return !x.failed; } };
static Op gen_step(Rng& r, double pf) { Op o{"step", {}}; auto f = [&](double p, int a, int b) { return double(r.chance(p) ? r.irange(a, b) : 0); }; double cb = f(pf * 0.6, 1, 3); o.a = {f(pf, 1, 5), f(pf, 1, 3), cb, double(r.irange(0, 3)), double(r.chance(0.5) ? r.irange(1, 20) : r.irange(1, 300)), f(pf * 0.5, 1, 5), double(r.chance(0.5) ? r.irange(1, 60) : r.irange(1, 1500)), f(pf, 1, 2), f(pf, 1, 3), f(pf * 0.5, 1, 1), f(pf * 0.4, 1, 2), f(pf, 1, 5), f(pf * 0.5, 1, 3), f(pf * 0.6, 1, 4), r.chance(pf * 0.15) ? double(r.irange(-4, 4)) : 0.0}; return o; }
static void gen_loop(Rng& r, Plan& p, bool t, double pf, int nmax) { p.ops.push_back({"cfg", {double(r.irange(0, 1000)), double(r.sub() % 5000), double(r.irange(0, 4)), double(r.chance(0.6)), double(r.irange(0, 7))}}); int n = r.irange(3, t ? 2 * nmax : nmax); for (int i = 0; i < n; ++i) p.ops.push_back(gen_step(r, r.chance(0.6) ? pf : 0)); }
static void run_m03(const Plan& p, Ctx& x) { Loop l(p, x); l.on_solve = [&](Loop& w, size_t i, const MpcOut& r, const VectorXd& z) { if (!w.k.safe(i, r)) return false; if (r.status == MPC_SOLVED) { bool zf = mpc_fin(z); double t = w.k.s.eps * (1 + 1e-6) + w.k.vtol(r); VectorXd a = w.k.m->x_at(0); if (!zf) { x.fail("solved-on-bad-measurement", "%s: operation %zu: SOLVED for a measurement that is not a finite number", w.c.name.c_str(), i); return false; } for (int e = 0; e < w.q.nx; ++e) if (!(std::fabs(a(e) - z(e)) <= t * (1 + std::fabs(z(e)) * 1e-3) + std::fabs(z(e)) * (w.q.single ? 1e-5 : 1e-12))) { x.fail("stale-initial-state", "%s: operation %zu: the prediction starts at %.6g, the measurement was %.6g", w.c.name.c_str(), i, a(e), z(e)); return false; } x.probe("prediction_checked"); } return w.k.agree(i, "solve"); };
    for (size_t i = 1; i < p.ops.size() && !x.failed; ++i) if (p.ops[i].name == "step" && !l.step(i, p.ops[i])) return; }
static Reg m03({"m03_loop", [](Rng& r, Plan& p, bool t) { gen_loop(r, p, t, 0.25, 14); }, run_m03});

// ---------------- M04: recovery of the control loop ----------------
enum { DRAIN = 40 };
static bool inregion(const MpcCfg& c, const VectorXd& x) { if (!mpc_fin(x)) return false; double a = c.kind == MK_ROBOT ? 0.6 : c.kind == MK_PEND ? 0.9 : c.kind == MK_PAR ? 1.2 : 1.5; return x.cwiseAbs().maxCoeff() <= a; }
static void run_m04(const Plan& p, Ctx& x) { Loop l(p, x); for (size_t i = 1; i < p.ops.size() && !x.failed; ++i) if (p.ops[i].name == "step" && !l.step(i, p.ops[i])) return;
    // faults stop; the plant is brought back into the controller's region of operation if the faults drove it out
    if (!inregion(l.c, l.xp)) { l.xp = x0of(l.c, p.ops[0].u(1) + 99); x.probe("plant_returned_to_region"); } l.jump = 0; MpcSet s; if (l.q.single) s.qp_eps = 3e-4; l.k.settings(s);
    l.watchdog = 2; l.cq.clear(); l.mq.clear(); l.act = Loop::Cmd{0, -1, {}}; Loop t(p, x); t.watchdog = 2; t.n = l.n; t.xp = l.xp; t.k.set(ST_D, l.k.b.d); Op clean{"step", {}}; int first = -1, last = 0, unsolved = 0; bool inwin = false;
    l.on_solve = [&](Loop&, size_t, const MpcOut& r, const VectorXd&) { if (r.status != MPC_SOLVED) { ++unsolved; if (inwin) ++last; } return true; };
    for (int j = 0; j < DRAIN && !x.failed; ++j) { inwin = j >= DRAIN / 2; int before = l.nsolved; if (!l.step(1000 + j, clean) || !t.step(1000 + j, clean)) return; if (first < 0 && l.nsolved > before) first = j; }
    x.eval(); x.nontrivial(); x.probe("drained"); if (first >= 0) x.probe(first == 0 ? "solved_at_first_clean_call" : first <= 3 ? "solved_within_4_clean_calls" : "solved_later"); x.log("first %d unsolved %d late %d end %g twin %g", first, unsolved, last, (l.xp).cwiseAbs().maxCoeff(), (t.xp).cwiseAbs().maxCoeff());
    if (first < 0 || first > 8) { x.fail("no-recovery", "%s: no call was SOLVED within %d clean sampling periods after the faults stopped (first %d)", l.c.name.c_str(), 9, first); return; }
    if (last > 2) { x.fail("unsettled", "%s: %d of the last %d clean calls were not SOLVED", l.c.name.c_str(), last, DRAIN / 2); return; }
    if (l.c.kind == MK_ROBOT) return; double d = (l.xp - t.xp).cwiseAbs().maxCoeff(); x.probe(d < 1e-3 ? "end_distance_below_1e-3" : d < 1e-2 ? "end_distance_below_1e-2" : "end_distance_larger"); if (!(d <= 0.05)) { x.fail("no-convergence", "%s: %d clean sampling periods after the faults stopped the plant is at distance %.4g from the state a newly started controller reaches", l.c.name.c_str(), DRAIN, d); return; } }
static Reg m04({"m04_recover", [](Rng& r, Plan& p, bool t) { gen_loop(r, p, t, 0.35, 10); }, run_m04});

// ---------------- M05: the controller does not depend on the clock ----------------
static std::vector<VectorXd> trace(const Plan& p, Ctx& x, double off, double pert, std::vector<int>& st) { Loop l(p, x); l.moving = true; l.off = off; l.T *= 1 + pert; l.k.set(ST_TIME, VectorXd::Constant(1, off), VectorXd::Constant(1, off + l.T)); for (int e = 0; e < l.xp.size(); ++e) l.xp(e) += pert * (e % 2 ? -1 : 1); std::vector<VectorXd> v; g_oc.rec = true;
    l.on_solve = [&](Loop& w, size_t i, const MpcOut& r, const VectorXd&) { VectorXd a(r.x.size() + r.lam.size() + 2 * w.q.nx + 2 * w.q.nu); double tm = w.k.b.t0 + 0.37 * (w.k.b.tf - w.k.b.t0), te = w.k.b.t0 + 0.81 * (w.k.b.tf - w.k.b.t0); a << r.x, r.lam, w.k.m->x_at(tm), w.k.m->x_at(te), w.k.m->u_at(tm), w.k.m->u_at(te); v.push_back(a); st.push_back(r.status * 100000 + r.iter);
        double tol = (w.q.single ? 1e-5 : 1e-12) * (1 + std::fabs(w.k.b.t0)); if (g_oc.tmin < w.k.b.t0 - tol || g_oc.tmax > w.k.b.tf + tol) { x.fail("callback-time", "%s: operation %zu: a callback was evaluated at time %.9g or %.9g, outside the horizon [%.9g,%.9g]", w.c.name.c_str(), i, g_oc.tmin, g_oc.tmax, w.k.b.t0, w.k.b.tf); return false; } x.probe("callback_times_checked"); return true; };
    for (size_t i = 1; i < p.ops.size() && !x.failed; ++i) if (p.ops[i].name == "step" && !l.step(i, p.ops[i])) break; v.push_back(l.xp); st.push_back(0); g_oc.rec = false; return v; }
static void run_m05(const Plan& p, Ctx& x) { const MpcCfg& c = mpc_cfg(p.ops[0].in(0)); double off = t_off(p.ops[0].in(4)); if (c.q.single && std::fabs(off) > 20) off = -1; if (off == 0) off = 7.25; std::vector<int> sa, sb, sc; auto a = trace(p, x, 0, 0, sa); if (x.failed) return; auto b = trace(p, x, off, 0, sb); if (x.failed) return; std::vector<VectorXd> cc; double tol = c.q.single ? 0.05 : 1e-5; x.eval();   // float: the clock is rounded to 1e-6 of the horizon
    size_t n = std::min(a.size(), b.size()); for (size_t j = 0; j < n; ++j) { double d = mpc_dist(a[j], b[j]); if (c.q.single && sa[j] != sb[j]) { x.probe("rounding_sensitive_not_compared"); return; } if (sa[j] == sb[j] && d <= tol) { x.nontrivial(); x.probe("compared_across_clocks"); continue; }
        if (!mpc_fin(a[j]) || a[j].cwiseAbs().maxCoeff() > 1e8) { x.probe("diverged_not_compared"); return; }
        for (double rep : {1.0, -1.0, 4.0, 0.5, -0.3, 0.03, -0.03, -4.0}) { sc.clear(); cc = trace(p, x, 0, (c.q.single ? 1e-5 : 1e-12) * (1 + std::fabs(off)) * rep, sc); for (size_t m = 0; m <= j && m < cc.size(); ++m) if (sc[m] != sa[m] || !(mpc_dist(cc[m], a[m]) <= tol / 20)) { x.probe("rounding_sensitive_not_compared"); return; } }
        x.fail("clock-dependent", "%s: solve %zu: with the clock shifted by %g the status/iterations are %d instead of %d and the answer differs by %.3g", c.name.c_str(), j, off, sb[j], sa[j], d); return; } }
static Reg m05({"m05_clock", [](Rng& r, Plan& p, bool t) { gen_loop(r, p, t, 0.15, 8); for (auto& o : p.ops) if (o.name == "step") { o.a[14] = 0; if (o.a[0] == 5) o.a[0] = 1; } }, run_m05});

// ---------------- M06: the prediction is what the plant does ----------------
static void run_m06(const Plan& p, Ctx& x) { Loop l(p, x); l.on_solve = [&](Loop& w, size_t i, const MpcOut& r, const VectorXd&) { if (r.status != MPC_SOLVED) return true; const MpcDim& q = w.q; double t0 = w.k.b.t0, tf = w.k.b.tf; VectorXd pp = w.k.m->view().p; LVec d = w.k.b.d.cast<LD>(), par(1); par(0) = q.np ? LD(pp(0)) : 0; LVec s = w.k.m->x_at(t0).cast<LD>(); int n = 40; LD h = (LD(tf) - LD(t0)) / n; double worst = 0, wt = 0;
        auto at = [&](LD t) { double z = w.k.rd(double(t)); z = std::max(w.k.rd(t0), std::min(z, w.k.rd(tf))); return w.k.m->u_at(z); }; double sx = 1 + r.x.cwiseAbs().maxCoeff();
        auto fn = [&](const LVec& a, LD t) { LVec u = at(t).cast<LD>(), o(q.nx); w.c.dyn(a.data(), u.data(), par.data(), d.data(), t, o.data()); return o; };
        for (int j = 0; j < n; ++j) { LD t = LD(t0) + h * j; LVec k1 = fn(s, t), k2 = fn(s + h / 2 * k1, t + h / 2), k3 = fn(s + h / 2 * k2, t + h / 2), k4 = fn(s + h * k3, t + h); s += h / 6 * (k1 + 2 * k2 + 2 * k3 + k4); double te = std::min(w.k.rd(double(t + h)), w.k.rd(tf)); VectorXd a = w.k.m->x_at(te); for (int e = 0; e < q.nx; ++e) { double dd = std::fabs(a(e) - double(s(e))) / sx; if (!(dd <= worst)) { worst = dd; wt = te; } } }
        x.eval(); x.nontrivial(); x.probe(worst < 1e-3 ? "prediction_error_below_1e-3" : worst < 1e-2 ? "prediction_error_below_1e-2" : worst < 5e-2 ? "prediction_error_below_5e-2" : "prediction_error_larger"); x.log("prediction error %g %s T=%g", worst, w.c.name.c_str(), tf - t0); double tol = (q.S == 1 ? 3e-3 : 0.15) + 10 * w.k.s.eps * (tf - t0);
        if (!(worst <= tol)) { x.fail("prediction-off", "%s: operation %zu: applying solution_u_at over [%g,%g] leads the plant %.4g (relative) away from solution_x_at at t=%g", w.c.name.c_str(), i, t0, tf, worst, wt); return false; } return true; };
    for (size_t i = 1; i < p.ops.size() && !x.failed; ++i) if (p.ops[i].name == "step" && !l.step(i, p.ops[i])) return; }
static Reg m06({"m06_predict", [](Rng& r, Plan& p, bool t) { gen_loop(r, p, t, 0.2, 8); for (auto& o : p.ops) if (o.name == "step" && o.a[0] == 5) o.a[0] = 1; }, run_m06});

// ---------------- M07: a used controller answers like a new one ----------------
static void run_m07(const Plan& p, Ctx& x) { Ctl k(mpc_cfg(p.ops[0].in(0)), x); x.sig(p.ops[0].in(0)); start(k, p); bool hist = false;
    for (size_t i = 1; i < p.ops.size() && !x.failed; ++i) { const Op& o = p.ops[i]; x.sig(o.name[1] * 64 + (o.name == "set" ? o.in(0) : 0));
        if (o.name == "set") do_set(k, o); else if (o.name == "crash") { k.crash(o.in(0)); } else if (o.name == "settings") k.settings(setof(o, 0, k.q.single)); else if (o.name == "solve") {
            bool cmp = hist && !o.in(0) && !o.in(3); if (cmp) { Rng r(p.seed * 7 + i); k.set(ST_XG, vrnd(r, k.q.varx(), -1, 1)); k.set(ST_UG, vrnd(r, k.q.varu(), -1, 1)); k.set(ST_LG, r.chance(0.5) ? VectorXd::Zero(k.q.ndual()) : vrnd(r, k.q.ndual(), -1, 1)); if (k.q.np) k.set(ST_PG, vrnd(r, k.q.np, -0.3, 0.3)); }
            MpcState before = k.b; MpcOut r = k.solve(o.in(0), o.in(1), o.in(2), o.in(3), o.in(4)); hist = true; if (!mpc_fin(r.x) || !mpc_fin(r.lam)) { if (!cmp) { k.reseed(x0of(k.c, 1)); continue; } } if (!cmp) continue; x.eval();
            auto fresh = [&](double pert) { Ctl f(k.c, x); f.b = before; f.s = k.s; f.restore(); VectorXd g = before.x.head(k.q.varx()); for (int e = 0; e < g.size(); ++e) g(e) *= 1 + pert * (e % 2 ? 1 : -1); f.set(ST_XG, g); return f.solve(); };
            auto differ = [&](const MpcOut& a, const MpcOut& b, double t) { return a.status != b.status || a.iter != b.iter || !(mpc_dist(a.x, b.x) <= t) || !(mpc_dist(a.lam, b.lam) <= 10 * t); }; MpcOut f = fresh(0); double tol = k.q.single ? 5e-3 : r.status == MPC_SOLVED && f.status == MPC_SOLVED ? 1e-6 : 1e-4;      // cut off within QPs that do not converge: rounding is amplified
            if (!differ(r, f, tol)) { x.probe("compared_after_history"); x.nontrivial(); if (!mpc_fin(r.x) || !mpc_fin(r.lam)) k.reseed(x0of(k.c, 1)); continue; } double pe = k.q.single ? 2e-6 : 2e-12; auto wild = [&](const MpcOut& o) { return !mpc_fin(o.x) || !mpc_fin(o.lam) || o.x.cwiseAbs().maxCoeff() > 1e6 || o.lam.cwiseAbs().maxCoeff() > 1e8; }; if (wild(f)) { x.probe("diverged_not_compared"); if (!mpc_fin(r.x) || !mpc_fin(r.lam)) k.reseed(x0of(k.c, 1)); continue; } bool sens = false; for (double m : {1.0, -1.0, 4.0, 0.5, -0.5, 0.05, -0.05, 5e-3, -5e-3, 5e-4, -5e-4, 16.0, -16.0, 50.0}) { MpcOut o = fresh(m * pe); if (differ(o, f, tol / 20) || (!k.q.single && o.qp_iter != f.qp_iter)) { sens = true; break; } } if (sens) {   // rounding decides how many iterations some QP takes
                x.probe("rounding_sensitive_not_compared"); if (!mpc_fin(r.x) || !mpc_fin(r.lam)) k.reseed(x0of(k.c, 1)); continue; }
            x.fail("history-dependent", "%s: operation %zu: status %d iterations %d qp iterations %d against %d %d %d of a new controller; solutions differ by %.3g (primal) %.3g (dual)", k.c.name.c_str(), i, r.status, r.iter, r.qp_iter, f.status, f.iter, f.qp_iter, mpc_dist(r.x, f.x), mpc_dist(r.lam, f.lam)); return; } } }
static Reg m07({"m07_history", [](Rng& r, Plan& p, bool t) { gen_hist(r, p, t, 0.3); p.ops.push_back(gen_msolve(r, 0)); }, run_m07});
