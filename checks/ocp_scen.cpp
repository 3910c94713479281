// Scenarios O01..O04: persistent transcription objects driven through seeded histories of evaluations, horizon and data
// changes, callback faults, forgotten matrices and snapshots.
#include "ocp_common.hpp"
#define DEF(T, NAME, ...) static T NAME(int i) { static const T v[] = {__VA_ARGS__}; const int n = int(sizeof v / sizeof v[0]); return v[((i % n) + n) % n]; }
DEF(double, t_len, 1.0, 2.0, 0.5, 5.0, 0.1, 10.0, 0.75)
DEF(double, t_off, 0.0, 0.0, 0.0, 1.0, -1.0, 3.5, 1000.0, -20.0)
DEF(double, t_scale, 1.0, 2.0, 0.5, 10.0, 0.0)
struct OcpPoint { VectorXd v, d, lam; };
// vkind 0 generic, 1 zero, 2 repeated entries / exact zeros, 3 large
static OcpPoint point(const OcpDim& q, uint64_t seed, int kind) { Rng r(seed * 131 + 7); OcpPoint p; p.v.resize(q.nvar()); p.d.resize(q.nd); p.lam.resize(q.neq() + q.nin() + q.nvar()); double s = kind == 3 ? 8 : 1.5;
    for (int i = 0; i < p.v.size(); ++i) p.v(i) = kind == 1 ? 0 : kind == 2 && r.chance(0.4) ? 0 : std::round(r.uni(-s, s) * 1024) / 1024; for (int i = 0; i < q.nd; ++i) p.d(i) = std::round(r.uni(-1, 1) * 256) / 256; for (int i = 0; i < p.lam.size(); ++i) p.lam(i) = kind == 1 ? 0 : std::round(r.uni(-1, 1) * 256) / 256; return p; }
static Op gen_call(Rng& r, double pf) { double m = r.chance(0.6) ? r.irange(3, OM_COUNT - 1) : r.irange(0, OM_COUNT - 1); double k = r.chance(pf) ? r.irange(1, 3) : 0; Op o{"call", {}}; o.a = {m, double(r.sub() % 100000), double(r.chance(0.6) ? 0 : r.irange(0, 3)), k, double(r.irange(0, 3)), double(r.irange(1, 14)), double(r.chance(0.5) ? r.irange(0, 4) : 0), double(r.irange(0, 2))}; return o; }
static Op gen_horizon(Rng& r) { return Op{"horizon", {double(r.irange(0, 7)), double(r.irange(0, 6))}}; }
static void gen_ocp(Rng& r, Plan& p, bool t, double pf, bool drops) { p.ops.push_back({"cfg", {double(r.irange(0, 1000)), double(r.sub() % 5000), double(r.chance(0.7) ? 0 : 1), double(r.chance(0.5))}}); if (r.chance(0.6)) p.ops.push_back(gen_horizon(r)); int n = r.irange(2, t ? 16 : 9);
    for (int i = 0; i < n; ++i) { double u = r.u01(); if (u < 0.15) p.ops.push_back(gen_horizon(r)); else if (drops && u < 0.22) p.ops.push_back({"drop", {}}); else if (u < 0.28) p.ops.push_back({"copy", {}}); else if (u < 0.32) p.ops.push_back({"coef", {double(r.sub() % 5000), double(r.irange(0, 1))}}); p.ops.push_back(gen_call(r, pf)); } }

struct OcpWorld { const OcpCfg& c; const OcpDim& q; Ctx& x; OcpCoef k; double t0 = 0, tf = 1;
    OcpWorld(const Plan& p, Ctx& x_) : c(ocp_cfg(p.ops[0].in(0))), q(c.d), x(x_) { k = ocp_coef(p.ops[0].u(1), p.ops[0].in(2)); x.sig(p.ops[0].in(0)); g_oc.reset(); g_oc.rec = false; }
    double tol() const { return q.single ? 3e-4 : 1e-9; }
    OcpOut call(IOcp& o, const Op& op, bool fault, bool& fired) { OcpPoint p = point(q, op.u(1), op.in(2)); int kk = fault ? op.in(3) : 0; g_oc.reset(kk, op.in(4), op.in(5)); OcpOut r = o.call(op.in(0), p.v, p.d, p.lam, t_scale(op.in(6))); fired = g_oc.fired; if (fired) { static const char* kn[] = {"", "nan_once", "nan_forever", "inf_once"}; static const char* wn[] = {"dynamics_", "lagrange_", "mayer_", "inequality_"}; x.fault(std::string(wn[op.in(4)]) + kn[kk]); } g_oc.kind = 0; x.sig(op.in(0)); x.val(r.cost); x.vec(r.c); x.vec(r.g); x.vec(r.grad); x.vec(r.lgrad); x.ticks(g_oc.calls ? g_oc.calls : q.nodes()); return r; }
    void hor(const Op& o) { t0 = t_off(o.in(0)); tf = t0 + t_len(o.in(1)); if (q.single && std::fabs(t0) > 100) { t0 = 1; tf = 1 + t_len(o.in(1)); } x.fault("horizon_change"); x.sig(o.in(1)); } };
static const char* mname(int m) { static const char* n[] = {"equalities", "inequalities", "constraints", "equalities_linearised", "inequalities_linearised", "constraints_linearised", "cost", "cost_gradient", "cost_gradient_hessian", "lagrangian", "lagrangian_gradient", "lagrangian_gradient_hessian", "lagrangian_gradient_hessian(cost_scale)"}; return n[m]; }
static std::string diff(const OcpOut& a, const OcpOut& b, double tol) { std::string e; char t[160];
    if (a.has_cost != b.has_cost || (a.has_cost && !(std::fabs(a.cost - b.cost) <= tol * std::max(1.0, std::fabs(b.cost))))) { snprintf(t, 160, "cost is %.12g, expected %.12g", a.cost, b.cost); return t; }
    if (!(e = ocp_diff("equality constraint", a.c, b.c, tol)).empty()) return e; if (!(e = ocp_diff("inequality constraint", a.g, b.g, tol)).empty()) return e; if (!(e = ocp_diff("cost gradient", a.grad, b.grad, tol)).empty()) return e; if (!(e = ocp_diff("Lagrangian gradient", a.lgrad, b.lgrad, tol)).empty()) return e;
    if (!(e = ocp_diffm("equality Jacobian", a.Jc, b.Jc, tol)).empty()) return e; if (!(e = ocp_diffm("inequality Jacobian", a.Jg, b.Jg, tol)).empty()) return e; return ocp_diffm("Hessian", a.H, b.H, tol); }

// ---------------- O01: dense and sparse transcriptions are replicas ----------------
static void run_o01(const Plan& p, Ctx& x) { OcpWorld w(p, x); auto de = w.c.dense(), sp = w.c.sparse(); de->coef(w.k); sp->coef(w.k); int compared = 0;
    for (size_t i = 1; i < p.ops.size() && !x.failed; ++i) { const Op& o = p.ops[i];
        if (o.name == "horizon") { w.hor(o); de->horizon(w.t0, w.tf); sp->horizon(w.t0, w.tf); } else if (o.name == "drop") { sp->drop(); x.fault("matrices_forgotten"); } else if (o.name == "copy") { sp = sp->copy(); de = de->copy(); x.fault("snapshot_restore"); } else if (o.name == "coef") { w.k = ocp_coef(o.u(0), o.in(1)); de->coef(w.k); sp->coef(w.k); } else if (o.name == "call") {
            bool fd, fs; OcpOut a = w.call(*sp, o, o.in(7) != 1, fs), b = w.call(*de, o, o.in(7) != 2, fd); x.log("op %zu %s fault=%d/%d fired=%d,%d", i, mname(o.in(0)), o.in(3), o.in(4), fs, fd); if (fd || fs) continue;
            x.eval(); if (compared++) { x.probe("compared_after_history"); x.nontrivial(); } std::string e = diff(a, b, w.tol()); if (!e.empty()) { x.fail("replicas-differ", "%s: operation %zu (%s): sparse transcription against dense: %s", w.c.name.c_str(), i, mname(o.in(0)), e.c_str()); return; } } } }
static Reg o01({"o01_replicas", [](Rng& r, Plan& p, bool t) { gen_ocp(r, p, t, 0.25, true); }, run_o01});

// ---------------- O02: every evaluation is exact and current ----------------
static OcpOut expect(const OcpRef& r, int m) { OcpOut o; auto V = [](const LVec& v) { return VectorXd(v.cast<double>()); }; auto M = [](const LMat& v) { return MatrixXd(v.cast<double>()); };
    if (m == OM_EQ || m == OM_EQLIN || m == OM_CON || m == OM_CONLIN || m >= OM_LAG) o.c = V(r.c); if (m == OM_INEQ || m == OM_INEQLIN || m == OM_CON || m == OM_CONLIN || m >= OM_LAG) o.g = V(r.g);
    if (m == OM_EQLIN || m == OM_CONLIN || m >= OM_LGRAD) o.Jc = M(r.Jc); if (m == OM_INEQLIN || m == OM_CONLIN || m >= OM_LGRAD) o.Jg = M(r.Jg); if (m == OM_COST || m == OM_GRAD || m == OM_HESS) { o.cost = double(r.cost); o.has_cost = true; }
    if (m == OM_GRAD || m == OM_HESS || m >= OM_LGRAD) o.grad = V(r.grad); if (m >= OM_LGRAD) o.lgrad = V(r.lgrad); if (m == OM_HESS) o.H = M(r.H); if (m == OM_LHESS || m == OM_LHESS_SCALED) o.H = M(r.HL); return o; }
static void run_o02(const Plan& p, Ctx& x) { OcpWorld w(p, x); auto q = p.ops[0].in(3) ? w.c.dense() : w.c.sparse(); q->coef(w.k); int compared = 0; x.sig(p.ops[0].in(3));
    for (size_t i = 1; i < p.ops.size() && !x.failed; ++i) { const Op& o = p.ops[i];
        if (o.name == "horizon") { w.hor(o); q->horizon(w.t0, w.tf); } else if (o.name == "drop") { q->drop(); x.fault("matrices_forgotten"); } else if (o.name == "copy") { q = q->copy(); x.fault("snapshot_restore"); } else if (o.name == "coef") { w.k = ocp_coef(o.u(0), o.in(1)); q->coef(w.k); } else if (o.name == "call") {
            bool f; int m = o.in(0); OcpOut a = w.call(*q, o, true, f); x.log("op %zu %s fault=%d/%d fired=%d", i, mname(m), o.in(3), o.in(4), f); if (f) continue; OcpPoint pt = point(w.q, o.u(1), o.in(2));
            OcpRef r = ocp_ref(w.q, w.k, w.t0, w.tf, pt.v, pt.d, pt.lam, m == OM_LHESS_SCALED ? t_scale(o.in(6)) : 1.0); OcpOut b = expect(r, m); if (m == OM_INEQ || m == OM_INEQLIN) if (!w.q.nin()) continue; if (m == OM_LAG) { a.has_cost = b.has_cost = false; double L = double(r.cost + r.c.dot(pt.lam.cast<LD>().head(w.q.neq())) + r.g.dot(pt.lam.cast<LD>().segment(w.q.neq(), w.q.nin())) + pt.v.cast<LD>().dot(pt.lam.cast<LD>().tail(w.q.nvar()))); if (!(std::fabs(L - a.cost) <= w.tol() * std::max(1.0, std::fabs(L)))) { x.fail("evaluation-wrong", "%s: operation %zu: lagrangian is %.12g, expected %.12g", w.c.name.c_str(), i, a.cost, L); return; } }
            x.eval(); if (compared++) { x.probe("compared_after_history"); x.nontrivial(); } std::string e = diff(a, b, w.tol() * (1 + std::fabs(w.t0) * 1e-2)); if (!e.empty()) { x.fail("evaluation-wrong", "%s: operation %zu (%s, %s): %s", w.c.name.c_str(), i, mname(m), p.ops[0].in(3) ? "dense" : "sparse", e.c_str()); return; } } } }
static Reg o02({"o02_exact", [](Rng& r, Plan& p, bool t) { gen_ocp(r, p, t, 0.25, true); }, run_o02});

// ---------------- O03: the horizon and the clock ----------------
static void run_o03(const Plan& p, Ctx& x) { OcpWorld w(p, x); auto q = p.ops[0].in(3) ? w.c.dense() : w.c.sparse(); OcpCoef k = w.k; k.a[13] = k.a[17] = k.a[40] = k.a[54] = 0; bool unit = p.ops[0].in(2) == 1; if (unit) { k = OcpCoef(); k.a[16] = 1; } q->coef(k); auto ref = p.ops[0].in(3) ? w.c.dense() : w.c.sparse(); ref->coef(k); x.sig(unit);
    for (size_t i = 1; i < p.ops.size() && !x.failed; ++i) { const Op& o = p.ops[i];
        if (o.name == "horizon") { w.hor(o); q->horizon(w.t0, w.tf); ref->horizon(0, w.tf - w.t0); } else if (o.name == "copy") { q = q->copy(); x.fault("snapshot_restore"); } else if (o.name == "call") {
            bool f; int m = o.in(0); g_oc.rec = true; OcpOut a = w.call(*q, o, true, f); std::vector<double> ts[4]; for (int j = 0; j < 4; ++j) ts[j] = g_oc.t[j]; g_oc.rec = false; double eps = w.q.single ? 1e-5 : 1e-13, tt = eps * (1 + std::fabs(w.t0) + std::fabs(w.tf)) * 8;
            VectorXd t = q->times(), r = VectorXd(ocp_times(w.q, w.t0, w.tf).cast<double>()); x.eval(); x.nontrivial();
            if (std::fabs(q->t0() - w.t0) > tt || std::fabs(q->tf() - w.tf) > tt) { x.fail("horizon-limits", "%s: operation %zu: horizon [%.12g, %.12g], set to [%.12g, %.12g]", w.c.name.c_str(), i, q->t0(), q->tf(), w.t0, w.tf); return; }
            for (int n = 0; n < t.size(); ++n) if (!(std::fabs(t(n) - r(n)) <= tt)) { x.fail("time-node", "%s: operation %zu: time node %d is %.12g, expected %.12g on [%.6g, %.6g]", w.c.name.c_str(), i, n, t(n), r(n), w.t0, w.tf); return; }
            if (f) continue;
            for (int j = 0; j < 4; ++j) { if (j == CB_MAY) { for (double v : ts[j]) if (std::fabs(v - w.tf) > tt) { x.fail("callback-time", "%s: operation %zu (%s): terminal cost evaluated at time %.12g, horizon ends at %.12g", w.c.name.c_str(), i, mname(m), v, w.tf); return; } continue; }
                if (ts[j].empty()) continue; std::vector<char> hit(r.size(), 0); for (double v : ts[j]) { bool ok = false; for (int n = 0; n < r.size(); ++n) if (std::fabs(v - r(n)) <= tt) { hit[n] = 1; ok = true; } if (!ok) { x.fail("callback-time", "%s: operation %zu (%s): callback %d evaluated at time %.12g, which is no node of [%.6g, %.6g]", w.c.name.c_str(), i, mname(m), j, v, w.t0, w.tf); return; } }
                for (int n = 0; n < r.size(); ++n) if (!hit[n]) { x.fail("callback-time", "%s: operation %zu (%s): callback %d was not evaluated at node %d (time %.12g)", w.c.name.c_str(), i, mname(m), j, n, r(n)); return; } x.probe("callback_times_checked"); }
            if (unit && a.has_cost && m != OM_LAG && w.q.variant != OV_MAYER) { x.probe("unit_integrand"); if (std::fabs(a.cost - (w.tf - w.t0)) > tt * 10) { x.fail("horizon-length", "%s: operation %zu (%s): a constant running cost of one integrates to %.12g over a horizon of %.12g", w.c.name.c_str(), i, mname(m), a.cost, w.tf - w.t0); return; } }
            bool g; OcpOut b = w.call(*ref, o, false, g); std::string e = diff(a, b, (w.q.single ? 3e-4 : 1e-9) * (1 + std::fabs(w.t0) * 1e-2)); if (!e.empty()) { x.fail("clock-shift", "%s: operation %zu (%s): time-invariant problem evaluated on [%.6g, %.6g] against [0, %.6g]: %s", w.c.name.c_str(), i, mname(m), w.t0, w.tf, w.tf - w.t0, e.c_str()); return; } } } }
static Reg o03({"o03_clock", [](Rng& r, Plan& p, bool t) { gen_ocp(r, p, t, 0.2, false); }, run_o03});

// ---------------- O04: the sparse quasi-Newton update ----------------
static void run_o04(const Plan& p, Ctx& x) { OcpWorld w(p, x); auto q = w.c.sparse(); q->coef(w.k); bool built = false; int nv = w.q.nvar();
    for (size_t i = 1; i < p.ops.size() && !x.failed; ++i) { const Op& o = p.ops[i];
        if (o.name == "horizon") { w.hor(o); q->horizon(w.t0, w.tf); } else if (o.name == "drop") { q->drop(); built = false; x.fault("matrices_forgotten"); } else if (o.name == "copy") q = q->copy(); else if (o.name == "call") { bool f; Op c = o; if (!built) c.a[0] = OM_LHESS; w.call(*q, c, true, f); int m = c.in(0); if (m == OM_HESS || m == OM_LHESS || m == OM_LHESS_SCALED) built = true; }
        else if (o.name == "update" && built) { Rng r(o.u(0) * 57 + 1); int kind = o.in(1); MatrixXd B = MatrixXd::Zero(nv, nv); for (int a = 0; a < nv; ++a) for (int b = 0; b <= a; ++b) { double v = a == b ? r.uni(1, 3) * nv : r.uni(-1, 1); B(a, b) = B(b, a) = v; } B *= r.logu(1e-2, 1e1) / nv; VectorXd s(nv), y(nv); for (int a = 0; a < nv; ++a) { s(a) = r.uni(-1, 1); y(a) = r.uni(-1, 1); } double sc = r.logu(1e-2, 10); s *= sc;
            MatrixXd H0, H1, mk, Z; q->hess_update(B, s, y, H0, Z, mk); VectorXd v0 = H0 * s; // H0: the masked matrix
            if (kind == 0) y = v0 * r.uni(0.3, 3) + 0.05 * sc * y; else if (kind == 1) y = -y.cwiseAbs().cwiseProduct(s); else if (kind == 2) { s.setZero(); y.setZero(); } else if (kind == 3) y = v0; else if (kind == 4) y.setZero(); static const char* nm[] = {"", "negative_curvature", "zero_step", "exact_model", "zero_gradient_change", "random_change"}; if (kind) x.fault(nm[kind]); x.sig(kind);
            if (!q->hess_update(B, s, y, H0, H1, mk)) { x.fail("pattern-changed", "%s: operation %zu: the update changed the number of stored entries", w.c.name.c_str(), i); return; } x.eval(); x.nontrivial(); x.ticks(1);
            for (int a = 0; a < H1.size(); ++a) if (bad(H1.data()[a])) { x.fail("update-nonfinite", "%s: operation %zu: quasi-Newton update (step kind %d) left a non-finite entry", w.c.name.c_str(), i, kind); return; }
            VectorXd v = H0 * s; double sBs = s.dot(v), sy = s.dot(y); if (sBs <= 1e-12) { if (!(ocp_diffm("", H1, H0, 1e-12).empty())) { x.fail("update-wrong", "%s: operation %zu: zero step changed the Hessian: %s", w.c.name.c_str(), i, ocp_diffm("Hessian", H1, H0, 1e-12).c_str()); return; } continue; }
            if (std::fabs(sy - 0.2 * sBs) < 1e-6 * (std::fabs(sy) + sBs)) continue; VectorXd rr = y; if (sy < 0.2 * sBs) { double th = 0.8 * sBs / (sBs - sy); rr = th * y + (1 - th) * v; x.probe("damped"); } double sr = s.dot(rr); MatrixXd R = H0 + mk.cwiseProduct(rr * rr.transpose() / sr - v * v.transpose() / sBs);
            std::string e = ocp_diffm("Hessian", H1, R, w.q.single ? 3e-4 : 1e-9); if (!e.empty()) { x.fail("update-wrong", "%s: operation %zu (step kind %d): %s", w.c.name.c_str(), i, kind, e.c_str()); return; }
            e = ocp_diffm("transposed Hessian", H1.transpose(), H1, w.q.single ? 1e-5 : 1e-12); if (!e.empty()) { x.fail("update-asymmetric", "%s: operation %zu: %s", w.c.name.c_str(), i, e.c_str()); return; } } } }
static Reg o04({"o04_update", [](Rng& r, Plan& p, bool t) { gen_ocp(r, p, t, 0.2, true); Plan q = p; p.ops.clear(); for (auto& o : q.ops) { p.ops.push_back(o); if (o.name == "call") { int n = r.irange(1, 3); for (int i = 0; i < n; ++i) p.ops.push_back({"update", {double(r.sub() % 100000), double(r.chance(0.4) ? 0 : r.irange(0, 5))}}); } } }, run_o04});
