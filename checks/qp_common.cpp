#include "qp_common.hpp"
std::vector<QpCfg>& qp_cfgs() { static std::vector<QpCfg> v; return v; }
static std::vector<QpCfg>& sorted() { static std::vector<QpCfg> v; if (v.empty()) { v = qp_cfgs(); std::sort(v.begin(), v.end(), [](const QpCfg& a, const QpCfg& b) { return a.name < b.name; }); } return v; }
const QpCfg& qp_cfg(int i) { return sorted()[((i % int(sorted().size())) + sorted().size()) % sorted().size()]; }
int qp_ncfg() { return int(sorted().size()); }

QpData qp_problem(const QpCfg& c, uint64_t pseed, uint64_t patseed, int kind, bool full_diag) {
    QpData d; int n = d.n = c.n, m = d.m = c.m; d.pat = patseed; { Rng f(pseed * 31 + 17); d.form = f.chance(0.4) ? 0 : f.irange(0, 15); } Rng pr(patseed * 7919 + 13), r(pseed * 104729 + 7);
    d.patH = MatrixXi::Zero(n, n); d.patA = MatrixXi::Zero(m, n);
    double dens = c.sparse ? pr.pick({0.15, 0.4, 0.8}) : 1.0;
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (pr.u01() < dens) d.patH(i, j) = d.patH(j, i) = 1;
    for (int i = 0; i < n; ++i) d.patH(i, i) = 1;
    for (int i = 0; i < m; ++i) { for (int j = 0; j < n; ++j) if (pr.u01() < std::max(dens, 0.35)) d.patA(i, j) = 1; d.patA(i, int(pr.next() % n)) = 1; }
    // variables without curvature: the entry is absent from the pattern altogether
    std::vector<int> flat; if (c.sparse && !full_diag) for (int i = 0; i < n; ++i) if (pr.u01() < 0.3) { flat.push_back(i); d.patH.row(i).setZero(); d.patH.col(i).setZero(); }
    // values
    d.H = MatrixXd::Zero(n, n); d.A = MatrixXd::Zero(m, n); d.h.resize(n); d.l.resize(m); d.u.resize(m); d.xl.resize(n); d.xu.resize(n);
    double hs = r.logu(0.3, 3), as = r.logu(0.5, 2);
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (d.patH(i, j)) { double v = r.uni(-1, 1) * 0.5; d.H(i, j) = d.H(j, i) = v * hs; }
    for (int i = 0; i < n; ++i) if (d.patH(i, i)) { double s = 0; for (int j = 0; j < n; ++j) if (j != i) s += std::fabs(d.H(i, j)); d.H(i, i) = s + hs * r.uni(0.2, 2); } // strictly diagonally dominant
    if (kind == PK_NONCONVEX) for (int i = 0; i < n; ++i) if (d.patH(i, i) && r.chance(0.4)) d.H(i, i) = -d.H(i, i);
    if (kind == PK_SEMIDEF && !c.sparse) { VectorXd a(n); for (int i = 0; i < n; ++i) a(i) = r.uni(-1, 1); d.H = hs * a * a.transpose(); }
    if (kind == PK_SEMIDEF && c.sparse) for (int i = 0; i < n; ++i) if (r.chance(0.3)) { d.H.row(i).setZero(); d.H.col(i).setZero(); }
    if (kind == PK_LP) d.H.setZero();
    for (int i = 0; i < n; ++i) d.h(i) = r.uni(-2, 2) * hs;
    for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) if (d.patA(i, j)) d.A(i, j) = r.uni(-1, 1) * as + (r.chance(0.5) ? 0.3 : -0.3);
    VectorXd xf(n); bool bounded = kind == PK_SEMIDEF || kind == PK_LP || kind == PK_NONCONVEX || !flat.empty();
    for (int i = 0; i < n; ++i) { xf(i) = r.uni(-1, 1); int t = int(r.next() % 8);
        d.xl(i) = xf(i) - r.uni(0.05, 2); d.xu(i) = xf(i) + r.uni(0.05, 2);
        if (!bounded) { if (t == 0) d.xl(i) = -QINF; else if (t == 1) d.xu(i) = QINF; else if (t == 2) { d.xl(i) = -QINF; d.xu(i) = QINF; } }
        if (t == 3) d.xl(i) = d.xu(i) = xf(i);
        if (t == 4 && !bounded) { d.xl(i) = -1e12; d.xu(i) = 1e12; } }
    VectorXd b = d.A * xf; int neq = 0;
    for (int i = 0; i < m; ++i) { int t = int(r.next() % 6); d.l(i) = b(i) - r.uni(0.05, 1.5); d.u(i) = b(i) + r.uni(0.05, 1.5);
        if (t == 0) d.l(i) = -QINF; else if (t == 1) d.u(i) = QINF; else if (t == 2) { d.l(i) = -QINF; d.u(i) = QINF; } else if (t == 3 && neq < n / 2) { d.l(i) = d.u(i) = b(i); ++neq; } }
    if (kind == PK_INFEAS) { // contradictory row against the box (bounds themselves stay ordered)
        if (m > 0) { int i = int(r.next() % m); double lo = 0; for (int j = 0; j < n; ++j) { d.xl(j) = xf(j) - 0.5; d.xu(j) = xf(j) + 0.5; lo += std::fabs(d.A(i, j)) * 0.5; } d.l(i) = b(i) + lo + r.uni(0.5, 3); d.u(i) = d.l(i) + r.uni(0, 1); } }
    return d; }

// the same matrices with new vectors: 1 = new gradient, new bounds of new kinds; 2 = the problem once more; 3 = new gradient, bounds moved (kinds kept)
void qp_revector(QpData& d, uint64_t seed, int mode, bool bounded) { { Rng f(seed * 37 + 29); if (f.chance(0.5)) d.form = f.irange(0, 15); } if (mode == 2) return; Rng r(seed * 60013 + 3); int n = d.n, m = d.m; double hs = r.logu(0.3, 3); for (int i = 0; i < n; ++i) d.h(i) = r.uni(-2, 2) * hs;
    VectorXd xf(n); for (int i = 0; i < n; ++i) xf(i) = r.uni(-1, 1); VectorXd b = d.A * xf;
    if (mode == 3) { d.xl += xf; d.xu += xf; d.l += b; d.u += b; return; }
    for (int i = 0; i < n; ++i) { int t = int(r.next() % 6); d.xl(i) = xf(i) - r.uni(0.05, 2); d.xu(i) = xf(i) + r.uni(0.05, 2); if (!bounded) { if (t == 0 || t == 2) d.xl(i) = -QINF; if (t == 1 || t == 2) d.xu(i) = QINF; } if (t == 3) d.xl(i) = d.xu(i) = xf(i); }
    int neq = 0; for (int i = 0; i < m; ++i) { int t = int(r.next() % 6); d.l(i) = b(i) - r.uni(0.05, 1.5); d.u(i) = b(i) + r.uni(0.05, 1.5); if (t == 0 || t == 2) d.l(i) = -QINF; if (t == 1 || t == 2) d.u(i) = QINF; if (t == 3 && neq < n / 2) { d.l(i) = d.u(i) = b(i); ++neq; } } }

bool qp_poison(QpData& d, int f, int pos) { const double N = std::numeric_limits<double>::quiet_NaN(); if (pos < 0) pos = -pos;
    auto hit = [&](MatrixXd& M, const MatrixXi& P, double v, bool sym) { std::vector<std::pair<int, int>> e; for (int j = 0; j < M.cols(); ++j) for (int i = 0; i < M.rows(); ++i) if (P(i, j)) e.push_back({i, j}); if (e.empty()) return false; auto q = e[pos % e.size()]; M(q.first, q.second) = v; if (sym) M(q.second, q.first) = v; return true; };
    switch (f) { case DF_NAN_H: return hit(d.H, d.patH, N, true); case DF_NAN_h: d.h(pos % d.n) = N; return true; case DF_NAN_A: return hit(d.A, d.patA, N, false);
        case DF_INF_h: d.h(pos % d.n) = (pos / d.n) % 2 ? QINF : -QINF; return true; case DF_INF_A: return hit(d.A, d.patA, QINF, false); case DF_INF_H: return hit(d.H, d.patH, QINF, true); }
    return false; }

// plain loops, extended precision, nothing shared with the code under test
QpKkt qp_kkt(const QpData& d, const QpOut& o, const QpSet& s, bool single) {
    QpKkt k{}; typedef long double L; int n = d.n, m = d.m; k.finite = true;
    for (int i = 0; i < n; ++i) if (bad(o.x(i))) k.finite = false; for (int i = 0; i < n + m; ++i) if (bad(o.y(i))) k.finite = false;
    auto f = [&](double v) -> L { return single ? L(float(v)) : L(v); };
    L prim = 0, nax = 0, nx = 0, comp = 0;
    std::vector<L> ax(m, 0), g(n, 0), hx(n, 0), aty(n, 0);
    for (int i = 0; i < m; ++i) { for (int j = 0; j < n; ++j) if (d.patA(i, j)) ax[i] += f(d.A(i, j)) * L(o.x(j)); nax = std::max(nax, fabsl(ax[i])); }
    for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) if (d.patH(i, j)) hx[i] += f(d.H(i, j)) * L(o.x(j)); for (int j = 0; j < m; ++j) if (d.patA(j, i)) aty[i] += f(d.A(j, i)) * L(o.y(j)); g[i] = hx[i] + f(d.h(i)) + aty[i] + L(o.y(m + i)); nx = std::max(nx, fabsl(L(o.x(i)))); }
    auto viol = [&](L v, double lo, double hi) { L r = 0; if (v < f(lo)) r = f(lo) - v; if (v > f(hi)) r = std::max(r, v - f(hi)); return r; };
    for (int i = 0; i < m; ++i) prim = std::max(prim, viol(ax[i], d.l(i), d.u(i))); for (int i = 0; i < n; ++i) prim = std::max(prim, viol(o.x(i), d.xl(i), d.xu(i)));
    L dual = 0, nh = 0, nhx = 0, naty = 0, ny = 0; for (int i = 0; i < n; ++i) { dual = std::max(dual, fabsl(g[i])); nh = std::max(nh, fabsl(f(d.h(i)))); nhx = std::max(nhx, fabsl(hx[i])); naty = std::max(naty, fabsl(aty[i])); ny = std::max(ny, fabsl(L(o.y(m + i)))); }
    L ymax = ny; for (int i = 0; i < m; ++i) ymax = std::max(ymax, fabsl(L(o.y(i))));
    // complementarity: a multiplier acts only at the bound it belongs to
    L ytol = (single ? 2e-2L : 1e-5L) * (1 + ymax);
    auto cs = [&](L y, L v, double lo, double hi) { if (y > ytol) { L gap = std::isinf(hi) ? 1e9L : fabsl(f(hi) - v); comp = std::max(comp, gap); } if (y < -ytol) { L gap = std::isinf(lo) ? 1e9L : fabsl(v - f(lo)); comp = std::max(comp, gap); } };
    for (int i = 0; i < m; ++i) cs(o.y(i), ax[i], d.l(i), d.u(i)); for (int i = 0; i < n; ++i) cs(o.y(m + i), o.x(i), d.xl(i), d.xu(i));
    L round = single ? 2e-5L : 1e-9L;
    k.sp = double(s.eps_abs + s.eps_rel * std::max(nax, nx)); k.sd = double(s.eps_abs + s.eps_rel * std::max(std::max(nhx, naty), std::max(nh, ny)));
    // the solver scales by its internal copy of A x, which differs from A x by at most the residual itself
    k.sp = k.sp * (1 + 2 * s.eps_rel) + double(round * (1 + nax + nx)); k.sd = k.sd + double(round * (1 + nhx + naty + nh + ny) * (single ? 5 : 1));
    k.prim = double(prim); k.dual = double(dual); k.comp = double(comp); return k; }

std::string qp_honest(const QpData& d, const QpOut& o, const QpSet& s, bool single, std::string& detail) {
    char b[400]; if (o.status != o.istatus) { snprintf(b, 400, "solve() returned status %d but the info record says %d", o.status, o.istatus); detail = b; return "status-mismatch"; }
    if (o.status != QP_SOLVED) return "";
    QpKkt k = qp_kkt(d, o, s, single);
    if (!k.finite) { detail = "status SOLVED with a non-finite primal or dual solution"; return "solved-nonfinite"; }
    snprintf(b, 400, "status SOLVED but primal violation %.3g (allowed %.3g), dual residual %.3g (allowed %.3g), complementarity gap %.3g; reported res_prim %.3g res_dual %.3g", k.prim, k.sp, k.dual, k.sd, k.comp, o.rp, o.rd); detail = b;
    if (!(k.prim <= k.sp)) return "solved-infeasible"; if (!(k.dual <= k.sd)) return "solved-not-stationary"; if (!(k.comp <= 1.01 * k.sp)) return "solved-not-complementary";
    double rs = single ? 1e-3 : 1e-7; // reported residuals must not understate the true ones
    if (!(k.prim <= o.rp + rs * (1 + k.sp / std::max(1e-300, s.eps_rel + s.eps_abs))) || !(k.dual <= o.rd + rs * (1 + k.sd / std::max(1e-300, s.eps_rel + s.eps_abs)))) return "residual-understated";
    return ""; }

// OSQP-type splitting for l <= A x <= u, xl <= x <= xu with the constraints stacked as E = [A; I]
QpOut qp_ref(const QpCfg& c, const QpData& d, const QpSet& s, const VectorXd* xg, const VectorXd* yg) {
    int n = d.n, m = d.m, k = n + m; QpOut o; MatrixXd E(k, n); E << d.A, MatrixXd::Identity(n, n); VectorXd lo(k), hi(k); lo << d.l, d.xl; hi << d.u, d.xu;
    VectorXd x = xg ? *xg : VectorXd::Zero(n), y = yg ? *yg : VectorXd::Zero(k), z = E * x; double rho = s.rho; VectorXd R(k); Eigen::PartialPivLU<MatrixXd> lu;
    auto factor = [&] { for (int i = 0; i < k; ++i) R(i) = lo(i) < -1e10 && hi(i) > 1e10 ? 1e-6 : hi(i) - lo(i) < 1e-4 ? 1e3 * rho : rho; MatrixXd K = d.H + E.transpose() * R.asDiagonal() * E; K.diagonal().array() += s.sigma; lu.compute(K); ++o.factors; };
    factor(); o.status = QP_MAXITER; int it; double rp = 1, rd = 1, np = 0, nd = 0; auto inf = [](const VectorXd& v) { return v.size() ? v.cwiseAbs().maxCoeff() : 0.0; };
    auto residuals = [&] { VectorXd ax = d.A * x, aty = d.A.transpose() * y.head(m), hx = d.H * x; double r1 = inf(ax - z.head(m)), r2 = inf(x - z.tail(n)); rp = c.box ? r1 + r2 : std::max(r1, r2);
        np = std::max(inf(ax), inf(x)); np = std::max(np, c.box ? inf(z.head(m)) : inf(z)); rd = inf(hx + d.h + aty + y.tail(n)); nd = std::max(std::max(inf(hx), inf(aty)), std::max(inf(d.h), inf(y.tail(n)))); };
    for (it = 1; it <= s.max_iter; ++it) {
        // minimise 1/2 x'Hx + h'x + sigma/2 |x - x_k|^2 + 1/2 |E x - z + y / R|_R^2
        VectorXd xt = lu.solve(s.sigma * x - d.h + E.transpose() * (R.cwiseProduct(z) - y)), zt = E * xt; ++o.solves; VectorXd zr = s.alpha * zt + (1 - s.alpha) * z;
        x = s.alpha * xt + (1 - s.alpha) * x; VectorXd zn = (zr + y.cwiseQuotient(R)).cwiseMax(lo).cwiseMin(hi); y += R.cwiseProduct(zr - zn); z = zn; if (!(inf(x) < 1e5 && inf(y) < 1e6)) o.noisy = true; // transient amplification: the finish is decided by rounding
        bool chk = s.check && it % s.check == 0; if (chk) { residuals(); { double a = rp / (s.eps_abs + s.eps_rel * np), b = rd / (s.eps_abs + s.eps_rel * nd), tn = o.factors > 1 ? 1e-2 : 1e-6; if (std::fabs(std::max(a, b) - 1) < tn) o.noisy = true; } if (rp <= s.eps_abs + s.eps_rel * np && rd <= s.eps_abs + s.eps_rel * nd) { o.status = QP_SOLVED; break; } }
        if (s.adaptive && it % s.interval == 0) { if (!chk) residuals(); double e = 1e-9, nr = rho * std::sqrt(rp / (np + e) / (rd / (nd + e) + e)); nr = std::max(1e-6, std::min(nr, 1e6)); if (rp < 1e-6 * (1 + np) || rd < 1e-6 * (1 + nd) || o.factors > 6) o.noisy = true; /* residuals at rounding level: the estimate is noise */ double q = std::max(nr / rho, rho / nr); if (std::fabs(q / s.tol - 1) < 1e-3) o.noisy = true; if (nr < rho / s.tol || nr > rho * s.tol) { rho = nr; factor(); } } }
    o.istatus = o.status; o.iter = it; o.rp = rp; o.rd = rd; o.x = x; o.y = y; return o; }
