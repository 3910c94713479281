#include "nlp_common.hpp"
#include <Eigen/Eigenvalues>
std::vector<NlpCfg>& nlp_cfgs() { static std::vector<NlpCfg> v; return v; }
SIM_TLS CbFault g_cb; SIM_TLS HessObs g_ho;
static std::vector<NlpCfg>& sorted() { static std::vector<NlpCfg> v; if (v.empty()) { v = nlp_cfgs(); std::sort(v.begin(), v.end(), [](const NlpCfg& a, const NlpCfg& b) { return a.name < b.name; }); } return v; }
const NlpCfg& nlp_cfg(int i) { int n = int(sorted().size()); return sorted()[((i % n) + n) % n]; }
int nlp_ncfg() { return int(sorted().size()); }
static bool fin(const MatrixXd& m) { for (int i = 0; i < m.size(); ++i) if (bad(m.data()[i])) return false; return true; }
bool nlp_regularise(MatrixXd& H) { if (!fin(H)) return false; MatrixXd h = 0.5 * (H + H.transpose()); Eigen::SelfAdjointEigenSolver<MatrixXd> es(h); if (es.eigenvalues()(0) > 1e-3) return false; VectorXd e = es.eigenvalues().cwiseAbs().cwiseMax(0.1); H = es.eigenvectors() * e.asDiagonal() * es.eigenvectors().transpose(); return true; }
void nlp_observe_update(const MatrixXd& H0, const MatrixXd& H1, const VectorXd& sy, bool single) { if (!fin(H0) || !fin(sy) || H0.cwiseAbs().maxCoeff() > 1e6 || sy.cwiseAbs().maxCoeff() > 1e6) return; // beyond the scalar type's useful range
    ++g_ho.updates; double sc = 1e-300 + H0.cwiseAbs().maxCoeff(), tol = single ? 1e-4 : 1e-9; if (!fin(H1)) { ++g_ho.notpd; g_ho.worst_eig = -1e300; return; } sc += H1.cwiseAbs().maxCoeff();
    double as = ((H1 - H1.transpose()).cwiseAbs().maxCoeff() - (H0 - H0.transpose()).cwiseAbs().maxCoeff()) / sc; if (!(as <= tol)) { ++g_ho.notsym; g_ho.worst_sym = as; }
    Eigen::SelfAdjointEigenSolver<MatrixXd> a(MatrixXd(0.5 * (H0 + H0.transpose()))), b(MatrixXd(0.5 * (H1 + H1.transpose())));
    if (a.eigenvalues()(0) > tol * sc && !(b.eigenvalues()(0) > -tol * sc)) { ++g_ho.notpd; g_ho.worst_eig = b.eigenvalues()(0) / sc; } }

// random data of a problem family; always feasible (bounds are placed around a point that satisfies every constraint)
NlpData nlp_problem(const NlpCfg& c, uint64_t pseed) { Rng r(pseed * 7907 + 11); NlpData d; d.p.resize(c.np); d.x0.resize(c.n); VectorXd xf(c.n);
    for (int i = 0; i < c.n; ++i) { xf(i) = r.uni(-1, 1); d.x0(i) = r.uni(-1.5, 1.5); }
    if (c.kind == NK_CONVEX) { for (int i = 0; i < 4; ++i) d.p(i) = r.uni(-1.5, 1.5); for (int i = 0; i < 4; ++i) d.p(4 + i) = r.uni(-1, 1) + (r.chance(0.5) ? 0.4 : -0.4); d.p(9) = r.chance(0.2) ? r.uni(5, 30) : r.uni(0.1, 3); d.p(8) = 0; }
    else if (c.kind == NK_NONCONVEX) { xf(0) = r.uni(0.4, 1.2); xf(1) = r.uni(0.2, 1.2); d.p << r.uni(0.5, 1.5), r.logu(1, 20), r.uni(0.2, 1.2), r.uni(-1, 1), 0, r.uni(-0.5, 0.5); d.x0 << xf(0) + r.uni(-.4, .4), xf(1) + r.uni(-.4, .4), xf(2) + r.uni(-.4, .4); }
    else if (c.kind == NK_BOX) d.p << r.uni(-2, 2), r.uni(-2, 2), r.uni(-2, 2), r.uni(0, 2);
    else if (c.kind == NK_INEQ) d.p << r.uni(-2, 2), r.uni(-2, 2), r.uni(0.5, 4), r.uni(0.5, 2);
    else if (c.kind == NK_FEAS) { xf(0) = r.uni(0.5, 1.5); d.p << r.uni(0.5, 2), 0, r.uni(-1, 1); d.x0 = xf; d.x0(0) += r.uni(-.3, .3); d.x0(1) += r.uni(-.3, .3); }
    NlpEval e = c.eval(xf, d.p); if (c.kind == NK_CONVEX) d.p(8) = double(e.c(0)); if (c.kind == NK_NONCONVEX) d.p(4) = double(e.c(0)); if (c.kind == NK_FEAS) d.p(1) = double(e.c(0)); // right-hand side such that c(xf) = 0
    auto& b = d.b; b.lbx.resize(c.n); b.ubx.resize(c.n); b.lbg.resize(c.ni); b.ubg.resize(c.ni);
    for (int i = 0; i < c.n; ++i) { int t = int(r.next() % 4); b.lbx(i) = t & 1 ? -QINF : xf(i) - r.uni(0.1, 1.5); b.ubx(i) = t & 2 ? QINF : xf(i) + r.uni(0.1, 1.5); if (c.kind == NK_NONCONVEX || c.kind == NK_FEAS) { b.lbx(i) = xf(i) - r.uni(0.2, 1.5); b.ubx(i) = xf(i) + r.uni(0.2, 1.5); } }
    for (int i = 0; i < c.ni; ++i) { b.ubg(i) = double(e.g(i)) + r.uni(0.1, 1); b.lbg(i) = -QINF; if (c.kind == NK_INEQ && i == 1) { b.lbg(i) = double(e.g(i)) - r.uni(0.1, 1); if (r.chance(0.3)) b.ubg(i) = QINF; } if (c.kind == NK_NONCONVEX) b.lbg(i) = double(e.g(i)) - r.uni(0.1, 1); }
    return d; }

NlpKkt nlp_kkt(const NlpCfg& c, const NlpData& d, const NlpOut& o) { NlpKkt k{}; k.finite = fin(o.x) && fin(o.lam); if (!k.finite) return k; NlpEval e = c.eval(o.x, d.p); LD v = 0;
    for (int i = 0; i < c.ne; ++i) v = std::max(v, fabsl(e.c(i))); auto box = [&](LD q, double lo, double hi) { if (q < LD(lo)) v = std::max(v, LD(lo) - q); if (q > LD(hi)) v = std::max(v, q - LD(hi)); };
    for (int i = 0; i < c.ni; ++i) box(e.g(i), d.b.lbg(i), d.b.ubg(i)); for (int i = 0; i < c.n; ++i) box(o.x(i), d.b.lbx(i), d.b.ubx(i)); k.viol = double(v);
    LD st = 0, gs = 1; for (int i = 0; i < c.n; ++i) { LD g = e.grad(i) + LD(o.lam(c.ne + c.ni + i)); gs = std::max(gs, fabsl(e.grad(i))); for (int j = 0; j < c.ne; ++j) g += e.Jc(j, i) * LD(o.lam(j)); for (int j = 0; j < c.ni; ++j) g += e.Jg(j, i) * LD(o.lam(c.ne + j)); st = std::max(st, fabsl(g)); }
    k.stat = double(st); k.gscale = double(gs); LD comp = 0; auto cs = [&](LD y, LD q, double lo, double hi) { if (y > 0) comp = std::max(comp, std::isinf(hi) ? y : std::min(y, fabsl(LD(hi) - q))); if (y < 0) comp = std::max(comp, std::isinf(lo) ? -y : std::min(-y, fabsl(q - LD(lo)))); };
    for (int i = 0; i < c.ni; ++i) cs(o.lam(c.ne + i), e.g(i), d.b.lbg(i), d.b.ubg(i)); for (int i = 0; i < c.n; ++i) cs(o.lam(c.ne + c.ni + i), o.x(i), d.b.lbx(i), d.b.ubx(i)); k.comp = double(comp);
    LD ym = 0; for (int i = 0; i < o.lam.size(); ++i) ym = std::max(ym, fabsl(LD(o.lam(i)))); k.yscale = double(ym); return k; }
