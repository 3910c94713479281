#include "mpc_common.hpp"
SIM_TLS OcpCb g_oc;
int ocp_cb(int which, double t) { if (g_yield) g_yield(10 + which); if (g_oc.rec) { g_oc.tmin = std::min(g_oc.tmin, t); g_oc.tmax = std::max(g_oc.tmax, t); } if (!g_oc.kind || g_oc.which != which) return 0; long k = ++g_oc.calls; bool hit = g_oc.kind == 2 ? k >= g_oc.at : k == g_oc.at; if (hit) g_oc.fired = true; return hit ? g_oc.kind : 0; }
std::vector<MpcCfg>& mpc_cfgs() { static std::vector<MpcCfg> v; return v; }
static std::vector<MpcCfg>& sorted() { static std::vector<MpcCfg> v; if (v.empty()) { v = mpc_cfgs(); std::sort(v.begin(), v.end(), [](const MpcCfg& a, const MpcCfg& b) { return a.name < b.name; }); } return v; }
const MpcCfg& mpc_cfg(int i) { int n = int(sorted().size()); return sorted()[((i % n) + n) % n]; }
int mpc_ncfg() { return int(sorted().size()); }
bool mpc_fin(const MatrixXd& m) { for (int i = 0; i < m.size(); ++i) if (bad(m.data()[i])) return false; return true; }
double mpc_dist(const VectorXd& a, const VectorXd& b) { double m = 0; for (int i = 0; i < a.size(); ++i) { if (bad(a(i)) != bad(b(i))) return 1e300; if (!bad(a(i))) m = std::max(m, std::fabs(a(i) - b(i)) / (1 + std::fabs(b(i)))); } return m; }
// nodes descending from +1 to -1; barycentric differentiation matrix
const MpcScheme& mpc_scheme(int P) { static std::map<int, MpcScheme> m; auto it = m.find(P); if (it != m.end()) return it->second; MpcScheme s; int n = P + 1; s.nodes.resize(n); for (int i = 0; i < n; ++i) s.nodes(i) = i * 2 == P ? LD(0) : cosl(acosl(-1.0L) * i / P);
    LVec b(n); for (int i = 0; i < n; ++i) { b(i) = 1; for (int j = 0; j < n; ++j) if (j != i) b(i) /= (s.nodes(i) - s.nodes(j)); }
    s.D = LMat::Zero(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j) { s.D(i, j) = b(j) / b(i) / (s.nodes(i) - s.nodes(j)); s.D(i, i) -= s.D(i, j); }
    return m[P] = s; }
LVec mpc_times(const MpcDim& q, double t0, double tf) { LVec t(q.nodes()); LD L = (LD(tf) - LD(t0)) / q.S; auto& s = mpc_scheme(q.P); for (int g = 0; g < q.S; ++g) for (int i = 0; i <= q.P; ++i) t(g * q.P + i) = LD(t0) + L * g + L / 2 * (1 + s.nodes(q.P - i)); return t; }
MpcViol mpc_viol(const MpcCfg& c, const MpcState& b, const VectorXd& x) { const MpcDim& q = c.q; MpcViol v{0, 0, 0}; auto& s = mpc_scheme(q.P); LD sc = (LD(b.tf) - LD(b.t0)) / (2 * q.S); LVec X = x.cast<LD>(); LVec d = b.d.cast<LD>(); std::vector<LD> f(q.nx + 1), g(q.ng + 1); LVec tt = mpc_times(q, b.t0, b.tf); const LD* p = X.data() + q.varx() + q.varu();
    auto mx = [](LD& a, LD z) { if (!(z <= a)) a = z; };
    for (int k = 0; k < q.nodes(); ++k) { const LD* xk = X.data() + k * q.nx; const LD* uk = X.data() + q.varx() + k * q.nu; LD t = tt(q.nodes() - 1 - k); c.dyn(xk, uk, p, d.data(), t, f.data()); int sg = std::min(k / q.P, q.S - 1), r = k - sg * q.P;
        for (int i = 0; i < q.nx; ++i) { LD z = 0; for (int j = 0; j <= q.P; ++j) z += s.D(r, j) * X((sg * q.P + j) * q.nx + i); mx(v.defect, fabsl(z - sc * f[i])); }
        if (q.ng) { c.ineq(xk, uk, p, d.data(), t, g.data()); for (int i = 0; i < q.ng; ++i) { mx(v.ineq, LD(b.lbg(k * q.ng + i)) - g[i]); mx(v.ineq, g[i] - LD(b.ubg(k * q.ng + i))); } } }
    for (int i = 0; i < q.nvar(); ++i) { mx(v.box, LD(b.lbx(i)) - X(i)); mx(v.box, X(i) - LD(b.ubx(i))); } return v; }
LVec mpc_interp(const MpcDim& q, double t0, double tf, const MatrixXd& V, LD t) { LVec tt = mpc_times(q, t0, tf); int g = 0; while (g + 1 < q.S && t > tt((g + 1) * q.P)) ++g; LVec r = LVec::Zero(V.rows()); for (int j = 0; j <= q.P; ++j) { LD l = 1; for (int k = 0; k <= q.P; ++k) if (k != j) l *= (t - tt(g * q.P + k)) / (tt(g * q.P + j) - tt(g * q.P + k)); r += l * V.col(g * q.P + j).cast<LD>(); } return r; }
