#include "ocp_common.hpp"
#include "ocp_fam.hpp"
OcpCb g_oc;
int ocp_cb(int which, double t) { if (g_yield) g_yield(10 + which); if (g_oc.rec) g_oc.t[which].push_back(t); if (!g_oc.kind || g_oc.which != which) return 0; long k = ++g_oc.calls; bool hit = g_oc.kind == 2 ? k >= g_oc.at : k == g_oc.at; if (hit) g_oc.fired = true; return hit ? g_oc.kind : 0; }
std::vector<OcpCfg>& ocp_cfgs() { static std::vector<OcpCfg> v; return v; }
const OcpCfg& ocp_cfg(int i) { auto& v = ocp_cfgs(); static bool s = false; if (!s) { std::sort(v.begin(), v.end(), [](const OcpCfg& a, const OcpCfg& b) { return a.name < b.name; }); s = true; } int n = int(v.size()); return v[((i % n) + n) % n]; }
const OcpScheme& ocp_scheme(int P) { static std::map<int, OcpScheme> m; auto it = m.find(P); if (it != m.end()) return it->second; OcpScheme s; int n = P + 1; s.nodes.resize(n); for (int i = 0; i < n; ++i) s.nodes(i) = i * 2 == P ? LD(0) : cosl(acosl(-1.0L) * i / P);
    // barycentric weights -> differentiation matrix
    LVec b(n); for (int i = 0; i < n; ++i) { b(i) = 1; for (int j = 0; j < n; ++j) if (j != i) b(i) /= (s.nodes(i) - s.nodes(j)); }
    s.D = LMat::Zero(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j) { s.D(i, j) = b(j) / b(i) / (s.nodes(i) - s.nodes(j)); s.D(i, i) -= s.D(i, j); }
    // interpolatory weights: exact for every monomial up to degree P
    LMat V(n, n); LVec r(n); for (int k = 0; k < n; ++k) { for (int j = 0; j < n; ++j) { V(k, j) = 1; for (int e = 0; e < k; ++e) V(k, j) *= s.nodes(j); } r(k) = k % 2 ? LD(0) : LD(2) / (k + 1); } s.w = V.fullPivLu().solve(r);
    return m[P] = s; }
LVec ocp_times(const OcpDim& q, double t0, double tf) { const OcpScheme& s = ocp_scheme(q.P); LVec t(q.nodes()); LD L = (LD(tf) - LD(t0)) / q.S; for (int g = 0; g < q.S; ++g) for (int i = 0; i <= q.P; ++i) { LD a = LD(tf) - L * (g + 1), z = a + L * (1 + s.nodes(i)) / 2; t(g * q.P + i) = z; } return t; }
struct JV { Jet a[8]; Jet& operator()(int i) { return a[i]; } const Jet& operator()(int i) const { return a[i]; } };
OcpRef ocp_ref(const OcpDim& q, const OcpCoef& k, double t0, double tf, const VectorXd& v, const VectorXd& d, const VectorXd& lam, double scale) {
    const OcpScheme& s = ocp_scheme(q.P); int N = q.nodes(), nv = q.nvar(), ne = q.neq(), ni = q.nin(), ox = 0, ou = q.nx * N, op = ou + q.nu * N, nl = q.nx + q.nu + q.np; LVec t = ocp_times(q, t0, tf); LD ts = (LD(tf) - LD(t0)) / (2 * q.S);
    OcpRef r; r.cost = 0; r.c = LVec::Zero(ne); r.g = LVec::Zero(ni); r.grad = LVec::Zero(nv); r.Jc = LMat::Zero(ne, nv); r.Jg = LMat::Zero(ni, nv); r.H = LMat::Zero(nv, nv); LMat HC = LMat::Zero(nv, nv);
    // interpolant slope at every node; a shared node belongs to the segment it ends
    for (int n = 0; n < N; ++n) { int g = std::min(n / q.P, q.S - 1), row = n - g * q.P; for (int j = 0; j <= q.P; ++j) for (int i = 0; i < q.nx; ++i) { int col = (g * q.P + j) * q.nx + i; r.Jc(n * q.nx + i, col) += s.D(row, j); r.c(n * q.nx + i) += s.D(row, j) * LD(v(col)); } }
    for (int n = 0; n < N; ++n) { JV x, u, p, f, h; std::vector<int> at(nl); for (int i = 0; i < q.nx; ++i) { at[i] = ox + n * q.nx + i; x(i) = Jet(v(at[i])); x(i).g[i] = 1; } for (int i = 0; i < q.nu; ++i) { at[q.nx + i] = ou + n * q.nu + i; u(i) = Jet(v(at[q.nx + i])); u(i).g[q.nx + i] = 1; } for (int i = 0; i < q.np; ++i) { at[q.nx + q.nu + i] = op + i; p(i) = Jet(v(op + i)); p(i).g[q.nx + q.nu + i] = 1; }
        double tn = double(t(n)); auto addH = [&](LMat& H, const Jet& J, LD c) { for (int a = 0; a < nl; ++a) for (int b = 0; b < nl; ++b) H(at[a], at[b]) += c * J.h[a][b]; };
        fam_dyn<Jet>(k.a, q.nx, q.nu, q.np, q.nd, x, u, p, d, Jet(t(n)), f); for (int i = 0; i < q.nx; ++i) { r.c(n * q.nx + i) -= ts * f(i).v; for (int a = 0; a < nl; ++a) r.Jc(n * q.nx + i, at[a]) -= ts * f(i).g[a]; addH(HC, f(i), -ts * LD(lam(n * q.nx + i))); }
        if (q.variant == OV_FULL && q.ng) { fam_ineq<Jet>(k.a + 48, q.nx, q.nu, q.np, q.nd, q.ng, x, u, p, d, tn, h); for (int i = 0; i < q.ng; ++i) { r.g(n * q.ng + i) = h(i).v; for (int a = 0; a < nl; ++a) r.Jg(n * q.ng + i, at[a]) = h(i).g[a]; addH(HC, h(i), LD(lam(ne + n * q.ng + i))); } }
        if (q.variant != OV_MAYER) { Jet L = fam_lag<Jet>(k.a + 16, q.nx, q.nu, q.np, q.nd, x, u, p, d, tn); LD w = 0; int g = n / q.P, row = n % q.P; if (g < q.S) w += s.w(row); if (row == 0 && n > 0) w += s.w(q.P); w *= ts; r.cost += w * L.v; for (int a = 0; a < nl; ++a) r.grad(at[a]) += w * L.g[a]; addH(r.H, L, w); }
        if (n == 0 && q.variant != OV_LAG) { Jet M = fam_may<Jet>(k.a + 32, q.nx, q.nu, q.np, q.nd, x, u, p, d, tn); r.cost += M.v; for (int a = 0; a < nl; ++a) r.grad(at[a]) += M.g[a]; addH(r.H, M, 1); } }
    r.HL = LD(scale) * r.H + HC; LVec l = lam.cast<LD>(); r.lgrad = r.grad + r.Jc.transpose() * l.head(ne) + r.Jg.transpose() * l.segment(ne, ni) + l.tail(nv); return r; }
OcpCoef ocp_coef(uint64_t seed, int kind) { Rng r(seed * 977 + 13); OcpCoef k; for (double& a : k.a) a = std::round(r.uni(-1, 1) * 64) / 64; if (kind == 1) for (double& a : k.a) if (r.chance(0.5)) a = 0; if (kind == 2) for (double& a : k.a) a = 0; return k; }
std::string ocp_diff(const char* what, const VectorXd& a, const VectorXd& b, double tol) { char t[200]; if (a.size() != b.size()) { snprintf(t, 200, "%s: size %d against %d", what, int(a.size()), int(b.size())); return t; } double sc = 1; for (int i = 0; i < b.size(); ++i) if (!bad(b(i))) sc = std::max(sc, std::fabs(b(i))); for (int i = 0; i < a.size(); ++i) if (!(std::fabs(a(i) - b(i)) <= tol * sc) && !(bad(a(i)) && bad(b(i)))) { snprintf(t, 200, "%s[%d] is %.12g, expected %.12g", what, i, a(i), b(i)); return t; } return ""; }
std::string ocp_diffm(const char* what, const MatrixXd& a, const MatrixXd& b, double tol) { char t[200]; if (a.rows() != b.rows() || a.cols() != b.cols()) { snprintf(t, 200, "%s: size %dx%d against %dx%d", what, int(a.rows()), int(a.cols()), int(b.rows()), int(b.cols())); return t; } double sc = 1; for (int i = 0; i < b.size(); ++i) if (!bad(b.data()[i])) sc = std::max(sc, std::fabs(b.data()[i])); for (int j = 0; j < a.cols(); ++j) for (int i = 0; i < a.rows(); ++i) if (!(std::fabs(a(i, j) - b(i, j)) <= tol * sc) && !(bad(a(i, j)) && bad(b(i, j)))) { snprintf(t, 200, "%s(%d,%d) is %.12g, expected %.12g", what, i, j, a(i, j), b(i, j)); return t; } return ""; }
