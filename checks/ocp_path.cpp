// Scenario O05: a path (spline) object in a path-following session: the vehicle moves along the path and past its ends, its
// parameter jumps and breaks, the path is replanned under way, the object is copied and the original destroyed.
#include "ocp_common.hpp"
#include "polynomials/splines.hpp"
using namespace Eigen;
enum { PN = 3 }; typedef AutoDiffScalar<Matrix<double, PN, 1>> A1; typedef AutoDiffScalar<Matrix<A1, PN, 1>> A2; typedef AutoDiffScalar<Matrix<float, PN, 1>> F1;
struct PathRef { MatrixXd c; double len = 1; };
struct PathVal { LD v, d, dd, mag; };
static PathVal on(const PathRef& p, LD s, int k) { k = std::max(0, std::min(k, int(p.c.cols()) - 1)); LD a = p.c(0, k), b = p.c(1, k), c = p.c(2, k), d = p.c(3, k), z = fabsl(s); return {a + s * (b + s * (c + s * d)), b + s * (2 * c + s * 3 * d), 2 * c + 6 * d * s, fabsl(a) + z * (fabsl(b) + z * (fabsl(c) + z * fabsl(d))) + fabsl(b) + 2 * fabsl(c) + 6 * fabsl(d)}; }
template<class S> struct Obj { std::unique_ptr<polympc::EquidistantCubicSpline<S>> o; 
    void renew() { o.reset(new polympc::EquidistantCubicSpline<S>()); }
    void path(const PathRef& p, int how) { typename polympc::EquidistantCubicSpline<S>::coeffs_matrix_type c = p.c.cast<S>(); if (how) { o.reset(new polympc::EquidistantCubicSpline<S>(c, S(p.len))); } else { o->coefficients() = c; o->segment_length() = S(p.len); } }
    void copy(int how) { auto n = std::unique_ptr<polympc::EquidistantCubicSpline<S>>(new polympc::EquidistantCubicSpline<S>(how ? *o : polympc::EquidistantCubicSpline<S>())); if (!how) *n = *o; o->coefficients().setConstant(S(1e30)); o = std::move(n); } };
struct Got { double v = 0; VectorXd d; MatrixXd dd; };
static VectorXd seeds(uint64_t s) { Rng r(s * 19 + 3); VectorXd g(PN); for (int i = 0; i < PN; ++i) g(i) = std::round(r.uni(-2, 2) * 64) / 64; return g; }
static Got ask(const polympc::EquidistantCubicSpline<double>& o, double s, int kind, const VectorXd& g) { Got r;
    if (kind == 0) { r.v = o.eval(s); }
    else if (kind == 1) { A1 x(s); x.derivatives() = g; A1 y; { y = o.eval(x); } r.v = y.value(); r.d = y.derivatives(); }
    else { A2 x; x.value().value() = s; x.value().derivatives() = g; for (int i = 0; i < PN; ++i) { x.derivatives()(i).value() = g(i); x.derivatives()(i).derivatives().setZero(); } A2 y; { y = o.eval(x); } r.v = y.value().value(); r.d = y.value().derivatives(); r.dd.resize(PN, PN); for (int i = 0; i < PN; ++i) r.dd.row(i) = y.derivatives()(i).derivatives().transpose(); }
    return r; }
static Got ask(const polympc::EquidistantCubicSpline<float>& o, double s, int kind, const VectorXd& g) { Got r; if (kind == 0) { r.v = o.eval(float(s)); } else { F1 x{float(s)}; x.derivatives() = g.cast<float>(); F1 y; { y = o.eval(x); } r.v = y.value(); r.d = y.derivatives().cast<double>(); } return r; }
static PathRef make_path(uint64_t seed, int nseg, int li, bool single) { static const double LE[] = {1, 10, 0.25, 12.5, 0.3, 0.1, 3}; PathRef p; Rng r(seed * 41 + 5); p.len = LE[((li % 7) + 7) % 7]; if (single) p.len = float(p.len); p.c.resize(4, std::max(1, std::min(nseg, 40))); for (int k = 0; k < p.c.cols(); ++k) for (int i = 0; i < 4; ++i) { p.c(i, k) = std::round(r.uni(-4, 4) * 256) / 256; if (std::fabs(p.c(0, k)) < 0.5) p.c(0, k) += 1; } return p; }
template<class S> static void drive(const Plan& p, Ctx& x) { Obj<S> o; o.renew(); PathRef ref; double s = 0; bool have = false, single = sizeof(S) == 4; LD eps = single ? 2e-6L : 1e-14L; int replans = 0;
    for (size_t i = 1; i < p.ops.size() && !x.failed; ++i) { const Op& q = p.ops[i];
        if (q.name == "path") { ref = make_path(q.u(0), q.in(1), q.in(2), single); o.path(ref, q.in(3)); have = true; ++replans; if (replans > 1) x.fault("path_replaced"); x.sig(ref.c.cols()); }
        else if (q.name == "copy") { if (have) { o.copy(q.in(0)); x.fault("copied_original_destroyed"); } }
        else if (q.name == "read" && have) { double L = ref.len * ref.c.cols(); int to = q.in(0); switch (to) { case 1: s = L * q.at(1); break; case 2: s = ref.len * std::floor(q.at(1) * ref.c.cols() + 0.5); x.probe("exactly_on_a_knot"); break; case 3: s = L + ref.len * q.at(1); x.fault("past_the_end"); break; case 4: s = -ref.len * q.at(1); x.fault("before_the_start"); break; case 5: s = L; x.probe("exactly_at_the_end"); break; case 6: s = L * 1000 * (q.at(1) - 0.5); x.fault("parameter_jump"); break; case 7: s = q.at(1) < .4 ? std::nan("") : q.at(1) < .7 ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity(); x.fault("parameter_not_finite"); break; default: s += ref.len * (q.at(1) - 0.3); }
            if (single) s = float(s); int kind = q.in(2) % (single ? 2 : 3); VectorXd g = seeds(q.u(3)); Got v = ask(*o.o, s, kind, g); x.ticks(1); x.eval(); x.nontrivial(); x.val(v.v); x.sig(to * 3 + kind); x.probe(kind == 0 ? "value" : kind == 1 ? "first_derivatives" : "second_derivatives"); x.log("op %zu s=%.17g of %.17g (%d segments) kind %d -> %.17g", i, s, L, int(ref.c.cols()), kind, v.v);
            if (bad(s)) { if (!bad(v.v)) { x.fail("finite-for-nonfinite", "operation %zu: the path is at %.9g for the parameter %g", i, v.v, s); return; } s = 0; continue; }
            LD z = LD(s) / LD(S(ref.len)); int k = int(std::max(-10.0L, std::min(floorl(z), 1000.0L))); LD near = floorl(z + 0.5L); std::vector<int> ks{k}; if (near > -5 && near < 900 && fabsl(z - near) <= 4 * eps * (1 + fabsl(z))) ks = {int(near) - 1, int(near)};      // rounding of the division decides the side of a knot
            bool ok = false; char t[300] = ""; for (int kk : ks) { PathVal e = on(ref, s, kk); LD tol = (single ? 1e-5L : 1e-13L) * e.mag * (1 + g.cwiseAbs().maxCoeff()) * (1 + g.cwiseAbs().maxCoeff()); bool h = fabsl(v.v - e.v) <= tol; if (!h) snprintf(t, 300, "value %.12g, should be %.12g", v.v, double(e.v)); for (int a = 0; a < v.d.size() && h; ++a) if (!(fabsl(v.d(a) - e.d * g(a)) <= tol)) { h = false; snprintf(t, 300, "derivative %d is %.12g, should be %.12g", a, v.d(a), double(e.d * g(a))); } for (int a = 0; a < v.dd.size() && h; ++a) if (!(fabsl(v.dd(a / PN, a % PN) - e.dd * g(a / PN) * g(a % PN)) <= tol)) { h = false; snprintf(t, 300, "second derivative (%d,%d) is %.12g, should be %.12g", a / PN, a % PN, v.dd(a / PN, a % PN), double(e.dd * g(a / PN) * g(a % PN))); } ok = ok || h; }
            if (!ok) { x.fail(s < 0 || s >= L ? "outside-the-path" : "path-value", "operation %zu: path of %d segments of length %g read at %.9g: %s", i, int(ref.c.cols()), ref.len, s, t); return; } } } }
static void run_o05(const Plan& p, Ctx& x) { if (p.ops[0].in(0)) drive<float>(p, x); else drive<double>(p, x); }
static Reg o05({"o05_path", [](Rng& r, Plan& p, bool t) { p.ops.push_back({"cfg", {double(r.chance(0.2))}}); auto path = [&] { p.ops.push_back({"path", {double(r.sub() % 100000), double(r.chance(0.3) ? 1 : r.irange(1, t ? 30 : 8)), double(r.irange(0, 6)), double(r.irange(0, 1))}}); }; path(); int n = r.irange(3, t ? 60 : 25);
    for (int i = 0; i < n; ++i) { double u = r.u01(); if (u < 0.1) path(); else if (u < 0.16) p.ops.push_back({"copy", {double(r.irange(0, 1))}}); else p.ops.push_back({"read", {double(r.chance(0.4) ? 0 : r.irange(1, 7)), r.u01(), double(r.irange(0, 2)), double(r.sub() % 100000)}}); } }, run_o05});
