// Problem formulas shared by the library (its scalar and AD types) and by the oracle (jets in extended precision).
#ifndef OCP_FAM_HPP
#define OCP_FAM_HPP
#include "ocp_world.hpp"
// 2-jets in extended precision (oracle side)
enum { JN = 8 };
struct Jet { LD v; LD g[JN]; LD h[JN][JN]; Jet(LD x = 0) : v(x) { for (int i = 0; i < JN; ++i) { g[i] = 0; for (int j = 0; j < JN; ++j) h[i][j] = 0; } } };
inline Jet jlin(LD v, const Jet& a, LD ca, const Jet& b, LD cb) { Jet r(v); for (int i = 0; i < JN; ++i) { r.g[i] = ca * a.g[i] + cb * b.g[i]; for (int j = 0; j < JN; ++j) r.h[i][j] = ca * a.h[i][j] + cb * b.h[i][j]; } return r; }
inline Jet operator+(const Jet& a, const Jet& b) { return jlin(a.v + b.v, a, 1, b, 1); }
inline Jet operator-(const Jet& a, const Jet& b) { return jlin(a.v - b.v, a, 1, b, -1); }
inline Jet operator*(const Jet& a, const Jet& b) { Jet r = jlin(a.v * b.v, a, b.v, b, a.v); for (int i = 0; i < JN; ++i) for (int j = 0; j < JN; ++j) r.h[i][j] += a.g[i] * b.g[j] + a.g[j] * b.g[i]; return r; }
inline Jet jun(const Jet& a, LD f, LD f1, LD f2) { Jet r(f); for (int i = 0; i < JN; ++i) { r.g[i] = f1 * a.g[i]; for (int j = 0; j < JN; ++j) r.h[i][j] = f1 * a.h[i][j] + f2 * a.g[i] * a.g[j]; } return r; }
inline Jet sin(const Jet& a) { return jun(a, sinl(a.v), cosl(a.v), -sinl(a.v)); }
inline Jet exp(const Jet& a) { LD e = expl(a.v); return jun(a, e, e, e); }
inline Jet cos(const Jet& a) { return jun(a, cosl(a.v), -sinl(a.v), -cosl(a.v)); }
using std::sin; using std::cos; using std::exp;

// coefficient layout: 16 per callback
template<class T, class X, class U, class P, class D, class TT, class O> void fam_dyn(const double* c, int nx, int nu, int np, int nd, const X& x, const U& u, const P& p, const D& d, const TT& t, O& out) {
    for (int i = 0; i < nx; ++i) { T s = sin(x(i)); T v = T(c[i % 4]) * x((i + 1) % nx) - T(c[4 + i % 4]) * x(i) + T(c[8]) * u(i % nu) + T(c[9]) * s;
        T xu = x(i) * u((i + 1) % nu); v = v + T(c[10]) * xu; if (np) { T px = p(i % np) * x(0); T pu = p(np - 1) * u(nu - 1); v = v + T(c[11]) * px + T(c[12]) * pu; }
        if (nd) v = v + T(d(i % nd)) * x(i); T tt = T(t); T st = sin(tt); v = v + T(c[13]) * st; if (i == 0) v = v + T(c[14]) * x(nx - 1) * x(nx - 1); out(i) = v; } }
template<class T, class X, class U, class P, class D> T fam_lag(const double* c, int nx, int nu, int np, int nd, const X& x, const U& u, const P& p, const D& d, double t) {
    T L = T(c[0]); for (int i = 0; i < nx; ++i) { T e = x(i) - T(c[1] * t); L = L + T(c[2 + i % 2]) * e * e; } for (int j = 0; j < nu; ++j) L = L + T(c[4 + j % 2]) * u(j) * u(j);
    for (int j = 0; j < nu; ++j) { T m = x(j % nx) * u(j); L = L + T(c[6] * (j + 1)) * m; }
    if (np) { for (int k = 0; k < np; ++k) { T m = p(k) * x((nx - 1 + k) % nx); L = L + T(c[7] * (k + 1)) * m; T q = p(k) * u((nu - 1 + k) % nu); L = L + T(c[8] * (k + 1)) * q; L = L + T(c[9]) * p(k) * p(k); } T pp = p(0) * p(np - 1); L = L + T(c[10]) * pp; }
    if (nd) L = L + T(c[11] * d(0)) * x(0); T h = T(0.3) * u(0); T e = exp(h); T s = sin(x(nx - 1)); T m = s * e; return T(L + T(c[12]) * m); }
template<class T, class X, class U, class P, class D> T fam_may(const double* c, int nx, int nu, int np, int nd, const X& x, const U& u, const P& p, const D& d, double t) {
    T L = T(0.0); for (int i = 0; i < nx; ++i) L = L + T(c[0] * (i + 1)) * x(i) * x(i); T xx = x(0) * x(nx - 1); L = L + T(c[1]) * xx; for (int j = 0; j < nu; ++j) { T m = x(j % nx) * u(j); L = L + T(c[2]) * u(j) * u(j) + T(c[3] * (j + 1)) * m; }
    if (np) for (int k = 0; k < np; ++k) { T m = p(k) * x(k % nx); T q = p(k) * u(k % nu); L = L + T(c[4]) * p(k) * p(k) + T(c[5] * (k + 1)) * m + T(c[6]) * q; } if (nd) L = L + T(c[7] * d(nd - 1)) * x(nx - 1); return T(L + T(c[8] * t) * x(0)); }
template<class T, class X, class U, class P, class D, class O> void fam_ineq(const double* c, int nx, int nu, int np, int nd, int ng, const X& x, const U& u, const P& p, const D& d, double t, O& out) {
    for (int k = 0; k < ng; ++k) { T m = x(k % nx) * u(k % nu); T q = x((k + 1) % nx) * x((k + 1) % nx); T v = T(c[0] * (k + 1)) * m + T(c[1]) * q + T(c[2]) * u((k + 1) % nu); if (np) { T w = p(k % np) * x(0); T z = p(np - 1) * u(nu - 1); v = v + T(c[3]) * w + T(c[4]) * z; } if (nd) v = v + T(d(0)) * x(nx - 1); T s = sin(u(0)); out(k) = v + T(c[5]) * s + T(c[6] * t); } }
#endif
