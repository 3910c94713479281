// Linear-solver seam shared by the QP, NLP and OCP worlds: real factorisations, observed and perturbed through the
// LinearSolver template parameter of the library's QP solvers.
#ifndef LS_SEAM_HPP
#define LS_SEAM_HPP
#include <limits>
#include <cstdint>
#include <Eigen/Dense>
#ifdef SIM_THREADS
#define SIM_TLS thread_local
#else
#define SIM_TLS
#endif
// depth of library calls in progress; user code called back from the library suspends it
extern SIM_TLS int g_lib;
struct LibScope { LibScope() { ++g_lib; } ~LibScope() { --g_lib; } };
struct UserScope { int k; UserScope() : k(g_lib) { g_lib = 0; } ~UserScope() { g_lib = k; } };
struct LsFault { int kind = 0; long at = 0; long solves = 0, factors = 0; bool fired = false; uint64_t rng = 1;
    // kinds: 0 none, 1 NaN in one entry at solve #at, 2 relative perturbation at solve #at, 3 all zero from #at on, 4 info()!=Success from factorisation #at, 5 NaN from #at on
    void reset(int k = 0, long a = 0) { kind = k; at = a; solves = factors = 0; fired = false; } };
extern SIM_TLS LsFault g_ls;
template<class V> void ls_apply(V& v) {
    long k = ++g_ls.solves; if (!g_ls.kind) return;
    if (g_ls.kind == 1 && k == g_ls.at) { v(v.size() / 2) = std::numeric_limits<typename V::Scalar>::quiet_NaN(); g_ls.fired = true; }
    else if (g_ls.kind == 2 && k == g_ls.at) { for (int i = 0; i < v.size(); ++i) v(i) *= typename V::Scalar(1.0 + 0.5 * ((i % 3) - 1)); g_ls.fired = true; }
    else if (g_ls.kind == 3 && k >= g_ls.at) { v.setZero(); g_ls.fired = true; }
    else if (g_ls.kind == 5 && k >= g_ls.at) { v.setConstant(std::numeric_limits<typename V::Scalar>::quiet_NaN()); g_ls.fired = true; } }
#endif
