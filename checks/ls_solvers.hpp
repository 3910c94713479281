// wrappers around Eigen's factorisations that pass through the linear-solver seam
#ifndef LS_SOLVERS_HPP
#define LS_SOLVERS_HPP
#include "ls_seam.hpp"
#include <Eigen/Sparse>
template<typename Mat, int UpLo, typename... A> struct SpyLDLT : Eigen::LDLT<Mat, UpLo> {
    using B = Eigen::LDLT<Mat, UpLo>; using V = Eigen::Matrix<typename Mat::Scalar, Mat::RowsAtCompileTime, 1>;
    B& compute(const Mat& m) { ++g_ls.factors; B::compute(m); return *this; }
    V solve(const V& r) const { V v = B::solve(r); ls_apply(v); return v; }
    Eigen::ComputationInfo info() const { if (g_ls.kind == 4 && g_ls.factors >= g_ls.at) { g_ls.fired = true; return Eigen::NumericalIssue; } return B::info(); } };
template<typename Mat, int UpLo, typename... A> struct SpySLDLT : Eigen::SimplicialLDLT<Mat, UpLo> {
    using B = Eigen::SimplicialLDLT<Mat, UpLo>; using V = Eigen::Matrix<typename Mat::Scalar, Eigen::Dynamic, 1>;
    void factorize(const Mat& m) { ++g_ls.factors; B::factorize(m); }
    V solve(const V& r) const { V v = B::solve(r); ls_apply(v); return v; }
    Eigen::ComputationInfo info() const { if (g_ls.kind == 4 && g_ls.factors >= g_ls.at) { g_ls.fired = true; return Eigen::NumericalIssue; } return B::info(); } };
// solvers that read the whole matrix (used with Lower|Upper)
template<typename Mat, int UpLo, typename... A> struct SpyLU : Eigen::PartialPivLU<Mat> {
    using B = Eigen::PartialPivLU<Mat>; using V = Eigen::Matrix<typename Mat::Scalar, Mat::RowsAtCompileTime, 1>;
    SpyLU& compute(const Mat& m) { ++g_ls.factors; B::compute(m); return *this; }
    V solve(const V& r) const { V v = B::solve(r); ls_apply(v); return v; }
    Eigen::ComputationInfo info() const { return Eigen::Success; } };
template<typename Mat, int UpLo, typename... A> struct SpySLU {
    using S = typename Mat::Scalar; using D = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>; using V = Eigen::Matrix<S, Eigen::Dynamic, 1>; Eigen::PartialPivLU<D> lu;
    void analyzePattern(const Mat&) {}
    void factorize(const Mat& m) { ++g_ls.factors; lu.compute(D(m)); }
    V solve(const V& r) const { V v = lu.solve(r); ls_apply(v); return v; }
    Eigen::ComputationInfo info() const { return Eigen::Success; } };
#endif
