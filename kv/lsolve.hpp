// Forced include (deductive mode) for units that solve linear systems with an Eigen decomposition: the decomposition is
// replaced by its contract, supplied by the harness: for a nonsingular matrix, solve(b) is the x with A x = b.
#pragma once
#ifdef KV_SYM
#include <Eigen/QR>
#include <Eigen/LU>
Eigen::Matrix<kv::Real, -1, 1> kv_linear_solve(const Eigen::Matrix<kv::Real, -1, -1>& A, const Eigen::Matrix<kv::Real, -1, 1>& b);
namespace Eigen {
#define KV_DECOMP(D) template <> class D<Matrix<kv::Real, -1, -1>> { Matrix<kv::Real, -1, -1> a_; public: D() {} \
  template <class M> explicit D(const EigenBase<M>& m) : a_(m.derived()) {} template <class M> D& compute(const EigenBase<M>& m) { a_ = m.derived(); return *this; } \
  template <class R> Matrix<kv::Real, -1, 1> solve(const MatrixBase<R>& b) const { return kv_linear_solve(a_, Matrix<kv::Real, -1, 1>(b)); } };
KV_DECOMP(HouseholderQR) KV_DECOMP(ColPivHouseholderQR) KV_DECOMP(FullPivHouseholderQR) KV_DECOMP(FullPivLU)
#undef KV_DECOMP
}
#endif
