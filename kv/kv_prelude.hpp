// Force-included before every translation unit (-include).  Pulls in every standard /
// third-party header the real sources use, then, in deductive mode, re-binds `double`
// (and Eigen's *d typedefs) to kv::Real.  The sources of /repo are otherwise untouched.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <chrono>
#include <cmath>
#include <cstring>
#include <ctime>
#include <deque>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <queue>
#include <random>
#include <regex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <functional>
#include <boost/thread.hpp>
#include <boost/date_time/posix_time/posix_time.hpp>
#include <pthread.h>
#include <math.h>
#include <memory.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/time.h>
#include <unistd.h>
#include "kv.hpp"
#undef eigen_assert
#define eigen_assert(x) do { if (!(x)) kv::fail_assert("eigen_assert(" #x ")"); } while (0)
#ifdef KV_SYM
#ifndef EIGEN_DONT_VECTORIZE
#define EIGEN_DONT_VECTORIZE
#endif
#include <Eigen/Core>
namespace Eigen {
template <> struct NumTraits<kv::Real> : GenericNumTraits<kv::Real> {
  typedef kv::Real Real; typedef kv::Real NonInteger; typedef kv::Real Nested; typedef kv::Real Literal;
  enum { IsInteger = 0, IsSigned = 1, IsComplex = 0, RequireInitialization = 1,
         ReadCost = 1, AddCost = 3, MulCost = 3 };
  static inline Real epsilon() { return Real(std::numeric_limits<double>::epsilon()); }
  static inline Real dummy_precision() { return Real(1e-12); }
  static inline Real highest() { return Real(std::numeric_limits<double>::max()); }
  static inline Real lowest() { return Real(-std::numeric_limits<double>::max()); }
  static inline Real infinity() { return Real(std::numeric_limits<double>::infinity()); }
  static inline Real quiet_NaN() { return Real(std::numeric_limits<double>::quiet_NaN()); }
  static inline int digits10() { return 15; }
};
}
#endif
#include <Eigen/Eigen>
#include <Eigen/Dense>
#include <Eigen/Geometry>
#include <Eigen/Sparse>
#include <yaml-cpp/yaml.h>
#include <boost/smart_ptr.hpp>
#include <boost/thread.hpp>
#ifdef KV_SYM
namespace YAML {
template <> struct convert<kv::Real> {
  static Node encode(const kv::Real& r) { return Node(kv::to_string(r)); }
  static bool decode(const Node& n, kv::Real& r) {
    if (!n.IsScalar()) return false;
    if (n.Scalar().compare(0, 3, "kv:") == 0) { r = kv::input(n.Scalar().substr(3)); return true; }
    std::stringstream ss(n.Scalar()); ss >> r; return !ss.fail();
  }
};
inline Emitter& operator<<(Emitter& e, const kv::Real& r) { return e << kv::to_string(r); }
}
namespace Eigen {
typedef Matrix<kv::Real, Dynamic, 1> VectorXreal;
typedef Matrix<kv::Real, 1, Dynamic> RowVectorXreal;
typedef Matrix<kv::Real, Dynamic, Dynamic> MatrixXreal;
typedef Matrix<kv::Real, 2, 1> Vector2real;
typedef Matrix<kv::Real, 3, 1> Vector3real;
typedef Matrix<kv::Real, 4, 1> Vector4real;
typedef Matrix<kv::Real, 1, 2> RowVector2real;
typedef Matrix<kv::Real, 1, 3> RowVector3real;
typedef Matrix<kv::Real, 1, 4> RowVector4real;
typedef Matrix<kv::Real, 2, 2> Matrix2real;
typedef Matrix<kv::Real, 3, 3> Matrix3real;
typedef Matrix<kv::Real, 4, 4> Matrix4real;
typedef Matrix<kv::Real, 2, Dynamic> Matrix2Xreal;
typedef Matrix<kv::Real, 3, Dynamic> Matrix3Xreal;
typedef Array<kv::Real, Dynamic, 1> ArrayXreal;
typedef Array<kv::Real, Dynamic, Dynamic> ArrayXXreal;
typedef Quaternion<kv::Real> Quaternionreal;
typedef AngleAxis<kv::Real> AngleAxisreal;
typedef Transform<kv::Real, 3, Affine> Affine3real;
typedef Transform<kv::Real, 3, Isometry> Isometry3real;
}
#define double kv::Real
#define VectorXd VectorXreal
#define RowVectorXd RowVectorXreal
#define MatrixXd MatrixXreal
#define Vector2d Vector2real
#define Vector3d Vector3real
#define Vector4d Vector4real
#define RowVector2d RowVector2real
#define RowVector3d RowVector3real
#define RowVector4d RowVector4real
#define Matrix2d Matrix2real
#define Matrix3d Matrix3real
#define Matrix4d Matrix4real
#define Matrix2Xd Matrix2Xreal
#define Matrix3Xd Matrix3Xreal
#define ArrayXd ArrayXreal
#define ArrayXXd ArrayXXreal
#define Quaterniond Quaternionreal
#define AngleAxisd AngleAxisreal
#define Affine3d Affine3real
#define Isometry3d Isometry3real
#endif
