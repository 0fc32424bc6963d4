// Independent rotation helpers of the adapters (nothing of the code under test)
#pragma once
#include <Eigen/Dense>
#include <Eigen/Geometry>
#include <cmath>
namespace vp
{
inline Eigen::Matrix3d skew_(const Eigen::Vector3d & v)
{
  Eigen::Matrix3d s;
  s << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0;
  return s;
}
inline Eigen::Matrix3d rodrigues(const Eigen::Vector3d & v)
{
  double a = v.norm();
  Eigen::Matrix3d K = skew_(v);
  double s = a < 1e-4 ? 1 - a * a / 6 : std::sin(a) / a;
  double c = a < 1e-4 ? 0.5 - a * a / 24 : (1 - std::cos(a)) / (a * a);
  return Eigen::Matrix3d::Identity() + s * K + c * K * K;
}
inline Eigen::Matrix3d rpyMat(const Eigen::Vector3d & r)
{
  Eigen::Matrix3d x, y, z;
  x << 1, 0, 0, 0, std::cos(r(0)), -std::sin(r(0)), 0, std::sin(r(0)), std::cos(r(0));
  y << std::cos(r(1)), 0, std::sin(r(1)), 0, 1, 0, -std::sin(r(1)), 0, std::cos(r(1));
  z << std::cos(r(2)), -std::sin(r(2)), 0, std::sin(r(2)), std::cos(r(2)), 0, 0, 0, 1;
  return z * y * x;
}
inline Eigen::Matrix3d quatMat(const Eigen::Vector4d & c)
{
  double x = c(0), y = c(1), z = c(2), w = c(3);
  Eigen::Matrix3d m;
  m << w * w + x * x - y * y - z * z, 2 * (x * y - z * w), 2 * (x * z + y * w), 2 * (x * y + z * w),
      w * w - x * x + y * y - z * z, 2 * (y * z - x * w), 2 * (x * z - y * w), 2 * (y * z + x * w),
      w * w - x * x - y * y + z * z;
  return m;
}
template<typename A, typename B>
double dist(const A & a, const B & b)
{
  Eigen::MatrixXd d = Eigen::MatrixXd(a) - Eigen::MatrixXd(b);
  double r = 0;
  for(int i = 0; i < d.size(); ++i)
  {
    double x = std::abs(d.data()[i]);
    if(!(x <= r)) r = x;
  }
  return r;
}
} // namespace vp
