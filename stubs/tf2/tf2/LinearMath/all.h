// Stand-in for tf2's linear algebra (same formulas as the Bullet-derived original).
#pragma once
#include <algorithm>
#include <cmath>

namespace tf2
{
using tf2Scalar = double;
class Vector3
{
  double v[3];

public:
  Vector3() : v{0, 0, 0} {}
  Vector3(double x, double y, double z) : v{x, y, z} {}
  double x() const { return v[0]; }
  double y() const { return v[1]; }
  double z() const { return v[2]; }
  double getX() const { return v[0]; }
  double getY() const { return v[1]; }
  double getZ() const { return v[2]; }
  void setX(double a) { v[0] = a; }
  void setY(double a) { v[1] = a; }
  void setZ(double a) { v[2] = a; }
  void setValue(double x, double y, double z) { v[0] = x; v[1] = y; v[2] = z; }
  double & operator[](int i) { return v[i]; }
  double operator[](int i) const { return v[i]; }
  Vector3 operator+(const Vector3 & o) const { return {v[0] + o.v[0], v[1] + o.v[1], v[2] + o.v[2]}; }
  Vector3 operator-(const Vector3 & o) const { return {v[0] - o.v[0], v[1] - o.v[1], v[2] - o.v[2]}; }
  Vector3 operator-() const { return {-v[0], -v[1], -v[2]}; }
  Vector3 operator*(double s) const { return {v[0] * s, v[1] * s, v[2] * s}; }
  Vector3 operator/(double s) const { return {v[0] / s, v[1] / s, v[2] / s}; }
  friend Vector3 operator*(double s, const Vector3 & a) { return a * s; }
  Vector3 & operator+=(const Vector3 & o) { return *this = *this + o; }
  Vector3 & operator-=(const Vector3 & o) { return *this = *this - o; }
  Vector3 & operator*=(double s) { return *this = *this * s; }
  double dot(const Vector3 & o) const { return v[0] * o.v[0] + v[1] * o.v[1] + v[2] * o.v[2]; }
  Vector3 cross(const Vector3 & o) const { return {v[1] * o.v[2] - v[2] * o.v[1], v[2] * o.v[0] - v[0] * o.v[2], v[0] * o.v[1] - v[1] * o.v[0]}; }
  double length2() const { return dot(*this); }
  double length() const { return std::sqrt(length2()); }
  Vector3 & normalize() { return *this = *this / length(); }
  Vector3 normalized() const { return *this / length(); }
};
class Quaternion
{
  double v[4];

public:
  Quaternion() : v{0, 0, 0, 1} {}
  Quaternion(double x, double y, double z, double w) : v{x, y, z, w} {}
  Quaternion(const Vector3 & axis, double angle) { setRotation(axis, angle); }
  double x() const { return v[0]; }
  double y() const { return v[1]; }
  double z() const { return v[2]; }
  double w() const { return v[3]; }
  double getX() const { return v[0]; }
  double getY() const { return v[1]; }
  double getZ() const { return v[2]; }
  double getW() const { return v[3]; }
  void setX(double a) { v[0] = a; }
  void setY(double a) { v[1] = a; }
  void setZ(double a) { v[2] = a; }
  void setW(double a) { v[3] = a; }
  void setValue(double x, double y, double z, double w) { v[0] = x; v[1] = y; v[2] = z; v[3] = w; }
  void setRotation(const Vector3 & axis, double angle)
  {
    const double s = std::sin(angle * 0.5) / axis.length();
    setValue(axis.x() * s, axis.y() * s, axis.z() * s, std::cos(angle * 0.5));
  }
  void setRPY(double roll, double pitch, double yaw)
  {
    const double hy = yaw * 0.5, hp = pitch * 0.5, hr = roll * 0.5;
    const double cy = std::cos(hy), sy = std::sin(hy), cp = std::cos(hp), sp = std::sin(hp), cr = std::cos(hr), sr = std::sin(hr);
    setValue(sr * cp * cy - cr * sp * sy, cr * sp * cy + sr * cp * sy, cr * cp * sy - sr * sp * cy, cr * cp * cy + sr * sp * sy);
  }
  double dot(const Quaternion & q) const { return v[0] * q.v[0] + v[1] * q.v[1] + v[2] * q.v[2] + v[3] * q.v[3]; }
  double length2() const { return dot(*this); }
  double length() const { return std::sqrt(length2()); }
  Quaternion operator*(double s) const { return {v[0] * s, v[1] * s, v[2] * s, v[3] * s}; }
  Quaternion operator/(double s) const { return *this * (1.0 / s); }
  Quaternion operator+(const Quaternion & q) const { return {v[0] + q.v[0], v[1] + q.v[1], v[2] + q.v[2], v[3] + q.v[3]}; }
  Quaternion operator-() const { return {-v[0], -v[1], -v[2], -v[3]}; }
  Quaternion operator*(const Quaternion & q) const
  {
    return {w() * q.x() + x() * q.w() + y() * q.z() - z() * q.y(), w() * q.y() + y() * q.w() + z() * q.x() - x() * q.z(),
            w() * q.z() + z() * q.w() + x() * q.y() - y() * q.x(), w() * q.w() - x() * q.x() - y() * q.y() - z() * q.z()};
  }
  Quaternion & operator*=(const Quaternion & q) { return *this = *this * q; }
  Quaternion & normalize() { return *this = *this / length(); }
  Quaternion normalized() const { return *this / length(); }
  Quaternion inverse() const { return {-v[0], -v[1], -v[2], v[3]}; }
};
inline Vector3 quatRotate(const Quaternion & r, const Vector3 & a)
{
  const Quaternion va(r.w() * a.x() + r.y() * a.z() - r.z() * a.y(), r.w() * a.y() + r.z() * a.x() - r.x() * a.z(),
                      r.w() * a.z() + r.x() * a.y() - r.y() * a.x(), -r.x() * a.x() - r.y() * a.y() - r.z() * a.z());
  const Quaternion q = va * r.inverse();
  return {q.x(), q.y(), q.z()};
}
class Matrix3x3
{
  Vector3 m[3];

public:
  Matrix3x3() : m{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}} {}
  Matrix3x3(double a, double b, double c, double d, double e, double f, double g, double h, double i) : m{{a, b, c}, {d, e, f}, {g, h, i}} {}
  explicit Matrix3x3(const Quaternion & q) { setRotation(q); }
  void setRotation(const Quaternion & q)
  {
    const double s = 2.0 / q.length2();
    const double xs = q.x() * s, ys = q.y() * s, zs = q.z() * s;
    const double wx = q.w() * xs, wy = q.w() * ys, wz = q.w() * zs, xx = q.x() * xs, xy = q.x() * ys, xz = q.x() * zs, yy = q.y() * ys, yz = q.y() * zs, zz = q.z() * zs;
    m[0] = {1.0 - (yy + zz), xy - wz, xz + wy};
    m[1] = {xy + wz, 1.0 - (xx + zz), yz - wx};
    m[2] = {xz - wy, yz + wx, 1.0 - (xx + yy)};
  }
  Vector3 & operator[](int i) { return m[i]; }
  const Vector3 & operator[](int i) const { return m[i]; }
  Vector3 operator*(const Vector3 & a) const { return {m[0].dot(a), m[1].dot(a), m[2].dot(a)}; }
  Matrix3x3 transpose() const { return {m[0].x(), m[1].x(), m[2].x(), m[0].y(), m[1].y(), m[2].y(), m[0].z(), m[1].z(), m[2].z()}; }
  Matrix3x3 inverse() const { return transpose(); }
  Matrix3x3 operator*(const Matrix3x3 & o) const
  {
    const auto t = o.transpose();
    Matrix3x3 r;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r[i][j] = m[i].dot(t[j]);
    return r;
  }
  void getRPY(double & roll, double & pitch, double & yaw) const
  {
    if (std::fabs(m[2].x()) >= 1) {
      yaw = 0;
      const double delta = std::atan2(m[2].y(), m[2].z());
      pitch = m[2].x() < 0 ? M_PI / 2.0 : -M_PI / 2.0;
      roll = delta;
    } else {
      pitch = -std::asin(m[2].x());
      roll = std::atan2(m[2].y() / std::cos(pitch), m[2].z() / std::cos(pitch));
      yaw = std::atan2(m[1].x() / std::cos(pitch), m[0].x() / std::cos(pitch));
    }
  }
};
class Transform
{
  Matrix3x3 basis;
  Vector3 origin;
  Quaternion rotation;

public:
  Transform() = default;
  Transform(const Quaternion & q, const Vector3 & o = Vector3()) : basis(q), origin(o), rotation(q) {}
  Vector3 operator*(const Vector3 & a) const { return basis * a + origin; }
  Transform operator*(const Transform & t) const { return {rotation * t.rotation, *this * t.origin}; }
  Transform inverse() const { return {rotation.inverse(), basis.transpose() * -origin}; }
  const Vector3 & getOrigin() const { return origin; }
  Quaternion getRotation() const { return rotation; }
  const Matrix3x3 & getBasis() const { return basis; }
  void setOrigin(const Vector3 & o) { origin = o; }
  void setRotation(const Quaternion & q) { rotation = q; basis.setRotation(q); }
};
}  // namespace tf2
