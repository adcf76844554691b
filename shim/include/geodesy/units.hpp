/* Stand-in for the ggeodesy headers, which are not installed in this sandbox:
 * units, angle normalisation, coordinate wrappers and the few transformations
 * the library uses. */
#ifndef VERIF_SHIM_GEODESY_HPP
#define VERIF_SHIM_GEODESY_HPP
#include <cmath>
#include "eigen3/Eigen/Eigen"
namespace dso {
constexpr double DPI = 3.141592653589793238462643e0;
constexpr double TURNAS = 1296000e0;
constexpr double D2PI = 6.283185307179586476925287e0;
namespace detail {
enum class AngleUnit { Radians, Degrees, Seconds };
template <AngleUnit U> struct AngleUnitTraits;
template <> struct AngleUnitTraits<AngleUnit::Radians> {
  static constexpr double full_circle() noexcept { return D2PI; }
};
template <> struct AngleUnitTraits<AngleUnit::Degrees> {
  static constexpr double full_circle() noexcept { return 360e0; }
};
template <> struct AngleUnitTraits<AngleUnit::Seconds> {
  static constexpr double full_circle() noexcept { return 1296000e0; }
};
} /* namespace detail */
template <detail::AngleUnit U = detail::AngleUnit::Radians> inline double anp(double a) noexcept {
  const double w = std::fmod(a, detail::AngleUnitTraits<U>::full_circle());
  return w < 0e0 ? w + detail::AngleUnitTraits<U>::full_circle() : w;
}
constexpr double deg2rad(double a) noexcept { return a * (DPI / 180e0); }
constexpr double rad2deg(double a) noexcept { return a * (180e0 / DPI); }
constexpr double sec2rad(double a) noexcept { return a * (D2PI / 1296000e0); }
constexpr double rad2sec(double a) noexcept { return a * (1296000e0 / D2PI); }
constexpr double hsec2rad(double a) noexcept { return a * (D2PI / 86400e0); }

struct CartesianCrd {
  Eigen::Matrix<double, 3, 1> mv = Eigen::Matrix<double, 3, 1>::Zero();
  CartesianCrd() = default;
  CartesianCrd(double a, double b, double c) : mv(a, b, c) {}
  template <class E> explicit CartesianCrd(const Eigen::MatrixBase<E> &v) : mv(v) {}
  double x() const { return mv(0); }
  double y() const { return mv(1); }
  double z() const { return mv(2); }
  double &x() { return mv(0); }
  double &y() { return mv(1); }
  double &z() { return mv(2); }
};
struct CartesianCrdConstView {
  const Eigen::Matrix<double, 3, 1> &mv;
  explicit CartesianCrdConstView(const Eigen::Matrix<double, 3, 1> &v) : mv(v) {}
  CartesianCrdConstView(const CartesianCrd &c) : mv(c.mv) {}
  double x() const { return mv(0); }
  double y() const { return mv(1); }
  double z() const { return mv(2); }
};
struct SphericalCrd {
  Eigen::Matrix<double, 3, 1> mv = Eigen::Matrix<double, 3, 1>::Zero();
  double r() const { return mv(0); }
  double lat() const { return mv(1); }
  double lon() const { return mv(2); }
  double &r() { return mv(0); }
  double &lat() { return mv(1); }
  double &lon() { return mv(2); }
};
struct SphericalCrdConstView {
  const Eigen::Matrix<double, 3, 1> &mv;
  explicit SphericalCrdConstView(const Eigen::Matrix<double, 3, 1> &v) : mv(v) {}
  SphericalCrdConstView(const SphericalCrd &c) : mv(c.mv) {}
  double r() const { return mv(0); }
  double lat() const { return mv(1); }
  double lon() const { return mv(2); }
};
template <class C> inline SphericalCrd cartesian2spherical(const C &c) {
  SphericalCrd s;
  s.r() = std::sqrt(c.x() * c.x() + c.y() * c.y() + c.z() * c.z());
  s.lat() = std::atan2(c.z(), std::sqrt(c.x() * c.x() + c.y() * c.y()));
  s.lon() = std::atan2(c.y(), c.x());
  return s;
}
template <class C> inline CartesianCrd spherical2cartesian(const C &s) {
  return CartesianCrd(s.r() * std::cos(s.lat()) * std::cos(s.lon()), s.r() * std::cos(s.lat()) * std::sin(s.lon()),
                      s.r() * std::sin(s.lat()));
}
template <class T> struct CoordinateTypeTraits {
  static constexpr bool isCartesian = false, isSpherical = false, isGeodetic = false;
};
template <> struct CoordinateTypeTraits<CartesianCrd> {
  static constexpr bool isCartesian = true, isSpherical = false, isGeodetic = false;
};
template <> struct CoordinateTypeTraits<CartesianCrdConstView> {
  static constexpr bool isCartesian = true, isSpherical = false, isGeodetic = false;
};
template <> struct CoordinateTypeTraits<SphericalCrd> {
  static constexpr bool isCartesian = false, isSpherical = true, isGeodetic = false;
};
template <> struct CoordinateTypeTraits<SphericalCrdConstView> {
  static constexpr bool isCartesian = false, isSpherical = true, isGeodetic = false;
};
/* columns: east, north, up at (lat, lon), i.e. topocentric to ECEF */
inline Eigen::Matrix<double, 3, 3> geodetic2lvlh(double lat, double lon) {
  const double sf = std::sin(lat), cf = std::cos(lat), sl = std::sin(lon), cl = std::cos(lon);
  Eigen::Matrix<double, 3, 3> R;
  R << -sl, -sf * cl, cf * cl, cl, -sf * sl, cf * sl, 0e0, cf, sf;
  return R;
}
} /* namespace dso */
#endif
