#include "cartographer/transform/rigid_transform.h"
#include "cartographer/transform/rigid_transform_test_helpers.h"
#include "cartographer/transform/transform.h"
#include "vcn.h"
using namespace cartographer;
using namespace cartographer::transform;
typedef Eigen::Vector3d V3; typedef Eigen::Quaterniond Q;
static double Scale(vcn::Rng& rng) { return rng.pick<double>({1e-3, 1, 1, 10, 1000}); }
static V3 AnyV(vcn::Rng& rng, double s) { return V3(rng.real(-s, s), rng.real(-s, s), rng.real(-s, s)); }
static Q AnyQ(vcn::Rng& rng) {
  V3 axis = rng.one_in(3) ? V3(rng.pick<V3>({V3::UnitX(), V3::UnitY(), V3::UnitZ()})) : AnyV(rng, 1);
  if (axis.norm() < 0.05) axis = V3::UnitZ();
  double a = rng.one_in(4) ? rng.in(-8, 8) * M_PI / 4 : rng.one_in(4) ? rng.real(-1e-5, 1e-5) : rng.real(-6.5, 6.5);
  Q q(Eigen::AngleAxisd(a, axis.normalized()));
  if (rng.coin()) q.coeffs() *= -1.;
  return q;
}
static Rigid3d Any3(vcn::Rng& rng, double s) { return Rigid3d(AnyV(rng, s), AnyQ(rng)); }
static Rigid2d Any2(vcn::Rng& rng, double s) {
  double a = rng.one_in(3) ? rng.in(-9, 9) * M_PI / 4 : rng.real(-20, 20);
  return Rigid2d(Eigen::Vector2d(rng.real(-s, s), rng.real(-s, s)), a);
}
// rotation matrix written out, independent of Eigen's quaternion code
static Eigen::Matrix3d Mat(const Q& q) {
  double w = q.w(), x = q.x(), y = q.y(), z = q.z();
  Eigen::Matrix3d m;
  m << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y);
  return m;
}
VCN_CASE(group3) {
  double s = Scale(rng), e = 1e-12 * (1 + 10 * s);
  Rigid3d a = Any3(rng, s), b = Any3(rng, s); V3 p = AnyV(rng, s), q = AnyV(rng, s);
  NOTE("a " << a << " b " << b << " p " << p.transpose());
  vcn::nontrivial() = true; vcn::Sig(rng.s);
  REQUIRE((a * p - (Mat(a.rotation()) * p + a.translation())).norm() < e, "acts as rotate then translate");
  REQUIRE(((a * b) * p - a * (b * p)).norm() < e, "composition");
  REQUIRE(std::abs((a * b).rotation().norm() - 1) < 1e-12 && (a * b).IsValid(), "composition is rigid");
  REQUIRE((a.inverse() * (a * p) - p).norm() < e && (a * (a.inverse() * p) - p).norm() < e, "inverse");
  REQUIRE(((a.inverse().inverse()) * p - a * p).norm() < e, "inverse of inverse");
  REQUIRE(((a * b).inverse() * p - b.inverse() * (a.inverse() * p)).norm() < e, "inverse of a composition");
  REQUIRE(std::abs((a * p - a * q).norm() - (p - q).norm()) < e, "isometry");
  REQUIRE((Rigid3d::Identity() * p - p).norm() == 0 && (Rigid3d() * p - p).norm() == 0, "identity");
  REQUIRE(((a * Rigid3d::Identity()) * p - a * p).norm() < e && ((Rigid3d::Identity() * a) * p - a * p).norm() < e, "neutral");
  REQUIRE((Rigid3d::Translation(p) * q - (p + q)).norm() < e && (Rigid3d::Rotation(a.rotation()) * p - Mat(a.rotation()) * p).norm() < e, "pure parts");
  Rigid3f af = a.cast<float>();
  REQUIRE((af.translation().cast<double>() - a.translation()).norm() <= 1e-6 * (1e-3 + s) && (af.rotation().coeffs().cast<double>() - a.rotation().coeffs()).norm() < 1e-6, "cast");
  REQUIRE(((af * (b.cast<float>())) .translation().cast<double>() - (a * b).translation()).norm() < 1e-4 * (1 + s), "float composition");
  // long chains stay rigid
  Rigid3d c = a; for (int i = 0; i < 50; ++i) c = c * b;
  REQUIRE(c.IsValid() && std::abs(c.rotation().norm() - 1) < 1e-9, "chain");
  std::array<double, 4> r{{a.rotation().w(), a.rotation().x(), a.rotation().y(), a.rotation().z()}}; std::array<double, 3> t{{p.x(), p.y(), p.z()}};
  Rigid3d f = Rigid3d::FromArrays(r, t);
  REQUIRE(f.translation() == p && f.rotation().coeffs() == a.rotation().coeffs(), "arrays");
  REQUIRE(!Rigid3d(p, Q(2 * r[0], 2 * r[1], 2 * r[2], 2 * r[3])).IsValid() && !Rigid3d(V3(NAN, 0, 0), a.rotation()).IsValid() && !Rigid3d(V3(0, NAN, 0), a.rotation()).IsValid() && !Rigid3d(V3(0, 0, NAN), a.rotation()).IsValid(), "invalid transforms are reported");
  REQUIRE(a.IsValid(), "valid");
  Rigid3d pr = ToRigid3(ToProto(a));
  REQUIRE(pr.translation() == a.translation() && pr.rotation().coeffs() == a.rotation().coeffs(), "proto round trip");
  auto pf = ToProto(af);
  REQUIRE(pf.translation().x() == af.translation().x() && pf.translation().y() == af.translation().y() && pf.translation().z() == af.translation().z() && pf.rotation().w() == af.rotation().w() && pf.rotation().x() == af.rotation().x() && pf.rotation().y() == af.rotation().y() && pf.rotation().z() == af.rotation().z(), "float proto");
  REQUIRE(ToEigen(ToProto(p)) == p && ToEigen(ToProto(Eigen::Vector2d(p.x(), p.y()))) == Eigen::Vector2d(p.x(), p.y()) && ToEigen(ToProto(Eigen::Vector3f(p.cast<float>()))) == p.cast<float>() && ToEigen(ToProto(a.rotation())).coeffs() == a.rotation().coeffs(), "vector protos");
  Eigen::Vector4f v4(p.x(), p.y(), p.z(), q.x());
  REQUIRE(ToEigen(ToProto(v4)) == v4, "4-vector proto");
}
VCN_CASE(group2) {
  double s = Scale(rng), e = 1e-12 * (1 + 10 * s);
  Rigid2d a = Any2(rng, s), b = Any2(rng, s); Eigen::Vector2d p(rng.real(-s, s), rng.real(-s, s));
  NOTE("a " << a << " b " << b << " p " << p.transpose());
  vcn::nontrivial() = true; vcn::Sig(rng.s);
  double th = a.rotation().angle();
  Eigen::Vector2d want(std::cos(th) * p.x() - std::sin(th) * p.y() + a.translation().x(), std::sin(th) * p.x() + std::cos(th) * p.y() + a.translation().y());
  REQUIRE((a * p - want).norm() < e, "acts as rotate then translate");
  REQUIRE(((a * b) * p - a * (b * p)).norm() < e, "composition");
  REQUIRE((a.inverse() * (a * p) - p).norm() < e && (a * (a.inverse() * p) - p).norm() < e, "inverse");
  REQUIRE((Rigid2d::Identity() * p - p).norm() == 0 && (Rigid2d::Translation(p) * p - 2 * p).norm() < e && (Rigid2d::Rotation(th) * p + a.translation() - want).norm() < e, "parts");
  REQUIRE(a.normalized_angle() >= -M_PI && a.normalized_angle() <= M_PI && std::abs(std::remainder(a.normalized_angle() - th, 2 * M_PI)) < 1e-9, "normalized angle");
  Rigid3d m = Embed3D(a);
  double z = rng.real(-5, 5);
  V3 r = m * V3(p.x(), p.y(), z);
  REQUIRE((r - V3(want.x(), want.y(), z)).norm() < e, "embedding acts as the planar transform");
  Rigid2d back = Project2D(m);
  REQUIRE(back.translation() == a.translation() && std::abs(std::remainder(back.rotation().angle() - th, 2 * M_PI)) < 1e-9, "projection undoes the embedding");
  REQUIRE((Embed3D(a * b) * V3(p.x(), p.y(), z) - m * (Embed3D(b) * V3(p.x(), p.y(), z))).norm() < e, "embedding is a homomorphism");
  Rigid2d pr = ToRigid2(ToProto(a));
  REQUIRE(pr.translation() == a.translation() && pr.rotation().angle() == th, "proto");
  Rigid2f af = a.cast<float>();
  REQUIRE((af.translation().cast<double>() - a.translation()).norm() <= 1e-6 * (1e-3 + s) && std::abs(af.rotation().angle() - th) < 1e-5, "cast");
  REQUIRE(ToProto(af).translation().x() == af.translation().x() && ToProto(af).translation().y() == af.translation().y() && ToProto(af).rotation() == af.rotation().angle(), "float proto");
}
VCN_CASE(angles) {
  Q q = AnyQ(rng); Rigid3d a(AnyV(rng, 3), q);
  NOTE("q " << q.w() << " " << q.vec().transpose());
  vcn::nontrivial() = true; vcn::Sig(rng.s);
  double g = GetAngle(a), tr = (Mat(q).trace() - 1) / 2;
  REQUIRE(g >= 0 && g <= M_PI + 1e-12, g);
  REQUIRE(std::abs(std::cos(g) - tr) < 1e-9, "angle from the trace");
  REQUIRE(std::abs(GetAngle(a.inverse()) - g) < 1e-9 && std::abs(GetAngle(Rigid3d(a.translation(), Q(-q.w(), -q.x(), -q.y(), -q.z()))) - g) < 1e-9, "symmetric");
  V3 aa = RotationQuaternionToAngleAxisVector(q);
  REQUIRE(std::abs(aa.norm() - g) < 1e-6, "angle-axis has the angle's length");
  Q back = AngleAxisVectorToRotationQuaternion(aa);
  REQUIRE(std::abs(back.norm() - 1) < 1e-7 && std::abs(std::abs(back.dot(q)) - 1) < 1e-7, "angle-axis round trip");
  REQUIRE((Mat(back.normalized()) - Mat(q)).norm() < 1e-6, "angle-axis round trip as rotation");
  V3 v = AnyV(rng, rng.pick(std::vector<double>{1e-5, 1e-3, 0.05, 1.7, 1.7}));
  Q vq = AngleAxisVectorToRotationQuaternion(v);
  if (v.norm() > 1e-9) REQUIRE((Mat(vq.normalized()) - Eigen::AngleAxisd(v.norm(), v.normalized()).toRotationMatrix()).norm() < 1e-6, "angle axis " << v.transpose());
  REQUIRE((RotationQuaternionToAngleAxisVector(vq) - v).norm() < 1e-6, "vector round trip " << v.transpose());
  // yaw: the heading of the rotated x axis
  double roll = rng.real(-1.5, 1.5), pitch = rng.real(-1.5, 1.5), yaw = rng.real(-3.1, 3.1);
  Q rpy = RollPitchYaw(roll, pitch, yaw);
  Eigen::Matrix3d want = (Eigen::AngleAxisd(yaw, V3::UnitZ()) * Eigen::AngleAxisd(pitch, V3::UnitY()) * Eigen::AngleAxisd(roll, V3::UnitX())).toRotationMatrix();
  REQUIRE((Mat(rpy) - want).norm() < 1e-9, "roll pitch yaw");
  REQUIRE(std::abs(GetYaw(rpy) - yaw) < 1e-9 && std::abs(GetYaw(Rigid3d(v, rpy)) - yaw) < 1e-9, "yaw");
  V3 d = Mat(q) * V3::UnitX();
  if (d.head<2>().norm() > 1e-3) REQUIRE(std::abs(std::remainder(GetYaw(q) - std::atan2(d.y(), d.x()), 2 * M_PI)) < 1e-9, "yaw of any rotation");
  Rigid2d pj = Project2D(a);
  REQUIRE(pj.translation() == a.translation().head<2>(), "projection drops z only");
  if (d.head<2>().norm() > 1e-3) REQUIRE(std::abs(std::remainder(pj.rotation().angle() - std::atan2(d.y(), d.x()), 2 * M_PI)) < 1e-9, "projection keeps the yaw");
}
