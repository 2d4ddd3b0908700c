// Contracts of Rigid2/Rigid3: they are the group of rigid motions.
#include "vc_begin.h"
#include "cartographer/transform/rigid_transform.h"
#include "cartographer/transform/transform.h"
using namespace cartographer::transform;
static Eigen::Vector3d AnyV(const char* n) { return Eigen::Vector3d(vc::any_real(n), vc::any_real(n), vc::any_real(n)); }
static Rigid3d AnyRigid(const char* n) {
  double w = vc::any_real("w"), x = vc::any_real("x"), y = vc::any_real("y"), z = vc::any_real("z");
  vc_assume(w * w + x * x + y * y + z * z == 1.);
  return Rigid3d(AnyV(n), Eigen::Quaterniond(w, x, y, z));
}
static bool Eq(const Eigen::Vector3d& a, const Eigen::Vector3d& b) { return (a.x() == b.x()) & (a.y() == b.y()) & (a.z() == b.z()); }
// lemma, proved here: the product of unit quaternions is one, so normalizing it changes nothing
static void UnitProduct(const Eigen::Quaterniond& a, const Eigen::Quaterniond& b) {
  Eigen::Quaterniond p = a * b;
  vc_assert(p.squaredNorm() == 1., "product of unit quaternions has unit square norm");
  vc_assert(p.norm() == 1., "product of unit quaternions is a unit quaternion");
}
VC_HARNESS(apply_composition) {
  Rigid3d a = AnyRigid("a"), b = AnyRigid("b");
  Eigen::Vector3d p = AnyV("p");
  UnitProduct(a.rotation(), b.rotation());
  Rigid3d ab = a * b;
  vc_assert(Eq(ab * p, a * (b * p)), "(a * b) * p == a * (b * p)");
  vc_assert(ab.rotation().squaredNorm() == 1., "the composition is a rigid motion");
}
VC_HARNESS(inverse) {
  Rigid3d a = AnyRigid("a");
  Eigen::Vector3d p = AnyV("p");
  Rigid3d i = a.inverse();
  vc_assert(i.rotation().squaredNorm() == 1., "the inverse is a rigid motion");
  vc_assert(Eq(i * (a * p), p) , "a^-1 (a p) == p");
  vc_assert(Eq(a * (i * p), p), "a (a^-1 p) == p");
  UnitProduct(a.rotation(), i.rotation());
  Rigid3d e = a * i;
  vc_assert(Eq(e.translation(), Eigen::Vector3d(0, 0, 0)), "a * a^-1 has no translation");
  vc_assert((e.rotation().x() == 0.) & (e.rotation().y() == 0.) & (e.rotation().z() == 0.) & (e.rotation().w() == 1.), "a * a^-1 is the identity rotation");
  Rigid3d ii = i.inverse();
  vc_assert(Eq(ii.translation(), a.translation()), "inverse of the inverse: translation");
  vc_assert((ii.rotation().w() == a.rotation().w()) & (ii.rotation().x() == a.rotation().x()) & (ii.rotation().y() == a.rotation().y()) & (ii.rotation().z() == a.rotation().z()), "inverse of the inverse: rotation");
}
VC_HARNESS(isometry) {
  Rigid3d a = AnyRigid("a");
  Eigen::Vector3d p = AnyV("p"), q = AnyV("q");
  vc_assert((a * p - a * q).squaredNorm() == (p - q).squaredNorm(), "distances are preserved");
}
VC_HARNESS(identity) {
  Rigid3d a = AnyRigid("a"), e = Rigid3d::Identity();
  Eigen::Vector3d p = AnyV("p");
  vc_assert(Eq(e * p, p), "identity maps every point to itself");
  vc_assert(Eq(Rigid3d::Translation(p) * a.translation(), a.translation() + p), "a pure translation adds");
  vc_assert(Eq(Rigid3d::Rotation(a.rotation()) * p, a.rotation() * p), "a pure rotation rotates");
}
VC_HARNESS(from_arrays) {
  std::array<double, 4> q; std::array<double, 3> t;
  for (int i = 0; i != 4; ++i) q[i] = vc::any_real("q");
  for (int i = 0; i != 3; ++i) t[i] = vc::any_real("t");
  Rigid3d a = Rigid3d::FromArrays(q, t);
  vc_assert(a.rotation().w() == q[0] && a.rotation().x() == q[1] && a.rotation().y() == q[2] && a.rotation().z() == q[3], "rotation array is w, x, y, z");
  vc_assert(a.translation().x() == t[0] && a.translation().y() == t[1] && a.translation().z() == t[2], "translation array is x, y, z");
  Rigid3f f = a.cast<float>();
  vc_assert(f.rotation().w() == q[0] && f.rotation().x() == q[1] && f.rotation().y() == q[2] && f.rotation().z() == q[3] && f.translation().x() == t[0] && f.translation().y() == t[1] && f.translation().z() == t[2], "cast keeps every component");
}
static Rigid2d AnyRigid2(const char* n) { return Rigid2d(Eigen::Vector2d(vc::any_real(n), vc::any_real(n)), vc::any_real(n)); }
static bool Eq2(const Eigen::Vector2d& a, const Eigen::Vector2d& b) { return (a.x() == b.x()) & (a.y() == b.y()); }
VC_HARNESS(planar_composition) {
  Rigid2d a = AnyRigid2("a"), b = AnyRigid2("b");
  Eigen::Vector2d p(vc::any_real("p"), vc::any_real("p"));
  vcx_hint_trig(a.rotation().angle(), b.rotation().angle());
  vc_assert(Eq2((a * b) * p, a * (b * p)), "(a * b) * p == a * (b * p) in the plane");
}
VC_HARNESS(planar_inverse) {
  Rigid2d a = AnyRigid2("a");
  Eigen::Vector2d p(vc::any_real("p"), vc::any_real("p")), q(vc::any_real("q"), vc::any_real("q"));
  vcx_hint_trig(a.rotation().angle(), -a.rotation().angle());
  vc_assert(Eq2(a.inverse() * (a * p), p), "a^-1 (a p) == p in the plane");
  vc_assert(Eq2(a * (a.inverse() * p), p), "a (a^-1 p) == p in the plane");
  vc_assert((a * p - a * q).squaredNorm() == (p - q).squaredNorm(), "distances are preserved in the plane");
  Rigid2d e = a * a.inverse();
  vc_assert(Eq2(e.translation(), Eigen::Vector2d(0, 0)), "a * a^-1 has no translation in the plane");
  vc_assert(e.rotation().angle() == 0., "a * a^-1 has no rotation in the plane");
}
VC_HARNESS(embed_project) {
  Rigid2d a = AnyRigid2("a");
  Eigen::Vector2d p(vc::any_real("p"), vc::any_real("p"));
  const double z = vc::any_real("z"), th = a.rotation().angle();
  vcx_hint_trig(0.5 * th, 0.5 * th);
  Rigid3d e = Embed3D(a);
  Eigen::Vector3d r = e * Eigen::Vector3d(p.x(), p.y(), z);
  Eigen::Vector2d r2 = a * p;
  vc_assert((r.x() == r2.x()) & (r.y() == r2.y()) & (r.z() == z), "the embedded transform acts as the planar one");
  vc_assert(e.rotation().squaredNorm() == 1., "the embedding is a rigid motion");
  Eigen::Vector3d d = e.rotation() * Eigen::Vector3d::UnitX();
  vc_assert(d.x() * d.x() + d.y() * d.y() == 1., "the image of the x axis is a unit vector of the plane");
  vc_assert(std::sqrt(d.y() * d.y() + d.x() * d.x()) == 1., "and has unit length");
  Rigid2d back = Project2D(e);
  vc_assert(Eq2(back.translation(), a.translation()), "projecting back keeps the translation");
  double c1 = cos(back.rotation().angle()), s1 = sin(back.rotation().angle());
  vc_assert(c1 == cos(th), "projecting back keeps the direction (cosine)");
  vc_assert(s1 == sin(th), "projecting back keeps the direction (sine)");
}
VC_HARNESS(angle) {
  Rigid3d a = AnyRigid("a");
  double g = GetAngle(a);
  vc_assert(g >= 0., "the rotation angle is not negative");
  vc_assert(g <= 3.15, "the rotation angle is at most half a turn");
  vc_assert(GetAngle(a.inverse()) == g, "the inverse rotates as far");
  Rigid3d n(a.translation(), Eigen::Quaterniond(-a.rotation().w(), -a.rotation().x(), -a.rotation().y(), -a.rotation().z()));
  vc_assert(GetAngle(n) == g, "both quaternions of a rotation have the same angle");
  // half-angle: cos(g/2) = |w|
  vcx_hint_trig(0., 0.);
  const double w = a.rotation().w() < 0. ? -a.rotation().w() : a.rotation().w();
  vc_assert(cos(g / 2.) == w, "cos of half the angle is |w|");
}
VC_HARNESS(angle_axis_unit) {
  Eigen::Vector3d v = AnyV("v");
  vc_assume(v.squaredNorm() > 1e-8);
  Eigen::Quaterniond q = AngleAxisVectorToRotationQuaternion(v);
  vc_assert(q.squaredNorm() == 1., "angle-axis vectors give unit quaternions");
  const double n = v.norm();
  vc_assert(q.w() == cos(n / 2.), "by the angle of the vector's length");
  vc_assert((q.x() * v.y() == q.y() * v.x()) & (q.y() * v.z() == q.z() * v.y()) & (q.x() * v.z() == q.z() * v.x()), "about the direction of the vector");
}
