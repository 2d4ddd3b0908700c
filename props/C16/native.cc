#include "cartographer/mapping/internal/motion_filter.h"
#include "vcn.h"
using namespace cartographer;
using namespace cartographer::mapping;
static Eigen::Quaterniond AnyRotation(vcn::Rng& rng) {
  Eigen::Vector3d axis(rng.real(-1, 1), rng.real(-1, 1), rng.real(-1, 1));
  if (rng.one_in(3)) axis = Eigen::Vector3d::UnitZ();
  if (rng.one_in(6)) axis = Eigen::Vector3d::UnitX();
  if (axis.norm() < 0.1) axis = Eigen::Vector3d::UnitY();
  Eigen::Quaterniond q(Eigen::AngleAxisd(rng.real(-7, 7), axis.normalized()));
  if (rng.coin()) q.coeffs() *= -1.;   // the same rotation
  return q;
}
// steps that hover around each threshold, from the last kept pose
VCN_CASE(history) {
  proto::MotionFilterOptions o;
  double max_t = rng.one_in(4) ? 0. : rng.in(1, 5000) * 1e-3, max_d = rng.one_in(4) ? 0. : rng.real(0.01, 3), max_a = rng.one_in(4) ? 0. : rng.real(0.01, 3.0);
  o.set_max_time_seconds(max_t); o.set_max_distance_meters(max_d); o.set_max_angle_radians(max_a);
  MotionFilter f(o);
  const int64_t ticks = std::llround(max_t * 1e7);
  int64_t t = rng.in(0, 1LL << 50), ref_t = 0;
  transform::Rigid3d ref = transform::Rigid3d::Identity();
  bool first = true;
  int n = rng.in(3, 25);
  NOTE("options time " << max_t << " distance " << max_d << " angle " << max_a);
  for (int i = 0; i < n; ++i) {
    transform::Rigid3d pose;
    int64_t dt = 0; double dd = 0, da = 0;
    if (first) { pose = transform::Rigid3d(Eigen::Vector3d(rng.real(-5, 5), rng.real(-5, 5), rng.real(-5, 5)), AnyRotation(rng)); if (rng.one_in(3)) pose = transform::Rigid3d::Identity(); if (rng.coin()) t = rng.in(-5, 5); }
    else {
      // relative to the reference: near or beyond exactly one threshold, or all well inside
      int which = rng.in(0, 5);
      dt = rng.in(0, ticks); dd = max_d * rng.unit() * 0.99; da = max_a * rng.unit() * 0.99;
      if (which == 0) dt = ticks + rng.in(-1, 1);
      if (which == 1) dd = max_d * rng.pick<double>({0.999, 1.001, 1.5, 10}) + (max_d == 0 ? 0.01 : 0);
      if (which == 2) da = std::min(3.1, max_a * rng.pick<double>({0.999, 1.001, 1.2, 3}) + (max_a == 0 ? 0.01 : 0));
      if (which == 3) { dt = 0; dd = max_d * 0.5; da = 0; }
      if (which == 4) dt = ticks * 3 + 7;
      Eigen::Vector3d dir(rng.real(-1, 1), rng.real(-1, 1), rng.real(-1, 1));
      if (rng.one_in(4)) dir = Eigen::Vector3d::UnitZ();
      if (dir.norm() < 0.1) dir = Eigen::Vector3d::UnitX();
      Eigen::Vector3d ax(rng.real(-1, 1), rng.real(-1, 1), rng.real(-1, 1));
      if (ax.norm() < 0.1) ax = Eigen::Vector3d::UnitX();
      Eigen::Quaterniond q = ref.rotation() * Eigen::Quaterniond(Eigen::AngleAxisd(da, ax.normalized()));
      if (rng.one_in(3)) q.coeffs() *= -1.;
      pose = transform::Rigid3d(ref.translation() + dd * dir.normalized(), q.normalized());
      t = ref_t + dt;
      if (rng.one_in(8)) { t = ref_t - rng.in(0, 100); dt = t - ref_t; }   // earlier stamps are not "too late"
    }
    NOTE("pose at " << t << ": " << pose.DebugString());
    bool got = f.IsSimilar(common::FromUniversal(t), pose);
    if (first) { REQUIRE(!got, "the first pose is kept"); }
    else {
      double dist = (pose.translation() - ref.translation()).norm();
      double dot = std::abs(pose.rotation().dot(ref.rotation()));
      double angle = 2. * std::atan2((pose.rotation().coeffs() * (pose.rotation().dot(ref.rotation()) < 0 ? -1. : 1.) - ref.rotation().coeffs()).norm() / 2. * 2., 1.);  // refined below
      angle = 2. * std::asin(std::min(1., (pose.rotation().coeffs() * (pose.rotation().dot(ref.rotation()) < 0 ? -1. : 1.) - ref.rotation().coeffs()).norm() / 2.)) * 2.;
      (void)dot;
      const double e = 1e-7;
      int64_t lim = static_cast<int64_t>(max_t * 1e7);   // a tick of rounding either way
      bool sure_yes = t - ref_t <= lim - 1 && dist <= max_d - e && angle <= max_a - e;
      if (t == ref_t && max_t >= 0) sure_yes = dist <= max_d - e && angle <= max_a - e;
      bool sure_no = t - ref_t > lim + 1 || dist > max_d + e || angle > max_a + e;
      if (sure_yes) REQUIRE(got, "dropped: dt " << t - ref_t << " dist " << dist << " angle " << angle);
      if (sure_no) REQUIRE(!got, "kept: dt " << t - ref_t << " dist " << dist << " angle " << angle);
      if (sure_yes || sure_no) vcn::nontrivial() = true;
    }
    vcn::Sig(got);
    if (!got) { ref_t = t; ref = pose; first = false; }
  }
}
