// Contract of MotionFilter::IsSimilar: a pose is dropped exactly if it is close,
// in time, distance and angle, to the last pose that was kept.
#include "vc_begin.h"
#include "cartographer/mapping/internal/motion_filter.h"
#include "cartographer/common/time.cc"
#include "cartographer/mapping/internal/motion_filter.cc"
using namespace cartographer;
using namespace cartographer::mapping;
static transform::Rigid3d AnyPose(const char* n) {
  Eigen::Quaterniond q(vc::any_real(n), vc::any_real(n), vc::any_real(n), vc::any_real(n));
  return transform::Rigid3d(Eigen::Vector3d(vc::any_real(n), vc::any_real(n), vc::any_real(n)), q);
}
static common::Time AnyTime(const char* n) { return common::Time(common::Duration(vc::any_i64(n, -(1LL << 60), 1LL << 60))); }
static bool Same(const transform::Rigid3d& a, const transform::Rigid3d& b) {
  return a.translation().x() == b.translation().x() && a.translation().y() == b.translation().y() && a.translation().z() == b.translation().z() &&
         a.rotation().w() == b.rotation().w() && a.rotation().x() == b.rotation().x() && a.rotation().y() == b.rotation().y() && a.rotation().z() == b.rotation().z();
}
static MotionFilter* AnyFilter() {
  MotionFilter* f = vc::any_obj<MotionFilter>("filter");
  f->num_total_ = vc::any_int("num_total", 0, 1 << 30);
  f->num_different_ = vc::any_int("num_different", 0, 1 << 30);
  f->last_time_ = AnyTime("last_time");
  f->last_pose_ = AnyPose("last_pose");
  return f;
}
// angle of the relative rotation, whatever it is: the filter compares it only
VC_HARNESS(keep_or_drop) {
  MotionFilter* f = AnyFilter();
  const int total = f->num_total_, different = f->num_different_;
  const common::Time last_time = f->last_time_;
  const transform::Rigid3d last = f->last_pose_;
  common::Time t = AnyTime("time");
  transform::Rigid3d pose = AnyPose("pose");
  const double angle = transform::GetAngle(pose.inverse() * last);
  const double dx = pose.translation().x() - last.translation().x(), dy = pose.translation().y() - last.translation().y(), dz = pose.translation().z() - last.translation().z();
  const double dist = Eigen::Vector3d(dx, dy, dz).norm();
  const double ticks = f->options_.max_time_seconds() * 1e7;
  const double limit = f->options_.max_distance_meters(), max_angle = f->options_.max_angle_radians();
  vc_assume(ticks >= 0. && ticks < 1e18);
  const bool similar = f->IsSimilar(t, pose);
  const int64_t dt = (t - last_time).count();
  const bool want = total > 0 && dt <= ticks && dist <= limit && angle <= max_angle;
  vc_assert(similar == want, "dropped exactly if near the last kept pose in time, distance and angle");
  vc_assert(f->num_total_ == total + 1, "every pose is counted");
  if (similar) {
    vc_assert(f->last_time_ == last_time && Same(f->last_pose_, last), "the reference stays the last kept pose");
    vc_assert(f->num_different_ == different, "dropped poses are not counted as different");
  } else {
    vc_assert(f->last_time_ == t && Same(f->last_pose_, pose), "a kept pose becomes the reference");
    vc_assert(f->num_different_ == different + 1, "kept poses are counted");
  }
}
