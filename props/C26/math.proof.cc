// Contracts of the time and angle arithmetic everything else is built on.
#include "vc_begin.h"
#include "cartographer/common/time.h"
#include "cartographer/common/math.h"
#include "cartographer/common/port.h"
#include "cartographer/common/time.cc"
using namespace cartographer;
VC_HARNESS(ticks) {
  int64_t t = vc::any_i64("ticks", -(1LL << 62), 1LL << 62);
  vc_assert(common::ToUniversal(common::FromUniversal(t)) == t, "ticks -> time -> ticks");
  common::Time x{common::Duration(t)};
  vc_assert(common::FromUniversal(common::ToUniversal(x)) == x, "time -> ticks -> time");
}
VC_HARNESS(order) {
  int64_t s = vc::any_i64("s", -(1LL << 60), 1LL << 60), t = vc::any_i64("t", -(1LL << 60), 1LL << 60);
  vc_assert((common::FromUniversal(s) < common::FromUniversal(t)) == (s < t), "times are ordered as their ticks");
  vc_assert((common::FromUniversal(t) - common::FromUniversal(s)).count() == t - s, "differences are exact");
}
VC_HARNESS(seconds) {
  double s = vc::any_real("seconds");
  vc_assume(s > -1e11 && s < 1e11);
  common::Duration d = common::FromSeconds(s);
  double back = common::ToSeconds(d);
  vc_assert(back * 1e7 - s * 1e7 < 1. && s * 1e7 - back * 1e7 < 1., "seconds -> duration -> seconds is within a tick");
  if (s >= 0.) vc_assert(back <= s && d.count() >= 0, "non-negative durations round down");
  int64_t t = vc::any_i64("ticks", -(1LL << 52), 1LL << 52);
  vc_assert(common::ToSeconds(common::Duration(t)) * 1e7 == static_cast<double>(t), "a tick is 100 ns");
  vc_assert(common::FromSeconds(common::ToSeconds(common::Duration(t))).count() == t, "duration -> seconds -> duration");
}
VC_HARNESS(milliseconds) {
  int64_t m = vc::any_i64("ms", -(1LL << 48), 1LL << 48);
  vc_assert(common::FromMilliseconds(m).count() == 10000 * m, "a millisecond is 10000 ticks");
}
VC_HARNESS(seconds_monotone) {
  double a = vc::any_real("a"), b = vc::any_real("b");
  vc_assume(a > -1e11 && b < 1e11 && a <= b);
  vc_assert(common::FromSeconds(a) <= common::FromSeconds(b), "FromSeconds is monotone");
}
template <class T> static void ClampSpec(T v, T lo, T hi) {
  vc_assume(lo <= hi);
  T r = common::Clamp(v, lo, hi);
  vc_assert(r >= lo && r <= hi, "in range");
  vc_assert(!(v >= lo && v <= hi) || r == v, "values in range are unchanged");
  vc_assert(!(v > hi) || r == hi, "clamped to the upper bound");
  vc_assert(!(v < lo) || r == lo, "clamped to the lower bound");
}
VC_HARNESS(clamp) {
  ClampSpec<int>(vc::any_int("v"), vc::any_int("lo"), vc::any_int("hi"));
  ClampSpec<double>(vc::any_real("v"), vc::any_real("lo"), vc::any_real("hi"));
  ClampSpec<float>(vc::any_float("v"), vc::any_float("lo"), vc::any_float("hi"));
}
VC_HARNESS(rounding) {
  double x = vc::any_real("x");
  vc_assume(x > -2e9 && x < 2e9);
  int64_t i = common::RoundToInt(x);
  vc_assert(2. * (x - i) <= 1. && 2. * (i - x) <= 1., "nearest integer");
  vc_assert(common::RoundToInt64(x) == i, "64 bit agrees");
  vc_assert(common::RoundToInt(static_cast<float>(x)) == i, "float agrees");
}
VC_HARNESS(rounding64) {
  double x = vc::any_real("x"); vc_assume(x > -9e18 && x < 9e18);
  int64_t i = common::RoundToInt64(x), f = common::RoundToInt64(static_cast<float>(x));
  vc_assert(2. * (x - i) <= 1. && 2. * (i - x) <= 1. && f == i, "nearest integer, 64 bits");
}
static double THETA;
VC_HARNESS(angle) {
  THETA = vc::any_real("theta");
  vc_assume(THETA > -1e9 && THETA < 1e9);
  double r = common::NormalizeAngleDifference(THETA);
  vc_assert(r >= -M_PI && r <= M_PI, "normalized into [-pi, pi]");
  const int64_t turns = common::RoundToInt64((THETA - r) / (2. * M_PI));
  vc_assert(THETA - r == turns * (2. * M_PI), "changed by whole turns only");
  vc_assert(!(THETA >= -M_PI && THETA <= M_PI) || r == THETA, "angles in range are unchanged");
}
VC_HARNESS(power) {
  double a = vc::any_real("a");
  vc_assert(common::Pow2(a) == a * a, "square");
  vc_assert(common::Power(a, 3) == a * a * a && common::Power(a, 0) == 1., "power");
  vc_assert(common::DegToRad(common::RadToDeg(a)) == a && common::DegToRad(180.) == M_PI, "degrees and radians");
}
VC_HARNESS(quaternion) {
  double z[4], w[4], r[4];
  for (int i = 0; i != 4; ++i) { z[i] = vc::any_real("z"); w[i] = vc::any_real("w"); }
  common::QuaternionProduct(z, w, r);
  Eigen::Quaterniond q = Eigen::Quaterniond(z[0], z[1], z[2], z[3]) * Eigen::Quaterniond(w[0], w[1], w[2], w[3]);
  vc_assert(r[0] == q.w() && r[1] == q.x() && r[2] == q.y() && r[3] == q.z(), "Hamilton product, w first");
}
