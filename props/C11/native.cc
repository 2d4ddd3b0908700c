#include "vcn.h"
#include <cmath>
#include <deque>
#include "cartographer/transform/transform.h"
#include "cartographer/transform/transform_interpolation_buffer.h"
#include "cartographer/transform/timestamped_transform.h"
using namespace cartographer; using namespace cartographer::transform;
struct E { int64_t t; Eigen::Vector3d p; Eigen::Quaterniond q; };
static Eigen::Quaterniond Rot(vcn::Rng& rng) {
  Eigen::Vector3d a(rng.real(-1, 1), rng.real(-1, 1), rng.real(-1, 1)); if (a.norm() < 1e-3) a = Eigen::Vector3d::UnitZ();
  Eigen::Quaterniond q(Eigen::AngleAxisd(rng.one_in(4) ? 0. : rng.real(-3.1, 3.1), a.normalized())); if (rng.coin()) q.coeffs() *= -1; return q;
}
static double Angle(const Eigen::Quaterniond& a, const Eigen::Quaterniond& b) { Eigen::Quaterniond d = a.conjugate() * b; return 2 * std::atan2(d.vec().norm(), std::abs(d.w())); }
static common::Time Tm(int64_t t) { return common::FromUniversal(t); }
static void CheckAt(const E& a, const E& b, int64_t t, const Rigid3d& r) {
  const double f = static_cast<double>(t - a.t) / static_cast<double>(b.t - a.t);
  REQUIRE((r.translation() - (a.p + f * (b.p - a.p))).norm() <= 1e-9 * (1 + a.p.norm() + b.p.norm()), "translation is linear in time, factor " << f);
  const double total = Angle(a.q, b.q);
  REQUIRE(std::abs(r.rotation().norm() - 1) < 1e-6, "unit rotation");
  if (total < 3.0) { REQUIRE(std::abs(Angle(a.q, r.rotation()) - f * total) < 2e-6, "rotation advances by the factor " << f << " of " << total << ", got " << Angle(a.q, r.rotation()));
    REQUIRE(std::abs(Angle(r.rotation(), b.q) - (1 - f) * total) < 2e-6, "on the shorter arc"); }
}
static Rigid3d Pose(const E& e) { return Rigid3d(e.p, e.q); }
static E Any(vcn::Rng& rng, int64_t t) { return E{t, Eigen::Vector3d(rng.real(-10, 10), rng.real(-10, 10), rng.real(-10, 10)), Rot(rng)}; }
VCN_CASE(history) {
  TransformInterpolationBuffer b; std::deque<E> ref; size_t limit = SIZE_MAX; int64_t t = rng.in(-100, 1000000); const int n = rng.in(1, 30);
  REQUIRE(b.size_limit() == kUnlimitedBufferSize && b.empty() && b.size() == 0 && !b.Has(Tm(t)), "a new buffer is empty and unlimited");
  if (rng.one_in(4)) {   // from a trajectory
    mapping::proto::Trajectory tr; int m = rng.in(0, 6);
    for (int i = 0; i < m; ++i) { E e = Any(rng, t); e.q = Rot(rng); auto* nd = tr.add_node(); nd->set_timestamp(t); *nd->mutable_pose() = ToProto(Pose(e)); ref.push_back(e); t += rng.in(0, 3000000); }
    b = TransformInterpolationBuffer(tr);
  }
  vcn::Sig(n);
  for (int i = 0; i < n; ++i) {
    int op = rng.in(0, 9);
    if (op < 6) { E e = Any(rng, t); NOTE("push " << t); b.Push(Tm(t), Pose(e)); ref.push_back(e); t += rng.one_in(4) ? 0 : rng.one_in(4) ? 1 : rng.in(1, 5000000); }
    else if (op == 6) { limit = rng.one_in(3) ? SIZE_MAX : rng.in(rng.one_in(6) ? 0 : 1, 8); NOTE("limit " << limit); b.SetSizeLimit(limit); REQUIRE(b.size_limit() == limit, "limit"); }
    else if (op == 7 && rng.one_in(3)) { NOTE("clear"); b.Clear(); ref.clear(); }
    while (ref.size() > limit) ref.pop_front();
    REQUIRE(b.size() == ref.size() && b.empty() == ref.empty(), "size " << b.size() << " want " << ref.size());
    if (ref.empty()) { REQUIRE(!b.Has(Tm(t)), "nothing in an empty buffer"); continue; }
    REQUIRE(b.earliest_time() == Tm(ref.front().t) && b.latest_time() == Tm(ref.back().t), "earliest and latest");
    for (int k = 0; k < 6; ++k) {
      size_t j = rng.in(0, ref.size() - 1); int64_t q = ref[j].t + (rng.coin() ? 0 : rng.coin() ? rng.in(-2, 2) : rng.in(-3000000, 3000000));
      bool in = ref.front().t <= q && q <= ref.back().t; REQUIRE(b.Has(Tm(q)) == in, "Has " << q);
      if (!in) continue;
      NOTE("lookup " << q); Rigid3d r = b.Lookup(Tm(q)); size_t u = 0; while (ref[u].t < q) ++u;
      if (ref[u].t == q) REQUIRE(r.translation() == ref[u].p && Angle(r.rotation(), ref[u].q) < 1e-7, "a stored time gives the (first) stored transform");
      else { CheckAt(ref[u - 1], ref[u], q, r); vcn::nontrivial() = true; }
    }
  }
}
VCN_CASE(interpolate) {
  int64_t t = rng.in(-1000000, 1000000); E a = Any(rng, t), b = Any(rng, t + rng.in(1, 30000000)); int64_t q = rng.one_in(4) ? a.t : rng.one_in(4) ? b.t : rng.in(a.t, b.t);
  auto r = Interpolate(TimestampedTransform{Tm(a.t), Pose(a)}, TimestampedTransform{Tm(b.t), Pose(b)}, Tm(q));
  NOTE(a.t << " " << b.t << " at " << q); vcn::nontrivial() = true; vcn::Sig(q - a.t);
  REQUIRE(r.time == Tm(q), "time"); CheckAt(a, b, q, r.transform);
  auto p = FromProto(ToProto(r)); REQUIRE(p.time == r.time && p.transform.translation() == r.transform.translation() && p.transform.rotation().coeffs() == r.transform.rotation().coeffs(), "serialization round trip");
}
