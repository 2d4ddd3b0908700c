// Contracts of TransformInterpolationBuffer and of Interpolate.
#include "vc_begin.h"
#define lower_bound vc_lower_bound
// contract of std::lower_bound on a random access range
namespace std {
template <class It, class V, class C> It vc_lower_bound(It b, It e, const V& v, C c) {
  const int64_t n = e - b;
  int64_t i = vc::any_i64("lb i"), j = vc::any_i64("lb j");
  vcx_assert(!(0 <= i && i < j && j < n) || !c(b[j], v) || c(b[i], v), "lower_bound: the range is partitioned by the comparison");
  int64_t r = vc::any_i64("lb", 0); vc_assume(r <= n);
  vc_assume(r == n || !c(b[r], v));
  vc_assume(vc::forall(0, r, [&](int64_t k) { return c(b[k], v); }));
  return b + r;
}
}  // namespace std
#include "cartographer/transform/transform_interpolation_buffer.h"
#include "cartographer/transform/timestamped_transform.h"
#include "cartographer/common/time.cc"
#include "cartographer/transform/timestamped_transform.cc"
#include "cartographer/transform/transform_interpolation_buffer.cc"
using namespace cartographer; using namespace cartographer::transform;
typedef TransformInterpolationBuffer Buf;
static Buf* BUF; static int64_t B0, E0; static uint64_t LIMIT;
static common::Time AnyTime(const char* n) { return common::Time(common::Duration(vc::any_i64(n, -(1LL << 60), 1LL << 60))); }
static Rigid3d AnyPose(const char* n) { return Rigid3d(Eigen::Vector3d(vc::any_real(n), vc::any_real(n), vc::any_real(n)), Eigen::Quaterniond(vc::any_real(n), vc::any_real(n), vc::any_real(n), vc::any_real(n))); }
static bool Same(const Rigid3d& a, const Rigid3d& b) {
  return a.translation().x() == b.translation().x() && a.translation().y() == b.translation().y() && a.translation().z() == b.translation().z() &&
         a.rotation().w() == b.rotation().w() && a.rotation().x() == b.rotation().x() && a.rotation().y() == b.rotation().y() && a.rotation().z() == b.rotation().z();
}
static TimestampedTransform* D() { return BUF->timestamped_transforms_.d_; }
static int64_t T(int64_t i) { return D()[i].time.time_since_epoch().count(); }
static void Setup() {
  BUF = vc::any_obj<Buf>("buffer"); auto& q = BUF->timestamped_transforms_;
  q.d_ = static_cast<TimestampedTransform*>(vcx_alloc(sizeof(TimestampedTransform), "transforms"));
  q.b_ = B0 = vc::any_i64("b", 0, 1LL << 60); q.e_ = E0 = vc::any_i64("e", 0, 1LL << 60); vc_assume(B0 <= E0);
  BUF->buffer_size_limit_ = LIMIT = vcx_any_int("limit", 0, INT64_MAX);
  if (vc::any_bool("unlimited")) BUF->buffer_size_limit_ = LIMIT = kUnlimitedBufferSize;
}
// sorted by time, for the pairs the argument needs
static void Sorted() { auto* d = D(); vc_assume(vc::forall(B0, E0 - 1, [d](int64_t i) { return d[i].time <= d[i + 1].time; })); }
static void SortedPair(int64_t i, int64_t j) { if (B0 <= i && i <= j && j < E0) vc_assume(T(i) <= T(j)); }   // consequence of adjacent order
VC_INV(remove) { auto& q = BUF->timestamped_transforms_; return q.b_ >= B0 && q.b_ <= q.e_ && (q.b_ == B0 || static_cast<uint64_t>(q.e_ - q.b_) >= LIMIT); }
VC_HARNESS(push) {
  Setup(); common::Time t = AnyTime("t"); Rigid3d p = AnyPose("p");
  int64_t g = vc::any_i64("g"), h = vc::any_i64("h"); vc_assume(B0 <= g && g <= h && h <= E0);
  vc_assume(E0 == B0 || t >= D()[E0 - 1].time);           // CHECKed by the code, tested below
  SortedPair(g, h); if (E0 > B0) SortedPair(g, E0 - 1);
  auto before = D()[g];
  BUF->Push(t, p);
  auto& q = BUF->timestamped_transforms_;
  vc_assert(q.e_ == E0 + 1 && (LIMIT == 0 || q.b_ <= E0), "the new transform is added at the end");
  vc_assert(D()[E0].time == t && Same(D()[E0].transform, p), "with its time and value");
  vc_assert(g == E0 || (D()[g].time == before.time && Same(D()[g].transform, before.transform)), "other transforms stay as they are");
  vc_assert(q.b_ == B0 || static_cast<uint64_t>(q.e_ - q.b_) == LIMIT, "only the oldest beyond the limit are dropped");
  vc_assert(static_cast<uint64_t>(q.e_ - q.b_) <= LIMIT, "the limit is kept");
  vc_assert(T(g) <= T(h), "the buffer stays sorted");
  vc_assert(BUF->size() == static_cast<uint64_t>(q.e_ - q.b_) && BUF->empty() == (q.e_ == q.b_) && BUF->size_limit() == LIMIT, "accessors");
}
VC_HARNESS(limit) {
  Setup(); uint64_t l = vcx_any_int("newlimit", 0, INT64_MAX); LIMIT = l;
  BUF->SetSizeLimit(l);
  auto& q = BUF->timestamped_transforms_;
  vc_assert(q.e_ == E0 && q.b_ >= B0 && (q.b_ == B0 || static_cast<uint64_t>(q.e_ - q.b_) == l) && static_cast<uint64_t>(q.e_ - q.b_) <= l && BUF->size_limit() == l, "only the oldest beyond the limit are dropped");
}
VC_HARNESS(has) {
  Setup(); common::Time t = AnyTime("t");
  bool r = BUF->Has(t);
  vc_assert(r == (E0 > B0 && D()[B0].time <= t && t <= D()[E0 - 1].time), "a time is covered from the first to the last transform");
  if (E0 > B0) vc_assert(BUF->earliest_time() == D()[B0].time && BUF->latest_time() == D()[E0 - 1].time, "earliest and latest");
}
VC_HARNESS(clear) { Setup(); BUF->Clear(); vc_assert(BUF->empty() && BUF->size() == 0 && !BUF->Has(AnyTime("t")), "empty"); }
static int64_t K; static int CALLS; static common::Time TQ; static double RX;
extern "C" void vc_stub_interpolate(TimestampedTransform* out, const TimestampedTransform& s, const TimestampedTransform& e, common::Time t) {
  vc_assert(s.time <= t && t <= e.time && s.time < e.time, "Interpolate requires a nonempty interval around the time");
  vc_assert(&s == D() + K - 1 && &e == D() + K && t == TQ, "interpolates between the two transforms around the time");
  ++CALLS; new (out) TimestampedTransform{t, AnyPose("interpolated")}; RX = out->transform.translation().x();
}
VC_HARNESS(lookup) {
  Setup(); TQ = AnyTime("t"); CALLS = 0;
  vc_assume(E0 > B0 && D()[B0].time <= TQ && TQ <= D()[E0 - 1].time);
  auto* d = D(); vc_assume(vc::forall(B0, E0, [d](int64_t i) { return d[i].time <= d[E0 - 1].time; }));
  // sorted: any two are in order (instances around the time are taken from this)
  vc_assume(vc::forall(B0, E0, [d](int64_t i) { return vc::forall(i, E0, [d, i](int64_t j) { return d[i].time <= d[j].time; }); }));
  K = vc::any_i64("k"); vc_assume(B0 <= K && K < E0 && D()[K].time >= TQ && (K == B0 || D()[K - 1].time < TQ));   // the first transform not before the time
  Rigid3d r = BUF->Lookup(TQ);
  if (D()[K].time == TQ) vc_assert(CALLS == 0 && Same(r, D()[K].transform), "a stored time gives the stored transform");
  else vc_assert(CALLS == 1 && r.translation().x() == RX, "any other time the interpolation of its neighbours");
}
// Interpolate: linear in the translation, slerp in the rotation, at the same factor
static const Eigen::Quaterniond *QS, *QE; static double F;
extern "C" void vc_stub_slerp(Eigen::Quaterniond* out, const Eigen::Quaterniond* a, const double& f, const Eigen::Quaterniond& b) {
  F = f;
  vc_assert(a->w() == QS->w() && a->x() == QS->x() && a->y() == QS->y() && a->z() == QS->z(), "from the rotation of the start");
  vc_assert(b.w() == QE->w() && b.x() == QE->x() && b.y() == QE->y() && b.z() == QE->z(), "to the rotation of the end");
  new (out) Eigen::Quaterniond(vcx_ufr_r1("sw", f), vcx_ufr_r1("sx", f), vcx_ufr_r1("sy", f), vcx_ufr_r1("sz", f));
}
VC_HARNESS(interpolate) {
  TimestampedTransform s{AnyTime("ts"), AnyPose("s")}, e{AnyTime("te"), AnyPose("e")}; common::Time t = AnyTime("t");
  vc_assume(s.time <= t && t <= e.time && s.time < e.time);
  Eigen::Quaterniond qs = s.transform.rotation(), qe = e.transform.rotation(); QS = &qs; QE = &qe;
  auto r = Interpolate(s, e, t);
  double den = static_cast<double>((e.time - s.time).count()), num = static_cast<double>((t - s.time).count());
  vc_assert(r.time == t, "at the time asked for");
  vc_assert(F * den == num, "the factor is the fraction of time passed");
  vc_assert(r.transform.rotation().w() == vcx_ufr_r1("sw", F) && r.transform.rotation().x() == vcx_ufr_r1("sx", F) && r.transform.rotation().y() == vcx_ufr_r1("sy", F) && r.transform.rotation().z() == vcx_ufr_r1("sz", F), "the rotation is interpolated at that factor");
  auto lin = [&](double a, double b, double x) { return x == a + (b - a) * F; };
  vc_assert(lin(s.transform.translation().x(), e.transform.translation().x(), r.transform.translation().x()), "x is linear");
  vc_assert(lin(s.transform.translation().y(), e.transform.translation().y(), r.transform.translation().y()), "y is linear");
  vc_assert(lin(s.transform.translation().z(), e.transform.translation().z(), r.transform.translation().z()), "z is linear");
  vc_assert(F >= 0. && F <= 1., "between the two");
}
