// Selections of points: exactly the points satisfying the predicate survive,
// in order, and the intensity and colour columns stay in step.
#include "vc_begin.h"
#include "cartographer/sensor/point_cloud.h"
#include "cartographer/sensor/point_cloud.cc"
#include "cartographer/io/points_batch.cc"
#include "cartographer/common/fixed_ratio_sampler.cc"
#include "cartographer/io/min_max_range_filtering_points_processor.cc"
#include "cartographer/io/vertical_range_filtering_points_processor.cc"
#include "cartographer/io/fixed_ratio_sampling_points_processor.cc"
#include "cartographer/io/intensity_to_color_points_processor.cc"
using namespace cartographer;
using sensor::RangefinderPoint; using sensor::PointCloud; using io::PointsBatch; using io::FloatColor;
#define VECP std::vc_vector<RangefinderPoint>
#define VECF std::vc_vector<float>
#define VECC std::vc_vector<FloatColor>

// ghost: the input columns, an arbitrary position G in them, and the predicate
static RangefinderPoint* P; static float* I; static FloatColor* C; static bool HASI, HASC; static int64_t N, G;
static bool* KEEP;      // KEEP[i]: point i is selected
static int64_t rank(int64_t i) { return vcx_uf1("rank", i); }   // number of selected points before i
static void DefRank(int64_t i) {
  vcx_define(rank(0) == 0);
  vcx_define(vc_implies(i >= 0, rank(i + 1) == rank(i) + (KEEP[i] ? 1 : 0)));
  vcx_define(vc_implies(i >= 1, rank(i) == rank(i - 1) + (KEEP[i - 1] ? 1 : 0)));
}
static bool SameP(const RangefinderPoint& a, const RangefinderPoint& b) { return a.position.x() == b.position.x() && a.position.y() == b.position.y() && a.position.z() == b.position.z(); }
static bool SameC(const FloatColor& a, const FloatColor& b) { return a[0] == b[0] && a[1] == b[1] && a[2] == b[2]; }
// the first i points have been dealt with and the output columns are p, q, c
static bool Selected(int64_t i, const VECP& p, const VECF* q, const VECC* c) {
  DefRank(i); DefRank(G);
  if (!(i >= 0 && i <= N && rank(i) >= 0 && rank(i) <= i && p.n_ == rank(i))) return false;
  if (q && q->n_ != (HASI ? rank(i) : 0)) return false;
  if (c && c->n_ != (HASC ? rank(i) : 0)) return false;
  if (!(G < i)) return true;
  if (!(rank(G) >= 0 && rank(G) <= G && rank(G + 1) <= rank(i))) return false;
  if (!KEEP[G]) return true;
  return SameP(p.d_[rank(G)], P[G]) && (!q || !HASI || q->d_[rank(G)] == I[G]) && (!c || !HASC || SameC(c->d_[rank(G)], C[G]));
}
static void Columns(const char*) {
  N = vc::any_i64("n", 0, 1LL << 30); G = vc::any_i64("g", 0, 1LL << 30);
  P = static_cast<RangefinderPoint*>(vcx_alloc(sizeof(RangefinderPoint), "points"));
  I = static_cast<float*>(vcx_alloc(sizeof(float), "intensities"));
  C = static_cast<FloatColor*>(vcx_alloc(sizeof(FloatColor), "colors"));
  KEEP = static_cast<bool*>(vcx_alloc(1, "keep"));
  HASI = vc::any_bool("hasi"); HASC = vc::any_bool("hasc");
  vc_assume(vc_implies(HASI || HASC, N > 0));
  vc_assume(SameP(P[G], P[G]) && SameC(C[G], C[G]));   // fixes the element layout
}
static void Cloud(PointCloud* pc) {
  Columns("");
  pc->points_.d_ = P; pc->points_.n_ = N; pc->intensities_.d_ = I; pc->intensities_.n_ = HASI ? N : 0;
}
VC_INV(plain) {
  return !HASI && Selected(vcx_iter(), vc::local<VECP>("points", "vector<cartographer::sensor::Ran"), nullptr, nullptr);
}
VC_INV(with) {
  return HASI && Selected(vcx_iter(), vc::local<VECP>("points", "vector<cartographer::sensor::Ran"), &vc::local<VECF>("intensities", "vector<float"), nullptr);
}
static void Post(const VECP& p, const VECF* q, const VECC* c) {
  DefRank(N); DefRank(G);
  vc_assert(p.n_ == rank(N), "exactly the selected points remain");
  if (q) vc_assert(q->n_ == (HASI ? p.n_ : 0), "intensities in step with the points");
  if (c) vc_assert(c->n_ == (HASC ? p.n_ : 0), "colours in step with the points");
  if (G < N && KEEP[G]) {
    vc_assert(rank(G) >= 0 && rank(G) < p.n_, "position of a selected point");
    vc_assert(SameP(p.d_[rank(G)], P[G]), "every selected point is kept, in order");
    if (q && HASI) vc_assert(q->d_[rank(G)] == I[G], "with its intensity");
    if (c && HASC) vc_assert(SameC(c->d_[rank(G)], C[G]), "with its colour");
  }
}
static bool Pred(const RangefinderPoint& p) { return vcx_ufi_r3("pred", p.position.x(), p.position.y(), p.position.z()) != 0; }
VC_HARNESS(copy_if_selects) {
  PointCloud pc; Cloud(&pc);
  auto *p = P; auto* k = KEEP;
  vc_assume(vc::forall(0, N, [p, k](int64_t i) { return k[i] == Pred(p[i]); }));
  PointCloud r = pc.copy_if([](const RangefinderPoint& q) { return Pred(q); });
  Post(r.points_, &r.intensities_, nullptr);
}
VC_HARNESS(crop_selects) {
  PointCloud pc; Cloud(&pc);
  float lo = vc::any_float("lo"), hi = vc::any_float("hi");
  auto *p = P; auto* k = KEEP;
  vc_assume(vc::forall(0, N, [p, k, lo, hi](int64_t i) { return k[i] == (lo <= p[i].position.z() && p[i].position.z() <= hi); }));
  PointCloud r = sensor::CropPointCloud(pc, lo, hi);
  Post(r.points_, &r.intensities_, nullptr);
}
// --- RemovePoints
static absl::vc_flat_hash_set<int>* SET;
VC_INV(remove) {
  return Selected(vcx_iter(), vc::local<VECP>("points", "vector<cartographer::sensor::Ran"), &vc::local<VECF>("intensities", "vector<float"), &vc::local<VECC>("colors", "vector<std::array"));
}
static void Batch(PointsBatch* b) {
  Columns("");
  b->points.d_ = P; b->points.n_ = N; b->intensities.d_ = I; b->intensities.n_ = HASI ? N : 0; b->colors.d_ = C; b->colors.n_ = HASC ? N : 0;
}
VC_HARNESS(remove_points) {
  auto* b = vc::any_obj<PointsBatch>("batch"); Batch(b);
  absl::vc_flat_hash_set<int> s; s.m_ = static_cast<bool*>(vcx_alloc(1, "members")); s.n_ = vc::any_i64("card", 0, 1LL << 30);
  auto* m = s.m_; auto* k = KEEP;
  vc_assume(vc::forall(0, N, [m, k](int64_t i) { return k[i] == !m[i]; }));
  io::RemovePoints(s, b);
  Post(b->points, &b->intensities, &b->colors);
}
// --- processors: the set of removed indices is the complement of the selection
static bool CALLED, PASSED; static PointsBatch* B; static int64_t PULSES, SEEN;
extern "C" void vc_stub_remove(absl::vc_flat_hash_set<int>* s, PointsBatch* b) {
  vc_assert(b == B, "the batch itself is filtered");
  vc_assert(b->points.n_ == N && b->points.d_ == P, "with its points unchanged so far");
  if (G < N) vc_assert(s->m_[G] == !KEEP[G], "exactly the points outside the range are removed");
  vc_assert(!CALLED, "filtered once"); CALLED = true;
}
struct Next : public io::PointsProcessor {
  void Process(std::vc_unique_ptr<PointsBatch> batch) override { vc_assert(batch.get() == B && CALLED && !PASSED, "the filtered batch goes on, once"); PASSED = true; }
  FlushResult Flush() override { return FlushResult::kFinished; }
};
VC_INV(range) {
  auto& s = vc::local<absl::vc_flat_hash_set<int>>("to_remove", "hash_set");
  int64_t i = vcx_iter();
  return i >= 0 && i <= N && B->points.n_ == N && B->points.d_ == P && vc_implies(G < N, s.m_[G] == (G < i && !KEEP[G]));
}
template <class T> static void RunFilter(T& f) {
  CALLED = PASSED = false;
  std::vc_unique_ptr<PointsBatch> u(B);
  f.T::Process(std::move(u));
  vc_assert(PASSED, "the batch is passed on");
}
static double Sq(double x) { return x * x; }
VC_HARNESS(range_filter) {
  B = vc::any_obj<PointsBatch>("batch"); Batch(B);
  double lo = vc::any_real("lo"), hi = vc::any_real("hi");
  auto* p = P; auto* k = KEEP; auto* b = B;
  if (G < N) { auto d = p[G].position; double r = Sq(d.x() - b->origin.x()) + Sq(d.y() - b->origin.y()) + Sq(d.z() - b->origin.z());
    vc_assume(k[G] == (lo * lo <= r && r <= hi * hi)); }
  Next next; io::MinMaxRangeFilteringPointsProcessor f(lo, hi, &next);
  RunFilter(f);
}
VC_HARNESS(vertical_filter) {
  B = vc::any_obj<PointsBatch>("batch"); Batch(B);
  double lo = vc::any_real("lo"), hi = vc::any_real("hi");
  if (G < N) { double r = P[G].position.z() - B->origin.z(); vc_assume(KEEP[G] == (lo <= r && r <= hi)); }
  Next next; io::VerticalRangeFilteringPointsProcessor f(lo, hi, &next);
  RunFilter(f);
}
// one pulse per point, in order; a point is kept exactly if its pulse says so
extern "C" bool vc_stub_pulse(common::FixedRatioSampler*) { int64_t k = PULSES++; return vcx_uf1("pulse", k) != 0; }
VC_INV(sampling) {
  auto& s = vc::local<absl::vc_flat_hash_set<int>>("to_remove", "hash_set");
  int64_t i = vcx_iter();
  return i >= 0 && i <= N && PULSES == SEEN + i && B->points.n_ == N && B->points.d_ == P && vc_implies(G < N, s.m_[G] == (G < i && !KEEP[G]));
}
VC_HARNESS(sampling_filter) {
  B = vc::any_obj<PointsBatch>("batch"); Batch(B);
  PULSES = SEEN = vc::any_i64("pulses", 0, 1LL << 40);
  vc_assume(KEEP[G] == (vcx_uf1("pulse", SEEN + G) != 0));
  auto* f = vc::any_obj<io::FixedRatioSamplingPointsProcessor>("proc");
  Next next; const_cast<io::PointsProcessor*&>(f->next_) = &next;
  RunFilter(*f);
  vc_assert(PULSES == SEEN + N, "one pulse per point");
}
// --- transforms: point i of the result is the transformed point i, columns kept
static transform::Rigid3f* T;
static bool IsImage(const RangefinderPoint& r, const RangefinderPoint& p) { RangefinderPoint q = (*T) * p; return SameP(r, q); }
extern "C" Eigen::Vector3f vc_stub_rot(const transform::Rigid3f* t, const Eigen::Vector3f& v) {
  vc_assert(t == T, "this transform");
  return Eigen::Vector3f(vcx_ufr_r3("tx", v.x(), v.y(), v.z()), vcx_ufr_r3("ty", v.x(), v.y(), v.z()), vcx_ufr_r3("tz", v.x(), v.y(), v.z()));
}
VC_INV(tpoints) {
  auto& p = vc::local<VECP>("points", "vector<cartographer::sensor::Ran");
  int64_t i = vcx_iter();
  return i >= 0 && i <= N && p.n_ == i && vc_implies(G < i, p.d_[G].position.x() == vcx_ufr_r3("tx", P[G].position.x(), P[G].position.y(), P[G].position.z()) &&
    p.d_[G].position.y() == vcx_ufr_r3("ty", P[G].position.x(), P[G].position.y(), P[G].position.z()) && p.d_[G].position.z() == vcx_ufr_r3("tz", P[G].position.x(), P[G].position.y(), P[G].position.z()));
}
VC_HARNESS(transform_cloud) {
  PointCloud pc; Cloud(&pc);
  T = vc::any_obj<transform::Rigid3f>("transform");
  PointCloud r = sensor::TransformPointCloud(pc, *T);
  vc_assert(r.points_.n_ == N && r.intensities_.n_ == (HASI ? N : 0), "as many points and intensities as before");
  if (G < N) {
    auto q = P[G].position;
    vc_assert(r.points_.d_[G].position.x() == vcx_ufr_r3("tx", q.x(), q.y(), q.z()) && r.points_.d_[G].position.y() == vcx_ufr_r3("ty", q.x(), q.y(), q.z()) &&
              r.points_.d_[G].position.z() == vcx_ufr_r3("tz", q.x(), q.y(), q.z()), "each point transformed in place");
    if (HASI) vc_assert(r.intensities_.d_[G] == I[G], "with its intensity");
  }
}
// --- timed points: the time stamp stays with its point
static sensor::TimedRangefinderPoint* TP;
#define VECT std::vc_vector<sensor::TimedRangefinderPoint>
static bool TImage(const sensor::TimedRangefinderPoint& r, const sensor::TimedRangefinderPoint& q) {
  return r.position.x() == vcx_ufr_r3("tx", q.position.x(), q.position.y(), q.position.z()) && r.position.y() == vcx_ufr_r3("ty", q.position.x(), q.position.y(), q.position.z()) &&
         r.position.z() == vcx_ufr_r3("tz", q.position.x(), q.position.y(), q.position.z()) && r.time == q.time;
}
VC_INV(ttimed) {
  auto& p = vc::local<VECT>("result", "vector<cartographer::sensor::Timed");
  int64_t i = vcx_iter();
  return i >= 0 && i <= N && p.n_ == i && vc_implies(G < i, TImage(p.d_[G], TP[G]));
}
VC_HARNESS(transform_timed) {
  N = vc::any_i64("n", 0, 1LL << 30); G = vc::any_i64("g", 0, 1LL << 30);
  TP = static_cast<sensor::TimedRangefinderPoint*>(vcx_alloc(sizeof(sensor::TimedRangefinderPoint), "timed"));
  vc_assume(TP[G].position.x() == TP[G].position.x() && TP[G].position.y() == TP[G].position.y() && TP[G].position.z() == TP[G].position.z() && TP[G].time == TP[G].time);
  VECT in; in.d_ = TP; in.n_ = N;
  T = vc::any_obj<transform::Rigid3f>("transform");
  VECT r = sensor::TransformTimedPointCloud(in, *T);
  vc_assert(r.n_ == N, "as many points as before");
  if (G < N) vc_assert(TImage(r.d_[G], TP[G]), "each point transformed in place, time kept");
}
