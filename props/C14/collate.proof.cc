// RangeDataCollator: cropping and merging of pending range data.
#define VC_MAP
#include "vc_begin.h"
#include <algorithm>
// std::sort by its contract: a permutation, ordered by the comparator
namespace std { template <class T, class F> void vc_sort(T* b, T* e, F f); }
#define sort vc_sort
#include "cartographer/mapping/internal/range_data_collator.cc"
#undef sort
using namespace cartographer; using mapping::RangeDataCollator; using sensor::TimedPointCloudData; using sensor::TimedRangefinderPoint;
typedef sensor::TimedPointCloudOriginData Out;
static int64_t& Id(const std::string& s) { return *reinterpret_cast<int64_t*>(reinterpret_cast<char*>(const_cast<std::string*>(&s)) + 8); }
namespace vc { template <> struct order<std::string> { static int64_t rank(const std::string& s) { return Id(s); } }; }
typedef std::vc_map<std::string, TimedPointCloudData> Pending;
static RangeDataCollator* C;
extern "C" void vc_stub_nop(void*) {}
// seconds to ticks and back: any functions
static const int64_t kT = int64_t{1} << 60;
static int64_t Ticks(double s) { return vcx_ufi_r1("ticks:-1152921504606846976:1152921504606846976", s); }
static float Corr(int64_t d) { return vcx_ufr1("seconds", d); }
extern "C" int64_t vc_stub_ticks(double s) { return Ticks(s); }
extern "C" double vc_stub_seconds(int64_t d) { return Corr(d); }
static TimedPointCloudData& P(int64_t j) { return C->id_to_pending_data_.e_[j].second; }
static int64_t Rank(int64_t j) { return Id(C->id_to_pending_data_.e_[j].first); }
static bool Live(int64_t j) { return C->id_to_pending_data_.live_[j]; }
static int64_t TimeOf(int64_t j) { return P(j).time.time_since_epoch().count(); }
static int64_t Abs(int64_t j, int64_t k) { return TimeOf(j) + Ticks(P(j).ranges.d_[k].time); }
static int64_t Start() { return C->current_start_.time_since_epoch().count(); }
static int64_t End() { return C->current_end_.time_since_epoch().count(); }
// ghost: one arbitrary point, told apart from the others by its intensity
static int64_t P0, K0, GA, GT; static float GX, GY, GZ, GI, GP, OX, OY, OZ;
static bool Is(int64_t j, int64_t k) { auto& r = P(j).ranges.d_[k]; return r.position.x() == GX && r.position.y() == GY && r.position.z() == GZ && r.time == GP && P(j).intensities.d_[k] == GI; }
static bool Src(int64_t j) { return P(j).origin.x() == OX && P(j).origin.y() == OY && P(j).origin.z() == OZ && TimeOf(j) == GT; }
static bool Node(int64_t j) {   // a message: as many intensities, the ghost nowhere else
  return P(j).ranges.n_ >= 0 && P(j).ranges.n_ < (1 << 28) && P(j).intensities.n_ == P(j).ranges.n_ && TimeOf(j) > -kT && TimeOf(j) < kT &&
    vc::forall(0, P(j).ranges.n_, [=](int64_t k) { return (j == P0 && k == K0) || P(j).intensities.d_[k] != GI; });
}
static bool Match(const Out& r, int64_t q) {
  auto& m = r.ranges.d_[q]; int64_t o = m.origin_index;
  return m.intensity == GI && m.point_time.position.x() == GX && m.point_time.position.y() == GY && m.point_time.position.z() == GZ && m.point_time.time == GP + Corr(GT - End()) &&
    r.origins.d_[o].x() == OX && r.origins.d_[o].y() == OY && r.origins.d_[o].z() == OZ;
}
static int64_t W, COUNT, N0;   // where the ghost is in the result, and how often
static bool None(const Out& r) { return COUNT == 0; }
static bool Once(const Out& r) { return COUNT == 1 && W >= 0 && W < r.ranges.n_ && Match(r, W); }
extern "C" void vc_stub_push(std::vc_vector<Out::RangeMeasurement>* v, const Out::RangeMeasurement& m) { vc_assume(v->n_ < kT / 65536); /* max_size */ if (m.intensity == GI) { W = v->n_; ++COUNT; } v->d_[v->n_] = m; ++v->n_; }
static bool Gone() { return !Live(P0) || vc::forall(0, P(P0).ranges.n_, [=](int64_t k) { return P(P0).intensities.d_[k] != GI; }); }
static bool Kept() { int64_t k = K0 - (N0 - P(P0).ranges.n_); return Live(P0) && Src(P0) && P(P0).intensities.n_ == P(P0).ranges.n_ && k >= 0 && k < P(P0).ranges.n_ && Is(P0, k) && vc::forall(0, P(P0).ranges.n_, [=](int64_t l) { return l == k || P(P0).intensities.d_[l] != GI; }); }
// points are sorted by time: so relative to the (arbitrary) ghost
static bool Sorted() { return vc::forall(0, N0, [=](int64_t k) { return k <= K0 ? Abs(P0, k) <= GA : Abs(P0, k) >= GA; }); }
static bool Before() { return Live(P0) && Src(P0) && P(P0).ranges.n_ == N0 && K0 < N0 && Is(P0, K0) && Node(P0) && Sorted(); }
static bool Base(const Out& r) {
  const Out* p = &r;
  return r.ranges.n_ >= 0 && r.ranges.n_ <= kT / 65536 && r.origins.n_ >= 0 && r.time.time_since_epoch().count() == End() && vc::forall(0, r.ranges.n_, [=](int64_t q) { return static_cast<int64_t>(p->ranges.d_[q].origin_index) >= 0 && static_cast<int64_t>(p->ranges.d_[q].origin_index) < p->origins.n_; });
}
static bool After(const Out& r) { return GA < Start() ? (None(r) && Gone()) : GA <= End() ? (Once(r) && Gone()) : (None(r) && Kept()); }
static bool It(const Pending::iterator& it) { return it.m_ == &C->id_to_pending_data_ && it.i_ >= -1 && it.i_ < it.m_->cap_; }
VC_INV(nodes) {
  auto& it = vc::local<Pending::iterator>("it", ""); auto& r = vc::local<Out>("result", ""); int64_t i = it.i_, n = C->id_to_pending_data_.cap_;
  if (!It(it) || !Base(r)) return false;
  if (i >= 0 && !(Live(i) && (Rank(P0) != Rank(i) || P0 == i))) return false;
  if (i >= 0 && !vc::forall(0, n, [=](int64_t j) { return !Live(j) || Rank(j) < Rank(i) || Node(j); })) return false;
  return i < 0 || Rank(P0) < Rank(i) ? After(r) : Before() && None(r);
}
VC_INV(begin_scan) {
  auto& it = vc::local<Pending::iterator>("it", ""); auto& b = vc::local<const TimedRangefinderPoint*>("overlap_begin", ""); int64_t i = it.i_, x = b - P(i).ranges.d_;
  return x >= 0 && x <= P(i).ranges.n_ && (i != P0 || K0 >= x || GA < Start()) && vc::forall(0, x, [=](int64_t k) { return Abs(i, k) < Start(); });
}
VC_INV(end_scan) {
  auto& it = vc::local<Pending::iterator>("it", ""); auto& b = vc::local<const TimedRangefinderPoint*>("overlap_begin", ""); auto& e = vc::local<const TimedRangefinderPoint*>("overlap_end", ""); int64_t i = it.i_, x = b - P(i).ranges.d_, y = e - P(i).ranges.d_;
  return y >= x && y <= P(i).ranges.n_ && (i != P0 || K0 < x || GA >= Start()) && (i != P0 || K0 < x || K0 >= y || GA <= End()) && vc::forall(x, y, [=](int64_t k) { return Abs(i, k) <= End(); });
}
VC_INV(copy) {
  auto& it = vc::local<Pending::iterator>("it", ""); auto& r = vc::local<Out>("result", ""); auto& b = vc::local<const TimedRangefinderPoint*>("overlap_begin", ""); auto& e = vc::local<const TimedRangefinderPoint*>("overlap_end", ""); auto& o = vc::local<const TimedRangefinderPoint*>("overlap_it", ""); auto& f = vc::local<const float*>("intensities_overlap_it", "");
  int64_t i = it.i_, x = b - P(i).ranges.d_, y = e - P(i).ranges.d_, z = o - P(i).ranges.d_;
  if (!(z >= x && z <= y && f == P(i).intensities.d_ + z && Base(r))) return false;
  if (i == P0 && ((K0 < x && GA >= Start()) || (K0 >= y && GA <= End()))) return false;
  if (i == P0) return z > K0 && x <= K0 ? Once(r) : None(r);
  return Rank(P0) < Rank(i) ? After(r) : None(r);
}
namespace std { template <class T, class F> void vc_sort(T* b, T* e, F f) {
  int64_t n = e - b; T* d = vc::alloc_array<T>(); vc_assert(n >= 0, "a valid range"); const F* g = &f;
  vc_assume(vc::forall(0, n, [=](int64_t i) { return vc::forall(i + 1, n, [=](int64_t k) { return !(*g)(d[k], d[i]); }); }));
  vc_assume(vc::forall(0, n, [=](int64_t i) { int64_t o = vcx_uf1("perm", i); return o >= 0 && o < n && d[i].origin_index == b[o].origin_index; }));
  int64_t w = vc::any_i64("w", 0, 1 << 30);
  if (COUNT == 1) { vc_assume(w < n && d[w].intensity == b[W].intensity && d[w].origin_index == b[W].origin_index && d[w].point_time.time == b[W].point_time.time && d[w].point_time.position.x() == b[W].point_time.position.x() && d[w].point_time.position.y() == b[W].point_time.position.y() && d[w].point_time.position.z() == b[W].point_time.position.z()); W = w; }
  vcx_copy_all(b, d);
} }
extern "C" void vc_stub_range(std::vc_vector<TimedRangefinderPoint>* v, const TimedRangefinderPoint* b, const TimedRangefinderPoint* e) {
  TimedRangefinderPoint* d = v->d_ = static_cast<TimedRangefinderPoint*>(vcx_alloc(sizeof(TimedRangefinderPoint), "tail")); int64_t n = v->n_ = e - b; vc_assert(n >= 0, "a valid range");
  vc_assume(vc::forall(0, n, [=](int64_t k) { return d[k].time == b[k].time && d[k].position.x() == b[k].position.x() && d[k].position.y() == b[k].position.y() && d[k].position.z() == b[k].position.z(); }));
}
extern "C" void vc_stub_rangef(std::vc_vector<float>* v, const float* b, const float* e) {
  float* d = v->d_ = static_cast<float*>(vcx_alloc(4, "tail")); int64_t n = v->n_ = e - b; vc_assert(n >= 0, "a valid range");
  vc_assume(vc::forall(0, n, [=](int64_t k) { return d[k] == b[k]; }));
}
static void Any() {
  C = vc::any_obj<RangeDataCollator>("collator"); auto& q = C->id_to_pending_data_;
  q.e_ = static_cast<Pending::value_type*>(vcx_alloc(sizeof(Pending::value_type), "pending")); q.live_ = static_cast<bool*>(vcx_alloc(1, "live")); q.cap_ = vc::any_i64("nodes", 0, 1 << 20); q.n_ = vc::any_i64("size", 0, 1 << 20);
  vcx_array_of(P(0).ranges.d_, sizeof(TimedRangefinderPoint)); vcx_array_of(P(0).intensities.d_, 4);
  P0 = vc::any_i64("p0", 0, 1 << 20); K0 = vc::any_i64("k0", 0, 1 << 28); vc_assume(P0 < q.cap_ && Live(P0) && K0 < P(P0).ranges.n_);
  auto& g = P(P0).ranges.d_[K0]; GX = g.position.x(); GY = g.position.y(); GZ = g.position.z(); GP = g.time; GI = P(P0).intensities.d_[K0]; GT = TimeOf(P0); OX = P(P0).origin.x(); OY = P(P0).origin.y(); OZ = P(P0).origin.z();
  int64_t n = q.cap_; vc_assume(vc::forall(0, n, [=](int64_t j) { return !Live(j) || Node(j); }));
  vc_assume(vc::forall(0, n, [=](int64_t j) { return vc::forall(0, n, [=](int64_t l) { return j == l || !Live(j) || !Live(l) || (Rank(j) != Rank(l) && P(j).ranges.d_ != P(l).ranges.d_ && P(j).intensities.d_ != P(l).intensities.d_); }); }));
  N0 = P(P0).ranges.n_; COUNT = 0; W = -1; GA = Abs(P0, K0); vc_assume(Before() && Start() <= End() && Start() > -kT && End() < kT);
}
VC_HARNESS(crop) {
  Any();
  Out r = C->CropAndMerge();
  vc_assert(r.time.time_since_epoch().count() == End(), "stamped with the end of the interval");
  const Out* p = &r;
  vc_assert(vc::forall(0, r.ranges.n_, [=](int64_t q) { return vc::forall(q, p->ranges.n_, [=](int64_t u) { return p->ranges.d_[q].point_time.time <= p->ranges.d_[u].point_time.time; }); }), "sorted by time");
  vc_assert(vc::forall(0, r.ranges.n_, [=](int64_t q) { return static_cast<int64_t>(p->ranges.d_[q].origin_index) >= 0 && static_cast<int64_t>(p->ranges.d_[q].origin_index) < p->origins.n_; }), "origins exist");
  vc_assert(GA >= Start() || (None(r) && Gone()), "earlier points are dropped");
  vc_assert(GA < Start() || GA > End() || (Once(r) && Gone()), "points in the interval come out exactly once, unchanged in space and absolute time");
  vc_assert(GA <= End() || (None(r) && Kept()), "later points stay pending");
}
