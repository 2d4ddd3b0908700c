// RangeDataCollator::AddRangeData: which interval is emitted, and what stays pending.
#define VC_MAP
#include "vc_begin.h"
#include "cartographer/mapping/internal/range_data_collator.cc"
using namespace cartographer; using mapping::RangeDataCollator; using sensor::TimedPointCloudData; using sensor::TimedRangefinderPoint;
typedef sensor::TimedPointCloudOriginData Out;
static int64_t& Id(const std::string& s) { return *reinterpret_cast<int64_t*>(reinterpret_cast<char*>(const_cast<std::string*>(&s)) + 8); }
namespace vc { template <> struct order<std::string> { static int64_t rank(const std::string& s) { return Id(s); } }; }
typedef std::vc_map<std::string, TimedPointCloudData> Pending;
static RangeDataCollator* C;
extern "C" void vc_stub_nop(void*) {}
extern "C" void vc_stub_strcopy(std::string* s, const std::string& o) { Id(*s) = Id(o); }
static int64_t EXPECTED;
extern "C" size_t vc_stub_expected(const void*) { return EXPECTED; }
extern "C" size_t vc_stub_known(const void*, const std::string&) { return 1; }   // only expected sensors (precondition)
static TimedPointCloudData& P(int64_t j) { return C->id_to_pending_data_.e_[j].second; }
static int64_t Rank(int64_t j) { return Id(C->id_to_pending_data_.e_[j].first); }
static bool Live(int64_t j) { return C->id_to_pending_data_.live_[j]; }
static int64_t TimeOf(int64_t j) { return P(j).time.time_since_epoch().count(); }
static int64_t Start() { return C->current_start_.time_since_epoch().count(); }
static int64_t End() { return C->current_end_.time_since_epoch().count(); }
static int64_t END0, H, CALLS; static bool Has;
static const int64_t MARK = 77;
// CropAndMerge (collate.proof.cc): emits (start, end]; messages without points after the end are dropped.
extern "C" Out vc_stub_crop(RangeDataCollator* c) {
  auto& q = C->id_to_pending_data_; int64_t n = q.cap_; ++CALLS; int64_t e = End();
  vc_assert(Start() == END0, "the interval starts where the last one ended");
  if (Has) vc_assert(End() == TimeOf(H), "a second message of a sensor: up to the older one");
  else vc_assert(vc::forall(0, n, [=](int64_t j) { return !Live(j) || e <= TimeOf(j); }) && vc::exists(0, n, [=](int64_t j) { return Live(j) && e == TimeOf(j); }), "otherwise up to the oldest pending message");
  bool *o = q.live_, *l = q.live_ = vc::alloc_array<bool>(); vc_assume(vc::forall(0, n, [=](int64_t j) { return (!l[j] || o[j]) && (TimeOf(j) > e || !l[j]); }));
  q.n_ = vc::any_i64("left", 0, 1 << 20);
  Out r; r.time = C->current_end_; r.origins.n_ = MARK; return r;
}
VC_INV(oldest) {
  auto& it = vc::local<Pending::const_iterator>("~__begin.*", ""); auto& t = vc::local<common::Time>("oldest_timestamp", ""); int64_t i = it.i_, n = C->id_to_pending_data_.cap_, o = t.time_since_epoch().count();
  if (!(it.m_ == &C->id_to_pending_data_ && i >= -1 && i < n && (i < 0 || Live(i)))) return false;
  return vc::forall(0, n, [=](int64_t j) { return !Live(j) || (i >= 0 && Rank(j) >= Rank(i)) || o <= TimeOf(j); }) &&
    (o == INT64_MAX || vc::exists(0, n, [=](int64_t j) { return Live(j) && o == TimeOf(j); }));
}
VC_HARNESS(add) {
  C = vc::any_obj<RangeDataCollator>("collator"); auto& q = C->id_to_pending_data_;
  q.e_ = static_cast<Pending::value_type*>(vcx_alloc(sizeof(Pending::value_type), "pending")); q.live_ = static_cast<bool*>(vcx_alloc(1, "live")); q.cap_ = vc::any_i64("nodes", 0, 1 << 20); q.n_ = vc::any_i64("size", 0, 1 << 20);
  vcx_array_of(P(0).ranges.d_, sizeof(TimedRangefinderPoint)); vcx_array_of(P(0).intensities.d_, 4);
  std::string* id = vc::any_obj<std::string>("id"); TimedPointCloudData* d = vc::any_obj<TimedPointCloudData>("data"); int64_t n = q.cap_, s = Id(*id), n0 = q.n_, start0 = Start();
  d->ranges.d_ = static_cast<TimedRangefinderPoint*>(vcx_alloc(sizeof(TimedRangefinderPoint), "ranges")); d->ranges.n_ = vc::any_i64("points", 0, 1 << 28); d->intensities.d_ = static_cast<float*>(vcx_alloc(4, "intensities")); d->intensities.n_ = vc::any_i64("given", 0, 1 << 28);
  vc_assume(d->intensities.n_ <= d->ranges.n_ && d->time.time_since_epoch().count() < INT64_MAX);
  int64_t given = d->intensities.n_, np = d->ranges.n_, tm = d->time.time_since_epoch().count(), k = vc::any_i64("k", 0, 1 << 28); float ik = d->intensities.d_[k];
  TimedRangefinderPoint* rd = d->ranges.d_;
  Has = vc::any_bool("has"); H = vc::any_i64("h", 0, 1 << 20); EXPECTED = vc::any_i64("sensors", 1, 1 << 20); CALLS = 0; END0 = End();
  vc_assume(vc::forall(0, n, [=](int64_t j) { return !Live(j) || TimeOf(j) < INT64_MAX; }));
  vc_assume(vc::forall(0, n, [=](int64_t j) { return vc::forall(0, n, [=](int64_t l) { return j == l || !Live(j) || !Live(l) || Rank(j) != Rank(l); }); }));
  if (Has) vc_assume(H < n && Live(H) && Rank(H) == s); else vc_assume(vc::forall(0, n, [=](int64_t j) { return !Live(j) || Rank(j) != s; }));
  int64_t g = vc::any_i64("g", 0, 1 << 20); vc_assume(g < n && Live(g)); int64_t gt = TimeOf(g), gn = P(g).ranges.n_; auto* gd = P(g).ranges.d_;
  Out r = C->AddRangeData(*id, std::move(*d));
  int64_t e = q.cap_ - 1; bool out = Has || n0 + 1 == EXPECTED;
  vc_assert(CALLS == (out ? 1 : 0), "data comes out exactly when a sensor repeats or all sensors have data");
  vc_assert(out ? r.origins.n_ == MARK && r.time.time_since_epoch().count() == End() : r.ranges.n_ == 0 && r.origins.n_ == 0, "the merged data is returned, or nothing");
  vc_assert(out || (Start() == start0 && End() == END0), "the interval moves only then");
  vc_assert(q.cap_ == n + 1 && Rank(e) == s && TimeOf(e) == tm && P(e).ranges.d_ == rd && P(e).ranges.n_ == np && P(e).intensities.n_ == np, "the message is kept");
  vc_assert(Live(e) || (!Has && out), "until it is emitted");
  vc_assert(k >= np || P(e).intensities.d_[k] == (k < given ? ik : 0.f), "missing intensities are zero");
  vc_assert(out || (Live(g) && TimeOf(g) == gt && P(g).ranges.n_ == gn && P(g).ranges.d_ == gd), "pending messages stay otherwise");
}
