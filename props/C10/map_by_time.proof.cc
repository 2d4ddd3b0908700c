// MapByTime: strictly increasing times per trajectory, trimming of a gap.
#define VC_MAP
#include "vc_begin.h"
#include "cartographer/sensor/map_by_time.h"
using namespace cartographer; using mapping::NodeId; using common::Time;
namespace vc { template <> struct order<Time> { static int64_t rank(const Time& t) { return t.time_since_epoch().count(); } }; }
struct Datum { Time time; int64_t v; };
struct Node { Time time; };
typedef sensor::MapByTime<Datum> C; typedef std::vc_map<Time, Datum> Data; typedef std::vc_map<int, Data> Trajs;
typedef mapping::MapById<NodeId, Node> Nodes; typedef std::vc_map<int, Nodes::MapByIndex> NTrajs; typedef std::vc_map<int, Node> NData;
static C* M; static Nodes* N;
static const int64_t kMax = 2147483647;
static Time At(int64_t t) { return Time(common::Duration(t)); }
static Trajs& TS() { return M->data_; }
static int64_t TKey(int64_t t) { return TS().e_[t].first; }
static Data& DS(int64_t t) { return TS().e_[t].second; }
static int64_t TimeOf(int64_t t, int64_t d) { return DS(t).e_[d].first.time_since_epoch().count(); }
static bool Inv() {
  int64_t n = TS().cap_;
  return vc::forall(0, n, [=](int64_t t) { return !TS().live_[t] || (TKey(t) >= 0 && DS(t).cap_ >= 0 && DS(t).cap_ < (1 << 28) && DS(t).n_ >= 1); }) &&
         vc::forall(0, n, [=](int64_t t) { return vc::forall(0, n, [=](int64_t u) { return t == u || !TS().live_[t] || !TS().live_[u] || (TKey(t) != TKey(u) && DS(t).e_ != DS(u).e_ && DS(t).live_ != DS(u).live_); }); }) &&
         vc::forall(0, n, [=](int64_t t) { return !TS().live_[t] || vc::exists(0, DS(t).cap_, [=](int64_t d) { return DS(t).live_[d]; }); }) &&
         vc::forall(0, n, [=](int64_t t) { return !TS().live_[t] || vc::forall(0, DS(t).cap_, [=](int64_t d) { return !DS(t).live_[d] || vc::forall(0, DS(t).cap_, [=](int64_t f) { return d == f || !DS(t).live_[f] || TimeOf(t, d) != TimeOf(t, f); }); }); });
}
static int64_t T0, D0, GT, GI, GV;   // ghost: one arbitrary datum
static bool Here() { return TS().live_[T0] && TKey(T0) == GT && D0 < DS(T0).cap_ && DS(T0).live_[D0] && TimeOf(T0, D0) == GI && DS(T0).e_[D0].second.v == GV; }
static void Any() {
  M = vc::any_obj<C>("map"); auto& s = TS();
  s.e_ = static_cast<Trajs::value_type*>(vcx_alloc(sizeof(Trajs::value_type), "trajs")); s.live_ = static_cast<bool*>(vcx_alloc(1, "tlive")); s.cap_ = vc::any_i64("trajectories", 0, 1 << 20); s.n_ = vc::any_i64("size", 0, 1 << 20);
  vcx_array_of(DS(0).e_, sizeof(Data::value_type)); vcx_array_of(DS(0).live_, 1);
  vc_assume(Inv());
  T0 = vc::any_i64("t0", 0, 1 << 20); D0 = vc::any_i64("d0", 0, 1 << 28);
  vc_assume(T0 < s.cap_ && s.live_[T0] && D0 < DS(T0).cap_ && DS(T0).live_[D0]); GT = TKey(T0); GI = TimeOf(T0, D0); GV = DS(T0).e_[D0].second.v; vc_assume(Here());
}
VC_HARNESS(append) {
  Any(); int64_t tr = vc::any_int("trajectory", 0, kMax), x = vc::any_i64("time"), n = TS().cap_, tn = vc::any_i64("tn", 0, 1 << 20); bool has = vc::any_bool("has");
  if (has) { vc_assume(tn < n && TS().live_[tn] && TKey(tn) == tr); int64_t t = tn; vc_assume(vc::forall(0, DS(t).cap_, [=](int64_t e) { return !DS(t).live_[e] || TimeOf(t, e) < x; })); }
  else vc_assume(vc::forall(0, n, [=](int64_t t) { return !TS().live_[t] || TKey(t) != tr; }));
  Datum d; d.time = At(x); d.v = vc::any_i64("v");
  M->Append(tr, d);
  int64_t t = has ? tn : n, e = DS(t).cap_ - 1;
  vc_assert(Here(), "nothing else changes");
  vc_assert(TS().live_[t] && TKey(t) == tr && DS(t).live_[e] && TimeOf(t, e) == x && DS(t).e_[e].second.v == d.v && DS(t).e_[e].second.time == d.time, "the datum is there");
  vc_assert(TS().cap_ == n + (has ? 0 : 1) && DS(t).n_ >= 1, "trajectories appear as needed");
}
VC_HARNESS(lookup) {
  Any(); int64_t tr = vc::any_int("trajectory", 0, kMax), x = vc::any_i64("time"); bool has = M->HasTrajectory(tr);
  int64_t n = TS().cap_;
  vc_assert(has == vc::exists(0, n, [=](int64_t t) { return TS().live_[t] && TKey(t) == tr; }), "trajectories with data");
  auto it = M->lower_bound(GT, At(x)); auto b = M->BeginOfTrajectory(GT), e = M->EndOfTrajectory(GT);
  vc_assert(e.iterator_.i_ < 0 && b.iterator_.i_ >= 0 && TimeOf(T0, b.iterator_.i_) <= GI, "from the first to past the last");
  if (it == e) vc_assert(GI < x, "all data are earlier");
  else { vc_assert(it.iterator_.m_ == &DS(T0) && it->time == it->time && TimeOf(T0, it.iterator_.i_) >= x && (GI < x || TimeOf(T0, it.iterator_.i_) <= GI), "the first datum not before the time"); }
}
VC_HARNESS(iterate) {
  Any(); int64_t d = vc::any_i64("d", 0, 1 << 28); vc_assume(d < DS(T0).cap_ && DS(T0).live_[d]); int64_t x = TimeOf(T0, d);
  C::ConstIterator it(Data::const_iterator(&DS(T0), d)); vc_assert(&*it == &DS(T0).e_[d].second && it.operator->() == &DS(T0).e_[d].second, "dereference");
  C::ConstIterator jt = it; ++jt;
  if (jt == M->EndOfTrajectory(GT)) vc_assert(GI <= x, "past the last");
  else { int64_t y = TimeOf(T0, jt.iterator_.i_); vc_assert(y > x && !(GI > x && GI < y), "the next datum"); }
  if (GI < x) { --it; int64_t y = TimeOf(T0, it.iterator_.i_); vc_assert(y < x && !(GI > y && GI < x), "the previous datum"); }
}
VC_HARNESS(trajectories) {
  Any(); int64_t t = vc::any_i64("t", 0, 1 << 20); vc_assume(t < TS().cap_ && TS().live_[t]);
  C::ConstTrajectoryIterator it(Trajs::const_iterator(&TS(), t)); vc_assert(*it == TKey(t), "dereference");
  C::ConstTrajectoryIterator jt = it; ++jt; auto r = M->trajectory_ids();
  vc_assert(*r.begin() <= GT, "begins with the first trajectory");
  if (jt == r.end()) vc_assert(GT <= TKey(t), "past the last");
  else vc_assert(*jt > TKey(t) && !(GT > TKey(t) && GT < *jt), "the next trajectory");
  if (GT < TKey(t)) { --it; vc_assert(*it < TKey(t) && !(GT > *it && GT < TKey(t)), "the previous trajectory"); }
}
// ---- Trim
static NTrajs& NT() { return N->trajectories_; }
static int64_t NTKey(int64_t t) { return NT().e_[t].first; }
static NData& ND(int64_t t) { return NT().e_[t].second.data_; }
static int64_t NKey(int64_t t, int64_t d) { return ND(t).e_[d].first; }
static int64_t NTime(int64_t t, int64_t d) { return ND(t).e_[d].second.time.time_since_epoch().count(); }
// Contracts of MapById's iterators (proved in C09), around one node ND0 of the
// trajectory NT0 with neighbours NP and NQ in it; past the trajectory: (ET, ED).
static int64_t NT0, ND0, NP, NQ, NB, ET, ED; static bool First, Last;
typedef Nodes::ConstIterator NIt; static NIt* Mk;
static NIt Pos(int64_t t, int64_t d) {
  Mk->current_trajectory_ = NTrajs::const_iterator(N ? &NT() : nullptr, t); Mk->end_trajectory_ = NTrajs::const_iterator(&NT(), -1);
  Mk->current_data_ = NData::const_iterator(t < 0 ? nullptr : &ND(t), t < 0 ? -1 : d); return *Mk;
}
extern "C" NIt vc_stub_find(const Nodes* n, const NodeId& id) {
  vc_assert(n == N && id.trajectory_id == NTKey(NT0) && id.node_index == NKey(NT0, ND0), "the trimmed node is looked up");
  return Pos(NT0, ND0);
}
extern "C" NIt vc_stub_begin(const Nodes* n, int tr) { vc_assert(tr == NTKey(NT0), "its trajectory"); return Pos(NT0, NB); }
extern "C" NIt vc_stub_none(const Nodes* n) { return Pos(-1, 0); }
extern "C" NIt vc_stub_end(const Nodes* n, int tr) { vc_assert(tr == NTKey(NT0), "its trajectory"); return Pos(ET, ED); }
extern "C" NIt& vc_stub_inc(NIt* i) { vc_assert(i->current_trajectory_.i_ == NT0 && i->current_data_.i_ == ND0, "the next node"); *i = Last ? Pos(ET, ED) : Pos(NT0, NQ); return *i; }
extern "C" NIt& vc_stub_dec(NIt* i) { vc_assert(i->current_trajectory_.i_ == NT0 && i->current_data_.i_ == ND0 && !First, "the previous node of the trajectory"); *i = Pos(NT0, NP); return *i; }
static int64_t DT, GS, GE, LO; static bool S0;   // trajectory trimmed, gap, first time removed
VC_INV(erasing) {
  auto& a = vc::local<Data::iterator>("data_it", ""); auto& b = vc::local<Data::iterator>("data_end", "");
  Data* m = &DS(DT); int64_t i = a.i_, k = b.i_;
  if (!(a.m_ == m && b.m_ == m && i >= -1 && i < m->cap_ && k >= -1 && k < m->cap_ && m->n_ >= 0)) return false;
  if (k >= 0 && !(m->live_[k] && i >= 0 && (i == k || TimeOf(DT, i) < TimeOf(DT, k)))) return false;
  if (i >= 0 && !(m->live_[i])) return false;
  if (i >= 0 && TimeOf(DT, i) < LO) return false;
  if (T0 != DT) return DS(T0).live_[D0];
  if (i >= 0 && GI == TimeOf(DT, i) && i != D0) return false;
  return DS(T0).live_[D0] == (GI < LO || (i >= 0 && GI >= TimeOf(DT, i)));
}
VC_HARNESS(trim) {
  Any(); N = vc::any_obj<Nodes>("nodes"); auto& s = NT();
  s.e_ = static_cast<NTrajs::value_type*>(vcx_alloc(sizeof(NTrajs::value_type), "ntrajs")); s.live_ = static_cast<bool*>(vcx_alloc(1, "nlive")); s.cap_ = vc::any_i64("ntrajectories", 0, 1 << 20); s.n_ = vc::any_i64("nsize", 0, 1 << 20);
  vcx_array_of(ND(0).e_, sizeof(NData::value_type)); vcx_array_of(ND(0).live_, 1);
  Mk = vc::any_obj<NIt>("iterator"); First = vc::any_bool("first"); Last = vc::any_bool("last");
  NT0 = vc::any_i64("nt", 0, 1 << 20), ND0 = vc::any_i64("nd", 0, 1 << 28); NP = vc::any_i64("p", 0, 1 << 28), NQ = vc::any_i64("q", 0, 1 << 28); NB = vc::any_i64("b", 0, 1 << 28); ET = vc::any_i64("et", -1, 1 << 20); ED = vc::any_i64("ed", 0, 1 << 28);
  vc_assume(NTKey(NT0) >= 0 && ET != NT0 && (NB == ND0) == First && (First || NP != ND0) && (Last || (NQ != ND0 && (First || NP != NQ))));
  int64_t tr = NTKey(NT0), ix = NKey(NT0, ND0); bool first = First, last = Last; int64_t c;
  vc_assume(NTime(NT0, ND0) > INT64_MIN && NTime(NT0, ND0) < INT64_MAX && (First || (NTime(NT0, NP) > INT64_MIN && NTime(NT0, NP) < NTime(NT0, ND0))) && (Last || (NTime(NT0, NQ) < INT64_MAX && NTime(NT0, NQ) > NTime(NT0, ND0))));
  GS = first ? INT64_MIN : NTime(NT0, NP); GE = last ? INT64_MAX : NTime(NT0, NQ);
  bool has = vc::any_bool("has data"); int64_t n = TS().cap_; DT = vc::any_i64("dt", 0, 1 << 20);
  if (has) vc_assume(DT < n && TS().live_[DT] && TKey(DT) == tr); else vc_assume(vc::forall(0, n, [=](int64_t t) { return !TS().live_[t] || TKey(t) != tr; }));
  bool earlier = false, later = false; LO = INT64_MIN;
  if (has) {
    int64_t t = DT, a = GS, b = GE, x = GI, f = vc::any_i64("f", 0, 1 << 28); c = DS(t).cap_;
    earlier = vc::exists(0, c, [=](int64_t d) { return DS(t).live_[d] && TimeOf(t, d) >= a && TimeOf(t, d) < x; });
    later = vc::exists(0, c, [=](int64_t d) { return DS(t).live_[d] && TimeOf(t, d) <= b && TimeOf(t, d) > x; });
    if (!first) {   // the first datum in the gap
      if (vc::any_bool("some")) { vc_assume(f < c && DS(t).live_[f] && TimeOf(t, f) >= a); int64_t y = TimeOf(t, f); vc_assume(vc::forall(0, c, [=](int64_t d) { return !DS(t).live_[d] || TimeOf(t, d) < a || TimeOf(t, d) >= y; })); LO = y + 1; }
      else vc_assume(vc::forall(0, c, [=](int64_t d) { return !DS(t).live_[d] || TimeOf(t, d) < a; }));
    }
  }
  M->Trim(*N, NodeId(tr, ix));
  vc_assert(TS().cap_ == n, "no trajectory is created");
  if (has) { int64_t t = DT; vc_assert(TS().live_[t] == !vc::forall(0, DS(t).cap_, [=](int64_t d) { return !DS(t).live_[d]; }), "a trajectory is dropped with its last datum"); }
  if (GT != tr) { vc_assert(Here(), "other trajectories are left alone"); return; }
  bool removed = GI >= GS && GI <= GE && (first || earlier) && (last || later);
  vc_assert(removed || Here(), "data outside the gap, and its first and last, are kept");
  vc_assert(!removed || !DS(T0).live_[D0], "other data in the gap are removed");
}
