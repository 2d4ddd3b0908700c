// MapById as an ordered map from (trajectory, index).
#define VC_MAP
#include "vc_begin.h"
#include "cartographer/mapping/id.h"
using namespace cartographer::mapping;
using cartographer::common::Time;
struct Datum { Time time; int64_t v; };
typedef MapById<NodeId, Datum> C; typedef std::vc_map<int, C::MapByIndex> Trajs; typedef std::vc_map<int, Datum> Data;
static C* M;
static Trajs& TS() { return M->trajectories_; }
static Data& DS(int64_t t) { return M->trajectories_.e_[t].second.data_; }
static int64_t TKey(int64_t t) { return M->trajectories_.e_[t].first; }
static int64_t DKey(int64_t t, int64_t d) { return DS(t).e_[d].first; }
static int64_t TimeOf(int64_t t, int64_t d) { return DS(t).e_[d].second.time.time_since_epoch().count(); }
static const int64_t kMax = 2147483647;
// representation invariant: distinct keys, no empty trajectories
static bool Inv() {
  int64_t n = TS().cap_;
  return vc::forall(0, n, [=](int64_t t) { return !TS().live_[t] || (TKey(t) >= 0 && TKey(t) < kMax && DS(t).cap_ >= 0 && DS(t).cap_ < (1 << 28) && DS(t).n_ >= 1); }) &&
         vc::forall(0, n, [=](int64_t t) { return vc::forall(0, n, [=](int64_t u) { return t == u || !TS().live_[t] || !TS().live_[u] || (TKey(t) != TKey(u) && DS(t).e_ != DS(u).e_ && DS(t).live_ != DS(u).live_); }); }) &&
         vc::forall(0, n, [=](int64_t t) { return !TS().live_[t] || vc::exists(0, DS(t).cap_, [=](int64_t d) { return DS(t).live_[d]; }); }) &&
         vc::forall(0, n, [=](int64_t t) { return !TS().live_[t] || vc::forall(0, DS(t).cap_, [=](int64_t d) { return !DS(t).live_[d] || (DKey(t, d) >= 0 && vc::forall(0, DS(t).cap_, [=](int64_t f) { return d == f || !DS(t).live_[f] || DKey(t, d) != DKey(t, f); })); }); });
}
// ghost: one arbitrary element
static int64_t T0, D0, GT, GI, GV;
static bool Here() { return TS().live_[T0] && TKey(T0) == GT && D0 < DS(T0).cap_ && DS(T0).live_[D0] && DKey(T0, D0) == GI && DS(T0).e_[D0].second.v == GV; }
static bool In(int64_t tr, int64_t ix) {   // is there an element (tr, ix)
  int64_t n = TS().cap_;
  return vc::exists(0, n, [=](int64_t t) { return TS().live_[t] && TKey(t) == tr && vc::exists(0, DS(t).cap_, [=](int64_t d) { return DS(t).live_[d] && DKey(t, d) == ix; }); });
}
static void Any(bool ghost) {
  M = vc::any_obj<C>("map"); auto& s = TS();
  s.e_ = static_cast<Trajs::value_type*>(vcx_alloc(sizeof(Trajs::value_type), "trajs")); s.live_ = static_cast<bool*>(vcx_alloc(1, "tlive")); s.cap_ = vc::any_i64("trajectories", 0, 1 << 20); s.n_ = vc::any_i64("size", 0, 1 << 20);
  vcx_array_of(DS(0).e_, sizeof(Data::value_type)); vcx_array_of(DS(0).live_, 1);
  vc_assume(Inv());
  T0 = vc::any_i64("t0", 0, 1 << 20); D0 = vc::any_i64("d0", 0, 1 << 28); GT = GI = GV = 0;
  if (ghost) { vc_assume(T0 < s.cap_ && s.live_[T0] && D0 < DS(T0).cap_ && DS(T0).live_[D0]); GT = TKey(T0); GI = DKey(T0, D0); GV = DS(T0).e_[D0].second.v; vc_assume(Here()); }
}
static bool Less(int64_t t, int64_t i, int64_t u, int64_t k) { return t < u || (t == u && i < k); }
// ---- Append
VC_HARNESS(append) {
  Any(true); int64_t tr = vc::any_int("trajectory", 0, kMax - 1); Datum d; d.v = vc::any_i64("v");
  bool has = vc::any_bool("has"); int64_t n = TS().cap_;
  int64_t tn = vc::any_i64("tn", 0, 1 << 20), top = vc::any_i64("top", 0, kMax - 1);
  if (has) { vc_assume(tn < n && TS().live_[tn] && TKey(tn) == tr && TS().e_[tn].second.can_append_); int64_t t = tn; vc_assume(vc::exists(0, DS(t).cap_, [=](int64_t e) { return DS(t).live_[e] && DKey(t, e) == top; }) && vc::forall(0, DS(t).cap_, [=](int64_t e) { return !DS(t).live_[e] || DKey(t, e) <= top; })); }
  else vc_assume(vc::forall(0, n, [=](int64_t t) { return !TS().live_[t] || TKey(t) != tr; }));
  NodeId id = M->Append(tr, d);
  vc_assert(id.trajectory_id == tr && id.node_index == (has ? top + 1 : 0), "the index after the last one, or zero");
  vc_assert(Here(), "nothing else changes");
  int64_t t = has ? tn : n, e = DS(t).cap_ - 1;
  vc_assert(TS().live_[t] && TKey(t) == tr && DS(t).live_[e] && DKey(t, e) == id.node_index && DS(t).e_[e].second.v == d.v, "the element is there");
  vc_assert(TS().cap_ == n + (has ? 0 : 1) && DS(t).n_ >= 1, "trajectories appear as needed");
}
VC_HARNESS(insert) {
  Any(true); int64_t tr = vc::any_int("trajectory", 0, kMax - 1), ix = vc::any_int("index", 0, kMax); Datum d; d.v = vc::any_i64("v"); int64_t n = TS().cap_, tn = vc::any_i64("tn", 0, 1 << 20); bool has = vc::any_bool("has");
  if (has) { vc_assume(tn < n && TS().live_[tn] && TKey(tn) == tr); int64_t t = tn; vc_assume(vc::forall(0, DS(t).cap_, [=](int64_t e) { return !DS(t).live_[e] || DKey(t, e) != ix; })); }
  else vc_assume(vc::forall(0, n, [=](int64_t t) { return !TS().live_[t] || TKey(t) != tr; }));
  M->Insert(NodeId(tr, ix), d);
  int64_t t = has ? tn : n, e = DS(t).cap_ - 1;
  vc_assert(Here(), "nothing else changes");
  vc_assert(TS().live_[t] && TKey(t) == tr && DS(t).live_[e] && DKey(t, e) == ix && DS(t).e_[e].second.v == d.v, "the element is there");
  vc_assert(!TS().e_[t].second.can_append_, "no more appending: indices have gaps");
}
VC_HARNESS(trim) {
  Any(true); int64_t tn = vc::any_i64("tn", 0, 1 << 20), dn = vc::any_i64("dn", 0, 1 << 28), n = TS().cap_; vc_assume(tn < n && TS().live_[tn] && dn < DS(tn).cap_ && DS(tn).live_[dn]);
  int64_t t = tn, tr = TKey(tn), ix = DKey(tn, dn); bool last = vc::forall(0, DS(t).cap_, [=](int64_t e) { return !DS(t).live_[e] || DKey(t, e) <= ix; });
  bool only = vc::forall(0, DS(t).cap_, [=](int64_t e) { return !DS(t).live_[e] || e == dn; }), can = TS().e_[tn].second.can_append_;
  M->Trim(NodeId(tr, ix));
  vc_assert((T0 == tn && D0 == dn) || Here(), "every other element stays");
  vc_assert(TS().cap_ == n && !(TS().live_[tn] && DS(tn).live_[dn]), "the element is gone");
  vc_assert(TS().live_[tn] == !only, "a trajectory is dropped with its last element");
  if (TS().live_[tn]) vc_assert(TS().e_[tn].second.can_append_ == (can && !last), "no more appending once the newest is trimmed");
}
VC_HARNESS(lookup) {
  Any(true); int64_t tr = vc::any_int("trajectory", 0, kMax - 1), ix = vc::any_int("index", 0, kMax);
  vc_assert(M->Contains(NodeId(GT, GI)) && M->at(NodeId(GT, GI)).v == GV, "elements are found by their id");
  auto f = M->find(NodeId(GT, GI));
  vc_assert(f.current_trajectory_.i_ == T0 && f.current_data_.i_ == D0 && !(f.current_trajectory_ == f.end_trajectory_), "find");
  bool c = M->Contains(NodeId(tr, ix));
  if (tr == GT && ix == GI) vc_assert(c, "contains");
  auto g = M->find(NodeId(tr, ix));
  vc_assert((g.current_trajectory_.i_ >= 0) == c, "found exactly if contained");
  if (c) { auto r = *g; vc_assert(r.id.trajectory_id == tr && r.id.node_index == ix, "under the id asked for"); }
  else vc_assert(!(tr == GT && ix == GI), "only what is missing is not found");
}
// ---- iteration: successor and predecessor in the order of ids
static void Valid(const C::ConstIterator& it) {
  int64_t t = it.current_trajectory_.i_, d = it.current_data_.i_;
  if (t >= 0) vc_assert(t < TS().cap_ && TS().live_[t] && it.current_data_.m_ == &DS(t) && d >= 0 && d < DS(t).cap_ && DS(t).live_[d], "iterators point to elements");
}
static C::ConstIterator Iter(const char* a, const char* b) {
  int64_t t = vc::any_i64(a, 0, 1 << 20), d = vc::any_i64(b, 0, 1 << 28); vc_assume(t < TS().cap_ && TS().live_[t] && d < DS(t).cap_ && DS(t).live_[d]);
  C::ConstIterator it(*M, NodeId(TKey(t), DKey(t, d)));
  vc_assert(it.current_trajectory_.i_ == t && it.current_data_.i_ == d, "the iterator of an element");
  return it;
}
static int64_t TK(const C::ConstIterator& i) { return TKey(i.current_trajectory_.i_); }
static int64_t DK(const C::ConstIterator& i) { return DKey(i.current_trajectory_.i_, i.current_data_.i_); }
VC_HARNESS(next) {
  Any(true); auto it = Iter("t", "d"); int64_t a = TK(it), b = DK(it);
  ++it; Valid(it);
  if (it.current_trajectory_.i_ < 0) { vc_assert(!Less(a, b, GT, GI), "the end comes after the last element"); return; }
  int64_t c = TK(it), d = DK(it);
  vc_assert(Less(a, b, c, d), "ids increase");
  vc_assert(!(Less(a, b, GT, GI) && Less(GT, GI, c, d)), "no element is skipped");
}
VC_HARNESS(first) {
  Any(true); int64_t tr = vc::any_int("trajectory", 0, kMax);
  auto it = M->BeginOfTrajectory(tr); Valid(it);
  if (it.current_trajectory_.i_ < 0) vc_assert(GT < tr, "no element of this or a later trajectory");
  else { vc_assert(TK(it) >= tr, "not before the trajectory"); vc_assert(GT < tr || !Less(GT, GI, TK(it), DK(it)), "the first one"); }
}
VC_HARNESS(begin) {
  Any(true); auto it = M->begin(); Valid(it);
  vc_assert(it.current_trajectory_.i_ >= 0 && !Less(GT, GI, TK(it), DK(it)), "begin is the first element");
  vc_assert(M->end().current_trajectory_.i_ < 0, "end is past all elements");
}
VC_HARNESS(prev) {
  Any(true); bool end = vc::any_bool("from the end"); auto it = end ? M->end() : Iter("t", "d");
  int64_t a = end ? kMax : TK(it), b = end ? 0 : DK(it); vc_assume(Less(GT, GI, a, b));
  --it; Valid(it);
  vc_assert(it.current_trajectory_.i_ >= 0, "there is an element before");
  int64_t c = TK(it), d = DK(it);
  vc_assert(Less(c, d, a, b), "ids decrease");
  vc_assert(!(Less(c, d, GT, GI) && Less(GT, GI, a, b)), "no element is skipped");
}
// ---- lower_bound by time
static int64_t LT, TM;   // trajectory node, time
VC_INV(search) {
  auto& l = vc::local<Data::const_iterator>("left", ""); auto& r = vc::local<Data::const_iterator>("right", "");
  Data* m = &DS(LT); int64_t a = l.i_, b = r.i_;
  if (!(l.m_ == m && r.m_ == m && a >= 0 && a < m->cap_ && m->live_[a] && b >= 0 && b < m->cap_ && m->live_[b] && DKey(LT, a) <= DKey(LT, b) && TimeOf(LT, b) >= TM)) return false;
  int64_t n = m->cap_;
  return vc::forall(0, n, [=](int64_t d) { return !DS(LT).live_[d] || DKey(LT, d) >= DKey(LT, a) || TimeOf(LT, d) < TM; });
}
VC_HARNESS(by_time) {
  Any(true); bool has = vc::any_bool("has"); int64_t tr = vc::any_int("trajectory", 0, kMax - 1); TM = vc::any_i64("time"); LT = vc::any_i64("lt", 0, 1 << 20);
  if (has) {
    vc_assume(LT < TS().cap_ && TS().live_[LT] && TKey(LT) == tr); int64_t n = DS(LT).cap_;
    vc_assume(vc::forall(0, n, [=](int64_t d) { return vc::forall(0, n, [=](int64_t e) { return !DS(LT).live_[d] || !DS(LT).live_[e] || DKey(LT, d) > DKey(LT, e) || TimeOf(LT, d) <= TimeOf(LT, e); }); }));
  } else vc_assume(vc::forall(0, TS().cap_, [=](int64_t t) { return !TS().live_[t] || TKey(t) != tr; }));
  auto it = M->lower_bound(tr, Time(cartographer::common::Duration(TM))); Valid(it);
  if (it.current_trajectory_.i_ >= 0 && TK(it) == tr) {
    vc_assert(TimeOf(LT, it.current_data_.i_) >= TM, "not before the time");
    vc_assert(GT != tr || GI >= DK(it) || TimeOf(T0, D0) < TM, "the first such element");
  } else {
    vc_assert(GT != tr || TimeOf(T0, D0) < TM, "the end of the trajectory: all elements are earlier");
    auto e = M->EndOfTrajectory(tr); vc_assert(it == e, "the end of the trajectory");
  }
}
