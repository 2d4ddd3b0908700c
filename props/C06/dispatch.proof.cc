// Dispatch: merge-sorted, first in first out, to the own callback, as far as possible.
#define VC_MAP
#include "vc_begin.h"
#include "cartographer/sensor/internal/ordered_multi_queue.h"
#include "cartographer/sensor/internal/ordered_multi_queue.cc"
using namespace cartographer::sensor;
using cartographer::common::Time;
// strings by identity (kept in the length field); keys by an order preserving injection
static int64_t& Id(const std::string& s) { return const_cast<int64_t*>(reinterpret_cast<const int64_t*>(&s))[1]; }
extern "C" void vc_stub_str0(std::string* s) { Id(*s) = 0; }
extern "C" void vc_stub_strcopy(std::string* s, const std::string& o) { Id(*s) = Id(o); }
extern "C" std::string& vc_stub_strassign(std::string* s, const std::string& o) { Id(*s) = Id(o); return *s; }
extern "C" void vc_stub_nop(void*) {}
namespace vc { template <> struct order<QueueKey> { static int64_t rank(const QueueKey& k) { return vcx_uf2("keyrank", k.trajectory_id, Id(k.sensor_id)); } }; }
typedef OrderedMultiQueue MQ; typedef MQ::Queue Queue; typedef std::vc_deque<std::vc_unique_ptr<Data>> Deque;
// the time of a datum (virtual GetTime of an arbitrary subclass)
static int64_t TimeOf(const Data* d) { return reinterpret_cast<const int64_t*>(d)[2]; }
extern "C" int64_t vc_stub_time(const Data* d) { return TimeOf(d); }
static int64_t Ticks(Time t) { return t.time_since_epoch().count(); }
static MQ* M;
static std::pair<const QueueKey, Queue>* E() { return M->queues_.e_; }
static bool Live(int64_t q) { return M->queues_.live_[q]; }
static int64_t N() { return M->queues_.cap_; }
static Deque& DQ(int64_t q) { return M->queues_.e_[q].second.queue.deque_; }
static int64_t T(int64_t q, int64_t i) { return TimeOf(DQ(q).d_[i].p_); }
static bool Fin(int64_t q) { return M->queues_.e_[q].second.finished; }
static int64_t Start(int64_t traj) { return vcx_uf1("start", traj); }   // GetCommonStartTime, start.proof.cc
// representation invariant: sorted queues, nothing older than what was dispatched
static bool Inv() {
  int64_t n = N(), last = Ticks(M->last_dispatched_time_);
  return vc::forall(0, n, [=](int64_t q) { return !Live(q) || (DQ(q).b_ <= DQ(q).e_ && DQ(q).b_ >= 0 && DQ(q).e_ < (int64_t{1} << 60)); }) &&
         vc::forall(0, n, [=](int64_t q) { return !Live(q) || vc::forall(DQ(q).b_, DQ(q).e_, [=](int64_t i) { return DQ(q).d_[i].p_ != nullptr && T(q, i) >= last; }); }) &&
         vc::forall(0, n, [=](int64_t q) { return !Live(q) || vc::forall(DQ(q).b_, DQ(q).e_, [=](int64_t i) { return vc::forall(i, DQ(q).e_, [=](int64_t j) { return T(q, i) <= T(q, j); }); }); });
}
static bool Keys() { int64_t n = N(); return vc::forall(0, n, [=](int64_t q) { return vc::forall(0, n, [=](int64_t p) { return p == q || !Live(p) || !Live(q) || (M->queues_.rank_(p) != M->queues_.rank_(q) && DQ(p).d_ != DQ(q).d_); }); }); }
// ghost: one arbitrary datum (queue Q0, position I0 in it)
static int64_t Q0, I0, DISP, B0, E0, LT, BLOCKED, GONE; static int64_t TT;
static bool Ghost() {   // where the ghost datum is
  int64_t b = DQ(Q0).b_;
  if (!(b >= B0 && DQ(Q0).e_ == E0 && DISP >= 0 && DISP <= 1)) return false;
  if (!Live(Q0) && b != E0) return false;
  if (b <= I0) return DISP == 0 && DQ(Q0).d_[I0].p_ != nullptr && T(Q0, I0) == TT;
  // taken: dispatched, or dropped as one of several from before the common start
  return DISP == 1 || (TT < Start(E()[Q0].first.trajectory_id) && I0 + 1 < E0);
}
extern "C" void vc_stub_call(const std::vc_function<void(std::vc_unique_ptr<Data>)>* f, std::vc_unique_ptr<Data>* d) {
  int64_t t = TimeOf(d->p_), n = N();
  vc_assert(t >= LT, "dispatched in the order of time");
  vc_assert(t == Ticks(M->last_dispatched_time_), "the last dispatched time is remembered");
  LT = t;
  vc_assert(vc::forall(0, n, [=](int64_t q) { return !Live(q) || DQ(q).b_ == DQ(q).e_ || T(q, DQ(q).b_) >= t; }), "nothing older is waiting");
  vc_assert(vc::forall(0, n, [=](int64_t q) { return !Live(q) || DQ(q).b_ < DQ(q).e_ || f == &E()[q].second.callback; }), "every other queue has data");
  if (f == &E()[Q0].second.callback) {
    vc_assert(Live(Q0) && DQ(Q0).b_ > B0, "the callback of a queue gets data taken from it");
    if (DQ(Q0).b_ == I0 + 1) { vc_assert(t == TT && DISP == 0, "first in, first out"); ++DISP; }
  }
}
extern "C" int64_t vc_stub_start(MQ* m, int traj) {
  int64_t n = N();
  vc_assert(m == M && vc::forall(0, n, [=](int64_t q) { return !Live(q) || DQ(q).b_ < DQ(q).e_; }), "the start is determined when every queue has data");
  return Start(traj);
}
extern "C" void vc_stub_blocked(MQ* m, const QueueKey& k) {
  int64_t n = N(); auto* kp = &k;
  vc_assert(vc::exists(0, n, [=](int64_t q) { return Live(q) && kp->trajectory_id == E()[q].first.trajectory_id && Id(kp->sensor_id) == Id(E()[q].first.sensor_id) && !Fin(q) && (DQ(q).b_ == DQ(q).e_ || (DQ(q).e_ - DQ(q).b_ < 2 && T(q, DQ(q).b_) < Start(E()[q].first.trajectory_id))); }), "blocked by an unfinished queue that needs data");
  BLOCKED = 1;
}
VC_INV(rounds) { return Inv() && Keys() && Ghost() && LT == Ticks(M->last_dispatched_time_) && BLOCKED == 0; }
VC_INV(scan) {
  if (!(Inv() && Keys() && Ghost() && LT == Ticks(M->last_dispatched_time_) && BLOCKED == 0)) return false;
  auto& it = vc::local<std::vc_map<QueueKey, Queue>::iterator>("it", "");
  const Data* nd = vc::local<const Data*>("next_data", ""); Queue* nq = vc::local<Queue*>("next_queue", ""); QueueKey* nk = &vc::local<QueueKey>("next_queue_key", "");
  int64_t n = N(), i = it.i_;
  if (!(it.m_ == &M->queues_ && i >= -1 && i < n && (i < 0 || Live(i)))) return false;
  bool some = nd != nullptr; int64_t t = some ? TimeOf(nd) : 0;
  // visited: nodes before 'it'
  if (!vc::forall(0, n, [=](int64_t q) { return !Live(q) || (i >= 0 && M->queues_.rank_(q) >= M->queues_.rank_(i)) || (some && DQ(q).b_ < DQ(q).e_ && T(q, DQ(q).b_) >= t); })) return false;
  return !some || vc::exists(0, n, [=](int64_t q) { return Live(q) && (i < 0 || M->queues_.rank_(q) < M->queues_.rank_(i)) && DQ(q).b_ < DQ(q).e_ && nq == &E()[q].second && nd == DQ(q).d_[DQ(q).b_].p_ && nk->trajectory_id == E()[q].first.trajectory_id && Id(nk->sensor_id) == Id(E()[q].first.sensor_id); });
}
VC_HARNESS(dispatch) {
  M = vc::any_obj<MQ>("mq"); auto& q = M->queues_;
  q.e_ = static_cast<std::pair<const QueueKey, Queue>*>(vcx_alloc(sizeof(std::pair<const QueueKey, Queue>), "queues")); q.live_ = static_cast<bool*>(vcx_alloc(1, "live")); q.cap_ = vc::any_i64("nodes", 0, 1 << 20); q.n_ = vc::any_i64("size", 0, 1 << 20);
  vcx_array_of(q.e_[0].second.queue.deque_.d_, 8);
  vc_assume(Inv() && Keys());
  Q0 = vc::any_i64("q0", 0, 1 << 20); I0 = vc::any_i64("i0", 0, int64_t{1} << 60); vc_assume(Q0 < N() && Live(Q0) && I0 >= DQ(Q0).b_ && I0 < DQ(Q0).e_);
  B0 = DQ(Q0).b_; E0 = DQ(Q0).e_; TT = T(Q0, I0); DISP = 0; BLOCKED = 0; LT = Ticks(M->last_dispatched_time_);
  M->Dispatch();
  vc_assert(Inv(), "queues stay sorted and newer than everything dispatched");
  vc_assert(Ghost(), "every datum is still queued, was dispatched once, or was dropped before the common start");
  int64_t n = N();
  vc_assert(BLOCKED == 1 || vc::forall(0, n, [=](int64_t p) { return !Live(p); }), "ends blocked or with all queues done");
}
