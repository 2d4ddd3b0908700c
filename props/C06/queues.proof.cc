// Common start time, blocker, adding data and finishing queues.
#define VC_MAP
#include "vc_begin.h"
#include "cartographer/sensor/internal/ordered_multi_queue.h"
#include "cartographer/sensor/internal/ordered_multi_queue.cc"
using namespace cartographer::sensor;
using cartographer::common::Time;
// strings by identity (kept in the length field); keys by an order preserving injection
static int64_t& Id(const std::string& s) { return const_cast<int64_t*>(reinterpret_cast<const int64_t*>(&s))[1]; }
extern "C" void vc_stub_str0(std::string* s) { Id(*s) = 0; }
extern "C" void vc_stub_strcopy(std::string* s, const std::string& o) { Id(*s) = Id(o); }
extern "C" std::string& vc_stub_strassign(std::string* s, const std::string& o) { Id(*s) = Id(o); return *s; }
extern "C" void vc_stub_nop(void*) {}
namespace vc { template <> struct order<QueueKey> { static int64_t rank(const QueueKey& k) { return vcx_uf2("keyrank", k.trajectory_id, Id(k.sensor_id)); } }; }
typedef OrderedMultiQueue MQ; typedef MQ::Queue Queue; typedef std::vc_deque<std::vc_unique_ptr<Data>> Deque;
// the time of a datum (virtual GetTime of an arbitrary subclass)
static int64_t TimeOf(const Data* d) { return reinterpret_cast<const int64_t*>(d)[2]; }
extern "C" int64_t vc_stub_time(const Data* d) { return TimeOf(d); }
static int64_t Ticks(Time t) { return t.time_since_epoch().count(); }
static MQ* M;
static std::pair<const QueueKey, Queue>* E() { return M->queues_.e_; }
static bool Live(int64_t q) { return M->queues_.live_[q]; }
static int64_t N() { return M->queues_.cap_; }
static Deque& DQ(int64_t q) { return M->queues_.e_[q].second.queue.deque_; }
static int64_t T(int64_t q, int64_t i) { return TimeOf(DQ(q).d_[i].p_); }
static bool Fin(int64_t q) { return M->queues_.e_[q].second.finished; }
typedef std::vc_map<QueueKey, Queue> Map; typedef std::vc_map<int, Time> Starts;
static int64_t CALLS, Q0, TRAJ, KID, KTRAJ;
static Map::value_type* Nodes() { return static_cast<Map::value_type*>(vcx_alloc(sizeof(Map::value_type), "queues")); }
static void Any() {
  M = vc::any_obj<MQ>("mq"); auto& q = M->queues_; q.e_ = Nodes(); q.live_ = static_cast<bool*>(vcx_alloc(1, "live")); q.cap_ = vc::any_i64("nodes", 0, 1 << 20); q.n_ = vc::any_i64("size", 0, 1 << 20);
  vcx_array_of(q.e_[0].second.queue.deque_.d_, 8);
  int64_t n = N();
  vc_assume(vc::forall(0, n, [=](int64_t q) { return vc::forall(0, n, [=](int64_t p) { return p == q || !Live(p) || !Live(q) || M->queues_.rank_(p) != M->queues_.rank_(q); }); }));
  vc_assume(vc::forall(0, n, [=](int64_t q) { return DQ(q).b_ <= DQ(q).e_ && DQ(q).b_ >= 0 && DQ(q).e_ < (int64_t{1} << 60); }));
  Q0 = vc::any_i64("q0", 0, 1 << 20); CALLS = 0; vc_assume(Q0 < n && Live(Q0));
}
// ---- common start time: the latest first datum of the trajectory's queues, fixed once
static bool Mine(int64_t q) { return Live(q) && E()[q].first.trajectory_id == TRAJ; }
static int64_t Front(int64_t q) { return T(q, DQ(q).b_); }
VC_INV(latest) {
  auto& it = vc::local<Map::iterator>("~^__begin", ""); int64_t n = N(), i = it.i_;
  if (!(it.m_ == &M->queues_ && i >= -1 && i < n && (i < 0 || Live(i)))) return false;
  int64_t node = M->common_start_time_per_trajectory_.cap_ - 1, c = Ticks(M->common_start_time_per_trajectory_.e_[node].second);
  return vc::forall(0, n, [=](int64_t q) { return !Mine(q) || (i >= 0 && M->queues_.rank_(q) >= M->queues_.rank_(i)) || Front(q) <= c; }) &&
         (c == INT64_MIN || vc::exists(0, n, [=](int64_t q) { return Mine(q) && Front(q) == c; }));
}
VC_HARNESS(start) {
  Any(); int64_t n = N(); TRAJ = vc::any_int("trajectory", 0, 1 << 20);
  auto& s = M->common_start_time_per_trajectory_; s.e_ = static_cast<Starts::value_type*>(vcx_alloc(sizeof(Starts::value_type), "starts")); s.live_ = static_cast<bool*>(vcx_alloc(1, "slive")); s.cap_ = vc::any_i64("snodes", 0, 1 << 20); s.n_ = vc::any_i64("ssize", 0, 1 << 20);
  vc_assume(vc::forall(0, n, [=](int64_t q) { return !Live(q) || (DQ(q).b_ < DQ(q).e_ && DQ(q).d_[DQ(q).b_].p_ != nullptr && Front(q) > INT64_MIN); }));
  bool known = vc::any_bool("known"); int64_t k = vc::any_i64("node", 0, 1 << 20), before = s.cap_;
  if (known) { vc_assume(k < s.cap_ && s.live_[k] && s.e_[k].first == TRAJ); } else { auto* e = s.e_; auto* l = s.live_; vc_assume(vc::forall(0, s.cap_, [=](int64_t j) { return !l[j] || e[j].first != TRAJ; })); vc_assume(Mine(Q0)); }
  int64_t was = Ticks(s.e_[k].second);
  int64_t r = Ticks(M->GetCommonStartTime(TRAJ));
  if (known) { vc_assert(r == was && s.cap_ == before, "the start of a trajectory never changes"); return; }
  vc_assert(vc::forall(0, n, [=](int64_t q) { return !Mine(q) || Front(q) <= r; }), "no queue of the trajectory starts later");
  vc_assert(vc::exists(0, n, [=](int64_t q) { return Mine(q) && Front(q) == r; }), "one of them starts then");
  vc_assert(s.cap_ == before + 1 && s.live_[before] && s.e_[before].first == TRAJ && Ticks(s.e_[before].second) == r, "it is kept for the trajectory");
}
VC_INV(any) { auto& it = vc::local<Map::iterator>("~^__begin", ""); return it.m_ == &M->queues_ && it.i_ >= -1 && it.i_ < N() && (it.i_ < 0 || Live(it.i_)) && M->blocker_.trajectory_id == KTRAJ && Id(M->blocker_.sensor_id) == KID; }
VC_HARNESS(blocker) {
  Any(); auto* k = vc::any_obj<QueueKey>("key"); KTRAJ = k->trajectory_id; KID = Id(k->sensor_id); int64_t b = DQ(Q0).b_, e = DQ(Q0).e_;
  M->CannotMakeProgress(*k);
  vc_assert(M->blocker_.trajectory_id == KTRAJ && Id(M->blocker_.sensor_id) == KID, "the blocker is the queue that needs data");
  vc_assert(Live(Q0) && DQ(Q0).b_ == b && DQ(Q0).e_ == e, "the queues are untouched");
}
// ---- adding data and finishing queues
static QueueKey* K; static Data* DT; static int64_t OB, OE; static bool OF, HIT;
extern "C" void vc_stub_dispatch(MQ* m) {
  vc_assert(m == M, "the same queues"); ++CALLS;
  vc_assert(Live(Q0) && DQ(Q0).b_ == OB, "nothing is taken before dispatching");
}
VC_HARNESS(add) {
  Any(); K = vc::any_obj<QueueKey>("key"); DT = vc::any_obj<Data>("data"); HIT = M->queues_.rank_(Q0) == vc::order<QueueKey>::rank(*K); OB = DQ(Q0).b_; OE = DQ(Q0).e_; OF = Fin(Q0);
  int64_t n = N(); bool known = vc::exists(0, n, [=](int64_t q) { return Live(q) && M->queues_.rank_(q) == vc::order<QueueKey>::rank(*K); });
  M->Add(*K, std::vc_unique_ptr<Data>(DT));
  vc_assert(N() == n && Live(Q0) && DQ(Q0).b_ == OB && Fin(Q0) == OF, "no queue appears, vanishes or loses data");
  vc_assert(DQ(Q0).e_ == OE + (HIT ? 1 : 0), "exactly the addressed queue grows");
  if (HIT) vc_assert(DQ(Q0).d_[OE].p_ == DT, "by the datum, at its end");
  vc_assert(CALLS == (known ? 1 : 0), "then data is dispatched; data for unknown queues is ignored");
}
VC_HARNESS(finish) {
  Any(); K = vc::any_obj<QueueKey>("key"); HIT = M->queues_.rank_(Q0) == vc::order<QueueKey>::rank(*K); OB = DQ(Q0).b_; OE = DQ(Q0).e_; OF = Fin(Q0); int64_t n = N();
  vc_assume(vc::exists(0, n, [=](int64_t q) { return Live(q) && !Fin(q) && M->queues_.rank_(q) == vc::order<QueueKey>::rank(*K); }));
  M->MarkQueueAsFinished(*K);
  vc_assert(Live(Q0) && DQ(Q0).b_ == OB && DQ(Q0).e_ == OE, "no data is lost");
  vc_assert(Fin(Q0) == (OF || HIT), "exactly the addressed queue is finished");
  vc_assert(CALLS == 1, "then data is dispatched");
}
