// TrajectoryConnectivityState over the contracts of ConnectedComponents (components.proof.cc).
#define VC_MAP
#include "vc_begin.h"
#include "cartographer/mapping/internal/trajectory_connectivity_state.h"
#include "cartographer/mapping/internal/trajectory_connectivity_state.cc"
using namespace cartographer; using namespace cartographer::mapping; using common::Time;
typedef TrajectoryConnectivityState S; typedef std::vc_map<std::pair<int, int>, Time> Times; typedef std::pair<int, int> Key;
namespace vc { template <> struct order<Key> { static int64_t rank(const Key& p) { return static_cast<int64_t>(p.first) * (INT64_C(1) << 32) + p.second; } }; }
static const int64_t kEnd = 2147483648LL;
static S* M; static int A, B; static bool CONN, JOINED; static int64_t T, OLD;
static int X, Y; static int64_t PAX, PAY, PBX, PBY;   // ghost: one arbitrary pair and its places in the two components
static bool InA(int64_t k) { return vcx_uf1("in_a", k) != 0; }
static bool InB(int64_t k) { return vcx_uf1("in_b", k) != 0; }
static Times& TM() { return M->last_connection_time_map_; }
static int64_t G0;   // where the pair was found at first
static int64_t Val(int x, int y) { int64_t r = TM().find_(Key(x, y)); return r < 0 ? 0 : TM().e_[r].second.time_since_epoch().count(); }
extern "C" bool vc_stub_tc(ConnectedComponents* c, int a, int b) { vc_assert(c == &M->connected_components_ && ((a == A && b == B) || (a == B && b == A)), "the two trajectories are asked for"); vc_assert(!JOINED, "before they are connected"); return CONN; }
extern "C" std::vc_vector<int> vc_stub_component(ConnectedComponents* c, int id) {
  vc_assert(c == &M->connected_components_ && (id == A || id == B) && !JOINED, "the component of one of the two, before they are connected");
  std::vc_vector<int> v; int* d = v.d_; int64_t n = v.n_ = vc::any_i64("members", 1, kEnd); bool a = id == A;
  vc_assume(vc::forall(0, n, [=](int64_t i) { return d[i] >= 0 && (a ? InA(d[i]) : InB(d[i])); }));
  int64_t px = a ? PAX : PBX, py = a ? PAY : PBY;
  if (a ? InA(X) : InB(X)) vc_assume(px < n && d[px] == X);
  if (a ? InA(Y) : InB(Y)) vc_assume(py < n && d[py] == Y);
  return v;
}
extern "C" void vc_stub_connect(ConnectedComponents* c, int a, int b) { vc_assert(c == &M->connected_components_ && ((a == A && b == B) || (a == B && b == A)) && !JOINED, "the two are connected once"); JOINED = true; }
static void Any() {
  M = vc::any_obj<S>("state"); auto& s = TM();
  s.e_ = static_cast<Times::value_type*>(vcx_alloc(sizeof(Times::value_type), "times")); s.live_ = static_cast<bool*>(vcx_alloc(1, "live")); s.cap_ = vc::any_i64("pairs", 0, int64_t{1} << 60); s.n_ = s.cap_;
  A = vc::any_int("a", 0); B = vc::any_int("b", 0); X = vc::any_int("x", 0); Y = vc::any_int("y", 0); vc_assume(X <= Y); T = vc::any_i64("time"); JOINED = false; CONN = vc::any_bool("connected");
  PAX = vc::any_i64("pax", 0); PAY = vc::any_i64("pay", 0); PBX = vc::any_i64("pbx", 0); PBY = vc::any_i64("pby", 0);
  G0 = TM().find_(Key(X, Y)); OLD = G0 < 0 ? 0 : TM().e_[G0].second.time_since_epoch().count();
}
static bool Cross() { return (InA(X) && InB(Y)) || (InA(Y) && InB(X)); }
static bool Done(int64_t i, int64_t j) { return (InA(X) && InB(Y) && (PAX < i || (PAX == i && PBY < j))) || (InA(Y) && InB(X) && (PAY < i || (PAY == i && PBX < j))); }
static bool Match(int64_t k) { auto& e = TM().e_[k]; return TM().live_[k] && e.first.first == X && e.first.second == Y; }
static bool At(int64_t i, int64_t j) {
  int64_t n = TM().cap_; bool done = vc::pure([=] { return Done(i, j); }), cross = vc::pure([] { return Cross(); });
  if (!(n >= 0 && G0 < n)) return false;
  if (!(G0 < 0 || vc::pure([] { return Match(G0); }))) return false;
  return vc::forall(0, n, [=](int64_t k) { int64_t v = TM().e_[k].second.time_since_epoch().count(); return !Match(k) || (done ? v == T : (v == OLD || (cross && v == T))); }) &&
         (!done || (n > 0 && vc::pure([=] { return Match(n - 1); })) || vc::exists(0, n, [=](int64_t k) { return Match(k); }));
}
VC_INV(outer) { return At(vcx_iter(), 0); }
VC_INV(inner) { return At(vcx_outer_iter(), vcx_iter()); }
VC_HARNESS(together) {
  Any(); CONN = true; vc_assume(TM().cap_ < (int64_t{1} << 59));
  M->Connect(A, B, Time(common::Duration(T)));
  bool same = (A == X && B == Y) || (A == Y && B == X); int64_t v = Val(X, Y);
  vc_assert(v == (same ? (OLD < T ? T : OLD) : OLD), "the latest time of that pair, nothing else");
  vc_assert(JOINED, "the connection is recorded");
}
VC_HARNESS(joining) {
  Any(); CONN = false; vc_assume(A != B && InA(A) && InB(B) && !(InA(X) && InB(X)) && !(InA(Y) && InB(Y)));
  vc_assume(vc::forall(0, kEnd, [=](int64_t k) { return !(InA(k) && InB(k)); }));
  M->Connect(A, B, Time(common::Duration(T)));
  int64_t v = Val(X, Y);
  vc_assert(v == (Cross() ? T : OLD), "every pair across the two components gets the time, nothing else");
  vc_assert(JOINED, "the connection is recorded");
}
VC_HARNESS(last) {
  Any(); vc_assert(M->LastConnectionTime(X, Y).time_since_epoch().count() == OLD && M->LastConnectionTime(Y, X).time_since_epoch().count() == OLD, "the recorded time, whatever the order");
  vc_assert(M->TransitivelyConnected(A, B) == CONN, "connected as the components say");
}
