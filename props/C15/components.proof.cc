// ConnectedComponents: a disjoint set forest and the equivalence relation it stands for.
#define VC_MAP
#include "vc_begin.h"
#include "cartographer/mapping/internal/connected_components.h"
#include "cartographer/mapping/internal/connected_components.cc"
using namespace cartographer::mapping;
typedef ConnectedComponents C; typedef std::vc_map<int, int> Forest; typedef std::vc_map<std::pair<int, int>, int> Counts;
namespace vc { template <> struct order<std::pair<int, int>> { static int64_t rank(const std::pair<int, int>& p) { return static_cast<int64_t>(p.first) * (INT64_C(1) << 32) + p.second; } }; }
static const int64_t kLo = 0, kEnd = 2147483648LL, kCap = int64_t{1} << 33;
static C* M;
// ghost: representative, height and node of every trajectory id (absent: node -1)
static int64_t *R, *H, *N;
static Forest& F() { return M->forest_; }
static int64_t RR(int64_t k) { return R[k]; }
static int64_t HH(int64_t k) { return H[k]; }
static int64_t NN(int64_t k) { return N[k]; }
static bool Present(int64_t k) { return NN(k) >= 0; }
static bool Node(int64_t n) { return n >= 0 && n < F().cap_; }
// every id: absent and alone, or at its node; its representative is a root
static bool IdOk(int64_t k) {
  int64_t n = NN(k), r = RR(k);
  if (n < 0) return n == -1 && r == k && HH(k) == 0;
  return n < F().cap_ && F().live_[n] && F().e_[n].first == k && HH(k) >= 0 && r >= kLo && r < kEnd && NN(r) >= 0 && RR(r) == r && (r == k || HH(r) < HH(k));
}
// every node: its parent is in the forest, in the same set, and nearer to the representative
static bool NodeOk(int64_t i) {
  int64_t k = F().e_[i].first, p = F().e_[i].second;
  return F().live_[i] && k >= kLo && p >= kLo && NN(k) == i && NN(p) >= 0 && RR(p) == RR(k) && (p == k ? RR(k) == k : HH(p) < HH(k) && RR(k) != k);
}
static bool Inv() { int64_t n = F().cap_; return n >= 0 && n <= kCap && vc::forall(kLo, kEnd, [](int64_t k) { return IdOk(k); }) && vc::forall(0, n, [](int64_t i) { return NodeOk(i); }); }
static void Any() {
  M = vc::any_obj<C>("components"); auto& f = F();
  f.e_ = static_cast<Forest::value_type*>(vcx_alloc(sizeof(Forest::value_type), "forest")); f.live_ = static_cast<bool*>(vcx_alloc(1, "live")); f.cap_ = vc::any_i64("nodes", 0, kCap); f.n_ = f.cap_;
  R = static_cast<int64_t*>(vcx_alloc(8, "root")); H = static_cast<int64_t*>(vcx_alloc(8, "height")); N = static_cast<int64_t*>(vcx_alloc(8, "node"));
  auto& c = M->connection_map_; c.e_ = static_cast<Counts::value_type*>(vcx_alloc(sizeof(Counts::value_type), "counts")); c.live_ = static_cast<bool*>(vcx_alloc(1, "clive")); c.cap_ = vc::any_i64("pairs", 0, int64_t{1} << 60); c.n_ = c.cap_;
  vc_assume(Inv());
}
// ---- FindSet: the representative; compresses paths, changes no set
static int64_t HEIGHT, LAST = -1; static bool INNER;
extern "C" int vc_stub_find(C* c, int id) {
  vc_assert(c == M && Present(id), "only ids of the forest are looked up");
  if (INNER) vc_assert(HH(id) < HEIGHT, "nearer to the representative: the recursion ends");
  auto& f = F(); int64_t n = f.cap_; auto* e = f.e_;
  auto* o = static_cast<Forest::value_type*>(vcx_alloc(sizeof(Forest::value_type), "before")); vcx_copy_all(o, e);
  auto* g = static_cast<Forest::value_type*>(vcx_alloc(sizeof(Forest::value_type), "after"));
  vc_assume(vc::forall(0, n, [=](int64_t i) { return g[i].first == o[i].first && (g[i].second == o[i].second || g[i].second == RR(o[i].first)); }));
  vcx_copy_all(e, g); vc_assume(Inv());
  int64_t r = RR(id), q = LAST; LAST = r; vc_assume(vc::pure([=] { return IdOk(r); })); vc_assume(q < 0 || vc::pure([=] { return IdOk(q); }));   // instances of Inv
  return static_cast<int>(r);
}
extern "C" void vc_stub_union(C*, int, int) {}
extern "C" void vc_stub_lock(absl::Mutex*) {}
VC_HARNESS(find) {
  Any(); int id = vc::any_int("id", 0); vc_assume(Present(id)); HEIGHT = HH(id); INNER = true;
  auto& f = F(); int64_t n = f.cap_; auto* o = static_cast<Forest::value_type*>(vcx_alloc(sizeof(Forest::value_type), "entry")); vcx_copy_all(o, f.e_); auto* l = f.live_;
  int r = M->FindSet(id);
  vc_assert(r == RR(id), "the representative of the set");
  vc_assert(f.cap_ == n && f.live_ == l, "no trajectory is added or lost");
  int64_t i = vc::any_i64("i", 0, kCap); vc_assume(i < n);
  auto* e = f.e_; vc_assert(vc::pure([=] { return e[i].first == o[i].first && (e[i].second == o[i].second || e[i].second == RR(o[i].first)); }), "only paths are compressed");
  vc_assert(vc::pure([=] { return NodeOk(i); }), "the forest stays in order"); vc_assert(F().live_[i], "live");
  int64_t k = vc::any_i64("k", kLo, kEnd - 1); vc_assert(vc::pure([=] { return IdOk(k); }), "ids stay in order");
}
// ---- Add
VC_HARNESS(add) {
  Any(); int id = vc::any_int("id", 0); bool had = Present(id); int64_t n = F().cap_;
  M->Add(id);
  vc_assert(F().cap_ == n + !had, "an unknown trajectory is added");
  if (!had) N[id] = n;
  int64_t i = vc::any_i64("i", 0, kCap); vc_assume(i < F().cap_); vc_assert(vc::pure([=] { return NodeOk(i); }), "the forest stays in order");
  int64_t k = vc::any_i64("k", kLo, kEnd - 1); vc_assert(vc::pure([=] { return IdOk(k); }), "an added trajectory is alone, the others stay");
}
// ---- Connect: joins the two sets, nothing else
VC_HARNESS(connect) {
  Any(); int a = vc::any_int("a", 0), b = vc::any_int("b", 0); int64_t n = F().cap_; bool ha = Present(a), hb = Present(b); int64_t ra = RR(a), rb = RR(b);
  int64_t x = vc::any_i64("x", kLo, kEnd - 1), y = vc::any_i64("y", kLo, kEnd - 1); bool xy = RR(x) == RR(y), xa = RR(x) == ra, xb = RR(x) == rb, ya = RR(y) == ra, yb = RR(y) == rb;
  if (!ha) N[a] = n;
  if (!hb && a != b) N[b] = n + !ha;
  M->Union(a, b);
  vc_assert(F().cap_ == n + !ha + (!hb && a != b), "unknown trajectories are added");
  // the joined representatives and heights: the code picks one of the two as the new root
  int64_t top = F().e_[NN(ra)].second == ra ? ra : rb, low = top == ra ? rb : ra;
  auto* r2 = static_cast<int64_t*>(vcx_alloc(8, "root2")); auto* h2 = static_cast<int64_t*>(vcx_alloc(8, "height2")); auto *r1 = R, *h1 = H;
  vc_assume(vc::forall(kLo, kEnd, [=](int64_t k) { return r2[k] == (r1[k] == low ? top : r1[k]) && h2[k] == (r1[k] == low && low != top ? h1[k] + h1[top] + 1 : h1[k]); }));
  R = r2; H = h2;
  vc_assert(vc::pure([=] { return (RR(x) == RR(y)) == (xy || (xa && yb) || (xb && ya)); }), "connected exactly if connected before or through the new connection");
  int64_t i = vc::any_i64("i", 0, kCap + 2); vc_assume(i < F().cap_); vc_assert(vc::pure([=] { return NodeOk(i); }), "the forest stays in order");
  int64_t k = vc::any_i64("k", kLo, kEnd - 1); vc_assert(vc::pure([=] { return IdOk(k); }), "ids stay in order");
}
VC_HARNESS(fresh) {
  M = new C; vc_assert(F().cap_ == 0 && F().size() == 0 && M->connection_map_.cap_ == 0, "no trajectory, no connection");
}
// ---- queries
VC_HARNESS(connected) {
  Any(); int a = vc::any_int("a", 0), b = vc::any_int("b", 0); bool r = M->TransitivelyConnected(a, b);
  vc_assert(r == (a == b || (Present(a) && Present(b) && RR(a) == RR(b))), "the same trajectory, or both known and in the same set");
}
static int64_t ID, X, W;   // representative; one arbitrary known trajectory, where it is in the result
static bool ALL;
VC_INV(members) {
  auto& v = vc::local<std::vc_vector<int>>("trajectory_ids", ""); auto& it = vc::local<Forest::iterator>("~^__begin", ""); auto* d = v.d_; int64_t n = v.n_, c = it.i_, m = F().cap_;
  if (!(it.m_ == &F())) return false;
  if (!(c >= -1 && c < m)) return false;
  if (!(n >= 0 && (ALL || n <= kEnd - kLo))) return false;
  if (!Inv()) return false;
  int64_t cur = c < 0 ? kEnd : F().e_[c].first;
  if (!(NN(X) >= 0 && NN(X) < m && F().e_[NN(X)].first == X)) return false;
  if (ALL) return !(X < cur && RR(X) == ID) || (n > 0 && d[n - 1] == X) || vc::exists(0, n, [=](int64_t i) { return d[i] == X; });
  return vc::forall(0, n, [=](int64_t i) { return d[i] >= i && d[i] < cur && Present(d[i]) && RR(d[i]) == ID; }) && (n == 0 || c < 0 || d[n - 1] < cur) &&
         vc::forall(0, n, [=](int64_t i) { return vc::forall(0, n, [=](int64_t j) { return !(i < j) || d[i] < d[j]; }); });
}
VC_HARNESS(component) {
  Any(); ALL = false; int id = vc::any_int("id", 0); vc_assume(Present(id)); ID = RR(id); X = id;
  auto v = M->GetComponent(id); auto* d = v.d_; int64_t n = v.n_;
  vc_assert(vc::forall(0, n, [=](int64_t i) { return Present(d[i]) && RR(d[i]) == ID; }), "only trajectories of the component");
  vc_assert(vc::forall(0, n, [=](int64_t i) { return vc::forall(0, n, [=](int64_t j) { return !(i < j) || d[i] < d[j]; }); }), "each once, in order");
}
VC_HARNESS(members) {
  Any(); ALL = true; int id = vc::any_int("id", 0); vc_assume(Present(id)); ID = RR(id); X = vc::any_i64("x", kLo, kEnd - 1); vc_assume(Present(X) && RR(X) == ID);
  auto v = M->GetComponent(id); auto* d = v.d_; int64_t n = v.n_;
  vc_assert(vc::exists(0, n, [=](int64_t i) { return d[i] == X; }), "all trajectories of the component");
}
VC_HARNESS(counts) {
  Any(); auto& c = M->connection_map_; int64_t m = c.cap_; auto *e = c.e_; auto* l = c.live_;
  vc_assume(vc::forall(0, m, [=](int64_t i) { return l[i] && e[i].second >= 1 && e[i].second < 2147483647; }));
  vc_assume(vc::forall(0, m, [=](int64_t i) { return vc::forall(0, m, [=](int64_t j) { return i == j || e[i].first.first != e[j].first.first || e[i].first.second != e[j].first.second; }); }));
  int a = vc::any_int("a", 0), b = vc::any_int("b", 0), x = vc::any_int("x"), y = vc::any_int("y");
  int n0 = M->ConnectionCount(x, y), n1 = M->ConnectionCount(y, x); vc_assert(n0 == n1 && n0 >= 0, "symmetric");
  M->Connect(a, b);
  vc_assert(M->ConnectionCount(x, y) == n0 + ((x == a && y == b) || (x == b && y == a) ? 1 : 0), "one more connection of that pair, no other");
}
