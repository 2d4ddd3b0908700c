#include "vcn.h"
#include <map>
#include <set>
#include "cartographer/mapping/internal/connected_components.h"
#include "cartographer/mapping/internal/trajectory_connectivity_state.h"
#include "cartographer/mapping/proto/connected_components.pb.h"
using namespace cartographer; using namespace cartographer::mapping;
// reference: the undirected graph of all connections, searched
struct Graph {
  std::set<int> known; std::map<std::pair<int, int>, int> edges;
  static std::pair<int, int> P(int a, int b) { return {std::min(a, b), std::max(a, b)}; }
  void Connect(int a, int b) { known.insert(a); known.insert(b); ++edges[P(a, b)]; }
  std::set<int> Component(int a) const { std::set<int> s{a}; bool more = true; while (more) { more = false; for (auto& e : edges) { bool f = s.count(e.first.first), g = s.count(e.first.second); if (f != g) { s.insert(e.first.first); s.insert(e.first.second); more = true; } } } return s; }
  std::set<std::set<int>> All() const { std::set<std::set<int>> r; for (int k : known) r.insert(Component(k)); return r; }
};
static std::vector<int> Ids(vcn::Rng& rng) { std::vector<int> v; int n = rng.in(1, 12); for (int i = 0; i < n; ++i) v.push_back(rng.one_in(6) ? rng.in(0, 2000000000) : rng.in(0, 20)); return v; }
template <class V> static void SameSets(const V& v, const Graph& g) {
  std::set<std::set<int>> got; size_t n = 0;
  for (auto& c : v) { std::set<int> s(c.begin(), c.end()); REQUIRE(s.size() == c.size() && !c.empty(), "each trajectory once per component"); n += c.size(); got.insert(s); }
  REQUIRE(got == g.All() && n == g.known.size(), "components: every known trajectory in exactly one, grouped by connectivity");
}
VCN_CASE(components) {
  ConnectedComponents c; Graph g; auto ids = Ids(rng); int n = rng.in(0, 25);
  for (int k = 0; k < n; ++k) {
    int a = rng.pick(ids), b = rng.pick(ids), q = rng.in(0, 6);
    if (q == 0) { NOTE("add " << a); c.Add(a); g.known.insert(a); }
    else if (q <= 2) { NOTE("connect " << a << " " << b); c.Connect(a, b); g.Connect(a, b); }
    else if (q == 3 && g.known.count(a)) { auto v = c.GetComponent(a); std::set<int> s(v.begin(), v.end()); REQUIRE(s.size() == v.size() && s == g.Component(a), "component of " << a); }
    else if (q == 4) SameSets(c.Components(), g);
    for (int x : ids) for (int y : ids) if (rng.one_in(4)) {
      bool want = x == y || (g.known.count(x) && g.known.count(y) && g.Component(x).count(y));
      REQUIRE(c.TransitivelyConnected(x, y) == want, x << " and " << y << " connected: expected " << want);
      auto it = g.edges.find(Graph::P(x, y)); REQUIRE(c.ConnectionCount(x, y) == (it == g.edges.end() ? 0 : it->second), "connections of " << x << " and " << y);
    }
  }
  vcn::Sig(n); vcn::Sig(ids.size()); vcn::nontrivial() = n > 2;
  auto p = ToProto(c.Components()); std::vector<std::vector<int>> pv; int prev = -1;
  for (auto& k : p.connected_component()) { std::vector<int> v(k.trajectory_id().begin(), k.trajectory_id().end()); REQUIRE(std::is_sorted(v.begin(), v.end()) && !v.empty() && v[0] > prev, "sorted proto"); prev = v[0]; pv.push_back(v); }
  SameSets(pv, g);
}
VCN_CASE(times) {
  TrajectoryConnectivityState s; Graph g; std::map<std::pair<int, int>, int64_t> t; auto ids = Ids(rng); int n = rng.in(0, 25);
  for (int a : ids) { s.Add(a); g.known.insert(a); }
  for (int k = 0; k < n; ++k) {
    int a = rng.pick(ids), b = rng.pick(ids); int64_t x = rng.in(1, 1000);
    NOTE("connect " << a << " " << b << " at " << x);
    s.Connect(a, b, common::FromUniversal(x));
    auto ca = g.Component(a), cb = g.Component(b);
    if (ca.count(b)) { auto& r = t[Graph::P(a, b)]; r = std::max(r, x); }
    else for (int i : ca) for (int j : cb) t[Graph::P(i, j)] = x;
    g.Connect(a, b);
    for (int i : ids) for (int j : ids) {
      REQUIRE(s.TransitivelyConnected(i, j) == (g.Component(i).count(j) > 0), "connected " << i << " " << j);
      auto it = t.find(Graph::P(i, j)); REQUIRE(s.LastConnectionTime(i, j) == (it == t.end() ? common::Time() : common::FromUniversal(it->second)), "last connection of " << i << " and " << j);
    }
  }
  SameSets(s.Components(), g); vcn::Sig(n); vcn::Sig(ids.size()); vcn::nontrivial() = n > 2;
}
