#include "vcn.h"
#include <map>
#include <set>
#include "cartographer/sensor/map_by_time.h"
using namespace cartographer; using mapping::NodeId;
struct Datum { common::Time time; int v; };
struct Node { common::Time time; };
static common::Time At(int64_t t) { return common::FromUniversal(t); }
static int64_t T(common::Time t) { return common::ToUniversal(t); }
typedef std::map<int, std::map<int64_t, int>> Model;
static void Same(const sensor::MapByTime<Datum>& c, const Model& o, int64_t hi) {
  auto e = o.begin(); for (int t : c.trajectory_ids()) { REQUIRE(e != o.end() && e->first == t, "trajectory ids in order: " << t); ++e; } REQUIRE(e == o.end(), "all trajectories with data");
  { auto r = c.trajectory_ids(); auto it = r.end(); for (auto i = o.rbegin(); i != o.rend(); ++i) { --it; REQUIRE(*it == i->first, "trajectory ids backwards"); } REQUIRE(it == r.begin(), "back at the begin"); }
  for (int t = 0; t < 6; ++t) {
    REQUIRE(c.HasTrajectory(t) == (o.count(t) == 1), "has trajectory " << t); if (!o.count(t)) continue;
    const auto& d = o.at(t); auto i = d.begin();
    for (const auto& x : c.trajectory(t)) { REQUIRE(i != d.end() && T(x.time) == i->first && x.v == i->second, "data of trajectory " << t << " at " << T(x.time)); ++i; }
    REQUIRE(i == d.end(), "all data of trajectory " << t << ": " << i->first << " is missing");
    auto it = c.EndOfTrajectory(t); for (auto j = d.rbegin(); j != d.rend(); ++j) { --it; REQUIRE(T(it->time) == j->first && (*it).v == j->second, "backwards"); } REQUIRE(it == c.BeginOfTrajectory(t), "back at the begin");
    for (int64_t q = -1; q <= hi + 1; ++q) { auto w = d.lower_bound(q); auto g = c.lower_bound(t, At(q)); if (w == d.end()) REQUIRE(g == c.EndOfTrajectory(t), "lower bound past all"); else REQUIRE(g != c.EndOfTrajectory(t) && T(g->time) == w->first, "lower bound of " << q); }
  }
}
VCN_CASE(trim) {
  sensor::MapByTime<Datum> c; mapping::MapById<NodeId, Node> nodes; Model o; std::map<int, std::map<int, int64_t>> on; int nt = rng.in(1, 3), v = 0, trims = 0; int64_t hi = 0;
  for (int t = 0; t < nt; ++t) {
    int n = rng.in(0, 12); int64_t x = rng.in(0, 8); std::ostringstream s, u;
    for (int i = 0; i < n; ++i) { c.Append(t, Datum{At(x), ++v}); o[t][x] = v; s << x << " "; hi = std::max(hi, x); x += rng.in(1, 4); }
    n = rng.in(0, 5); x = rng.in(0, 12); int idx = 0; bool ins = rng.coin();
    for (int i = 0; i < n; ++i) { if (ins) nodes.Insert(NodeId(t, idx), Node{At(x)}); else nodes.Append(t, Node{At(x)}); on[t][idx] = x; u << idx << "@" << x << " "; idx += ins ? rng.in(1, 3) : 1; x += rng.in(1, 9); }
    NOTE("trajectory " << t << " data " << s.str() << "; nodes " << u.str()); if (on[t].empty()) on.erase(t);
  }
  Same(c, o, hi);
  while (!on.empty() && !rng.one_in(6)) {
    auto a = on.begin(); std::advance(a, rng.in(0, on.size() - 1)); int t = a->first; auto b = a->second.begin(); std::advance(b, rng.in(0, a->second.size() - 1));
    bool first = b == a->second.begin(), last = std::next(b) == a->second.end(); int64_t gs = first ? INT64_MIN : std::prev(b)->second, ge = last ? INT64_MAX : std::next(b)->second;
    NOTE("trim " << t << ":" << b->first); c.Trim(nodes, NodeId(t, b->first)); nodes.Trim(NodeId(t, b->first)); a->second.erase(b); if (a->second.empty()) on.erase(a); ++trims;
    if (o.count(t)) {
      std::vector<int64_t> gap; for (auto& d : o[t]) if (d.first >= gs && d.first <= ge) gap.push_back(d.first);
      for (size_t i = 0; i < gap.size(); ++i) if ((first || i > 0) && (last || i + 1 < gap.size())) o[t].erase(gap[i]);
      if (o[t].empty()) o.erase(t);
    }
    Same(c, o, hi);
    if (rng.one_in(4) && o.count(t)) { int64_t x = o[t].rbegin()->first + rng.in(1, 3); hi = std::max(hi, x); c.Append(t, Datum{At(x), ++v}); o[t][x] = v; NOTE("append " << t << " " << x); Same(c, o, hi); }
  }
  vcn::nontrivial() = trims > 1 && v > 5; vcn::Sig(v); vcn::Sig(trims); vcn::Sig(o.size());
}
