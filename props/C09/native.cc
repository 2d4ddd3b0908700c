#include "vcn.h"
#include <map>
#include "cartographer/common/time.h"
#include "cartographer/mapping/id.h"
using namespace cartographer; using namespace cartographer::mapping;
struct Datum { common::Time time; int v; };
static common::Time At(int64_t t) { return common::FromUniversal(t); }
struct Model { std::map<std::pair<int, int>, std::pair<int64_t, int>> m; std::map<int, bool> can; };
template <class Id> static int Index(const Id& id);
template <> int Index<NodeId>(const NodeId& id) { return id.node_index; }
template <> int Index<SubmapId>(const SubmapId& id) { return id.submap_index; }
template <class Id> static void Same(vcn::Rng& rng, const MapById<Id, Datum>& c, const Model& o) {
  REQUIRE(c.size() == o.m.size(), "size " << c.size() << " expected " << o.m.size()); REQUIRE(c.empty() == o.m.empty(), "empty");
  auto e = o.m.begin(); size_t n = 0;
  for (const auto& x : c) { REQUIRE(e != o.m.end() && x.id.trajectory_id == e->first.first && Index(x.id) == e->first.second && x.data.v == e->second.second, "iteration in order of ids, element " << n); ++e; ++n; }
  REQUIRE(e == o.m.end(), "iteration is complete");
  { auto it = c.end(); auto r = o.m.rbegin(); for (; r != o.m.rend(); ++r) { --it; REQUIRE(it->id.trajectory_id == r->first.first && Index(it->id) == r->first.second, "backwards"); } REQUIRE(it == c.begin(), "back at the begin"); }
  std::map<int, size_t> sizes; for (auto& x : o.m) ++sizes[x.first.first];
  auto s = sizes.begin(); for (int t : c.trajectory_ids()) { REQUIRE(s != sizes.end() && s->first == t, "trajectory ids"); ++s; } REQUIRE(s == sizes.end(), "all trajectory ids");
  for (int t = -1; t < 7; ++t) {
    REQUIRE(c.SizeOfTrajectoryOrZero(t) == (sizes.count(t) ? sizes[t] : 0), "size of trajectory " << t);
    auto i = o.m.lower_bound({t, -1}); for (const auto& x : c.trajectory(t)) { REQUIRE(x.id.trajectory_id == t && i != o.m.end() && i->first.first == t && i->first.second == Index(x.id), "trajectory range " << t); ++i; }
    REQUIRE(i == o.m.end() || i->first.first != t, "trajectory range complete " << t);
  }
  for (int k = 0; k < 6; ++k) { int t = rng.in(0, 6), i = rng.in(0, 14); bool in = o.m.count({t, i}); Id id(t, i); REQUIRE(c.Contains(id) == in, "contains"); auto f = c.find(id); REQUIRE((f != c.end()) == in, "find"); if (in) { REQUIRE(Index(f->id) == i && f->id.trajectory_id == t && f->data.v == o.m.at({t, i}).second && c.at(id).v == o.m.at({t, i}).second, "the element found"); } }
}
template <class Id> static void Run(vcn::Rng& rng) {
  MapById<Id, Datum> c; Model o; int v = 0, ops = rng.in(1, 30), trims = 0; std::map<int, int64_t> last; int nt = rng.in(1, 5);
  for (int k = 0; k < ops; ++k) {
    int what = rng.in(0, 9), t = rng.in(0, nt); auto range = o.m.lower_bound({t, -1}); bool has = range != o.m.end() && range->first.first == t; if (!has) o.can.erase(t);
    if (what < 4) {
      if (has && !o.can[t]) continue;
      int idx = 0; if (has) { auto e = o.m.lower_bound({t + 1, -1}); --e; idx = e->first.second + 1; }
      int64_t tm = last[t] += rng.in(0, 3); Id id = c.Append(t, Datum{At(tm), ++v}); NOTE("append " << t << " time " << tm); if (!has) o.can[t] = true;
      REQUIRE(id.trajectory_id == t && Index(id) == idx, "appended id (" << id << "), expected index " << idx); o.m[{t, idx}] = {tm, v};
    } else if (what < 6) {
      int i = rng.in(0, 14); if (o.m.count({t, i})) continue;
      NOTE("insert " << t << ":" << i); c.Insert(Id(t, i), Datum{At(last[t]), ++v}); o.m[{t, i}] = {last[t], v}; o.can[t] = false;
    } else if (what < 9 && !o.m.empty()) {
      auto e = o.m.begin(); std::advance(e, rng.in(0, o.m.size() - 1)); auto id = e->first; auto nx = std::next(e);
      if (nx == o.m.end() || nx->first.first != id.first) o.can[id.first] = false;
      NOTE("trim " << id.first << ":" << id.second); c.Trim(Id(id.first, id.second)); o.m.erase(id); ++trims;
    }
    Same<Id>(rng, c, o);
  }
  vcn::nontrivial() = ops > 8 && trims > 1; vcn::Sig(o.m.size()); vcn::Sig(ops); vcn::Sig(trims);
}
VCN_CASE(nodes) { Run<NodeId>(rng); }
VCN_CASE(submaps) { Run<SubmapId>(rng); }
VCN_CASE(by_time) {
  MapById<NodeId, Datum> c; int nt = rng.in(1, 3); std::map<int, std::vector<std::pair<int, int64_t>>> o; int left = 0;
  for (int t = 0; t < nt; ++t) {
    int n = rng.in(0, 20); int64_t tm = rng.in(0, 20); std::vector<std::pair<int, int64_t>> v; bool ins = rng.coin(); int idx = ins ? rng.in(0, 5) : 0;
    for (int i = 0; i < n; ++i) { if (ins) { c.Insert(NodeId(t, idx), Datum{At(tm), i}); v.push_back({idx, tm}); idx += rng.one_in(3) ? rng.in(1, 40) : 1; } else { v.push_back({Index(c.Append(t, Datum{At(tm), i})), tm}); } tm += rng.in(0, 3); }
    for (size_t i = 0; i < v.size();) { if (rng.one_in(4)) { c.Trim(NodeId(t, v[i].first)); v.erase(v.begin() + i); } else ++i; }
    std::ostringstream s; for (auto& x : v) s << x.first << "@" << x.second << " "; NOTE("trajectory " << t << ": " << s.str()); o[t] = v; left += v.size();
  }
  for (int t = 0; t <= nt; ++t) for (int64_t q = -1; q < 85; ++q) {
    auto it = c.lower_bound(t, At(q)); const std::pair<int, int64_t>* w = nullptr; for (auto& x : o[t]) if (x.second >= q) { w = &x; break; }
    if (w) REQUIRE(it != c.EndOfTrajectory(t) && it->id == NodeId(t, w->first), "first not before " << q << " in " << t); else REQUIRE(it == c.EndOfTrajectory(t), "all before " << q << " in " << t);
  }
  vcn::nontrivial() = left > 5; vcn::Sig(left);
}
