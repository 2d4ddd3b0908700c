#include "vcn.h"
#include <map>
#include <set>
#include <cmath>
#include "cartographer/mapping/internal/range_data_collator.h"
using namespace cartographer;
struct Pt { int64_t at; int tag; };   // absolute ticks
// Messages as the drivers send them: sorted points, none after the time stamp.
VCN_CASE(collate) {
  int ns = rng.in(1, 4); std::vector<std::string> ids; for (int i = 0; i < ns; ++i) ids.push_back(std::string(1, char('a' + i)));
  mapping::RangeDataCollator c(ids);
  std::map<int, std::vector<Pt>> pending; std::map<int, int64_t> stamp; std::map<int, Eigen::Vector3f> origin; std::vector<int64_t> clock(ns);
  const int64_t kTick = 156250;   // 1/64 s: exact in float
  int64_t base = rng.one_in(3) ? 621355968000000000ll : 1000 * kTick; for (auto& x : clock) x = base + rng.in(0, 30) * kTick;
  int64_t start, end = INT64_MIN; int tag = 0, msgs = rng.in(1, 25), outs = 0, dropped = 0; std::set<int> seen; std::map<int, Eigen::Vector3f> pos; std::map<int, float> inten;
  for (int m = 0; m < msgs; ++m) {
    int s = rng.in(0, ns - 1); clock[s] += rng.in(0, 12) * kTick; int n = rng.one_in(6) ? 0 : rng.in(1, 6); bool lower = rng.one_in(3), partial = rng.one_in(4);
    sensor::TimedPointCloudData d; d.time = common::FromUniversal(clock[s]); d.origin = Eigen::Vector3f(rng.in(-4, 4), s, m);
    std::vector<int> off; for (int i = 0; i < n; ++i) off.push_back(-rng.in(0, 20)); std::sort(off.begin(), off.end()); if (n && !lower) off.back() = 0;
    std::vector<Pt> pts; std::ostringstream t;
    for (int i = 0; i < n; ++i) { ++tag; pos[tag] = Eigen::Vector3f(tag, -tag, 1); d.ranges.push_back({pos[tag], off[i] / 64.f}); float f = tag * 2.f; if (!partial || i < n / 2) d.intensities.push_back(f); else f = 0.f; inten[tag] = f; pts.push_back({clock[s] + off[i] * kTick, tag}); t << off[i] << " "; }
    NOTE("sensor " << s << " at " << (clock[s] - base) / kTick << " points " << t.str());
    bool has = pending.count(s); if (!has) { pending[s] = pts; stamp[s] = clock[s]; origin[s] = d.origin; }
    bool out = has || static_cast<int>(pending.size()) == ns; int64_t d_time = clock[s]; Eigen::Vector3f d_origin = d.origin;
    auto r = c.AddRangeData(ids[s], d);
    if (!out) { REQUIRE(r.ranges.empty() && r.origins.empty(), "nothing comes out until all sensors have data"); continue; }
    ++outs; start = end;
    if (has) end = stamp[s]; else { end = INT64_MAX; for (auto& p : stamp) end = std::min(end, p.second); }
    REQUIRE(common::ToUniversal(r.time) == end, "stamped with the end of the interval: " << (common::ToUniversal(r.time) - base) / kTick << " expected " << (end - base) / kTick);
    std::map<int, std::pair<int64_t, int>> want;
    for (auto it = pending.begin(); it != pending.end();) {
      auto& v = it->second; size_t b = 0; while (b < v.size() && v[b].at < start) { ++b; ++dropped; } size_t e = b; while (e < v.size() && v[e].at <= end) { want[v[e].tag] = {v[e].at, it->first}; ++e; }
      v.erase(v.begin(), v.begin() + e); if (v.empty()) { stamp.erase(it->first); it = pending.erase(it); } else ++it;
    }
    std::set<int> got; float last = -INFINITY;
    for (auto& p : r.ranges) {
      int g = static_cast<int>(p.point_time.position.x()); REQUIRE(pos.count(g) && p.point_time.position == pos[g], "a point that was put in");
      REQUIRE(got.insert(g).second && seen.insert(g).second, "point " << g << " comes out once"); REQUIRE(want.count(g), "point " << g << " at " << " lies in the interval");
      REQUIRE(p.intensity == inten[g], "intensity of point " << g << ": " << p.intensity << " expected " << inten[g]);
      REQUIRE(p.point_time.time == static_cast<float>((want[g].first - end) / static_cast<double>(64 * kTick)), "absolute time of point " << g);
      REQUIRE(p.point_time.time >= last, "sorted by time"); last = p.point_time.time;
      REQUIRE(p.origin_index < r.origins.size() && r.origins[p.origin_index] == origin[want[g].second], "origin of point " << g);
    }
    REQUIRE(got.size() == want.size(), "all " << want.size() << " points of the interval come out");
    if (has) { pending[s] = pts; stamp[s] = d_time; origin[s] = d_origin; }
  }
  vcn::nontrivial() = outs > 3 && tag > 10; vcn::Sig(outs); vcn::Sig(tag); vcn::Sig(dropped);
}
