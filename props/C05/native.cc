#include "vcn.h"
#include <array>
#include <map>
#include "cartographer/mapping/3d/hybrid_grid.h"
#include "cartographer/mapping/probability_values.h"
using namespace cartographer; using namespace cartographer::mapping;
typedef std::array<int, 3> Ix;
static Eigen::Array3i E(const Ix& i) { return Eigen::Array3i(i[0], i[1], i[2]); }
static int Coord(vcn::Rng& rng, int mode) {
  static const std::vector<int> edges{0, 1, -1, 7, 8, -8, -9, 31, 32, -32, -33, 63, 64, -64, -65, 127, 128, -128, -129, 255, 256, -256, -257, 511, 512, -512, -513};
  switch (mode) {
    case 0: return rng.in(-3, 3);
    case 1: return rng.pick(edges);
    case 2: return rng.in(-70, 70);
    case 3: return rng.pick(edges) + rng.in(-2, 2);
    case 4: return rng.in(-1100, 1100);
    default: return rng.one_in(2) ? rng.in(-8192, 8191) : rng.pick(std::vector<int>{8191, -8192, 4095, 4096, -4096, -4097, 2047, 2048, -2049});
  }
}
static Ix Index(vcn::Rng& rng, int mode) { return Ix{{Coord(rng, mode), Coord(rng, mode), Coord(rng, mode)}}; }
template <class G, class V> static void Compare(vcn::Rng& rng, const G& g, const std::map<Ix, V>& want, int mode) {
  std::map<Ix, V> seen;
  for (const auto& it : g) {
    Ix i{{it.first.x(), it.first.y(), it.first.z()}};
    REQUIRE(seen.emplace(i, it.second).second, "cell visited twice: " << i[0] << "," << i[1] << "," << i[2]);
  }
  REQUIRE(seen.size() == want.size(), "iteration visits " << seen.size() << " cells, " << want.size() << " have a value");
  for (auto& w : want) {
    auto f = seen.find(w.first);
    REQUIRE(f != seen.end() && f->second == w.second, "iteration misses or changes " << w.first[0] << "," << w.first[1] << "," << w.first[2]);
    REQUIRE(g.value(E(w.first)) == w.second, "value of " << w.first[0] << "," << w.first[1] << "," << w.first[2] << " is " << g.value(E(w.first)) << " not " << w.second);
  }
  for (int k = 0; k < 30; ++k) { Ix i = Index(rng, rng.in(0, mode)); auto f = want.find(i); REQUIRE(g.value(E(i)) == (f == want.end() ? V() : f->second), "value of " << i[0] << "," << i[1] << "," << i[2]); }
}
VCN_CASE(container) {
  HybridGridBase<int> g(1.f); std::map<Ix, int> want;
  int mode = rng.one_in(150) ? 5 : rng.in(0, 4), n = rng.in(1, 60);
  NOTE("container mode " << mode << " n " << n); vcn::Sig(mode); vcn::Sig(n); vcn::nontrivial() = n > 3;
  std::vector<std::pair<Ix, int*>> ptrs;
  for (int k = 0; k < n; ++k) {
    Ix i = Index(rng, mode); if (mode == 5 && k > 12) i = Index(rng, 4);
    int v = rng.one_in(6) ? 0 : rng.in(1, 1000); NOTE("  " << i[0] << "," << i[1] << "," << i[2] << " = " << v);
    int* p = g.mutable_value(E(i));
    auto f = want.find(i); REQUIRE(*p == (f == want.end() ? 0 : f->second), "the value before the write");
    *p = v; if (v) want[i] = v; else want.erase(i);
    ptrs.push_back({i, p});
    REQUIRE(g.value(E(i)) == v, "read back");
    if (rng.one_in(8) && mode < 5) Compare(rng, g, want, mode);
  }
  for (auto& q : ptrs) REQUIRE(g.mutable_value(E(q.first)) == q.second, "a cell keeps its storage when the grid grows");
  Compare(rng, g, want, mode);
  HybridGridBase<int> h(std::move(g)); Compare(rng, h, want, mode);
}
VCN_CASE(updates) {
  HybridGrid g(0.1f); std::map<Ix, uint16> want; std::set<Ix> pending;
  int mode = rng.one_in(200) ? 5 : rng.in(0, 3), n = rng.in(1, 80);
  static const auto hit = ComputeLookupTableToApplyOdds(Odds(0.55)), miss = ComputeLookupTableToApplyOdds(Odds(0.49));
  NOTE("updates mode " << mode << " n " << n); vcn::Sig(mode); vcn::Sig(n); vcn::nontrivial() = n > 3;
  for (int k = 0; k < n; ++k) {
    Ix i = Index(rng, mode); int op = rng.in(0, 9);
    NOTE("  op " << op << " " << i[0] << "," << i[1] << "," << i[2]);
    if (op == 0) {
      g.FinishUpdate(); pending.clear();
      for (auto& w : want) REQUIRE(g.value(E(w.first)) == w.second, "after FinishUpdate");
      if (mode < 5 && rng.one_in(3)) Compare(rng, g, want, mode);
    } else if (op == 1 && pending.empty()) {
      float p = rng.real(0.1, 0.9); g.SetProbability(E(i), p); want[i] = ProbabilityToValue(p);
      REQUIRE(std::abs(g.GetProbability(E(i)) - p) < 1e-4, "probability set"); 
    } else {
      const auto& t = rng.coin() ? hit : miss;
      bool r = g.ApplyLookupTable(E(i), t);
      REQUIRE(r == !pending.count(i), "updated iff not yet updated");
      if (r) { auto f = want.find(i); want[i] = t[f == want.end() ? 0 : f->second] - kUpdateMarker; pending.insert(i); }
      REQUIRE(g.IsKnown(E(i)) && std::abs(g.GetProbability(E(i)) - ValueToProbability(want[i])) < 1e-6, "probability during an update");
    }
  }
  g.FinishUpdate(); Compare(rng, g, want, mode);
  auto proto = g.ToProto(); HybridGrid h(proto);
  REQUIRE(h.resolution() == g.resolution(), "resolution");
  Compare(rng, h, want, mode);
  REQUIRE(h.ToProto().SerializeAsString() == proto.SerializeAsString(), "serialized again: identical");
}
VCN_CASE(geometry) {
  float res = rng.pick(std::vector<float>{0.05f, 0.1f, 0.45f, 0.5f, 1.f, 2.f}); HybridGrid g(res);
  NOTE("geometry " << res); vcn::Sig(res * 100); vcn::nontrivial() = true;
  for (int k = 0; k < 200; ++k) {
    Ix i = Index(rng, 5); if (rng.coin()) i = Index(rng, 2);
    Eigen::Vector3f c = g.GetCenterOfCell(E(i));
    for (int a = 0; a < 3; ++a) REQUIRE(std::abs(c[a] - double(res) * i[a]) <= 1e-6 * std::abs(c[a]) + 1e-9, "centre");
    REQUIRE((g.GetCellIndex(c) == E(i)).all(), "centre of cell " << i[0] << "," << i[1] << "," << i[2]);
    Eigen::Vector3f p; for (int a = 0; a < 3; ++a) p[a] = (i[a] + rng.real(-0.45, 0.45)) * res;
    if (std::abs(i[0]) < 2000 && std::abs(i[1]) < 2000 && std::abs(i[2]) < 2000) REQUIRE((g.GetCellIndex(p) == E(i)).all(), "point in cell");
  }
  std::set<Ix> oct; for (int i = 0; i < 8; ++i) { auto o = HybridGrid::GetOctant(i); REQUIRE(o.x() == (i & 1) && o.y() == ((i >> 1) & 1) && o.z() == ((i >> 2) & 1), "octant"); }
}
VCN_CASE(intensity) {
  IntensityHybridGrid g(0.2f); std::map<Ix, std::pair<double, int>> want; int mode = rng.in(0, 3), n = rng.in(1, 60);
  NOTE("intensity " << mode << " " << n); vcn::Sig(n); vcn::nontrivial() = n > 2;
  // intensity grids are not iterated (their cells have no equality): values only
  for (int k = 0; k < n; ++k) { Ix i = Index(rng, mode); float x = rng.in(-64, 64) / 8.f; g.AddIntensity(E(i), x); auto& w = want[i]; w.first += x; ++w.second; }
  for (auto& w : want) REQUIRE(std::abs(g.GetIntensity(E(w.first)) - w.second.first / w.second.second) < 1e-4, "average intensity");
  for (int k = 0; k < 20; ++k) { Ix i = Index(rng, mode); if (!want.count(i)) REQUIRE(g.GetIntensity(E(i)) == 0.f, "no intensity"); }
}
