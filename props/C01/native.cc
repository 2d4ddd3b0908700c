// Oracle: replays scans into a grid and keeps an independent reference map
// keyed by world cell.
#include "cartographer/mapping/2d/probability_grid.h"
#include "cartographer/mapping/2d/probability_grid_range_data_inserter_2d.h"
#include "cartographer/mapping/probability_values.h"
#include "ray_oracle.h"
#include "vcn.h"
#include <map>
using namespace cartographer::mapping;
using namespace cartographer;
typedef std::pair<long, long> W;  // cell index relative to the initial grid
struct Ref {
  double res; Eigen::Vector2d max0; std::map<W, int> v;
};
static void Compare(const ProbabilityGrid& g, const Ref& ref, const char* when) {
  auto p = g.ToProto();
  int nx = g.limits().cell_limits().num_x_cells, ny = g.limits().cell_limits().num_y_cells;
  REQUIRE(p.cells_size() == nx * ny, when);
  long dx = std::lround((g.limits().max().y() - ref.max0.y()) / ref.res), dy = std::lround((g.limits().max().x() - ref.max0.x()) / ref.res);
  REQUIRE(g.limits().max().y() == ref.max0.y() + dx * ref.res && g.limits().max().x() == ref.max0.x() + dy * ref.res && g.limits().resolution() == ref.res, "the grid is shifted by whole cells");
  size_t known = 0;
  for (int y = 0; y < ny; ++y) for (int x = 0; x < nx; ++x) {
    int c = p.cells(x + nx * y);
    auto it = ref.v.find(W(x - dx, y - dy));
    int want = it == ref.v.end() ? 0 : it->second;
    REQUIRE(c == want, when << ": cell " << x << "," << y << " (world " << x - dx << "," << y - dy << ") holds " << c << ", expected " << want);
    REQUIRE(g.IsKnown(Eigen::Array2i(x, y)) == (want != 0), when);
    if (want) { ++known;
      REQUIRE(g.GetProbability(Eigen::Array2i(x, y)) == 1.f - ValueToCorrespondenceCost(want), when);
      REQUIRE(p.has_known_cells_box() && p.known_cells_box().min_x() <= x && x <= p.known_cells_box().max_x() && p.known_cells_box().min_y() <= y && y <= p.known_cells_box().max_y(), when << ": known cell outside the known box"); }
  }
  REQUIRE(known == ref.v.size(), when << ": known cells lost");
}
VCN_CASE(scans) {
  static const double kRes[] = {0.0625, 0.125, 0.25, 0.5, 1.};
  Ref ref; ref.res = kRes[rng.in(0, 4)];
  ref.max0 = Eigen::Vector2d(rng.in(-20, 20) * ref.res, rng.in(-20, 20) * ref.res);
  ValueConversionTables tables;
  int nx = rng.in(1, 12), ny = rng.in(1, 12);
  ProbabilityGrid g(MapLimits(ref.res, ref.max0, CellLimits(nx, ny)), &tables);
  proto::ProbabilityGridRangeDataInserterOptions2D o;
  o.set_hit_probability(rng.real(0.51, 0.95)); o.set_miss_probability(rng.real(0.05, 0.49));
  o.set_insert_free_space(!rng.one_in(5));
  ProbabilityGridRangeDataInserter2D ins(o);
  auto ht = ComputeLookupTableToApplyCorrespondenceCostOdds(Odds(o.hit_probability())), mt = ComputeLookupTableToApplyCorrespondenceCostOdds(Odds(o.miss_probability()));
  NOTE("res " << ref.res << " max " << ref.max0.transpose() << " cells " << nx << "x" << ny << " hit " << o.hit_probability() << " miss " << o.miss_probability() << " free " << o.insert_free_space());
  int scans = rng.in(1, 4);
  double spread = rng.one_in(4) ? 30 : rng.one_in(2) ? 3 : 10;
  for (int s = 0; s < scans; ++s) {
    auto pt = [&]() {
      // well inside a subpixel of the cell raster, so that rounding of the index is not at stake
      double fx = (rng.in(0, 999) + 0.5 + rng.real(-.2, .2)) / 1000, fy = (rng.in(0, 999) + 0.5 + rng.real(-.2, .2)) / 1000;
      long cx = rng.in(-spread, spread), cy = rng.in(-spread, spread);
      return Eigen::Vector3f(ref.max0.x() - ref.res * (cy + fy), ref.max0.y() - ref.res * (cx + fx), rng.real(-1, 1));
    };
    sensor::RangeData rd; rd.origin = pt();
    std::vector<sensor::RangefinderPoint> ret, mis;
    int nr = rng.in(0, 6), nm = rng.in(0, 3);
    for (int i = 0; i < nr; ++i) { ret.push_back({pt()}); if (rng.one_in(4)) ret.push_back(ret[rng.in(0, ret.size() - 1)]);
      if (rng.one_in(5)) ret.push_back({Eigen::Vector3f(rd.origin + (ret.back().position - rd.origin) * 0.5f)}); }
    for (int i = 0; i < nm; ++i) mis.push_back({pt()});
    bool bad = false;
    auto sub = [&](const Eigen::Vector3f& p) {
      double sx = (ref.max0.y() - p.y()) / (ref.res / 1000), sy = (ref.max0.x() - p.x()) / (ref.res / 1000);
      for (double z : {sx, sy}) if (std::abs(z - std::round(z)) < 0.02) bad = true;
      return W(std::floor(sx), std::floor(sy));
    };
    W b = sub(rd.origin); std::vector<W> er, em;
    for (auto& p : ret) er.push_back(sub(p.position));
    for (auto& p : mis) em.push_back(sub(p.position));
    if (bad) continue;
    rd.returns = sensor::PointCloud(ret); rd.misses = sensor::PointCloud(mis);
    NOTE("scan origin " << rd.origin.transpose());
    for (auto& p : ret) NOTE(" return " << p.position.transpose());
    for (auto& p : mis) NOTE(" miss " << p.position.transpose());
    vcn::Sig(ret.size()); vcn::Sig(mis.size()); vcn::Sig(b.first); vcn::nontrivial() = true;
    const long K = 1000000;  // make coordinates positive, whole pixels
    auto cell = [](W w) { return W(w.first >= 0 ? w.first / 1000 : -((-w.first + 999) / 1000), w.second >= 0 ? w.second / 1000 : -((-w.second + 999) / 1000)); };
    std::set<W> hits, misses;
    for (auto& e : er) hits.insert(cell(e));
    if (o.insert_free_space()) {
      auto ray = [&](W e) { for (auto& q : RayPixels(b.first + K, b.second + K, e.first + K, e.second + K, 1000)) misses.insert(W(q.first - K / 1000, q.second - K / 1000)); };
      for (auto& e : er) ray(e);
      for (auto& e : em) ray(e);
    }
    for (auto& h : hits) ref.v[h] = ht[ref.v.count(h) ? ref.v[h] : 0] - kUpdateMarker;
    for (auto& m : misses) if (!hits.count(m)) ref.v[m] = mt[ref.v.count(m) ? ref.v[m] : 0] - kUpdateMarker;
    ins.Insert(rd, &g);
    Compare(g, ref, "after a scan");
  }
}
VCN_CASE(update_sequence) {  // direct use: apply, repeat, finish
  ValueConversionTables tables;
  int nx = rng.in(1, 9), ny = rng.in(1, 9);
  Ref ref; ref.res = 0.25; ref.max0 = Eigen::Vector2d(1, 2);
  ProbabilityGrid g(MapLimits(ref.res, ref.max0, CellLimits(nx, ny)), &tables);
  std::vector<std::vector<uint16>> t;
  for (int i = 0; i < 3; ++i) t.push_back(ComputeLookupTableToApplyCorrespondenceCostOdds(Odds(rng.real(0.1, 0.9))));
  NOTE("grid " << nx << "x" << ny);
  for (int i = rng.in(0, 4); i--;) {
    Eigen::Array2i c(rng.in(0, nx - 1), rng.in(0, ny - 1));
    if (g.IsKnown(c)) continue;
    float p = rng.real(0, 1); g.SetProbability(c, p); ref.v[W(c.x(), c.y())] = CorrespondenceCostToValue(1.f - p);
    NOTE("set " << c.transpose() << " " << p);
  }
  Compare(g, ref, "after setting probabilities");
  for (int round = rng.in(1, 4); round--;) {
    std::set<W> done;
    for (int k = rng.in(0, 40); k--;) {
      Eigen::Array2i c(rng.in(0, nx - 1), rng.in(0, ny - 1)); int j = rng.in(0, 2);
      W w(c.x(), c.y());
      NOTE("apply " << c.transpose() << " table " << j);
      bool r = g.ApplyLookupTable(c, t[j]);
      REQUIRE(r == done.insert(w).second, "updated exactly on the first application in a sequence");
      if (r) ref.v[w] = t[j][ref.v.count(w) ? ref.v[w] : 0] - kUpdateMarker;
      REQUIRE(g.GetProbability(c) == 1.f - ValueToCorrespondenceCost(ref.v[w]), "value visible during the sequence");
    }
    g.FinishUpdate();
    if (rng.one_in(3)) g.FinishUpdate();
    NOTE("finish");
    vcn::Sig(done.size()); vcn::Sig(nx * 100 + ny); vcn::nontrivial() = true;
    Compare(g, ref, "after finishing the update");
  }
}
