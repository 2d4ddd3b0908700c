#include "cartographer/mapping/2d/probability_grid.h"
#include "cartographer/mapping/internal/2d/tsdf_2d.h"
#include "cartographer/mapping/probability_values.h"
#include "vcn.h"
#include <map>
#include <memory>
using namespace cartographer::mapping;
using namespace cartographer;
typedef std::pair<long, long> W;
struct Ref { double res; Eigen::Vector2d max0; std::map<W, std::pair<int, int>> v; bool tsdf; double trunc, maxw; };  // raw cell value and weight
static void Compare(const Grid2D& g, const Ref& ref, const std::string& when, bool cropped) {
  auto p = g.ToProto();
  int nx = g.limits().cell_limits().num_x_cells, ny = g.limits().cell_limits().num_y_cells;
  REQUIRE(p.cells_size() == nx * ny, when);
  if (ref.tsdf) REQUIRE(p.tsdf_2d().weight_cells_size() == nx * ny, when);
  REQUIRE(g.limits().resolution() == ref.res, when);
  long dx = std::lround((g.limits().max().y() - ref.max0.y()) / ref.res), dy = std::lround((g.limits().max().x() - ref.max0.x()) / ref.res);
  REQUIRE(g.limits().max().y() == ref.max0.y() + dx * ref.res && g.limits().max().x() == ref.max0.x() + dy * ref.res, when << ": cells moved in the world");
  size_t known = 0; int bx0 = 1 << 30, bx1 = -1, by0 = 1 << 30, by1 = -1;
  for (int y = 0; y < ny; ++y) for (int x = 0; x < nx; ++x) {
    auto it = ref.v.find(W(x - dx, y - dy));
    int want = it == ref.v.end() ? 0 : it->second.first;
    REQUIRE(int(p.cells(x + nx * y)) == want, when << ": cell " << x << "," << y << " of " << nx << "x" << ny << " holds " << p.cells(x + nx * y) << ", expected " << want);
    if (ref.tsdf) REQUIRE(int(p.tsdf_2d().weight_cells(x + nx * y)) == (want ? it->second.second : 0), when << ": weight of " << x << "," << y);
    REQUIRE(g.IsKnown(Eigen::Array2i(x, y)) == (want != 0), when);
    if (want) { ++known; bx0 = std::min(bx0, x); bx1 = std::max(bx1, x); by0 = std::min(by0, y); by1 = std::max(by1, y); }
  }
  REQUIRE(known == ref.v.size(), when << ": known cells lost: " << known << " of " << ref.v.size());
  // nothing is known outside
  for (auto& e : {Eigen::Array2i(-1, 0), Eigen::Array2i(0, -1), Eigen::Array2i(nx, 0), Eigen::Array2i(0, ny), Eigen::Array2i(nx, ny)}) {
    REQUIRE(!g.IsKnown(e), when << ": outside"); REQUIRE(g.GetCorrespondenceCost(e) == g.GetMaxCorrespondenceCost(), when << ": cost outside");
  }
  Eigen::Array2i off; CellLimits cl;
  g.ComputeCroppedLimits(&off, &cl);
  if (known) REQUIRE(off.x() <= bx0 && off.y() <= by0 && off.x() + cl.num_x_cells > bx1 && off.y() + cl.num_y_cells > by1, when << ": cropping would lose known cells");
  if (known) REQUIRE(off.x() == bx0 && off.y() == by0 && off.x() + cl.num_x_cells == bx1 + 1 && off.y() + cl.num_y_cells == by1 + 1, when << ": the cropped region is the bounding box of the known cells");
  if (!known) REQUIRE(cl.num_x_cells >= 1 && cl.num_y_cells >= 1, when);
  if (cropped && known) REQUIRE(nx == bx1 - bx0 + 1 && ny == by1 - by0 + 1, when << ": cropped to the known cells");
}
static void Run(vcn::Rng& rng, bool tsdf) {
  static const double kRes[] = {0.03125, 0.0625, 0.25, 0.5, 1.};
  Ref ref; ref.tsdf = tsdf; ref.res = kRes[rng.in(0, 4)]; ref.max0 = Eigen::Vector2d(rng.in(-20, 20) * ref.res, rng.in(-20, 20) * ref.res);
  ref.trunc = rng.dyadic(1, 4, 2); ref.maxw = rng.in(1, 200);
  ValueConversionTables tables;
  CellLimits cl(rng.in(1, 9), rng.in(1, 9));
  MapLimits l(ref.res, ref.max0, cl);
  std::unique_ptr<Grid2D> g;
  auto mk = [&](const proto::Grid2D& p) -> std::unique_ptr<Grid2D> { if (tsdf) return std::make_unique<TSDF2D>(p, &tables); return std::make_unique<ProbabilityGrid>(p, &tables); };
  if (tsdf) g = std::make_unique<TSDF2D>(l, ref.trunc, ref.maxw, &tables); else g = std::make_unique<ProbabilityGrid>(l, &tables);
  NOTE((tsdf ? "tsdf" : "probability") << " res " << ref.res << " max " << ref.max0.transpose() << " cells " << cl.num_x_cells << "x" << cl.num_y_cells);
  Compare(*g, ref, "new grid", false);
  for (int step = rng.in(1, 10); step--;) {
    int nx = g->limits().cell_limits().num_x_cells, ny = g->limits().cell_limits().num_y_cells;
    if (static_cast<long>(nx) * ny > 400000) break;
    switch (rng.in(0, 3)) {
      case 0: case 1: {
        long dx = std::lround((g->limits().max().y() - ref.max0.y()) / ref.res), dy = std::lround((g->limits().max().x() - ref.max0.x()) / ref.res);
        for (int k = rng.in(1, 6); k--;) {
          Eigen::Array2i c(rng.in(0, nx - 1), rng.in(0, ny - 1));
          if (rng.one_in(4)) c = Eigen::Array2i(rng.coin() ? 0 : nx - 1, rng.coin() ? 0 : ny - 1);
          if (tsdf) {
            float d = rng.real(-ref.trunc, ref.trunc), w = rng.real(0, ref.maxw);
            auto* t = static_cast<TSDF2D*>(g.get());
            if (t->CellIsUpdated(c)) continue;
            NOTE("set " << c.transpose() << " tsd " << d << " weight " << w);
            t->SetCell(c, d, w); 
            g->FinishUpdate();
            auto tw = t->GetTSDAndWeight(c);
            REQUIRE(std::abs(tw.first - d) <= ref.trunc / 32766 * 1.01 + 1e-6 && std::abs(tw.second - w) <= ref.maxw / 65532 * 1.01 + 1e-5, "stored value of a cell " << tw.first << " " << tw.second);
            auto p = g->ToProto();
            int fi = c.x() + nx * c.y();
            ref.v[W(c.x() - dx, c.y() - dy)] = {p.cells(fi), p.tsdf_2d().weight_cells(fi)};
          } else {
            if (g->IsKnown(c)) continue;
            float pr = rng.real(0.1, 0.9);
            NOTE("set " << c.transpose() << " probability " << pr);
            static_cast<ProbabilityGrid*>(g.get())->SetProbability(c, pr);
            ref.v[W(c.x() - dx, c.y() - dy)] = {CorrespondenceCostToValue(1.f - pr), 0};
          }
        }
        Compare(*g, ref, "after setting cells", false);
        break; }
      case 2: {
        int far = rng.one_in(4) ? 120 : 14;
        Eigen::Vector2f p(ref.max0.x() - ref.res * (rng.in(-far, far) + 0.5), ref.max0.y() - ref.res * (rng.in(-far, far) + 0.5));
        NOTE("grow to " << p.transpose());
        MapLimits before = g->limits();
        bool inside = before.Contains(before.GetCellIndex(p));
        g->GrowLimits(p);
        REQUIRE(g->limits().Contains(g->limits().GetCellIndex(p)), "the point is inside after growing");
        REQUIRE(g->limits().cell_limits().num_x_cells >= nx && g->limits().cell_limits().num_y_cells >= ny, "grows");
        if (inside) REQUIRE(g->limits().cell_limits().num_x_cells == nx && g->limits().cell_limits().num_y_cells == ny && g->limits().max() == before.max(), "a point already inside changes nothing");
        // the old rectangle stays inside
        long ddx = std::lround((g->limits().max().y() - before.max().y()) / ref.res), ddy = std::lround((g->limits().max().x() - before.max().x()) / ref.res);
        REQUIRE(ddx >= 0 && ddy >= 0 && ddx + nx <= g->limits().cell_limits().num_x_cells && ddy + ny <= g->limits().cell_limits().num_y_cells, "every old cell is still in the grid");
        Compare(*g, ref, "after growing", false);
        break; }
      case 3: {
        auto c = g->ComputeCroppedGrid();
        NOTE("crop");
        Compare(*c, ref, "after cropping", true);
        auto d = mk(c->ToProto());
        Compare(*d, ref, "after cropping and a proto round trip", true);
        REQUIRE(d->GetMinCorrespondenceCost() == c->GetMinCorrespondenceCost() && d->GetMaxCorrespondenceCost() == c->GetMaxCorrespondenceCost(), "cost range");
        Compare(*mk(g->ToProto()), ref, "after a proto round trip", false);
        if (rng.coin()) { g = std::move(c); NOTE("continue with the cropped grid"); }
        break; }
    }
    vcn::Sig(nx * 1000 + ny); vcn::Sig(ref.v.size()); vcn::nontrivial() = true;
  }
}
VCN_CASE(probability_grid) { Run(rng, false); }
VCN_CASE(tsdf) { Run(rng, true); }
