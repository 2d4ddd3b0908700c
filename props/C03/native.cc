#include "cartographer/mapping/2d/map_limits.h"
#include "vcn.h"
using namespace cartographer::mapping;
static MapLimits Any(vcn::Rng& rng) {
  static const double kRes[] = {0.03125, 0.0625, 0.125, 0.25, 0.5, 1., 2., 4.};
  double r = kRes[rng.in(0, 7)];
  int big = rng.one_in(4) ? 3000 : 40;
  Eigen::Vector2d max(rng.dyadic(-64, 64, 5), rng.dyadic(-64, 64, 5));
  CellLimits c(rng.in(1, big), rng.in(1, big));
  NOTE("resolution " << r << " max " << max.transpose() << " cells " << c.num_x_cells << " x " << c.num_y_cells);
  vcn::Sig(c.num_x_cells); vcn::Sig(c.num_y_cells); vcn::Sig(uint64_t(r * 64)); vcn::nontrivial() = true;
  return MapLimits(r, max, c);
}
VCN_CASE(round_trip) {
  MapLimits l = Any(rng);
  for (int k = 0; k < 40; ++k) {
    Eigen::Array2i i(rng.in(-2000, 4000), rng.in(-2000, 4000));
    Eigen::Vector2f c = l.GetCellCenter(i);
    REQUIRE(c.x() == float(l.max().x() - l.resolution() * (i[1] + 0.5)) && c.y() == float(l.max().y() - l.resolution() * (i[0] + 0.5)), i.transpose());
    REQUIRE((l.GetCellIndex(c) == i).all(), "index of the centre of " << i.transpose());
    bool in = i[0] >= 0 && i[1] >= 0 && i[0] < l.cell_limits().num_x_cells && i[1] < l.cell_limits().num_y_cells;
    REQUIRE(l.Contains(i) == in, "Contains " << i.transpose());
    // strictly inside the cell
    double h = l.resolution() * rng.in(-31, 31) / 64., g = l.resolution() * rng.in(-31, 31) / 64.;
    Eigen::Vector2f p(l.max().x() - l.resolution() * (i[1] + 0.5) + h, l.max().y() - l.resolution() * (i[0] + 0.5) + g);
    REQUIRE((l.GetCellIndex(p) == i).all(), "point " << p.transpose() << " is in cell " << i.transpose());
  }
}
VCN_CASE(edges) {  // the border cells and the corners of the index box
  MapLimits l = Any(rng);
  int X = l.cell_limits().num_x_cells, Y = l.cell_limits().num_y_cells;
  for (int x : {-1, 0, X / 2, X - 1, X, X + 1}) for (int y : {-1, 0, Y / 2, Y - 1, Y, Y + 1}) {
    Eigen::Array2i i(x, y);
    REQUIRE(l.Contains(i) == (x >= 0 && y >= 0 && x < X && y < Y), "Contains " << i.transpose());
    REQUIRE((l.GetCellIndex(l.GetCellCenter(i)) == i).all(), i.transpose());
  }
}
VCN_CASE(proto) {
  MapLimits l = Any(rng);
  MapLimits m(ToProto(l));
  REQUIRE(m.resolution() == l.resolution() && m.max() == l.max() && m.cell_limits().num_x_cells == l.cell_limits().num_x_cells && m.cell_limits().num_y_cells == l.cell_limits().num_y_cells, "proto round trip");
}
VCN_CASE(iterate) {
  int ax = rng.in(-30, 30), ay = rng.in(-30, 30), w = rng.one_in(3) ? 1 : rng.in(1, 20), h = rng.one_in(3) ? 1 : rng.in(1, 20);
  bool lim = rng.coin(); if (lim) ax = ay = 0;
  NOTE("box at " << ax << "," << ay << " size " << w << " x " << h << " from limits " << lim);
  vcn::Sig(ax + 50); vcn::Sig(ay + 50); vcn::Sig(w); vcn::Sig(h); vcn::nontrivial() = true;
  XYIndexRangeIterator it = lim ? XYIndexRangeIterator(CellLimits(w, h)) : XYIndexRangeIterator(Eigen::Array2i(ax, ay), Eigen::Array2i(ax + w - 1, ay + h - 1));
  int n = 0;
  for (const Eigen::Array2i& xy : it) {
    REQUIRE(n < w * h, "visits too many cells");
    REQUIRE(xy[0] == ax + n % w && xy[1] == ay + n / w, "visit " << n << " is " << xy.transpose());
    ++n;
  }
  REQUIRE(n == w * h, "visited " << n << " cells");
}
