// Contracts of MapLimits and XYIndexRangeIterator.
#include "vc_begin.h"
#include "cartographer/mapping/2d/map_limits.h"
using namespace cartographer::mapping;

static MapLimits AnyLimits() {
  double res = vc::any_real("resolution");
  vc_assume(res > 0.);
  Eigen::Vector2d max(vc::any_real("max_x"), vc::any_real("max_y"));
  return MapLimits(res, max, CellLimits(vc::any_int("num_x", 1, 1 << 30), vc::any_int("num_y", 1, 1 << 30)));
}
static Eigen::Array2i AnyIndex() {
  return Eigen::Array2i(vc::any_int("ix", -(1 << 30), 1 << 30), vc::any_int("iy", -(1 << 30), 1 << 30));
}
// the centre of every cell, inside the map or not, lies in that cell
VC_HARNESS(center_round_trip) {
  MapLimits l = AnyLimits();
  Eigen::Array2i i = AnyIndex();
  Eigen::Vector2f c = l.GetCellCenter(i);
  Eigen::Array2i j = l.GetCellIndex(c);
  vc_assert(j[0] == i[0] && j[1] == i[1], "index of the centre is the cell");
}
// every point lies within half a cell of the centre of its cell; all cells tile
VC_HARNESS(point_in_cell) {
  MapLimits l = AnyLimits();
  Eigen::Vector2f p(vc::any_float("px"), vc::any_float("py"));
  double r = l.resolution();
  vc_assume((l.max().x() - p.x()) / r <= 1e9 && (l.max().x() - p.x()) / r >= -1e9);
  vc_assume((l.max().y() - p.y()) / r <= 1e9 && (l.max().y() - p.y()) / r >= -1e9);
  Eigen::Array2i i = l.GetCellIndex(p);
  Eigen::Vector2f c = l.GetCellCenter(i);
  vc_assert(2. * (p.x() - c.x()) <= r && 2. * (c.x() - p.x()) <= r, "x within half a cell");
  vc_assert(2. * (p.y() - c.y()) <= r && 2. * (c.y() - p.y()) <= r, "y within half a cell");
}
// a strictly interior point of the map rectangle is Contained, an exterior one is not
VC_HARNESS(contains) {
  MapLimits l = AnyLimits();
  Eigen::Array2i i = AnyIndex();
  bool in = i[0] >= 0 && i[1] >= 0 && i[0] < l.cell_limits().num_x_cells && i[1] < l.cell_limits().num_y_cells;
  vc_assert(l.Contains(i) == in, "Contains is the index box");
}
VC_HARNESS(interior_contained) {
  MapLimits l = AnyLimits();
  Eigen::Vector2f p(vc::any_float("px"), vc::any_float("py"));
  double r = l.resolution();
  vc_assume(p.x() < l.max().x() && p.y() < l.max().y());
  vc_assume(p.x() > l.max().x() - r * l.cell_limits().num_y_cells);
  vc_assume(p.y() > l.max().y() - r * l.cell_limits().num_x_cells);
  vc_assert(l.Contains(l.GetCellIndex(p)), "point strictly inside the limits is contained");
}
VC_HARNESS(exterior_not_contained) {
  MapLimits l = AnyLimits();
  Eigen::Vector2f p(vc::any_float("px"), vc::any_float("py"));
  double r = l.resolution();
  vc_assume((l.max().x() - p.x()) / r <= 1e9 && (l.max().x() - p.x()) / r >= -1e9);
  vc_assume((l.max().y() - p.y()) / r <= 1e9 && (l.max().y() - p.y()) / r >= -1e9);
  vc_assume(p.x() > l.max().x() || p.y() > l.max().y() || p.x() < l.max().x() - r * l.cell_limits().num_y_cells ||
            p.y() < l.max().y() - r * l.cell_limits().num_x_cells);
  vc_assert(!l.Contains(l.GetCellIndex(p)), "point outside the limits is not contained");
}
// The iterator visits the box in row-major order: state k is cell
// (min.x + k % w, min.y + k / w). Established by begin(), kept by ++, and
// equality with end() holds exactly at k = w * h.
VC_HARNESS(iterator_begin) {
  int nx = vc::any_int("nx", 1, 1 << 30), ny = vc::any_int("ny", 1, 1 << 30);
  XYIndexRangeIterator it{CellLimits(nx, ny)};
  XYIndexRangeIterator b = it.begin();
  vc_assert((*b)[0] == 0 && (*b)[1] == 0, "begins at the first cell");
  vc_assert(b != it.end(), "a non-empty box is not empty");
}
VC_HARNESS(iterator_step) {
  int ax = vc::any_int("ax", -(1 << 28), 1 << 28), ay = vc::any_int("ay", -(1 << 28), 1 << 28);
  int bx = vc::any_int("bx", -(1 << 28), 1 << 28), by = vc::any_int("by", -(1 << 28), 1 << 28);
  vc_assume(ax <= bx && ay <= by);
  XYIndexRangeIterator it(Eigen::Array2i(ax, ay), Eigen::Array2i(bx, by));
  XYIndexRangeIterator cur = it.begin();
  int x = vc::any_int("x", -(1 << 28), 1 << 28), y = vc::any_int("y", -(1 << 28), 1 << 28);
  vc_assume(x >= ax && x <= bx && y >= ay && y <= by);
  *cur = Eigen::Array2i(x, y);
  vc_assert(cur != it.end(), "a cell of the box is not the end");
  ++cur;
  if (x < bx) {
    vc_assert((*cur)[0] == x + 1 && (*cur)[1] == y, "next cell in the row");
  } else {
    vc_assert((*cur)[0] == ax && (*cur)[1] == y + 1, "first cell of the next row");
  }
  vc_assert((cur == it.end()) == (x == bx && y == by), "ends exactly after the last cell");
}
