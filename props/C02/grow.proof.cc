// Contract of Grid2D::GrowLimits: growing never moves or loses map content.
#include "vc_begin.h"
#include "cartographer/mapping/2d/grid_2d.h"
#include "cartographer/mapping/2d/grid_2d.cc"
#include "cartographer/mapping/2d/probability_grid.h"
#include "cartographer/mapping/2d/probability_grid.cc"
using namespace cartographer::mapping;
using cartographer::uint16;
extern "C" const std::vc_vector<float>* vc_stub_table(ValueConversionTables*, float, float, float) { return new std::vc_vector<float>(); }

static ProbabilityGrid* GRID;
static int NX, NY;              // size at entry
static double RES, MX, MY;      // resolution and corner at entry
static int GX, GY; static int V0;  // ghost: an arbitrary cell of the entry grid and its value
static int BX0, BY0, BX1, BY1; static bool BEMPTY;
static bool GROWN_ONCE;

// Number of cells by which the grid has been extended before index 0, as a
// function of its size (each growth doubles the grid around its middle).
static int64_t DX() { return (static_cast<int64_t>(GRID->limits_.cell_limits_.num_x_cells) - NX) / 2; }
static int64_t DY() { return (static_cast<int64_t>(GRID->limits_.cell_limits_.num_y_cells) - NY) / 2; }
static bool InGrid(int64_t x, int64_t y) { return x >= 0 && y >= 0 && x < GRID->limits_.cell_limits_.num_x_cells && y < GRID->limits_.cell_limits_.num_y_cells; }

VC_INV(outer) {
  const MapLimits& l = GRID->limits_;
  int64_t nx = l.cell_limits_.num_x_cells, ny = l.cell_limits_.num_y_cells;
  if (!(nx >= NX && ny >= NY && (nx == NX || nx % 2 == 0) && (ny == NY || ny % 2 == 0))) return false;
  int64_t dx = DX(), dy = DY();
  if (!(l.resolution_ == RES && l.max_.y() == MY + RES * dx && l.max_.x() == MX + RES * dy)) return false;
  if (GRID->correspondence_cost_cells_.n_ != nx * ny) return false;
  if (InGrid(GX + dx, GY + dy) && GRID->correspondence_cost_cells_.d_[(GX + dx) + nx * (GY + dy)] != V0) return false;
  auto& b = GRID->known_cells_box_;
  if (BEMPTY) return b.isEmpty();
  return b.min().x() == BX0 + dx && b.max().x() == BX1 + dx && b.min().y() == BY0 + dy && b.max().y() == BY1 + dy;
}
// the copy loops: rows before i (and, in row i, columns before j) are copied
static bool Copied(int64_t i, int64_t j) {
  auto& nc = vc::local<std::vc_vector<uint16>>("new_cells", "vector<unsigned short");
  int64_t stride = vc::local<int64_t>("stride", ""), offset = vc::local<int64_t>("offset", "");
  int64_t nx = GRID->limits_.cell_limits_.num_x_cells, ny = GRID->limits_.cell_limits_.num_y_cells;
  int64_t xo = nx / 2, yo = ny / 2;
  if (!(stride == 2 * nx && offset == xo + stride * yo && nc.n_ == 4 * nx * ny)) return false;
  int64_t ox = GX + DX(), oy = GY + DY(), x = ox + xo, y = oy + yo;
  if (!(x >= 0 && y >= 0 && x < stride && y < 2 * ny)) return true;
  vcx_hint_flat(x, y, stride, 2 * ny);
  vcx_hint_flat(j - 1 + xo, i + yo, stride, 2 * ny);
  vcx_hint_flat(ox, oy, nx, ny);
  vcx_hint_flat(j - 1, i, nx, ny);
  bool done = InGrid(ox, oy) && (oy < i || (oy == i && ox < j));
  return nc.d_[x + stride * y] == (done ? V0 : 0);
}
VC_INV(rows) { return Copied(vcx_iter(), 0); }
VC_INV(cols) { return Copied(vc::local<int64_t>("i", ""), vcx_iter()); }
VC_HARNESS(grow) {
  RES = vc::any_real("resolution"); vc_assume(RES > 0.);
  NX = vc::any_int("nx", 1, 1 << 12); NY = vc::any_int("ny", 1, 1 << 12);
  MX = vc::any_real("mx"); MY = vc::any_real("my");
  GRID = new ProbabilityGrid(MapLimits(RES, Eigen::Vector2d(MX, MY), CellLimits(NX, NY)), vc::any_obj<ValueConversionTables>("tables"));
  GRID->correspondence_cost_cells_.d_ = static_cast<uint16*>(vcx_alloc(2, "cells"));
  // an arbitrary cell of the plane, relative to the grid at entry: inside it (value V0) or not (unknown)
  GX = vc::any_int("gx", -(1 << 28), 1 << 28); GY = vc::any_int("gy", -(1 << 28), 1 << 28);
  V0 = InGrid(GX, GY) ? GRID->correspondence_cost_cells_.d_[GX + NX * GY] : 0;
  BX0 = vc::any_int("bx0", 0, 1 << 12); BX1 = vc::any_int("bx1", 0, 1 << 12); BY0 = vc::any_int("by0", 0, 1 << 12); BY1 = vc::any_int("by1", 0, 1 << 12);
  BEMPTY = vc::any_bool("nothing known");
  if (!BEMPTY) { vc_assume(BX0 <= BX1 && BY0 <= BY1); GRID->known_cells_box_ = Eigen::AlignedBox2i(Eigen::Vector2i(BX0, BY0), Eigen::Vector2i(BX1, BY1)); }
  Eigen::Vector2f p(vc::any_float("px"), vc::any_float("py"));
  GRID->Grid2D::GrowLimits(p);
  vc_assert(GRID->limits().Contains(GRID->limits().GetCellIndex(p)), "the point is inside the grown limits");
  int64_t dx = DX(), dy = DY();
  vc_assert(GRID->limits().resolution() == RES, "the resolution is kept");
  vc_assert(GRID->limits().max().y() == MY + RES * dx && GRID->limits().max().x() == MX + RES * dy, "cells keep their place in the world");
  vc_assert(dx >= 0 && dy >= 0 && NX + dx <= GRID->limits().cell_limits().num_x_cells && NY + dy <= GRID->limits().cell_limits().num_y_cells, "every old cell is a cell of the grown grid");
  if (InGrid(GX + dx, GY + dy)) vc_assert(GRID->correspondence_cost_cells_[GRID->ToFlatIndex(Eigen::Array2i(GX + dx, GY + dy))] == V0, "an old cell keeps its value, a new cell is unknown");
}
