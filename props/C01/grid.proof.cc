// Contracts of ProbabilityGrid / Grid2D updates.
#include "vc_begin.h"
#include "cartographer/mapping/2d/grid_2d.h"
#include "cartographer/mapping/2d/grid_2d.cc"
#include "cartographer/mapping/2d/probability_grid.h"
#include "cartographer/mapping/2d/probability_grid.cc"
using namespace cartographer::mapping;
using cartographer::uint16;

extern "C" const std::vc_vector<float>* vc_stub_table(ValueConversionTables*, float, float, float) {
  return new std::vc_vector<float>();
}
static ProbabilityGrid* GRID;
static int64_t G;            // ghost: one arbitrary flat cell
static int V0;               // its value before
static int64_t POS; static bool MARKED;   // its position in the pending list, if marked
static int NX, NY;
static uint16* CELLS; static int* UPD;

// an arbitrary grid in an arbitrary state of an update sequence
static ProbabilityGrid* AnyGrid() {
  double res = vc::any_real("resolution"); vc_assume(res > 0.);
  NX = vc::any_int("nx", 1, 1 << 15); NY = vc::any_int("ny", 1, 1 << 15);
  auto* g = new ProbabilityGrid(MapLimits(res, Eigen::Vector2d(vc::any_real("mx"), vc::any_real("my")), CellLimits(NX, NY)), vc::any_obj<ValueConversionTables>("tables"));
  g->correspondence_cost_cells_.d_ = CELLS = static_cast<uint16*>(vcx_alloc(2, "cells"));
  g->update_indices_.d_ = UPD = static_cast<int*>(vcx_alloc(4, "pending"));
  g->update_indices_.n_ = vc::any_i64("npending", 0, 1 << 30);
  int bx = vc::any_int("bx0"), by = vc::any_int("by0"), cx = vc::any_int("bx1"), cy = vc::any_int("by1");
  g->known_cells_box_ = Eigen::AlignedBox2i(Eigen::Vector2i(bx, by), Eigen::Vector2i(cx, cy));
  GRID = g;
  return g;
}
// representation invariant of the pending list with respect to cell G: the
// cell carries the update marker iff it is pending, exactly once
static bool Pending(int64_t g, int64_t pos, bool marked) {
  auto& u = GRID->update_indices_;
  auto& c = GRID->correspondence_cost_cells_;
  if (marked != (c.d_[g] >= kUpdateMarker)) return false;
  if (marked && !(pos >= 0 && pos < u.n_ && u.d_[pos] == g)) return false;
  int* d = u.d_;
  return vc::forall(0, u.n_, [d, g, pos, marked](int64_t p) { return !(d[p] == g) || (marked && p == pos); });
}
static std::vc_vector<uint16>* AnyTable() {
  auto* t = new std::vc_vector<uint16>();
  t->d_ = static_cast<uint16*>(vcx_alloc(2, "table")); t->n_ = 32768;
  uint16* d = t->d_;
  vc_assume(vc::forall(0, 32768, [d](int64_t i) { return d[i] >= 32769; }));  // postcondition of ComputeLookupTable... (C04)
  return t;
}
VC_HARNESS(construct) {
  double res = vc::any_real("resolution"); vc_assume(res > 0.);
  NX = vc::any_int("nx", 1, 1 << 15); NY = vc::any_int("ny", 1, 1 << 15);
  ProbabilityGrid g(MapLimits(res, Eigen::Vector2d(vc::any_real("mx"), vc::any_real("my")), CellLimits(NX, NY)), vc::any_obj<ValueConversionTables>("tables"));
  int x = vc::any_int("x", 0, 1 << 15), y = vc::any_int("y", 0, 1 << 15);
  vc_assume(x < NX && y < NY);
  vc_assert(!g.IsKnown(Eigen::Array2i(x, y)), "every cell of a new grid is unknown");
  vc_assert(g.known_cells_box_.isEmpty(), "no known cells");
  vc_assert(g.update_indices_.empty(), "nothing pending");
}
VC_HARNESS(apply) {
  ProbabilityGrid& g = *AnyGrid();
  int cx = vc::any_int("cx", 0, 1 << 15), cy = vc::any_int("cy", 0, 1 << 15);
  vc_assume(cx < NX && cy < NY);
  int64_t F = static_cast<int64_t>(NX) * cy + cx;
  G = vc::any_i64("G", 0, 1LL << 30); vc_assume(G < static_cast<int64_t>(NX) * NY);
  vc_assert(F >= 0 && F < static_cast<int64_t>(NX) * NY, "flat index in range");
  POS = vc::any_i64("pos"); MARKED = vc::any_bool("marked");
  vc_assume(Pending(G, POS, MARKED));
  int oldF = CELLS[F], oldG = CELLS[G];
  int64_t oldn = g.update_indices_.n_;
  auto* t = AnyTable();
  Eigen::AlignedBox2i box = g.known_cells_box_;
  bool r = g.ApplyLookupTable(Eigen::Array2i(cx, cy), *t);
  vc_assert(r == (oldF < kUpdateMarker), "updates exactly the cells not yet updated");
  vc_assert(CELLS[F] == (oldF < kUpdateMarker ? (*t)[oldF] : oldF), "the new value is the table entry of the old value, once");
  vc_assert(G == F || CELLS[G] == oldG, "no other cell changes");
  if (r) {
    auto& b = g.known_cells_box_;
    vc_assert(b.min().x() <= cx && cx <= b.max().x() && b.min().y() <= cy && cy <= b.max().y(), "an updated cell is inside the known box");
    vc_assert(b.min().x() <= box.min().x() && b.min().y() <= box.min().y() && b.max().x() >= box.max().x() && b.max().y() >= box.max().y(), "the known box only grows");
  } else {
    auto& b = g.known_cells_box_;
    vc_assert(b.min() == box.min() && b.max() == box.max(), "box unchanged");
  }
  vc_assert(Pending(G, MARKED ? POS : oldn, CELLS[G] >= kUpdateMarker), "marked iff pending exactly once");
}
VC_HARNESS(set_probability) {
  ProbabilityGrid& g = *AnyGrid();
  int cx = vc::any_int("cx", 0, 1 << 15), cy = vc::any_int("cy", 0, 1 << 15);
  vc_assume(cx < NX && cy < NY);
  int64_t F = static_cast<int64_t>(NX) * cy + cx;
  G = vc::any_i64("G", 0, 1LL << 30); vc_assume(G < static_cast<int64_t>(NX) * NY && G != F);
  int oldG = CELLS[G];
  vc_assume(CELLS[F] == 0);
  float p = vc::any_float("p");
  g.SetProbability(Eigen::Array2i(cx, cy), p);
  vc_assert(CELLS[F] >= 1 && CELLS[F] <= 32767, "a set cell is known and not marked");
  vc_assert(CELLS[F] == CorrespondenceCostToValue(1.f - p), "the value set");
  vc_assert(CELLS[G] == oldG, "no other cell changes");
  auto& b = g.known_cells_box_;
  vc_assert(b.min().x() <= cx && cx <= b.max().x() && b.min().y() <= cy && cy <= b.max().y(), "a set cell is inside the known box");
}
VC_INV(finish) {
  int64_t n = GRID->update_indices_.n_;
  if (GRID->update_indices_.d_ != UPD || GRID->correspondence_cost_cells_.d_ != CELLS) return false;
  if (n < 0) return false;
  return CELLS[G] == (MARKED && n <= POS ? V0 - 32768 : V0);
}
VC_HARNESS(finish) {
  ProbabilityGrid& g = *AnyGrid();
  G = vc::any_i64("G", 0, 1LL << 30); vc_assume(G < static_cast<int64_t>(NX) * NY);
  POS = vc::any_i64("pos"); MARKED = vc::any_bool("marked");
  vc_assume(Pending(G, POS, MARKED));
  int64_t n = static_cast<int64_t>(NX) * NY;
  int* d = UPD;
  vc_assume(vc::forall(0, g.update_indices_.n_, [d, n](int64_t p) { return d[p] >= 0 && d[p] < n; }));
  V0 = CELLS[G];
  g.FinishUpdate();
  vc_assert(g.update_indices_.empty(), "nothing pending");
  vc_assert(CELLS[G] == (V0 >= 32768 ? V0 - 32768 : V0), "the marker is removed and nothing else changes");
  vc_assert(CELLS[G] < 32768, "no cell is left marked");
}
