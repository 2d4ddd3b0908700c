// PrecomputationGrid2D: every cell holds the encoded maximum of its window,
// over the contract of SlidingWindowMaximum (window.proof.cc).
#include "vc_begin.h"
#include "cartographer/mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.h"
#include "cartographer/mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.cc"
using namespace cartographer::mapping;
using namespace cartographer::mapping::scan_matching;
using cartographer::uint8;
static int64_t NX, NY, WD, STRIDE; static float MINC, MAXC;
static PrecomputationGrid2D* P;
// ghost: one arbitrary cell of the wide grid; the windows are numbered: rows first, then columns
static int64_t X0, Y0, LO, HI, WIN;
static std::vc_vector<float>* I;
static float Value(int64_t x, int64_t y) { float c = vcx_ufr2("cost", x, y); return 1.f - (c < 0 ? -c : c); }
// maximum of the values [lo, hi) of row y, and of the row maxima [lo, hi) at wide column x
static float RowMax(int64_t y, int64_t lo, int64_t hi) { return vcx_ufr3("rowmax", y, lo, hi); }
static float ColMax(int64_t x, int64_t lo, int64_t hi) { return vcx_ufr3("colmax", x, lo, hi); }
static int64_t Max(int64_t a, int64_t b) { return a > b ? a : b; }
static int64_t Min(int64_t a, int64_t b) { return a < b ? a : b; }
static float R(int64_t y) { return RowMax(y, Max(X0 - WD + 1, 0), Min(X0 + 1, NX)); }
// place of (X0, y) in the intermediate grid: X0 + y * STRIDE, see lemma_place
static int64_t Idx(int64_t y) { return vcx_uf1("idx", y); }
static void Touch(int64_t y) { vcx_define(Idx(y) == X0 + y * STRIDE); }
extern "C" float vc_stub_cost(const Grid2D*, const Eigen::Array2i& c) {
  vc_assert(c.x() >= 0 && c.x() < NX && c.y() >= 0 && c.y() < NY, "a cell of the grid");
  return vcx_ufr2("cost", c.x(), c.y());
}
extern "C" void vc_stub_new(SlidingWindowMaximum*) { ++WIN; LO = HI = 0; }
extern "C" void vc_stub_delete(SlidingWindowMaximum*) {}
extern "C" void vc_stub_add(SlidingWindowMaximum*, float v) {
  if (WIN < NY) vc_assert(v == Value(HI, WIN), "the next value of the row is added");
  else if (WIN - NY == X0) { vc_assert(HI < NY, "a row of the grid"); Touch(HI); vc_assert(v == R(HI), "the next row maximum of the column is added"); }
  ++HI;
}
extern "C" void vc_stub_remove(SlidingWindowMaximum*, float v) {
  vc_assert(LO < HI, "nonempty window");
  if (WIN < NY) vc_assert(v == Value(LO, WIN), "the first value of the row is removed");
  else if (WIN - NY == X0) { Touch(LO); vc_assert(v == R(LO), "the first row maximum of the column is removed"); }
  ++LO;
}
extern "C" float vc_stub_max(const SlidingWindowMaximum*) { vc_assert(LO < HI, "nonempty window"); return WIN < NY ? RowMax(WIN, LO, HI) : ColMax(WIN - NY, LO, HI); }
extern "C" void vc_stub_empty(const SlidingWindowMaximum*) { vc_assert(LO == HI, "the window is empty at the end"); }
extern "C" uint8 vc_stub_value(const PrecomputationGrid2D*, float p) { return vcx_ufi_r1("code:0:255", p); }
static bool Frame() { return I->n_ == STRIDE * NY && P->cells_.n_ == STRIDE * (NY + WD - 1); }
// rows before y are done; in row y, wide columns before c
static bool Rows(int64_t y, int64_t c) {
  if (!Frame()) return false;
  Touch(y);
  float* d = I->d_;
  if (y < NY && X0 < c && d[Idx(y)] != R(y)) return false;
  return vc::forall(0, y, [d](int64_t j) { return d[Idx(j)] == R(j); });
}
VC_INV(rows) { int64_t y = vcx_iter(); return WIN == y - 1 && Rows(y, 0); }
static bool Row(int64_t x, int64_t lo, int64_t hi) { int64_t y = vcx_outer_iter(); return WIN == y && y < NY && LO == lo && HI == hi && Rows(y, x + WD - 1); }
VC_INV(row_in) { int64_t x = vcx_iter() - WD + 1; return x <= 0 && Row(x, 0, Min(x + WD, NX)); }
VC_INV(row_mid) { int64_t x = vcx_iter(); return (x == 0 || x <= NX - WD) && Row(x, x, x == 0 ? Min(WD, NX) : x + WD); }
VC_INV(row_out) { int64_t x = vcx_iter() + Max(NX - WD, 0); return x <= NX && Row(x, x, NX); }
// columns before x are done; in column x, rows before r
static bool Cols(int64_t x, int64_t r) {
  if (!Frame()) return false;
  vcx_hint_flat(X0, Y0, STRIDE, NY + WD - 1); vcx_hint_flat(x, r - 1, STRIDE, NY + WD - 1);
  if (X0 < x || (X0 == x && Y0 < r)) { if (P->cells_.d_[X0 + Y0 * STRIDE] != vcx_ufi_r1("code:0:255", ColMax(X0, Max(Y0 - WD + 1, 0), Min(Y0 + 1, NY)))) return false; }
  return true;
}
VC_INV(cols) { int64_t x = vcx_iter(); return WIN == NY + x - 1 && x <= STRIDE && Cols(x, 0); }
static bool Col(int64_t y, int64_t lo, int64_t hi) { int64_t x = vcx_outer_iter(); return WIN == NY + x && x < STRIDE && LO == lo && HI == hi && Cols(x, y + WD - 1); }
VC_INV(col_in) { int64_t y = vcx_iter() - WD + 1; return y <= 0 && Col(y, 0, Min(y + WD, NY)); }
VC_INV(col_mid) { int64_t y = vcx_iter(); return (y == 0 || y <= NY - WD) && Col(y, y, y == 0 ? Min(WD, NY) : y + WD); }
VC_INV(col_out) { int64_t y = vcx_iter() + Max(NY - WD, 0); return y <= NY && Col(y, y, NY); }
VC_HARNESS(construct) {
  NX = vc::any_int("nx", 1, 1 << 14); NY = vc::any_int("ny", 1, 1 << 14); WD = vc::any_int("width", 1, 1 << 14);
  STRIDE = NX + WD - 1; WIN = -1; LO = HI = 0;
  X0 = vc::any_i64("x0", 0, 1 << 15); Y0 = vc::any_i64("y0", 0, 1 << 15); vc_assume(X0 < STRIDE && Y0 < NY + WD - 1);
  int64_t stride = STRIDE;
  vc_assume(vc::forall(INT64_MIN, INT64_MAX, [stride](int64_t a) { return vc::forall(INT64_MIN, INT64_MAX, [=](int64_t b) { return !(a < b) || Idx(a) + stride <= Idx(b); }); }));  // lemma_place
  auto* g = vc::any_obj<Grid2D>("grid"); MINC = g->min_correspondence_cost_; MAXC = g->max_correspondence_cost_;
  I = new std::vc_vector<float>();
  P = vc::any_obj<PrecomputationGrid2D>("grid2");
  new (P) PrecomputationGrid2D(*g, CellLimits(NX, NY), WD, I);
  vc_assert(P->offset_.x() == 1 - WD && P->offset_.y() == 1 - WD && P->wide_limits_.num_x_cells == STRIDE && P->wide_limits_.num_y_cells == NY + WD - 1, "the wide grid starts width - 1 cells before the grid");
  vc_assert(P->min_score_ == 1.f - MAXC && P->max_score_ == 1.f - MINC, "range of the scores");
  vc_assert(P->cells_.d_[X0 + Y0 * STRIDE] == vcx_ufi_r1("code:0:255", ColMax(X0, Max(Y0 - WD + 1, 0), Min(Y0 + 1, NY))), "a cell holds the encoded maximum of its window");
}
VC_HARNESS(lemma_place) {
  int64_t x = vc::any_i64("x", 0, 1 << 15), s = vc::any_i64("s", 1, 1 << 15), a = vc::any_i64("a", -(1 << 30), 1 << 30), d = vc::any_i64("d", 1, 1 << 30);
  vcx_hint_mul(d - 1, s);
  vc_assert(x + a * s + s <= x + (a + d) * s, "rows of a flat grid follow each other");
}
