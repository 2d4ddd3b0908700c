// Candidate scores are upper bounds, and branch and bound returns the best leaf.
#include "vc_begin.h"
#include "cartographer/mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.h"
#include "cartographer/mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.cc"
using namespace cartographer::mapping;
using namespace cartographer::mapping::scan_matching;
using cartographer::uint8;
typedef std::vc_vector<Candidate2D> List;
typedef FastCorrelativeScanMatcher2D M;
static int64_t Max(int64_t a, int64_t b) { return a > b ? a : b; }
static int64_t Min(int64_t a, int64_t b) { return a < b ? a : b; }

// ---- the encoding is monotone and fits
VC_HARNESS(cell_value) {
  auto* p = vc::any_obj<PrecomputationGrid2D>("grid");
  float lo = p->min_score_, hi = p->max_score_, a = vc::any_float("a"), b = vc::any_float("b");
  vc_assume(lo < hi && lo <= a && a <= b && b <= hi);
  int64_t va = p->ComputeCellValue(a), vb = p->ComputeCellValue(b);
  vc_assert(va <= vb, "the encoding is monotone");
  vc_assert(va >= 0 && vb <= 255, "codes fit in a byte");
  double s = p->ToScore(static_cast<float>(va)), half = (hi - lo) / 510.;
  vc_assert(s - a <= half && a - s <= half, "the score of a code is within half a step of the value");
  vc_assert(p->ToScore(static_cast<float>(va)) <= p->ToScore(static_cast<float>(vb)), "scores are monotone");
}
// ---- a cell is an upper bound of all cells in its window
static float Value(int64_t x, int64_t y) { return vcx_ufr2("value", x, y); }
VC_HARNESS(get_value) {
  auto* p = vc::any_obj<PrecomputationGrid2D>("grid");
  int64_t nx = vc::any_int("nx", 1, 1 << 14), ny = vc::any_int("ny", 1, 1 << 14), w = vc::any_int("w", 1, 1 << 14);
  const_cast<Eigen::Array2i&>(p->offset_) = Eigen::Array2i(1 - w, 1 - w);
  const_cast<CellLimits&>(p->wide_limits_) = CellLimits(nx + w - 1, ny + w - 1);
  p->cells_.d_ = static_cast<uint8*>(vcx_alloc(1, "cells")); p->cells_.d_[0] = vc::any_int("c0", 0, 255); p->cells_.n_ = (nx + w - 1) * (ny + w - 1);
  int64_t x = vc::any_int("x", -(1 << 28), 1 << 28), y = vc::any_int("y", -(1 << 28), 1 << 28);
  int64_t lx = x + w - 1, ly = y + w - 1, s = nx + w - 1;
  bool in = lx >= 0 && ly >= 0 && lx < s && ly < ny + w - 1;
  if (in) vcx_hint_flat(lx, ly, s, ny + w - 1);
  int v = p->GetValue(Eigen::Array2i(x, y));
  if (!in) { vc_assert(v == 0, "nothing outside of the wide grid"); }
  else vc_assert(v == p->cells_.d_[lx + ly * s], "the cell's own value");
  // a cell (x1, y1) of the grid in the window of (x, y)
  int64_t x1 = vc::any_int("x1", 0, 1 << 14), y1 = vc::any_int("y1", 0, 1 << 14);
  vc_assume(x1 < nx && y1 < ny && x <= x1 && x1 < x + w && y <= y1 && y1 < y + w);
  vc_assert(in, "its window is in the wide grid");
  int64_t xa = Max(lx - w + 1, 0), xb = Min(lx + 1, nx), ya = Max(ly - w + 1, 0), yb = Min(ly + 1, ny);
  vc_assert(xa <= x1 && x1 < xb && ya <= y1 && y1 < yb, "the window of the cell contains it");
  if (w == 1) vc_assert(xb == xa + 1 && yb == ya + 1, "windows of width one are single cells");
}
// ---- ScoreCandidates: exact score, and an upper bound for the leaves below
static const std::vc_vector<DiscreteScan2D>* SC; static List* CL; static PrecomputationGrid2D* PG;
static int64_t C0, DX, DY, SORTED;   // ghost candidate and leaf below it
static int CS, CX, CY;
static Eigen::Array2i* Pts() { return SC->d_[CS].d_; }
static int64_t N() { return SC->d_[CS].n_; }
static int64_t Sum(int64_t k) { return vcx_uf1("sum", k); }
static int64_t Leaf(int64_t k) { return vcx_uf1("leafsum", k); }
static int64_t Val(int64_t x, int64_t y) { return vcx_uf2("val:0:255", x, y); }
static int64_t Val0(int64_t x, int64_t y) { return vcx_uf2("val0:0:255", x, y); }
extern "C" int vc_stub_get(const PrecomputationGrid2D* p, const Eigen::Array2i& i) {
  vc_assert(p == PG, "the given grid");
  vc_assume(Val(i.x(), i.y()) >= Val0(i.x() + DX, i.y() + DY));   // get_value: the leaf's cell is in the window
  return Val(i.x(), i.y());
}
extern "C" void vc_stub_sort(Candidate2D* b, Candidate2D* e) { vc_assert(b == CL->d_ && e == CL->d_ + CL->n_, "all candidates are sorted"); ++SORTED; }
static void Def(int64_t k) {
  Eigen::Array2i* p = Pts();
  vcx_define(Sum(0) == 0); vcx_define(Leaf(0) == 0);
  if (k >= 0 && k < N()) {
    vcx_define(Sum(k + 1) == Sum(k) + Val(p[k].x() + CX, p[k].y() + CY));
    vcx_define(Leaf(k + 1) == Leaf(k) + Val0(p[k].x() + CX + DX, p[k].y() + CY + DY));
  }
}
static bool IsC(const Candidate2D& c) { return c.scan_index == CS && c.x_index_offset == CX && c.y_index_offset == CY; }
static float Score() { return PG->ToScore(Sum(N()) / static_cast<float>(N())); }
VC_INV(cands) {
  int64_t k = vcx_iter();
  if (SORTED != 0 || !IsC(CL->d_[C0])) return false;
  return k <= C0 || (CL->d_[C0].score == Score() && Sum(N()) >= Leaf(N()));
}
VC_INV(points) {
  int64_t i = vcx_outer_iter(), k = vcx_iter();
  if (SORTED != 0 || !IsC(CL->d_[C0])) return false;
  if (i < C0) return true;
  if (i > C0) return CL->d_[C0].score == Score() && Sum(N()) >= Leaf(N());
  Def(k);
  return vc::local<int>("sum", "int") == Sum(k) && Sum(k) >= Leaf(k) && Sum(k) <= 255 * k;
}
VC_HARNESS(score) {
  auto* m = vc::any_obj<M>("matcher"); PG = vc::any_obj<PrecomputationGrid2D>("grid");
  vc_assume(PG->min_score_ <= PG->max_score_);
  auto* sc = vc::any_obj<std::vc_vector<DiscreteScan2D>>("scans"); SC = sc;
  sc->d_ = static_cast<DiscreteScan2D*>(vcx_alloc(sizeof(DiscreteScan2D), "scan")); sc->n_ = vc::any_i64("nscans", 1, 1 << 20);
  auto* cl = vc::any_obj<List>("cands"); CL = cl;
  cl->d_ = static_cast<Candidate2D*>(vcx_alloc(sizeof(Candidate2D), "cand")); cl->n_ = vc::any_i64("ncands", 1, 1 << 20);
  C0 = vc::any_i64("c0", 0, 1 << 20); vc_assume(C0 < cl->n_);
  CS = cl->d_[C0].scan_index; CX = cl->d_[C0].x_index_offset; CY = cl->d_[C0].y_index_offset;
  int64_t ns = sc->n_; auto* cd = cl->d_; auto* sd = sc->d_;
  vc_assume(vc::forall(0, cl->n_, [=](int64_t i) { return cd[i].scan_index >= 0 && cd[i].scan_index < ns; }));
  vc_assume(vc::forall(0, ns, [=](int64_t i) { return sd[i].n_ >= 1 && sd[i].n_ < (1 << 22); }));
  vc_assume(CS >= 0 && CS < ns && N() >= 1 && N() < (1 << 22) && CX > -(1 << 28) && CX < (1 << 28) && CY > -(1 << 28) && CY < (1 << 28));
  auto* p = Pts(); vcx_array_of(p, 8);
  vc_assume(vc::forall(0, N(), [=](int64_t i) { return p[i].x() > -(1 << 28) && p[i].x() < (1 << 28) && p[i].y() > -(1 << 28) && p[i].y() < (1 << 28); }));
  DX = vc::any_i64("dx", 0, 1 << 15); DY = vc::any_i64("dy", 0, 1 << 15); SORTED = 0;
  auto* sp = vc::any_obj<SearchParameters>("sp");
  m->ScoreCandidates(*PG, *sc, *sp, cl);
  vc_assert(SORTED == 1, "the candidates are sorted once, after scoring");
  vc_assert(IsC(cl->d_[C0]) && cl->d_[C0].score == Score(), "the score is the mean value, as a score");
  vc_assert(cl->d_[C0].score >= PG->ToScore(Leaf(N()) / static_cast<float>(N())), "and an upper bound for the leaves below");
}
