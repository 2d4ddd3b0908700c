// The search window only loses poses at which no point of the scan hits the grid.
#include "vc_begin.h"
#include "cartographer/mapping/internal/2d/scan_matching/correlative_scan_matcher_2d.h"
#include "cartographer/mapping/internal/2d/scan_matching/correlative_scan_matcher_2d.cc"
using namespace cartographer::mapping;
using namespace cartographer::mapping::scan_matching;
typedef SearchParameters::LinearBounds Bounds;
static SearchParameters* SP; static std::vc_vector<DiscreteScan2D>* SC; static CellLimits* CL;
static int64_t S0, P0, PX, PY;   // ghost: one arbitrary scan and point of it
static int64_t AX, BX, AY, BY;   // its bounds before
static Bounds& B() { return SP->linear_bounds.d_[S0]; }
static bool Old() { return B().min_x == AX && B().max_x == BX && B().min_y == AY && B().max_y == BY; }
static bool New() {
  const Bounds& b = B();
  return b.min_x >= AX && b.max_x <= BX && b.min_y >= AY && b.max_y <= BY && b.min_x <= 0 && b.max_x >= 0 && b.min_y <= 0 && b.max_y >= 0 &&
         (b.min_x == AX || b.min_x <= -PX) && (b.min_y == AY || b.min_y <= -PY) && (b.max_x == BX || b.max_x >= CL->num_x_cells - 1 - PX) && (b.max_y == BY || b.max_y >= CL->num_y_cells - 1 - PY);
}
VC_INV(scans) { return vcx_iter() <= S0 ? Old() : New(); }
VC_INV(points) {
  int64_t i = vcx_outer_iter(), k = vcx_iter();
  if (i > S0) return New();
  if (!Old()) return false;
  const Eigen::Array2i& lo = vc::local<Eigen::Array2i>("min_bound", ""), &hi = vc::local<Eigen::Array2i>("max_bound", "");
  if (!(lo.x() <= 0 && lo.y() <= 0 && hi.x() >= 0 && hi.y() >= 0)) return false;
  if (i < S0 || k <= P0) return true;
  return lo.x() <= -PX && lo.y() <= -PY && hi.x() >= CL->num_x_cells - 1 - PX && hi.y() >= CL->num_y_cells - 1 - PY;
}
VC_HARNESS(shrink) {
  SP = vc::any_obj<SearchParameters>("sp"); SC = vc::any_obj<std::vc_vector<DiscreteScan2D>>("scans"); CL = vc::any_obj<CellLimits>("limits");
  vc_assume(CL->num_x_cells >= 0 && CL->num_x_cells < (1 << 28) && CL->num_y_cells >= 0 && CL->num_y_cells < (1 << 28));
  SP->num_scans = vc::any_int("num_scans", 1, 1 << 20);
  SP->linear_bounds.d_ = static_cast<Bounds*>(vcx_alloc(sizeof(Bounds), "bounds")); SP->linear_bounds.n_ = SP->num_scans;
  SC->d_ = static_cast<DiscreteScan2D*>(vcx_alloc(sizeof(DiscreteScan2D), "scan")); SC->n_ = SP->num_scans;
  auto* sd = SC->d_;
  vc_assume(vc::forall(0, SP->num_scans, [=](int64_t i) { return sd[i].n_ >= 0 && sd[i].n_ < (1 << 22); }));
  S0 = vc::any_i64("scan", 0, 1 << 20); P0 = vc::any_i64("point", 0, 1 << 22); vc_assume(S0 < SP->num_scans && P0 < sd[S0].n_ && sd[S0].n_ < (1 << 22));
  auto* p = sd[S0].d_; vcx_array_of(p, 8);
  vc_assume(vc::forall(0, SP->num_scans, [=](int64_t i) { auto* q = sd[i].d_; return vc::forall(0, sd[i].n_, [=](int64_t k) { return q[k].x() > -(1 << 28) && q[k].x() < (1 << 28) && q[k].y() > -(1 << 28) && q[k].y() < (1 << 28); }); }));
  PX = p[P0].x(); PY = p[P0].y(); vc_assume(PX > -(1 << 28) && PX < (1 << 28) && PY > -(1 << 28) && PY < (1 << 28));
  AX = B().min_x; BX = B().max_x; AY = B().min_y; BY = B().max_y; vc_assume(AX <= 0 && BX >= 0 && AY <= 0 && BY >= 0 && AX > -(1 << 28) && AY > -(1 << 28) && BX < (1 << 28) && BY < (1 << 28));
  SP->ShrinkToFit(*SC, *CL);
  const Bounds& b = B();
  vc_assert(b.min_x >= AX && b.max_x <= BX && b.min_y >= AY && b.max_y <= BY, "the window never grows");
  vc_assert(b.min_x <= 0 && b.max_x >= 0 && b.min_y <= 0 && b.max_y >= 0, "the initial pose stays in the window");
  int64_t ox = vc::any_int("ox", -(1 << 28), 1 << 28), oy = vc::any_int("oy", -(1 << 28), 1 << 28);
  vc_assume(ox >= AX && ox <= BX && oy >= AY && oy <= BY && !(ox >= b.min_x && ox <= b.max_x && oy >= b.min_y && oy <= b.max_y));
  vc_assert(!(PX + ox >= 0 && PX + ox < CL->num_x_cells && PY + oy >= 0 && PY + oy < CL->num_y_cells), "no point hits the grid at a dropped pose");
}
