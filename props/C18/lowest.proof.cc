// The coarsest candidates cover every pose within the bounds.
#include "vc_begin.h"
#include "cartographer/mapping/internal/2d/scan_matching/correlative_scan_matcher_2d.h"
#include "cartographer/mapping/internal/2d/scan_matching/correlative_scan_matcher_2d.cc"
#include "cartographer/mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.h"
#include "cartographer/mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.cc"
using namespace cartographer::mapping;
using namespace cartographer::mapping::scan_matching;
typedef std::vc_vector<Candidate2D> List;
typedef FastCorrelativeScanMatcher2D M;
typedef SearchParameters::LinearBounds Bounds;
static SearchParameters* SP; static int64_t D, W;
static int64_t LSI, LX, LY;   // ghost: one arbitrary pose within the bounds
static int64_t C0;            // ghost: one arbitrary candidate of the result
static bool Covers(const Candidate2D& c) { return c.scan_index == LSI && c.x_index_offset <= LX && LX < c.x_index_offset + W && c.y_index_offset <= LY && LY < c.y_index_offset + W; }
static bool Good(const Candidate2D& c) {
  if (!(c.scan_index >= 0 && c.scan_index < SP->num_scans)) return false;
  const Bounds& b = SP->linear_bounds.d_[c.scan_index];
  return b.min_x <= c.x_index_offset && c.x_index_offset <= b.max_x && b.min_y <= c.y_index_offset && c.y_index_offset <= b.max_y &&
         c.x == -c.y_index_offset * SP->resolution && c.y == -c.x_index_offset * SP->resolution && c.orientation == (c.scan_index - SP->num_angular_perturbations) * SP->angular_perturbation_step_size;
}
static bool Found(const List& l) { auto* a = l.d_; int64_t n = l.n_; return n >= 1 && (Covers(a[n - 1]) || vc::exists(0, n - 1, [=](int64_t i) { return Covers(a[i]); })); }
static bool Sound(const List& l) { return l.n_ >= 0 && (C0 >= l.n_ || Good(l.d_[C0])); }
static const List& L() { return vc::local<List>("candidates", ""); }
VC_INV(scan) { int64_t k = vcx_iter(); return k >= 0 && k <= SP->num_scans && Sound(L()) && (k <= LSI || Found(L())); }
// v: an offset of the current row, on the way from lo
VC_INV(xs) {
  int64_t s = vc::local<int>("~scan_index", "int"), x = vc::local<int>("x_index_offset", "int");
  if (!(s >= 0 && s < SP->num_scans && x >= SP->linear_bounds.d_[s].min_x && Sound(L()))) return false;
  if (s > LSI) return Found(L());
  return s < LSI || x <= LX || Found(L());
}
VC_INV(ys) {
  int64_t s = vc::local<int>("~scan_index", "int"), x = vc::local<int>("x_index_offset", "int"), y = vc::local<int>("y_index_offset", "int");
  if (!(s >= 0 && s < SP->num_scans && y >= SP->linear_bounds.d_[s].min_y && x >= SP->linear_bounds.d_[s].min_x && x <= SP->linear_bounds.d_[s].max_x && Sound(L()))) return false;
  if (s > LSI) return Found(L());
  return s < LSI || x + W <= LX || (x <= LX && y <= LY) || Found(L());
}
VC_INV(count) { return true; }
extern "C" int vc_stub_depth(const PrecomputationGridStack2D*) { return static_cast<int>(D); }
VC_HARNESS(lowest) {
  auto* m = vc::any_obj<M>("matcher"); SP = vc::any_obj<SearchParameters>("sp");
  D = vc::any_int("depth", 0, 28); W = INT64_C(1) << D;
  SP->num_scans = vc::any_int("num_scans", 1, 1 << 20);
  auto* b = SP->linear_bounds.d_ = static_cast<Bounds*>(vcx_alloc(sizeof(Bounds), "bounds")); SP->linear_bounds.n_ = SP->num_scans;
  vc_assume(vc::forall(0, SP->num_scans, [=](int64_t i) { return b[i].min_x >= -(1 << 28) && b[i].max_x <= (1 << 28) && b[i].min_y >= -(1 << 28) && b[i].max_y <= (1 << 28) && b[i].min_x <= b[i].max_x && b[i].min_y <= b[i].max_y; }));
  LSI = vc::any_i64("leaf scan", 0, 1 << 20); LX = vc::any_i64("leaf x", -(1 << 28), 1 << 28); LY = vc::any_i64("leaf y", -(1 << 28), 1 << 28); C0 = vc::any_i64("c0", 0, 1 << 28);
  vc_assume(LSI < SP->num_scans && LX >= b[LSI].min_x && LX <= b[LSI].max_x && LY >= b[LSI].min_y && LY <= b[LSI].max_y);
  List r = m->GenerateLowestResolutionCandidates(*SP);
  vc_assert(Sound(r), "every candidate lies within the bounds, at its own pose");
  vc_assert(Found(r), "every pose within the bounds is below a candidate");
}
