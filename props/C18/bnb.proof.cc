// Branch and bound over the contract of ScoreCandidates (search.proof.cc).
#include "vc_begin.h"
#include "cartographer/mapping/internal/2d/scan_matching/correlative_scan_matcher_2d.h"
#include "cartographer/mapping/internal/2d/scan_matching/correlative_scan_matcher_2d.cc"
#include "cartographer/mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.h"
#include "cartographer/mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.cc"
using namespace cartographer::mapping;
using namespace cartographer::mapping::scan_matching;
typedef std::vc_vector<Candidate2D> List;
typedef FastCorrelativeScanMatcher2D M;
typedef SearchParameters::LinearBounds Bounds;
static SearchParameters* SP; static std::vc_vector<DiscreteScan2D>* SC; static M* MA;
// ghost: one arbitrary leaf (pose) within the bounds, and its score
static int64_t LSI, LX, LY; static double LS;
static bool COVERED; static int64_t J0;   // is it below one of the candidates, and which
static double Score(int64_t d, const Candidate2D& c) { return vcx_ufr3("score", d, c.scan_index, static_cast<int64_t>(c.x_index_offset) * 1048576 + c.y_index_offset); }
static bool Covers(int64_t d, const Candidate2D& c) { int64_t w = INT64_C(1) << d; return c.scan_index == LSI && c.x_index_offset <= LX && LX < c.x_index_offset + w && c.y_index_offset <= LY && LY < c.y_index_offset + w; }
static bool InBounds(const Candidate2D& c) {
  if (!(c.scan_index >= 0 && c.scan_index < SP->num_scans)) return false;
  const Bounds& b = SP->linear_bounds.d_[c.scan_index];
  return b.min_x <= c.x_index_offset && c.x_index_offset <= b.max_x && b.min_y <= c.y_index_offset && c.y_index_offset <= b.max_y;
}
// the pose of a candidate belongs to its offsets
static bool Pose(const Candidate2D& c) { return c.x == -c.y_index_offset * SP->resolution && c.y == -c.x_index_offset * SP->resolution && c.orientation == (c.scan_index - SP->num_angular_perturbations) * SP->angular_perturbation_step_size; }
static bool Good(int64_t d, const Candidate2D& c) { return InBounds(c) && Pose(c) && c.score == Score(d, c); }
static bool Scored(int64_t d, const List& l) {
  auto* a = l.d_; int64_t n = l.n_;
  return n >= 1 && vc::forall(0, n, [=](int64_t i) { return Good(d, a[i]); }) && vc::forall(0, n, [=](int64_t i) { return vc::forall(0, n, [=](int64_t k) { return !(i < k) || a[i].score >= a[k].score; }); });
}
static bool Genuine(const Candidate2D& r) { return InBounds(r) && Pose(r) && r.score == Score(0, r); }
static int64_t D; static double MIN;
static const List* TOP; static bool TOPCOV; static int64_t T0;   // is the leaf below candidate T0 of the list
extern "C" PrecomputationGrid2D* vc_stub_getgrid(PrecomputationGridStack2D*, int i) { vc_assert(i == D - 1, "children are scored on the next finer grid"); return nullptr; }
extern "C" void vc_stub_score(const M* m, const PrecomputationGrid2D*, const std::vc_vector<DiscreteScan2D>& scans, const SearchParameters& sp, List* l) {
  vc_assert(m == MA && &scans == SC && &sp == SP, "the same search");
  vc_assert(l->n_ >= 1, "at least one child");
  bool cov = false;
  for (int64_t i = 0; i < l->n_; ++i) { vc_assert(InBounds(l->d_[i]) && Pose(l->d_[i]), "children lie within the bounds"); if (Covers(D - 1, l->d_[i])) cov = true; }
  auto* a = l->d_ = static_cast<Candidate2D*>(vcx_alloc(sizeof(Candidate2D), "scored"));
  vc_assume(Scored(D - 1, *l));
  COVERED = cov;
  if (cov) { J0 = vc::any_i64("j0", 0, 3); vc_assume(J0 < l->n_ && Covers(D - 1, a[J0])); }
}
extern "C" Candidate2D vc_stub_rec(const M* m, const std::vc_vector<DiscreteScan2D>& scans, const SearchParameters& sp, const List& l, int depth, float min_score) {
  vc_assert(m == MA && &scans == SC && &sp == SP && depth == D - 1, "the same search, one level finer");
  vc_assert(Scored(D - 1, l), "children are scored and sorted");
  Candidate2D r(0, 0, 0, sp);
  r.scan_index = vc::any_int("rs", INT32_MIN, INT32_MAX); r.x_index_offset = vc::any_int("rx", INT32_MIN, INT32_MAX); r.y_index_offset = vc::any_int("ry", INT32_MIN, INT32_MAX);
  r.x = vc::any_real("rpx"); r.y = vc::any_real("rpy"); r.orientation = vc::any_real("rpo"); r.score = vc::any_float("rscore");
  vc_assume(!(r.score > min_score) || Genuine(r));
  vc_assume(!COVERED || r.score >= LS || min_score >= LS);
  return r;
}
VC_INV(best) {
  int64_t k = vcx_iter();
  auto& b = vc::local<Candidate2D>("best_high_resolution_candidate", "");
  if (!(b.score >= MIN) || (b.score > MIN && !Genuine(b))) return false;
  return !TOPCOV || k <= T0 || b.score >= LS;
}
static void Setup(int d) {
  MA = vc::any_obj<M>("matcher"); SC = vc::any_obj<std::vc_vector<DiscreteScan2D>>("scans"); SP = vc::any_obj<SearchParameters>("sp");
  D = d; MIN = vc::any_float("min_score"); COVERED = false; J0 = 0;
  SP->num_scans = vc::any_int("num_scans", 1, 1 << 20);
  auto* b = SP->linear_bounds.d_ = static_cast<Bounds*>(vcx_alloc(sizeof(Bounds), "bounds")); SP->linear_bounds.n_ = SP->num_scans;
  vc_assume(vc::forall(0, SP->num_scans, [=](int64_t i) { return b[i].min_x >= -(1 << 28) && b[i].max_x <= (1 << 28) && b[i].min_y >= -(1 << 28) && b[i].max_y <= (1 << 28); }));
  LSI = vc::any_i64("leaf scan", 0, 1 << 20); LX = vc::any_i64("leaf x", -(1 << 28), 1 << 28); LY = vc::any_i64("leaf y", -(1 << 28), 1 << 28); LS = vc::any_float("leaf score");
  vc_assume(LSI < SP->num_scans && LX >= b[LSI].min_x && LX <= b[LSI].max_x && LY >= b[LSI].min_y && LY <= b[LSI].max_y);
  auto* l = vc::any_obj<List>("list"); TOP = l;
  l->d_ = static_cast<Candidate2D*>(vcx_alloc(sizeof(Candidate2D), "cand")); l->n_ = vc::any_i64("n", 1, 1 << 20);
  vc_assume(Scored(d, *l));
  TOPCOV = vc::any_bool("covered"); T0 = vc::any_i64("t0", 0, 1 << 20);
  // upper bound: search.proof.cc, score
  if (TOPCOV) vc_assume(T0 < l->n_ && Covers(d, l->d_[T0]) && Score(d, l->d_[T0]) >= LS);
}
static void Run(int d) {
  Setup(d);
  Candidate2D r = MA->BranchAndBound(*SC, *SP, *TOP, d, MIN);
  vc_assert(!(r.score > MIN) || Genuine(r), "a result above the minimum is a pose of the window with its own score");
  vc_assert(!TOPCOV || r.score >= LS, "no pose below the candidates has a higher score");
}
VC_HARNESS(leaves) { Setup(0); Candidate2D r = MA->BranchAndBound(*SC, *SP, *TOP, 0, MIN); vc_assert(Genuine(r), "a pose of the window with its own score"); vc_assert(!TOPCOV || r.score >= LS, "no leaf has a higher score"); }
VC_HARNESS(inner) { Run(vc::any_int("depth", 1, 28)); }
