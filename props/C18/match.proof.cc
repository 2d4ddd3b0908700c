// The result of the search: best pose of the window, reported only above the minimum.
#include "vc_begin.h"
#include "cartographer/mapping/internal/2d/scan_matching/correlative_scan_matcher_2d.h"
#include "cartographer/mapping/internal/2d/scan_matching/correlative_scan_matcher_2d.cc"
#include "cartographer/mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.h"
#include "cartographer/mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.cc"
using namespace cartographer::mapping;
using namespace cartographer::mapping::scan_matching;
#include "cartographer/sensor/point_cloud.cc"
using namespace cartographer;
typedef std::vc_vector<Candidate2D> List;
typedef std::vc_vector<DiscreteScan2D> Scans;
typedef FastCorrelativeScanMatcher2D M;
static M* MA; static sensor::PointCloud* PC; static SearchParameters* SP; static int64_t STEP, D; static double MIN, TX, TY, BS, BX, BY, BO;
static const SearchParameters* USED; static const Scans* DS;
extern "C" sensor::PointCloud vc_stub_transform(const sensor::PointCloud& c, const transform::Rigid3f&) { vc_assert(&c == PC && STEP == 0, "the scan is rotated first"); STEP = 1; return sensor::PointCloud(); }
extern "C" std::vc_vector<sensor::PointCloud> vc_stub_rotated(const sensor::PointCloud&, const SearchParameters& sp) { vc_assert(STEP == 1, "then by all angles of the window"); USED = &sp; STEP = 2; return std::vc_vector<sensor::PointCloud>(); }
extern "C" Scans vc_stub_discretize(const MapLimits& l, const std::vc_vector<sensor::PointCloud>&, const Eigen::Translation2f& t) {
  vc_assert(STEP == 2 && &l == &MA->limits_, "scans are discretized in the grid's frame"); vc_assert(t.x() == TX && t.y() == TY, "at the initial pose"); STEP = 3; return Scans();
}
extern "C" void vc_stub_shrink(SearchParameters* sp, const Scans& s, const CellLimits& l) { vc_assert(STEP == 3 && sp == USED && &l == &MA->limits_.cell_limits_, "the window is tightened to the grid"); DS = &s; STEP = 4; }
extern "C" List vc_stub_lowest(const M* m, const SearchParameters& sp) { vc_assert(STEP == 4 && m == MA && &sp == USED, "candidates of the tightened window"); STEP = 5; return List(); }
extern "C" PrecomputationGrid2D* vc_stub_getgrid(PrecomputationGridStack2D*, int i) { vc_assert(i == D, "the coarsest grid"); return nullptr; }
extern "C" int vc_stub_depth(const PrecomputationGridStack2D*) { return static_cast<int>(D); }
extern "C" void vc_stub_score(const M* m, const PrecomputationGrid2D*, const Scans& s, const SearchParameters& sp, List*) { vc_assert(STEP == 5 && m == MA && &s == DS && &sp == USED, "are scored with the same scans"); STEP = 6; }
extern "C" Candidate2D vc_stub_bnb(const M* m, const Scans& s, const SearchParameters& sp, const List&, int d, float min_score) {
  vc_assert(STEP == 6 && m == MA && &s == DS && &sp == USED && d == D && min_score == MIN, "and searched from the coarsest level"); STEP = 7;
  Candidate2D r(0, 0, 0, sp); r.x = BX; r.y = BY; r.orientation = BO; r.score = BS; return r;
}
VC_HARNESS(match) {
  MA = vc::any_obj<M>("matcher"); PC = vc::any_obj<sensor::PointCloud>("cloud"); auto* sp = vc::any_obj<SearchParameters>("sp"); sp->linear_bounds.d_ = static_cast<SearchParameters::LinearBounds*>(vcx_alloc(sizeof(SearchParameters::LinearBounds), "bounds")); sp->linear_bounds.n_ = vc::any_i64("nb", 0, 1 << 20);
  TX = vc::any_real("tx"); TY = vc::any_real("ty"); double a = vc::any_real("a"); MIN = vc::any_float("min_score"); BS = vc::any_float("best score"); BX = vc::any_real("bx"); BY = vc::any_real("by"); BO = vc::any_real("bo"); D = vc::any_int("depth", 0, 28); STEP = 0;
  float s0 = vc::any_float("s0"), s = s0; transform::Rigid2d out({vc::any_real("ox"), vc::any_real("oy")}, vc::any_real("oa")), was = out;
  transform::Rigid2d init({TX, TY}, a);
  bool r = MA->MatchWithSearchParameters(*sp, init, *PC, MIN, &s, &out);
  vc_assert(STEP == 7, "the whole window is searched");
  vc_assert(r == (BS > MIN), "success exactly above the minimum score");
  if (r) {
    vc_assert(s == BS, "the best score is reported");
    vc_assert(out.translation().x() == TX + BX && out.translation().y() == TY + BY && out.rotation().angle() == a + BO, "at its pose");
  } else vc_assert(s == s0 && out.translation().x() == was.translation().x() && out.translation().y() == was.translation().y() && out.rotation().angle() == was.rotation().angle(), "outputs are untouched");
}
