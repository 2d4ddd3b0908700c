#include "vcn.h"
#include <algorithm>
#include <cmath>
#include "cartographer/mapping/2d/probability_grid.h"
#include "cartographer/mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.h"
#include "cartographer/mapping/internal/2d/scan_matching/real_time_correlative_scan_matcher_2d.h"
#include "cartographer/mapping/probability_values.h"
#include "cartographer/transform/transform.h"
using namespace cartographer; using namespace cartographer::mapping; using namespace cartographer::mapping::scan_matching;
struct Map { ValueConversionTables tables; std::unique_ptr<ProbabilityGrid> grid; int nx, ny; double res; std::vector<double> p; };
static void Make(vcn::Rng& rng, Map* m, int maxn) {
  m->nx = rng.in(1, maxn); m->ny = rng.one_in(3) ? rng.in(1, 4) : rng.in(1, maxn);
  m->res = rng.pick(std::vector<double>{0.05, 0.1, 0.5, 1.});
  m->grid = absl::make_unique<ProbabilityGrid>(MapLimits(m->res, Eigen::Vector2d(rng.real(-2, 5), rng.real(-2, 5)), CellLimits(m->nx, m->ny)), &m->tables);
  int dens = rng.in(0, 10); m->p.assign(m->nx * m->ny, -1);
  for (int x = 0; x < m->nx; ++x) for (int y = 0; y < m->ny; ++y) if (rng.in(0, 9) < dens) { float q = rng.one_in(4) ? 0.9f : rng.one_in(4) ? 0.1f : rng.real(0.1, 0.9); m->grid->SetProbability(Eigen::Array2i(x, y), q); m->p[x + y * m->nx] = q; }
  NOTE("map " << m->nx << "x" << m->ny << " res " << m->res << " density " << dens);
  vcn::Sig(m->nx); vcn::Sig(m->ny);
}
static float W(const Map& m, int x, int y) { return 1.f - std::abs(m.grid->GetCorrespondenceCost(Eigen::Array2i(x, y))); }
VCN_CASE(precomputation) {
  Map m; Make(rng, &m, rng.one_in(3) ? 5 : 14);
  std::vector<float> reuse; int widths = rng.in(1, 3);
  for (int t = 0; t < widths; ++t) {
    int w = rng.one_in(3) ? rng.in(1, 20) : 1 << rng.in(0, 4);
    NOTE("width " << w); vcn::nontrivial() = m.nx * m.ny > 4 && w > 1;
    PrecomputationGrid2D g(*m.grid, CellLimits(m.nx, m.ny), w, &reuse);
    for (int x0 = -w - 2; x0 < m.nx + 3; ++x0) for (int y0 = -w - 2; y0 < m.ny + 3; ++y0) {
      float best = -1;
      for (int x = std::max(0, x0); x < std::min(m.nx, x0 + w); ++x) for (int y = std::max(0, y0); y < std::min(m.ny, y0 + w); ++y) best = std::max(best, W(m, x, y));
      int v = g.GetValue(Eigen::Array2i(x0, y0));
      double lo = 1.f - m.grid->GetMaxCorrespondenceCost(), hi = 1.f - m.grid->GetMinCorrespondenceCost();
      double e = best < 0 ? 0 : (best - lo) * 255. / (hi - lo);
      REQUIRE(std::abs(v - e) <= 0.5001, "value " << v << " at " << x0 << "," << y0 << ", the maximum gives " << e);
      if (best < 0) REQUIRE(v == 0, "no cell in reach");
      REQUIRE(std::abs(g.ToScore(v) - (lo + v * (hi - lo) / 255.)) < 1e-5, "score of " << v);
    }
  }
}
static sensor::PointCloud Cloud(vcn::Rng& rng, const Map& m, std::vector<sensor::RangefinderPoint>* pts, const Eigen::Vector2d& origin) {
  int n = rng.in(1, 8);
  for (int i = 0; i < n; ++i) {
    Eigen::Array2i c(rng.in(0, m.nx - 1), rng.in(0, m.ny - 1));
    Eigen::Vector2f p = m.grid->limits().GetCellCenter(c) - origin.cast<float>();
    pts->push_back({Eigen::Vector3f(p.x() + rng.real(-.4, .4) * m.res, p.y() + rng.real(-.4, .4) * m.res, rng.real(-1, 1))});
    NOTE("point " << pts->back().position.x() << " " << pts->back().position.y());
  }
  return sensor::PointCloud(*pts);
}
struct Best { float score; std::vector<std::array<double, 3>> poses; };
static std::vector<DiscreteScan2D> Scans(const Map& m, const sensor::PointCloud& pc, const transform::Rigid2d& init, const SearchParameters& sp) {
  auto rot = sensor::TransformPointCloud(pc, transform::Rigid3f::Rotation(Eigen::AngleAxisf(init.rotation().cast<float>().angle(), Eigen::Vector3f::UnitZ())));
  return DiscretizeScans(m.grid->limits(), GenerateRotatedScans(rot, sp), Eigen::Translation2f(init.translation().x(), init.translation().y()));
}
static void CheckPose(const Map& m, const transform::Rigid2d& init, const transform::Rigid2d& est, const SearchParameters& sp, int* si, int* xo, int* yo) {
  double dx = (est.translation().x() - init.translation().x()) / m.res, dy = (est.translation().y() - init.translation().y()) / m.res;
  *yo = -std::lround(dx); *xo = -std::lround(dy);
  REQUIRE(std::abs(dx + *yo) < 1e-4 && std::abs(dy + *xo) < 1e-4, "the estimate is not a whole number of cells away: " << dx << " " << dy);
  double da = std::remainder(est.rotation().angle() - init.rotation().angle(), 2 * M_PI) / sp.angular_perturbation_step_size;
  double best = 1e9; *si = -1;
  for (int s = 0; s < sp.num_scans; ++s) { double d = std::abs(std::remainder((s - sp.num_angular_perturbations) * sp.angular_perturbation_step_size - (est.rotation().angle() - init.rotation().angle()), 2 * M_PI)); if (d < best - 1e-7) { best = d; *si = s; } }
  REQUIRE(best < 1e-4, "the estimate is not a whole number of angular steps away: " << da);
}
static void CheckParameters(const SearchParameters& sp, const sensor::PointCloud& pc, double lin, double ang, double res) {
  double range = 0; for (auto& p : pc) range = std::max<double>(range, p.position.head<2>().norm());
  REQUIRE(2 * range * std::sin(sp.angular_perturbation_step_size / 2) <= res, "a step turns the farthest point by more than a cell");
  REQUIRE(sp.angular_perturbation_step_size > 0 && (range < 3 * res || 2 * range * std::sin(sp.angular_perturbation_step_size / 2) >= 0.99 * res), "angular steps needlessly small");
  REQUIRE(sp.num_scans == 2 * sp.num_angular_perturbations + 1 && sp.num_scans == static_cast<int>(sp.linear_bounds.size()), "scan count");
  REQUIRE(sp.num_angular_perturbations * sp.angular_perturbation_step_size >= ang - 1e-9 && (sp.num_angular_perturbations - 1) * sp.angular_perturbation_step_size < ang + 1e-9, "the angular window is not covered");
  for (auto& b : sp.linear_bounds) REQUIRE(b.min_x == -b.max_x && b.min_y == -b.max_y && b.max_x == b.max_y && b.max_x * res >= lin - 1e-9 && (b.max_x - 1) * res < lin + 1e-9, "the linear window is not covered");
}
static void CheckScans(const Map& m, const sensor::PointCloud& pc, const transform::Rigid2d& init, const SearchParameters& sp, const std::vector<DiscreteScan2D>& scans) {
  REQUIRE(static_cast<int>(scans.size()) == sp.num_scans, "one scan per angle");
  for (int s = 0; s < sp.num_scans; ++s) {
    REQUIRE(scans[s].size() == pc.size(), "points of a scan");
    double a = init.rotation().angle() + (s - sp.num_angular_perturbations) * sp.angular_perturbation_step_size;
    for (size_t i = 0; i < pc.size(); ++i) {
      double px = pc[i].position.x(), py = pc[i].position.y();
      double wx = std::cos(a) * px - std::sin(a) * py + init.translation().x(), wy = std::sin(a) * px + std::cos(a) * py + init.translation().y();
      double cx = (m.grid->limits().max().y() - wy) / m.res - .5, cy = (m.grid->limits().max().x() - wx) / m.res - .5;
      REQUIRE(std::abs(scans[s][i].x() - cx) < .5 + 1e-3 && std::abs(scans[s][i].y() - cy) < .5 + 1e-3, "point " << i << " of scan " << s << " falls into cell " << scans[s][i].x() << "," << scans[s][i].y() << ", expected near " << cx << "," << cy);
    }
  }
}
VCN_CASE(branch_and_bound) {
  Map m; Make(rng, &m, 12);
  transform::Rigid2d init({rng.real(-1, 1) * m.res * 5, rng.real(-1, 1) * m.res * 5}, rng.one_in(3) ? 0. : rng.real(-3, 3));
  std::vector<sensor::RangefinderPoint> pts; auto pc = Cloud(rng, m, &pts, rng.one_in(2) ? Eigen::Vector2d(init.translation()) : Eigen::Vector2d(rng.real(-3, 3), rng.real(-3, 3)));
  scan_matching::proto::FastCorrelativeScanMatcherOptions2D o;
  o.set_linear_search_window(m.res * rng.in(0, 40) / 4.); o.set_angular_search_window(rng.one_in(3) ? 0. : rng.real(0, .6)); o.set_branch_and_bound_depth(rng.in(1, 6));
  FastCorrelativeScanMatcher2D f(*m.grid, o);
  const bool full = rng.one_in(8);
  float min_score = rng.one_in(4) ? 0.f : rng.one_in(3) ? 0.9f : rng.real(0.1, 0.7);
  std::vector<float> reuse; PrecomputationGrid2D leaf(*m.grid, CellLimits(m.nx, m.ny), 1, &reuse);
  if (full) init = transform::Rigid2d::Translation(m.grid->limits().max() - 0.5 * m.res * Eigen::Vector2d(m.ny, m.nx));
  SearchParameters sp = full ? SearchParameters(1e6 * m.res, M_PI, pc, m.res) : SearchParameters(o.linear_search_window(), o.angular_search_window(), pc, m.res);
  if (!full) CheckParameters(sp, pc, o.linear_search_window(), o.angular_search_window(), m.res);
  auto scans = Scans(m, pc, init, sp); CheckScans(m, pc, init, sp, scans);
  float best = -1; auto score = [&](int s, int x, int y) { int sum = 0; for (auto& c : scans[s]) sum += leaf.GetValue(Eigen::Array2i(c.x() + x, c.y() + y)); return leaf.ToScore(sum / static_cast<float>(scans[s].size())); };
  for (int s = 0; s < sp.num_scans; ++s) {
    int x0 = sp.linear_bounds[s].min_x, x1 = sp.linear_bounds[s].max_x, y0 = sp.linear_bounds[s].min_y, y1 = sp.linear_bounds[s].max_y;
    if (full) { x0 = y0 = 1000; x1 = y1 = -1000; for (auto& c : scans[s]) { x0 = std::min(x0, -c.x()); x1 = std::max(x1, m.nx - 1 - c.x()); y0 = std::min(y0, -c.y()); y1 = std::max(y1, m.ny - 1 - c.y()); } }
    for (int x = x0; x <= x1; ++x) for (int y = y0; y <= y1; ++y) best = std::max(best, score(s, x, y));
  }
  NOTE("window " << o.linear_search_window() / m.res << " cells, " << o.angular_search_window() << " rad, depth " << o.branch_and_bound_depth() << " min " << min_score << (full ? " full" : "") << " best " << best << " init " << init.DebugString());
  vcn::nontrivial() = best > 0.2f;
  float got = -7.f; transform::Rigid2d est({1e9, 1e9}, 0.);
  bool ok = full ? f.MatchFullSubmap(pc, min_score, &got, &est) : f.Match(init, pc, min_score, &got, &est);
  REQUIRE(ok == (best > min_score), "best score " << best << ", minimum " << min_score << ", match " << ok);
  if (!ok) { REQUIRE(got == -7.f && est.translation().x() == 1e9, "outputs changed without a match"); return; }
  REQUIRE(got == best, "score " << got << ", but the exhaustive search finds " << best);
  int si, xo, yo; CheckPose(m, init, est, sp, &si, &xo, &yo);
  REQUIRE(std::abs(score(si, xo, yo) - got) < 1e-6, "the pose returned has score " << score(si, xo, yo) << ", not " << got);
  if (!full) REQUIRE(std::abs(xo) <= sp.linear_bounds[si].max_x && std::abs(yo) <= sp.linear_bounds[si].max_y, "outside of the window");
}
VCN_CASE(real_time) {
  Map m; Make(rng, &m, 12);
  transform::Rigid2d init({rng.real(-1, 1) * m.res * 5, rng.real(-1, 1) * m.res * 5}, rng.one_in(3) ? 0. : rng.real(-3, 3));
  std::vector<sensor::RangefinderPoint> pts; auto pc = Cloud(rng, m, &pts, init.translation());
  scan_matching::proto::RealTimeCorrelativeScanMatcherOptions o;
  o.set_linear_search_window(m.res * rng.in(0, 12) / 4.); o.set_angular_search_window(rng.one_in(3) ? 0. : rng.real(0, .4));
  o.set_translation_delta_cost_weight(rng.one_in(3) ? 0. : rng.real(0, 2)); o.set_rotation_delta_cost_weight(rng.one_in(3) ? 0. : rng.real(0, 2));
  RealTimeCorrelativeScanMatcher2D f(o);
  SearchParameters sp(o.linear_search_window(), o.angular_search_window(), pc, m.res); auto scans = Scans(m, pc, init, sp);
  auto score = [&](int s, int x, int y) {
    double sum = 0; for (auto& c : scans[s]) { int cx = c.x() + x, cy = c.y() + y; double q = cx >= 0 && cy >= 0 && cx < m.nx && cy < m.ny ? m.p[cx + cy * m.nx] : -1; sum += q < 0 ? 0.1 : q; }
    double pen = std::hypot(x * m.res, y * m.res) * o.translation_delta_cost_weight() + std::abs((s - sp.num_angular_perturbations) * sp.angular_perturbation_step_size) * o.rotation_delta_cost_weight();
    return sum / scans[s].size() * std::exp(-pen * pen);
  };
  double best = -1; for (int s = 0; s < sp.num_scans; ++s) for (int x = sp.linear_bounds[s].min_x; x <= sp.linear_bounds[s].max_x; ++x) for (int y = sp.linear_bounds[s].min_y; y <= sp.linear_bounds[s].max_y; ++y) best = std::max(best, score(s, x, y));
  transform::Rigid2d est; double got = f.Match(init, pc, *m.grid, &est); vcn::nontrivial() = best > 0.2;
  NOTE("real time window " << o.linear_search_window() / m.res << " best " << best);
  REQUIRE(std::abs(got - best) < 1e-4, "score " << got << ", but the exhaustive search finds " << best);
  int si, xo, yo; CheckPose(m, init, est, sp, &si, &xo, &yo);
  REQUIRE(std::abs(score(si, xo, yo) - got) < 1e-4, "the pose returned has score " << score(si, xo, yo) << ", not " << got);
}
