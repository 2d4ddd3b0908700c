SEEDS = []
def S(**k): SEEDS.append(k)
M='cartographer/mapping/'
S(id='b01', prop='C01', needs='two consecutive returns of one scan that end in the same cell while their rays cross different cells on the way',
  breaks='cells crossed only by the second ray get no miss update',
  edits=[(M+'2d/probability_grid_range_data_inserter_2d.cc','''  for (const Eigen::Array2i& end : ends) {
    std::vector<Eigen::Array2i> ray =''','''  for (size_t i = 0; i != ends.size(); ++i) {
    const Eigen::Array2i& end = ends[i];
    // Consecutive returns in the same cell need only one ray.
    if (i > 0 && ((end / kSubpixelScale) == (ends[i - 1] / kSubpixelScale)).all()) {
      continue;
    }
    std::vector<Eigen::Array2i> ray =''')],
  demo=r'''
#include "cartographer/mapping/2d/probability_grid.h"
#include "cartographer/mapping/2d/probability_grid_range_data_inserter_2d.h"
#include <cstdio>
using namespace cartographer; using namespace cartographer::mapping;
// inserts two returns that share a cell; every cell on either ray must become known
static ProbabilityGrid* Make(ValueConversionTables* t) { return new ProbabilityGrid(MapLimits(1., Eigen::Vector2d(40., 40.), CellLimits(40, 40)), t); }
int main() {
  proto::ProbabilityGridRangeDataInserterOptions2D o; o.set_hit_probability(0.7); o.set_miss_probability(0.4); o.set_insert_free_space(true);
  ProbabilityGridRangeDataInserter2D ins(o);
  ValueConversionTables t1, t2, t3;
  ProbabilityGrid *both = Make(&t1), *a = Make(&t2), *b = Make(&t3);
  sensor::RangefinderPoint p{Eigen::Vector3f(30.05f, 20.05f, 0.f)}, q{Eigen::Vector3f(30.95f, 20.95f, 0.f)};
  auto rd = [&](std::vector<sensor::RangefinderPoint> v) { sensor::RangeData r; r.origin = Eigen::Vector3f(1.5f, 1.5f, 0.f); r.returns = sensor::PointCloud(v); return r; };
  ins.Insert(rd({p, q}), both); ins.Insert(rd({p}), a); ins.Insert(rd({q}), b);
  int bad = 0;
  for (int x = 0; x < 40; ++x) for (int y = 0; y < 40; ++y) { Eigen::Array2i i(x, y); if (both->IsKnown(i) != (a->IsKnown(i) || b->IsKnown(i))) ++bad; }
  printf("%d cells differ\n", bad);
  return bad != 0;
}
''')
S(id='b02', prop='C02', needs='a non-square grid with known cells that grows', breaks='the region of known cells is moved by swapped offsets, so cropping after growth loses known cells',
  edits=[(M+'2d/grid_2d.cc','known_cells_box_.translate(Eigen::Vector2i(x_offset, y_offset));','known_cells_box_.translate(Eigen::Vector2i(y_offset, x_offset));')],
  demo=r'''
#include "cartographer/mapping/2d/probability_grid.h"
#include <cstdio>
using namespace cartographer::mapping;
int main() {
  ValueConversionTables t;
  ProbabilityGrid g(MapLimits(1., Eigen::Vector2d(4., 10.), CellLimits(10, 4)), &t);
  g.SetProbability(Eigen::Array2i(9, 3), 0.8f);
  g.GrowLimits(Eigen::Vector2f(-3.5f, 5.5f));
  Eigen::Array2i o; CellLimits l; g.ComputeCroppedLimits(&o, &l);
  bool ok = l.num_x_cells == 1 && l.num_y_cells == 1 && g.IsKnown(o);
  printf("offset %d %d known %d\n", o.x(), o.y(), int(g.IsKnown(o)));
  return !ok;
}
''')
S(id='b03', prop='C04', needs='two value ranges that differ by less than a hundredth requested from the same cache', breaks='the second range is decoded with the table of the first',
  edits=[(M+'value_conversion_tables.cc','''      std::make_tuple(unknown_result, lower_bound, upper_bound);''','''      std::make_tuple(std::round(unknown_result * 100.f),
                      std::round(lower_bound * 100.f),
                      std::round(upper_bound * 100.f));''')],
  demo=r'''
#include "cartographer/mapping/value_conversion_tables.h"
#include <cstdio>
#include <cmath>
using namespace cartographer::mapping;
int main() {
  ValueConversionTables t;
  float a = (*t.GetConversionTable(0.f, 0.f, 0.301f))[32767], b = (*t.GetConversionTable(0.f, 0.f, 0.304f))[32767];
  printf("%g %g\n", a, b);
  return !(std::abs(a - 0.301f) < 1e-5f && std::abs(b - 0.304f) < 1e-5f);
}
''')
S(id='b04', prop='C17', needs='more than a million pulses with a ratio below one', breaks='halving the counters drifts the accepted count away from ratio times pulses',
  edits=[('cartographer/common/fixed_ratio_sampler.cc','''  ++num_pulses_;
  if''','''  ++num_pulses_;
  if (num_pulses_ >= (1 << 20)) {
    // Keep the counters small.
    num_pulses_ /= 1024;
    num_samples_ /= 1024;
  }
  if''')],
  demo=r'''
#include "cartographer/common/fixed_ratio_sampler.h"
#include <cstdio>
#include <cmath>
int main() {
  cartographer::common::FixedRatioSampler s(0.3);
  double n = 0; int bad = 0;
  for (int i = 1; i <= 4000000; ++i) { n += s.Pulse(); if (std::abs(n - 0.3 * i) > 1.001) ++bad; }
  printf("%d bad prefixes\n", bad);
  return bad != 0;
}
''')
S(id='b05', prop='C03', needs='an index range one column wide', breaks='iteration over a single-column range leaves the column (visits indices outside the range)',
  edits=[(M+'2d/xy_index.h','''    it.xy_index_ = Eigen::Array2i(min_xy_index_.x(), max_xy_index_.y() + 1);
    return it;''','''    it.xy_index_ = Eigen::Array2i(min_xy_index_.x(), max_xy_index_.y() + 1);
    // Empty rows do not contribute.
    if (max_xy_index_.x() == min_xy_index_.x() && max_xy_index_.y() > 0 &&
        min_xy_index_.y() < 0) {
      it.xy_index_.y() = max_xy_index_.y();
    }
    return it;''')],
  demo=r'''
#include "cartographer/mapping/2d/xy_index.h"
#include <cstdio>
using namespace cartographer::mapping;
int main() {
  int n = 0;
  for (const Eigen::Array2i& xy : XYIndexRangeIterator(Eigen::Array2i(3, -2), Eigen::Array2i(3, 4))) { (void)xy; ++n; }
  printf("%d visits\n", n);
  return n != 7;
}
''')
