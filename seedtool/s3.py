SEEDS = []
def S(**k): SEEDS.append(k)
M='cartographer/mapping/'
S(id='b18', prop='C26', needs='a value beyond 32 bits', breaks='rounding to 64 bits wraps around at 32 bits',
  edits=[('cartographer/common/port.h','inline int64 RoundToInt64(const double x) { return std::lround(x); }','inline int64 RoundToInt64(const double x) { return RoundToInt(x); }')],
  demo=r'''
#include "cartographer/common/port.h"
#include <cstdio>
int main() { long long r = cartographer::common::RoundToInt64(6.35e16); printf("%lld\n", r); return r != 63500000000000000LL; }
''')
S(id='b19', prop='C28', needs='an intensity exactly at the threshold', breaks='returns with the threshold intensity are not recorded',
  edits=[(M+'3d/range_data_inserter_3d.cc','if (returns.intensities()[i] > intensity_threshold) {','if (!(returns.intensities()[i] < intensity_threshold)) {')],
  demo=r'''
#include "cartographer/mapping/3d/range_data_inserter_3d.h"
#include <cstdio>
using namespace cartographer; using namespace cartographer::mapping;
int main() {
  proto::RangeDataInserterOptions3D o; o.set_hit_probability(0.7); o.set_miss_probability(0.4); o.set_num_free_space_voxels(3); o.set_intensity_threshold(100.f);
  RangeDataInserter3D ins(o); HybridGrid g(1.f); IntensityHybridGrid ig(1.f);
  ins.Insert(sensor::RangeData{Eigen::Vector3f(0, 0, 0), sensor::PointCloud({{Eigen::Vector3f(5, 5, 5)}}, {100.f}), {}}, &g, &ig);
  float v = ig.GetIntensity(ig.GetCellIndex(Eigen::Vector3f(5, 5, 5))); printf("%g\n", v); return v != 100.f;
}
''')
S(id='b20', prop='C11', needs='a size limit set below the number of stored poses by more than one', breaks='only one of the surplus poses is removed',
  edits=[('cartographer/transform/transform_interpolation_buffer.cc','  while (timestamped_transforms_.size() > buffer_size_limit_) {','  if (timestamped_transforms_.size() > buffer_size_limit_) {')],
  demo=r'''
#include "cartographer/transform/transform_interpolation_buffer.h"
#include <cstdio>
using namespace cartographer;
int main() {
  transform::TransformInterpolationBuffer b; for (int i = 0; i < 9; ++i) b.Push(common::FromUniversal(10 * i), transform::Rigid3d::Identity());
  b.SetSizeLimit(4); printf("%d\n", int(b.size())); return b.size() != 4;
}
''')
S(id='b21', prop='C24', needs='more than 127 range data per submap', breaks='the counter wraps around, so submaps are never finished',
  edits=[(M+'submaps.h','  int num_range_data_ = 0;','  uint8 num_range_data_ = 0;')],
  demo=r'''
#include "cartographer/mapping/2d/submap_2d.h"
#include <cstdio>
using namespace cartographer; using namespace cartographer::mapping;
int main() {
  proto::SubmapsOptions2D o; o.set_num_range_data(130); o.mutable_grid_options_2d()->set_resolution(0.05); o.mutable_grid_options_2d()->set_grid_type(proto::GridOptions2D::PROBABILITY_GRID);
  auto* r = o.mutable_range_data_inserter_options(); r->set_range_data_inserter_type(proto::RangeDataInserterOptions::PROBABILITY_GRID_INSERTER_2D);
  auto* p = r->mutable_probability_grid_range_data_inserter_options_2d(); p->set_insert_free_space(true); p->set_hit_probability(0.6); p->set_miss_probability(0.45);
  ActiveSubmaps2D a(o); std::shared_ptr<const Submap2D> first;
  for (int i = 0; i < 260; ++i) { auto s = a.InsertRangeData(sensor::RangeData{Eigen::Vector3f::Zero(), sensor::PointCloud({{Eigen::Vector3f(1, 0, 0)}}), {}}); if (!first) first = s[0]; }
  printf("%d range data, finished %d\n", first->num_range_data(), first->insertion_finished());
  return !(first->insertion_finished() && first->num_range_data() == 260);
}
''')
