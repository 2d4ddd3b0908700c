"""Refactorings that change no behaviour: the checks have to stay quiet. python3 benign.py [ids] makes /tmp/benign/<id>.diff"""
import subprocess, shutil, os, sys, json
M='cartographer/mapping/'
B=[]
def N(id, props, *edits): B.append((id, props, edits))
N('n01','C01',(M+'2d/probability_grid_range_data_inserter_2d.cc','''    std::vector<Eigen::Array2i> ray =
        RayToPixelMask(begin, end, kSubpixelScale);
    for (const Eigen::Array2i& cell_index : ray) {
      probability_grid->ApplyLookupTable(cell_index, miss_table);
    }
''','''    InsertMissRay(begin, end, miss_table, probability_grid);
'''),(M+'2d/probability_grid_range_data_inserter_2d.cc','''    std::vector<Eigen::Array2i> ray = RayToPixelMask(
        begin, superscaled_limits.GetCellIndex(missing_echo.position.head<2>()),
        kSubpixelScale);
    for (const Eigen::Array2i& cell_index : ray) {
      probability_grid->ApplyLookupTable(cell_index, miss_table);
    }
''','''    const Eigen::Array2i end = superscaled_limits.GetCellIndex(missing_echo.position.head<2>());
    InsertMissRay(begin, end, miss_table, probability_grid);
'''),(M+'2d/probability_grid_range_data_inserter_2d.cc','''void CastRays(''','''void InsertMissRay(const Eigen::Array2i& begin, const Eigen::Array2i& end, const std::vector<uint16>& miss_table, ProbabilityGrid* const probability_grid) {
  for (const Eigen::Array2i& cell_index : RayToPixelMask(begin, end, kSubpixelScale)) {
    probability_grid->ApplyLookupTable(cell_index, miss_table);
  }
}

void CastRays('''))
N('n02','C02',(M+'2d/grid_2d.cc','''      for (int i = 0; i < limits_.cell_limits().num_y_cells; ++i) {
        for (int j = 0; j < limits_.cell_limits().num_x_cells; ++j) {
          new_cells[offset + j + i * stride] =
              (*grids[grid_index])[j + i * limits_.cell_limits().num_x_cells];
        }
      }
''','''      const std::vector<uint16>& old_cells = *grids[grid_index];
      const int old_stride = limits_.cell_limits().num_x_cells;
      for (int row = 0; row < limits_.cell_limits().num_y_cells; ++row) {
        for (int column = 0; column < old_stride; ++column) {
          const int target = offset + column + row * stride;
          new_cells[target] = old_cells[column + row * old_stride];
        }
      }
'''))
N('n03','C06',('cartographer/sensor/internal/ordered_multi_queue.cc','''    if (next_data->GetTime() >= common_start_time) {
      // Happy case, we are beyond the 'common_start_time' already.
      last_dispatched_time_ = next_data->GetTime();
      next_queue->callback(next_queue->queue.Pop());
    } else if (next_queue->queue.Size() < 2) {
      if (!next_queue->finished) {
        // We cannot decide whether to drop or dispatch this yet.
        CannotMakeProgress(next_queue_key);
        return;
      }
      last_dispatched_time_ = next_data->GetTime();
      next_queue->callback(next_queue->queue.Pop());
    } else {''','''    const common::Time next_time = next_data->GetTime();
    const bool is_beyond_start = next_time >= common_start_time;
    const bool is_last = next_queue->queue.Size() < 2;
    if (!is_beyond_start && is_last && !next_queue->finished) {
      // We cannot decide whether to drop or dispatch this yet.
      CannotMakeProgress(next_queue_key);
      return;
    }
    if (is_beyond_start || is_last) {
      last_dispatched_time_ = next_time;
      next_queue->callback(next_queue->queue.Pop());
    } else {'''))
N('n04','C09 C10',(M+'id.h','''    const auto it = trajectory.data_.find(GetIndex(id));
    CHECK(it != trajectory.data_.end()) << id;
    if (std::next(it) == trajectory.data_.end()) {''','''    auto& data = trajectory.data_;
    const auto it = data.find(GetIndex(id));
    CHECK(it != data.end()) << id;
    const bool is_last = std::next(it) == data.end();
    if (is_last) {'''),(M+'id.h','''    return trajectories_.count(id.trajectory_id) != 0 &&
           trajectories_.at(id.trajectory_id).data_.count(GetIndex(id)) != 0;''','''    const auto it = trajectories_.find(id.trajectory_id);
    if (it == trajectories_.end()) return false;
    return it->second.data_.count(GetIndex(id)) > 0;'''))
N('n05','C12',('cartographer/sensor/internal/voxel_filter.cc','''    voxel.first++;
    if (voxel.first == 1) {
      voxel.second = i;
    } else {
      std::uniform_int_distribution<> distribution(1, voxel.first);
      if (distribution(generator) == voxel.first) {
        voxel.second = i;
      }
    }
''','''    ++voxel.first;
    bool replace = voxel.first == 1;
    if (!replace) {
      std::uniform_int_distribution<> distribution(1, voxel.first);
      replace = distribution(generator) == voxel.first;
    }
    if (replace) voxel.second = i;
'''))
N('n06','C14',(M+'internal/range_data_collator.cc','''    oldest_timestamp = std::min(oldest_timestamp, pair.second.time);
''','''    if (pair.second.time < oldest_timestamp) {
      oldest_timestamp = pair.second.time;
    }
'''),(M+'internal/range_data_collator.cc','''    auto overlap_begin = ranges.begin();
    while (overlap_begin < ranges.end() &&
           data.time + common::FromSeconds((*overlap_begin).time) <
               current_start_) {
      ++overlap_begin;
    }''','''    const auto time_of = [&data](const sensor::TimedRangefinderPoint& point) {
      return data.time + common::FromSeconds(point.time);
    };
    auto overlap_begin = ranges.begin();
    for (; overlap_begin != ranges.end(); ++overlap_begin) {
      if (time_of(*overlap_begin) >= current_start_) break;
    }'''))
N('n07','C16',(M+'internal/motion_filter.cc','''  if (num_total_ > 1 &&
      time - last_time_ <= common::FromSeconds(options_.max_time_seconds()) &&
      (pose.translation() - last_pose_.translation()).norm() <=
          options_.max_distance_meters() &&
      transform::GetAngle(pose.inverse() * last_pose_) <=
          options_.max_angle_radians()) {
    return true;
  }''','''  if (num_total_ > 1) {
    const bool recent = !(time - last_time_ > common::FromSeconds(options_.max_time_seconds()));
    const bool near = (last_pose_.translation() - pose.translation()).norm() <= options_.max_distance_meters();
    const bool aligned = transform::GetAngle(pose.inverse() * last_pose_) <= options_.max_angle_radians();
    if (recent && near && aligned) return true;
  }'''))
N('n09','C18',(M+'internal/2d/scan_matching/fast_correlative_scan_matcher_2d.cc','''    std::vector<Candidate2D> higher_resolution_candidates;
    const int half_width = 1 << (candidate_depth - 1);
    for (int x_offset : {0, half_width}) {
      if (candidate.x_index_offset + x_offset >
          search_parameters.linear_bounds[candidate.scan_index].max_x) {
        break;
      }
      for (int y_offset : {0, half_width}) {
        if (candidate.y_index_offset + y_offset >
            search_parameters.linear_bounds[candidate.scan_index].max_y) {
          break;
        }
''','''    std::vector<Candidate2D> higher_resolution_candidates;
    const int half_width = 1 << (candidate_depth - 1);
    const auto& bounds = search_parameters.linear_bounds[candidate.scan_index];
    for (int x_offset : {0, half_width}) {
      for (int y_offset : {0, half_width}) {
        if (candidate.x_index_offset + x_offset > bounds.max_x ||
            candidate.y_index_offset + y_offset > bounds.max_y) {
          continue;
        }
'''))
N('n10','C15',(M+'internal/connected_components.cc','''  if (it->first != it->second) {
    // Path compression for efficiency.
    it->second = FindSet(it->second);
  }
  return it->second;''','''  if (it->first == it->second) {
    return trajectory_id;
  }
  const int representative = FindSet(it->second);
  it->second = representative;
  return representative;'''),(M+'internal/connected_components.cc','''  const int representative_a = FindSet(trajectory_id_a);
  const int representative_b = FindSet(trajectory_id_b);
  forest_[representative_a] = representative_b;''','''  const int representative_b = FindSet(trajectory_id_b);
  const int representative_a = FindSet(trajectory_id_a);
  if (representative_a != representative_b) {
    forest_.at(representative_b) = representative_a;
  }'''))
N('n10b','C15',(M+'internal/connected_components.cc','''int ConnectedComponents::FindSet(const int trajectory_id) {
  auto it = forest_.find(trajectory_id);
  CHECK(it != forest_.end());
  if (it->first != it->second) {
    // Path compression for efficiency.
    it->second = FindSet(it->second);
  }
  return it->second;''','''int ConnectedComponents::FindSet(const int trajectory_id) {
  int representative = trajectory_id;
  while (true) {
    auto it = forest_.find(representative);
    CHECK(it != forest_.end());
    if (it->second == representative) break;
    representative = it->second;
  }
  int current = trajectory_id;
  while (current != representative) {
    int& parent = forest_.at(current);
    current = parent;
    parent = representative;
  }
  return representative;'''),(M+'internal/connected_components.cc','''  for (const auto& entry : forest_) {
    if (FindSet(entry.first) == set_id) {
      trajectory_ids.push_back(entry.first);
    }
  }''','''  for (auto it = forest_.begin(); it != forest_.end(); ++it) {
    if (FindSet(it->first) != set_id) continue;
    trajectory_ids.push_back(it->first);
  }'''),(M+'internal/trajectory_connectivity_state.cc','''    if (last_connection_time_map_[sorted_pair] < time) {
      last_connection_time_map_[sorted_pair] = time;
    }''','''    common::Time& last_time = last_connection_time_map_[sorted_pair];
    last_time = std::max(last_time, time);'''))
N('n11','C28',(M+'3d/range_data_inserter_3d.cc','''    for (int position = std::max(0, num_samples - num_free_space_voxels);
         position < num_samples; ++position) {
      const''','''    int position = num_samples - num_free_space_voxels;
    if (position < 0) position = 0;
    for (; position != num_samples; ++position) {
      const'''))
N('n12','C24',(M+'2d/submap_2d.cc','''  for (auto& submap : submaps_) {
    submap->InsertRangeData(range_data, range_data_inserter_.get());
  }
  if (submaps_.front()->num_range_data() == 2 * options_.num_range_data()) {
    submaps_.front()->Finish();
  }''','''  for (size_t i = 0; i < submaps_.size(); ++i) {
    submaps_[i]->InsertRangeData(range_data, range_data_inserter_.get());
  }
  const auto& oldest = submaps_.front();
  const int limit = options_.num_range_data() * 2;
  if (oldest->num_range_data() >= limit) {
    oldest->Finish();
  }'''))
N('n13','C11',('cartographer/transform/transform_interpolation_buffer.cc','''  if (end->time == time) {
    return end->transform;
  }
  const auto start = std::prev(end);
  return Interpolate(*start, *end, time).transform;''','''  const TimestampedTransform& after = *end;
  if (!(time < after.time)) return after.transform;
  const TimestampedTransform& before = *(end - 1);
  return Interpolate(before, after, time).transform;'''),('cartographer/transform/timestamped_transform.cc','''      start.transform.translation() +
      (end.transform.translation() - start.transform.translation()) * factor;''','''      factor * (end.transform.translation() - start.transform.translation()) +
      start.transform.translation();'''))
N('n14','C05',(M+'3d/hybrid_grid.h','''      do {
        ++current_;
      } while (!Done() && IsDefaultValue(*current_));''','''      ++current_;
      SkipDefaults();'''),(M+'3d/hybrid_grid.h','''          end_(flat_grid.cells_.data() + flat_grid.cells_.size()) {
      while (!Done() && IsDefaultValue(*current_)) {
        ++current_;
      }
    }''','''          end_(flat_grid.cells_.data() + flat_grid.cells_.size()) {
      SkipDefaults();
    }
    void SkipDefaults() {
      while (!Done() && IsDefaultValue(*current_)) ++current_;
    }'''))
N('n15','C13',('cartographer/sensor/compressed_point_cloud.cc','''    auto* const block = blocks.mutable_value(block_coordinate);
    num_blocks += block->empty();
    block->push_back({raster_point, point_index});''','''    std::vector<RasterPoint>& block = *blocks.mutable_value(block_coordinate);
    if (block.empty()) {
      ++num_blocks;
    }
    block.push_back({raster_point, point_index});'''))
N('n16','C22',(M+'internal/2d/ray_to_pixel_mask.cc','''      if (sub_y == denominator) {
        sub_y -= denominator;
        ++current.y();
      }
      if (current.x() == end_x) {''','''      const bool at_corner = sub_y == denominator;
      if (at_corner) {
        sub_y = 0;
        current.y() += 1;
      }
      if (current.x() >= end_x) {'''))
N('n17','C17',('cartographer/common/fixed_ratio_sampler.cc','''  if (static_cast<double>(num_samples_) / num_pulses_ < ratio_) {
    ++num_samples_;
    return true;
  }
  return false;''','''  const double current_ratio = static_cast<double>(num_samples_) / num_pulses_;
  const bool keep = !(current_ratio >= ratio_);
  if (keep) ++num_samples_;
  return keep;'''))
os.makedirs('/tmp/benign',exist_ok=True)
if __name__=='__main__':
    for id,props,edits in B:
        if sys.argv[1:] and id not in sys.argv[1:]: continue
        w='/tmp/seedmk'; shutil.rmtree(w,ignore_errors=True)
        subprocess.run(['git','-C','/repo','worktree','add','-f','--detach',w,'HEAD'],check=True,capture_output=True)
        for f,o,n in edits:
            t=open(f'{w}/{f}').read(); assert t.count(o)==1,(id,f,t.count(o),o)
            open(f'{w}/{f}','w').write(t.replace(o,n))
        open(f'/tmp/benign/{id}.diff','w').write(subprocess.run(['git','-C',w,'diff'],capture_output=True,text=True).stdout)
        open(f'/tmp/benign/{id}.props','w').write(props)
        subprocess.run(['git','-C','/repo','worktree','remove','--force',w],check=True)
        print(id)
