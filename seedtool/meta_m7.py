exec(open('/tmp/mk.py').read())
P('C28','A 3D scan updates each voxel at most once, hits before free space',
 'For every range data and every pair of grids: RangeDataInserter3D::Insert changes a voxel holding a return by exactly one application of the hit table, a voxel without a return that is sampled on the segment to some return (sample s of n at origin + s/n of the difference, among the last num_free_space_voxels samples) by exactly one application of the miss table, and no other voxel; the hit and the miss tables apply the odds of the hit and of the miss probability; no update marker is left. If an intensity grid is given, exactly the intensities that do not exceed the threshold are added, each in the voxel of its return.',
 ['inputs'],'every number and position of returns, every origin, every grid content, every number of free space voxels and threshold',
 'The test inserts one fixed scan of four points; whether a voxel shared by two rays or by a ray and a return is updated once, and which sample is the first, needs particular point constellations.',
 ['cartographer/mapping/3d/range_data_inserter_3d.cc'],
 [('hits','cartographer/mapping/3d/range_data_inserter_3d.cc RangeDataInserter3D::Insert'),('misses','cartographer/mapping/3d/range_data_inserter_3d.cc InsertMissesIntoGrid'),('intensities','cartographer/mapping/3d/range_data_inserter_3d.cc InsertIntensitiesIntoGrid')],
 'Over the contracts of HybridGrid (C05) and of the lookup tables (C04), for points within the 16384-voxel range of the grid.')
