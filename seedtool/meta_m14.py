exec(open('/verif/seedtool/meta_mk.py').read())
P('C24','Each submap gets its own run of scans exactly once and is frozen when finished',
 'For every sequence of scans inserted into the active submaps (2D with either grid type, and 3D) with num_range_data = n: the first scan and every n-th scan after it start a new submap, placed at the origin of that scan (in 3D with the gravity-aligned orientation given); there are never more than two active submaps, they are returned oldest first, and every scan is inserted exactly once into each active submap; a submap counts its scans, is finished exactly with its 2n-th scan, and afterwards never changes; finishing crops the 2D grid and otherwise keeps the content. In 3D the high resolution grid gets only the returns within the configured range of the origin, the low resolution grid all of them, both in the frame of the submap, and the histogram is the sum of the rotated scan histograms. A submap serialized and read back is the same.',
 ['inputs','histories','configurations'],'every n >= 1, every number of scans, all scan contents and poses',
 'The tests insert one constant scan and look at the counters; that a submap holds the right scans and that finished submaps stay frozen must hold for every history and n (including n = 1).',
 ['cartographer/mapping/2d/submap_2d.cc','cartographer/mapping/3d/submap_3d.cc','cartographer/mapping/submaps.h'],
 [('2D life cycle','cartographer/mapping/2d/submap_2d.cc ActiveSubmaps2D::InsertRangeData, AddSubmap, Submap2D::Finish'),('3D life cycle','cartographer/mapping/3d/submap_3d.cc ActiveSubmaps3D::InsertData, AddSubmap'),('3D insertion','cartographer/mapping/3d/submap_3d.cc Submap3D::InsertData, FilterRangeDataByMaxRange')],
 'The life cycle is proved as transitions on the state invariant from every state (so for every history and every n), over the contracts of the inserters (C01, C28) and of cropping (C02). Grid contents, the 3D range filter, histograms and serialization: bounded native run against a reference filled by the inserter alone.')
