exec(open('/tmp/mk.py').read())
P('C13','Compressing a point cloud keeps every point, within half a millimetre',
 'For every point cloud within the documented range: the compressed cloud has as many points as the original, and decompressing it or iterating over it yields exactly one point per original point (duplicates included) whose coordinates differ from the original by at most half the encoding precision of 1 mm (plus float rounding); points in one block keep their order. The iterator ends after exactly size() points, Decompress and iteration agree, clouds are equal exactly if their data and sizes are, and conversion to and from the proto yields an equal cloud.',
 ['inputs'],'every number of points and all coordinates within +/- 8.388 km, every distribution over blocks',
 'The tests compress a handful of fixed points on a coarse lattice; negative coordinates at block borders, several points per block and several blocks interact only for particular clouds.',
 ['cartographer/sensor/compressed_point_cloud.cc','cartographer/sensor/compressed_point_cloud.h'],
 [('encoding','cartographer/sensor/compressed_point_cloud.cc CompressedPointCloud::CompressedPointCloud'),('decoding','cartographer/sensor/compressed_point_cloud.cc ConstIterator::ReadNextPoint/operator++'),('expansion','cartographer/sensor/compressed_point_cloud.cc Decompress')],
 'Encoder (one arbitrary ghost point through both loops), decoder step and Decompress proved in real arithmetic over the contract of the hybrid grid as a map with one iteration per non-empty block (C05); proto conversion by the bounded native run.')
