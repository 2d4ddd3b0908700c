exec(open('/verif/seedtool/meta_mk.py').read())
P('C11','Pose lookup interpolates between the two neighbouring stored poses',
 'For every history of pushing poses with non-decreasing times, setting the size limit and clearing: the buffer holds exactly the latest poses up to the limit, in order; a time can be looked up exactly if it lies between the earliest and the latest stored time (inclusive); looking up a stored time gives the (first) pose stored for it unchanged, any other time the interpolation of the two poses around it: translation linear and rotation along the shorter arc, both at the fraction of time passed; interpolating at either end gives that end.',
 ['inputs','histories'],'every number of poses, all times including repeated ones, all poses, every limit',
 'The tests look up one midpoint; a wrong neighbour or factor shows only for uneven times, repeated stamps, the ends or a shrunken buffer.',
 ['cartographer/transform/transform_interpolation_buffer.cc','cartographer/transform/timestamped_transform.cc'],
 [('buffer','cartographer/transform/transform_interpolation_buffer.cc Push, Has, Lookup, RemoveOldTransformsIfNeeded'),('interpolation','cartographer/transform/timestamped_transform.cc Interpolate')],
 'Push, limits, Has, Lookup and Interpolate proved for all buffers over the trusted contracts of std::deque and std::lower_bound and of Eigen slerp (an arbitrary function of the factor); the arc itself, the trajectory constructor and protos by the bounded native run.')
