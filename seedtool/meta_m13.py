exec(open('/verif/seedtool/meta_mk.py').read())
P('C14','Collated range data covers consecutive intervals, each point exactly once',
 'For every set of range sensors and every sequence of their messages (points sorted by time and not after the message time): data comes out exactly when a sensor sends a second message while one is pending or when all sensors have one pending; the emitted interval runs from the end of the previous one to the time of the older message of the repeating sensor, otherwise to the oldest pending message, and stamps the output; every pending point in the interval comes out exactly once with its position, intensity (0 where not given), the origin of its message and its absolute time, points after it stay pending, and only points before it are dropped; the output is sorted by time.',
 ['inputs','histories'],'every number of sensors, messages and points, all time stamps',
 'Points at interval borders, messages without points, partial intensities and repeated sensors combine; the tests use a handful of messages of two sensors.',
 ['cartographer/mapping/internal/range_data_collator.cc','cartographer/mapping/internal/range_data_collator.h'],
 [('interval','cartographer/mapping/internal/range_data_collator.cc RangeDataCollator::AddRangeData'),('crop and merge','cartographer/mapping/internal/range_data_collator.cc RangeDataCollator::CropAndMerge')],
 'AddRangeData and CropAndMerge (four nested loops) proved for any number of sensors and points over the trusted contracts of std::map and std::sort, times to ticks an arbitrary function, points compared as reals; histories also by the bounded native run.')
