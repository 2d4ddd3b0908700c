exec(open('/verif/seedtool/meta_mk.py').read())
P('C10','MapByTime keeps all sensor data outside a trimmed gap, and its two ends',
 'For every history of appending sensor data and trimming nodes: data of a trajectory is iterated, forwards and backwards, in strictly increasing time, trajectories in increasing id; lower_bound finds the first datum not before a time; trimming a node removes, of the data of its trajectory between the previous and the next node of that trajectory (inclusive; unbounded where there is none), exactly those other than the first (if there is a previous node) and the last (if there is a next node), and nothing else; a trajectory exists exactly while it has data, and trimming never creates one.',
 ['inputs','histories'],'every number of trajectories, data and nodes, all times, every order of operations',
 'Which datum a trim must keep depends on exact time ties between data and neighbouring nodes and on which neighbours exist; the tests trim one list of eight data.',
 ['cartographer/sensor/map_by_time.h','cartographer/mapping/id.h'],
 [('append','cartographer/sensor/map_by_time.h MapByTime::Append'),('trim','cartographer/sensor/map_by_time.h MapByTime::Trim'),('iteration','cartographer/sensor/map_by_time.h MapByTime::ConstIterator, ConstTrajectoryIterator, lower_bound')],
 'append, trim, lookups and the steps of iteration proved for any map over the trusted contract of std::map and the contracts of MapById iterators proved in C09; whole histories also by the bounded native run.')
