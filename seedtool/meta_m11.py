exec(open('/verif/seedtool/meta_mk.py').read())
P('C09','MapById hands out fresh ids and iterates each live id once in id order',
 'For every history of Append, Insert, Trim and lookups on MapById, with any trajectory and index values: Append adds its datum under the index after the greatest one present in the requested trajectory (0 for a trajectory without data), and is refused once the newest datum of a non-empty trajectory was trimmed or data was inserted by id, so no id of a trajectory with data is handed out twice; Insert adds exactly its id; Trim removes exactly its id and leaves all other data unchanged; Contains, at, find and SizeOfTrajectoryOrZero agree with the set of live ids; iteration forward from begin and backward from end visits every live id exactly once in (trajectory, index) order, a trajectory disappearing with its last datum, and per-trajectory ranges cover exactly that trajectory; lower_bound finds the first datum of a trajectory not earlier than a given time.',
 ['inputs','histories'],'every number of trajectories and data, all ids, every order of operations',
 'The tests use a few ids on two or three trajectories; id reuse needs trimming the newest datum, and iteration errors need emptied trajectories or gaps in particular positions.',
 ['cartographer/mapping/id.h'],
 [('ids','cartographer/mapping/id.h MapById::Append, Insert, Trim'),('iteration','cartographer/mapping/id.h MapById::ConstIterator'),('time search','cartographer/mapping/id.h MapById::lower_bound')],
 'append, insert, trim, lookups, the steps of iteration and the time search proved for any map over the trusted contract of std::map; whole histories also by the bounded native run.')
