exec(open('/verif/seedtool/meta_mk.py').read())
P('C15','Trajectories count as connected exactly if a chain of connections joins them',
 'For every history of adding and connecting trajectories and of queries in between: two known trajectories are transitively connected exactly if a chain of connections joins them (every trajectory to itself, an unknown one to no other); the component of a trajectory lists exactly those, each once; each pair has as many direct connections as were made, in either order; the last connection time of a pair is the latest of its connections, or, when a connection joins two components, the time of that connection for every pair across them. Queries change none of this.',
 ['inputs','histories'],'every history, any number of trajectories with non-negative ids, all times',
 'The tests connect a few trajectories; path compression, joining of large components and repeated or reversed pairs appear only in longer histories.',
 ['cartographer/mapping/internal/connected_components.cc','cartographer/mapping/internal/trajectory_connectivity_state.cc'],
 [('forest','cartographer/mapping/internal/connected_components.cc Union, FindSet, GetComponent, TransitivelyConnected'),('times','cartographer/mapping/internal/trajectory_connectivity_state.cc Connect')],
 'FindSet (recursion over its own contract, with termination measure), Union, Add, TransitivelyConnected, GetComponent, ConnectionCount, and TrajectoryConnectivityState over the contracts of these, proved for all forests with ghost representatives and heights; Components and ToProto by the bounded native run.')
