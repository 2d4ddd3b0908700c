exec(open('/verif/seedtool/meta_mk.py').read())
P('C07','Every pose graph work item runs exactly once, in order, and finishes',
 'Every work item added to the pose graph is executed exactly once, in the order of adding, whichever thread adds it and however optimisation runs interleave; waiting for all computations returns only after every constraint requested before has been computed, and a final optimisation ends.',
 ['schedules'],'every interleaving of sensor callbacks, the work queue, thread pool tasks and the optimisation',
 'Tests run one schedule.',
 ['cartographer/mapping/internal/2d/pose_graph_2d.cc','cartographer/mapping/internal/constraints/constraint_builder_2d.cc','cartographer/common/thread_pool.cc'],
 [('work queue','cartographer/mapping/internal/2d/pose_graph_2d.cc AddWorkItem, DrainWorkQueue, HandleWorkQueue')],
 na='A statement about interleavings and progress of threads holding absl mutexes and calling each other back; the contracts here are sequential (mutexes are no-ops in the verifier), so neither the atomicity nor the liveness part can be expressed, and a sequential version would be a different property.')
P('C30','Optimisation reduces the error and keeps fixed poses fixed',
 'Pose graph optimisation and scan matching return poses whose cost is no greater than that of the initial poses, and never move frozen trajectories or the first submap.',
 ['inputs'],'all problems','Tests optimise a few small problems.',
 ['cartographer/mapping/internal/optimization/optimization_problem_2d.cc','cartographer/mapping/internal/2d/scan_matching/ceres_scan_matcher_2d.cc'],
 [('solve','cartographer/mapping/internal/optimization/optimization_problem_2d.cc Solve')],
 na='Decided inside the ceres solver (iterative floating point optimisation with automatic differentiation in an external library); the only contract available for ceres::Solve would be the property itself, assumed.')
P('C31','A remote map builder behaves as a local one',
 'A client of the gRPC server observes the same trajectories, poses and results as a caller of the map builder in the same process, for every order of requests and every disconnect.',
 ['schedules','histories'],'all request histories and disconnects','Tests use mocks and a few requests.',
 ['cartographer/cloud/internal/map_builder_server.cc'],[('server','cartographer/cloud/internal/map_builder_server.cc')],
 na='The cloud part is not built in this sandbox (no gRPC, async_grpc), so its source cannot be compiled to be put under contract.')
P('C32','A saved map is read back as it was, or refused',
 'Reading a pbstream file gives exactly the messages written, in order, and a truncated or corrupted file is refused rather than read as something else, wherever the writer stopped.',
 ['crash_points','inputs'],'every file content and every point of interruption','Tests read complete small files.',
 ['cartographer/io/proto_stream.cc','cartographer/io/internal/mapping_state_serialization.cc'],[('stream','cartographer/io/proto_stream.cc ProtoStreamWriter, ProtoStreamReader')],
 na='The content goes through zlib (boost::iostreams gzip) and protobuf parsing, both external and string-based; nothing cartographer does itself beyond an eight byte magic and a size prefix would be left to put under contract.')
