exec(open('/verif/seedtool/meta_mk.py').read())
P('C06','Sensor data is dispatched in merge-sorted order, once, as soon as possible',
 'For every set of queues, every per-queue sorted data and every interleaving of adding data, finishing queues and flushing: callbacks see data in non-decreasing time; each queue\'s data reaches its own callback first in first out and at most once; nothing is dispatched while an unfinished queue is empty, and nothing older than a dispatched datum is waiting in any queue; dispatching goes on until an unfinished queue needs data (that queue is the reported blocker) or all queues are done; data is only dropped before the trajectory\'s common start time (the latest first datum over its queues), keeping the last datum of each queue before it; flushing dispatches all the rest. The order of the collated output does not depend on the order in which data of different sensors arrived. Data for unknown queues is ignored.',
 ['histories','inputs','schedules'],'every number of queues and trajectories, all times, every order of additions and finishes',
 'The tests feed three queues in a handful of orders; ordering bugs need particular ties, finished queues or data around the common start time.',
 ['cartographer/sensor/internal/ordered_multi_queue.cc','cartographer/sensor/internal/collator.cc','cartographer/sensor/internal/trajectory_collator.cc','cartographer/common/internal/blocking_queue.h'],
 [('merge','cartographer/sensor/internal/ordered_multi_queue.cc OrderedMultiQueue::Dispatch'),('common start','cartographer/sensor/internal/ordered_multi_queue.cc OrderedMultiQueue::GetCommonStartTime'),('collators','cartographer/sensor/internal/collator.cc, trajectory_collator.cc')],
 'Dispatch (both loops), GetCommonStartTime, CannotMakeProgress, Add and MarkQueueAsFinished proved for any number of queues over the contract of std::map (trusted model) with BlockingQueue inlined, single-threaded; Flush and the collators by the bounded native run.')
