exec(open('/verif/seedtool/meta_mk.py').read())
P('C08','A scheduled task runs once, after all its dependencies and not before',
 'For every graph of tasks and every interleaving of adding dependencies, scheduling and completing them: a task is announced to its thread pool exactly once, exactly when it has been scheduled and all of its dependencies have completed (at once if they already have; an expired dependency counts as completed); its work item runs exactly once, without any lock held; when it completes, every task that depends on it, including those added while it ran, is told exactly once. The thread pool keeps a scheduled task until it is announced, then queues it once in order, and executes each queued task once; a worker stops only when the pool ends and nothing is queued.',
 ['inputs','schedules','histories'],'every task graph, any order of the calls, any number of dependent tasks, other threads acting whenever a lock is free',
 'The tests run a few fixed small graphs; orders of completion against registration and dependents added while a task runs are hit by chance only.',
 ['cartographer/common/task.cc','cartographer/common/thread_pool.cc','cartographer/common/task.h','cartographer/common/thread_pool.h'],
 [('states','cartographer/common/task.cc SetThreadPool, OnDependenyCompleted, AddDependency, AddDependentTask, Execute'),('pool','cartographer/common/thread_pool.cc Schedule, NotifyDependenciesCompleted, DoWork')],
 'Every method of Task, and Schedule, NotifyDependenciesCompleted and DoWork of ThreadPool, each proved as one step under its lock, with the state others can reach while the lock is free left arbitrary; threads themselves (construction, join), liveness of the workers and absence of deadlock across objects by the bounded native run only.')
