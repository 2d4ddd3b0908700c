SEEDS = []
def S(**k): SEEDS.append(k)
C='cartographer/common/'
HEAD=r'''
#include "cartographer/common/task.h"
#include "cartographer/common/thread_pool.h"
#include <cstdio>
#include <memory>
#include <vector>
using namespace cartographer::common;
struct Pool : ThreadPoolInterface {
  std::vector<Task*> ready;
  std::weak_ptr<Task> Schedule(std::unique_ptr<Task>) override { return {}; }
  void Go(Task* t) { SetThreadPool(t); }
  void Run(Task* t) { Execute(t); }
  void NotifyDependenciesCompleted(Task* t) override { ready.push_back(t); }
};
'''
S(id='b25', prop='C08', needs='a task that is made to depend on another while that one is running', breaks='the task runs before its dependency has completed',
  edits=[(C+'task.cc','''  if (state_ == COMPLETED) {
    dependent_task''','''  if (state_ >= RUNNING) {
    dependent_task''')],
  demo=HEAD+r'''
int main() {
  Pool p; auto a = std::make_shared<Task>(), b = std::make_shared<Task>(); int early = 0;
  a->SetWorkItem([&] { b->AddDependency(a); p.Go(b.get()); for (Task* t : p.ready) early += t == b.get(); });
  p.Go(a.get()); p.Run(a.get());
  printf("%d\n", early); return early != 0;
}
''')

S(id='b26', prop='C08', needs='several tasks that are ready while all workers are busy', breaks='ready tasks are executed last in, first out',
  edits=[(C+'thread_pool.cc','  task_queue_.push_back(it->second);','  task_queue_.push_front(it->second);')],
  demo=r'''
#include "cartographer/common/task.h"
#include "cartographer/common/thread_pool.h"
#include <atomic>
#include <chrono>
#include <cstdio>
#include <memory>
#include <thread>
#include <vector>
using namespace cartographer::common;
int main() {
  std::atomic<bool> go{false}; std::atomic<int> done{0}; std::vector<int> order;
  ThreadPool pool(1);
  for (int i = 0; i < 5; ++i) {
    std::unique_ptr<Task> t(new Task); t->SetWorkItem([&, i] { while (!go) std::this_thread::sleep_for(std::chrono::milliseconds(1)); order.push_back(i); ++done; }); pool.Schedule(std::move(t));
    if (i == 0) std::this_thread::sleep_for(std::chrono::milliseconds(100));
  }
  go = true; while (done < 5) std::this_thread::sleep_for(std::chrono::milliseconds(1));
  bool ok = true; for (int i = 0; i < 5; ++i) ok = ok && order[i] == i;
  printf("%d\n", ok); return !ok;
}
''')
