// Task: runs when all dependencies have completed, tells each dependent task once.
#define VC_SET
#include "vc_begin.h"
#include "cartographer/common/task.h"
#include "cartographer/common/task.cc"
using namespace cartographer::common;
typedef std::vc_set<Task*> Set;
static Task *T, *D; static ThreadPoolInterface* POOL;
static int64_t HELD, NOTIFIED, COMPLETIONS, ADDED, RAN, LOCKS; static bool HAVOC;
static Task** SEEN; static unsigned U0; static bool CALLED;
// ---- the mutex of the task under proof: not taken twice; while it is free others may add dependent tasks
extern "C" void vc_stub_lock(absl::Mutex* m) {
  vc_assert(m == &T->mutex_, "the own mutex"); vc_assert(HELD == 0, "not locked twice"); HELD = 1; ++LOCKS;
  if (HAVOC && LOCKS > 1) {
    auto& s = T->dependent_tasks_; s.e_ = static_cast<Task**>(vcx_alloc(8, "tasks")); s.n_ = vc::any_i64("later", 0, int64_t{1} << 40);
  }
}
extern "C" void vc_stub_unlock(absl::Mutex* m) { vc_assert(m == &T->mutex_ && HELD == 1, "unlocked by its holder"); HELD = 0; }
// ---- contracts of what a task calls
extern "C" void vc_stub_notify(ThreadPoolInterface* p, Task* t) {
  vc_assert(p == POOL && t == T, "the pool it was scheduled in is told of this task");
  vc_assert(HELD == 1 && T->state_ == Task::DEPENDENCIES_COMPLETED && T->uncompleted_dependencies_ == 0, "ready when announced"); ++NOTIFIED;
}
extern "C" void vc_stub_completed(Task* t) {   // OnDependenyCompleted of another task
  vc_assert(t != T, "another task"); vc_assert(HELD == 1 && T->state_ == Task::COMPLETED, "told only of a completed dependency");
  SEEN[COMPLETIONS] = t; ++COMPLETIONS;
}
extern "C" void vc_stub_dependent(Task* d, Task* t) {   // AddDependentTask of the dependency
  vc_assert(d == D && t == T, "this task depends on the other");
  vc_assert(HELD == 0, "no lock is held"); vc_assert(T->uncompleted_dependencies_ == U0 + 1, "counted before it can complete"); ++ADDED;
}
static void Any() {
  T = vc::any_obj<Task>("task"); D = vc::any_obj<Task>("other"); POOL = vc::any_obj<ThreadPoolInterface>("pool");
  auto& s = T->dependent_tasks_; s.e_ = static_cast<Task**>(vcx_alloc(8, "tasks")); s.n_ = vc::any_i64("tasks", 0, int64_t{1} << 40);
  SEEN = static_cast<Task**>(vcx_alloc(8, "seen"));
  vc_assume(T->state_ >= Task::NEW && T->state_ <= Task::COMPLETED);
  HELD = NOTIFIED = COMPLETIONS = ADDED = RAN = LOCKS = 0; HAVOC = false; U0 = T->uncompleted_dependencies_;
}
VC_HARNESS(fresh) {
  T = new Task; vc_assert(T->state_ == Task::NEW && T->uncompleted_dependencies_ == 0 && T->dependent_tasks_.n_ == 0 && T->thread_pool_to_notify_ == nullptr, "new, no dependencies, no dependent tasks");
}
VC_HARNESS(schedule) {
  Any(); vc_assume(T->state_ == Task::NEW); int64_t n = T->dependent_tasks_.n_; auto* e = T->dependent_tasks_.e_;
  T->SetThreadPool(POOL);
  vc_assert(T->state_ == (U0 == 0 ? Task::DEPENDENCIES_COMPLETED : Task::DISPATCHED), "ready at once exactly without open dependencies");
  vc_assert(NOTIFIED == (U0 == 0), "announced exactly once, exactly if ready");
  vc_assert(T->thread_pool_to_notify_ == POOL && T->uncompleted_dependencies_ == U0 && T->dependent_tasks_.n_ == n && T->dependent_tasks_.e_ == e && HELD == 0, "the rest stays");
}
VC_HARNESS(completed) {
  Any(); T->state_ = vc::any_bool("scheduled") ? Task::DISPATCHED : Task::NEW; T->thread_pool_to_notify_ = POOL; vc_assume(U0 >= 1); auto s = T->state_;
  T->OnDependenyCompleted();
  vc_assert(T->uncompleted_dependencies_ == U0 - 1, "one open dependency less");
  vc_assert(NOTIFIED == (s == Task::DISPATCHED && U0 == 1), "announced exactly by the last dependency of a scheduled task");
  vc_assert(T->state_ == (s == Task::DISPATCHED && U0 == 1 ? Task::DEPENDENCIES_COMPLETED : s) && HELD == 0, "ready exactly with the last dependency");
}
VC_HARNESS(depend) {
  Any(); vc_assume(T->state_ == Task::NEW && U0 < 4294967295u);
  std::vc_weak_ptr<Task> w; w.p_ = vc::any_bool("alive") ? D : nullptr; int64_t n = T->dependent_tasks_.n_;
  T->AddDependency(w);
  vc_assert(ADDED == (w.p_ != nullptr) && T->uncompleted_dependencies_ == U0 + (w.p_ != nullptr), "a live dependency is counted and asked once; a gone one has completed");
  vc_assert(T->state_ == Task::NEW && NOTIFIED == 0 && HELD == 0 && T->dependent_tasks_.n_ == n, "the rest stays");
}
VC_HARNESS(dependent) {
  Any(); auto s = T->state_; auto& d = T->dependent_tasks_; int64_t n = d.n_; auto* e = d.e_; auto* t = D;
  vc_assume(vc::forall(0, n, [=](int64_t i) { return e[i] != t; }));   // a task depends on another at most once
  int64_t i = vc::any_i64("i", 0, int64_t{1} << 40); vc_assume(i != n); Task* old = e[i];
  T->AddDependentTask(D);
  if (s == Task::COMPLETED) vc_assert(COMPLETIONS == 1 && SEEN[0] == D && d.n_ == n, "told at once by a completed task, and never again");
  else vc_assert(COMPLETIONS == 0 && d.n_ == n + 1 && d.e_[n] == D, "to be told when this task completes");
  vc_assert(d.e_[i] == old && T->state_ == s && HELD == 0 && T->uncompleted_dependencies_ == U0, "the rest stays");
}
VC_HARNESS(work_item) {
  Any(); vc_assume(T->state_ == Task::NEW); std::vc_function<void()> f([] { ++RAN; });
  T->SetWorkItem(f); vc_assert(RAN == 0 && T->state_ == Task::NEW && HELD == 0, "not run yet"); T->work_item_(); vc_assert(RAN == 1, "the work item given");
}
VC_INV(told) {
  auto& it = vc::local<Set::iterator>("~^__begin", ""); auto& s = T->dependent_tasks_; auto *e = s.e_; int64_t c = it.i_;
  if (!(it.m_ == &s && c >= 0 && c <= s.n_ && COMPLETIONS == c && HELD == 1 && T->state_ == Task::COMPLETED)) return false;
  auto* t = SEEN; return vc::forall(0, c, [=](int64_t i) { return t[i] == e[i]; });
}
VC_HARNESS(execute) {
  Any(); vc_assume(T->state_ == Task::DEPENDENCIES_COMPLETED); HAVOC = true; bool has = vc::any_bool("work");
  if (has) T->work_item_ = std::vc_function<void()>([] { vc_assert(HELD == 0, "runs without the lock"); vc_assert(T->state_ == Task::RUNNING, "while running"); vc_assert(COMPLETIONS == 0, "nobody told before it ran"); ++RAN; });
  else T->work_item_ = std::vc_function<void()>();
  T->Execute();
  auto& s = T->dependent_tasks_; auto* e = s.e_; int64_t n = s.n_; auto* t = SEEN;
  vc_assert(RAN == has, "the work item ran once"); vc_assert(T->state_ == Task::COMPLETED && HELD == 0, "completed");
  vc_assert(COMPLETIONS == n, "as many told as depend on it"); vc_assert(vc::forall(0, n, [=](int64_t i) { return t[i] == e[i]; }), "each dependent task told once, also those added while it ran");
}
