// ThreadPool: a scheduled task waits until it is announced, is then queued once, and executed once.
#define VC_SET
#include "vc_begin.h"
#include "cartographer/common/task.h"
#include "cartographer/common/thread_pool.h"
#include "cartographer/common/thread_pool.cc"
using namespace cartographer::common;
typedef std::vc_shared_ptr<Task> P; typedef absl::vc_flat_hash_map<Task*, P> Map;
static ThreadPool* M; static Task* T; static P* OLD; static int64_t HELD, SET, EXECUTED, FRONT;
static const int64_t kBig = int64_t{1} << 40;
static Map& W() { return M->tasks_not_ready_; }
static std::vc_deque<P>& Q() { return M->task_queue_; }
static void Queue() { auto& q = Q(); auto* g = static_cast<P*>(vcx_alloc(sizeof(P), "queue")); vcx_copy_all(q.d_, g); q.b_ = vc::any_i64("first", 0, kBig); q.e_ = vc::any_i64("last", 0, kBig); vc_assume(q.b_ <= q.e_); auto* d = q.d_; vc_assume(vc::forall(q.b_, q.e_, [=](int64_t i) { return d[i].p_ != nullptr; })); }
extern "C" void vc_stub_lock(absl::Mutex* m) {
  vc_assert(m == &M->mutex_ && HELD == 0, "the own mutex, not locked twice"); HELD = 1;
}
extern "C" void vc_stub_unlock(absl::Mutex* m) { vc_assert(m == &M->mutex_ && HELD == 1, "unlocked by its holder"); HELD = 0; }
// waits until the condition holds; others may have changed queue and flag meanwhile
extern "C" void vc_stub_await(absl::Mutex* m, const absl::Condition& c) {
  vc_assert(m == &M->mutex_ && HELD == 1, "waits with the lock"); vc_assert(FRONT == -5, "a task taken was executed before the next is awaited");
  Queue(); M->running_ = vc::any_bool("running"); FRONT = Q().b_; vcx_copy_all(OLD, Q().d_);
  bool go = c.eval_(&c); vc_assert(go == (Q().b_ < Q().e_ || !M->running_), "waits exactly for work or the end"); vc_assume(go);
}
extern "C" int vc_stub_nice(int) { return 0; }
extern "C" int vc_stub_state(Task* t) { vc_assert(HELD == 0, "no lock is held"); return Task::DEPENDENCIES_COMPLETED; }   // queued tasks are ready: task.proof.cc, ready
extern "C" void vc_stub_execute(ThreadPoolInterface* p, Task* t) {
  vc_assert(p == M && HELD == 0, "executes without the lock"); vc_assert(FRONT >= 0 && t == OLD[FRONT].p_, "the first in the queue"); vc_assert(Q().b_ == FRONT + 1, "taken from the queue, only this one"); FRONT = -5; ++EXECUTED;
}
extern "C" void vc_stub_set(ThreadPoolInterface* p, Task* t) {
  vc_assert(p == M && HELD == 0, "scheduled without the lock"); vc_assert(t == T, "this task");
  auto& w = W(); int64_t c = w.cap_; vc_assert(c > 0 && w.live_[c - 1] && w.e_[c - 1].first == T && w.e_[c - 1].second.p_ == T, "the pool keeps it before it can be announced"); ++SET;
}
static void Any() {
  M = vc::any_obj<ThreadPool>("pool"); T = vc::any_obj<Task>("task"); FRONT = -5; OLD = static_cast<P*>(vcx_alloc(sizeof(P), "old")); HELD = SET = EXECUTED = 0;
  auto& w = W(); w.e_ = static_cast<Map::value_type*>(vcx_alloc(sizeof(Map::value_type), "waiting")); w.live_ = static_cast<bool*>(vcx_alloc(1, "live")); w.cap_ = vc::any_i64("nodes", 0, kBig); w.n_ = vc::any_i64("waiting", 0, kBig);
  Q().d_ = static_cast<P*>(vcx_alloc(sizeof(P), "tasks")); Queue();
}
VC_HARNESS(ready) {
  Any(); auto& w = W(); int64_t c = w.cap_, at = vc::any_i64("at", 0, kBig); vc_assume(at < c && w.live_[at]); w.e_[at].first = T; w.e_[at].second.p_ = T; auto *e = w.e_; auto* l = w.live_; Task* t = T;
  vc_assume(vc::forall(0, c, [=](int64_t i) { return i == at || !l[i] || e[i].first != t; }));
  int64_t i = vc::any_i64("i", 0, kBig), j = vc::any_i64("j", 0, kBig); vc_assume(i < c && i != at); bool li = l[i]; Task* ti = e[i].second.p_;
  auto& q = Q(); int64_t b = q.b_, n = q.e_; vc_assume(j >= b && j < n); Task* tj = q.d_[j].p_;
  M->ThreadPool::NotifyDependenciesCompleted(T);
  vc_assert(q.b_ == b && q.e_ == n + 1 && q.d_[n].p_ == T, "queued once, at the back"); vc_assert(!w.live_[at] && w.cap_ == c, "no longer waiting");
  vc_assert(w.live_[i] == li && w.e_[i].second.p_ == ti, "the others still wait"); vc_assert(q.d_[j].p_ == tj && HELD == 0, "the queue stays");
}
VC_HARNESS(empty_queue) {
  Any(); auto& w = W(); int64_t c = w.cap_, at = vc::any_i64("at", 0, kBig); vc_assume(at < c && w.live_[at]); w.e_[at].first = T; w.e_[at].second.p_ = T; auto *e = w.e_; auto* l = w.live_; Task* t = T;
  vc_assume(vc::forall(0, c, [=](int64_t i) { return i == at || !l[i] || e[i].first != t; })); auto& q = Q(); int64_t b = q.b_, n = q.e_;
  M->ThreadPool::NotifyDependenciesCompleted(T); vc_assert(q.b_ == b && q.e_ == n + 1 && q.d_[n].p_ == T && !w.live_[at], "queued once, at the back");
}
VC_HARNESS(schedule) {
  Any(); auto& w = W(); int64_t c = w.cap_; auto *e = w.e_; auto* l = w.live_; Task* t = T; vc_assume(vc::forall(0, c, [=](int64_t i) { return !l[i] || e[i].first != t; }));   // a task is scheduled once
  int64_t i = vc::any_i64("i", 0, kBig); vc_assume(i != c); bool li = l[i]; Task* ti = e[i].second.p_; auto& q = Q(); int64_t b = q.b_, n = q.e_;
  std::vc_unique_ptr<Task> u(T); auto r = M->ThreadPool::Schedule(std::move(u));
  vc_assert(SET == 1 && HELD == 0, "handed to the task once"); vc_assert(r.p_ == T, "returns the task"); vc_assert(w.cap_ == c + 1 && w.live_[i] == li && w.e_[i].second.p_ == ti, "the others stay"); vc_assert(q.b_ == b && q.e_ == n, "not queued before it is announced");
}
VC_INV(serving) { return HELD == 0 && FRONT == -5; }
VC_HARNESS(work) {
  Any(); M->DoWork();
  vc_assert(HELD == 0 && !M->running_ && Q().b_ == Q().e_, "stops only when told to, with nothing queued"); vc_assert(FRONT == Q().b_, "no task lost");
}
