#include "vcn.h"
#include <atomic>
#include <deque>
#include <map>
#include <memory>
#include <thread>
#include "cartographer/common/task.h"
#include "cartographer/common/thread_pool.h"
using namespace cartographer::common;
// a pool that only records which tasks were announced as ready
struct Pool : ThreadPoolInterface {
  std::map<Task*, int> ready; std::deque<Task*> queue; std::function<void(Task*)> on;
  std::weak_ptr<Task> Schedule(std::unique_ptr<Task> t) override { std::shared_ptr<Task> s(std::move(t)); Go(s.get()); return s; }
  void Go(Task* t) { SetThreadPool(t); }
  void Run(Task* t) { Execute(t); }
  void NotifyDependenciesCompleted(Task* t) override { ++ready[t]; queue.push_back(t); }
};
struct Node { std::shared_ptr<Task> task; std::set<int> deps; bool scheduled = false, work = false; int ran = 0; bool done = false; };
VCN_CASE(graph) {
  Pool pool; std::vector<std::unique_ptr<Node>> v; int steps = rng.in(1, 40), edges = 0;
  std::function<void(int)> more;
  auto add = [&] {
    auto n = std::unique_ptr<Node>(new Node); n->task = std::make_shared<Task>(); int id = v.size(); Node* p = n.get();
    if ((n->work = !rng.one_in(6))) n->task->SetWorkItem([p, id, &v, &more] {
      ++p->ran; REQUIRE(p->task->GetState() == Task::RUNNING && p->scheduled, "state while running");
      for (int d : p->deps) REQUIRE(v[d]->done, "task " << id << " runs before its dependency " << d << " has completed");
      more(id);
    });
    v.push_back(std::move(n)); return id;
  };
  auto depend = [&](int a, int b) {   // on earlier tasks only: no cycles
    if (b >= a || v[a]->scheduled || v[a]->deps.count(b)) return;
    NOTE(a << " depends on " << b); ++edges; v[a]->task->AddDependency(v[b]->task); v[a]->deps.insert(b);
  };
  more = [&](int id) { if (rng.one_in(4)) {   // also while it runs
    int a = add(); depend(a, id); Node& n = *v[a]; if (!rng.coin()) return;
    NOTE("schedule " << a << " meanwhile"); n.scheduled = true; pool.Go(n.task.get());
    REQUIRE(pool.ready[n.task.get()] == 0 && n.task->GetState() == Task::DISPATCHED, "task " << a << " is ready while its dependency " << id << " runs");
  } };
  auto open = [&](Node& n) { int k = 0; for (int d : n.deps) k += !v[d]->done; return k; };
  for (int k = 0; k < steps + 60; ++k) {
    int q = k < steps ? rng.in(0, 9) : 10;
    if (v.empty() || q <= 2) { NOTE("task " << v.size()); int a = add(); if (rng.one_in(8)) v[a]->task->AddDependency(std::weak_ptr<Task>()); }
    else if (q <= 5) depend(rng.in(0, v.size() - 1), rng.in(0, v.size() - 1));
    else if (q == 6) { auto& n = *v[rng.in(0, v.size() - 1)]; if (!n.scheduled) { n.scheduled = true; pool.Go(n.task.get()); } }
    else if (!pool.queue.empty()) {
      int at = rng.in(0, pool.queue.size() - 1); Task* t = pool.queue[at]; pool.queue.erase(pool.queue.begin() + at);
      Node* n = nullptr; for (auto& x : v) if (x->task.get() == t) n = x.get();
      REQUIRE(n && n->scheduled && open(*n) == 0, "announced before it is ready"); NOTE("run"); pool.Run(t); n->done = true;
      REQUIRE(n->ran == n->work, "the work item ran " << n->ran << " times");
    } else if (q == 10) for (auto& x : v) if (!x->scheduled) { x->scheduled = true; pool.Go(x->task.get()); break; }
    for (size_t i = 0; i < v.size(); ++i) {
      Node& n = *v[i]; bool want = n.scheduled && open(n) == 0;
      REQUIRE(pool.ready[n.task.get()] == want, "task " << i << " announced " << pool.ready[n.task.get()] << " times, expected " << want);
      auto s = n.task->GetState(); REQUIRE(s == (n.done ? Task::COMPLETED : want ? Task::DEPENDENCIES_COMPLETED : n.scheduled ? Task::DISPATCHED : Task::NEW), "state " << s << " of task " << i);
    }
  }
  vcn::Sig(v.size()); vcn::Sig(edges); vcn::nontrivial() = edges > 1;
  while (!pool.queue.empty()) { Task* t = pool.queue.front(); pool.queue.pop_front(); pool.Run(t); }
}
// the real pool, with tasks added by two threads while others run
VCN_CASE(threads) {
  int n = rng.in(1, 60), threads = rng.in(1, 5), dense = rng.in(0, 4); NOTE(n << " tasks " << threads << " threads");
  std::vector<std::atomic<int>> ran(n); for (auto& x : ran) x = 0;
  std::atomic<int> total{0}; std::vector<std::vector<std::weak_ptr<Task>>> weak(2);
  {
    ThreadPool pool(threads); std::vector<std::vector<std::vector<int>>> deps(2); std::vector<uint64_t> seeds{rng.next(), rng.next()};
    auto feed = [&](int who) {
      vcn::Rng r(seeds[who]); auto& w = weak[who]; deps[who].resize(n);
      for (int i = who; i < n; i += 2) {
        std::unique_ptr<Task> t(new Task); std::vector<int> d; std::set<int> used;
        for (int k = 0; k < dense && !w.empty(); ++k) { int j = r.in(0, w.size() - 1); if (used.insert(j).second) d.push_back(j); }
        std::vector<int> ids; for (int j : d) ids.push_back(who + 2 * j);
        int slow = r.one_in(8) ? 30 : 0;
        t->SetWorkItem([&, i, ids, slow] { for (int k : ids) REQUIRE(ran[k] == 1, "task " << i << " before its dependency " << k); if (slow) std::this_thread::sleep_for(std::chrono::microseconds(slow)); ++ran[i]; ++total; });
        for (int j : d) t->AddDependency(w[j]);
        w.push_back(pool.Schedule(std::move(t)));
      }
    };
    std::thread other(feed, 1); feed(0); other.join();
    for (int k = 0; total < n; ++k) { REQUIRE(k < 200000, total << " of " << n << " tasks ran, the others never"); std::this_thread::sleep_for(std::chrono::microseconds(100)); }
  }
  for (int i = 0; i < n; ++i) REQUIRE(ran[i] == 1, "task " << i << " ran " << ran[i] << " times");
  for (auto& w : weak) for (auto& x : w) REQUIRE(x.expired(), "a completed task is gone");
  vcn::Sig(n); vcn::Sig(threads); vcn::Sig(dense); vcn::nontrivial() = n > 2 && dense > 0;
}

// one worker, busy meanwhile: ready tasks run in the order in which they became ready
VCN_CASE(order) {
  int n = rng.in(2, 12); std::atomic<bool> go{false}; std::atomic<int> done{0}; std::vector<int> ran;
  ThreadPool pool(1); NOTE(n << " tasks, one thread"); std::weak_ptr<Task> first;
  for (int i = 0; i < n; ++i) {
    std::unique_ptr<Task> t(new Task); t->SetWorkItem([&, i] { while (!go) std::this_thread::yield(); ran.push_back(i); ++done; });
    if (i > 0 && rng.one_in(4)) t->AddDependency(std::weak_ptr<Task>());
    auto w = pool.Schedule(std::move(t)); if (i == 0) first = w;
    if (i == 0) for (int k = 0; ; ++k) { auto s = first.lock(); if (s && s->GetState() == Task::RUNNING) break; REQUIRE(k < 200000 && s, "the first task never starts"); std::this_thread::sleep_for(std::chrono::microseconds(100)); }
  }
  go = true; for (int k = 0; done < n; ++k) { REQUIRE(k < 200000, done << " of " << n << " tasks ran"); std::this_thread::sleep_for(std::chrono::microseconds(50)); }
  for (int i = 0; i < n; ++i) REQUIRE(ran[i] == i, "task " << ran[i] << " ran in place of " << i);
  vcn::Sig(n); vcn::nontrivial() = true;
}
