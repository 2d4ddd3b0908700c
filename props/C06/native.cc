#include "vcn.h"
#include <algorithm>
#include <deque>
#include <map>
#include "absl/memory/memory.h"
#include "cartographer/common/time.h"
#include "cartographer/sensor/data.h"
#include "cartographer/sensor/internal/collator.h"
#include "cartographer/sensor/internal/ordered_multi_queue.h"
#include "cartographer/sensor/internal/trajectory_collator.h"
using namespace cartographer; using namespace cartographer::sensor;
struct Item : Data {
  int64_t t; int id;
  Item(const std::string& s, int64_t t, int id) : Data(s), t(t), id(id) {}
  common::Time GetTime() const override { return common::FromUniversal(t); }
  void AddToTrajectoryBuilder(mapping::TrajectoryBuilderInterface*) override {}
};
typedef std::pair<int, std::string> Key;
struct Q { std::vector<std::pair<int64_t, int>> all; size_t fed = 0, head = 0; bool fin = false, gone = false; };
struct Out { Key key; int64_t t; int id; bool operator==(const Out& o) const { return key == o.key && t == o.t && id == o.id; } };
// reference: what may be dispatched given everything fed so far
struct Ref {
  std::map<Key, Q> q; std::map<int, int64_t> start; std::vector<Out> out; Key blocker; bool blocked = false;
  void Run() {
    while (true) {
      blocked = false;
      const Key* best = nullptr; int64_t bt = 0;
      for (auto& e : q) {
        if (e.second.gone) continue;
        if (e.second.head == e.second.fed) { if (e.second.fin) { e.second.gone = true; continue; } blocker = e.first; blocked = true; return; }
        int64_t t = e.second.all[e.second.head].first;
        if (!best || t < bt) { best = &e.first; bt = t; }
      }
      if (!best) return;
      int tr = best->first; Q& n = q[*best];
      if (!start.count(tr)) { int64_t s = INT64_MIN; for (auto& e : q) if (!e.second.gone && e.first.first == tr) s = std::max(s, e.second.all[e.second.head].first); start[tr] = s; }
      bool give;
      if (bt >= start[tr]) give = true;
      else if (n.fed - n.head < 2) { if (!n.fin) { blocker = *best; blocked = true; return; } give = true; }
      else give = n.all[n.head + 1].first > start[tr];
      if (give) out.push_back({*best, bt, n.all[n.head].second});
      ++n.head;
    }
  }
};
static void Compare(const std::vector<Out>& got, const std::vector<Out>& want) {
  std::map<Key, std::vector<int>> a, b;
  for (size_t i = 0; i < got.size(); ++i) { if (i) REQUIRE(got[i - 1].t <= got[i].t, "dispatched in time order, item " << i << " at " << got[i].t << " after " << got[i - 1].t); a[got[i].key].push_back(got[i].id); }
  for (auto& o : want) b[o.key].push_back(o.id);
  REQUIRE(got.size() == want.size(), "dispatched " << got.size() << ", expected " << want.size());
  REQUIRE(a == b, "every queue's data in order, to its own callback");
}
static std::map<Key, Q> Gen(vcn::Rng& rng, int ntraj) {
  std::map<Key, Q> m; int id = 0; int nt = ntraj ? ntraj : rng.in(1, 3);
  for (int t = 0; t < nt; ++t) {
    int ns = rng.in(1, 4);
    for (int s = 0; s < ns; ++s) {
      Q q; int n = rng.one_in(5) ? 0 : rng.in(1, 12); int64_t tm = rng.in(0, 40), step = rng.in(0, 8);
      for (int i = 0; i < n; ++i) { q.all.push_back({1000 + tm, id++}); tm += rng.one_in(6) ? 20 : rng.in(0, step); }
      m[{t * 3 + 1, std::string(1, static_cast<char>('a' + s))}] = q;
    }
  }
  for (auto& e : m) { std::ostringstream o; for (auto& x : e.second.all) o << x.first << ' '; NOTE("queue " << e.first.first << e.first.second << ": " << o.str()); }
  vcn::Sig(m.size());
  return m;
}
VCN_CASE(multi_queue) {
  Ref ref; ref.q = Gen(rng, 0); std::vector<Out> got;
  OrderedMultiQueue mq; std::vector<Key> keys;
  for (auto& e : ref.q) { Key k = e.first; keys.push_back(k); mq.AddQueue(QueueKey{k.first, k.second}, [k, &got](std::unique_ptr<Data> d) { auto* i = static_cast<Item*>(d.get()); got.push_back({k, i->t, i->id}); }); }
  bool more = true; int ops = 0;
  while (more) {
    more = false;
    for (auto& e : ref.q) if (e.second.fed < e.second.all.size()) more = true;
    if (!more) break;
    Key k = rng.pick(keys); Q& q = ref.q[k];
    if (rng.one_in(40)) { std::string nk = "unknown"; mq.Add(QueueKey{k.first, nk}, absl::make_unique<Item>(nk, 0, -1)); }
    if (q.fin) { if (q.fed < q.all.size()) q.all.resize(q.fed); continue; }
    if (rng.one_in(25)) { q.all.resize(q.fed); q.fin = true; NOTE("finish " << k.first << k.second); mq.MarkQueueAsFinished(QueueKey{k.first, k.second}); }
    else if (q.fed < q.all.size()) { auto& x = q.all[q.fed++]; NOTE("add " << k.first << k.second << " " << x.first); mq.Add(QueueKey{k.first, k.second}, absl::make_unique<Item>(k.second, x.first, x.second)); }
    else continue;
    ++ops; ref.Run(); Compare(got, ref.out);
    if (ref.blocked) { QueueKey b = mq.GetBlocker(); Q& bq = ref.q[{b.trajectory_id, b.sensor_id}]; REQUIRE(!bq.fin && bq.fed - bq.head < 2, "the blocker is a queue that needs more data: " << b.trajectory_id << b.sensor_id); REQUIRE(b.trajectory_id == ref.blocker.first, "blocking trajectory"); }
  }
  NOTE("flush"); mq.Flush();
  for (auto& e : ref.q) if (!e.second.fin) { e.second.fin = true; ref.Run(); }
  Compare(got, ref.out);
  size_t left = 0; for (auto& e : ref.q) left += e.second.all.size() - e.second.head;
  REQUIRE(left == 0, "flushing leaves nothing behind"); vcn::nontrivial() = ops > 5; vcn::Sig(ops);
}
template <class C> static std::vector<Out> Feed(vcn::Rng& rng, const std::map<Key, Q>& in, bool finish_each) {
  C c; std::vector<Out> got; std::map<int, absl::flat_hash_set<std::string>> sensors; std::map<Key, size_t> fed; std::vector<Key> keys;
  for (auto& e : in) { sensors[e.first.first].insert(e.first.second); keys.push_back(e.first); }
  for (auto& s : sensors) { int t = s.first; c.AddTrajectory(t, s.second, [t, &got](const std::string& id, std::unique_ptr<Data> d) { auto* i = static_cast<Item*>(d.get()); REQUIRE(i->GetSensorId() == id, "sensor id"); got.push_back({{t, id}, i->t, i->id}); }); }
  size_t left = 0; for (auto& e : in) left += e.second.all.size();
  while (left) { const Key& k = rng.pick(keys); const Q& q = in.at(k); if (fed[k] == q.all.size()) continue; auto& x = q.all[fed[k]++]; --left; c.AddSensorData(k.first, absl::make_unique<Item>(k.second, x.first, x.second)); }
  if (finish_each) for (auto& s : sensors) c.FinishTrajectory(s.first);
  c.Flush();
  return got;
}
VCN_CASE(collator) {
  auto in = Gen(rng, 0); bool fin = rng.coin();
  auto a = Feed<Collator>(rng, in, fin), b = Feed<Collator>(rng, in, fin);
  REQUIRE(a == b, "the output does not depend on the arrival order across queues");
  Ref ref; ref.q = in; for (auto& e : ref.q) e.second.fed = e.second.all.size();
  ref.Run(); for (auto& e : ref.q) { e.second.fin = true; ref.Run(); }
  Compare(a, ref.out); vcn::nontrivial() = a.size() > 3; vcn::Sig(a.size());
}
VCN_CASE(trajectory_collator) {
  auto in = Gen(rng, 0); bool fin = rng.coin();
  auto a = Feed<TrajectoryCollator>(rng, in, fin), b = Feed<TrajectoryCollator>(rng, in, fin);
  std::map<int, std::vector<Out>> pa, pb, pr; for (auto& o : a) pa[o.key.first].push_back(o); for (auto& o : b) pb[o.key.first].push_back(o);
  REQUIRE(pa == pb, "per trajectory, the output does not depend on the arrival order");
  std::map<int, Ref> refs; for (auto& e : in) { refs[e.first.first].q[e.first] = e.second; refs[e.first.first].q[e.first].fed = e.second.all.size(); }
  for (auto& r : refs) { r.second.Run(); for (auto& e : r.second.q) { e.second.fin = true; r.second.Run(); } Compare(pa[r.first], r.second.out); }
  vcn::nontrivial() = a.size() > 3; vcn::Sig(a.size());
}
