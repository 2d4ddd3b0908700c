// std::map by its contract: a finite set of live nodes with distinct keys;
// iterators visit them in key order. Node storage is never reused, so
// references and iterators to other nodes stay valid, as the standard says.
#ifndef VC_MAP_H_
#define VC_MAP_H_
namespace vc {
// order of keys: an order-preserving injection into the integers
template <class K> struct order { static int64_t rank(const K& k) { return static_cast<int64_t>(k); } };
}
namespace std {
template <class K, class V, class C = std::less<K>, class A = void>
class vc_map {
 public:
  typedef K key_type; typedef V mapped_type; typedef std::pair<const K, V> value_type; typedef size_t size_type;
  value_type* e_; bool* live_; int64_t cap_, n_;   // nodes [0, cap_), n_ of them live
  template <class M, class E> struct iter_ {
    typedef std::bidirectional_iterator_tag iterator_category; typedef std::pair<const K, V> value_type; typedef ptrdiff_t difference_type; typedef E* pointer; typedef E& reference;
    M* m_; int64_t i_;   // -1: end
    iter_() : m_(nullptr), i_(-1) {}
    iter_(M* m, int64_t i) : m_(m), i_(i) {}
    template <class M2, class E2> iter_(const iter_<M2, E2>& o) : m_(o.m_), i_(o.i_) {}
    E& operator*() const { vcx_assert(i_ >= 0, "dereferenced iterator is not end"); return m_->e_[i_]; }
    E* operator->() const { vcx_assert(i_ >= 0, "dereferenced iterator is not end"); return m_->e_ + i_; }
    iter_& operator++() { vcx_assert(i_ >= 0, "incremented iterator is not end"); i_ = m_->next_(i_); return *this; }
    iter_ operator++(int) { iter_ o = *this; ++*this; return o; }
    iter_& operator--() { i_ = i_ < 0 ? m_->last_() : m_->prev_(i_); vcx_assert(i_ >= 0, "decremented iterator is not begin"); return *this; }
    iter_ operator--(int) { iter_ o = *this; --*this; return o; }
    template <class M2, class E2> bool operator==(const iter_<M2, E2>& o) const { return i_ == o.i_; }
    template <class M2, class E2> bool operator!=(const iter_<M2, E2>& o) const { return i_ != o.i_; }
  };
  typedef iter_<vc_map, value_type> iterator; typedef iter_<const vc_map, const value_type> const_iterator;
  vc_map() : e_(vc::alloc_array<value_type>()), live_(vc::alloc_array<bool>()), cap_(0), n_(0) { bool f = false; vcx_fill_all(live_, &f, 1); }
  vc_map(const vc_map& o) : e_(vc::alloc_array<value_type>()), live_(vc::alloc_array<bool>()), cap_(o.cap_), n_(o.n_) { vcx_unsupported("copy of a map"); }
  vc_map(vc_map&& o) : e_(o.e_), live_(o.live_), cap_(o.cap_), n_(o.n_) { o.e_ = vc::alloc_array<value_type>(); o.live_ = vc::alloc_array<bool>(); bool f = false; vcx_fill_all(o.live_, &f, 1); o.cap_ = o.n_ = 0; }
  ~vc_map() {}
  static int64_t r_(const K& k) { return vc::order<K>::rank(k); }
  int64_t rank_(int64_t i) const { return r_(e_[i].first); }
  // Finite sets have least and greatest elements; keys are distinct (trusted).
  // least live node with a key > / >= the given one; with lo == INT64_MIN and oreq: the first
  int64_t above_(int64_t lo, bool oreq) const {
    int64_t r = vcx_any_int("node", -1, int64_t{1} << 61), c = cap_; auto* e = e_; auto* l = live_;
    vc_assume(r < c);
    if (r < 0) vc_assume(vc::forall(0, c, [=](int64_t j) { return !l[j] || r_(e[j].first) < lo || (!oreq && r_(e[j].first) == lo); }));
    else {
      int64_t k = r_(e[r].first);
      vc_assume(l[r] && (k > lo || (oreq && k == lo)));
      vc_assume(vc::forall(0, c, [=](int64_t j) { return !l[j] || j == r || r_(e[j].first) > k || r_(e[j].first) < lo || (!oreq && r_(e[j].first) == lo); }));
    }
    return r;
  }
  int64_t below_(int64_t hi, bool oreq) const {
    int64_t r = vcx_any_int("node", -1, int64_t{1} << 61), c = cap_; auto* e = e_; auto* l = live_;
    vc_assume(r < c);
    if (r < 0) vc_assume(vc::forall(0, c, [=](int64_t j) { return !l[j] || r_(e[j].first) > hi || (!oreq && r_(e[j].first) == hi); }));
    else {
      int64_t k = r_(e[r].first);
      vc_assume(l[r] && (k < hi || (oreq && k == hi)));
      vc_assume(vc::forall(0, c, [=](int64_t j) { return !l[j] || j == r || r_(e[j].first) < k || r_(e[j].first) > hi || (!oreq && r_(e[j].first) == hi); }));
    }
    return r;
  }
  int64_t next_(int64_t i) const { return above_(rank_(i), false); }
  int64_t prev_(int64_t i) const { return below_(rank_(i), false); }
  int64_t first_() const { vc_assume(n_ >= 0); if (n_ == 0) { size_fact_(); return -1; } int64_t r = above_(INT64_MIN, true); vc_assume(r >= 0); return r; }
  int64_t last_() const { vc_assume(n_ >= 0); if (n_ == 0) { size_fact_(); return -1; } int64_t r = below_(INT64_MAX, true); vc_assume(r >= 0); return r; }
  int64_t find_(const K& k) const {
    int64_t r = vcx_any_int("node", -1, int64_t{1} << 61), c = cap_, q = r_(k); auto* e = e_; auto* l = live_;
    vc_assume(r < c);
    if (r >= 0) vc_assume(l[r] && r_(e[r].first) == q);
    vc_assume(vc::forall(0, c, [=](int64_t j) { return !l[j] || j == r || r_(e[j].first) != q; }));
    return r;
  }
  void size_fact_() const { auto* l = live_; vc_assume(n_ >= 0 && (n_ == 0) == vc::forall(0, cap_, [=](int64_t j) { return !l[j]; })); }
  iterator begin() { return iterator(this, first_()); } iterator end() { return iterator(this, -1); }
  const_iterator begin() const { return const_iterator(this, first_()); } const_iterator end() const { return const_iterator(this, -1); }
  // only dereferenced in the code under proof
  iterator rbegin() { return iterator(this, last_()); } const_iterator rbegin() const { return const_iterator(this, last_()); }
  iterator find(const K& k) { return iterator(this, find_(k)); }
  const_iterator find(const K& k) const { return const_iterator(this, find_(k)); }
  iterator lower_bound(const K& k) { return iterator(this, above_(r_(k), true)); }
  const_iterator lower_bound(const K& k) const { return const_iterator(this, above_(r_(k), true)); }
  iterator upper_bound(const K& k) { return iterator(this, above_(r_(k), false)); }
  const_iterator upper_bound(const K& k) const { return const_iterator(this, above_(r_(k), false)); }
  size_t count(const K& k) const { return find_(k) >= 0 ? 1 : 0; }
  size_t size() const { size_fact_(); return n_; }
  bool empty() const { size_fact_(); return n_ == 0; }
  V& at(const K& k) { int64_t r = find_(k); vcx_assert(r >= 0, "at() of a present key"); return e_[r].second; }
  const V& at(const K& k) const { int64_t r = find_(k); vcx_assert(r >= 0, "at() of a present key"); return e_[r].second; }
  void link_() { live_[cap_] = true; ++cap_; ++n_; }
  V& operator[](const K& k) {
    int64_t r = find_(k);
    if (r < 0) { r = cap_; new (e_ + cap_) value_type(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple()); link_(); }
    return e_[r].second;
  }
  template <class K2, class V2> std::pair<iterator, bool> emplace(K2&& k, V2&& v) {
    int64_t r = find_(k);
    if (r >= 0) return std::pair<iterator, bool>(iterator(this, r), false);
    r = cap_; new (e_ + cap_) value_type(std::forward<K2>(k), std::forward<V2>(v)); link_();
    return std::pair<iterator, bool>(iterator(this, r), true);
  }
  iterator erase(iterator it) { vcx_assert(it.i_ >= 0 && live_[it.i_], "erased iterator is valid"); size_fact_(); int64_t nx = next_(it.i_); live_[it.i_] = false; --n_; return iterator(this, nx); }
  size_t erase(const K& k) { int64_t r = find_(k); if (r < 0) return 0; size_fact_(); live_[r] = false; --n_; return 1; }
  void clear() { bool f = false; live_ = vc::alloc_array<bool>(); vcx_fill_all(live_, &f, 1); n_ = 0; }
};
}
#endif
