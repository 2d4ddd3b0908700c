// std::set by its contract: n_ distinct elements; iterators visit each once,
// in an order that says nothing about them (elements are pointers).
#ifndef VC_SET_H_
#define VC_SET_H_
namespace std {
template <class K, class C = std::less<K>, class A = void>
class vc_set {
 public:
  typedef K key_type; typedef K value_type; typedef size_t size_type;
  K* e_; int64_t n_;
  struct iterator {
    typedef std::forward_iterator_tag iterator_category; typedef K value_type; typedef ptrdiff_t difference_type; typedef const K* pointer; typedef const K& reference;
    const vc_set* m_; int64_t i_;
    const K& operator*() const { vcx_assert(i_ >= 0 && i_ < m_->n_, "dereferenced iterator is not end"); return m_->e_[i_]; }
    const K* operator->() const { vcx_assert(i_ >= 0 && i_ < m_->n_, "dereferenced iterator is not end"); return m_->e_ + i_; }
    iterator& operator++() { vcx_assert(i_ < m_->n_, "incremented iterator is not end"); ++i_; return *this; }
    iterator operator++(int) { iterator o = *this; ++*this; return o; }
    bool operator==(const iterator& o) const { return i_ == o.i_; }
    bool operator!=(const iterator& o) const { return i_ != o.i_; }
  };
  typedef iterator const_iterator;
  vc_set() : e_(vc::alloc_array<K>()), n_(0) {}
  vc_set(const vc_set& o) : e_(vc::alloc_array<K>()), n_(o.n_) { vcx_copy_all(e_, o.e_); }
  vc_set& operator=(const vc_set& o) { e_ = vc::alloc_array<K>(); vcx_copy_all(e_, o.e_); n_ = o.n_; return *this; }
  ~vc_set() {}
  iterator begin() const { return iterator{this, 0}; }
  iterator end() const { return iterator{this, n_}; }
  int64_t find_(K k) const {
    int64_t r = vcx_any_int("element", -1, int64_t{1} << 61), n = n_; auto* e = e_; vc_assume(r < n);
    if (r >= 0) vc_assume(e[r] == k);
    else vc_assume(vc::forall(0, n, [=](int64_t j) { return e[j] != k; }));
    return r;
  }
  iterator find(K k) const { int64_t r = find_(k); return iterator{this, r < 0 ? n_ : r}; }
  size_t count(K k) const { return find_(k) >= 0 ? 1 : 0; }
  size_t size() const { return n_; }
  bool empty() const { return n_ == 0; }
  std::pair<iterator, bool> insert(K k) {
    int64_t r = find_(k);
    if (r >= 0) return std::pair<iterator, bool>(iterator{this, r}, false);
    r = n_; e_[r] = k; n_ = r + 1;
    return std::pair<iterator, bool>(iterator{this, r}, true);
  }
  std::pair<iterator, bool> emplace(K k) { return insert(k); }
  void clear() { n_ = 0; }
};
}
#endif
