// Operational models of the standard library used in the proof build only.
#ifndef VC_MODELS_H_
#define VC_MODELS_H_
#include "vc.h"
#include <new>

namespace vc {
struct NullStream {
  template <class T> NullStream& operator<<(const T&) { return *this; }
  NullStream& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
};
struct Voidify { void operator&(const NullStream&) const {} };
template <class T> constexpr bool bitwise = std::is_trivially_destructible<T>::value;
template <class T> constexpr bool owner = false;   // default value: null pointer
template <class T> inline T* alloc_array() { return static_cast<T*>(vcx_alloc(sizeof(T), "vec")); }
inline bool check_(bool c, const char* l) { vcx_check(c, l); return true; }
}  // namespace vc

namespace std {
template <class T, class A = std::allocator<T>>
class vc_vector {
 public:
  typedef T value_type; typedef T& reference; typedef const T& const_reference;
  typedef T* iterator; typedef const T* const_iterator; typedef size_t size_type; typedef ptrdiff_t difference_type;
  typedef std::reverse_iterator<iterator> reverse_iterator; typedef std::reverse_iterator<const_iterator> const_reverse_iterator;
  T* d_; int64_t n_;
  vc_vector() : d_(vc::alloc_array<T>()), n_(0) {}
  explicit vc_vector(size_t n) : d_(vc::alloc_array<T>()), n_(0) {
    if constexpr (vc::bitwise<T> || vc::owner<T>) { T t = T(); vcx_fill_all(d_, &t, sizeof(T)); n_ = n; }
    else { T t = T(); fill_(n, t); }
  }
  vc_vector(size_t n, const T& v) : d_(vc::alloc_array<T>()), n_(0) { fill_(n, v); }
  vc_vector(std::initializer_list<T> l) : d_(vc::alloc_array<T>()), n_(0) { for (const T* p = l.begin(); p != l.end(); ++p) push_back(*p); }
  template <class It, class = typename std::enable_if<!std::is_integral<It>::value>::type>
  vc_vector(It b, It e) : d_(vc::alloc_array<T>()), n_(0) { for (; b != e; ++b) push_back(*b); }
  vc_vector(const vc_vector& o) : d_(vc::alloc_array<T>()), n_(0) { copy_(o); }
  vc_vector(vc_vector&& o) noexcept : d_(o.d_), n_(o.n_) { o.d_ = vc::alloc_array<T>(); o.n_ = 0; }
  vc_vector& operator=(const vc_vector& o) { if (this != &o) { d_ = vc::alloc_array<T>(); n_ = 0; copy_(o); } return *this; }
  vc_vector& operator=(vc_vector&& o) noexcept { if (this != &o) { d_ = o.d_; n_ = o.n_; o.d_ = vc::alloc_array<T>(); o.n_ = 0; } return *this; }
  ~vc_vector() {}
  void fill_(size_t n, const T& v) {
    if constexpr (vc::bitwise<T>) { T t(v); vcx_fill_all(d_, &t, sizeof(T)); n_ = n; }
    else { for (size_t i = 0; i != n; ++i) push_back(v); }
  }
  void copy_(const vc_vector& o) {
    if constexpr (vc::bitwise<T>) { vcx_copy_all(d_, o.d_); n_ = o.n_; }
    else { for (int64_t i = 0; i != o.n_; ++i) push_back(o.d_[i]); }
  }
  T* begin() { return d_; } T* end() { return d_ + n_; }
  const T* begin() const { return d_; } const T* end() const { return d_ + n_; }
  const T* cbegin() const { return d_; } const T* cend() const { return d_ + n_; }
  reverse_iterator rbegin() { return reverse_iterator(end()); } reverse_iterator rend() { return reverse_iterator(begin()); }
  size_t size() const { return n_; }
  bool empty() const { return n_ == 0; }
  T* data() { return d_; } const T* data() const { return d_; }
  T& operator[](size_t i) { vcx_assert(static_cast<int64_t>(i) >= 0 && static_cast<int64_t>(i) < n_, "vector index in bounds"); return d_[static_cast<int64_t>(i)]; }
  const T& operator[](size_t i) const { vcx_assert(static_cast<int64_t>(i) >= 0 && static_cast<int64_t>(i) < n_, "vector index in bounds"); return d_[static_cast<int64_t>(i)]; }
  T& at(size_t i) { return (*this)[i]; }
  const T& at(size_t i) const { return (*this)[i]; }
  T& front() { vcx_assert(n_ > 0, "front of nonempty vector"); return d_[0]; }
  const T& front() const { vcx_assert(n_ > 0, "front of nonempty vector"); return d_[0]; }
  T& back() { vcx_assert(n_ > 0, "back of nonempty vector"); return d_[n_ - 1]; }
  const T& back() const { vcx_assert(n_ > 0, "back of nonempty vector"); return d_[n_ - 1]; }
  void push_back(const T& v) { new (d_ + n_) T(v); ++n_; }
  void push_back(T&& v) { new (d_ + n_) T(std::move(v)); ++n_; }
  template <class... Args> T& emplace_back(Args&&... a) { new (d_ + n_) T(std::forward<Args>(a)...); ++n_; return d_[n_ - 1]; }
  void pop_back() { vcx_assert(n_ > 0, "pop_back of nonempty vector"); --n_; }
  void clear() { n_ = 0; }
  void reserve(size_t) {}
  void shrink_to_fit() {}
  size_t capacity() const { return n_; }
  void resize(size_t n) { T t = T(); resize(n, t); }
  void resize(size_t n, const T& v) {
    if (static_cast<int64_t>(n) <= n_) { n_ = n; return; }
    if (n_ == 0) { fill_(n, v); return; }
    if constexpr (std::is_arithmetic<T>::value) {
      T *o = d_, *d = d_ = vc::alloc_array<T>(); const int64_t n0 = n_; const T x = v;
      vcx_assume(vc::forall(0, n0, [=](int64_t i) { return d[i] == o[i]; }));
      vcx_assume(vc::forall(n0, n, [=](int64_t i) { return d[i] == x; }));
      n_ = n;
    } else { while (n_ != static_cast<int64_t>(n)) push_back(v); }
  }
  void assign(size_t n, const T& v) { d_ = vc::alloc_array<T>(); n_ = 0; fill_(n, v); }
  template <class It> T* insert(const T* pos, It b, It e) {
    if (pos != end()) vcx_unsupported("vector::insert not at end");
    for (; b != e; ++b) push_back(*b);
    return d_ + n_;
  }
  T* erase(const T* first, const T* last) {
    if (last != end()) vcx_unsupported("vector::erase not at end");
    n_ = first - d_; return d_ + n_;
  }
  T* erase(const T* p) {   // at most a few concrete elements
    int64_t i = p - d_;
    for (int64_t j = i; j + 1 < n_; ++j) d_[j] = std::move(d_[j + 1]);
    --n_; return d_ + i;
  }
  void swap(vc_vector& o) { T* t = d_; d_ = o.d_; o.d_ = t; int64_t n = n_; n_ = o.n_; o.n_ = n; }
  bool operator<(const vc_vector&) const { vcx_unsupported("order of vectors"); return false; }
  bool operator==(const vc_vector& o) const {
    if (n_ != o.n_) return false;
    const T *a = d_, *b = o.d_;
    return vc::forall(0, n_, [a, b](int64_t i) { return a[i] == b[i]; });
  }
  bool operator!=(const vc_vector& o) const { return !(*this == o); }
};

template <class T, class A = std::allocator<T>>
class vc_deque {
 public:
  typedef T value_type; typedef T& reference; typedef const T& const_reference;
  typedef T* iterator; typedef const T* const_iterator; typedef size_t size_type; typedef ptrdiff_t difference_type;
  T* d_; int64_t b_, e_;
  vc_deque() : d_(vc::alloc_array<T>()), b_(0), e_(0) {}
  vc_deque(const vc_deque& o) : d_(vc::alloc_array<T>()), b_(o.b_), e_(o.e_) { copy_(o); }
  vc_deque(vc_deque&& o) noexcept : d_(o.d_), b_(o.b_), e_(o.e_) { o.d_ = vc::alloc_array<T>(); o.b_ = o.e_ = 0; }
  vc_deque& operator=(vc_deque&& o) noexcept { if (this != &o) { d_ = o.d_; b_ = o.b_; e_ = o.e_; o.d_ = vc::alloc_array<T>(); o.b_ = o.e_ = 0; } return *this; }
  vc_deque& operator=(const vc_deque& o) { if (this != &o) { d_ = vc::alloc_array<T>(); b_ = o.b_; e_ = o.e_; copy_(o); } return *this; }
  ~vc_deque() {}
  void copy_(const vc_deque& o) {
    if constexpr (vc::bitwise<T>) vcx_copy_all(d_, o.d_);
    else { for (int64_t i = o.b_; i != o.e_; ++i) new (d_ + i) T(o.d_[i]); }
  }
  T* begin() { return d_ + b_; } T* end() { return d_ + e_; }
  const T* begin() const { return d_ + b_; } const T* end() const { return d_ + e_; }
  size_t size() const { return e_ - b_; }
  bool empty() const { return e_ == b_; }
  T& operator[](size_t i) { vcx_assert(static_cast<int64_t>(i) >= 0 && static_cast<int64_t>(i) < e_ - b_, "deque index in bounds"); return d_[b_ + static_cast<int64_t>(i)]; }
  const T& operator[](size_t i) const { vcx_assert(static_cast<int64_t>(i) >= 0 && static_cast<int64_t>(i) < e_ - b_, "deque index in bounds"); return d_[b_ + static_cast<int64_t>(i)]; }
  T& at(size_t i) { return (*this)[i]; }
  const T& at(size_t i) const { return (*this)[i]; }
  T& front() { vcx_assert(e_ > b_, "front of nonempty deque"); return d_[b_]; }
  const T& front() const { vcx_assert(e_ > b_, "front of nonempty deque"); return d_[b_]; }
  T& back() { vcx_assert(e_ > b_, "back of nonempty deque"); return d_[e_ - 1]; }
  const T& back() const { vcx_assert(e_ > b_, "back of nonempty deque"); return d_[e_ - 1]; }
  void push_back(const T& v) { new (d_ + e_) T(v); ++e_; }
  void push_back(T&& v) { new (d_ + e_) T(std::move(v)); ++e_; }
  template <class... Args> T& emplace_back(Args&&... a) { new (d_ + e_) T(std::forward<Args>(a)...); ++e_; return d_[e_ - 1]; }
  void push_front(const T& v) { new (d_ + b_ - 1) T(v); --b_; }
  void pop_front() { vcx_assert(e_ > b_, "pop_front of nonempty deque"); ++b_; }
  void pop_back() { vcx_assert(e_ > b_, "pop_back of nonempty deque"); --e_; }
  void clear() { b_ = e_; }
  T* erase(const T* first, const T* last) {
    if (first == begin()) { b_ = last - d_; return d_ + b_; }
    if (last == end()) { e_ = first - d_; return d_ + e_; }
    vcx_unsupported("deque::erase in the middle"); return d_;
  }
  T* erase(const T* p) { if (p == begin()) { ++b_; return d_ + b_; } vcx_unsupported("deque::erase in the middle"); return d_; }
};

template <class T, class D = void>
class vc_unique_ptr {
 public:
  typedef T element_type; typedef T* pointer;
  T* p_;
  constexpr vc_unique_ptr() : p_(nullptr) {}
  constexpr vc_unique_ptr(std::nullptr_t) : p_(nullptr) {}
  explicit vc_unique_ptr(T* p) : p_(p) {}
  template <class X> vc_unique_ptr(T* p, X) : p_(p) {}
  vc_unique_ptr(const vc_unique_ptr&) = delete;
  vc_unique_ptr& operator=(const vc_unique_ptr&) = delete;
  vc_unique_ptr(vc_unique_ptr&& o) noexcept : p_(o.p_) { o.p_ = nullptr; }
  template <class U, class E, class = typename std::enable_if<std::is_convertible<U*, T*>::value>::type>
  vc_unique_ptr(vc_unique_ptr<U, E>&& o) noexcept : p_(o.p_) { o.p_ = nullptr; }
  vc_unique_ptr& operator=(vc_unique_ptr&& o) noexcept { T* t = o.p_; o.p_ = nullptr; p_ = t; return *this; }
  template <class U, class E, class = typename std::enable_if<std::is_convertible<U*, T*>::value>::type>
  vc_unique_ptr& operator=(vc_unique_ptr<U, E>&& o) noexcept { T* t = o.p_; o.p_ = nullptr; p_ = t; return *this; }
  vc_unique_ptr& operator=(std::nullptr_t) { p_ = nullptr; return *this; }
  ~vc_unique_ptr() {}
  T* get() const { return p_; } T* operator->() const { return p_; } T& operator*() const { return *p_; }
  explicit operator bool() const { return p_ != nullptr; }
  T* release() { T* t = p_; p_ = nullptr; return t; }
  void reset(T* p = nullptr) { p_ = p; }
  void swap(vc_unique_ptr& o) { T* t = p_; p_ = o.p_; o.p_ = t; }
};
}  // namespace std
namespace vc { template <class T, class D> constexpr bool owner<std::vc_unique_ptr<T, D>> = true; }
namespace std {
template <class T, class D> bool operator==(const vc_unique_ptr<T, D>& a, std::nullptr_t) { return a.p_ == nullptr; }
template <class T, class D> bool operator!=(const vc_unique_ptr<T, D>& a, std::nullptr_t) { return a.p_ != nullptr; }
template <class T, class D> bool operator==(std::nullptr_t, const vc_unique_ptr<T, D>& a) { return a.p_ == nullptr; }
template <class T, class D> bool operator!=(std::nullptr_t, const vc_unique_ptr<T, D>& a) { return a.p_ != nullptr; }

template <class T>
class vc_shared_ptr {
 public:
  typedef T element_type;
  T* p_;
  constexpr vc_shared_ptr() : p_(nullptr) {}
  constexpr vc_shared_ptr(std::nullptr_t) : p_(nullptr) {}
  explicit vc_shared_ptr(T* p) : p_(p) {}
  vc_shared_ptr(const vc_shared_ptr& o) noexcept : p_(o.p_) {}
  vc_shared_ptr(vc_shared_ptr&& o) noexcept : p_(o.p_) { o.p_ = nullptr; }
  template <class U> vc_shared_ptr(const vc_shared_ptr<U>& o) : p_(o.p_) {}
  template <class U> vc_shared_ptr(vc_shared_ptr<U>&& o) : p_(o.p_) { o.p_ = nullptr; }
  template <class U, class D> vc_shared_ptr(vc_unique_ptr<U, D>&& o) : p_(o.p_) { o.p_ = nullptr; }
  vc_shared_ptr& operator=(const vc_shared_ptr& o) noexcept { p_ = o.p_; return *this; }
  vc_shared_ptr& operator=(vc_shared_ptr&& o) noexcept { T* t = o.p_; o.p_ = nullptr; p_ = t; return *this; }
  ~vc_shared_ptr() {}
  T* get() const { return p_; } T* operator->() const { return p_; } T& operator*() const { return *p_; }
  explicit operator bool() const { return p_ != nullptr; }
  void reset() { p_ = nullptr; }
  void reset(T* p) { p_ = p; }
  long use_count() const { vcx_unsupported("use_count"); return 1; }
};
template <class T, class U> bool operator==(const vc_shared_ptr<T>& a, const vc_shared_ptr<U>& b) { return a.p_ == b.p_; }
template <class T, class U> bool operator!=(const vc_shared_ptr<T>& a, const vc_shared_ptr<U>& b) { return a.p_ != b.p_; }
template <class T> bool operator==(const vc_shared_ptr<T>& a, std::nullptr_t) { return a.p_ == nullptr; }
template <class T> bool operator!=(const vc_shared_ptr<T>& a, std::nullptr_t) { return a.p_ != nullptr; }
template <class T>
class vc_weak_ptr {
 public:
  T* p_;
  vc_weak_ptr() : p_(nullptr) {}
  vc_weak_ptr(const vc_shared_ptr<T>& s) : p_(s.p_) {}
  vc_shared_ptr<T> lock() const { vc_shared_ptr<T> r; r.p_ = p_; return r; }   // object still alive
  bool expired() const { return p_ == nullptr; }
};
template <class T, class... Args> vc_unique_ptr<T> vc_make_unique(Args&&... a) {
  T* p = static_cast<T*>(vcx_newobj(sizeof(T), __PRETTY_FUNCTION__));
  new (const_cast<void*>(static_cast<const void*>(p))) T(std::forward<Args>(a)...);
  return vc_unique_ptr<T>(p);
}
template <class T, class... Args> vc_shared_ptr<T> vc_make_shared(Args&&... a) {
  T* p = static_cast<T*>(vcx_newobj(sizeof(T), __PRETTY_FUNCTION__));
  new (const_cast<void*>(static_cast<const void*>(p))) T(std::forward<Args>(a)...);
  return vc_shared_ptr<T>(p);
}
template <class S> class vc_function;
template <class R, class... A>
class vc_function<R(A...)> {
 public:
  void* o_; R (*call_)(void*, A...);
  vc_function() : o_(nullptr), call_(nullptr) {}
  vc_function(std::nullptr_t) : o_(nullptr), call_(nullptr) {}
  vc_function(const vc_function&) = default;
  vc_function(vc_function&&) = default;
  vc_function& operator=(const vc_function&) = default;
  vc_function& operator=(vc_function&&) = default;
  template <class F, class = typename std::enable_if<!std::is_same<typename std::decay<F>::type, vc_function>::value>::type>
  vc_function(F f) : o_(new F(std::move(f))), call_([](void* o, A... a) -> R { return (*static_cast<F*>(o))(std::forward<A>(a)...); }) {}
  R operator()(A... a) const { return call_(o_, std::forward<A>(a)...); }
  explicit operator bool() const { return call_ != nullptr; }
};
template <class R, class... A> bool operator==(const vc_function<R(A...)>& f, std::nullptr_t) { return f.call_ == nullptr; }
template <class R, class... A> bool operator!=(const vc_function<R(A...)>& f, std::nullptr_t) { return f.call_ != nullptr; }
}  // namespace std
namespace absl {
// set of integers: membership array and size. Other key types: declared only.
template <class K, bool I = std::is_integral<K>::value> class vc_flat_hash_set;
template <class K> class vc_flat_hash_set<K, true> {
 public:
  bool* m_; int64_t n_;
  vc_flat_hash_set() : m_(vc::alloc_array<bool>()), n_(0) { bool f = false; vcx_fill_all(m_, &f, 1); }
  vc_flat_hash_set(const vc_flat_hash_set& o) : m_(vc::alloc_array<bool>()), n_(o.n_) { vcx_copy_all(m_, o.m_); }
  vc_flat_hash_set(vc_flat_hash_set&& o) : m_(o.m_), n_(o.n_) { o.m_ = vc::alloc_array<bool>(); bool f = false; vcx_fill_all(o.m_, &f, 1); o.n_ = 0; }
  vc_flat_hash_set& operator=(const vc_flat_hash_set& o) { m_ = vc::alloc_array<bool>(); vcx_copy_all(m_, o.m_); n_ = o.n_; return *this; }
  ~vc_flat_hash_set() {}
  bool insert(K k) { bool was = m_[static_cast<int64_t>(k)]; m_[static_cast<int64_t>(k)] = true; n_ += was ? 0 : 1; return !was; }
  bool emplace(K k) { return insert(k); }
  size_t count(K k) const { return m_[static_cast<int64_t>(k)] ? 1 : 0; }
  bool contains(K k) const { return m_[static_cast<int64_t>(k)]; }
  size_t erase(K k) { bool was = m_[static_cast<int64_t>(k)]; m_[static_cast<int64_t>(k)] = false; n_ -= was ? 1 : 0; return was ? 1 : 0; }
  size_t size() const { return n_; }
  bool empty() const { return n_ == 0; }
  void clear() { m_ = vc::alloc_array<bool>(); bool f = false; vcx_fill_all(m_, &f, 1); n_ = 0; }
  void reserve(size_t) {}
};
template <class K> class vc_flat_hash_set<K, false> {
 public:
  vc_flat_hash_set() { vcx_unsupported("hash set of this key type"); }
  template <class It> vc_flat_hash_set(It, It) { vcx_unsupported("hash set of this key type"); }
  bool empty() const { vcx_unsupported("hash set of this key type"); return true; }
  size_t count(const K&) const { vcx_unsupported("hash set of this key type"); return 0; }
  void insert(const K&) { vcx_unsupported("hash set of this key type"); }
};
// map from integers: position of every key (-1: absent) and the entries; the
// iteration order is that of insertion (the real order is unspecified).
template <class K, class V, bool I = std::is_integral<K>::value> class vc_flat_hash_map;
template <class K, class V> class vc_flat_hash_map<K, V, true> {
 public:
  typedef std::pair<K, V> value_type; typedef value_type* iterator; typedef const value_type* const_iterator;
  int64_t* pos_; value_type* e_; int64_t n_;
  vc_flat_hash_map() : pos_(vc::alloc_array<int64_t>()), e_(vc::alloc_array<value_type>()), n_(0) { int64_t f = -1; vcx_fill_all(pos_, &f, 8); }
  ~vc_flat_hash_map() {}
  value_type* begin() { return e_; } value_type* end() { return e_ + n_; }
  const value_type* begin() const { return e_; } const value_type* end() const { return e_ + n_; }
  size_t size() const { return n_; } bool empty() const { return n_ == 0; }
  int64_t at_(K k) const { return pos_[static_cast<int64_t>(k)]; }
  size_t count(K k) const { return at_(k) >= 0 ? 1 : 0; }
  bool contains(K k) const { return at_(k) >= 0; }
  value_type* find(K k) { int64_t p = at_(k); return p >= 0 ? e_ + p : e_ + n_; }
  const value_type* find(K k) const { int64_t p = at_(k); return p >= 0 ? e_ + p : e_ + n_; }
  V& operator[](K k) {
    int64_t p = at_(k);
    if (p < 0) { p = n_; new (e_ + n_) value_type(k, V()); pos_[static_cast<int64_t>(k)] = n_; ++n_; }
    return e_[p].second;
  }
  V& at(K k) { int64_t p = at_(k); vcx_assert(p >= 0, "at() of a present key"); return e_[p].second; }
  const V& at(K k) const { int64_t p = at_(k); vcx_assert(p >= 0, "at() of a present key"); return e_[p].second; }
};
template <class K, class V> class vc_flat_hash_map<K, V, false> {
 public:
  typedef std::pair<K, V> value_type;
  vc_flat_hash_map() { vcx_unsupported("hash map of this key type"); }
  V& operator[](const K&) { vcx_unsupported("hash map of this key type"); return *static_cast<V*>(nullptr); }
};
// keys that are pointers: nodes [0, cap_), the live ones with distinct keys
template <class T, class V> class vc_flat_hash_map<T*, V, false> {
 public:
  typedef T* K; typedef std::pair<K, V> value_type; typedef size_t size_type;
  value_type* e_; bool* live_; int64_t cap_, n_;
  struct iterator {
    vc_flat_hash_map* m_; int64_t i_;   // -1: end
    value_type& operator*() const { vcx_assert(i_ >= 0, "dereferenced iterator is not end"); return m_->e_[i_]; }
    value_type* operator->() const { vcx_assert(i_ >= 0, "dereferenced iterator is not end"); return m_->e_ + i_; }
    bool operator==(const iterator& o) const { return i_ == o.i_; }
    bool operator!=(const iterator& o) const { return i_ != o.i_; }
  };
  vc_flat_hash_map() : e_(vc::alloc_array<value_type>()), live_(vc::alloc_array<bool>()), cap_(0), n_(0) { bool f = false; vcx_fill_all(live_, &f, 1); }
  ~vc_flat_hash_map() {}
  int64_t find_(K k) const {
    int64_t r = vcx_any_int("node", -1, int64_t{1} << 61), c = cap_; auto* e = e_; auto* l = live_; vc_assume(r < c);
    if (r >= 0) vc_assume(l[r] && e[r].first == k);
    vc_assume(vc::forall(0, c, [=](int64_t j) { return !l[j] || j == r || e[j].first != k; }));
    return r;
  }
  iterator end() { return iterator{this, -1}; }
  iterator find(K k) { return iterator{this, find_(k)}; }
  size_t count(K k) const { return find_(k) >= 0 ? 1 : 0; }
  bool contains(K k) const { return find_(k) >= 0; }
  template <class K2, class V2> std::pair<iterator, bool> emplace(K2&& k2, V2&& v) {
    K k = k2; int64_t r = find_(k);
    if (r >= 0) return std::pair<iterator, bool>(iterator{this, r}, false);
    r = cap_; new (e_ + r) value_type(k, std::forward<V2>(v)); live_[r] = true; ++cap_; ++n_;
    return std::pair<iterator, bool>(iterator{this, r}, true);
  }
  template <class P> std::pair<iterator, bool> insert(P&& p) { return emplace(p.first, std::move(p.second)); }
  V& at(K k) { int64_t r = find_(k); vcx_assert(r >= 0, "at() of a present key"); return e_[r].second; }
  V& operator[](K k) { return emplace(k, V()).first->second; }
  void erase(iterator it) { vcx_assert(it.i_ >= 0 && live_[it.i_], "erased iterator is valid"); live_[it.i_] = false; --n_; }
  size_t erase(K k) { int64_t r = find_(k); if (r < 0) return 0; live_[r] = false; --n_; return 1; }
};
using std::vc_make_unique;
template <class T> struct vc_dummy_;
class vc_Mutex {
 public:
  void Lock() {} void Unlock() {} void AssertHeld() const {}
};
class vc_MutexLock { public: explicit vc_MutexLock(vc_Mutex*) {} };
}
#include "map.h"
#include "set.h"
#endif
#ifndef VC_MODELS2_H_
#define VC_MODELS2_H_
namespace vc {
template <class T> inline T&& notnull_(T&& p, const char* s) { vcx_check(p != nullptr, s); return std::forward<T>(p); }
}
#endif
