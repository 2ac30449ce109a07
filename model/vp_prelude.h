// Verification models of standard containers (trusted).  Included before the real sources; the real std headers are included first so that
// later #includes are no-ops, then the container names are redirected to the models.  The models have the documented sequence semantics of
// the standard containers with unlimited capacity and stable element addresses (reallocation is not modelled).
#ifndef VP_PRELUDE_H_
#define VP_PRELUDE_H_
#include <algorithm>
#include <cctype>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <initializer_list>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <ostream>
#include <iostream>
#include <sstream>
#include <set>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#include <array>
#include "vp.h"

namespace std {
// ghost observer called by vp_vector::push_back/emplace_back; specialised by contracts
template <class T>
struct vp_push_ghost {
  static void push(const T&) {}
};
// a contract that looks at each element as it is appended may have the model forget it afterwards (only the count is kept)
template <class T>
struct vp_push_forgets {
  static bool now() { return false; }
};
template <class T>
struct vp_pop_ghost {
  static void pop(const T&) {}
};
template <class T>
class vp_vector {
 public:
  using pointer = T*;
  using const_pointer = const T*;
  using difference_type = ptrdiff_t;
  using value_type = T;
  using size_type = size_t;
  using reference = T&;
  using const_reference = const T&;
  using iterator = T*;
  using const_iterator = const T*;
  T* d;
  size_t n;
  vp_vector() : d(static_cast<T*>(__vp_arena(sizeof(T)))), n(0) {}
  explicit vp_vector(size_t k) : d(static_cast<T*>(__vp_arena(sizeof(T)))), n(0) { resize(k); }
  vp_vector(size_t k, const T& v) : d(static_cast<T*>(__vp_arena(sizeof(T)))), n(0) {
    for (size_t i = 0; i < k; i++) push_back(v);
  }
  vp_vector(std::initializer_list<T> l) : d(static_cast<T*>(__vp_arena(sizeof(T)))), n(0) {
    for (auto const& x : l) push_back(x);
  }
  template <class It, class = typename std::iterator_traits<It>::iterator_category>
  vp_vector(It a, It b) : d(static_cast<T*>(__vp_arena(sizeof(T)))), n(0) {
    for (; a != b; ++a) push_back(*a);
  }
  vp_vector(const vp_vector& o) : d(static_cast<T*>(__vp_arena(sizeof(T)))), n(0) {
    for (size_t i = 0; i < o.n; i++) new (d + i) T(o.d[i]);
    n = o.n;
  }
  vp_vector(vp_vector&& o) noexcept : d(o.d), n(o.n) {
    o.d = static_cast<T*>(__vp_arena(sizeof(T)));
    o.n = 0;
  }
  vp_vector& operator=(const vp_vector& o) {
    if (this != &o) {
      clear();
      for (size_t i = 0; i < o.n; i++) new (d + i) T(o.d[i]);
      n = o.n;
    }
    return *this;
  }
  vp_vector& operator=(vp_vector&& o) noexcept {
    clear();
    T* t = d;
    d = o.d;
    n = o.n;
    o.d = t;
    o.n = 0;
    return *this;
  }
  ~vp_vector() { clear(); }
  size_t size() const { return n; }
  bool empty() const { return n == 0; }
  size_t capacity() const { return n; }
  void reserve(size_t) {}
  T* data() { return d; }
  const T* data() const { return d; }
  T& operator[](size_t i) {
    __vp_assert(i < n, "vector index in range");
    return d[i];
  }
  const T& operator[](size_t i) const {
    __vp_assert(i < n, "vector index in range");
    return d[i];
  }
  T& at(size_t i) { return (*this)[i]; }
  const T& at(size_t i) const { return (*this)[i]; }
  T& back() {
    __vp_assert(n > 0, "back() of a non-empty vector");
    return d[n - 1];
  }
  const T& back() const {
    __vp_assert(n > 0, "back() of a non-empty vector");
    return d[n - 1];
  }
  T& front() {
    __vp_assert(n > 0, "front() of a non-empty vector");
    return d[0];
  }
  const T& front() const { return d[0]; }
  T* begin() { return d; }
  T* end() { return d + n; }
  const T* begin() const { return d; }
  const T* end() const { return d + n; }
  const T* cbegin() const { return d; }
  const T* cend() const { return d + n; }
  void push_back(const T& v) {
    vp_push_ghost<T>::push(v);
    if (!vp_push_forgets<T>::now()) new (d + n) T(v);
    n++;
  }
  void push_back(T&& v) {
    vp_push_ghost<T>::push(v);
    if (!vp_push_forgets<T>::now()) new (d + n) T(static_cast<T&&>(v));
    n++;
  }
  template <class... A>
  T& emplace_back(A&&... a) {
    new (d + n) T(static_cast<A&&>(a)...);
    vp_push_ghost<T>::push(d[n]);
    n++;
    return d[n - 1];
  }
  void pop_back() {
    __vp_assert(n > 0, "pop_back() of a non-empty vector");
    n--;
    vp_pop_ghost<T>::pop(d[n]);
    d[n].~T();
  }
  T* erase(const T* p) {
    size_t i = static_cast<size_t>(p - d);
    __vp_assert(i < n, "erase of an element of the vector");
    for (size_t k = i; k + 1 < n; k++) d[k] = static_cast<T&&>(d[k + 1]);
    n--;
    d[n].~T();
    return d + i;
  }
  T* erase(const T* a, const T* b) {
    size_t i = static_cast<size_t>(a - d), c = static_cast<size_t>(b - a);
    for (size_t k = i; k + c < n; k++) d[k] = static_cast<T&&>(d[k + c]);
    for (size_t k = n - c; k < n; k++) d[k].~T();
    n -= c;
    return d + i;
  }
  T* insert(const T* p, const T& v) {
    size_t i = static_cast<size_t>(p - d);
    if (i == n) {
      push_back(v);
    } else {
      T t(v);
      new (d + n) T(d[n - 1]);
      for (size_t k = n - 1; k > i; k--) d[k] = d[k - 1];
      d[i] = t;
      n++;
    }
    return d + i;
  }
  template <class It>
  T* insert(const T* p, It a, It b) {
    size_t i = static_cast<size_t>(p - d);
    __vp_assert(i == n, "model: insert of a range at the end");
    for (; a != b; ++a) push_back(*a);
    return d + i;
  }
  void swap(vp_vector& o) noexcept {
    T* t = d;
    d = o.d;
    o.d = t;
    size_t m = n;
    n = o.n;
    o.n = m;
  }
  void assign(size_t k, const T& v) {
    clear();
    for (size_t i = 0; i < k; i++) push_back(v);
  }
  void shrink_to_fit() {}
  std::reverse_iterator<T*> rbegin() { return std::reverse_iterator<T*>(end()); }
  std::reverse_iterator<T*> rend() { return std::reverse_iterator<T*>(begin()); }
  std::reverse_iterator<const T*> rbegin() const { return std::reverse_iterator<const T*>(end()); }
  std::reverse_iterator<const T*> rend() const { return std::reverse_iterator<const T*>(begin()); }
  void resize(size_t k, const T& v) {
    if (k < n) resize(k);
    else
      for (size_t i = n; i < k; i++) push_back(v);
  }
  void clear() {
    if (!std::is_trivially_destructible<T>::value)
      for (size_t i = 0; i < n; i++) d[i].~T();
    n = 0;
  }
  void resize(size_t k) {
    if (k < n) {
      if (!std::is_trivially_destructible<T>::value)
        for (size_t i = k; i < n; i++) d[i].~T();
    } else {
      for (size_t i = n; i < k; i++) new (d + i) T();
    }
    n = k;
  }
};
template <class T>
bool operator==(const vp_vector<T>& a, const vp_vector<T>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++)
    if (!(a[i] == b[i])) return false;
  return true;
}
// double-ended queue: the elements d[h], ..., d[h+n-1] of an unbounded arena
template <class T>
class vp_deque {
 public:
  using value_type = T;
  using size_type = size_t;
  using reference = T&;
  using const_reference = const T&;
  using iterator = T*;
  using const_iterator = const T*;
  T* d;
  size_t h;
  size_t n;
  vp_deque() : d(static_cast<T*>(__vp_arena(sizeof(T)))), h(1 << 20), n(0) {}
  vp_deque(const vp_deque& o) : d(static_cast<T*>(__vp_arena(sizeof(T)))), h(1 << 20), n(0) {
    for (size_t i = 0; i < o.n; i++) new (d + h + i) T(o.d[o.h + i]);
    n = o.n;
  }
  vp_deque& operator=(const vp_deque& o) {
    if (this != &o) {
      clear();
      for (size_t i = 0; i < o.n; i++) new (d + h + i) T(o.d[o.h + i]);
      n = o.n;
    }
    return *this;
  }
  ~vp_deque() { clear(); }
  size_t size() const { return n; }
  bool empty() const { return n == 0; }
  T& operator[](size_t i) {
    __vp_assert(i < n, "deque index in range");
    return d[h + i];
  }
  const T& operator[](size_t i) const {
    __vp_assert(i < n, "deque index in range");
    return d[h + i];
  }
  T& at(size_t i) { return (*this)[i]; }
  const T& at(size_t i) const { return (*this)[i]; }
  T& front() {
    __vp_assert(n > 0, "front() of a non-empty deque");
    return d[h];
  }
  const T& front() const {
    __vp_assert(n > 0, "front() of a non-empty deque");
    return d[h];
  }
  T& back() {
    __vp_assert(n > 0, "back() of a non-empty deque");
    return d[h + n - 1];
  }
  const T& back() const {
    __vp_assert(n > 0, "back() of a non-empty deque");
    return d[h + n - 1];
  }
  T* begin() { return d + h; }
  T* end() { return d + h + n; }
  const T* begin() const { return d + h; }
  const T* end() const { return d + h + n; }
  void push_back(const T& v) {
    new (d + h + n) T(v);
    n++;
  }
  void push_back(T&& v) {
    new (d + h + n) T(static_cast<T&&>(v));
    n++;
  }
  template <class... A>
  T& emplace_back(A&&... a) {
    new (d + h + n) T(static_cast<A&&>(a)...);
    n++;
    return d[h + n - 1];
  }
  void push_front(const T& v) {
    new (d + h - 1) T(v);
    h--;
    n++;
  }
  void pop_front() {
    __vp_assert(n > 0, "pop_front() of a non-empty deque");
    d[h].~T();
    h++;
    n--;
  }
  void pop_back() {
    __vp_assert(n > 0, "pop_back() of a non-empty deque");
    n--;
    d[h + n].~T();
  }
  void clear() {
    if (!std::is_trivially_destructible<T>::value)
      for (size_t i = 0; i < n; i++) d[h + i].~T();
    n = 0;
  }
};
// a contract that looks at each entry as it is inserted may have the model forget it afterwards
template <class K, class V>
struct vp_insert_ghost {
  static bool forgets(const void* map, const K&, const V&) { return false; }
};
// initial contents of an entry found in a map whose contents are unknown; specialised by contracts
template <class K, class V>
struct vp_lazy_entry {
  static bool present(const void* map, const K&) { return false; }
  static void init(const void* map, const K&, V* v) { new (v) V(); }
};
// association map.  `lazy` maps have arbitrary initial contents, discovered key by key (vp_lazy_entry decides presence and value).
template <class K, class V>
class vp_map {
 public:
  using key_type = K;
  using mapped_type = V;
  using value_type = std::pair<const K, V>;
  struct Node {
    bool present;
    Node* next;
    value_type v;
    template <class A, class B>
    Node(A&& a, B&& b) : present(true), next(nullptr), v(static_cast<A&&>(a), static_cast<B&&>(b)) {}
  };
  Node* head;
  Node* tail;
  size_t cnt;
  bool lazy;
  // entries not yet discovered in a lazy map whose size matters (counted)
  bool counted = false;
  size_t unk = 0;
  struct iterator {
    using value_type = std::pair<const K, V>;
    using reference = value_type&;
    using pointer = value_type*;
    using difference_type = ptrdiff_t;
    using iterator_category = std::forward_iterator_tag;
    Node* p;
    value_type& operator*() const {
      __vp_assert(p != nullptr, "map iterator dereferenced at end()");
      return p->v;
    }
    value_type* operator->() const {
      __vp_assert(p != nullptr, "map iterator dereferenced at end()");
      return &p->v;
    }
    bool operator==(const iterator& o) const { return p == o.p; }
    bool operator!=(const iterator& o) const { return p != o.p; }
    iterator& operator++() {
      do p = p->next;
      while (p && !p->present);
      return *this;
    }
    iterator operator++(int) {
      iterator t = *this;
      ++*this;
      return t;
    }
  };
  using const_iterator = iterator;
  vp_map() : head(nullptr), tail(nullptr), cnt(0), lazy(false) {}
  vp_map(std::initializer_list<value_type> l) : vp_map() {
    for (auto const& x : l) emplace(x.first, x.second);
  }
  vp_map(const vp_map&) = delete;
  vp_map& operator=(const vp_map&) = delete;
  vp_map(vp_map&& o) : head(o.head), tail(o.tail), cnt(o.cnt), lazy(o.lazy) {
    o.head = o.tail = nullptr;
    o.cnt = 0;
  }
  ~vp_map() { drop(); }
  void drop() {
    Node* q = head;
    while (q) {
      Node* t = q->next;
      delete q;
      q = t;
    }
    head = tail = nullptr;
    cnt = 0;
  }
  void link(Node* q) {
    if (tail) tail->next = q;
    else head = q;
    tail = q;
  }
  template <class Q>
  Node* look(const Q& k) const {
    for (Node* q = head; q; q = q->next)
      if (q->v.first == k) return q;
    if (lazy) {
      vp_map* self = const_cast<vp_map*>(this);
      alignas(V) unsigned char buf[sizeof(V)];
      bool pr = vp_lazy_entry<K, V>::present(this, K(k));
      Node* q = static_cast<Node*>(::operator new(sizeof(Node)));
      new (const_cast<K*>(&q->v.first)) K(k);
      vp_lazy_entry<K, V>::init(this, K(k), &q->v.second);
      q->present = pr;
      q->next = nullptr;
      if (pr) {
        self->cnt++;
        if (counted) {
          __vp_assume(unk > 0);
          self->unk--;
        }
      }
      self->link(q);
      (void)buf;
      return q;
    }
    return nullptr;
  }
  template <class Q>
  iterator find(const Q& k) const {
    Node* q = look(k);
    return iterator{q && q->present ? q : nullptr};
  }
  template <class Q>
  bool contains(const Q& k) const {
    return find(k) != end();
  }
  template <class Q>
  size_t count(const Q& k) const {
    return contains(k) ? 1 : 0;
  }
  iterator begin() const {
    Node* q = head;
    while (q && !q->present) q = q->next;
    return iterator{q};
  }
  iterator end() const { return iterator{nullptr}; }
  size_t size() const { return cnt + unk; }
  bool empty() const { return cnt == 0 && unk == 0; }
  void clear() {
    if (lazy) {
      for (Node* q = head; q; q = q->next) q->present = false;
      cnt = 0;
      unk = 0;
      lazy = false;
    } else {
      drop();
    }
  }
  template <class A, class... B>
  std::pair<iterator, bool> try_emplace(A&& k, B&&... b) {
    Node* q = look(k);
    if (q && q->present) return {iterator{q}, false};
    if (q) {
      q->present = true;
      q->v.second = V(static_cast<B&&>(b)...);
    } else {
      q = new Node(static_cast<A&&>(k), V(static_cast<B&&>(b)...));
      link(q);
    }
    cnt++;
    return {iterator{q}, true};
  }
  template <class A, class B>
  std::pair<iterator, bool> emplace(A&& k, B&& b) {
    if (vp_insert_ghost<K, V>::forgets(this, K(k), V(b))) return {iterator{nullptr}, true};
    Node* q = look(k);
    if (q && q->present) return {iterator{q}, false};
    if (q) {
      q->present = true;
      q->v.second = static_cast<B&&>(b);
    } else {
      q = new Node(static_cast<A&&>(k), static_cast<B&&>(b));
      link(q);
    }
    cnt++;
    return {iterator{q}, true};
  }
  std::pair<iterator, bool> insert(const value_type& x) { return emplace(x.first, x.second); }
  template <class A, class B>
  std::pair<iterator, bool> insert(std::pair<A, B>&& x) {
    return emplace(static_cast<A&&>(x.first), static_cast<B&&>(x.second));
  }
  template <class A, class B>
  std::pair<iterator, bool> insert_or_assign(A&& k, B&& b) {
    auto r = emplace(k, b);
    if (!r.second) r.first->second = b;
    return r;
  }
  template <class Q>
  V& operator[](const Q& k) {
    Node* q = look(k);
    if (!q) {
      q = new Node(k, V());
      link(q);
      cnt++;
    } else if (!q->present) {
      q->present = true;
      q->v.second = V();
      cnt++;
    }
    return q->v.second;
  }
  template <class Q>
  V& at(const Q& k) const {
    Node* q = look(k);
    __vp_assert(q && q->present, "map at() of a present key");
    return q->v.second;
  }
  void kill(Node* q) {
    __vp_assert(q && q->present, "erase of a present entry");
    q->present = false;
    cnt--;
    if (!lazy) {
      Node** pp = &head;
      Node* prev = nullptr;
      while (*pp != q) {
        prev = *pp;
        pp = &(*pp)->next;
      }
      *pp = q->next;
      if (tail == q) tail = prev;
      delete q;
    }
  }
  iterator erase(iterator it) {
    iterator nx = it;
    ++nx;
    kill(it.p);
    return nx;
  }
  template <class Q, class = typename std::enable_if<!std::is_same<Q, iterator>::value>::type>
  size_t erase(const Q& k) {
    Node* q = look(k);
    if (!q || !q->present) return 0;
    kill(q);
    return 1;
  }
};
template <class K>
class vp_set {
 public:
  using key_type = K;
  using value_type = K;
  vp_map<K, char> m;
  struct iterator {
    using value_type = K;
    using reference = const K&;
    using pointer = const K*;
    using difference_type = ptrdiff_t;
    using iterator_category = std::forward_iterator_tag;
    typename vp_map<K, char>::iterator i;
    const K& operator*() const { return (*i).first; }
    const K* operator->() const { return &(*i).first; }
    bool operator==(const iterator& o) const { return i == o.i; }
    bool operator!=(const iterator& o) const { return i != o.i; }
    iterator& operator++() { ++i; return *this; }
  };
  using const_iterator = iterator;
  vp_set() {}
  vp_set(std::initializer_list<K> l) { for (auto const& x : l) insert(x); }
  template <class Q> iterator find(const Q& k) const { return iterator{m.find(k)}; }
  template <class Q> bool contains(const Q& k) const { return m.contains(k); }
  template <class Q> size_t count(const Q& k) const { return m.count(k); }
  iterator begin() const { return iterator{m.begin()}; }
  iterator end() const { return iterator{m.end()}; }
  size_t size() const { return m.size(); }
  bool empty() const { return m.empty(); }
  void clear() { m.clear(); }
  template <class Q> std::pair<iterator, bool> insert(const Q& k) { auto r = m.emplace(k, (char)0); return {iterator{r.first}, r.second}; }
  template <class Q> std::pair<iterator, bool> emplace(const Q& k) { return insert(k); }
  iterator erase(iterator it) { return iterator{m.erase(it.i)}; }
  template <class Q, class = typename std::enable_if<!std::is_same<Q, iterator>::value>::type>
  size_t erase(const Q& k) { return m.erase(k); }
};
}  // namespace std
#define vector vp_vector
#define deque vp_deque
#if defined(VP_STR_ID) || defined(VP_STR_CHARS)
#include <any>
#ifdef VP_SYMBOLIC
// the part of std::list that libstdc++ keeps in its library (its source, tree: libstdc++-v3/src/c++98/list.cc)
namespace std { namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
} }
#endif
#include "absl/types/any.h"
#include "absl/types/span.h"
#include "absl/types/variant.h"
#include "absl/functional/any_invocable.h"
#include "absl/memory/memory.h"
#endif
#ifdef VP_STR_ID
#include "vp_string_id.h"
#endif
#ifdef VP_STR_CHARS
#include "vp_string_chars.h"
#endif
#if defined(VP_STR_ID) || defined(VP_STR_CHARS)
#include "absl/strings/str_cat.h"
#endif
#endif
