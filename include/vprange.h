// Contract of an ordered associative container whose keys are address ranges under the order "entirely below" (two
// ranges are equivalent when they overlap): pairwise non-overlapping entries, seen at one arbitrary entry, the watched
// one; of the other entries nothing is known except that they do not overlap it.  The comparator is the code's own.
// Include before the sources; replaces the absl ordered containers.
#ifndef VPRANGE_H_
#define VPRANGE_H_
#define VP_MODEL_btree_map_
#define VP_MODEL_btree_set_
#include "vp.h"
#include <cstdint>
#include <functional>
#include <string>
#include <utility>
#include <vector>
static int vp_range_containers;
extern "C" void __vp_no_contract_of_iteration();   // code reaching this is not decided
template <class K, class V, class C> class vp_ranges {
 public:
  using key_type = K;
  using mapped_type = V;
  using value_type = std::pair<const K, V>;
  value_type* w = nullptr;        // the watched entry
  bool has = false;               // is it there?
  bool lone = true;               // true: there are no other entries
  value_type* o = nullptr;        // stands for any other entry
  void (*fresh)(value_type&) = nullptr;   // chooses what another entry maps to
  bool watch_next = false;        // the next entry inserted is the watched one
  bool (*watch)(const K&) = nullptr;      // or: is it this one?
  int inserted = 0;               // other entries inserted
  // iterators name their container by number, so that copies of them made in a loop hold no pointers
  int id;
  vp_ranges() : id(vp_range_containers++) { Of(id) = this; }
  static vp_ranges*& Of(int i) { static vp_ranges* all[32]; return all[i]; }
  struct iterator {
    int id;
    uint64_t pos, end, at;        // position, number of entries, position of the watched entry (or end)
    value_type& operator*() const { return pos == at ? *Of(id)->w : *Of(id)->o; }
    value_type* operator->() const { return pos == at ? Of(id)->w : Of(id)->o; }
    iterator& operator++() { pos++; return *this; }
    iterator operator++(int) { iterator r = *this; pos++; return r; }
    bool operator==(const iterator& x) const { return end - pos == x.end - x.pos; }
    bool operator!=(const iterator& x) const { return !(*this == x); }
  };
  using const_iterator = iterator;
  static bool Equiv(const K& a, const K& b) { return !C()(a, b) && !C()(b, a); }
  bool Hit(const K& k) const { return has && Equiv(k, w->first); }
  iterator end() const { return iterator{id, 0, 0, 0}; }
  iterator begin() const { __vp_no_contract_of_iteration(); return end(); }
  bool empty() const { return !has && (lone || vp_any<bool>("no ranges")); }
  iterator Pick(const K& k) const {
    bool hit = Hit(k);
    if (hit && (lone || vp_any<bool>("range found is the watched one"))) return iterator{id, 0, 1, 0};
    if (lone) return end();
    if (!vp_any<bool>("other range found")) { vp_assume(!hit); missed = true; auto [s, e] = k; miss_start = s; miss_end = e; return end(); }
    new (const_cast<K*>(&o->first)) K(AnyKey());
    vp_assume(Equiv(k, o->first) && !(has && Equiv(o->first, w->first)));
    if (fresh) fresh(*o);
    if (missed) vp_assume(!Equiv(o->first, K{miss_start, miss_end}));   // what was not found is still not there
    return iterator{id, 0, 1, 1};
  }
  static K AnyKey() { uint64_t a = vp_any<uint64_t>("other range start"), b = vp_any<uint64_t>("other range end"); vp_assume(a <= b); return K{a, b}; }
  iterator find(const K& k) const { return Pick(k); }
  bool contains(const K& k) const { return Pick(k) != end(); }
  size_t count(const K& k) const { return contains(k); }
  std::pair<iterator, iterator> equal_range(const K& k) const {
    bool hit = Hit(k);
    uint64_t n = lone ? hit : vp_any<uint64_t>("ranges overlapping"), p = n;
    vp_assume(n < (1ull << 30));
    if (hit) { p = lone ? 0 : at_pos; vp_assume(p < n); }
    return {iterator{id, 0, n, p}, iterator{id, n, n, p}};
  }
  mutable bool missed = false;    // the last range looked up and not found
  mutable uint64_t miss_start = 0, miss_end = 0;
  static uint64_t at_pos;         // the position of the watched entry among the overlapping ones, chosen by the harness
  iterator Insert(value_type&& v) {
    missed = false;
    if (watch_next || (watch && !has && watch(v.first))) {
      watch_next = false;
      has = true;
      w = new value_type(std::move(v));
      return iterator{id, 0, 1, 0};
    }
    vp_assert(!(has && Equiv(v.first, w->first)), "ranges do not overlap");
    lone = false;
    inserted++;
    o = new value_type(std::move(v));
    return iterator{id, 0, 1, 1};
  }
  iterator insert(value_type v) { return Insert(std::move(v)); }
  template <class A, class B> iterator emplace(A&& a, B&& b) { return Insert(value_type(std::forward<A>(a), std::forward<B>(b))); }
  iterator erase(iterator i) {
    vp_assert(i.pos < i.end, "an entry is erased");
    if (i.pos == i.at) has = false;
    return end();
  }
  void clear() { has = false; lone = true; }
};
// a map keeps at most one of equivalent keys
template <class K, class V, class C> class vp_range_map : public vp_ranges<K, V, C> {
 public:
  using B = vp_ranges<K, V, C>;
  std::pair<typename B::iterator, bool> insert(typename B::value_type v) {
    auto i = this->Pick(v.first);
    if (i != this->end()) return {i, false};
    return {this->Insert(std::move(v)), true};
  }
  template <class X, class Y> std::pair<typename B::iterator, bool> emplace(X&& a, Y&& b) { return insert(typename B::value_type(std::forward<X>(a), std::forward<Y>(b))); }
};
template <class K, class V, class C> uint64_t vp_ranges<K, V, C>::at_pos;
namespace absl {
template <class K, class V, class C> struct vp_pick_map { using type = vp_ranges<K, V, C>; };
template <class K, class V> struct vp_pick_map<K, V, std::less<K>> { using type = std::vp_map<K, V>; };
template <class K, class V, class C> struct vp_pick_umap { using type = vp_range_map<K, V, C>; };
template <class K, class V> struct vp_pick_umap<K, V, std::less<K>> { using type = std::vp_map<K, V>; };
template <class K, class V, class C = std::less<K>, class... X> using btree_multimap = typename vp_pick_map<K, V, C>::type;
template <class K, class V, class C = std::less<K>, class... X> using btree_map = typename vp_pick_umap<K, V, C>::type;
}
#endif
