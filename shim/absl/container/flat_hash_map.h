#ifndef VSHIM_ABSL_FLAT_HASH_MAP_H_
#define VSHIM_ABSL_FLAT_HASH_MAP_H_
#include "absl/types/span.h"
#include <stdexcept>
#include <unordered_map>
#include "absl/base/macros.h"
#include "absl/hash/hash.h"
namespace absl {
template <typename K, typename V, typename H = typename vshim_hash_of<K>::hash, typename E = typename vshim_hash_of<K>::eq>
class flat_hash_map : public std::unordered_map<K, V, H, E> {
  using B = std::unordered_map<K, V, H, E>;
 public:
  using B::B;
  flat_hash_map() = default;
  template <typename Q = K> bool contains(const Q& k) const { return this->find(k) != this->end(); }
  template <typename Q> auto find(const Q& k) -> typename B::iterator {
    if constexpr (requires { B::find(k); }) return B::find(k); else return B::find(K(k)); }
  template <typename Q> auto find(const Q& k) const -> typename B::const_iterator {
    if constexpr (requires { B::find(k); }) return B::find(k); else return B::find(K(k)); }
  template <typename Q = K> size_t count(const Q& k) const { return contains(k) ? 1 : 0; }
  template <typename Q = K> V& at(const Q& k) { auto it = this->find(k); if (it == this->end()) throw std::out_of_range("flat_hash_map::at"); return it->second; }
  template <typename Q = K> const V& at(const Q& k) const { auto it = this->find(k); if (it == this->end()) throw std::out_of_range("flat_hash_map::at"); return it->second; }
  V& operator[](const K& k) { vshim_before(k); return B::operator[](k); }
  V& operator[](K&& k) { vshim_before(k); return B::operator[](std::move(k)); }
  template <typename Q, typename = std::enable_if_t<!std::is_same_v<std::remove_cvref_t<Q>, K> && std::is_constructible_v<K, Q>>>
  V& operator[](Q&& k) { K key(std::forward<Q>(k)); vshim_before(key); return B::operator[](std::move(key)); }
  // Insertions move the elements, as they may in the real one.
  using vshim_it = typename B::iterator;
  std::pair<vshim_it, bool> insert(const typename B::value_type& v) { typename B::value_type copy(v); return vshim_after(B::insert(std::move(copy))); }
  std::pair<vshim_it, bool> insert(typename B::value_type&& v) { return vshim_after(B::insert(std::move(v))); }
  template <typename P, typename = std::enable_if_t<std::is_constructible_v<typename B::value_type, P&&>>>
  std::pair<vshim_it, bool> insert(P&& p) { return vshim_after(B::emplace(std::forward<P>(p))); }
  template <typename I> void insert(I a, I b) { for (; a != b; ++a) insert(*a); }
  void insert(std::initializer_list<typename B::value_type> l) { insert(l.begin(), l.end()); }
  template <typename... A> std::pair<vshim_it, bool> emplace(A&&... a) { return vshim_after(B::emplace(std::forward<A>(a)...)); }
  template <typename Q = K, typename... A> std::pair<vshim_it, bool> try_emplace(Q&& k, A&&... a) { return vshim_after(B::try_emplace(K(std::forward<Q>(k)), std::forward<A>(a)...)); }
  template <typename Q = K, typename W> std::pair<vshim_it, bool> insert_or_assign(Q&& k, W&& w) { return vshim_after(B::insert_or_assign(K(std::forward<Q>(k)), std::forward<W>(w))); }
  template <typename... A> vshim_it emplace_hint(typename B::const_iterator, A&&... a) { return emplace(std::forward<A>(a)...).first; }
 private:
  void vshim_move() {
    if constexpr (std::is_move_constructible_v<K> && std::is_move_constructible_v<V>) {
      size_t n = this->size();
      if (n >= 64 && (n & (n - 1)) != 0) return;
      B fresh(n + 1, this->hash_function(), this->key_eq());
      while (!B::empty()) { auto node = B::extract(B::begin()); fresh.emplace(std::move(node.key()), std::move(node.mapped())); }
      B::swap(fresh);
    }
  }
  void vshim_before(const K& k) { if (!contains(k)) { K copy(k); vshim_move(); } }
  std::pair<vshim_it, bool> vshim_after(std::pair<vshim_it, bool> r) {
    if (!r.second) return r;
    K key(r.first->first);
    vshim_move();
    return {B::find(key), true};
  }
};
template <typename K, typename V, typename H = typename vshim_hash_of<K>::hash, typename E = typename vshim_hash_of<K>::eq>
using node_hash_map = flat_hash_map<K, V, H, E>;
template <typename M, typename P> auto erase_if(M& m, P p) { size_t n = 0; for (auto it = m.begin(); it != m.end();) { if (p(*it)) { it = m.erase(it); ++n; } else ++it; } return n; }
}
#endif
