#ifndef VSHIM_ABSL_FLAT_HASH_SET_H_
#define VSHIM_ABSL_FLAT_HASH_SET_H_
#include <unordered_set>
#include "absl/base/macros.h"
#include "absl/hash/hash.h"
namespace absl {
template <typename K, typename H = typename vshim_hash_of<K>::hash, typename E = typename vshim_hash_of<K>::eq>
class flat_hash_set : public std::unordered_set<K, H, E> {
  using B = std::unordered_set<K, H, E>;
 public:
  using B::B;
  flat_hash_set() = default;
  template <typename Q = K> bool contains(const Q& k) const { return this->find(k) != this->end(); }
  template <typename Q = K> size_t count(const Q& k) const { return contains(k) ? 1 : 0; }
  // Insertions move the elements, as they may in the real one.
  using vshim_it = typename B::iterator;
  template <typename Q = K> std::pair<vshim_it, bool> insert(Q&& k) { return vshim_after(B::insert(K(std::forward<Q>(k)))); }
  template <typename I> void insert(I a, I b) { for (; a != b; ++a) insert(*a); }
  void insert(std::initializer_list<K> l) { insert(l.begin(), l.end()); }
  template <typename... A> std::pair<vshim_it, bool> emplace(A&&... a) { return vshim_after(B::emplace(std::forward<A>(a)...)); }
 private:
  std::pair<vshim_it, bool> vshim_after(std::pair<vshim_it, bool> r) {
    size_t n = this->size();
    if (!r.second || (n >= 64 && (n & (n - 1)) != 0)) return r;
    K key(*r.first);
    B fresh(n + 1, this->hash_function(), this->key_eq());
    while (!B::empty()) { auto node = B::extract(B::begin()); fresh.emplace(std::move(node.value())); }
    B::swap(fresh);
    return {B::find(key), true};
  }
};
template <typename K, typename H = typename vshim_hash_of<K>::hash, typename E = typename vshim_hash_of<K>::eq>
using node_hash_set = flat_hash_set<K, H, E>;
}
#endif
