#ifndef VSHIM_ABSL_BTREE_MAP_H_
#define VSHIM_ABSL_BTREE_MAP_H_
#include <map>
#include <set>
namespace absl {
template <typename K, typename V, typename C = std::less<K>> using btree_map = std::map<K, V, C>;
template <typename K, typename C = std::less<K>> using btree_set = std::set<K, C>;
template <typename K, typename V, typename C = std::less<K>> using btree_multimap = std::multimap<K, V, C>;
}
#endif
