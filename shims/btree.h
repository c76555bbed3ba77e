// Stand-in for parallel-hashmap's btree.h (not installed in this sandbox): ordered containers with std semantics.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <set>
namespace phmap
{
template <typename K, typename C = std::less<K>, typename A = std::allocator<K>>
using btree_set = std::set<K, C, A>;
template <typename K, typename V, typename C = std::less<K>, typename A = std::allocator<std::pair<const K, V>>>
using btree_map = std::map<K, V, C, A>;
}  // namespace phmap
