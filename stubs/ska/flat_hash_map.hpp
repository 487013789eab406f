// Analysis-only stand-in for ska/flat_hash_map.hpp, which the project downloads at build time and which is not
// present offline.  Only the declarations the analyser needs to type-check /repo's sources.
#pragma once
#include <cstddef>
#include <functional>
#include <memory>
#include <unordered_map>
namespace ska {
template <typename K, typename V, typename H = std::hash<K>, typename E = std::equal_to<K>,
          typename A = std::allocator<std::pair<const K, V>>>
class flat_hash_map : public std::unordered_map<K, V, H, E, A> {
 public:
  using base = std::unordered_map<K, V, H, E, A>;
  using base::base;
  using size_type = typename base::size_type;
};
}  // namespace ska
