// Stand-in for the "hash-combine" submodule (empty in this checkout).
#ifndef VERIF_SHIM_HASH_COMBINE_HPP
#define VERIF_SHIM_HASH_COMBINE_HPP
#include <cstddef>
#include <functional>
namespace flatsurf {
template <typename T>
size_t hash(const T& t) { return std::hash<T>()(t); }
inline size_t hash_combine(size_t a) { return a; }
template <typename... Rest>
size_t hash_combine(size_t a, size_t b, Rest... rest) {
  return hash_combine(a ^ (b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2)), rest...);
}
}  // namespace flatsurf
#endif
