#ifndef VSHIM_ABSL_HASH_H_
#define VSHIM_ABSL_HASH_H_
#include "absl/types/span.h"
#include <cstddef>
#include <cstdint>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
// Salt mixed into every hash.  Harnesses change it to vary the iteration order
// of the flat_hash_* stand-ins, which real Abseil randomises per process.
inline uint64_t vshim_hash_salt = 0;
namespace absl {
class vshim_hash_state {
 public:
  explicit vshim_hash_state(uint64_t h) : h_(h) {}
  template <typename T, typename... Ts>
  static vshim_hash_state combine(vshim_hash_state s, const T& v, const Ts&... vs) {
    s = mix(std::move(s), v);
    if constexpr (sizeof...(Ts) > 0) return combine(std::move(s), vs...);
    else return s;
  }
  static vshim_hash_state combine(vshim_hash_state s) { return s; }
  template <typename T>
  static vshim_hash_state combine_contiguous(vshim_hash_state s, const T* p, size_t n) {
    for (size_t i = 0; i < n; ++i) s = mix(std::move(s), p[i]);
    return s;
  }
  uint64_t value() const { return h_; }
 private:
  static uint64_t scramble(uint64_t x) { x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 27; x *= 0x94d049bb133111ebULL; x ^= x >> 31; return x; }
  vshim_hash_state add(uint64_t v) const { return vshim_hash_state(scramble(h_ * 0x9e3779b97f4a7c15ULL + v + 0x632be59bd9b4e019ULL)); }
  template <typename T> struct is_opt : std::false_type {};
  template <typename T> struct is_opt<std::optional<T>> : std::true_type {};
  template <typename T> struct is_vec : std::false_type {};
  template <typename T> struct is_vec<std::vector<T>> : std::true_type {};
  template <typename T> struct is_tup : std::false_type {};
  template <typename... T> struct is_tup<std::tuple<T...>> : std::true_type {};
  template <typename A, typename B> struct is_tup<std::pair<A, B>> : std::true_type {};
  template <typename T>
  static vshim_hash_state mix(vshim_hash_state s, const T& v) {
    if constexpr (std::is_integral_v<T> || std::is_enum_v<T>) return s.add(uint64_t(v));
    else if constexpr (std::is_pointer_v<T> && !std::is_convertible_v<T, std::string_view>) return s.add(uint64_t(uintptr_t(v)));
    else if constexpr (std::is_floating_point_v<T>) return s.add(std::hash<T>()(v));
    else if constexpr (std::is_convertible_v<const T&, std::string_view>) {
      std::string_view sv = v; s = s.add(sv.size());
      for (char c : sv) s = s.add(uint8_t(c));
      return s;
    } else if constexpr (is_opt<T>::value) { s = s.add(v.has_value()); return v ? mix(std::move(s), *v) : s; }
    else if constexpr (is_vec<T>::value) { for (const auto& e : v) s = mix(std::move(s), e); return s.add(v.size()); }
    else if constexpr (is_tup<T>::value) { return std::apply([&](const auto&... e) { return combine(s, e...); }, v); }
    else return AbslHashValue(std::move(s), v);
  }
  uint64_t h_;
};
template <typename T>
struct Hash {
  uint64_t salt = vshim_hash_salt;  // a table keeps the salt it was made under
  size_t operator()(const T& v) const { return vshim_hash_state::combine(vshim_hash_state(salt), v).value(); }
};
template <typename... T> size_t HashOf(const T&... v) { return vshim_hash_state::combine(vshim_hash_state(vshim_hash_salt), v...).value(); }
struct vshim_string_hash {
  using is_transparent = void;
  uint64_t salt = vshim_hash_salt;
  size_t operator()(std::string_view v) const { return vshim_hash_state::combine(vshim_hash_state(salt), v).value(); }
};
struct vshim_string_eq {
  using is_transparent = void;
  bool operator()(std::string_view a, std::string_view b) const { return a == b; }
};
template <typename K> struct vshim_hash_of { using hash = Hash<K>; using eq = std::equal_to<K>; };
template <> struct vshim_hash_of<std::string> { using hash = vshim_string_hash; using eq = vshim_string_eq; };
template <> struct vshim_hash_of<std::string_view> { using hash = vshim_string_hash; using eq = vshim_string_eq; };
}
#endif
