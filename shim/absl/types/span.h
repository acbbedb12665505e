#ifndef VSHIM_ABSL_SPAN_H_
#define VSHIM_ABSL_SPAN_H_
#include <algorithm>
#include <cassert>
#include <cstddef>
#include <initializer_list>
#include <iterator>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
#include "absl/base/macros.h"
namespace absl {
template <typename T>
class Span {
 public:
  using element_type = T; using value_type = std::remove_cv_t<T>; using pointer = T*; using const_pointer = const T*;
  using reference = T&; using const_reference = const T&; using iterator = T*; using const_iterator = const T*;
  using reverse_iterator = std::reverse_iterator<iterator>; using const_reverse_iterator = std::reverse_iterator<const_iterator>;
  using size_type = size_t; using difference_type = ptrdiff_t;
  static constexpr size_type npos = size_type(-1);
  constexpr Span() : p_(nullptr), n_(0) {}
  constexpr Span(T* p, size_type n) : p_(p), n_(n) {}
  template <size_t N> constexpr Span(T (&a)[N]) : p_(a), n_(N) {}
  template <typename C, typename = std::enable_if_t<!std::is_same_v<std::remove_cvref_t<C>, Span> && !std::is_array_v<std::remove_reference_t<C>> &&
            std::is_convertible_v<decltype(std::declval<C&>().data()), T*>>,
            typename = decltype(std::declval<C&>().size())>
  constexpr Span(C&& c) : p_(c.data()), n_(c.size()) {}
  template <typename U = T, typename = std::enable_if_t<std::is_const_v<U>>>
  Span(std::initializer_list<value_type> v) : p_(v.begin()), n_(v.size()) {}
  constexpr T* data() const { return p_; }
  constexpr size_type size() const { return n_; }
  constexpr size_type length() const { return n_; }
  constexpr bool empty() const { return n_ == 0; }
  constexpr T& operator[](size_type i) const { ABSL_HARDENING_ASSERT(i < n_); return p_[i]; }
  constexpr T& at(size_type i) const { if (i >= n_) throw std::out_of_range("Span::at"); return p_[i]; }
  constexpr T& front() const { ABSL_HARDENING_ASSERT(n_ > 0); return p_[0]; }
  constexpr T& back() const { ABSL_HARDENING_ASSERT(n_ > 0); return p_[n_ - 1]; }
  constexpr iterator begin() const { return p_; }
  constexpr iterator end() const { return p_ + n_; }
  constexpr const_iterator cbegin() const { return p_; }
  constexpr const_iterator cend() const { return p_ + n_; }
  reverse_iterator rbegin() const { return reverse_iterator(end()); }
  reverse_iterator rend() const { return reverse_iterator(begin()); }
  void remove_prefix(size_type n) { ABSL_HARDENING_ASSERT(n_ >= n); p_ += n; n_ -= n; }
  void remove_suffix(size_type n) { ABSL_HARDENING_ASSERT(n_ >= n); n_ -= n; }
  constexpr Span subspan(size_type pos = 0, size_type len = npos) const {
    if (pos > n_) throw std::out_of_range("Span::subspan");
    return Span(p_ + pos, std::min(len, n_ - pos));
  }
  constexpr Span first(size_type n) const { return subspan(0, n); }
  constexpr Span last(size_type n) const { return subspan(n_ - n, n); }
 private:
  T* p_; size_type n_;
};
template <typename T> const size_t Span<T>::npos;
template <typename A, typename B>
bool vshim_span_eq(const A& a, const B& b) { return a.size() == b.size() && std::equal(a.data(), a.data() + a.size(), b.data()); }
template <typename T, typename U> bool operator==(Span<T> a, Span<U> b) { return vshim_span_eq(a, b); }
template <typename T, typename U> bool operator!=(Span<T> a, Span<U> b) { return !vshim_span_eq(a, b); }
template <typename T, typename U> bool operator==(Span<T> a, const std::vector<U>& b) { return vshim_span_eq(a, b); }
template <typename T, typename U> bool operator!=(Span<T> a, const std::vector<U>& b) { return !vshim_span_eq(a, b); }
#if 0
template <typename T, typename U> bool operator==(const std::vector<U>& b, Span<T> a) { return vshim_span_eq(a, b); }
#endif
template <typename T> Span<T> MakeSpan(T* p, size_t n) { return Span<T>(p, n); }
template <typename T> Span<T> MakeSpan(T* b, T* e) { return Span<T>(b, e - b); }
template <typename C> auto MakeSpan(C& c) -> Span<std::remove_reference_t<decltype(*c.data())>> { return {c.data(), c.size()}; }
template <typename T, size_t N> Span<T> MakeSpan(T (&a)[N]) { return Span<T>(a, N); }
template <typename T> Span<const T> MakeConstSpan(T* p, size_t n) { return Span<const T>(p, n); }
template <typename T> Span<const T> MakeConstSpan(T* b, T* e) { return Span<const T>(b, e - b); }
template <typename C> auto MakeConstSpan(const C& c) -> Span<const std::remove_reference_t<decltype(*c.data())>> { return {c.data(), c.size()}; }
template <typename T, size_t N> Span<const T> MakeConstSpan(const T (&a)[N]) { return Span<const T>(a, N); }
}
#endif
