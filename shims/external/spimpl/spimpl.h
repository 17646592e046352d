// Stand-in for the "spimpl" submodule (empty in this checkout): smart pointers
// for the pimpl idiom.  Semantics follow the published interface:
//   impl_ptr<T>        copyable (deep copy), propagates const
//   unique_impl_ptr<T> movable only, propagates const
#ifndef VERIF_SHIM_SPIMPL_H
#define VERIF_SHIM_SPIMPL_H
#include <memory>
#include <type_traits>
#include <utility>
namespace spimpl {
namespace details {
template <class T> T* default_copy(const T* src) { return src ? new T(*src) : nullptr; }
template <class T> void default_delete(T* p) noexcept { delete p; }
}  // namespace details

template <class T>
class unique_impl_ptr {
 public:
  using deleter = void (*)(T*);
  unique_impl_ptr() noexcept : p(nullptr), d(nullptr) {}
  unique_impl_ptr(std::nullptr_t) noexcept : p(nullptr), d(nullptr) {}
  unique_impl_ptr(T* p, deleter d) noexcept : p(p), d(d) {}
  unique_impl_ptr(unique_impl_ptr&& o) noexcept : p(o.p), d(o.d) { o.p = nullptr; }
  unique_impl_ptr(const unique_impl_ptr&) = delete;
  unique_impl_ptr& operator=(const unique_impl_ptr&) = delete;
  unique_impl_ptr& operator=(unique_impl_ptr&& o) noexcept {
    std::swap(p, o.p);
    std::swap(d, o.d);
    return *this;
  }
  ~unique_impl_ptr() { if (p) d(p); }
  T* operator->() noexcept { return p; }
  const T* operator->() const noexcept { return p; }
  T& operator*() noexcept { return *p; }
  const T& operator*() const noexcept { return *p; }
  T* get() noexcept { return p; }
  const T* get() const noexcept { return p; }
  explicit operator bool() const noexcept { return p != nullptr; }
  void swap(unique_impl_ptr& o) noexcept { std::swap(p, o.p); std::swap(d, o.d); }

 private:
  T* p;
  deleter d;
};

template <class T>
class impl_ptr {
 public:
  using deleter = void (*)(T*);
  using copier = T* (*)(const T*);
  impl_ptr() noexcept : p(nullptr), d(nullptr), c(nullptr) {}
  impl_ptr(std::nullptr_t) noexcept : impl_ptr() {}
  impl_ptr(T* p, deleter d, copier c) noexcept : p(p), d(d), c(c) {}
  impl_ptr(impl_ptr&& o) noexcept : p(o.p), d(o.d), c(o.c) { o.p = nullptr; }
  impl_ptr(const impl_ptr& o) : p(o.p ? o.c(o.p) : nullptr), d(o.d), c(o.c) {}
  impl_ptr& operator=(const impl_ptr& o) {
    if (this != &o) {
      impl_ptr copy(o);
      swap(copy);
    }
    return *this;
  }
  impl_ptr& operator=(impl_ptr&& o) noexcept {
    if (this != &o) {
      impl_ptr moved(std::move(o));
      swap(moved);
    }
    return *this;
  }
  ~impl_ptr() { if (p) d(p); }
  T* operator->() noexcept { return p; }
  const T* operator->() const noexcept { return p; }
  T& operator*() noexcept { return *p; }
  const T& operator*() const noexcept { return *p; }
  T* get() noexcept { return p; }
  const T* get() const noexcept { return p; }
  explicit operator bool() const noexcept { return p != nullptr; }
  void swap(impl_ptr& o) noexcept { std::swap(p, o.p); std::swap(d, o.d); std::swap(c, o.c); }

 private:
  T* p;
  deleter d;
  copier c;
};

template <class T, class... Args>
impl_ptr<T> make_impl(Args&&... args) {
  return impl_ptr<T>(new T(std::forward<Args>(args)...), &details::default_delete<T>, &details::default_copy<T>);
}
template <class T, class... Args>
unique_impl_ptr<T> make_unique_impl(Args&&... args) {
  return unique_impl_ptr<T>(new T(std::forward<Args>(args)...), &details::default_delete<T>);
}
}  // namespace spimpl
#endif
