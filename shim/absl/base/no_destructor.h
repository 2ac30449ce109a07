#pragma once
#include <new>
#include <utility>
namespace absl {
template <class T> class NoDestructor {
 public:
  template <class... A> explicit NoDestructor(A&&... a) { new (b_) T(std::forward<A>(a)...); }
  T& operator*() { return *reinterpret_cast<T*>(b_); }
  const T& operator*() const { return *reinterpret_cast<const T*>(b_); }
  T* operator->() { return reinterpret_cast<T*>(b_); }
  const T* operator->() const { return reinterpret_cast<const T*>(b_); }
  T* get() { return reinterpret_cast<T*>(b_); }
 private:
  alignas(T) unsigned char b_[sizeof(T)];
};
}  // namespace absl
