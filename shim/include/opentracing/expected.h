#ifndef OPENTRACING_EXPECTED_H
#define OPENTRACING_EXPECTED_H
// A small equivalent of the expected-lite copy bundled with opentracing-cpp.
#include <opentracing/version.h>
#include <cassert>
#include <exception>
#include <functional>
#include <initializer_list>
#include <memory>
#include <new>
#include <stdexcept>
#include <system_error>
#include <type_traits>
#include <utility>

namespace opentracing {
BEGIN_OPENTRACING_ABI_NAMESPACE
template <typename E = std::error_code>
class unexpected_type {
 public:
  unexpected_type() = delete;
  constexpr explicit unexpected_type(E const& error) : error_(error) {}
  constexpr explicit unexpected_type(E&& error) : error_(std::move(error)) {}
  constexpr E const& value() const { return error_; }
  E& value() { return error_; }

 private:
  E error_;
};

template <typename E>
inline unexpected_type<typename std::decay<E>::type> make_unexpected(E&& v) {
  return unexpected_type<typename std::decay<E>::type>(std::forward<E>(v));
}

template <typename Error>
class bad_expected_access : public std::logic_error {
 public:
  explicit bad_expected_access(Error error)
      : std::logic_error("bad_expected_access"), error_(error) {}
  Error const& error() const { return error_; }

 private:
  Error error_;
};

template <typename T, typename E = std::error_code>
class expected {
 public:
  typedef T value_type;
  typedef E error_type;

  expected() : has_value_(true) { new (&value_) T(); }
  expected(T const& v) : has_value_(true) { new (&value_) T(v); }
  expected(T&& v) : has_value_(true) { new (&value_) T(std::move(v)); }
  expected(unexpected_type<E> const& u) : has_value_(false) {
    new (&error_) E(u.value());
  }
  expected(unexpected_type<E>&& u) : has_value_(false) {
    new (&error_) E(std::move(u.value()));
  }
  expected(expected const& o) : has_value_(o.has_value_) {
    if (has_value_) {
      new (&value_) T(o.value_);
    } else {
      new (&error_) E(o.error_);
    }
  }
  expected(expected&& o) noexcept(std::is_nothrow_move_constructible<T>::value)
      : has_value_(o.has_value_) {
    if (has_value_) {
      new (&value_) T(std::move(o.value_));
    } else {
      new (&error_) E(std::move(o.error_));
    }
  }
  ~expected() { destroy(); }
  expected& operator=(expected const& o) {
    if (this != &o) {
      expected tmp(o);
      *this = std::move(tmp);
    }
    return *this;
  }
  expected& operator=(expected&& o) {
    if (this != &o) {
      destroy();
      has_value_ = o.has_value_;
      if (has_value_) {
        new (&value_) T(std::move(o.value_));
      } else {
        new (&error_) E(std::move(o.error_));
      }
    }
    return *this;
  }

  constexpr bool has_value() const { return has_value_; }
  constexpr bool valid() const { return has_value_; }
  constexpr explicit operator bool() const { return has_value_; }
  T const& operator*() const& { return value_; }
  T& operator*() & { return value_; }
  T&& operator*() && { return std::move(value_); }
  T const* operator->() const { return &value_; }
  T* operator->() { return &value_; }
  T const& value() const& {
    check();
    return value_;
  }
  T& value() & {
    check();
    return value_;
  }
  T&& value() && {
    check();
    return std::move(value_);
  }
  E const& error() const { return error_; }
  E& error() { return error_; }
  unexpected_type<E> get_unexpected() const {
    return unexpected_type<E>(error_);
  }
  template <typename U>
  T value_or(U&& v) const {
    return has_value_ ? value_ : static_cast<T>(std::forward<U>(v));
  }

 private:
  void check() const {
    if (!has_value_) throw bad_expected_access<E>(error_);
  }
  void destroy() {
    if (has_value_) {
      value_.~T();
    } else {
      error_.~E();
    }
  }
  bool has_value_;
  union {
    T value_;
    E error_;
  };
};

template <typename E>
class expected<void, E> {
 public:
  typedef void value_type;
  typedef E error_type;
  expected() : has_value_(true) {}
  expected(unexpected_type<E> const& u) : has_value_(false), error_(u.value()) {}
  expected(unexpected_type<E>&& u)
      : has_value_(false), error_(std::move(u.value())) {}
  bool has_value() const { return has_value_; }
  bool valid() const { return has_value_; }
  explicit operator bool() const { return has_value_; }
  void value() const {
    if (!has_value_) throw bad_expected_access<E>(error_);
  }
  E const& error() const { return error_; }
  E& error() { return error_; }
  unexpected_type<E> get_unexpected() const {
    return unexpected_type<E>(error_);
  }

 private:
  bool has_value_;
  E error_;
};
END_OPENTRACING_ABI_NAMESPACE
}  // namespace opentracing
#endif
