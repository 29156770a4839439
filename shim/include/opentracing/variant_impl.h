#ifndef OPENTRACING_VARIANT_IMPL_H
#define OPENTRACING_VARIANT_IMPL_H
// A small equivalent of the mapbox variant bundled with opentracing-cpp.
#include <opentracing/version.h>
#include <cassert>
#include <cstddef>
#include <functional>
#include <limits>
#include <string>
#include <tuple>
#include <typeinfo>
#include <memory>
#include <new>
#include <stdexcept>
#include <type_traits>
#include <utility>

namespace opentracing {
BEGIN_OPENTRACING_ABI_NAMESPACE
namespace util {
template <typename T>
class recursive_wrapper {
 public:
  typedef T type;
  recursive_wrapper() : p_(new T) {}
  recursive_wrapper(recursive_wrapper const& o) : p_(new T(o.get())) {}
  recursive_wrapper(recursive_wrapper&& o) : p_(new T(std::move(o.get()))) {}
  recursive_wrapper(T const& o) : p_(new T(o)) {}
  recursive_wrapper(T&& o) : p_(new T(std::move(o))) {}
  ~recursive_wrapper() noexcept { delete p_; }
  recursive_wrapper& operator=(recursive_wrapper o) noexcept {
    std::swap(p_, o.p_);
    return *this;
  }
  T& get() { return *p_; }
  T const& get() const { return *p_; }

 private:
  T* p_;
};
template <typename T>
struct unwrapped {
  typedef T type;
  static T const& get(T const& t) { return t; }
  static T& get(T& t) { return t; }
};
template <typename T>
struct unwrapped<recursive_wrapper<T>> {
  typedef T type;
  static T const& get(recursive_wrapper<T> const& t) { return t.get(); }
  static T& get(recursive_wrapper<T>& t) { return t.get(); }
};

template <std::size_t... V>
struct static_max;
template <std::size_t A>
struct static_max<A> {
  static const std::size_t value = A;
};
template <std::size_t A, std::size_t B, std::size_t... R>
struct static_max<A, B, R...> {
  static const std::size_t value =
      A >= B ? static_max<A, R...>::value : static_max<B, R...>::value;
};

// index_of: position of the alternative that stores T (directly or wrapped).
template <typename T, typename... Types>
struct index_of;
template <typename T, typename First, typename... Rest>
struct index_of<T, First, Rest...> {
  static const std::size_t value =
      std::is_same<T, typename unwrapped<First>::type>::value
          ? 0
          : 1 + index_of<T, Rest...>::value;
};
template <typename T>
struct index_of<T> {
  static const std::size_t value = 0;
};

template <typename... Types>
struct helper;
template <typename T, typename... Rest>
struct helper<T, Rest...> {
  static void destroy(std::size_t i, void* p) {
    if (i == 0) {
      reinterpret_cast<T*>(p)->~T();
    } else {
      helper<Rest...>::destroy(i - 1, p);
    }
  }
  static void copy(std::size_t i, void const* from, void* to) {
    if (i == 0) {
      new (to) T(*reinterpret_cast<T const*>(from));
    } else {
      helper<Rest...>::copy(i - 1, from, to);
    }
  }
  static void move(std::size_t i, void* from, void* to) {
    if (i == 0) {
      new (to) T(std::move(*reinterpret_cast<T*>(from)));
    } else {
      helper<Rest...>::move(i - 1, from, to);
    }
  }
  static bool equal(std::size_t i, void const* a, void const* b) {
    if (i == 0) {
      return unwrapped<T>::get(*reinterpret_cast<T const*>(a)) ==
             unwrapped<T>::get(*reinterpret_cast<T const*>(b));
    }
    return helper<Rest...>::equal(i - 1, a, b);
  }
  template <typename F>
  static auto apply(std::size_t i, void const* p, F&& f)
      -> decltype(f(std::declval<typename unwrapped<T>::type const&>())) {
    if (i == 0) {
      return f(unwrapped<T>::get(*reinterpret_cast<T const*>(p)));
    }
    return next<F>(i - 1, p, std::forward<F>(f),
                   std::integral_constant<bool, sizeof...(Rest) == 0>{});
  }
  template <typename F>
  static auto next(std::size_t, void const*, F&& f, std::true_type)
      -> decltype(f(std::declval<typename unwrapped<T>::type const&>())) {
    throw std::logic_error("bad variant");
  }
  template <typename F>
  static auto next(std::size_t i, void const* p, F&& f, std::false_type)
      -> decltype(f(std::declval<typename unwrapped<T>::type const&>())) {
    return helper<Rest...>::apply(i, p, std::forward<F>(f));
  }
};
template <>
struct helper<> {
  static void destroy(std::size_t, void*) {}
  static void copy(std::size_t, void const*, void*) {}
  static void move(std::size_t, void*, void*) {}
  static bool equal(std::size_t, void const*, void const*) { return true; }
};

template <typename... Types>
class variant {
 public:
  template <typename T>
  static constexpr std::size_t index() {
    return index_of<T, Types...>::value;
  }
  variant(variant const& o) : which_(o.which_) {
    helper<Types...>::copy(which_, o.ptr(), ptr());
  }
  variant(variant&& o) : which_(o.which_) {
    helper<Types...>::move(which_, o.ptr(), ptr());
  }
  template <typename T, typename Traits = typename std::enable_if<
                            !std::is_base_of<variant, typename std::decay<
                                                          T>::type>::value &&
                            (index_of<typename std::decay<T>::type,
                                      Types...>::value < sizeof...(Types))>::type>
  variant(T&& t) : which_(index_of<typename std::decay<T>::type, Types...>::value) {
    construct(std::forward<T>(t),
              std::integral_constant<
                  std::size_t,
                  index_of<typename std::decay<T>::type, Types...>::value>{});
  }
  ~variant() noexcept { helper<Types...>::destroy(which_, ptr()); }
  variant& operator=(variant const& o) {
    if (this != &o) {
      variant tmp(o);
      *this = std::move(tmp);
    }
    return *this;
  }
  variant& operator=(variant&& o) {
    if (this != &o) {
      helper<Types...>::destroy(which_, ptr());
      which_ = o.which_;
      helper<Types...>::move(which_, o.ptr(), ptr());
    }
    return *this;
  }
  template <typename T>
  bool is() const {
    return which_ == index<T>();
  }
  int which() const { return static_cast<int>(which_); }
  template <typename T>
  T const& get() const {
    if (!is<T>()) throw std::runtime_error("in get<T>()");
    return getter<T>(
        std::integral_constant<bool, is_wrapped<T, Types...>::value>{});
  }
  bool operator==(variant const& o) const {
    return which_ == o.which_ &&
           helper<Types...>::equal(which_, ptr(), o.ptr());
  }
  bool operator!=(variant const& o) const { return !(*this == o); }
  template <typename F>
  static auto visit(variant const& v, F&& f)
      -> decltype(helper<Types...>::apply(0, nullptr, std::forward<F>(f))) {
    return helper<Types...>::apply(v.which_, v.ptr(), std::forward<F>(f));
  }

 private:
  template <typename T, typename First, typename... Rest>
  struct is_wrapped {
    static const bool value =
        std::is_same<T, typename unwrapped<First>::type>::value
            ? !std::is_same<T, First>::value
            : is_wrapped<T, Rest..., void>::value;
  };
  template <typename T, typename... Rest>
  struct is_wrapped<T, void, Rest...> {
    static const bool value = false;
  };
  template <typename T>
  T const& getter(std::true_type) const {
    return reinterpret_cast<recursive_wrapper<T> const*>(ptr())->get();
  }
  template <typename T>
  T const& getter(std::false_type) const {
    return *reinterpret_cast<T const*>(ptr());
  }
  template <std::size_t I, typename First, typename... Rest>
  struct at {
    typedef typename at<I - 1, Rest...>::type type;
  };
  template <typename First, typename... Rest>
  struct at<0, First, Rest...> {
    typedef First type;
  };
  template <typename T, std::size_t I>
  void construct(T&& t, std::integral_constant<std::size_t, I>) {
    new (ptr()) typename at<I, Types...>::type(std::forward<T>(t));
  }
  void* ptr() { return static_cast<void*>(&data_); }
  void const* ptr() const { return static_cast<void const*>(&data_); }
  std::size_t which_;
  typename std::aligned_storage<static_max<sizeof(Types)...>::value,
                                static_max<alignof(Types)...>::value>::type
      data_;
};

template <typename F, typename... Types>
auto apply_visitor(F&& f, variant<Types...> const& v)
    -> decltype(variant<Types...>::visit(v, std::forward<F>(f))) {
  return variant<Types...>::visit(v, std::forward<F>(f));
}
}  // namespace util
END_OPENTRACING_ABI_NAMESPACE
}  // namespace opentracing
#endif
