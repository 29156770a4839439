#ifndef OPENTRACING_VALUE_H
#define OPENTRACING_VALUE_H
#include <opentracing/string_view.h>
#include <opentracing/variant_impl.h>
#include <opentracing/version.h>
#include <cstdint>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <vector>

namespace opentracing {
BEGIN_OPENTRACING_ABI_NAMESPACE
class Value;
typedef std::unordered_map<std::string, Value> Dictionary;
typedef std::vector<Value> Values;
typedef util::variant<bool, double, int64_t, uint64_t, std::string,
                      std::nullptr_t, const char*,
                      util::recursive_wrapper<Values>,
                      util::recursive_wrapper<Dictionary>>
    variant_type;

class Value : public variant_type {
 public:
  Value() noexcept : variant_type(nullptr) {}
  Value(std::nullptr_t) noexcept : variant_type(nullptr) {}

  template <typename T, typename std::enable_if<
                            std::is_same<T, bool>::value>::type* = nullptr>
  Value(T t) noexcept : variant_type(t) {}

  template <typename T, typename std::enable_if<
                            std::is_floating_point<T>::value>::type* = nullptr>
  Value(T t) noexcept : variant_type(static_cast<double>(t)) {}

  template <typename T,
            typename std::enable_if<std::is_integral<T>::value &&
                                    std::is_signed<T>::value>::type* = nullptr>
  Value(T t) noexcept : variant_type(static_cast<int64_t>(t)) {}

  template <typename T,
            typename std::enable_if<std::is_integral<T>::value &&
                                    std::is_unsigned<T>::value &&
                                    !std::is_same<T, bool>::value>::type* =
                nullptr>
  Value(T t) noexcept : variant_type(static_cast<uint64_t>(t)) {}

  Value(const char* s) noexcept : variant_type(s) {}
  Value(const std::string& s) : variant_type(s) {}
  Value(std::string&& s) : variant_type(std::move(s)) {}
  Value(string_view s) : variant_type(std::string(s)) {}
  Value(const Values& v) : variant_type(v) {}
  Value(Values&& v) : variant_type(std::move(v)) {}
  Value(const Dictionary& v) : variant_type(v) {}
  Value(Dictionary&& v) : variant_type(std::move(v)) {}
};
END_OPENTRACING_ABI_NAMESPACE
}  // namespace opentracing
#endif
