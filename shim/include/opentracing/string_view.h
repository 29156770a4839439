#ifndef OPENTRACING_STRING_VIEW_H
#define OPENTRACING_STRING_VIEW_H
#include <opentracing/version.h>
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <functional>
#include <iterator>
#include <cstring>
#include <ostream>
#include <stdexcept>
#include <string>

namespace opentracing {
BEGIN_OPENTRACING_ABI_NAMESPACE
class string_view {
 public:
  typedef std::size_t size_type;
  typedef char value_type;
  typedef const char* const_iterator;
  static constexpr size_type npos = static_cast<size_type>(-1);

  constexpr string_view() noexcept : data_(nullptr), length_(0) {}
  string_view(const char* str) noexcept
      : data_(str), length_(str == nullptr ? 0 : std::strlen(str)) {}
  string_view(const std::basic_string<char>& str) noexcept
      : data_(str.c_str()), length_(str.length()) {}
  string_view(const char* str, size_type len) noexcept
      : data_(str), length_(len) {}

  operator std::string() const {
    return length_ == 0 ? std::string{} : std::string(data_, length_);
  }

  constexpr const char* data() const noexcept { return data_; }
  constexpr bool empty() const noexcept { return length_ == 0; }
  constexpr size_type length() const noexcept { return length_; }
  constexpr size_type size() const noexcept { return length_; }
  constexpr const char* begin() const noexcept { return data_; }
  constexpr const char* end() const noexcept { return data_ + length_; }
  constexpr const char& operator[](std::size_t i) const noexcept {
    return *(data_ + i);
  }

 private:
  const char* data_;
  size_type length_;
};

inline bool operator==(string_view lhs, string_view rhs) noexcept {
  return lhs.length() == rhs.length() &&
         std::equal(lhs.data(), lhs.data() + lhs.length(), rhs.data());
}
inline bool operator==(string_view lhs, const std::string& rhs) noexcept {
  return lhs == string_view(rhs);
}
inline bool operator==(const std::string& lhs, string_view rhs) noexcept {
  return string_view(lhs) == rhs;
}
inline bool operator==(string_view lhs, const char* rhs) noexcept {
  return lhs == string_view(rhs);
}
inline bool operator==(const char* lhs, string_view rhs) noexcept {
  return string_view(lhs) == rhs;
}
inline bool operator!=(string_view lhs, string_view rhs) noexcept {
  return !(lhs == rhs);
}
inline bool operator!=(string_view lhs, const std::string& rhs) noexcept {
  return !(lhs == rhs);
}
inline bool operator!=(const std::string& lhs, string_view rhs) noexcept {
  return !(lhs == rhs);
}
inline bool operator!=(string_view lhs, const char* rhs) noexcept {
  return !(lhs == rhs);
}
inline bool operator!=(const char* lhs, string_view rhs) noexcept {
  return !(lhs == rhs);
}
inline std::ostream& operator<<(std::ostream& os, const string_view& ref) {
  return os.write(ref.data(), static_cast<std::streamsize>(ref.length()));
}
END_OPENTRACING_ABI_NAMESPACE
}  // namespace opentracing
#endif
