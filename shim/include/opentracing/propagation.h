#ifndef OPENTRACING_PROPAGATION_H
#define OPENTRACING_PROPAGATION_H
#include <opentracing/string_view.h>
#include <opentracing/util.h>
#include <opentracing/version.h>
#include <functional>
#include <iosfwd>
#include <memory>
#include <string>
#include <system_error>

namespace opentracing {
BEGIN_OPENTRACING_ABI_NAMESPACE
class Tracer;
class SpanContext;
enum class SpanReferenceType { ChildOfRef = 1, FollowsFromRef = 2 };

const std::error_category& propagation_error_category();
extern const std::error_code invalid_span_context_error;
extern const std::error_code invalid_carrier_error;
extern const std::error_code span_context_corrupted_error;
extern const std::error_code key_not_found_error;
extern const std::error_code lookup_key_not_supported_error;

class TextMapReader {
 public:
  virtual ~TextMapReader() = default;
  virtual expected<string_view> LookupKey(string_view /*key*/) const {
    return make_unexpected(lookup_key_not_supported_error);
  }
  virtual expected<void> ForeachKey(
      std::function<expected<void>(string_view key, string_view value)> f)
      const = 0;
};
class TextMapWriter {
 public:
  virtual ~TextMapWriter() = default;
  virtual expected<void> Set(string_view key, string_view value) const = 0;
};
class HTTPHeadersReader : public TextMapReader {};
class HTTPHeadersWriter : public TextMapWriter {};
class CustomCarrierReader {
 public:
  virtual ~CustomCarrierReader() = default;
  virtual expected<std::unique_ptr<SpanContext>> Extract(
      const Tracer& tracer) const = 0;
};
class CustomCarrierWriter {
 public:
  virtual ~CustomCarrierWriter() = default;
  virtual expected<void> Inject(const Tracer& tracer,
                                const SpanContext& sc) const = 0;
};
END_OPENTRACING_ABI_NAMESPACE
}  // namespace opentracing
#endif
