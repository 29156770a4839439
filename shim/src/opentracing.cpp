#include <opentracing/dynamic_load.h>
#include <opentracing/ext/tags.h>
#include <opentracing/noop.h>
#include <opentracing/propagation.h>
#include <opentracing/tracer.h>
#include <opentracing/tracer_factory.h>

namespace opentracing {
BEGIN_OPENTRACING_ABI_NAMESPACE
namespace {
struct PropagationCategory : std::error_category {
  const char* name() const noexcept override {
    return "OpenTracingPropagationError";
  }
  std::error_condition default_error_condition(int code) const
      noexcept override {
    if (code == 1 || code == 2) {
      return std::make_error_condition(std::errc::not_supported);
    }
    if (code == 3) return std::make_error_condition(std::errc::invalid_argument);
    return std::error_condition(code, *this);
  }
  std::string message(int code) const override {
    switch (code) {
      case 1: return "opentracing: invalid span context";
      case 2: return "opentracing: invalid carrier";
      case 3: return "opentracing: span context corrupted";
      case 4: return "opentracing: SpanContext key not found";
      case 5: return "opentracing: Lookup for the given key is not supported";
    }
    return "opentracing: unknown propagation error";
  }
};
struct FactoryCategory : std::error_category {
  const char* name() const noexcept override {
    return "OpenTracingTracerFactoryError";
  }
  std::string message(int code) const override {
    switch (code) {
      case 1: return "opentracing: failed to parse configuration";
      case 2: return "opentracing: invalid configuration";
    }
    return "opentracing: unknown tracer factory error";
  }
};
struct LoadCategory : std::error_category {
  const char* name() const noexcept override {
    return "OpenTracingDynamicLoadError";
  }
  std::string message(int code) const override {
    switch (code) {
      case 1: return "opentracing: failed to load dynamic library";
      case 2: return "opentracing: dynamic library loading is not supported";
      case 3: return "opentracing: incompatible opentracing versions";
    }
    return "opentracing: unknown dynamic load error";
  }
};
const PropagationCategory propagation_category{};
const FactoryCategory factory_category{};
const LoadCategory load_category{};

class NoopContext : public SpanContext {
 public:
  void ForeachBaggageItem(
      std::function<bool(const std::string&, const std::string&)>)
      const override {}
};
class NoopSpan : public Span {
 public:
  explicit NoopSpan(std::shared_ptr<const Tracer>&& t) : t_(std::move(t)) {}
  void FinishWithOptions(const FinishSpanOptions&) noexcept override {}
  void SetOperationName(string_view) noexcept override {}
  void SetTag(string_view, const Value&) noexcept override {}
  void SetBaggageItem(string_view, string_view) noexcept override {}
  std::string BaggageItem(string_view) const noexcept override { return {}; }
  void Log(std::initializer_list<std::pair<string_view, Value>>) noexcept
      override {}
  const SpanContext& context() const noexcept override { return c_; }
  const Tracer& tracer() const noexcept override { return *t_; }

 private:
  std::shared_ptr<const Tracer> t_;
  NoopContext c_;
};
class NoopTracer : public Tracer,
                   public std::enable_shared_from_this<NoopTracer> {
 public:
  std::unique_ptr<Span> StartSpanWithOptions(string_view,
                                             const StartSpanOptions&) const
      noexcept override {
    return std::unique_ptr<Span>(new NoopSpan(shared_from_this()));
  }
  expected<void> Inject(const SpanContext&, std::ostream&) const override {
    return {};
  }
  expected<void> Inject(const SpanContext&,
                        const TextMapWriter&) const override {
    return {};
  }
  expected<void> Inject(const SpanContext&,
                        const HTTPHeadersWriter&) const override {
    return {};
  }
  expected<std::unique_ptr<SpanContext>> Extract(std::istream&) const override {
    return std::unique_ptr<SpanContext>(nullptr);
  }
  expected<std::unique_ptr<SpanContext>> Extract(
      const TextMapReader&) const override {
    return std::unique_ptr<SpanContext>(nullptr);
  }
  expected<std::unique_ptr<SpanContext>> Extract(
      const HTTPHeadersReader&) const override {
    return std::unique_ptr<SpanContext>(nullptr);
  }
};
}  // namespace

const std::error_category& propagation_error_category() {
  return propagation_category;
}
const std::error_category& tracer_factory_error_category() {
  return factory_category;
}
const std::error_category& dynamic_load_error_category() {
  return load_category;
}
const std::error_code invalid_span_context_error(1, propagation_category);
const std::error_code invalid_carrier_error(2, propagation_category);
const std::error_code span_context_corrupted_error(3, propagation_category);
const std::error_code key_not_found_error(4, propagation_category);
const std::error_code lookup_key_not_supported_error(5, propagation_category);
const std::error_code configuration_parse_error(1, factory_category);
const std::error_code invalid_configuration_error(2, factory_category);
const std::error_code dynamic_load_failure_error(1, load_category);
const std::error_code dynamic_load_not_supported_error(2, load_category);
const std::error_code incompatible_library_versions_error(3, load_category);

std::shared_ptr<Tracer> MakeNoopTracer() noexcept {
  return std::shared_ptr<Tracer>(new NoopTracer);
}
namespace ext {
const string_view span_kind = "span.kind";
const string_view error = "error";
const string_view component = "component";
const string_view sampling_priority = "sampling.priority";
const string_view peer_service = "peer.service";
const string_view http_url = "http.url";
const string_view http_method = "http.method";
const string_view http_status_code = "http.status_code";
}  // namespace ext
END_OPENTRACING_ABI_NAMESPACE
}  // namespace opentracing
