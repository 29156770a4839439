#ifndef OPENTRACING_DYNAMIC_LOAD_H
#define OPENTRACING_DYNAMIC_LOAD_H
#include <opentracing/tracer_factory.h>
#include <opentracing/version.h>
#include <cstring>
#include <memory>
#include <string>
namespace opentracing {
BEGIN_OPENTRACING_ABI_NAMESPACE
const std::error_category& dynamic_load_error_category();
extern const std::error_code dynamic_load_failure_error;
extern const std::error_code dynamic_load_not_supported_error;
extern const std::error_code incompatible_library_versions_error;
END_OPENTRACING_ABI_NAMESPACE
}  // namespace opentracing
extern "C" {
typedef int OpenTracingMakeTracerFactoryType(const char* opentracing_version,
                                             const char* opentracing_abi_version,
                                             const void** error_category,
                                             void* error_message,
                                             void** tracer_factory);
extern OpenTracingMakeTracerFactoryType* const OpenTracingMakeTracerFactory;
}
#define OPENTRACING_DECLARE_IMPL_FACTORY(X)                              \
  extern "C" {                                                           \
  extern OpenTracingMakeTracerFactoryType* const                         \
      OpenTracingMakeTracerFactory;                                      \
  OpenTracingMakeTracerFactoryType* const OpenTracingMakeTracerFactory = X; \
  }
#endif
