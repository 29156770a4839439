#ifndef OPENTRACING_NOOP_H
#define OPENTRACING_NOOP_H
#include <opentracing/tracer.h>
namespace opentracing {
BEGIN_OPENTRACING_ABI_NAMESPACE
std::shared_ptr<Tracer> MakeNoopTracer() noexcept;
END_OPENTRACING_ABI_NAMESPACE
}  // namespace opentracing
#endif
