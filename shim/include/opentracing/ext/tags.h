#ifndef OPENTRACING_EXT_TAGS_H
#define OPENTRACING_EXT_TAGS_H
#include <opentracing/string_view.h>
#include <opentracing/version.h>
namespace opentracing {
BEGIN_OPENTRACING_ABI_NAMESPACE
namespace ext {
extern const string_view span_kind;
extern const string_view error;
extern const string_view component;
extern const string_view sampling_priority;
extern const string_view peer_service;
extern const string_view http_url;
extern const string_view http_method;
extern const string_view http_status_code;
}  // namespace ext
END_OPENTRACING_ABI_NAMESPACE
}  // namespace opentracing
#endif
