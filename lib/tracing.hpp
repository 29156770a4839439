// A tracer whose reports are collected, carriers, and foreign span contexts.
#ifndef VERIF_TRACING_HPP
#define VERIF_TRACING_HPP
#include <lightstep/tracer.h>
#include <lightstep/transporter.h>
#include <opentracing/tracer.h>
#include <string.h>
#include <memory>
#include <string>
#include <vector>
#include "lightstep-tracer-common/collector.pb.h"
#include "pbt.hpp"
#include "tracer/lightstep_span_context.h"

namespace tracing {
namespace ls = lightstep;
namespace collector = lightstep::collector;

struct Sink {
  std::vector<collector::ReportRequest> reports;
  std::string error;
  std::vector<std::pair<ls::LogLevel, std::string>> logs;

  void accept(const ls::BufferChain& chain) {
    std::string s, t(chain.num_bytes(), '\0');
    size_t fragments = 0;
    std::pair<std::string*, size_t*> ctx{&s, &fragments};
    chain.ForEachFragment(
        [](void* p, const void* data, size_t n) {
          auto& x = *static_cast<std::pair<std::string*, size_t*>*>(p);
          x.first->append(static_cast<const char*>(data), n);
          ++*x.second;
          return true;
        },
        &ctx);
    chain.CopyOut(&t[0], t.size());
    if (s != t) error = "CopyOut and ForEachFragment disagree";
    if (fragments != chain.num_fragments()) error = "wrong number of fragments";
    reports.emplace_back();
    if (!reports.back().ParseFromString(s)) error = "a report does not parse";
  }
  std::vector<collector::Span> spans() const {
    std::vector<collector::Span> r;
    for (auto& rep : reports)
      for (auto& s : rep.spans()) r.push_back(s);
    return r;
  }
};

class Manual : public ls::AsyncTransporter {
 public:
  explicit Manual(std::shared_ptr<Sink> s) : sink(std::move(s)) {}
  void Send(std::unique_ptr<ls::BufferChain>&& m,
            Callback& cb) noexcept override {
    sink->accept(*m);
    cb.OnSuccess(*m);
  }
  std::shared_ptr<Sink> sink;
};
class Legacy : public ls::LegacyAsyncTransporter {
 public:
  explicit Legacy(std::shared_ptr<Sink> s) : sink(std::move(s)) {}
  void Send(const google::protobuf::Message& request,
            google::protobuf::Message& response, Callback& cb) override {
    // as another process would see it
    sink->reports.emplace_back();
    if (!sink->reports.back().ParseFromString(request.SerializeAsString()))
      sink->error = "a report does not parse";
    response.Clear();
    cb.OnSuccess();
  }
  std::shared_ptr<Sink> sink;
};

struct Fixture {
  std::shared_ptr<Sink> sink = std::make_shared<Sink>();
  std::shared_ptr<ls::LightStepTracer> tracer;
};

inline Fixture make(bool legacy, ls::LightStepTracerOptions options = {}) {
  Fixture f;
  auto sink = f.sink;
  options.use_thread = false;
  if (options.access_token.empty()) options.access_token = "token";
  if (!options.logger_sink)
    options.logger_sink = [sink](ls::LogLevel l, opentracing::string_view m) {
      sink->logs.emplace_back(l, std::string(m.data(), m.size()));
    };
  if (legacy)
    options.transporter.reset(new Legacy(sink));
  else
    options.transporter.reset(new Manual(sink));
  f.tracer = ls::MakeLightStepTracer(std::move(options));
  return f;
}

// A context that belongs to some other tracer.
struct Foreign : opentracing::SpanContext {
  void ForeachBaggageItem(
      std::function<bool(const std::string&, const std::string&)> f)
      const override {
    f("foreign", "baggage");
  }
};

typedef std::vector<std::pair<std::string, std::string>> Headers;

inline bool iequal(const std::string& a, const std::string& b) {
  return a.size() == b.size() && strncasecmp(a.data(), b.data(), a.size()) == 0;
}

template <class Base>
struct Writer : Base {
  Headers headers;
  int fail_after = -1;  // fails at this Set
  opentracing::expected<void> Set(opentracing::string_view k,
                                  opentracing::string_view v) const override {
    auto self = const_cast<Writer*>(this);
    if (self->fail_after == 0)
      return opentracing::make_unexpected(
          std::make_error_code(std::errc::network_down));
    --self->fail_after;
    self->headers.emplace_back(std::string(k.data(), k.size()),
                               std::string(v.data(), v.size()));
    return {};
  }
};
typedef Writer<opentracing::TextMapWriter> TextWriter;
typedef Writer<opentracing::HTTPHeadersWriter> HttpWriter;

// Keys and values lie in buffers of exactly their size, so that reading past
// their ends is noticed.
template <class Base>
struct Reader : Base {
  struct Item {
    std::unique_ptr<char[]> k, v;
    size_t nk, nv;
  };
  std::vector<Item> items;
  bool lookup = false;
  bool ignore_case;
  int fail_after = -1;  // fails whenever it gets to this item
  int fail_at = -1;     // fails once, when it has shown so many items in all
  bool fail_lookup = false;
  mutable int shown = 0, failures = 0;
  Reader(const Headers& h, bool ic) : ignore_case(ic) {
    for (auto& x : h) {
      items.emplace_back();
      auto& i = items.back();
      i.k.reset(new char[i.nk = x.first.size()]);
      i.v.reset(new char[i.nv = x.second.size()]);
      memcpy(i.k.get(), x.first.data(), i.nk);
      memcpy(i.v.get(), x.second.data(), i.nv);
    }
  }
  opentracing::expected<opentracing::string_view> LookupKey(
      opentracing::string_view k) const override {
    if (!lookup)
      return opentracing::make_unexpected(
          opentracing::lookup_key_not_supported_error);
    if (fail_lookup || shown == fail_at) {
      ++failures;
      ++shown;
      return opentracing::make_unexpected(
          std::make_error_code(std::errc::network_down));
    }
    ++shown;
    std::string key(k.data(), k.size());
    for (auto& i : items) {
      std::string name(i.k.get(), i.nk);
      if (ignore_case ? iequal(name, key) : name == key)
        return opentracing::string_view{i.v.get(), i.nv};
    }
    return opentracing::make_unexpected(opentracing::key_not_found_error);
  }
  opentracing::expected<void> ForeachKey(
      std::function<opentracing::expected<void>(opentracing::string_view,
                                                opentracing::string_view)>
          f) const override {
    int n = 0;
    for (auto& i : items) {
      if (n++ == fail_after || shown++ == fail_at) {
        ++failures;
        return opentracing::make_unexpected(
            std::make_error_code(std::errc::network_down));
      }
      auto r = f(opentracing::string_view{i.k.get(), i.nk},
                 opentracing::string_view{i.v.get(), i.nv});
      if (!r) return r;
    }
    return {};
  }
};
struct TextReader : Reader<opentracing::TextMapReader> {
  explicit TextReader(const Headers& h) : Reader(h, false) {}
};
struct HttpReader : Reader<opentracing::HTTPHeadersReader> {
  explicit HttpReader(const Headers& h) : Reader(h, true) {}
};

inline std::string show(const Headers& h) {
  std::string s = "{";
  for (auto& x : h)
    s += pbt::Case::quote(x.first, 60) + ":" + pbt::Case::quote(x.second, 120) +
         ",";
  return s + "}";
}

inline const ls::LightStepSpanContext& ctx(const opentracing::SpanContext& c) {
  return dynamic_cast<const ls::LightStepSpanContext&>(c);
}

inline std::map<std::string, std::string> baggage_of(
    const opentracing::SpanContext& c) {
  std::map<std::string, std::string> m;
  c.ForeachBaggageItem([&](const std::string& k, const std::string& v) {
    m.emplace(k, v);
    return true;
  });
  return m;
}
inline std::string show(const std::map<std::string, std::string>& m) {
  return show(Headers(m.begin(), m.end()));
}
}  // namespace tracing
#endif
